prop("C01", "String values are accepted exactly when they satisfy the declared constraints",
 "Validating a value against a String type succeeds exactly when the value is a string whose length in bytes lies within the declared inclusive minimum and maximum size, and that is one of the declared allowed values, when such a list is declared, or else matches the declared pattern, when one is declared. The result is the same whether the type is reached directly, by name, or as the type of a field or item.",
 "every combination of declared string constraints, every bound, every string length, list and pattern",
 NOTEST + "no test validates a string, and a finite sample cannot cover all bounds and combinations.",
 ["model.go"], [("Model.Validate", "model.go"), ("Model.ValidateString", "model.go")])
prop("C02", "Numbers are accepted exactly within their declared or implied range",
 "Validating a number against a numeric type succeeds exactly when the number lies within the declared inclusive minimum and maximum. Where no bound is declared on a side, a sized integer type (Int8, Int16, Int32, Int64) accepts no number outside the range of that size on that side; an integer type accepts no fraction, and a value that is not a number is rejected.",
 "every numeric type, every declared bound (also at, below and above), every number",
 NOTEST + "bounds and numbers range over all decimals.",
 ["model.go"], [("Model.ValidateNumber", "model.go")])
prop("C03", "Arrays and maps are accepted exactly when size and every item are valid",
 "Validating a value against an Array or Map type succeeds exactly when the value is a list (or a map) whose number of items lies within the declared inclusive bounds and each of whose items is valid for the declared item type. One invalid item, at any position and any depth, makes the whole value invalid.",
 "every size bound, length, item type and position of an invalid item",
 NOTEST + "lengths and item positions are unbounded.",
 ["model.go"], [("Model.ValidateArray", "model.go"), ("Model.ValidateMap", "model.go")])
prop("C04", "Structs are accepted exactly when fields are present, known and valid",
 "Validating a value against a Struct type succeeds exactly when the value is a map that has every required field, has no field that is not declared, and whose every present field is valid for the field's type. The order in which fields are declared or given makes no difference.",
 "every set of declared fields, every subset of present fields, every position of a missing, unknown or invalid field",
 NOTEST + "the set of struct declarations and values is unbounded.",
 ["model.go"], [("Model.ValidateStruct", "model.go"), ("Model.IsStructField", "model.go")])
prop("C05", "Each type accepts exactly its own forms of value, through any chain of names",
 "Bool, Enum, UUID, Timestamp, UnitValue and the remaining types accept exactly the values of their own form (for an Enum, exactly the declared symbols) and reject values of every other form with an error rather than a crash. A type reached through names validates as the type it stands for, and a name that is not defined is reported as an error.",
 "every pair of type and form of value, every chain of names",
 NOTEST + "the pairs of type and value form are not sampled by any test.",
 ["model.go"], [("Model.Validate", "model.go"), ("Model.ValidateAgainstTypeSpec", "model.go"), ("Model.ValidateEnum", "model.go"), ("Model.ValidateUUID", "model.go"), ("Model.ValidateUnitValue", "model.go"), ("Model.ValidateTimestamp", "model.go"), ("Model.ValidateBool", "model.go")])
prop("C06", "A model has unique names and resolves exactly the declared ones",
 "Building a model from a schema fails exactly when two types, or two http actions, share a name, or a type has the name of a base type. Otherwise every declared type and action and every base type is found under its own name, any other name is found to be undefined, and the model carries every part of the schema unchanged.",
 "every schema: number, order and position of declarations and duplicates",
 NOTEST + "schemas are unbounded.",
 ["model.go"], [("NewModel", "model.go"), ("Model.FindType", "model.go"), ("Model.FindHttp", "model.go")])
prop("C07", "Type equivalence is exact on constraints, symmetric and total",
 "Two types are reported as equivalent exactly when they are of the same kind with equal constraints: size and value bounds, pattern, reference, allowed values, elements and variants as sets, and equivalent item, key, value and unit types. The answer does not depend on the order of the two, a type is equivalent to itself, and an undefined name is not equivalent to a defined one.",
 "every pair of types, in both orders",
 NOTEST + "pairs of types are unbounded.",
 ["model.go"], [("Model.EquivalentTypes", "model.go"), ("Model.EquivalentTypesByName", "model.go")],
 note="Struct field comparison is a known finding.")
prop("C08", "Lifting inline enums keeps every other declaration and every element",
 "Converting inline enums gives each struct field that declared an enum inline a reference to a top-level enum with the same elements in the same order and the same comments and annotations, defined exactly once. All other types, fields and their attributes stay as they were; a conflicting existing definition is reported as an error.",
 "every schema with any number of structs, fields and inline enums",
 NOTEST + "schemas are unbounded.",
 ["model.go"], [("Model.ConvertInlineEnums", "model.go")])
prop("C09", "Example targets resolve exactly to the type they name",
 "The target of an example resolves to the named type, to the type of the named field path of it, or to the inputs or outputs (by status) of the named http action. Any other target is reported as an error and never as another type or a crash.",
 "every target and model",
 NOTEST + "targets and models are unbounded.",
 ["model.go"], [("Model.FindExampleType", "model.go")])
prop("C10", "Decimals survive encoding and conversion exactly",
 "A decimal number encodes to a decimal text that decodes to the same number, with at least 250 bits of precision when read from text. Conversions, defaults and equality keep the number, and a text that is not a number is reported as an error.",
 "every number",
 NOTEST + "the numbers are unbounded; the existing tests use generated structs, not this type's code paths.",
 ["decimal.go"], [("Decimal.MarshalJSON", "decimal.go"), ("Decimal.UnmarshalJSON", "decimal.go"), ("ParseDecimal", "decimal.go"), ("DecimalValue", "decimal.go")])
prop("C11", "Timestamps print in UTC to the millisecond and read back",
 "A timestamp prints as four-digit year, month, day, hour, minute, second and three-digit millisecond of its instant in UTC, and encodes to that text in quotes. Reading accepts exactly such UTC texts, yields that instant, and on any other text reports an error and changes nothing.",
 "every instant, zone and text",
 NOTEST + "instants, zones and texts are unbounded.",
 ["timestamp.go"], [("Timestamp.String", "timestamp.go"), ("ParseTimestamp", "timestamp.go"), ("Timestamp.UnmarshalJSON", "timestamp.go")])
prop("C12", "UUIDs and unit values accept exactly their text form and survive encoding",
 "A text is accepted as a UUID exactly when it has the 8-4-4-4-12 hexadecimal form, and as a unit value exactly when it is a decimal number, one space and a unit. An accepted text decodes to its parts, encodes to a text that decodes to the same parts, and any other text is reported as invalid.",
 "every text, position of a wrong character, number and unit",
 NOTEST + "texts are unbounded.",
 ["uuid.go", "unitvalue.go"], [("ParseUUID", "uuid.go"), ("UUID.UnmarshalJSON", "uuid.go"), ("ParseUnitValue", "unitvalue.go"), ("UnitValue.MarshalJSON", "unitvalue.go")])
prop("C13", "Generic data reads back what is stored under a key path",
 "Reading a key path from generic data returns the value stored there converted to the requested kind; a missing key anywhere on the path, or a value of another kind, gives the zero value of that kind and never a crash. Storing under a key makes exactly that key readable and leaves the others alone.",
 "every nesting of maps, key path, stored kind and requested kind",
 NOTEST + "paths and values are unbounded.",
 ["data.go", "struct_helpers.go"], [("Data.Get", "data.go"), ("Data.Put", "data.go"), ("AsString", "struct_helpers.go")])
prop("C14", "Generated files never overwrite existing ones unless asked to",
 "Writing a generated file whose path already exists leaves that file untouched, unless the configuration asks to force overwriting. Otherwise the file afterwards holds exactly the generated content and no other file is changed.",
 "every path, content, configuration and state of the file system",
 NOTEST + "no test writes a file; contents and paths are unbounded.",
 ["generator.go", "data.go"], [("Generator.WriteFile", "generator.go"), ("Generator.FileExists", "generator.go"), ("DataToFile", "data.go")], over=("inputs", "fault_sequences"))
prop("C15", "A generator's first failure is kept and stops its output",
 "When an output operation of a generator fails (opening, writing, a template), the failure is recorded as the generator's error; a recorded error is never replaced or cleared by later operations, and no text or file is produced after it. Without failure the collected text is exactly the emitted pieces and expanded templates in order, and configuration values are looked up with their defaults.",
 "every sequence of operations and position of the failing one",
 NOTEST + "no test makes an output operation fail.",
 ["generator.go"], [("Generator.Emit", "generator.go"), ("Generator.EmitTemplate", "generator.go"), ("Generator.Begin", "generator.go"), ("Generator.End", "generator.go"), ("Generator.WriteFile", "generator.go")], over=("inputs", "fault_sequences", "histories"))
prop("C16", "OpenAPI export keeps every type with its constraints",
 "Exporting a model to OpenAPI gives each declared type exactly one schema, under its own name, of the corresponding OpenAPI type and format and with the same bounds, pattern, allowed values, elements, fields, required fields, items and comment. A type written in place (in a field or parameter) has the same constraints, a type used by name is referred to or repeated with the same constraints, and every reference leads to a schema that exists; the title, version, license and servers are those of the model.",
 "every model: kinds of type, combinations of constraints, nesting, number and order of declarations",
 NOTEST + "the only test of the package needs an absent module, and models are unbounded.",
 ["openapi/export_openapi.go"], [("Generator.ExportToOAS3", "openapi/export_openapi.go"), ("Generator.exportTypeDef", "openapi/export_openapi.go"), ("Generator.oasSchema", "openapi/export_openapi.go")])
prop("C17", "OpenAPI export keeps every http action with its inputs and responses",
 "Exporting a model to OpenAPI gives each http action one operation, under the model's base path and the action's path without its query, and under the action's method, with its name, comment and tags. The operation has each input as the path, query or header parameter or body it is, the expected response with its status, body and headers, each exception with its status, and the examples given for it; two actions with the same method and path, or an unknown method, are reported as an error.",
 "every set of actions: methods, paths, queries, inputs, outputs, exceptions, examples",
 NOTEST + "the only test of the package needs an absent module, and models are unbounded.",
 ["openapi/export_openapi.go"], [("Generator.ExportToOAS3", "openapi/export_openapi.go"), ("Generator.FindOperation", "openapi/export_openapi.go")])
prop("C18", "OpenAPI import keeps every schema with its constraints",
 "Importing an OpenAPI document declares, for each component schema, exactly one type under its name, of the corresponding kind and with the same bounds, pattern, allowed values, elements, fields, required fields, items, references and description, in an order that does not depend on chance. What the import does not support, at any depth, is reported as an error and never as a crash or a missing declaration.",
 "every document: kinds of schema, combinations of constraints, nesting, number of schemas",
 NOTEST + "the only test of the package needs an absent module, and documents are unbounded.",
 ["openapi/import_openapi.go"], [("Model.ToSadl", "openapi/import_openapi.go"), ("oasTypeRef", "openapi/import_openapi.go"), ("convertOasType", "openapi/import_openapi.go")])
prop("C19", "OpenAPI import keeps every operation with its parameters and responses",
 "Importing an OpenAPI document gives each operation of each path one http action with its method, path, name, description and tags. The action has each parameter as the path, query or header input it is, with its type and required flag, the request body as an input, the successful response as its expected outcome with body and headers, and each other response as an exception with its status.",
 "every document: paths, methods, parameters, bodies, responses",
 NOTEST + "the only test of the package needs an absent module, and documents are unbounded.",
 ["openapi/import_openapi.go"], [("Model.ToSadl", "openapi/import_openapi.go"), ("convertOasPath", "openapi/import_openapi.go")])
prop("C20", "A Swagger document is read as the OpenAPI document it stands for",
 "Loading a Swagger 2.0 document gives the OpenAPI document with the same information: each definition as a schema with its constraints, each operation under its path and method with its parameters, body, responses, headers and media types, and the document's title, version, license and server. Any document that is not Swagger 2.0 or cannot be read is reported as an error and never crashes the import.",
 "every document: definitions, constraints, nesting, paths, parameters, responses",
 NOTEST + "the only test of the package needs an absent module, and documents are unbounded.",
 ["openapi/import_swagger.go"], [("LoadSwagger", "openapi/import_swagger.go"), ("ImportSwagger", "openapi/import_swagger.go"), ("toV3Schema", "openapi/import_swagger.go")])
prop("C21", "OpenAPI documents are loaded when valid and saved without loss",
 "Loading an OpenAPI file succeeds exactly when it can be read and decoded (as YAML for .yaml, as JSON otherwise) and has its version, info with title and version, named license if any, and paths that each start with a slash; importing takes exactly one file and names the model after the title or the file. An OpenAPI document encodes each of its parts under the name the OpenAPI specification gives it, and absent parts not at all.",
 "every file, document and combination of present and missing parts",
 NOTEST + "the only test of the package needs an absent module, and documents are unbounded.",
 ["openapi/model.go", "openapi/import_openapi.go"], [("Validate", "openapi/model.go"), ("Load", "openapi/import_openapi.go"), ("Import", "openapi/import_openapi.go"), ("Model.MarshalJSON", "openapi/model.go")])
prop("C22", "GraphQL export keeps every struct, enum and union and refers to existing types",
 "Exporting a model to GraphQL defines each struct, enum and union exactly once under its own name with all of its fields, elements or variants, each field with the GraphQL type that corresponds to its type (also through names and in lists), marked as required exactly when it is, and its comment. Configured custom scalars are declared once, every type referred to is defined, and a type GraphQL does not have is reported as an error.",
 "every model: kinds of type, chains of names, nesting of arrays, number and order of declarations, scalar configuration",
 NOTEST + "models are unbounded and the package has no test.",
 ["graphql/export_graphql.go"], [("FromSadl", "graphql/export_graphql.go"), ("GraphqlWriter.typeRef", "graphql/export_graphql.go")])
prop("C23", "GraphQL import keeps every object, enum and union",
 "Importing a GraphQL document declares, besides the ID type, exactly one type for each object, enum and union definition that is not a root operation type, with the same name, description and members in the same order, each field with the corresponding type, required exactly when it is non-null, lists as arrays of their item type. Unsupported scalars, definitions and nested lists, unreadable or malformed files are reported as errors and never as a crash.",
 "every document: definitions, order, field types and descriptions",
 NOTEST + "documents are unbounded and the package has no test.",
 ["graphql/import_graphql.go"], [("Import", "graphql/import_graphql.go"), ("gqlSchema", "graphql/import_graphql.go")])
prop("C24", "Generated Go declares every type of the model with its fields and wire names",
 "Generating Go from a model gives Go files that compile and declare each type exactly once under its capitalized name: structs with all fields in order, each with the corresponding Go type and the model's own field name as JSON name (optional ones omitted when absent), enums with all elements that read and write exactly their symbols, unions with all variants, arrays, maps and named types. Each http action has its request and response types and its method in the service interface; a type Go generation does not support, or a file that cannot be written, is reported as an error.",
 "every model: kinds of type, nesting, names, number and order of declarations, configuration",
 NOTEST + "models are unbounded and the package has no test.",
 ["golang/export_golang.go", "golang/golang_model.go"], [("Export", "golang/export_golang.go")])
prop("C25", "Generated Go servers and clients carry every request and response faithfully",
 "The generated Go server has one route for each http action with its method and path, passes each input (path, query, header or body, or its default) to the implementation under its own name and type, and answers with the expected status, headers and body, with the status and body of the exception for a declared one, and with an error status for a malformed body or any other failure. The generated client sends the request the server expects and returns the expected outcome, the declared exception, or an error; both compile for every supported model.",
 "every set of actions and every request and response",
 NOTEST + "actions, requests and answers are unbounded and the package has no test.",
 ["golang/golang_server.go", "golang/golang_client.go"], [("Export", "golang/export_golang.go")])
prop("C26", "Generated Java classes hold exactly the declared types and values",
 "Generating Java from a model writes one public class for each struct, enum, union and unit value, and for the request and response of each http action, that compiles together with the service interface. Fields come in order under their names with the Java form of their type; an optional one may be null and is omitted from JSON when empty, a required one is primitive or marked as not null; size, pattern and range limits are kept. Getters, setters, builders and copies give back exactly the values put in, enums read and write exactly their symbols, a union holds exactly the variant it was made of, and types used as exceptions can be thrown. What Java cannot express (reserved names, kinds of types written in place) and failures to write files are reported as errors.",
 "every model and every value of a generated class",
 NOTEST + "types nest without bound and the package has no test.",
 ["java/export_java.go", "java/java_model.go", "java/java_util.go", "java/java_timestamp.go"], [("Export", "java/export_java.go"), ("CreateModel", "java/java_model.go")])
prop("C27", "Generated Java servers and clients carry every request and response faithfully",
 "The generated Java server has one route for each http action with its method and path below the base, passes each input (path, query, header or body, or its default) to the implementation under its own name and type, and answers with the expected status, headers and body, with the status and body of the exception for a declared one, and with status 500 for any other failure. The generated client sends the request the server expects and returns the expected outcome, throws the declared exception, or fails; both compile for every supported model, with mutable and immutable classes and with either form of exceptions.",
 "every set of actions and every request and response",
 NOTEST + "actions, requests and answers are unbounded and the package has no test.",
 ["java/java_server.go", "java/java_client.go"], [("CreateServer", "java/java_server.go"), ("CreateClient", "java/java_client.go")])
prop("C28", "HTTP traces of examples are the messages the action declares",
 "Exporting HTTP examples prints, for each action and each named example of its request, in the order they are declared, the request that the action's method, path, query, header and body inputs give for the example's values, and the answer of the same name: the expected status with its headers and body, or the status and body of the declared exception. Values that are absent are left out, the stated length is the length of the body, the date is in GMT, examples of other actions and names are not mixed in, and an example that is no object is reported as an error without crashing or ending the process.",
 "every action and every set of examples",
 NOTEST + "actions and examples are unbounded, and the order depends on the iteration order of a map; the package has no test.",
 ["httptrace/export_http_examples.go"], [("Export", "httptrace/export_http_examples.go")])
prop("C29", "Translations are reproducible",
 "The result of a translation (OpenAPI, GraphQL, Go, Java and HTTP trace export; OpenAPI, Swagger and GraphQL import) depends only on its input: it is the same, declaration by declaration and byte by byte, whichever order the maps involved (annotations, schemas, paths, responses, headers, content types, example members, custom scalars) are visited in, and whichever translations the same process did before.",
 "every iteration order of every map, every earlier translation",
 NOTEST + "Go visits maps in a random order, so a test sees one order at a time and passes by luck.",
 ["openapi/export_openapi.go", "openapi/import_openapi.go", "openapi/import_swagger.go", "graphql/export_graphql.go", "graphql/import_graphql.go", "golang/export_golang.go", "java/export_java.go", "httptrace/export_http_examples.go"], [("ToSadl", "openapi/import_openapi.go"), ("FromSadl", "graphql/export_graphql.go"), ("Export", "golang/export_golang.go"), ("Export", "java/export_java.go")])
prop("C30", "Translations leave the model they are given as it was",
 "Exporting a model to OpenAPI, GraphQL, Go, Java or HTTP traces, and converting an OpenAPI document to a model, changes nothing in the model or document given: its types, fields, actions, annotations and examples are the same afterwards, so that several exports of one model in one process do not influence each other.",
 "every model and document",
 NOTEST + "a change to shared data shows only in what is done with the model afterwards.",
 ["openapi/export_openapi.go", "openapi/import_openapi.go", "graphql/export_graphql.go", "golang/export_golang.go", "java/export_java.go", "httptrace/export_http_examples.go"], [("ExportToOAS3", "openapi/export_openapi.go"), ("FromSadl", "graphql/export_graphql.go"), ("Export", "golang/export_golang.go"), ("Export", "java/export_java.go"), ("ToSadl", "openapi/import_openapi.go")])
prop("C31", "A SADL text is read as exactly the model that it declares",
 "Parsing a SADL source gives a model with every directive, type, option, comment, annotation, field, inline type, element, variant, action, input, output, exception, operation and example the text declares, each attached to what it was written for, with its literal values, and nothing else. Layout (blank lines, block comments, semicolons, a missing final newline) makes no difference, a file names its model, the name and namespace options override the text, and included files contribute their types, actions and operations.",
 "every name, text, number and size in every construct of the language, in several layouts",
 "The parser's tests compare a few hand-written sources, and cannot be built where its scanner module is absent; names, texts, numbers and the combinations of constructs are unbounded.",
 ["parser.go"], [("ParseSadlString", "parser.go"), ("ParseSadlFile", "parser.go"), ("Parser.ParseNoValidate", "parser.go"), ("Parser.parseTypeDirective", "parser.go"), ("Parser.parseHttpDirective", "parser.go")],
 note="The scanner module is absent: its tokens are supplied by a transfer function that splits texts as its use in the parser requires (sadltext.go).")
prop("C32", "Text helpers compute their documented results for every text",
 "Capitalizing and uncapitalizing change only the first letter, a base file name is the last path element without its extension, symbol tests accept exactly identifiers, comments keep every word within the column limit behind the prefix, and annotations are looked up and printed by key. None of them crashes on any text, the empty one included.",
 "every text, column limit and annotation map",
 NOTEST + "texts are unbounded.",
 ["misc.go", "generator.go"], [("Capitalize", "misc.go"), ("BaseFileName", "misc.go"), ("FormatComment", "misc.go"), ("AnnotationsAsString", "misc.go"), ("IsSymbol", "misc.go")])
prop("C33", "The JSON form of a model has all of it under the documented names",
 "Encoding a model or schema as JSON keeps every part of it: each declared field of each type a schema is made of has a JSON name of its own, which is the field's name in lower camel case, is never dropped or shadowed by another field, and has a type that can be encoded and decoded.",
 "every model",
 NOTEST + "the rule concerns every field of every type of the schema, not one sample.",
 ["schema.go"], [("Schema", "schema.go"), ("TypeSpec", "schema.go")])
prop("C34", "Malformed and inconsistent SADL texts are refused, and none crashes the parser",
 "Parsing a text that is no SADL (an unknown directive, option or type, a missing or surplus token, an unclosed block) or that contradicts itself (an undefined or duplicate type or action, a default, example or constraint that does not fit its type, two bodies, a body where none can be) gives an error and no model. Whatever the text, the parser returns either a model or an error and never crashes.",
 "every listed kind of mistake with every name in it; every text that differs from a valid one by a cut, a missing, repeated, exchanged or foreign token",
 "The parser's tests try a handful of wrong sources, and cannot be built where its scanner module is absent.",
 ["parser.go", "model.go"], [("ParseSadlString", "parser.go"), ("Parser.Validate", "parser.go"), ("Parser.ParseOptions", "parser.go"), ("Parser.EndOfStatement", "parser.go")],
 note="The scanner module is absent: its tokens are supplied by a transfer function that splits texts as its use in the parser requires (sadltext.go).")
prop("C35", "A model printed as SADL is read back as the same model",
 "The SADL text printed for a model (the SADL export) is a valid SADL text that means the same model: every type with its constraints, fields, elements and variants, every action with its name, resource, parameters, response and exceptions, every operation and example, and every default, remark and annotation; the text does not depend on the order in which maps are visited.",
 "every model that a SADL text means, with every name and number in it",
 "No test prints a model as SADL, and the printer cannot be built where the scanner module is absent.",
 ["unparser.go", "parser.go"], [("DecompileSadl", "unparser.go"), ("SadlGenerator.sadlTypeSpec", "unparser.go"), ("SadlGenerator.sadlHttpSpec", "unparser.go"), ("SadlGenerator.sadlOperationSpec", "unparser.go"), ("ParseSadlString", "parser.go")],
 note="The scanner module is absent: its tokens are supplied by a transfer function that splits texts as its use in the parser requires (sadltext.go). Texts that need escapes in quotes are outside.")
