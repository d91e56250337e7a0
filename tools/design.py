import json
head=open('/verif/DESIGN.md').read()
i=head.find('\n<!-- per property -->')
if i>=0: head=head[:i]
P=r'''
<!-- per property -->

### Engine details that the properties rely on

* **Symbolic leaves.** Names, texts, bounds and sizes are atoms. An atom name stands for every identifier that is different from all the others in the
  scenario and from the constants it is compared with; texts are concatenations of constants and atoms (`strings.*`, `fmt.Sprintf`, regular expressions of
  constant patterns and `text/template` work on these pieces); numbers are affine terms with an ordering store, so that "bound + k, k > 0" is one obligation.
* **Representatives.** Numbers, sizes and HTTP statuses that end up in generated text are written as marked constants (`b.rep`, `b.size`, `b.code`: `#n`, `+#n`, `!#n`)
  that no comparison can tell from another number of their class: a branch on them splits into both answers, and the produced text must be right under each.
* **Decoration ("dress").** The obligations of C01-C09, C16, C17, C22, C24-C28 are decided a second time with comments and annotations on every
  declaration and defaults on struct fields. Attributes that a property says are irrelevant must not change the result.
* **Sharding.** The obligations of a property are split over up to 8 child processes of the analyser (`-jobs`); each loads the tree by itself.
  Obligations that compare outcomes with each other (C29) stay in one process.
* **Outside world.** Files and writers are an effect log with branch facts: `os.Stat`, `os.Open`, `os.Create`, `ReadFile`, `Write` split into success and
  failure; nothing is read or written when the analyser runs. JSON and YAML coding of types are interpreted over the struct tags of the current source.
* **Map order.** `range` over a map follows insertion order, except in C29, which decides each translation with the maps walked in several orders and requires the same term.
* **Generated code.** For C24-C27 the text that the generator writes (a term of constants and atoms) is completed with unique identifiers for atoms and then treated as
  program text: the Go is parsed and type-checked with go/types against stub declarations of its imports (`gengo.go`) and analysed by
  the same interpreter; the Java is parsed by a parser and a type/definite-assignment checker of our own (`genjava.go`) and followed by a small abstract interpreter of Java
  with models of Jersey/JAX-RS annotations, Jackson and java.net (`props_javahttp.go`). So the generated server and the generated client are analysed, not run.

### Per property: what is decided, in which bounds

Oracle: always the property's own text, written down as the condition of the obligation (never the present output of the code). Cost: seconds on 8 cores, given per property (quick = all
obligations; thorough adds larger shapes for the per-item enumerations). Counts include the decorated variants.

'''
secs=[
("C01","String values","`Model.Validate` on all combinations of MinSize/MaxSize (length below, at, between, at, above: symbolic bounds and lengths), value lists of 0-3 with the value at each place or absent, patterns (matched/unmatched), each as named type, alias, struct field, array item, map item, and each value form (string, *string, other kinds). Tests sample single lengths; here every bound and every length."),
("C02","Numbers","All ten numeric kinds x which bounds exist x value below/at/inside/at/above (symbolic bound and distance), value forms (*Decimal, Decimal, int.., float..), bounds implied by the size of an integer type, through aliases and in fields/items."),
("C03","Arrays and maps","Size bounds as C01 with symbolic sizes; items 0-8 with one invalid item at each position; typed items through names and two levels of nesting; wrong item and key types."),
("C04","Structs","All subsets of required/present fields up to 3 (thorough 4) fields, unknown extra fields at each position, null values, a value of each wrong form in a field of each kind; all orders."),
("C05","Forms of each type","Value form x type kind matrix (13 forms x 17 kinds, direct and through aliases), enum symbols at each position, UUID/Timestamp/UnitValue text forms by accepted and rejected witnesses, undefined names, unions."),
("C06","Model building","Every pair of equal names among up to 4 types or actions, each base type redeclared, lookup of each declared and an arbitrary other name, other schema parts carried over."),
("C07","Type equivalence","For each kind, each constraint: equal, different, only one side, both orders of the arguments, by spec and by name; sets in other orders; mutually recursive types; undefined names. Known finding: Struct fields (below)."),
("C08","Inline enums","Structs of 1-3 fields with inline enums in every subset of fields, attributes of fields kept, equal-named fields, existing definitions that agree or conflict."),
("C09","Example targets","Target texts built from declared and arbitrary names with up to 3 path steps, request/response by status (expected, each exception, none)."),
("C10","Decimals","Marshal/Unmarshal/Parse/As*/default conversions with an arbitrary number as atom; the precision given to the parser and the format verbs are checked on the terms (at least 250 bits, shortest exact digits)."),
("C11","Timestamps","Printing and parsing of instants at month/year/day/fraction boundaries with the layout interpreted by the analyser; rejected texts by class; JSON quoting; no change on error."),
("C12","UUID, UnitValue","Accepted and rejected texts: each position with each character class, lengths, separators; unit values with arbitrary number and unit atoms; encode/decode round trips."),
("C13","Generic data","Paths of 1-3 keys over stored values of each kind x each reading accessor; missing keys at each step; Put then Get of the same/other key."),
("C14","No overwrite","Force flag unset/false/true x file exists/absent/cannot be examined x failing calls: the effect log must hold exactly the allowed create and writes on that path."),
("C15","First failure kept","Each operation of the generator before/after a recorded error, every failing file operation, template failures (undefined field, unknown function); collected text is the concatenation of the pieces."),
("C16","OpenAPI export: types","Every kind x constraint combination x declared / field / array item / map item / parameter, structs with 0-3 fields and every required subset, arrays and maps nested, references, unions, inline types, descriptions."),
("C17","OpenAPI export: actions","Methods (pairs on one path and duplicates), base paths, one to four inputs of each place and required flag, expected (arbitrary status) with body/headers/comment, exceptions, tags, names, request and response examples."),
("C18","OpenAPI import: schemas","Component schemas of each type/format x bounds x pattern x enum x array x object (0-3 properties x required subsets) at each position among others; $ref forms; allOf; description; what cannot be represented is an error."),
("C19","OpenAPI import: operations","Methods, parameters by place and type, required/default, request bodies by content types, responses by status/headers/inline, default responses, tags, names derived from path and method."),
("C20","Swagger","Each definition form of C18 in Swagger 2.0 terms, parameters in every place, body parameters, responses, produces/consumes, info/license/host/basePath; documents that are not Swagger 2.0."),
("C21","Loading documents","File extension x read failure x decode failure x each missing required part; paths without slash; number of files; each field of each model type has the name OpenAPI gives it and survives a save."),
("C22","GraphQL export","Each kind of field direct, through names and in lists x required; structs with 0-4 fields, unions, enums, custom scalars configured or not, types GraphQL does not have; every referenced type is defined."),
("C23","GraphQL import","Field types (scalar, list, nested list, non-null at each level, references), descriptions, enums, unions, root types, arguments; documents that do not parse."),
("C24","Generated Go types","Each declared/inline type form, names of several spellings, namespaces and packages: the generated files type-check (go/types) and the declared Go types, JSON tags, enum methods, union coding and helper types are what the model says (enum/Timestamp/UUID/Decimal coding analysed by the interpreter)."),
("C25","Generated Go server and client","Both sides analysed: routes, input extraction, defaults, statuses, headers, bodies, exceptions; and round trips: request built by the generated client is fed to the generated server and its answer back, with names as atoms, arbitrary statuses, every order of inputs."),
("C26","Generated Java classes","As C24 for Java: parse and check with our own Java front end, classes/fields/getters/builders/enum/union/UnitValue, limits, immutable or not, JSON annotations, code of equals/builders analysed."),
("C27","Generated Java server and client","As C25 for Java, over the generator's flags (immutable, service exceptions)."),
("C28","HTTP traces","Request/response text for values of each kind in each place, present/absent, with/without body; several examples, exceptions, examples without counterpart; Content-Length is the byte length of the body term."),
("C29","Reproducible","Each translation with the maps of its input walked in several orders: the outcome terms (files and bytes) must be identical."),
("C30","Inputs untouched","Each translation on a model with every part: the heap reachable from the input is compared before and after."),
("C31","SADL texts","ParseSadlString/ParseSadlFile on texts with symbolic names, numbers and quoted texts for each construct (types with every option, fields, inline types, elements, variants, actions, operations, examples, directives, remarks in each place, includes, configuration) x layouts; the whole model is compared, so nothing may be lost, invented or attached elsewhere. Tokens come from a transfer function for the absent scanner."),
("C32","Text helpers","Case change, base names, symbol classes for each byte class, comment wrapping over texts x indent x prefix x column limits (words kept, limit kept), annotation lookup and printing; no panics on empty texts."),
("C33","JSON names","The types reachable from Schema and Model in go/types: tags, shadowing, encodable field types."),
("C34","Bad SADL texts","A list of texts by kind of mistake (options x types, values of options, types, references, defaults and examples x types, blocks, directives, paths, bodies, statuses, operations), each with symbolic names, must be refused on every outcome; and every text of C31 cut at each token or with a token missing, and eight texts that use the whole language with each token repeated, exchanged, replaced by or preceded by each of 24 others, must give a model or an error: no panic, no exit, no (nil, nil)."),
("C35","SADL printing","Every text of C31, and texts with known values of unusual forms, is parsed, the model printed by DecompileSadl with the maps visited in each of three orders, and the printed text, a term with the same symbolic names and numbers, parsed again: the second model must be the one C31 wants, or equal the first. JSON texts of defaults and examples are split into tokens by their structure; a number read back from its shortest text is the number."),
]
out=P
for id,t,txt in secs:
    e=json.load(open('/verif/evidence/%s.json'%id)); c=e['coverage']
    out+="* **%s %s** (%d obligations, %d undecided, %d functions, %.0f s): %s\n"%(id,t,c['discharged'],c.get('undecided') or 0,c['functions_analysed'],e['wall_s'],txt)
out+=r'''
### Not claimed

`not_applicable` in MANIFEST.json is empty: every property in properties.jsonl has a check. What is outside of all of them:
smithy/ and cmd/sadl import modules (boynton/smithy, boynton/data) that are absent from this sandbox; they neither compile nor
type-check here, so no property is stated for them (the check of a property could not tell a change from an unresolved type).
parser.go is type-checked against declarations that stand for the absent boynton/scanner (`scannerstub.go`); what `Scan` returns is a transfer function
(`sadltext.go`): names, numbers, quoted texts, line and block comments, newlines and punctuation, as the parser and its tests use them. Escapes in quoted texts
and characters outside ASCII are not determined by that use, so no obligation depends on them.
Properties over real network behaviour of generated programs beyond one request and one answer (concurrency, timeouts) are not stated.

### Known findings and repaired defects

KNOWN_FINDINGS.txt has one line for each. Recorded as known (not small to repair): C07 reports Struct types with the same number of fields as equivalent whatever their fields are.
Repaired by a "fix:" commit each: %d defects found by the checks (validation ranges, codecs, exports and imports that lost or invented parts, generated Go and Java that did not compile or lost values).
False alarms met while building were corrected in the machinery, never listed as findings.

### How the checks were tested

* **Seeded changes** (`seeded/`), each confirmed to build, to pass the stable tests and to fail its demonstration; the table says which check reports it:

%s
* **Mutations** (`tools/mutate`): single-point syntactic changes of every statement, condition, constant and text of the analysed packages that still compile and pass the tests.
  Reported: graphql export 188 of 257, import 182 of 226; golang export 82/118, client 121/161, model 127/152; httptrace 201/228; data.go 53/66, decimal 23/26, generator 65/79; openapi: ~85 percent.
  The survivors were read one by one: they are equivalent (dead code, duplicated guards), change the text of error messages only, or concern inputs outside the property; those that were not led to new obligations.
* **Adversarial lists**: about 140 hand-written changes that try to slip through a bounded shape (a special case for one name, status, count, position, or combination of attributes). Misses were answered by
  making the class symbolic (representatives, decoration, arbitrary statuses) rather than by adding the missed value.
* **Equivalent rewritings** (`tools/equiv`): about 80 batches of behaviour-preserving rewrites (helpers extracted, loops rewritten, statements reordered, conditions inverted, switch to if, renamed variables) over all files: zero alarms.
'''
import glob
fixed=sum(1 for l in open('/verif/KNOWN_FINDINGS.txt') if l.startswith('fixed:'))
rows="".join("  | %s | %s | %s |\n"%(d.split('/')[-2],(m:=json.load(open(d+'meta.json')))['property'],m['what_it_breaks']) for d in sorted(glob.glob('/verif/seeded/*/')))
tab="  | change | caught by | what it breaks |\n  |---|---|---|\n"+rows
out=out.replace('%d defects'%0 if False else '%d defects','%d defects'%fixed).replace('\n\n%s\n','\n\n%s\n'%tab)
open('/verif/DESIGN.md','w').write(head+out)
