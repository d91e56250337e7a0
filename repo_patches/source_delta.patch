From 4e2f7c15d8ba8f19d693ab55e3d278613eb5269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:33 +0000
Subject: [PATCH 001/115] fix: enforce the implicit ranges of the sized integer
 types

The limits are passed as untyped constants, which become int in an interface,
a type DecimalValue did not handle.
---
 decimal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decimal.go b/decimal.go
index 00c00dd..91943aa 100644
--- a/decimal.go
+++ b/decimal.go
@@ -72,6 +72,9 @@ func DecimalValue(val *Decimal, defval interface{}) *Decimal {
 		switch n := defval.(type) {
 		case *Decimal:
 			return n
+		case int:
+			d, _ := ParseDecimal(fmt.Sprint(n))
+			return d
 		case int64:
 			d, _ := ParseDecimal(fmt.Sprint(n))
 			return d
-- 
2.43.0


From ce0d48ffbcc5bd167fc5c45d157a76739b555696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:33 +0000
Subject: [PATCH 002/115] fix: validate every UnitValue text that
 ParseUnitValue accepts

Values shorter than three characters ("5 USD") and plain strings were rejected.
---
 model.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/model.go b/model.go
index 01bb72a..f6837a8 100644
--- a/model.go
+++ b/model.go
@@ -235,22 +235,25 @@ func (model *Model) ValidateUUID(context string, td *TypeSpec, value interface{}
 }
 
 func (model *Model) ValidateUnitValue(context string, td *TypeSpec, value interface{}) error {
+	var s string
 	switch sp := value.(type) {
 	case *string:
-		s := *sp
-		n := strings.Index(s, " ")
-		if n >= 3 {
-			val := s[:n]
-			unit := s[n+1:]
-			nval, err := ParseDecimal(val)
+		s = *sp
+	case string:
+		s = sp
+	}
+	n := strings.Index(s, " ")
+	if n > 0 {
+		val := s[:n]
+		unit := s[n+1:]
+		nval, err := ParseDecimal(val)
+		if err == nil {
+			err = model.Validate(context+".value", td.Value, nval)
 			if err == nil {
-				err = model.Validate(context+".value", td.Value, nval)
-				if err == nil {
-					err = model.Validate(context+".unit", td.Unit, unit)
-				}
+				err = model.Validate(context+".unit", td.Unit, unit)
 			}
-			return err
 		}
+		return err
 	}
 	return fmt.Errorf("%s: Not a valid UnitValue: %v", context, Pretty(value))
 }
-- 
2.43.0


From 25e6f475827b3f64a5a2c8e7fe31330735ab53f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:33 +0000
Subject: [PATCH 003/115] fix: accept Timestamp texts given as plain strings
 when validating

---
 model.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/model.go b/model.go
index f6837a8..8edc4ac 100644
--- a/model.go
+++ b/model.go
@@ -462,11 +462,14 @@ func (model *Model) ValidateTimestamp(tname string, td *TypeSpec, val interface{
 	if _, ok := val.(*Timestamp); ok {
 		return nil
 	}
-	if s, ok := val.(*string); ok {
-		_, err := ParseTimestamp(*s)
-		if err == nil {
-			return nil
-		}
+	s := ""
+	if sp, ok := val.(*string); ok {
+		s = *sp
+	} else if ss, ok := val.(string); ok {
+		s = ss
+	}
+	if _, err := ParseTimestamp(s); err == nil {
+		return nil
 	}
 	return model.fail(td, val, "format invalid")
 }
-- 
2.43.0


From 60289d576eac969f6a148b2ce40ec1085330ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:33 +0000
Subject: [PATCH 004/115] fix: reject UUID texts with characters that are not
 hexadecimal digits

---
 uuid.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uuid.go b/uuid.go
index b509003..7392271 100644
--- a/uuid.go
+++ b/uuid.go
@@ -29,5 +29,13 @@ func ParseUUID(text string) UUID {
 	if text[8] != '-' || text[13] != '-' || text[18] != '-' || text[23] != '-' {
 		return ""
 	}
+	for i, ch := range text {
+		if i == 8 || i == 13 || i == 18 || i == 23 {
+			continue
+		}
+		if !IsDigit(ch) && !(ch >= 'a' && ch <= 'f') && !(ch >= 'A' && ch <= 'F') {
+			return ""
+		}
+	}
 	return UUID(text)
 }
-- 
2.43.0


From 6b8356c27dbcea790e6435a2ba9a5f510f31de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:18 +0000
Subject: [PATCH 005/115] fix: compare the size and value bounds of types by
 value

The maximum sizes were compared with themselves, and the others by address,
so equal constraints differed and different maximum sizes did not.
---
 model.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/model.go b/model.go
index 8edc4ac..0c58888 100644
--- a/model.go
+++ b/model.go
@@ -67,6 +67,20 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
 }
 
+func equalSizes(n1, n2 *int64) bool {
+	if n1 == nil || n2 == nil {
+		return n1 == n2
+	}
+	return *n1 == *n2
+}
+
+func equalDecimals(d1, d2 *Decimal) bool {
+	if d1 == nil || d2 == nil {
+		return d1 == d2
+	}
+	return d1.Cmp(d2.AsBigFloat()) == 0
+}
+
 func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	if ts1.Type != ts2.Type {
 		return false
@@ -74,7 +88,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	//TODO: check annotations
 	switch ts1.Type {
 	case "String":
-		if ts1.Pattern != ts2.Pattern || ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize || len(ts1.Values) != len(ts2.Values) {
+		if ts1.Pattern != ts2.Pattern || !equalSizes(ts1.MinSize, ts2.MinSize) || !equalSizes(ts1.MaxSize, ts2.MaxSize) || len(ts1.Values) != len(ts2.Values) {
 			return false
 		}
 		if ts1.Reference != ts2.Reference {
@@ -100,7 +114,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Bytes":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equalSizes(ts1.MinSize, ts2.MinSize) || !equalSizes(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 	case "UnitValue":
@@ -111,7 +125,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Array", "Map":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equalSizes(ts1.MinSize, ts2.MinSize) || !equalSizes(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 		if !model.EquivalentTypesByName(ts1.Items, ts2.Items) {
@@ -121,7 +135,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-		if ts1.Min != ts2.Min || ts1.Max != ts2.Max {
+		if !equalDecimals(ts1.Min, ts2.Min) || !equalDecimals(ts1.Max, ts2.Max) {
 			return false
 		}
 	case "Enum":
-- 
2.43.0


From cc215c01190b1d1fbe7e37fedce6bb52b2149eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:18 +0000
Subject: [PATCH 006/115] fix: report undefined type names as not equivalent,
 instead of crashing

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index 0c58888..d6158ae 100644
--- a/model.go
+++ b/model.go
@@ -64,6 +64,9 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	}
 	td1 := model.FindType(tname1)
 	td2 := model.FindType(tname2)
+	if td1 == nil || td2 == nil {
+		return false
+	}
 	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
 }
 
-- 
2.43.0


From 106304d09b277743a516d5345d47fe9425754b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:18 +0000
Subject: [PATCH 007/115] fix: do not define an enum type twice when converting
 inline enums

An equivalent existing type was defined again, and two converted fields with
the same resulting name were not compared with each other.
---
 model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index d6158ae..a17367c 100644
--- a/model.go
+++ b/model.go
@@ -640,18 +640,19 @@ func (model *Model) ConvertInlineEnums() error {
 							//Alternatively, could prefix the struct type name to the new type `td.Name + tname` to make it unique. Steill not foolproof.
 							return fmt.Errorf("cannot refactor, duplicate type names for non-equivalent types: %s and %s\n", Pretty(prev), Pretty(fdef))
 						}
+					} else {
+						tds = append(tds, ntd)
+						model.typeIndex[tname] = ntd
 					}
 					var blank TypeSpec
 					fdef.TypeSpec = blank
 					fdef.Type = tname
-					tds = append(tds, ntd)
 				}
 			}
 		}
 	}
 	for _, td := range tds {
 		model.Types = append(model.Types, td)
-		model.typeIndex[td.Name] = td
 	}
 	return nil
 }
-- 
2.43.0


From 5f9f3e8cd57e6a9b69eb67b1649fc31d3776facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:18 +0000
Subject: [PATCH 008/115] fix: report an example of a missing response instead
 of crashing

---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index a17367c..f02b3b7 100644
--- a/model.go
+++ b/model.go
@@ -568,7 +568,7 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 		} else if strings.HasSuffix(theType, "Response") {
 			httpName := Uncapitalize(theType[:len(theType)-len("Response")])
 			h := model.FindHttp(httpName)
-			if h != nil {
+			if h != nil && h.Expected != nil {
 				if len(lst) > 0 {
 					var tmp *TypeSpec
 					fname := lst[0]
-- 
2.43.0


From 6752c422faf94dae4399f4d729be79cbf8c00aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:18 +0000
Subject: [PATCH 009/115] fix: a missing key on the way to a nested value means
 there is no value

The remaining keys were looked up in the outer map instead.
---
 data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.go b/data.go
index b72f5ad..c0aa172 100644
--- a/data.go
+++ b/data.go
@@ -112,6 +112,8 @@ func (data *Data) get(keys []string) interface{} {
 					} else {
 						return v
 					}
+				} else {
+					return nil
 				}
 			}
 		}
-- 
2.43.0


From 7d97ee3c5d8ddc13520363d92018a4e4092b9bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:18 +0000
Subject: [PATCH 010/115] fix: report a failure to write a generated file

The write is buffered, so its failure shows only when flushing.
---
 generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 92d1311..f1d4a59 100644
--- a/generator.go
+++ b/generator.go
@@ -75,7 +75,9 @@ func (gen *Generator) WriteFile(path string, content string) {
 	defer f.Close()
 	writer := bufio.NewWriter(f)
 	_, gen.Err = writer.WriteString(content)
-	writer.Flush()
+	if gen.Err == nil {
+		gen.Err = writer.Flush()
+	}
 }
 
 func (gen *Generator) EmitTemplate(name string, tmplSource string, data interface{}, funcMap template.FuncMap) {
-- 
2.43.0


From 06c3e64668da13a6cbda755802f14ea590410649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:18 +0000
Subject: [PATCH 011/115] fix: capitalizing the empty string in a generator
 must not crash

---
 generator.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index f1d4a59..07ba842 100644
--- a/generator.go
+++ b/generator.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"os"
-	"strings"
 	"text/template"
 )
 
@@ -102,11 +101,11 @@ func (gen *Generator) EmitTemplate(name string, tmplSource string, data interfac
 }
 
 func (gen *Generator) Capitalize(s string) string {
-	return strings.ToUpper(s[0:1]) + s[1:]
+	return Capitalize(s)
 }
 
 func (gen *Generator) Uncapitalize(s string) string {
-	return strings.ToLower(s[0:1]) + s[1:]
+	return Uncapitalize(s)
 }
 
 func (gen *Generator) FileExists(path string) bool {
-- 
2.43.0


From 3be38ede066e4297e3cdbfb7f3f5cb8dd1c9ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:18 +0000
Subject: [PATCH 012/115] fix: print annotations in a stable order

---
 misc.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc.go b/misc.go
index 608b482..6e3db44 100644
--- a/misc.go
+++ b/misc.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 )
 
@@ -181,6 +182,7 @@ func AnnotationsAsString(annos map[string]string) string {
 		for k, v := range annos {
 			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
 		}
+		sort.Strings(opts)
 	}
 	if len(opts) > 0 {
 		return " (" + strings.Join(opts, ", ") + ")"
-- 
2.43.0


From 1ef8c058494d5bd8403c4a70dfe19a91dc52f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:18 +0000
Subject: [PATCH 013/115] fix: escape the unit when encoding a UnitValue as
 JSON

---
 unitvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unitvalue.go b/unitvalue.go
index e630886..15be343 100644
--- a/unitvalue.go
+++ b/unitvalue.go
@@ -40,7 +40,7 @@ func NewUnitValue(value float64, unit string) *UnitValue {
 }
 
 func (q *UnitValue) MarshalJSON() ([]byte, error) {
-	return []byte("\"" + q.String() + "\""), nil
+	return json.Marshal(q.String())
 }
 
 func (q *UnitValue) UnmarshalJSON(b []byte) error {
-- 
2.43.0


From 65f163a55ac8cf961523126850f0ef1f445a7e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:18 +0000
Subject: [PATCH 014/115] fix: print a Timestamp in UTC, as its Z suffix says

---
 timestamp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/timestamp.go b/timestamp.go
index 6eecf68..0851498 100644
--- a/timestamp.go
+++ b/timestamp.go
@@ -17,6 +17,7 @@ func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
+	ts.Time = ts.UTC()
 	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
 }
 
-- 
2.43.0


From 045030f5d201eb72818161b2016eb70b4b067261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:52 +0000
Subject: [PATCH 015/115] fix: print the year of a Timestamp with four digits,
 so that it parses again

---
 timestamp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timestamp.go b/timestamp.go
index 0851498..a458cc3 100644
--- a/timestamp.go
+++ b/timestamp.go
@@ -11,7 +11,7 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
-- 
2.43.0


From 7a437897a5579128505af0246c07a8921f5a014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:28 +0000
Subject: [PATCH 016/115] fix: a generator that has failed keeps its error and
 writes no further file

---
 generator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator.go b/generator.go
index 07ba842..fded003 100644
--- a/generator.go
+++ b/generator.go
@@ -61,6 +61,9 @@ func (gen *Generator) End() string {
 }
 
 func (gen *Generator) WriteFile(path string, content string) {
+	if gen.Err != nil {
+		return
+	}
 	if !gen.Config.GetBool("force-overwrite") && gen.FileExists(path) {
 		//if debug, echo it anyway?
 		fmt.Printf("[%s already exists, not overwriting]\n", path)
-- 
2.43.0


From 3ae6985d66cb92be26028db0c16ce62dbcb4d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:09 +0000
Subject: [PATCH 017/115] fix: export PATCH, HEAD and OPTIONS actions to
 OpenAPI instead of dropping them

---
 openapi/export_openapi.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index aa4b750..9dd5f82 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -136,6 +136,23 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
 			}
 			pi.Post = op
+		case "PATCH":
+			if pi.Patch != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Patch = op
+		case "HEAD":
+			if pi.Head != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Head = op
+		case "OPTIONS":
+			if pi.Options != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Options = op
+		default:
+			return nil, fmt.Errorf("Unsupported HTTP Method (%s %s)", hdef.Method, p)
 		}
 		for _, in := range hdef.Inputs {
 			param := &Parameter{
-- 
2.43.0


From c74d7ffdfe67914e758a7082f0193b9ab7eb705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:10 +0000
Subject: [PATCH 018/115] fix: exporting an array of Float64 to OpenAPI must
 not crash

---
 openapi/export_openapi.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 9dd5f82..0bc1e39 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -572,9 +572,6 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return sch, nil
 	case "Int32", "Int16", "Int8", "Int64", "Float32", "Float64", "Decimal":
-		if td.Type == "Float64" && name != "" {
-			panic("here? " + name + " -> " + sadl.Pretty(td))
-		}
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
 		sch := &Schema{
 			Type:        stype,
-- 
2.43.0


From e9f09dd1c26896d0cf05989c0e86eb4c8e0838a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:11 +0000
Subject: [PATCH 019/115] fix: find every operation of a path when exporting
 examples to OpenAPI

---
 openapi/export_openapi.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 0bc1e39..bedbdeb 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -363,24 +363,10 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
-		var op *Operation
-		if pathItem.Get != nil {
-			op = pathItem.Get
-		} else if pathItem.Put != nil {
-			op = pathItem.Put
-		} else if pathItem.Delete != nil {
-			op = pathItem.Delete
-		} else if pathItem.Post != nil {
-			op = pathItem.Post
-		} else if pathItem.Head != nil {
-			op = pathItem.Head
-		} else if pathItem.Patch != nil {
-			op = pathItem.Patch
-		} else {
-			panic("fix me")
-		}
-		if op.OperationId == opId {
-			return op
+		for _, op := range []*Operation{pathItem.Get, pathItem.Put, pathItem.Delete, pathItem.Post, pathItem.Head, pathItem.Patch, pathItem.Options} {
+			if op != nil && op.OperationId == opId {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 9f0cd6be6738071a0e096abe252d11359f342da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:34 +0000
Subject: [PATCH 020/115] fix: refer only to defined schemas when exporting
 items, inline enums and Any to OpenAPI

---
 openapi/export_openapi.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index bedbdeb..d7214eb 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -480,7 +480,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -617,9 +617,25 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return tr, nil
 	case "Enum":
+		if name == "" {
+			//an inline enum
+			tr := &Schema{
+				Type: "string",
+			}
+			for _, el := range td.Elements {
+				tr.Enum = append(tr.Enum, el.Symbol)
+			}
+			return tr, nil
+		}
 		return &Schema{
 			Ref: "#/components/schemas/" + name,
 		}, nil
+	case "Union":
+		return &Schema{
+			Ref: "#/components/schemas/" + name,
+		}, nil
+	case "Any":
+		return &Schema{}, nil
 	case "Array":
 		itd := gen.Model.FindType(td.Items)
 		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
@@ -634,7 +650,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 	case "Map":
 		//note: keys are always strings
 		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 		if err != nil {
 			return nil, err
 		}
@@ -644,7 +660,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return otd, nil
 	case "Struct":
-		if name != "" {
+		if name != "" && name != "Struct" {
 			return &Schema{
 				Ref: "#/components/schemas/" + name,
 			}, nil
-- 
2.43.0


From 9f5daf8548ffc94aa197b7e6ea30011af0506063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:35 +0000
Subject: [PATCH 021/115] fix: keep the required fields of an inline struct
 when exporting to OpenAPI

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index d7214eb..cf75d0d 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -675,6 +675,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 					return nil, err
 				}
 				f[fd.Name] = fieldSchema
+				if fd.Required {
+					sch.Required = append(sch.Required, fd.Name)
+				}
 			}
 			sch.Properties = f
 			return sch, nil
-- 
2.43.0


From 35fbcc61808608b61886bc2e3d0428ae51a4cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:36 +0000
Subject: [PATCH 022/115] fix: keep the allowed values of an inline String when
 exporting to OpenAPI

---
 openapi/export_openapi.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index cf75d0d..84d8be8 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -497,13 +497,6 @@ func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return nil, err
 	}
 	otd.Description = td.Comment
-	if len(td.Values) > 0 {
-		e := make([]interface{}, 0)
-		for _, s := range td.Values {
-			e = append(e, s)
-		}
-		otd.Enum = e
-	}
 	return otd, nil
 }
 
@@ -594,6 +587,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			tmp := uint64(*td.MaxSize)
 			tr.MaxLength = &tmp
 		}
+		for _, s := range td.Values {
+			tr.Enum = append(tr.Enum, s)
+		}
 		return tr, nil
 	case "Timestamp":
 		tr := &Schema{
-- 
2.43.0


From e6abdc6b137edca66b50cb3423d96be1ce07309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:37 +0000
Subject: [PATCH 023/115] fix: keep the size limits of arrays and maps when
 exporting to OpenAPI

---
 openapi/export_openapi.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 84d8be8..924b0ac 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -475,20 +475,43 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 		Items:       itemSchema,
 	}
+	setArrayLimits(schema, &td.TypeSpec)
 	return schema, nil
 }
 
+func setArrayLimits(schema *Schema, ts *sadl.TypeSpec) {
+	if ts.MinSize != nil {
+		schema.MinItems = uint64(*ts.MinSize)
+	}
+	if ts.MaxSize != nil {
+		tmp := uint64(*ts.MaxSize)
+		schema.MaxItems = &tmp
+	}
+}
+
+func setMapLimits(schema *Schema, ts *sadl.TypeSpec) {
+	if ts.MinSize != nil {
+		schema.MinProps = uint64(*ts.MinSize)
+	}
+	if ts.MaxSize != nil {
+		tmp := uint64(*ts.MaxSize)
+		schema.MaxProps = &tmp
+	}
+}
+
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
 	itd := gen.Model.FindType(td.Items)
 	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
 	if err != nil {
 		return nil, err
 	}
-	return &Schema{
+	schema := &Schema{
 		Type:                 "object",
 		Description:          td.Comment,
 		AdditionalProperties: itemSchema,
-	}, nil
+	}
+	setMapLimits(schema, &td.TypeSpec)
+	return schema, nil
 }
 
 func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
@@ -642,6 +665,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:  "array",
 			Items: itemSchema,
 		}
+		setArrayLimits(tr, td)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
@@ -654,6 +678,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:                 "object",
 			AdditionalProperties: itemSchema,
 		}
+		setMapLimits(otd, td)
 		return otd, nil
 	case "Struct":
 		if name != "" && name != "Struct" {
-- 
2.43.0


From 867616dc314ee7dea477180b81ecdd691830d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:46 +0000
Subject: [PATCH 024/115] fix: an example that matches no action must not crash
 the OpenAPI export

---
 openapi/export_openapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 924b0ac..3017f0b 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -351,7 +351,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 						}
 					}
 				} else {
-					panic("no")
+					fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
 				}
 			} else {
 				fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
-- 
2.43.0


From 4ba24fef2c0800a56c53278ddd9de5fe646835be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:06 +0000
Subject: [PATCH 025/115] fix: keep the comment of a numeric type when
 exporting to OpenAPI

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 3017f0b..efcf748 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -392,6 +392,9 @@ func (gen *Generator) exportTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		return gen.exportEnumTypeDef(td)
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
+		if td.Comment != "" {
+			scomment = td.Comment
+		}
 		otd := &Schema{
 			Description: scomment,
 			Type:        stype,
-- 
2.43.0


From 07e38791d401d90f94b5f8628d4e54f357c68179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:07 +0000
Subject: [PATCH 026/115] fix: refer only to defined schemas when exporting
 variants and exceptions to OpenAPI

---
 openapi/export_openapi.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index efcf748..48d7e69 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -246,8 +246,9 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				Description: comment,
 				Content:     content,
 			}
-			tr := &Schema{
-				Ref: "#/components/schemas/" + out.Type,
+			tr, err := gen.oasSchema(&sadl.TypeSpec{Type: out.Type, Keys: "String", Items: "Any"}, "")
+			if err != nil {
+				return nil, err
 			}
 			mt := &MediaType{
 				Schema: tr,
@@ -459,8 +460,9 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 	}
 	for _, vd := range td.Variants {
-		v := &Schema{
-			Ref: "#/components/schemas/" + vd.Type,
+		v, err := gen.oasSchema(&vd.TypeSpec, "")
+		if err != nil {
+			return nil, err
 		}
 		schema.OneOf = append(schema.OneOf, v)
 	}
-- 
2.43.0


From 7c343b17fd9ff62b94a9a424b5b542778fe1b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:08 +0000
Subject: [PATCH 027/115] fix: an example for a missing body must not crash the
 OpenAPI export

---
 openapi/export_openapi.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 48d7e69..e8e526a 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -282,7 +282,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				op := gen.FindOperation(oas, hdefName)
 				if op != nil {
 					for k, v := range ed.Example.(map[string]interface{}) {
-						if k == "body" {
+						if k == "body" && op.RequestBody != nil {
 							tmp := op.RequestBody.Content["application/json"]
 							if ed.Name == "" {
 								tmp.Example = v
@@ -323,6 +323,9 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 							//FIXME: currently the parser only handles Request and Response, not Exceptxxx
 							sstatus := fmt.Sprintf("%v", hact.Expected.Status)
 							tmp := op.Responses[sstatus].Content["application/json"]
+							if tmp == nil {
+								continue
+							}
 							if ed.Name == "" {
 								tmp.Example = v
 							} else {
-- 
2.43.0


From db8c85064e804f43ef692cb6ca96cbc4318a8e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:24 +0000
Subject: [PATCH 028/115] fix: import OpenAPI declarations in a stable order,
 also without components

---
 openapi/import_openapi.go | 49 ++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 034d497..22cad94 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -141,7 +142,12 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
-	for name, oasSchema := range model.Components.Schemas {
+	var schemas map[string]*Schema
+	if model.Components != nil {
+		schemas = model.Components.Schemas
+	}
+	for _, name := range sortedSchemaNames(schemas) {
+		oasSchema := schemas[name]
 		name = validSadlName(name, oasSchema)
 		if name == "" {
 			continue
@@ -151,7 +157,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		comment := ""
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
-			if oasDef, ok := model.Components.Schemas[tname]; ok {
+			if oasDef, ok := schemas[tname]; ok {
 				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
 			} else {
 				panic("hmm")
@@ -174,8 +180,13 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	}
 
 	httpBindings := true
-	for tmpl, path := range model.Paths {
-		path2 := *path
+	var tmpls []string
+	for tmpl := range model.Paths {
+		tmpls = append(tmpls, tmpl)
+	}
+	sort.Strings(tmpls)
+	for _, tmpl := range tmpls {
+		path2 := *model.Paths[tmpl]
 		for _, method := range methods {
 			op := getPathOperation(&path2, method)
 			if op != nil {
@@ -214,6 +225,15 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	return sadl.NewModel(schema)
 }
 
+func sortedSchemaNames(schemas map[string]*Schema) []string {
+	var names []string
+	for name := range schemas {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func validSadlName(name string, oasSchema *Schema) string {
 	if name == "Timestamp" {
 		if oasSchema.Type == "string" {
@@ -346,7 +366,8 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
-			for fname, fschema := range oasSchema.Properties {
+			for _, fname := range sortedSchemaNames(oasSchema.Properties) {
+				fschema := oasSchema.Properties[fname]
 				fd := &sadl.StructFieldDef{
 					Name:    fname,
 					Comment: fschema.Description,
@@ -505,7 +526,12 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	//else: if 201 is in the list, use that
 	//else: ? find a likely candidate.
 	var expectedStatus string = "default"
-	for status, _ := range op.Responses {
+	var statuses []string
+	for status := range op.Responses {
+		statuses = append(statuses, status)
+	}
+	sort.Strings(statuses)
+	for _, status := range statuses {
 		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
 			expectedStatus = status
 			break
@@ -531,7 +557,13 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			Status:  int32(code),
 			Comment: eparam.Description,
 		}
-		for header, def := range eparam.Headers {
+		var headers []string
+		for header := range eparam.Headers {
+			headers = append(headers, header)
+		}
+		sort.Strings(headers)
+		for _, header := range headers {
+			def := eparam.Headers[header]
 			param := &sadl.HttpParamSpec{}
 			param.Header = header
 			param.Comment = def.Description
@@ -570,7 +602,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		hact.Expected = ex
 	}
-	for status, param := range op.Responses {
+	for _, status := range statuses {
+		param := op.Responses[status]
 		if status != expectedStatus {
 			//the status can be "default", or "4XX" (where 'X' is a wildcard) or "404". If the latter, it takes precedence.
 			//for SADL, not specifying the response is a bug. So "default" will be turned into "500". The wildcards
-- 
2.43.0


From 177f612f7122771422de6b0dc67cfeec083f7079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:55 +0000
Subject: [PATCH 029/115] fix: report every error in the types of an imported
 OpenAPI document

---
 openapi/import_openapi.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 22cad94..6babfe8 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -328,9 +328,10 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = oasTypeRef(oasSchema.Items)
 			} else {
 				its, err := convertOasType(name+".Items", oasSchema.Items)
-				if err == nil {
-					ts.Items = its.Type
+				if err != nil {
+					return ts, err
 				}
+				ts.Items = its.Type
 			}
 		}
 		//minsize, maxsize
@@ -378,6 +379,9 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				fd.Type = oasTypeRef(fschema)
 				if fd.Type == "" {
 					fd.TypeSpec, err = convertOasType(name+"."+fname, fschema)
+					if err != nil {
+						return ts, err
+					}
 				}
 				ts.Fields = append(ts.Fields, fd)
 			}
@@ -579,6 +583,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					param.Type = oasTypeRef(schref)
 				} else {
 					param.TypeSpec, err = convertOasType(hact.Name+".Expected."+param.Name, schref) //fix: example
+					if err != nil {
+						return nil, err
+					}
 				}
 				ex.Outputs = append(ex.Outputs, param)
 			}
@@ -593,6 +600,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						result.Type = oasTypeRef(schref)
 					} else {
 						result.TypeSpec, err = convertOasType(hact.Name+".Expected.payload", schref) //fix: example
+						if err != nil {
+							return nil, err
+						}
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
-- 
2.43.0


From c4ac6866439357fa6b9a28d41f50a74ab448a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:56 +0000
Subject: [PATCH 030/115] fix: report what the OpenAPI import does not support
 as an error instead of crashing

---
 openapi/import_openapi.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 6babfe8..fa4460e 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -160,7 +160,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 			if oasDef, ok := schemas[tname]; ok {
 				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
 			} else {
-				panic("hmm")
+				err = fmt.Errorf("Undefined schema reference: %q", oasSchema.Ref)
 			}
 		} else {
 			ts, err = convertOasType(name, oasSchema)
@@ -387,8 +387,7 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			}
 		}
 	default:
-		fmt.Printf("oas type is %q\n", oasSchema.Type)
-		panic("oas type not handled")
+		return ts, fmt.Errorf("Unsupported OpenAPI type: %q", oasSchema.Type)
 	}
 	return ts, err
 }
@@ -459,8 +458,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		case "path":
 			spec.Path = true
 			if strings.Index(path, "{"+name+"}") < 0 {
-				fmt.Println("WARNING: path param is not in path template:", path, name)
-				panic("here")
+				return nil, fmt.Errorf("Path parameter %q is not in path template %q", param.Name, path)
 			}
 		case "header":
 			spec.Header = param.Name
@@ -471,6 +469,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		if spec.Type == "" {
 			if param.Schema != nil {
 				spec.Type = sadlPrimitiveType(param.Schema.Type)
+				if spec.Type == "" {
+					return nil, fmt.Errorf("Unsupported type of parameter %q: %q", param.Name, param.Schema.Type)
+				}
 			}
 			if spec.Type == "Array" {
 				if param.Schema.Items == nil {
@@ -486,7 +487,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 				}
 			}
 			if spec.Type == "Struct" {
-				panic("Whoops, that can't be right")
+				return nil, fmt.Errorf("Inline object parameters are not supported: %q", param.Name)
 			}
 			if param.Schema != nil && param.Schema.Enum != nil {
 				for _, val := range param.Schema.Enum {
@@ -620,7 +621,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			if status == "default" {
 				status = "0"
 			} else if strings.Index(status, "X") >= 0 {
-				panic("wildcard response codes not supported")
+				return nil, fmt.Errorf("Wildcard response codes are not supported: %q", status)
 			}
 			code, err := strconv.Atoi(status)
 			if err != nil {
@@ -638,7 +639,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						if schref.Ref != "" {
 							ex.Type = oasTypeRef(schref)
 						} else {
-							panic("inline response types not yet supported")
+							return nil, fmt.Errorf("Inline response types are not supported for status %q", status)
 						}
 						break
 					}
@@ -730,8 +731,7 @@ func sadlPrimitiveType(name string) string {
 	case "boolean":
 		return "Bool"
 	default:
-		fmt.Println("sadlPrimitiveType for:", name)
-		panic("what?")
+		return ""
 	}
 }
 
-- 
2.43.0


From 7ffaaae9399b93884582cceaebdd5ec37eb5859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:57 +0000
Subject: [PATCH 031/115] fix: keep the size limits of arrays when importing
 OpenAPI

---
 openapi/import_openapi.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index fa4460e..26ec4da 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -334,7 +334,14 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = its.Type
 			}
 		}
-		//minsize, maxsize
+		if oasSchema.MinItems > 0 {
+			tmpMin := int64(oasSchema.MinItems)
+			ts.MinSize = &tmpMin
+		}
+		if oasSchema.MaxItems != nil {
+			tmpMax := int64(*oasSchema.MaxItems)
+			ts.MaxSize = &tmpMax
+		}
 		//comment
 	case "number":
 		ts.Type = "Decimal"
-- 
2.43.0


From 29ef309f113b0a6228ec3661e7f2965282c944b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:58 +0000
Subject: [PATCH 032/115] fix: import PATCH and OPTIONS operations from OpenAPI
 instead of dropping them

---
 openapi/import_openapi.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 26ec4da..08ad3d5 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -122,7 +122,7 @@ func xParse(data []byte, format string) (*Model, error) {
 
 var examples []*sadl.ExampleDef
 
-var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD"} //to do: "PATCH", "OPTIONS", "TRACE"
+var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"} //to do: "TRACE"
 
 func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	annotations := make(map[string]string, 0)
@@ -674,11 +674,11 @@ func getPathOperation(oasPathItem *PathItem, method string) *Operation {
 		return oasPathItem.Delete
 	case "HEAD":
 		return oasPathItem.Head
+	case "PATCH":
+		return oasPathItem.Patch
+	case "OPTIONS":
+		return oasPathItem.Options
 		/*
-			case "PATCH":
-				return oasPathItem.Patch
-			case "OPTIONS":
-				return oasPathItem.Options
 			case "TRACE":
 				return oasPathItem.Trace
 			case "CONNECT":
-- 
2.43.0


From c27c872fd7269a605c2e89857929b3a4189c5755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:59 +0000
Subject: [PATCH 033/115] fix: import an int64 parameter from OpenAPI as Int64

---
 openapi/import_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 08ad3d5..2755eee 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -476,6 +476,9 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		if spec.Type == "" {
 			if param.Schema != nil {
 				spec.Type = sadlPrimitiveType(param.Schema.Type)
+				if spec.Type == "Int32" && param.Schema.Format == "int64" {
+					spec.Type = "Int64"
+				}
 				if spec.Type == "" {
 					return nil, fmt.Errorf("Unsupported type of parameter %q: %q", param.Name, param.Schema.Type)
 				}
-- 
2.43.0


From c0a961661821ef3101eda56d7a665222600c4030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:15 +0000
Subject: [PATCH 034/115] fix: keep the digits in the names of imported OpenAPI
 parameters

---
 openapi/import_openapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 2755eee..88f02a8 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -417,7 +417,7 @@ func uncapitalize(s string) string {
 }
 
 func makeIdentifier(text string) string {
-	reg, _ := regexp.Compile("[^a-zA-Z_][^a-zA-Z_0-9]*")
+	reg, _ := regexp.Compile("^[^a-zA-Z_]+|[^a-zA-Z_0-9]+")
 	return reg.ReplaceAllString(text, "")
 }
 
-- 
2.43.0


From af6343d02a2ecaa12bb26ab9366c92b7bf9caf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:59 +0000
Subject: [PATCH 035/115] fix: keep the minimum and maximum of numbers when
 importing Swagger

---
 openapi/import_swagger.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index c5648e8..13f18dc 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -228,12 +228,12 @@ func toV3Schema(v2Any interface{}) *Schema {
 		}
 	case "integer", "number":
 		schema.Format = v2.GetString("format")
-		if v2.Has("min") {
-			f := v2.GetFloat64("min")
+		if v2.Has("minimum") {
+			f := v2.GetFloat64("minimum")
 			schema.Min = &f
 		}
-		if v2.Has("max") {
-			f := v2.GetFloat64("max")
+		if v2.Has("maximum") {
+			f := v2.GetFloat64("maximum")
 			schema.Max = &f
 		}
 	case "boolean":
-- 
2.43.0


From 7bd7ba484796007a5d647e420af344d89f98e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:00 +0000
Subject: [PATCH 036/115] fix: import OPTIONS operations from Swagger instead
 of dropping them

---
 openapi/import_swagger.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 13f18dc..6703fe4 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -69,13 +69,13 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 	for k, v := range v2.AsMap() {
 		vd := sadl.AsData(v)
 		pi := &PathItem{
-			Get:    toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
-			Delete: toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
-			Put:    toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
-			Post:   toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
-			Patch:  toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
-			Head:   toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
-			//etc
+			Get:     toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
+			Delete:  toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
+			Put:     toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
+			Post:    toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
+			Patch:   toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
+			Head:    toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
+			Options: toV3Operation(model, vd.GetData("options"), defConsumes, defProduces),
 		}
 		paths[k] = pi
 	}
-- 
2.43.0


From 1c7a1c87e509b752bd1de4131f7d8865303c138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:01 +0000
Subject: [PATCH 037/115] fix: a Swagger schema without a known type must not
 crash the import

---
 openapi/import_swagger.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 6703fe4..872bed5 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -241,9 +241,6 @@ func toV3Schema(v2Any interface{}) *Schema {
 	default:
 		if v2.Has("$ref") {
 			schema.Ref = strings.Replace(v2.GetString("$ref"), "#/definitions/", "#/components/schemas/", -1)
-		} else {
-			fmt.Printf("type: %q\n%s\n->%v\n", schema.Type, sadl.Pretty(v2), v2.Get("$ref"))
-			panic("fix this schema")
 		}
 	}
 	return schema
-- 
2.43.0


From 7311350ddb168f2121761e97aec85471c0844488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:02 +0000
Subject: [PATCH 038/115] fix: keep the size limits of arrays when importing
 Swagger

---
 openapi/import_swagger.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 872bed5..35f54c6 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -207,6 +207,13 @@ func toV3Schema(v2Any interface{}) *Schema {
 		}
 	case "array":
 		schema.Items = toV3Schema(v2.Get("items"))
+		if v2.Has("maxItems") {
+			n := uint64(v2.GetInt64("maxItems"))
+			schema.MaxItems = &n
+		}
+		if v2.Has("minItems") {
+			schema.MinItems = uint64(v2.GetInt64("minItems"))
+		}
 	case "string":
 		schema.Format = v2.GetString("format")
 		schema.Pattern = v2.GetString("pattern")
-- 
2.43.0


From a659e73c8cc3f510109d31a882de44daab17ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:04 +0000
Subject: [PATCH 039/115] fix: keep the format, items, values and comment of
 parameters and headers when importing Swagger

---
 openapi/import_swagger.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 35f54c6..49dd312 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -107,16 +107,12 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 				Content:     toV3Content(consumes, paramd.Get("schema")),
 			}
 		} else {
-			var tp interface{}
-			tp = paramd.GetString("type")
-			if tp == "" {
-				tp = paramd.Get("schema")
-			}
 			p := &Parameter{
-				In:       paramd.GetString("in"),
-				Name:     paramd.GetString("name"),
-				Required: paramd.GetBool("required"),
-				Schema:   toV3Schema(tp),
+				In:          paramd.GetString("in"),
+				Name:        paramd.GetString("name"),
+				Description: paramd.GetString("description"),
+				Required:    paramd.GetBool("required"),
+				Schema:      toV3ItemSchema(paramd),
 			}
 			params = append(params, p)
 		}
@@ -155,12 +151,22 @@ func toV3Headers(v2 map[string]interface{}) map[string]*Header {
 		vd := sadl.AsData(v)
 		headers[k] = &Header{
 			Description: vd.GetString("description"),
-			Schema:      toV3Schema(vd.GetString("type")),
+			Schema:      toV3ItemSchema(vd),
 		}
 	}
 	return headers
 }
 
+// toV3ItemSchema converts the type of a parameter or header, which Swagger declares in the parameter or header itself.
+func toV3ItemSchema(v2 *sadl.Data) *Schema {
+	if v2.GetString("type") == "" {
+		return toV3Schema(v2.Get("schema"))
+	}
+	schema := toV3Schema(v2.AsMap())
+	schema.Description = ""
+	return schema
+}
+
 func toV3Content(mediaTypes []string, v2 interface{}) Content {
 	if v2 == nil {
 		return nil
-- 
2.43.0


From 276f5f697091b8514d102ee20dc1f10551e3c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:03 +0000
Subject: [PATCH 040/115] fix: report what GraphQL cannot represent as an error
 instead of crashing

---
 graphql/export_graphql.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 192d6a6..3673f22 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -11,8 +11,7 @@ import (
 func Export(model *sadl.Model, conf *sadl.Data) error {
 	s, err := FromSadl(model, conf)
 	if err != nil {
-		panic(fmt.Sprintf("*** %v\n", err))
-		//		return err
+		return err
 	}
 	fmt.Print(s)
 	return nil
@@ -41,12 +40,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			err = w.EmitStructDef(td)
 		case "Union":
 			err = w.EmitUnionDef(td)
-		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
+		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "UUID", "Timestamp":
 			//these get replace by the equivalent type, you cannot "subtype" thesein GraphQL
 		case "Array":
 			//skip these. All references to it should be replaced with literal GraphQL list syntax.
 		default:
-			panic("fixme: " + td.Type)
+			err = fmt.Errorf("Cannot represent the type %s (%s) in GraphQL", td.Name, td.Type)
 		}
 		if err != nil {
 			return "", err
-- 
2.43.0


From 60f893fd8ecc36a5367d547b2142a772d72082b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:04 +0000
Subject: [PATCH 041/115] fix: map the item types of lists to GraphQL types

---
 graphql/export_graphql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 3673f22..a64c742 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -143,7 +143,7 @@ func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
 	}
 	switch ts.Type {
 	case "Array":
-		return fmt.Sprintf("[%s!]", ts.Items)
+		return fmt.Sprintf("[%s!]", w.typeRef(&sadl.TypeSpec{Type: ts.Items}))
 	default:
 		td := w.model.FindType(ts.Type)
 		if td != nil {
-- 
2.43.0


From b6ed2ee7d903e1bc6397ece6456baaba038111d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:05 +0000
Subject: [PATCH 042/115] fix: declare the GraphQL scalars in a stable order

---
 graphql/export_graphql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index a64c742..f39c78a 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/boynton/sadl"
 )
@@ -51,7 +52,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			return "", err
 		}
 	}
+	var scalars []string
 	for k, _ := range w.customScalars {
+		scalars = append(scalars, k)
+	}
+	sort.Strings(scalars)
+	for _, k := range scalars {
 		w.Emit("scalar %s\n", k)
 	}
 	return w.End(), nil
-- 
2.43.0


From f580a8670cb65d1bb63bf46b244a57d2cd449a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:06 +0000
Subject: [PATCH 043/115] fix: report a GraphQL list of lists as an error
 instead of crashing

---
 graphql/import_graphql.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index e269216..57f0d03 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -105,15 +105,8 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 	return schema, nil
 }
 
-func typeName(t gql_ast.Type) string {
-	switch tt := t.(type) {
-	case *gql_ast.Named:
-		return tt.Name.Value
-	case *gql_ast.List:
-		return "Array"
-	default:
-		panic("FixMe")
-	}
+func unsupportedFieldType(tname, fname string) error {
+	return fmt.Errorf("Unsupported type of field %s.%s: inline lists of lists", tname, fname)
 }
 
 func convertTypeName(n string) string {
@@ -215,10 +208,10 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				case *gql_ast.Named:
 					fd.Items = convertTypeName(it.Name.Value)
 				default:
-					panic("inline list type not supported")
+					return unsupportedFieldType(td.Name, fd.Name)
 				}
 			default:
-				panic("list type not supported")
+				return unsupportedFieldType(td.Name, fd.Name)
 			}
 		case *gql_ast.NonNull:
 			fd.Required = true
@@ -231,12 +224,17 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				case *gql_ast.Named:
 					fd.Items = convertTypeName(it.Name.Value)
 				case *gql_ast.NonNull:
-					fd.Items = convertTypeName(typeName(it.Type))
+					switch it := it.Type.(type) {
+					case *gql_ast.Named:
+						fd.Items = convertTypeName(it.Name.Value)
+					default:
+						return unsupportedFieldType(td.Name, fd.Name)
+					}
 				default:
-					panic("inline list type not supported")
+					return unsupportedFieldType(td.Name, fd.Name)
 				}
 			default:
-				fd.Type = convertTypeName(typeName(t))
+				return unsupportedFieldType(td.Name, fd.Name)
 			}
 		}
 		td.Fields = append(td.Fields, fd)
-- 
2.43.0


From ca132a2c14a418d09325c4a9c7fa56ad83c2de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:07 +0000
Subject: [PATCH 044/115] fix: leave out the GraphQL root operation types
 wherever the schema definition stands

---
 graphql/import_graphql.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index 57f0d03..e83c259 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -67,6 +67,14 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 		},
 	}
 	schema.Types = append(schema.Types, td)
+	for _, def := range doc.Definitions {
+		if sdef, ok := def.(*gql_ast.SchemaDefinition); ok {
+			for _, opt := range sdef.OperationTypes {
+				iname := (*gql_ast.Named)(opt.Type).Name.Value
+				ignore[iname] = true
+			}
+		}
+	}
 	for _, def := range doc.Definitions {
 		switch tdef := def.(type) {
 		case *gql_ast.ObjectDefinition:
@@ -74,10 +82,7 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 				err = gqlStruct(schema, tdef)
 			}
 		case *gql_ast.SchemaDefinition:
-			for _, opt := range tdef.OperationTypes {
-				iname := (*gql_ast.Named)(opt.Type).Name.Value
-				ignore[iname] = true
-			}
+			//the root operation types are not data types, see above
 		case *gql_ast.EnumDefinition:
 			err = gqlEnum(schema, tdef)
 		case *gql_ast.UnionDefinition:
-- 
2.43.0


From 7c52c18a75cb0887e40a0e09b160cbccdff2c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:32 +0000
Subject: [PATCH 045/115] fix: refer only to defined types when exporting to
 GraphQL

---
 graphql/export_graphql.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index f39c78a..a96789b 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -46,7 +46,11 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 		case "Array":
 			//skip these. All references to it should be replaced with literal GraphQL list syntax.
 		default:
-			err = fmt.Errorf("Cannot represent the type %s (%s) in GraphQL", td.Name, td.Type)
+			//another name for a type, also replaced by the equivalent type
+			w.typeRef(&td.TypeSpec)
+		}
+		if err == nil {
+			err = w.err
 		}
 		if err != nil {
 			return "", err
@@ -73,6 +77,8 @@ type GraphqlWriter struct {
 	name          string
 	version       string
 	customScalars map[string]bool
+	depth         int
+	err           error
 }
 
 func (w *GraphqlWriter) Begin() {
@@ -140,6 +146,12 @@ func (w *GraphqlWriter) scalarType(name string) string {
 }
 
 func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
+	w.depth++
+	defer func() { w.depth-- }()
+	if w.depth > len(w.model.Types)+2 {
+		w.err = fmt.Errorf("Cannot represent the recursive type %s in GraphQL", ts.Type)
+		return ts.Type
+	}
 	if td, ok := w.arrays[ts.Type]; ok {
 		ts = &td.TypeSpec
 	}
@@ -152,13 +164,15 @@ func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
 		return fmt.Sprintf("[%s!]", w.typeRef(&sadl.TypeSpec{Type: ts.Items}))
 	default:
 		td := w.model.FindType(ts.Type)
-		if td != nil {
-			tsName = w.scalarType(td.Type)
-			if tsName != "" {
-				return tsName
-			}
+		if td == nil || td.Type == ts.Type {
+			w.err = fmt.Errorf("Cannot represent the type %s in GraphQL", ts.Type)
+			return ts.Type
 		}
-		return ts.Type
+		switch td.Type {
+		case "Enum", "Struct", "Union":
+			return ts.Type
+		}
+		return w.typeRef(&td.TypeSpec)
 	}
 }
 
-- 
2.43.0


From f163bca39ed642a30708d741d925b015bca4ae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:04 +0000
Subject: [PATCH 046/115] fix: import what generated Go enums need

---
 golang/golang_model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index fd34161..2e23959 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -208,6 +208,8 @@ func (gen *Generator) EmitEnumType(td *sadl.TypeDef) {
 			return val
 		},
 	}
+	gen.addImport("encoding/json")
+	gen.addImport("fmt")
 	gen.EmitTemplate("enumType", enumTemplate, td, funcMap)
 }
 
-- 
2.43.0


From 0095de0ad3bcf9c518b48667188e27ce1a9537dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:05 +0000
Subject: [PATCH 047/115] fix: convert texts to named numeric types in
 generated Go

---
 golang/golang_model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 2e23959..347dec1 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -2,6 +2,7 @@ package golang
 
 import (
 	"fmt"
+	"strings"
 	"text/template"
 
 	"github.com/boynton/sadl"
@@ -126,7 +127,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		name := td.Name
 		gen.Emit("type " + name + " " + sadl.Uncapitalize(td.Type) + "\n")
 		gen.addImport("strconv")
-		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := strconv.ParseInt(s, 10, 64)\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn n\n}\n")
+		parse := "strconv.ParseInt(s, 10, 64)"
+		if strings.HasPrefix(td.Type, "Float") {
+			parse = "strconv.ParseFloat(s, 64)"
+		}
+		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := " + parse + "\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn " + name + "(n)\n}\n")
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
-- 
2.43.0


From f0af6cc9764d07ba5a6b1b95416dcc91fe172109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:06 +0000
Subject: [PATCH 048/115] fix: generate Go for every type that Go has, and
 report the others as an error

---
 golang/export_golang.go | 20 +++++++++++++++++---
 golang/golang_model.go  | 14 ++++----------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index f5a9f01..9d706a7 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -200,14 +200,21 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			gen.addImport("github.com/boynton/sadl")
 			return "*sadl." + name
 		} else {
-			//FIXME
-			return "*" + name
+			return gen.unsupportedType(name)
 		}
+	case "UUID":
+		return "string"
+	case "Bytes":
+		return "[]byte"
+	case "Any":
+		return "interface{}"
+	case "Struct", "Enum", "Union":
+		return gen.unsupportedType("inline " + name)
 	default:
 		//must be a app-defined class. Parser should have already verified its existence
 		td := gen.Model.FindType(name)
 		if td == nil {
-			panic("Unresolved type, parser should have caught this: " + name)
+			return gen.unsupportedType("undefined " + name)
 		}
 		if td.Type == "Struct" {
 			name = "*" + name
@@ -216,6 +223,13 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 	}
 }
 
+func (gen *Generator) unsupportedType(name string) string {
+	if gen.Err == nil {
+		gen.Err = fmt.Errorf("Cannot generate Go for the type: %s", name)
+	}
+	return name
+}
+
 func capitalize(s string) string {
 	return strings.ToUpper(s[0:1]) + s[1:]
 }
diff --git a/golang/golang_model.go b/golang/golang_model.go
index 347dec1..d396a8b 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -1,7 +1,6 @@
 package golang
 
 import (
-	"fmt"
 	"strings"
 	"text/template"
 
@@ -108,8 +107,6 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		gen.EmitStructType(td, errors)
 	case "Union":
 		gen.EmitUnionType(td, errors)
-	case "UnitValue":
-		gen.EmitUnitValueType(td)
 	case "Enum":
 		gen.EmitEnumType(td)
 	case "String":
@@ -135,10 +132,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
+	case "Bool", "Bytes", "Any":
+		gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, td.Type) + "\n")
 	default:
-		fmt.Println(td.Type)
-		panic("EmitType NYI: " + td.Type)
-		//do nothing, i.e. a String subclass
+		//another name for a type
+		gen.Emit("type " + td.Name + " = " + strings.TrimPrefix(gen.nativeTypeName(&td.TypeSpec, td.Type), "*") + "\n")
 	}
 
 }
@@ -415,7 +413,3 @@ func ParseTimestamp(s string) (Timestamp, error) {
 	return Timestamp{t}, nil
 }
 `
-
-func (gen *Generator) EmitUnitValueType(td *sadl.TypeDef) {
-	panic("emitUnitValueType NYI")
-}
-- 
2.43.0


From 8f7a47eb870c95118d03014dd4cf41f46ba08474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:40 +0000
Subject: [PATCH 049/115] fix: declare the results and errors of generated Go
 handlers exactly once

---
 golang/golang_server.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 83ffab9..fe8e10c 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -76,7 +76,7 @@ func (gen *Generator) EmitServerAdaptor() {
 			}
 			s := ""
 			if form {
-				s = "\terr := r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
+				s = "\terr = r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 			}
 			for _, in := range hd.Inputs {
 				name := sadl.Capitalize(in.Name)
@@ -87,7 +87,7 @@ func (gen *Generator) EmitServerAdaptor() {
 				} else if in.Path {
 					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("mux.Vars(r)[%q]", in.Name)) + "\n"
 				} else {
-					s = s + "\terr := json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
+					s = s + "\terr = json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
 					s = s + "\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 				}
 			}
@@ -112,12 +112,10 @@ func (gen *Generator) EmitServerAdaptor() {
 			return s
 		},
 		"expectedResult": func(hd *sadl.HttpDef) string {
-			switch hd.Expected.Status {
-			case 204, 304:
-				return "_"
-			default:
-				return "res"
+			if len(hd.Expected.Outputs) == 0 {
+				return "_, err ="
 			}
+			return "res, err :="
 		},
 		"expectedEntity": func(hd *sadl.HttpDef) string {
 			for _, out := range hd.Expected.Outputs {
@@ -229,8 +227,9 @@ type {{adaptorName}} struct {
 {{range .Model.Http}}
 func (handler *{{adaptorName}}) {{methodName .}}Handler(w http.ResponseWriter, r *http.Request) {
 	req := new({{reqTypeName .}})
+	var err error
 {{inputs .}}
-	{{expectedResult .}}, err := handler.impl.{{methodName .}}(req)
+	{{expectedResult .}} handler.impl.{{methodName .}}(req)
 	if err != nil {
 		switch err.(type) {
 {{exceptions .}}		default:
-- 
2.43.0


From 6957c4bf0bd441dd4652db5a03fa12d29e301f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:41 +0000
Subject: [PATCH 050/115] fix: generate the Timestamp type and defaults that
 generated Go servers use

---
 golang/export_golang.go | 1 +
 golang/golang_server.go | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index 9d706a7..add4eb4 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -56,6 +56,7 @@ func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generato
 	gen.createModel = gen.GetConfigBool("model", true)
 	gen.createServer = gen.GetConfigBool("server", false)
 	gen.createClient = gen.GetConfigBool("client", false)
+	gen.createTimestamp = gen.createServer //the server code refers to it
 	gen.Name = sadl.Capitalize(gen.GetConfigString("name", model.Name))
 	pkg := gen.GetConfigString("package", "")
 	if pkg == "" {
diff --git a/golang/golang_server.go b/golang/golang_server.go
index fe8e10c..6c38384 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -191,6 +191,8 @@ func stringDefault(any interface{}) string {
 	switch v := any.(type) {
 	case string:
 		return v
+	case *string:
+		return *v
 	default:
 		return fmt.Sprint(any)
 	}
@@ -199,11 +201,11 @@ func stringDefault(any interface{}) string {
 func timestampDefault(any interface{}) string {
 	switch v := any.(type) {
 	case *sadl.Timestamp:
-		return fmt.Sprintf("%q", v.String())
+		return fmt.Sprintf("TimestampFromString(%q)", v.String())
 	case string:
 		ts, err := sadl.ParseTimestamp(v)
 		if err == nil {
-			return fmt.Sprintf("%q", ts.String())
+			return fmt.Sprintf("TimestampFromString(%q)", ts.String())
 		}
 	}
 	return "nil"
-- 
2.43.0


From df803bd1b6f502410e847948526cbfc329693c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:42 +0000
Subject: [PATCH 051/115] fix: generate Go for Bool and Float parameters, and
 report the others as an error

---
 golang/golang_server.go | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 6c38384..15ce80c 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -158,13 +158,15 @@ func (gen *Generator) paramAccessor(in *sadl.HttpParamSpec, v string) string {
 			vv = fmt.Sprintf("%s(%s)", coerceTo, vv)
 		}
 		return vv
-		/*
-			case "Float32", "Float64":
-			case "Decimal":
-			case "UUID":
-		*/
+	case "Float32", "Float64":
+		return fmt.Sprintf("%s(floatParam(%s, %s))", coerceTo, v, floatDefault(in.Default))
+	case "Bool":
+		return fmt.Sprintf("%s(boolParam(%s, %v))", coerceTo, v, in.Default == true)
 	default:
-		panic("Fix this: " + in.Type)
+		if gen.Err == nil {
+			gen.Err = fmt.Errorf("Cannot generate Go for a %s parameter: %s", bt, in.Name)
+		}
+		return v
 	}
 }
 
@@ -221,6 +223,13 @@ func intDefault(v interface{}) int64 {
 	return 0
 }
 
+func floatDefault(v interface{}) string {
+	if n, ok := v.(*sadl.Decimal); ok {
+		return n.String()
+	}
+	return "0"
+}
+
 var serverTemplate = `
 type {{adaptorName}} struct {
 	impl {{serviceName}}
@@ -290,6 +299,26 @@ func intParam(val string, def int64) int64 {
 	return def
 }
 
+func floatParam(val string, def float64) float64 {
+	if val != "" {
+		f, err := strconv.ParseFloat(val, 64)
+		if err == nil {
+			return f
+		}
+	}
+	return def
+}
+
+func boolParam(val string, def bool) bool {
+	if val != "" {
+		b, err := strconv.ParseBool(val)
+		if err == nil {
+			return b
+		}
+	}
+	return def
+}
+
 func Pretty(obj interface{}) string {
 	buf := new(bytes.Buffer)
 	enc := json.NewEncoder(buf)
-- 
2.43.0


From c92dc199fbfda23d44fa642e6d31e96cf2cde750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:08 +0000
Subject: [PATCH 052/115] fix: name the generated Go client after the model

---
 golang/golang_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 24ff55a..2c33435 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -164,8 +164,8 @@ type {{clientName}} struct {
 	Target string
 }
 
-func NewClient(target string) (*CrudlClient, error) {
-	return &CrudlClient{
+func NewClient(target string) (*{{clientName}}, error) {
+	return &{{clientName}}{
 		Target: target,
 	}, nil
 }
-- 
2.43.0


From 15ddcbda2525b32f1c41a747423600762728659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:09 +0000
Subject: [PATCH 053/115] fix: send the path, query and header parameters from
 generated Go clients

---
 golang/golang_client.go | 85 ++++++++++++++++++++++++++++++++---------
 1 file changed, 68 insertions(+), 17 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 2c33435..901776f 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -23,12 +23,14 @@ func (gen *Generator) CreateClient() {
 
 func (gen *Generator) EmitClient() {
 	gen.imports = nil
+	gen.addImport("bytes")
 	gen.addImport("encoding/json")
 	gen.addImport("fmt")
+	gen.addImport("io")
 	gen.addImport("net/http")
-	//	gen.addImport("net/url")
+	gen.addImport("net/url")
+	gen.addImport("strconv")
 	gen.addImport("strings")
-	//	gen.addImport("time")
 	funcMap := template.FuncMap{
 		"openBrace":   func() string { return "{" },
 		"clientName":  func() string { return sadl.Capitalize(gen.Name) + "Client" },
@@ -50,8 +52,7 @@ func (gen *Generator) EmitClient() {
 			case "PUT", "POST", "PATCH":
 				for _, in := range hd.Inputs {
 					if !in.Path && in.Query == "" && in.Header == "" {
-						gen.addImport("bytes")
-						return "bytes.NewReader([]byte(Json(req." + sadl.Capitalize(in.Name) + ")))"
+						return "jsonBody(req." + sadl.Capitalize(in.Name) + ")"
 					}
 				}
 			}
@@ -62,7 +63,18 @@ func (gen *Generator) EmitClient() {
 			for _, in := range hd.Inputs {
 				if in.Query != "" {
 					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
-					s = s + "\t\targs = append(args, fmt.Sprintf(\"" + in.Name + "=" + gen.typeFormat(in.Type) + "\", req." + sadl.Capitalize(in.Name) + "))\n"
+					s = s + "\t\targs = append(args, queryArg(\"" + in.Query + "\", fmt.Sprintf(\"" + gen.typeFormat(in.Type) + "\", req." + sadl.Capitalize(in.Name) + ")))\n"
+					s = s + "\t}\n"
+				}
+			}
+			return s
+		},
+		"headerParams": func(hd *sadl.HttpDef) string {
+			s := ""
+			for _, in := range hd.Inputs {
+				if in.Header != "" {
+					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
+					s = s + "\t\threq.Header.Set(\"" + in.Header + "\", fmt.Sprintf(\"" + gen.typeFormat(in.Type) + "\", req." + sadl.Capitalize(in.Name) + "))\n"
 					s = s + "\t}\n"
 				}
 			}
@@ -78,6 +90,12 @@ func (gen *Generator) EmitClient() {
 			if i >= 0 {
 				path = path[0:i]
 			}
+			path = "\"" + path + "\""
+			for _, in := range hd.Inputs {
+				if in.Path {
+					path = strings.Replace(path, "{"+in.Name+"}", "\" + pathArg(fmt.Sprintf(\""+gen.typeFormat(in.Type)+"\", req."+sadl.Capitalize(in.Name)+")) + \"", -1)
+				}
+			}
 			return path
 		},
 		"expectedResults": func(hd *sadl.HttpDef) string {
@@ -100,10 +118,17 @@ func (gen *Generator) EmitClient() {
 					s = s + "\t\tresponse." + name + " = entity\n"
 				} else {
 					i := "res.Header.Get(" + fmt.Sprintf("%q", out.Header) + ")" //fold header name consistently?
-					switch natType {
-					case "*Timestamp":
+					switch gen.baseType(out.Type) {
+					case "Timestamp":
 						i = "TimestampFromString(" + i + ")"
+					case "String", "UUID":
+						i = natType + "(" + i + ")"
+					case "Int8", "Int16", "Int32", "Int64":
+						i = natType + "(headerInt(" + i + "))"
 					default:
+						if gen.Err == nil {
+							gen.Err = fmt.Errorf("Cannot generate Go for a %s header: %s", out.Type, out.Header)
+						}
 					}
 					s = s + "\t\tresponse." + name + " = " + i + "\n"
 				}
@@ -132,11 +157,11 @@ func (gen *Generator) EmitClient() {
 func (gen *Generator) notSet(sadlType string) string {
 	bt := gen.baseType(sadlType)
 	switch bt {
-	case "String":
+	case "String", "UUID":
 		return `""`
-	case "Int8", "Int16", "Int32", "Int64":
+	case "Int8", "Int16", "Int32", "Int64", "Enum":
 		return "0"
-	case "Float32", "Float64", "Decimal":
+	case "Float32", "Float64":
 		return "0.0"
 	case "Bool":
 		return "false"
@@ -153,7 +178,7 @@ func (gen *Generator) typeFormat(sadlType string) string {
 	case "Int8", "Int16", "Int32", "Int64":
 		return "%d"
 	case "Float32", "Float64", "Decimal":
-		return "&g"
+		return "%g"
 	default:
 		return "%v"
 	}
@@ -171,16 +196,13 @@ func NewClient(target string) (*{{clientName}}, error) {
 }
 {{range .Model.Http}}
 func (client *{{clientName}}) {{methodSignature .}} {
-	url := client.Target + "{{methodPath .}}"
+	url := client.Target + {{methodPath .}}
 	var args []string
-{{queryParams .}}	if len(args) > 0 {
-		url = url + "?" + strings.Join(args, "&")
-	}
-	hreq, err := http.NewRequest("{{.Method}}", url, {{reqBodyReader .}})
+{{queryParams .}}	hreq, err := http.NewRequest("{{.Method}}", withArgs(url, args), {{reqBodyReader .}})
 	if err != nil {
 		return nil, err
 	}
-{{requestEntityContentType .}}
+{{headerParams .}}{{requestEntityContentType .}}
 	res, err := http.DefaultClient.Do(hreq)
 	if err != nil {
 		return nil, err
@@ -193,5 +215,34 @@ func (client *{{clientName}}) {{methodSignature .}} {
    return nil,fmt.Errorf("whoops")
 }
 {{end}}
+func withArgs(url string, args []string) string {
+	if len(args) > 0 {
+		url = url + "?" + strings.Join(args, "&")
+	}
+	return url
+}
+
+func queryArg(name string, val string) string {
+	return name + "=" + url.QueryEscape(val)
+}
+
+func pathArg(val string) string {
+	return url.PathEscape(val)
+}
+
+func jsonBody(obj interface{}) io.Reader {
+	buf := new(bytes.Buffer)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(obj); err != nil {
+		return strings.NewReader(fmt.Sprint(obj))
+	}
+	return buf
+}
+
+func headerInt(val string) int64 {
+	n, _ := strconv.ParseInt(val, 10, 64)
+	return n
+}
 
 `
-- 
2.43.0


From f7f33ade9c1117e08763ec1b9775ddf193da323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:54 +0000
Subject: [PATCH 054/115] fix: print generated Go timestamps in UTC with a
 four-digit year

---
 golang/golang_model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index d396a8b..b130a4f 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -360,12 +360,13 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
+	ts.Time = ts.UTC()
 	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
 }
 
-- 
2.43.0


From 0e9d078d97110d7003f248fd33f5e785cc9d623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:43 +0000
Subject: [PATCH 055/115] fix: generate a Go server that compiles for a model
 without actions

---
 golang/golang_server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 15ce80c..bf1eec2 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -261,6 +261,7 @@ func InitServer(impl {{serviceName}}, baseURL string) http.Handler {
       log.Fatal(err)
    }	
    b := u.Path
+	_, _ = adaptor, b //a service may have no actions
 	r := mux.NewRouter()
 {{range .Model.Http}}
 	r.HandleFunc(b+"{{routePath .}}", func (w http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From 73c01f7b797df6e1bef11362e58ba777e5abdd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:07 +0000
Subject: [PATCH 056/115] fix: leave out a response header without a value in
 generated Go servers

---
 golang/golang_server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index bf1eec2..02f3495 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -98,7 +98,11 @@ func (gen *Generator) EmitServerAdaptor() {
 			for _, out := range hd.Expected.Outputs {
 				name := sadl.Capitalize(out.Name)
 				if out.Header != "" {
-					s = s + "\t\tw.Header().Add(\"" + out.Header + "\", normalizeHeaderValue(\"" + out.Header + "\", res." + name + "))\n"
+					add := "w.Header().Add(\"" + out.Header + "\", normalizeHeaderValue(\"" + out.Header + "\", res." + name + "))\n"
+					if strings.HasPrefix(gen.nativeType(out.Type), "*") {
+						add = "if res." + name + " != nil {\n\t\t\t" + add + "\t\t}\n"
+					}
+					s = s + "\t\t" + add
 				}
 			}
 			return s
-- 
2.43.0


From 15f6e5e49cfad668fda2a39cf756a0579fe9ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:08 +0000
Subject: [PATCH 057/115] fix: generate a Go client that compiles for a model
 without actions

---
 golang/golang_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 901776f..25e61c3 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -27,7 +27,9 @@ func (gen *Generator) EmitClient() {
 	gen.addImport("encoding/json")
 	gen.addImport("fmt")
 	gen.addImport("io")
-	gen.addImport("net/http")
+	if len(gen.Model.Http) > 0 {
+		gen.addImport("net/http")
+	}
 	gen.addImport("net/url")
 	gen.addImport("strconv")
 	gen.addImport("strings")
-- 
2.43.0


From 432ebce710e349a9453baf236e3a5833e6248c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:49 +0000
Subject: [PATCH 058/115] fix: use existing Java types for named Bool, Bytes
 and Any types and names of names

Fields of these types referred to Java classes that are not generated, and
required fields of named array and map types were not marked as such.
---
 java/export_java.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index f760c26..ae9e0fa 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -749,23 +749,25 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		return name, annotations, nil
 	case "Any":
 		return "Object", annotations, nil
+	case "Bytes":
+		return "byte[]", annotations, nil
 	default:
 		//app-defined type. Parser will have already verified its existence
 		td := gen.Model.FindType(name)
 		if td != nil {
 			switch td.Type {
-			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Boolean":
+			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "Bytes", "Any":
 				return gen.TypeName(&td.TypeSpec, td.Type, required)
 			case "String":
 				return gen.TypeName(&td.TypeSpec, "String", required)
-			case "Array":
-				return gen.TypeName(&td.TypeSpec, "Array", false) //FIXME: the "required/optional" state of the field is lost
-			case "Map":
-				return gen.TypeName(&td.TypeSpec, "Map", false) //FIXME: the "required/optional" state of the field is lost
+			case "Array", "Map":
+				return gen.TypeName(&td.TypeSpec, td.Type, required)
 			case "Struct":
 				if name == "Struct" {
 					return name, annotations, ts
 				}
+			case "Enum", "Union", "UnitValue":
+				//a class is generated under its own name
 			case "UUID":
 				gen.AddImport("java.util.UUID")
 				return "UUID", annotations, nil
@@ -791,6 +793,11 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				}
 				gen.NeedTimestamp = true
 				return "Timestamp", annotations, nil
+			default:
+				if td.Type != name {
+					//another name for an app-defined type
+					return gen.TypeName(nil, td.Type, required)
+				}
 			}
 		}
 		return name, annotations, nil
-- 
2.43.0


From 35d79c5a5a739cf4cd15ef10467728d2ce9eb925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:38 +0000
Subject: [PATCH 059/115] fix: keep the limits of numbers in generated Java

Required numbers lost their minimum and maximum, the annotations of optional
ones were not imported, and fractional limits do not fit in @Min and @Max.
---
 java/export_java.go | 61 +++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index ae9e0fa..f6dff25 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -654,17 +654,17 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	var annotations []string
 	if required {
 		if isPrimitive {
-			return primitiveName, nil, nil
+			return primitiveName, gen.rangeAnnotations(ts, name), nil
 		}
 		gen.AddImport("javax.validation.constraints.NotNull")
 		annotations = append(annotations, "@NotNull")
 	} else {
 		if isPrimitive {
+			boxedName := gen.Capitalize(primitiveName)
 			if primitiveName == "int" {
-				name = "Integer"
-			} else {
-				name = gen.Capitalize(primitiveName)
+				boxedName = "Integer"
 			}
+			return boxedName, gen.rangeAnnotations(ts, name), nil
 		}
 	}
 	switch name {
@@ -693,26 +693,9 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			}
 		}
 		return "String", annotations, nil
-	case "Byte", "Short", "Integer", "Long", "Float", "Double":
-		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@Min(%s)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@Max(%s)", ts.Max.String()))
-			}
-		}
-		return name, annotations, nil
 	case "Decimal":
 		gen.AddImport("java.math.BigDecimal")
-		if ts != nil {
-			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String()))
-			}
-			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String()))
-			}
-		}
+		annotations = append(annotations, gen.rangeAnnotations(ts, name)...)
 		return "BigDecimal", annotations, nil
 	case "Timestamp":
 		if gen.UseInstants {
@@ -772,14 +755,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 				gen.AddImport("java.util.UUID")
 				return "UUID", annotations, nil
 			case "Decimal":
-				gen.AddImport("java.math.BigDecimal")
-				if td.Min != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", td.Min.String()))
-				}
-				if td.Max != nil {
-					annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", td.Max.String()))
-				}
-				return "BigDecimal", annotations, nil
+				return gen.TypeName(&td.TypeSpec, td.Type, required)
 			case "Timestamp":
 				if gen.UseInstants {
 					gen.AddImport("java.time.Instant")
@@ -804,6 +780,31 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+// rangeAnnotations returns the annotations for the minimum and maximum of a number type.
+func (gen *Generator) rangeAnnotations(ts *sadl.TypeSpec, name string) []string {
+	var annotations []string
+	if ts == nil {
+		return nil
+	}
+	minAnno, maxAnno, format := "Min", "Max", "@%s(%sL)"
+	switch name {
+	case "Int8", "Int16", "Int32", "Int64":
+	case "Float32", "Float64", "Decimal":
+		minAnno, maxAnno, format = "DecimalMin", "DecimalMax", "@%s(\"%s\")"
+	default:
+		return nil
+	}
+	if ts.Min != nil {
+		gen.AddImport("javax.validation.constraints." + minAnno)
+		annotations = append(annotations, fmt.Sprintf(format, minAnno, ts.Min.String()))
+	}
+	if ts.Max != nil {
+		gen.AddImport("javax.validation.constraints." + maxAnno)
+		annotations = append(annotations, fmt.Sprintf(format, maxAnno, ts.Max.String()))
+	}
+	return annotations
+}
+
 func javaPackageToPath(pkg string) string {
 	return strings.Join(strings.Split(pkg, "."), "/")
 }
-- 
2.43.0


From e0f8f1d8146b0eb6867ec00f3ba144a3a8581862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:39 +0000
Subject: [PATCH 060/115] fix: generate the Java Timestamp class in the package
 that uses it

---
 java/java_timestamp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/java_timestamp.go b/java/java_timestamp.go
index ecfbb07..41048ea 100644
--- a/java/java_timestamp.go
+++ b/java/java_timestamp.go
@@ -50,7 +50,7 @@ func (gen *Generator) CreateTimestamp() {
 	gen.Emit(javaTimestamp)
 	result := gen.End()
 	if gen.Err == nil {
-		gen.WriteJavaFile("Timestamp", result, gen.Package)
+		gen.WriteJavaFile("Timestamp", result, gen.ModelPackage)
 	}
 }
 
-- 
2.43.0


From 68baf80b66e94a471de62e16c0ecb64ce9417365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:41 +0000
Subject: [PATCH 061/115] fix: decode every Java Instant field from its text

Only the builders of fields of the type Timestamp itself said how to decode
an Instant; fields of named timestamp types, of mutable classes and of unions
did not.
---
 java/export_java.go | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index f6dff25..d7162cf 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -318,6 +318,9 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 		if gen.UseImmutable {
 			gen.Emit(indent + "    private final " + tn + " " + fname + ";\n\n")
 		} else {
+			if tn == "Instant" {
+				gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
+			}
 			gen.Emit(indent + "    public " + tn + " " + fname + ";\n\n")
 		}
 	}
@@ -395,11 +398,8 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	var args []string
 	for _, fd := range ts.Fields {
 		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
-		if fd.Type == "Timestamp" {
-			if gen.UseInstants {
-				gen.NeedUtil = true
-				gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
-			}
+		if tn == "Instant" {
+			gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
 		}
 		gen.Emit(indent + "    public " + builderClass + " " + fd.Name + "(" + tn + " " + fd.Name + ") {\n")
 		gen.Emit(indent + "        this." + fd.Name + " = " + fd.Name + ";\n")
@@ -517,6 +517,9 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 				gen.Emit(indent1 + anno + "\n")
 			}
 		}
+		if tn == "Instant" {
+			gen.Emit(indent1 + "@JsonDeserialize(using = Util.InstantDeserializer.class)\n")
+		}
 		//todo: if useGetters, make this private and generate the getter
 		gen.Emit(indent1 + "public final " + tn + " " + vd.Name + ";\n")
 	}
@@ -757,18 +760,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			case "Decimal":
 				return gen.TypeName(&td.TypeSpec, td.Type, required)
 			case "Timestamp":
-				if gen.UseInstants {
-					gen.AddImport("java.time.Instant")
-					gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonSerialize")
-					gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonDeserialize")
-					annotations = append(annotations, fmt.Sprintf("@JsonDeserialize(using = Util.InstantDeserializer.class)"))
-					annotations = append(annotations, fmt.Sprintf("@JsonSerialize(using = Util.InstantSerializer.class)"))
-					gen.NeedUtil = true
-					gen.NeedInstant = true
-					return "Instant", annotations, nil
-				}
-				gen.NeedTimestamp = true
-				return "Timestamp", annotations, nil
+				return gen.TypeName(&td.TypeSpec, td.Type, required)
 			default:
 				if td.Type != name {
 					//another name for an app-defined type
-- 
2.43.0


From 14f24d3b4d0932c4f55f24b0950fcd161d7cc565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:43 +0000
Subject: [PATCH 062/115] fix: generate Java that compiles for structs written
 in place

The constructor, getters and builder of the outer class used a class Struct
that does not exist, Lombok classes had no inner classes at all, and the inner
classes came in a random order.
---
 java/export_java.go | 68 ++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index d7162cf..7b8cd67 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -272,19 +272,19 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
 		gen.Emit(indent + "@JsonIgnoreProperties({" + strings.Join(ignoreFields, ", ") + "})\n")
 	}
-	if indent == "" {
-		if lombok {
-			gen.Emit(indent + "@Data\n")
-			gen.AddImport("lombok.Data")
-			if len(ts.Fields) > 0 {
-				gen.Emit(indent + "@AllArgsConstructor\n")
-				gen.AddImport("lombok.AllArgsConstructor")
-			}
-			gen.Emit(indent + "@Builder\n")
-			gen.AddImport("lombok.Builder")
-			gen.Emit(indent + "@NoArgsConstructor(force=true)\n")
-			gen.AddImport("lombok.NoArgsConstructor")
+	if lombok {
+		gen.Emit(indent + "@Data\n")
+		gen.AddImport("lombok.Data")
+		if len(ts.Fields) > 0 {
+			gen.Emit(indent + "@AllArgsConstructor\n")
+			gen.AddImport("lombok.AllArgsConstructor")
 		}
+		gen.Emit(indent + "@Builder\n")
+		gen.AddImport("lombok.Builder")
+		gen.Emit(indent + "@NoArgsConstructor(force=true)\n")
+		gen.AddImport("lombok.NoArgsConstructor")
+	}
+	if indent == "" {
 		gen.Emit(indent + "public class " + className + extends + " {\n")
 	} else {
 		gen.Emit(indent + "public static class " + className + extends + " {\n")
@@ -344,19 +344,21 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
     }
 `)
 		}
-		if len(nested) > 0 {
-			for iname, ispec := range nested {
-				gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
-			}
+	}
+	for _, fd := range ts.Fields {
+		iname := gen.Capitalize(fd.Name)
+		if ispec, ok := nested[iname]; ok {
+			gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
+			delete(nested, iname)
 		}
 	}
-	gen.Emit("}\n")
+	gen.Emit(indent + "}\n")
 }
 
 func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSpec, indent string) {
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.memberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 		args = append(args, tn+" "+fd.Name)
 	}
 	gen.Emit(indent + "    public " + className + "(" + strings.Join(args, ", ") + ") {\n")
@@ -367,7 +369,7 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 }
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
-	tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	tn := gen.memberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
@@ -384,7 +386,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "@JsonPOJOBuilder(withPrefix=\"\")\n")
 	gen.Emit(indent + "public static class " + builderClass + " {\n")
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.memberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 		gen.Emit(indent + "    private " + tn + " " + fd.Name + ";\n")
 	}
 	gen.Emit("\n")
@@ -397,7 +399,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "    }\n\n")
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.memberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 		if tn == "Instant" {
 			gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
 		}
@@ -531,7 +533,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 		if i == max-1 {
 			delim = ""
 		}
-		tn, _, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn := gen.memberTypeName(&vd.TypeSpec, vd.Name, false)
 		gen.Emit("@JsonProperty(\"" + vd.Name + "\") " + tn + " " + vd.Name + delim)
 	}
 	gen.Emit(") {\n")
@@ -544,7 +546,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "}\n\n")
 
 	for _, vd := range td.Variants {
-		tn, _, _ := gen.TypeName(&vd.TypeSpec, vd.Type, false)
+		tn := gen.memberTypeName(&vd.TypeSpec, vd.Name, false)
 		gen.Emit("\n" + indent1 + "public static " + className + " of" + gen.Capitalize(vd.Name) + "(" + tn + " v) {\n")
 		gen.Emit(indent2 + "return new " + className + "(")
 		delim = ", "
@@ -570,9 +572,11 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
     }
 `)
 	}
-	if len(nested) > 0 {
-		for iname, ispec := range nested {
+	for _, vd := range td.Variants {
+		iname := gen.Capitalize(vd.Name)
+		if ispec, ok := nested[iname]; ok {
 			gen.CreateStructPojo(ispec, iname, indent1, nil)
+			delete(nested, iname)
 		}
 	}
 	gen.Emit("}\n")
@@ -641,11 +645,8 @@ func (gen *Generator) EmitFluidSetter(className string, ts *sadl.TypeSpec, fd *s
 	if gen.Err != nil {
 		return
 	}
-	tn, _, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
 	//fixme: the annotations are getting ignored. Figure out if this is preferred or not
-	if anonymous != nil {
-		tn = gen.Capitalize(fd.Name)
-	}
+	tn := gen.memberTypeName(&fd.TypeSpec, fd.Name, fd.Required)
 	gen.Emit(indent + "    public " + className + " " + fd.Name + "(" + tn + " val) {\n")
 	gen.Emit(indent + "        this." + fd.Name + " = val;\n")
 	gen.Emit(indent + "        return this;\n")
@@ -772,6 +773,15 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+// memberTypeName returns the type name of a field or variant. A struct written in place has an inner class named after it.
+func (gen *Generator) memberTypeName(ts *sadl.TypeSpec, name string, required bool) string {
+	tn, _, anonymous := gen.TypeName(ts, ts.Type, required)
+	if anonymous != nil {
+		return gen.Capitalize(name)
+	}
+	return tn
+}
+
 // rangeAnnotations returns the annotations for the minimum and maximum of a number type.
 func (gen *Generator) rangeAnnotations(ts *sadl.TypeSpec, name string) []string {
 	var annotations []string
-- 
2.43.0


From f12ca13398094d26a9f8090a4f37753c81b41460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:44 +0000
Subject: [PATCH 063/115] fix: encode the message field of a generated Java
 exception

A field of an exception named like one of Throwable's properties was ignored
if there was any other field, and nothing was ignored without fields.
---
 java/export_java.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 7b8cd67..0ed32fe 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -263,11 +263,15 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	if extends != "" {
 		var ignoreFields []string
 		for _, f := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
+			isField := false
 			for _, fd := range ts.Fields {
-				if fd.Name != f {
-					ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
+				if fd.Name == f {
+					isField = true
 				}
 			}
+			if !isField {
+				ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
+			}
 		}
 		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
 		gen.Emit(indent + "@JsonIgnoreProperties({" + strings.Join(ignoreFields, ", ") + "})\n")
-- 
2.43.0


From 306d8a7732bed28b3d116473066e3fd58bc96f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:10 +0000
Subject: [PATCH 064/115] fix: report types written in place that Java
 generation does not support

The generated code referred to classes Enum, Union and UnitValue that do not
exist or are something else.
---
 java/export_java.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 0ed32fe..adb4275 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -758,7 +758,10 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 					return name, annotations, ts
 				}
 			case "Enum", "Union", "UnitValue":
-				//a class is generated under its own name
+				//a class is generated under its own name, but none for one written in place
+				if td.Type == name && gen.Err == nil {
+					gen.Err = fmt.Errorf("Cannot generate Java for the type: %s", name)
+				}
 			case "UUID":
 				gen.AddImport("java.util.UUID")
 				return "UUID", annotations, nil
-- 
2.43.0


From dbc3a735b359b020d77718a7ba4298758433eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:15 +0000
Subject: [PATCH 065/115] fix: report names that are Java keywords instead of
 crashing or generating broken code

---
 java/export_java.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index adb4275..deb1773 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -226,12 +226,23 @@ func (gen *Generator) CreatePojo(ts *sadl.TypeSpec, className, comment string, e
 
 func reservedKeyword(name string) bool {
 	switch name {
-	case "package":
+	case "abstract", "assert", "boolean", "break", "byte", "case", "catch", "char", "class", "const", "continue", "default",
+		"do", "double", "else", "enum", "extends", "final", "finally", "float", "for", "goto", "if", "implements", "import",
+		"instanceof", "int", "interface", "long", "native", "new", "package", "private", "protected", "public", "return",
+		"short", "static", "strictfp", "super", "switch", "synchronized", "this", "throw", "throws", "transient", "try",
+		"void", "volatile", "while", "true", "false", "null", "_":
 		return true
 	}
 	return false
 }
 
+// checkName reports a member name that Java does not allow.
+func (gen *Generator) checkName(name string) {
+	if gen.Err == nil && reservedKeyword(name) {
+		gen.Err = fmt.Errorf("Cannot generate Java for the name, it clashes with a keyword: %q", name)
+	}
+}
+
 func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, indent string, exceptions map[string]string) {
 	lombok := false
 	if _, ok := exceptions[className]; !ok {
@@ -296,9 +307,7 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	nested := make(map[string]*sadl.TypeSpec, 0)
 	for _, fd := range ts.Fields {
 		fname := fd.Name
-		if reservedKeyword(fname) {
-			panic("bad field name, clashes with a keyword: " + fname)
-		}
+		gen.checkName(fname)
 		if fd.Comment != "" {
 			gen.Emit(gen.FormatComment(indent+"    ", fd.Comment, 100, false))
 		}
@@ -435,6 +444,7 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 		if el.Comment != "" {
 			comment = gen.FormatComment(" ", el.Comment, 0, false)
 		}
+		gen.checkName(el.Symbol)
 		sym := el.Symbol //strings.ToUpper(el.Symbol) ???
 		val := sadl.GetAnnotation(el.Annotations, "x_enumValue")
 		if val == "" {
@@ -504,6 +514,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 	gen.Emit(indent1 + "public " + variantType + " variant;\n\n")
 	nested := make(map[string]*sadl.TypeSpec, 0)
 	for _, vd := range td.Variants {
+		gen.checkName(vd.Name)
 		gen.Emit(indent1 + "@JsonInclude(JsonInclude.Include.NON_EMPTY)\n")
 
 		if vd.Comment != "" {
-- 
2.43.0


From 201f987049cb83cc7447d47619016e060d9cab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:29 +0000
Subject: [PATCH 066/115] fix: use the configured domain when generating Java

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index deb1773..a366ace 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -97,7 +97,7 @@ func (gen *Generator) AddImport(fullReference string) {
 func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generator {
 	gen := &Generator{}
 	gen.Config = config
-	domain := gen.Config.GetString("domain", "-")
+	domain := gen.GetConfigString("domain", "")
 	if domain == "" {
 		if model.Namespace != "" {
 			domain = strings.Join(reverseStrings(strings.Split(model.Namespace, ".")), ".")
-- 
2.43.0


From 2829d0e1602f93dd9ad981824d75abbcfc565e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:26 +0000
Subject: [PATCH 067/115] fix: import JsonCreator in generated Java unit values

---
 java/export_java.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/export_java.go b/java/export_java.go
index a366ace..dc4cbcf 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -599,6 +599,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 
 func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 	gen.AddImport("javax.validation.constraints.NotNull")
+	gen.AddImport("com.fasterxml.jackson.annotation.JsonCreator")
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonValue")
 	gen.Emit("public class " + className + " {\n\n")
 
-- 
2.43.0


From 05a464e8faa71f3e847fd6cecbbf92b4561bb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:59 +0000
Subject: [PATCH 068/115] fix: generate Java client and server code that
 compiles with mutable classes

---
 java/java_client.go | 17 ++++++++++++-----
 java/java_server.go | 16 ++++++++++------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index a2fac2d..7bfe1ee 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -97,7 +97,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			path := pq[0]
 			writer.WriteString("        WebTarget target = client.target(config.getTarget()).path(\"" + path + "\")")
 			for _, in := range hact.Inputs {
-				src := "req.get" + gen.Capitalize(in.Name) + "()"
+				src := gen.memberOf("req", in.Name)
 				if in.Path {
 					writer.WriteString("\n            .resolveTemplate(\"" + in.Name + "\", " + src + ", true)")
 				} else if in.Query != "" {
@@ -107,14 +107,14 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			writer.WriteString(";\n        Invocation.Builder inv = target.request(MediaType.APPLICATION_JSON)")
 			for _, in := range hact.Inputs {
 				if in.Header != "" {
-					src := "req.get" + gen.Capitalize(in.Name) + "()"
+					src := gen.memberOf("req", in.Name)
 					writer.WriteString("\n            .header(\"" + in.Header + "\", " + src + ")")
 				}
 			}
 			switch hact.Method {
 			case "PUT", "POST":
 				ename, _ := gen.ActionInfo(hact)
-				src := "Entity.entity(req.get" + gen.Capitalize(ename) + "(), MediaType.APPLICATION_JSON)"
+				src := "Entity.entity(" + gen.memberOf("req", ename) + ", MediaType.APPLICATION_JSON)"
 				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "(" + src + ");\n")
 			case "GET", "DELETE":
 				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "();\n")
@@ -138,7 +138,11 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					}
 				}
 				responseType := gen.ResponseType(hact.Name)
-				writer.WriteString("            return " + responseType + ".builder()\n")
+				if gen.UseImmutable {
+					writer.WriteString("            return " + responseType + ".builder()\n")
+				} else {
+					writer.WriteString("            return new " + responseType + "()\n")
+				}
 				if etype != "void" {
 					writer.WriteString("                ." + ename + "(" + ename + ")\n")
 				}
@@ -147,7 +151,10 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 						writer.WriteString("                ." + out.Name + "(" + out.Name + ")\n")
 					}
 				}
-				writer.WriteString("                .build();\n")
+				if gen.UseImmutable {
+					writer.WriteString("                .build()")
+				}
+				writer.WriteString(";\n")
 			}
 			for _, exc := range hact.Exceptions {
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
diff --git a/java/java_server.go b/java/java_server.go
index a63b750..6ef9104 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -248,16 +248,12 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
-					if gen.UseImmutable {
-						wrappedResult = gen.jsonWrapper(etype, "res.get"+gen.Capitalize(ename)+"()")
-					} else {
-						wrappedResult = gen.jsonWrapper(etype, "res."+ename)
-					}
+					wrappedResult = gen.jsonWrapper(etype, gen.memberOf("res", ename))
 				}
 				ret := fmt.Sprintf("Response.status(%d)", +hact.Expected.Status)
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
-						ret = ret + ".header(\"" + out.Header + "\", res.get" + gen.Capitalize(out.Name) + "())"
+						ret = ret + ".header(\"" + out.Header + "\", " + gen.memberOf("res", out.Name) + ")"
 					}
 				}
 				if wrappedResult != "" {
@@ -489,6 +485,14 @@ func (gen *Generator) ResponseType(name string) string {
 	return gen.Capitalize(name) + "Response"
 }
 
+// memberOf returns the expression for a field of a generated class.
+func (gen *Generator) memberOf(obj string, name string) string {
+	if gen.UseImmutable {
+		return obj + ".get" + gen.Capitalize(name) + "()"
+	}
+	return obj + "." + name
+}
+
 func (gen *Generator) jsonWrapper(etype string, val string) string {
 	switch etype {
 	case "String":
-- 
2.43.0


From 040753b9f3134ba84d2300862c2044e5ed61a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:00 +0000
Subject: [PATCH 069/115] fix: generate Java clients for every method, and for
 actions without a body

---
 java/java_client.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 7bfe1ee..7a8028c 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -111,16 +111,19 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					writer.WriteString("\n            .header(\"" + in.Header + "\", " + src + ")")
 				}
 			}
-			switch hact.Method {
-			case "PUT", "POST":
-				ename, _ := gen.ActionInfo(hact)
-				src := "Entity.entity(" + gen.memberOf("req", ename) + ", MediaType.APPLICATION_JSON)"
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "(" + src + ");\n")
-			case "GET", "DELETE":
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "();\n")
-			default:
-				panic("fix me: method = " + hact.Method)
+			entity := ""
+			for _, in := range hact.Inputs {
+				if in.Query == "" && in.Header == "" && !in.Path {
+					entity = "Entity.entity(" + gen.memberOf("req", in.Name) + ", MediaType.APPLICATION_JSON)"
+				}
+			}
+			if entity == "" && (hact.Method == "PUT" || hact.Method == "POST") {
+				entity = "Entity.json(\"\")"
+			}
+			if entity != "" {
+				entity = ", " + entity
 			}
+			writer.WriteString(";\n        Response response = inv.method(\"" + hact.Method + "\"" + entity + ");\n")
 			writer.WriteString("        switch (response.getStatus()) {\n")
 			writer.WriteString("        case " + fmt.Sprint(hact.Expected.Status) + ":\n")
 			if len(hact.Expected.Outputs) == 0 {
-- 
2.43.0


From 9c6bd25ffe0bba1dfe656cc7764e0e2e63e00758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:01 +0000
Subject: [PATCH 070/115] fix: generate Java that compiles for Array, Map, UUID
 and Decimal inputs and results

---
 java/java_client.go | 9 ++++++++-
 java/java_server.go | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/java/java_client.go b/java/java_client.go
index 7a8028c..e01ee30 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -131,7 +131,11 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			} else {
 				ename, etype := entityNameType(hact)
 				if etype != "void" {
-					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + etype + ".class);\n")
+					cls := etype + ".class"
+					if strings.Contains(etype, "<") {
+						cls = "new GenericType<" + etype + ">() {}"
+					}
+					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + cls + ");\n")
 				}
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
@@ -193,12 +197,15 @@ public interface ClientConfig {
 
 const clientTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
+import java.math.BigDecimal;
 import java.time.Instant;
+import java.util.*;
 import javax.ws.rs.client.Client;
 import javax.ws.rs.client.ClientBuilder;
 import javax.ws.rs.client.Entity;
 import javax.ws.rs.client.WebTarget;
 import javax.ws.rs.client.Invocation;
+import javax.ws.rs.core.GenericType;
 import javax.ws.rs.core.MediaType;
 import javax.ws.rs.core.Response;
 import javax.ws.rs.WebApplicationException;
diff --git a/java/java_server.go b/java/java_server.go
index 6ef9104..cfb1c4f 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -369,6 +369,7 @@ public class {{.MainClass}} {
 const resourcesTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
 import java.util.*;
+import java.math.BigDecimal;
 import java.time.Instant;
 import javax.inject.Inject;
 import javax.ws.rs.*;
-- 
2.43.0


From 3cf2d0ac3d3767cbb39dea60d8a50b33945e3a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:02 +0000
Subject: [PATCH 071/115] fix: decode the JSON of a String result in the
 generated Java client

---
 java/java_client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/java/java_client.go b/java/java_client.go
index e01ee30..6f6efd1 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -135,7 +135,12 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					if strings.Contains(etype, "<") {
 						cls = "new GenericType<" + etype + ">() {}"
 					}
-					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + cls + ");\n")
+					entity := "response.readEntity(" + cls + ")"
+					if etype == "String" {
+						//the server wraps it as JSON, see jsonWrapper
+						entity = "Util.fromJson(" + entity + ", String.class)"
+					}
+					writer.WriteString("            " + etype + " " + ename + " = " + entity + ";\n")
 				}
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
-- 
2.43.0


From fab7e836bb2e33ae95a549d638181e717259770a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:03 +0000
Subject: [PATCH 072/115] fix: convert response headers in the generated Java
 client

---
 java/java_client.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 6f6efd1..0c0fc27 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -65,9 +65,27 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	}
 	fromString := func(typename, val string) string {
 		switch typename {
+		case "String":
+			return val
 		case "Instant":
 			return "Instant.parse(" + val + ")"
+		case "Byte", "Short", "Integer", "Long", "Float", "Double", "Boolean":
+			return typename + ".valueOf(" + val + ")"
+		case "BigDecimal", "Timestamp":
+			return "new " + typename + "(" + val + ")"
+		case "UUID":
+			return "UUID.fromString(" + val + ")"
 		default:
+			td := gen.Model.FindType(typename)
+			if td != nil && td.Type == "Enum" {
+				return typename + ".fromString(" + val + ")"
+			}
+			if td != nil && td.Type == "UnitValue" {
+				return "new " + typename + "(" + val + ")"
+			}
+			if gen.Err == nil {
+				gen.Err = fmt.Errorf("Cannot generate Java for a response header of the type: %s", typename)
+			}
 			return val
 		}
 	}
@@ -144,8 +162,12 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				}
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
-						tn, _, _ := gen.TypeName(nil, out.Type, true)
-						osrc := fromString(tn, "response.getHeaderString(\""+out.Header+"\")")
+						tn, _, _ := gen.TypeName(nil, out.Type, false)
+						hsrc := "response.getHeaderString(\"" + out.Header + "\")"
+						osrc := hsrc
+						if tn != "String" {
+							osrc = hsrc + " == null ? null : " + fromString(tn, hsrc)
+						}
 						writer.WriteString("            " + tn + " " + out.Name + " = " + osrc + ";\n")
 					}
 				}
-- 
2.43.0


From d78acbdbcb3f81f5b079703fe53d3e302bcb6315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:05 +0000
Subject: [PATCH 073/115] fix: throw a ServiceException from the Java client
 when its error types are not exceptions

---
 java/java_client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/java/java_client.go b/java/java_client.go
index 0c0fc27..170a4fa 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -192,7 +192,12 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			}
 			for _, exc := range hact.Exceptions {
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
-				writer.WriteString("            throw response.readEntity(" + exc.Type + ".class);\n")
+				tn, _, _ := gen.TypeName(nil, exc.Type, true)
+				if gen.Config.GetBool("service-exception") && tn != "ServiceException" {
+					writer.WriteString("            throw new ServiceException().entity(response.readEntity(" + tn + ".class));\n")
+				} else {
+					writer.WriteString("            throw response.readEntity(" + tn + ".class);\n")
+				}
 			}
 			writer.WriteString("        default:\n")
 			writer.WriteString("            throw new RuntimeException(\"Unexpected service response status: \" + response.getStatus());\n")
-- 
2.43.0


From 58b990d9d7928494effb8ae0795c84499f078939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:18 +0000
Subject: [PATCH 074/115] fix: generate Java defaults for string inputs, and
 report those not supported

---
 java/java_server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/java/java_server.go b/java/java_server.go
index cfb1c4f..5506414 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -202,6 +202,8 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				}
 				if in.Default != nil {
 					switch b := in.Default.(type) {
+					case string:
+						param = fmt.Sprintf("@DefaultValue(%q)", b) + " " + param
 					case *string:
 						param = fmt.Sprintf("@DefaultValue(%q)", *b) + " " + param
 					case *sadl.Decimal:
@@ -209,8 +211,9 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					case bool:
 						param = fmt.Sprintf("@DefaultValue(\"%v\")", b) + " " + param
 					default:
-						fmt.Println("Whoops:", sadl.Pretty(in.Default))
-						panic("HERE")
+						if gen.Err == nil {
+							gen.Err = fmt.Errorf("Cannot generate Java for the default of the input %q: %s", in.Name, sadl.Pretty(in.Default))
+						}
 					}
 				}
 				params = append(params, param)
-- 
2.43.0


From eea7793d0563f0a8ece08e49ab702b13c97fcf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:25 +0000
Subject: [PATCH 075/115] fix: write HTTP traces in the order of the examples

---
 httptrace/export_http_examples.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 1658685..2feac22 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -43,12 +43,16 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	reqType := sadl.Capitalize(hdef.Name) + "Request"
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
+	var exampleNames []string
 	var reqExample, resExample map[string]interface{}
 
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
 			tmp := ex.Example.(map[string]interface{})
+			if _, ok := namedExamples[ex.Name]; !ok {
+				exampleNames = append(exampleNames, ex.Name)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -69,7 +73,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		}
 	}
 	body := ""
-	for exName, data := range namedExamples {
+	for _, exName := range exampleNames {
+		data := namedExamples[exName]
 		reqExample = data.req
 		resExample = data.res
 		body = body + "#\n# " + exName + " (action=" + hdef.Name + ")\n#\n"
-- 
2.43.0


From 2f988c91124573663313bc394e6e3e6a1b6e915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:26 +0000
Subject: [PATCH 076/115] fix: keep Bool values of inputs and headers in HTTP
 traces

---
 httptrace/export_http_examples.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 2feac22..537279b 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -26,6 +26,10 @@ func stringExample(ex interface{}) string {
 	switch v := ex.(type) {
 	case *string:
 		return *v
+	case string:
+		return v
+	case bool:
+		return fmt.Sprint(v)
 	case *sadl.Decimal:
 		return v.String()
 	}
-- 
2.43.0


From 462a9e88eb9c7fd0d4c710b9fdbf1442c341965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:27 +0000
Subject: [PATCH 077/115] fix: write the Date header of HTTP traces in GMT

---
 httptrace/export_http_examples.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 537279b..72f5a68 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -145,8 +145,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 }
 
 func dateHeader() string {
-	t := time.Now()
-	return t.Format("Mon, 2 Jan 2006 15:04:05 GMT")
+	return time.Now().UTC().Format(http.TimeFormat)
 }
 
 func stripMissingOptionalQueryParams(uri string) string {
-- 
2.43.0


From 9489444f857c9205ee9ff7a364d73e20fdc0994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:28 +0000
Subject: [PATCH 078/115] fix: leave out absent headers and bodies from HTTP
 traces

---
 httptrace/export_http_examples.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 72f5a68..4c37b58 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -92,6 +92,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			
 			for _, in := range hdef.Inputs {
 				ex := reqExample[in.Name]
+				if ex == nil && !in.Path && in.Query == "" {
+					continue
+				}
 				if in.Path || in.Query != "" {
 					sex := stringExample(ex)
 					if in.Path {
@@ -120,6 +123,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 				if data.exc == nil {
 					for _, out := range hdef.Expected.Outputs {
 						ex := resExample[out.Name]
+						if ex == nil {
+							continue
+						}
 						if out.Header != "" {
 							sex := stringExample(ex)
 							headers = headers + out.Header + ": " + sex + "\n"
-- 
2.43.0


From 3b12bb663c4ac7fdadc6f1fc19f30b9dc0584e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:29 +0000
Subject: [PATCH 079/115] fix: report errors of HTTP traces instead of crashing
 or exiting

---
 httptrace/export_http_examples.go | 32 ++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 4c37b58..e7894c1 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,7 +3,6 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
-	"os"
 	"strings"
 	"time"
 
@@ -14,8 +13,7 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 	for _, hdef := range model.Http {
 		snippet, err := generateHttpTrace(model, hdef)
 		if err != nil {
-			fmt.Println("*** Error:", err)
-			os.Exit(1)
+			return err
 		}
 		fmt.Println(snippet)
 	}
@@ -39,7 +37,7 @@ func stringExample(ex interface{}) string {
 type exampleData struct {
 	req map[string]interface{}
 	exc *sadl.HttpExceptionSpec
-	res map[string]interface{}
+	res interface{}
 }
 
 func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
@@ -48,12 +46,14 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
 	var exampleNames []string
-	var reqExample, resExample map[string]interface{}
 
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
-			tmp := ex.Example.(map[string]interface{})
+			tmp, ok := ex.Example.(map[string]interface{})
+			if !ok {
+				return "", fmt.Errorf("Example for an HTTP request must be a JSON object: %s", reqType)
+			}
 			if _, ok := namedExamples[ex.Name]; !ok {
 				exampleNames = append(exampleNames, ex.Name)
 			}
@@ -64,11 +64,11 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		if ex.Target != reqType {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
-					data.res = ex.Example.(map[string]interface{})
+					data.res = ex.Example
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
-							data.res = ex.Example.(map[string]interface{})
+							data.res = ex.Example
 							data.exc = exc
 						}
 					}
@@ -79,8 +79,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	body := ""
 	for _, exName := range exampleNames {
 		data := namedExamples[exName]
-		reqExample = data.req
-		resExample = data.res
+		reqExample := data.req
 		body = body + "#\n# " + exName + " (action=" + hdef.Name + ")\n#\n"
 		if reqExample != nil {
 			body = body + "#   Request:"
@@ -113,14 +112,21 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			s := method + " " + path + " HTTP/1.1\n" + headers + "\n" + bodyExample
 			body = body + "\n" + s + "\n"
 			
-			if resExample != nil {
+			if data.res != nil {
 				body = body + "#   Response:"
-				status := hdef.Expected.Status
+				status := int32(200)
+				if hdef.Expected != nil {
+					status = hdef.Expected.Status
+				}
 				bodyExample := ""
 				headers := "Content-Type: application/json; charset=utf-8\n"
 
 
 				if data.exc == nil {
+					resExample, ok := data.res.(map[string]interface{})
+					if !ok || hdef.Expected == nil {
+						return "", fmt.Errorf("Example for an HTTP response must be a JSON object: %s", resType)
+					}
 					for _, out := range hdef.Expected.Outputs {
 						ex := resExample[out.Name]
 						if ex == nil {
@@ -137,7 +143,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					}
 				} else {
 					status = data.exc.Status
-					bodyExample = sadl.Pretty(resExample)
+					bodyExample = sadl.Pretty(data.res)
 				}
 				headers = headers + "Date: " + dateHeader() + "\n"
 				headers = fmt.Sprintf("Content-Length: %d\n", len(bodyExample)) + headers
-- 
2.43.0


From e0d8158f2ebaa880da10bdadeb8d4660997e9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:29 +0000
Subject: [PATCH 080/115] fix: a SADL text without a file has no name rather
 than the name "."

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 1559f89..49a0121 100644
--- a/parser.go
+++ b/parser.go
@@ -166,7 +166,7 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 	if name != "" {
 		p.schema.Name = name
 	}
-	if p.schema.Name == "" {
+	if p.schema.Name == "" && p.path != "" {
 		p.schema.Name = BaseFileName(p.path)
 	}
 	if p.schema.Namespace == "" {
-- 
2.43.0


From f65a6a982ceb31c773243a226cfbcc3528cd44f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:56 +0000
Subject: [PATCH 081/115] fix: SADL source may end right after a Struct, Enum
 or Union, without a newline

---
 parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.go b/parser.go
index 49a0121..e3c3ba6 100644
--- a/parser.go
+++ b/parser.go
@@ -66,6 +66,7 @@ type Parser struct {
 	lastToken      *scanner.Token
 	prevLastToken  *scanner.Token
 	ungottenToken  *scanner.Token
+	ended          bool
 	currentComment string
 	extensions     map[string]Extension
 }
@@ -105,6 +106,10 @@ func (p *Parser) Model() *Model {
 }
 
 func (p *Parser) UngetToken() {
+	if p.ended {
+		//nothing was taken, the next token is the end of the file again
+		return
+	}
 	Debug("UngetToken() -> ", p.lastToken)
 	p.ungottenToken = p.lastToken
 	p.lastToken = p.prevLastToken
@@ -117,10 +122,14 @@ func (p *Parser) GetToken() *scanner.Token {
 		Debug("GetToken() -> ", p.lastToken)
 		return p.lastToken
 	}
+	if p.ended {
+		return nil
+	}
 	p.prevLastToken = p.lastToken
 	tok := p.scanner.Scan()
 	for {
 		if tok.Type == scanner.EOF {
+			p.ended = true
 			return nil //fixme
 		} else if tok.Type != scanner.BLOCK_COMMENT {
 			break
-- 
2.43.0


From c05f3bd202799a48185ca0a1f8b3e2eb72d857cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:23 +0000
Subject: [PATCH 082/115] fix: annotations written after the block of a type,
 or before the block of a Union, are kept

---
 parser.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index e3c3ba6..eb36685 100644
--- a/parser.go
+++ b/parser.go
@@ -943,10 +943,8 @@ func (p *Parser) parseTypeDirective(comment string) error {
 		err = p.parseMapDef(td, params)
 	case "Struct":
 		err = p.parseStructDef(td, fields)
-		td.Annotations = options.Annotations
 	case "Enum":
-		td.Elements = elements
-		td.Annotations = options.Annotations
+		err = p.parseEnumDef(td, elements)
 	case "Union":
 		err = p.parseUnionDef(td, params, fields)
 	default:
@@ -955,6 +953,10 @@ func (p *Parser) parseTypeDirective(comment string) error {
 	if err != nil {
 		return err
 	}
+	//the options may precede the block or follow it
+	for k, v := range options.Annotations {
+		td.Annotations = p.addAnnotation(td.Annotations, k, v)
+	}
 	p.schema.Types = append(p.schema.Types, td)
 	return nil
 }
@@ -1203,13 +1205,18 @@ func (p *Parser) parseStructDef(td *TypeDef, fields []*StructFieldDef) error {
 	err := p.parseTypeOptions(td)
 	if err == nil {
 		td.Fields = fields
+		td.Comment, err = p.EndOfStatement(td.Comment)
 	}
 	return err
 }
 
 func (p *Parser) parseEnumDef(td *TypeDef, elements []*EnumElementDef) error {
-	td.Elements = elements
-	return nil
+	err := p.parseTypeOptions(td)
+	if err == nil {
+		td.Elements = elements
+		td.Comment, err = p.EndOfStatement(td.Comment)
+	}
+	return err
 }
 
 func (p *Parser) parseUnionDef(td *TypeDef, params []string, fields []*StructFieldDef) error {
-- 
2.43.0


From 4a75e1b4ea164dc45aa9d9a09ca464b8c5e5866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:27 +0000
Subject: [PATCH 083/115] fix: all comment lines before a Struct field are
 kept, and only once

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index eb36685..2f21dcc 100644
--- a/parser.go
+++ b/parser.go
@@ -1739,7 +1739,7 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 		if tok.Type == scanner.CLOSE_BRACE {
 			return nil, nil
 		} else if tok.Type == scanner.LINE_COMMENT {
-			comment = p.MergeComment("", tok.Text)
+			comment = p.MergeComment(comment, tok.Text)
 			tok = p.GetToken()
 			if tok == nil {
 				return nil, p.EndOfFileError()
@@ -1758,11 +1758,10 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 	if err != nil {
 		return nil, err
 	}
-	ts, foptions, fcomment, err := p.ParseTypeSpec(comment)
+	ts, foptions, comment, err := p.ParseTypeSpec(comment)
 	if err != nil {
 		return nil, err
 	}
-	comment = p.MergeComment(comment, fcomment)
 	field := &StructFieldDef{
 		Name:     fname,
 		Comment:  comment,
-- 
2.43.0


From b365fca8dae467ecff538a76d13baae33b8eb432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:10 +0000
Subject: [PATCH 084/115] fix: comments, annotations, item types and
 constraints of Union variants are kept

---
 parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 2f21dcc..f679584 100644
--- a/parser.go
+++ b/parser.go
@@ -1231,9 +1231,12 @@ func (p *Parser) parseUnionDef(td *TypeDef, params []string, fields []*StructFie
 			}
 		} else if fields != nil {
 			for _, v := range fields {
-				vd := &UnionVariantDef{}
-				vd.Name = v.Name
-				vd.Type = v.Type
+				vd := &UnionVariantDef{
+					Name:        v.Name,
+					Comment:     v.Comment,
+					Annotations: v.Annotations,
+					TypeSpec:    v.TypeSpec,
+				}
 				td.Variants = append(td.Variants, vd)
 			}
 		} else {
-- 
2.43.0


From 41464eaa87a7f60fbe931ac0fae155e264d54dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:17 +0000
Subject: [PATCH 085/115] fix: the comment after the separator of an Enum
 element belongs to that element

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index f679584..8dc829b 100644
--- a/parser.go
+++ b/parser.go
@@ -1712,6 +1712,11 @@ func (p *Parser) parseEnumElementDef() (*EnumElementDef, error) {
 	if err != nil {
 		return nil, err
 	}
+	//the comment of an element may follow its separator
+	tok := p.GetToken()
+	if tok != nil && tok.Type != scanner.COMMA && tok.Type != scanner.SEMICOLON {
+		p.UngetToken()
+	}
 	comment = p.ParseTrailingComment(comment)
 	return &EnumElementDef{
 		Symbol:      sym,
-- 
2.43.0


From c94b81d3baf1fa23d2b8e24680b59ed4bf4554cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:45 +0000
Subject: [PATCH 086/115] fix: body and path inputs of an action are required,
 header inputs are not

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 8dc829b..07fde75 100644
--- a/parser.go
+++ b/parser.go
@@ -628,7 +628,7 @@ func ensureResourceName(hact *HttpDef) error {
 
 func ensureRequiredParams(hact *HttpDef) {
 	for _, in := range hact.Inputs {
-		if in.Query == "" && in.Header != "" { //body or pathparam
+		if in.Query == "" && in.Header == "" { //body or pathparam
 			in.Required = true
 		}
 	}
-- 
2.43.0


From af34875b96577070526deee37d7cada417ac657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:47 +0000
Subject: [PATCH 087/115] fix: the required option of inputs and outputs of an
 action is kept

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index 07fde75..8da1f75 100644
--- a/parser.go
+++ b/parser.go
@@ -706,6 +706,7 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 			Name:        ename,
 			Annotations: options.Annotations,
 			Comment:     comment,
+			Required:    options.Required,
 			TypeSpec:    *ts,
 		},
 	}
-- 
2.43.0


From e0f8ffea96a94cce7aebfa0fd3686b377f7c77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:48 +0000
Subject: [PATCH 088/115] fix: the query of a path is no part of the resource
 an action is named after

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 8da1f75..ed764b6 100644
--- a/parser.go
+++ b/parser.go
@@ -646,7 +646,11 @@ func ensureRequiredParams(hact *HttpDef) {
 }
 
 func resourceName(hact *HttpDef) string {
-	parts := strings.Split(hact.Path, "/")
+	path := hact.Path
+	if n := strings.Index(path, "?"); n >= 0 {
+		path = path[:n]
+	}
+	parts := strings.Split(path, "/")
 	for i := len(parts) - 1; i >= 0; i-- {
 		if strings.Index(parts[i], "{") < 0 {
 			return parts[i]
-- 
2.43.0


From 5f37702558d21cff069e19a0ae7b7d6fd64dda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:50 +0000
Subject: [PATCH 089/115] fix: the comment before an expect without a block is
 kept

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index ed764b6..5665d59 100644
--- a/parser.go
+++ b/parser.go
@@ -750,6 +750,7 @@ func (p *Parser) parseHttpExpectedSpec(op *HttpDef, comment string) error {
 	}
 	op.Expected = &HttpExpectedSpec{
 		Status:      estatus,
+		Comment:     comment,
 		Annotations: options.Annotations,
 	}
 	tok := p.GetToken()
-- 
2.43.0


From 0c99383c51195c275e8e4bcb6068ca0544f78363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:52 +0000
Subject: [PATCH 090/115] fix: an empty array in an example or a default is an
 array, not null

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 5665d59..1fbfe09 100644
--- a/parser.go
+++ b/parser.go
@@ -1892,7 +1892,7 @@ func (p *Parser) parseLiteralNumber(tok *scanner.Token) (interface{}, error) {
 }
 
 func (p *Parser) parseLiteralArray() (interface{}, error) {
-	var ary []interface{}
+	ary := make([]interface{}, 0)
 	for {
 		tok := p.GetToken()
 		if tok == nil {
-- 
2.43.0


From 4ef0f0c3ba75410bf1f800b8332b5ea688e81504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:34 +0000
Subject: [PATCH 091/115] fix: comments and annotations of operation inputs and
 outputs are read

---
 parser.go | 162 ++++++++++++++++++++++--------------------------------
 1 file changed, 67 insertions(+), 95 deletions(-)

diff --git a/parser.go b/parser.go
index 1fbfe09..1c658f8 100644
--- a/parser.go
+++ b/parser.go
@@ -418,118 +418,90 @@ func (p *Parser) parseOperationDirective(comment string) error {
 
 func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 	var inputs []*OperationInput
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
-	}
-	tok = p.GetToken()
-	for tok != nil {
-		if tok.Type == scanner.CLOSE_BRACE {
+	err := p.expect(scanner.OPEN_BRACE)
+	for err == nil {
+		var done bool
+		var options *Options
+		in := &OperationInput{}
+		done, in.Comment, err = p.IsBlockDone("")
+		if err != nil {
+			break
+		}
+		if done {
 			return inputs, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			in := &OperationInput{}
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			in.Name = tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			in.Type = tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.OPEN_PAREN {
-				p.UngetToken()
-			} else {
-				for {
-					tok = p.GetToken()
-					if tok.Type == scanner.CLOSE_PAREN {
-						break
-					} else if tok.Type == scanner.SYMBOL {
-						switch tok.Text {
-						case "required":
-							in.Required = true
-						default:
-							return nil, p.SyntaxError()
-						}
-					}
-				}
-			}
-			inputs = append(inputs, in)
 		}
-		tok = p.GetToken()
+		in.Name, err = p.ExpectIdentifier()
+		if err != nil {
+			break
+		}
+		in.Type, err = p.ExpectIdentifier()
+		if err != nil {
+			break
+		}
+		options, err = p.ParseOptions("operation input", []string{"required"})
+		if err != nil {
+			break
+		}
+		in.Required = options.Required
+		in.Annotations = options.Annotations
+		in.Comment = p.ParseTrailingComment(in.Comment)
+		inputs = append(inputs, in)
 	}
-	return nil, nil
+	return nil, err
 }
 
 func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 	var outputs []*OperationOutput
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
-	}
-	tok = p.GetToken()
-	for tok != nil {
-		if tok.Type == scanner.CLOSE_BRACE {
+	err := p.expect(scanner.OPEN_BRACE)
+	for err == nil {
+		var done bool
+		var options *Options
+		out := &OperationOutput{}
+		done, out.Comment, err = p.IsBlockDone("")
+		if err != nil {
+			break
+		}
+		if done {
 			return outputs, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			outName := tok.Text
-			tok = p.GetToken()
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			outType := tok.Text
-			//options? comment?
-			out := &OperationOutput{}
-			out.Name = outName
-			out.Type = outType
-			outputs = append(outputs, out)
 		}
-		tok = p.GetToken()
+		out.Name, err = p.ExpectIdentifier()
+		if err != nil {
+			break
+		}
+		out.Type, err = p.ExpectIdentifier()
+		if err != nil {
+			break
+		}
+		options, err = p.ParseOptions("operation output", []string{})
+		if err != nil {
+			break
+		}
+		out.Annotations = options.Annotations
+		out.Comment = p.ParseTrailingComment(out.Comment)
+		outputs = append(outputs, out)
 	}
-	return nil, nil
+	return nil, err
 }
 
 func (p *Parser) parseOperationExceptions() ([]string, error) {
 	var exceptions []string
-	tok := p.GetToken()
-	if tok.Type != scanner.OPEN_BRACE {
-		return nil, p.SyntaxError()
-	}
-	tok = p.GetToken()
-	for tok != nil {
-		if tok.Type == scanner.CLOSE_BRACE {
+	err := p.expect(scanner.OPEN_BRACE)
+	for err == nil {
+		var done bool
+		var exception string
+		done, _, err = p.IsBlockDone("")
+		if err != nil {
+			break
+		}
+		if done {
 			return exceptions, nil
-		} else if tok.Type == scanner.NEWLINE {
-			tok = p.GetToken()
-			if tok == nil {
-				return nil, p.EndOfFileError()
-			}
-			continue
-		} else {
-			if tok.Type != scanner.SYMBOL {
-				return nil, p.SyntaxError()
-			}
-			exceptions = append(exceptions, tok.Text)
 		}
-		tok = p.GetToken()
+		exception, err = p.ExpectIdentifier()
+		if err == nil {
+			exceptions = append(exceptions, exception)
+		}
 	}
-	return nil, nil
+	return nil, err
 }
 
 func (p *Parser) parseActionDirective(comment string) error {
-- 
2.43.0


From bb0e3687e30f2d6ea81a653828afb4742103fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:58 +0000
Subject: [PATCH 092/115] fix: the name and namespace options override what
 SADL source says, as documented

---
 parser.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index 1c658f8..4797aed 100644
--- a/parser.go
+++ b/parser.go
@@ -171,16 +171,9 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 		Sadl:  Version,
 		Types: make([]*TypeDef, 0),
 	}
-	name := p.conf.GetString("name")
-	if name != "" {
-		p.schema.Name = name
-	}
-	if p.schema.Name == "" && p.path != "" {
+	if p.path != "" {
 		p.schema.Name = BaseFileName(p.path)
 	}
-	if p.schema.Namespace == "" {
-		p.schema.Namespace = p.conf.GetString("namespace")
-	}
 	comment := ""
 	for {
 		var err error
@@ -237,6 +230,13 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 			return err
 		}
 	}
+	//the configuration overrides what the source says
+	if name := p.conf.GetString("name"); name != "" {
+		p.schema.Name = name
+	}
+	if namespace := p.conf.GetString("namespace"); namespace != "" {
+		p.schema.Namespace = namespace
+	}
 	var err error
 	p.model, err = NewModel(p.schema)
 	p.schema = nil
-- 
2.43.0


From 10d91fdfd9a14f0028027658f3f33dd6ef8b5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:56 +0000
Subject: [PATCH 093/115] fix: an unknown directive is an error

---
 parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.go b/parser.go
index 4797aed..f9a5f1a 100644
--- a/parser.go
+++ b/parser.go
@@ -212,8 +212,10 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 						if handler, ok := p.extensions[tok.Text]; ok {
 							p.currentComment = comment
 							err = handler.Parse(p)
+							break
 						}
 					}
+					err = p.expectedDirectiveError()
 				}
 			}
 			comment = ""
-- 
2.43.0


From b956ad7adcea028b00f83ba3203218367751addd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:16 +0000
Subject: [PATCH 094/115] fix: what follows a field, an input or an action on
 its line is an error

---
 parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.go b/parser.go
index f9a5f1a..ba28360 100644
--- a/parser.go
+++ b/parser.go
@@ -581,6 +581,9 @@ func (p *Parser) parseHttpDirective(name, comment string) error {
 			}
 		}
 		op.Comment, err = p.EndOfStatement(op.Comment)
+		if err != nil {
+			return err
+		}
 		ensureActionName(op)
 		ensureRequiredParams(op)
 		p.schema.Http = append(p.schema.Http, op)
@@ -679,6 +682,9 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 		return err
 	}
 	comment, err = p.EndOfStatement(comment)
+	if err != nil {
+		return err
+	}
 	spec := &HttpParamSpec{
 		StructFieldDef: StructFieldDef{
 			Name:        ename,
@@ -1770,6 +1776,9 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 		}
 	}
 	field.Comment, err = p.EndOfStatement(field.Comment)
+	if err != nil {
+		return nil, err
+	}
 	return field, nil
 }
 
-- 
2.43.0


From f0a7c5ed0892e892590e9ab4da991314e5dbc272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:21 +0000
Subject: [PATCH 095/115] fix: bad options and stray tokens of an operation are
 errors

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index ba28360..7cc7f71 100644
--- a/parser.go
+++ b/parser.go
@@ -374,7 +374,9 @@ func (p *Parser) parseOperationDirective(comment string) error {
 
 	//parse operation options here
 	options, err := p.ParseOptions("operation", []string{"http"})
-
+	if err != nil {
+		return err
+	}
 	err = p.expect(scanner.OPEN_BRACE)
 	if err != nil {
 		return err
@@ -403,6 +405,8 @@ func (p *Parser) parseOperationDirective(comment string) error {
 			if err != nil {
 				return err
 			}
+		} else if tok.Type != scanner.NEWLINE && tok.Type != scanner.LINE_COMMENT && tok.Type != scanner.SEMICOLON {
+			return p.SyntaxError()
 		}
 	}
 	//comment, err = p.EndOfStatement(comment)
-- 
2.43.0


From 7d75d585eb470207073df64264f4f6590db1154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:49 +0000
Subject: [PATCH 096/115] fix: undefined types are found wherever a definition
 refers to them

---
 parser.go | 159 ++++++++++++++++++++----------------------------------
 1 file changed, 58 insertions(+), 101 deletions(-)

diff --git a/parser.go b/parser.go
index 7cc7f71..7ce1232 100644
--- a/parser.go
+++ b/parser.go
@@ -2076,20 +2076,7 @@ func (p *Parser) MergeComment(comment1 string, comment2 string) string {
 func (p *Parser) Validate() (*Model, error) {
 	var err error
 	for _, td := range p.model.Types {
-		switch td.Type {
-		case "Struct":
-			err = p.validateStruct(td)
-		case "Array":
-			err = p.validateArray(td)
-		case "Map":
-			err = p.validateMap(td)
-		case "UnitValue":
-			err = p.validateUnitValue(td)
-		case "String":
-			err = p.validateStringDef(td)
-		case "UUID":
-			err = p.validateReference(td)
-		}
+		err = p.validateTypeSpec(td.Name, &td.TypeSpec)
 		if err != nil {
 			return nil, err
 		}
@@ -2287,9 +2274,12 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 	needsBody := hact.Method == "POST" || hact.Method == "PUT" || hact.Method == "PATCH"
 	bodyParam := ""
 	for _, in := range hact.Inputs {
-		t := p.model.FindType(in.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' input type '%s' is not defined", hact.Name, in.Type)
+		err := p.validateTypeSpec(fmt.Sprintf("action '%s' input '%s'", hact.Name, in.Name), &in.TypeSpec)
+		if err == nil && in.Default != nil {
+			err = p.model.ValidateAgainstTypeSpec(in.Name, &in.TypeSpec, in.Default)
+		}
+		if err != nil {
+			return err
 		}
 		//paramType, paramName := p.parameterSource(hact.Path, in.Name)
 		if !in.Path && in.Query == "" && in.Header == "" {
@@ -2310,9 +2300,9 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 	needsBody = hact.Expected.Status != 204 && hact.Expected.Status != 304
 	bodyParam = ""
 	for _, out := range hact.Expected.Outputs {
-		t := p.model.FindType(out.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' expected type '%s' is not defined", hact.Name, out.Type)
+		err := p.validateTypeSpec(fmt.Sprintf("action '%s' expected output '%s'", hact.Name, out.Name), &out.TypeSpec)
+		if err != nil {
+			return err
 		}
 		if out.Header == "" {
 			if needsBody {
@@ -2363,116 +2353,83 @@ func (p *Parser) validateOperation(action *OperationDef) error {
 	return nil
 }
 
-func (p *Parser) validateStringDef(td *TypeDef) error {
-	if td.Pattern != "" {
-		if td.Values != nil {
-			return fmt.Errorf("Both 'pattern' and 'values' options cannot coexist in String type %s", td.Name)
-		}
-	}
-	return p.validateReference(td)
-}
-
-func (p *Parser) validateReference(td *TypeDef) error {
-	if td.Reference != "" {
-		t := p.model.FindType(td.Reference)
-		if t == nil {
-			return fmt.Errorf("Undefined type '%s' for %s reference", td.Reference, td.Name)
-		}
-	}
-	return nil
-}
-
-func (p *Parser) validateUnitValue(td *TypeDef) error {
+func (p *Parser) validateUnitValue(name string, td *TypeSpec) error {
 	vt := p.model.FindType(td.Value)
 	if vt == nil {
-		return fmt.Errorf("Undefined value type '%s' for %s UnitValue type", td.Value, td.Name)
+		return fmt.Errorf("Undefined value type '%s' for %s UnitValue type", td.Value, name)
 	}
 	if !p.model.IsNumericType(&vt.TypeSpec) {
-		return fmt.Errorf("UnitValue value type of %s is not numeric: %s", td.Name, vt.Name)
+		return fmt.Errorf("UnitValue value type of %s is not numeric: %s", name, vt.Name)
 	}
 	ut := p.model.FindType(td.Unit)
 	if ut == nil {
-		return fmt.Errorf("Undefined unit type '%s' for %s UnitValue unit", td.Unit, td.Name)
+		return fmt.Errorf("Undefined unit type '%s' for %s UnitValue unit", td.Unit, name)
 	}
 	if ut.Type != "String" && ut.Type != "Enum" {
-		return fmt.Errorf("UnitValue value type of %s is not String or Enum: %s", td.Name, vt.Name)
+		return fmt.Errorf("UnitValue value type of %s is not String or Enum: %s", name, vt.Name)
 	}
 	return nil
 }
 
-func (p *Parser) validateStruct(td *TypeDef) error {
-	model := p.model
-	for _, field := range td.Fields {
-		ftd := model.FindType(field.Type)
-		if ftd == nil {
-			return fmt.Errorf("Undefined type '%s' in struct field '%s.%s'", field.Type, td.Name, field.Name)
-		}
-		switch field.Type {
-		case "Array":
-			if field.Items != "" && field.Items != "Any" {
-				fitd := model.FindType(field.Items)
-				if fitd == nil {
-					return fmt.Errorf("Undefined array item type '%s' in struct field '%s.%s'", field.Items, td.Name, field.Name)
-				}
-			}
-		case "Map":
-			if field.Keys != "" && field.Keys != "Any" {
-				fitd := model.FindType(field.Keys)
-				if fitd == nil {
-					return fmt.Errorf("Undefined map key type '%s' in struct field '%s.%s'", field.Keys, td.Name, field.Name)
-				}
-				//TODO: ensure the key type is stringable.
-			}
-			if field.Items != "" && field.Items != "Any" {
-				fitd := model.FindType(field.Items)
-				if fitd == nil {
-					return fmt.Errorf("Undefined map value '%s' in struct field '%s.%s'", field.Items, td.Name, field.Name)
-				}
+//validateTypeSpec checks that every type a definition refers to is defined, and what is nested in it likewise.
+func (p *Parser) validateTypeSpec(context string, ts *TypeSpec) error {
+	if p.model.FindType(ts.Type) == nil {
+		return fmt.Errorf("Undefined type '%s' in %s", ts.Type, context)
+	}
+	switch ts.Type {
+	case "Struct":
+		for _, field := range ts.Fields {
+			err := p.validateField(context+"."+field.Name, field)
+			if err != nil {
+				return err
 			}
 		}
-		if field.Default != nil {
-			if field.Required {
-				return fmt.Errorf("Cannot have a default value for required field: '%s.%s'", td.Name, field.Name)
-			}
-			err := model.ValidateAgainstTypeSpec(field.Type, &field.TypeSpec, field.Default)
+	case "Union":
+		for _, variant := range ts.Variants {
+			err := p.validateTypeSpec(context+"."+variant.Name, &variant.TypeSpec)
 			if err != nil {
 				return err
 			}
 		}
-		if field.Values != nil && field.Pattern != "" {
-			return fmt.Errorf("Cannot have both 'values' and 'pattern' constraints in one string field: '%s.%s'", td.Name, field.Name)
+	case "Array":
+		return p.validateTypeParam(context, "array item", ts.Items)
+	case "Map":
+		//TODO: ensure the key type is stringable.
+		err := p.validateTypeParam(context, "map key", ts.Keys)
+		if err != nil {
+			return err
+		}
+		return p.validateTypeParam(context, "map value", ts.Items)
+	case "UnitValue":
+		return p.validateUnitValue(context, ts)
+	case "String", "UUID":
+		if ts.Pattern != "" && ts.Values != nil {
+			return fmt.Errorf("Both 'pattern' and 'values' options cannot coexist in String type %s", context)
+		}
+		if ts.Reference != "" && p.model.FindType(ts.Reference) == nil {
+			return fmt.Errorf("Undefined type '%s' for %s reference", ts.Reference, context)
 		}
 	}
 	return nil
 }
 
-func (p *Parser) validateArray(td *TypeDef) error {
-	model := p.model
-	if td.Items == "Any" {
-		return nil
-	}
-	itd := model.FindType(td.Items)
-	if itd == nil {
-		return fmt.Errorf("Undefined type '%s' for Array items '%s'", td.Items, td.Name)
+func (p *Parser) validateTypeParam(context, what, name string) error {
+	if name != "" && name != "Any" && p.model.FindType(name) == nil {
+		return fmt.Errorf("Undefined %s type '%s' in %s", what, name, context)
 	}
 	return nil
 }
 
-func (p *Parser) validateMap(td *TypeDef) error {
-	model := p.model
-	if td.Items == "Any" {
-		return nil
-	}
-	itd := model.FindType(td.Items)
-	if itd == nil {
-		return fmt.Errorf("Undefined type '%s' for Map items '%s'", td.Items, td.Name)
-	}
-	if td.Keys == "String" {
-		return nil
+func (p *Parser) validateField(context string, field *StructFieldDef) error {
+	err := p.validateTypeSpec(context, &field.TypeSpec)
+	if err != nil {
+		return err
 	}
-	ktd := model.FindType(td.Keys)
-	if ktd == nil {
-		return fmt.Errorf("Undefined type '%s' for Map keys '%s'", td.Keys, td.Name)
+	if field.Default != nil {
+		if field.Required {
+			return fmt.Errorf("Cannot have a default value for required field: '%s'", context)
+		}
+		return p.model.ValidateAgainstTypeSpec(field.Type, &field.TypeSpec, field.Default)
 	}
 	return nil
 }
-- 
2.43.0


From 3ee8019e4cc9f53f924ad346490a21235eb77a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:50 +0000
Subject: [PATCH 097/115] fix: types of operations and of every exception are
 checked, a response example needs a response

---
 parser.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index 7ce1232..dbcaee1 100644
--- a/parser.go
+++ b/parser.go
@@ -2206,6 +2206,9 @@ func (p *Parser) validateExampleAgainstHttpRequest(hact *HttpDef, ex *ExampleDef
 
 func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDef) error {
 	present := make(map[string]bool, 0)
+	if hact.Expected == nil {
+		return fmt.Errorf("Example target not found for '%s' (http action '%s' expects no response)", ex.Target, hact.Name)
+	}
 	m, ok := ex.Example.(map[string]interface{})
 	if !ok {
 		return fmt.Errorf("Example for an HTTP response must be a JSON object")
@@ -2293,7 +2296,12 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
-	needsBody = false
+	for _, exc := range hact.Exceptions {
+		t := p.model.FindType(exc.Type)
+		if t == nil {
+			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
+		}
+	}
 	if hact.Expected == nil {
 		return nil
 	}
@@ -2315,12 +2323,6 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
-	for _, exc := range hact.Exceptions {
-		t := p.model.FindType(exc.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
-		}
-	}
 	return nil
 }
 
@@ -2349,7 +2351,23 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 */
 
 func (p *Parser) validateOperation(action *OperationDef) error {
-	//fix me
+	for _, in := range action.Inputs {
+		err := p.validateTypeSpec(fmt.Sprintf("operation '%s' input '%s'", action.Name, in.Name), &in.TypeSpec)
+		if err != nil {
+			return err
+		}
+	}
+	for _, out := range action.Outputs {
+		err := p.validateTypeSpec(fmt.Sprintf("operation '%s' output '%s'", action.Name, out.Name), &out.TypeSpec)
+		if err != nil {
+			return err
+		}
+	}
+	for _, etype := range action.Exceptions {
+		if p.model.FindType(etype) == nil {
+			return fmt.Errorf("Operation '%s' exception type '%s' is not defined", action.Name, etype)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 3a24c022a82169d526cf3d30729c2e66e1e20d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:33 +0000
Subject: [PATCH 098/115] fix: an integer type accepts no fraction

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index f02b3b7..6a76a15 100644
--- a/model.go
+++ b/model.go
@@ -319,6 +319,9 @@ func (model *Model) ValidateNumber(context string, td *TypeSpec, value interface
 				maxval = DecimalValue(td.Max, math.MaxInt8)
 			}
 			nval := n.AsBigFloat()
+			if strings.HasPrefix(td.Type, "Int") && !nval.IsInt() {
+				return fmt.Errorf("%s: Not an integer: %v", context, n)
+			}
 			if minval != nil {
 				nmin := minval.AsBigFloat()
 				if nval.Cmp(nmin) < 0 {
-- 
2.43.0


From a0628791a8a91c7dd17d8c6e7de66fb744f7e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:01 +0000
Subject: [PATCH 099/115] fix: a decimal number is finite

---
 decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal.go b/decimal.go
index 91943aa..39db9b2 100644
--- a/decimal.go
+++ b/decimal.go
@@ -31,7 +31,7 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
 	return &Decimal{Float: *num}, nil
-- 
2.43.0


From a098c01d36c06f05b47e619f989af5fedbe3789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:04 +0000
Subject: [PATCH 100/115] fix: the texts of a Java enum are quoted

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index dc4cbcf..454a174 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -450,7 +450,7 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 		if val == "" {
 			val = sym
 		}
-		gen.Emit("    " + sym + "(\"" + val + "\")" + delim + comment)
+		gen.Emit("    " + sym + fmt.Sprintf("(%q)", val) + delim + comment)
 	}
 	gen.Emit("\n")
 	gen.Emit("    private String repr;\n\n")
-- 
2.43.0


From d37f5b6345264dac0941d96a51e713fbc2f69c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:46 +0000
Subject: [PATCH 101/115] fix: the texts of a Go enum are quoted, and no text
 is none of them

---
 golang/golang_model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index b130a4f..1206c51 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -224,7 +224,7 @@ const (
 )
 
 var names{{.Name}} = []string{{openBrace}}{{range .Elements}}
-    {{.Symbol}}: "{{enumValue .}}",{{end}}
+    {{.Symbol}}: {{printf "%q" (enumValue .)}},{{end}}
 }
 
 func (e {{.Name}}) String() string {
@@ -240,7 +240,7 @@ func (e *{{.Name}}) UnmarshalJSON(b []byte) error {
     err := json.Unmarshal(b, &s)
     if err == nil {
         for v, s2 := range names{{.Name}} {
-            if s == s2 {
+            if v > 0 && s == s2 {
                 *e = {{.Name}}(v)
                 return nil
              }
-- 
2.43.0


From 0906a775a8c9f409b245cf291104d3cd028f698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:46 +0000
Subject: [PATCH 102/115] fix: a Decimal of generated Go code is finite

---
 golang/golang_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 1206c51..78d5b4c 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -308,7 +308,7 @@ func DecimalFromString(text string) *Decimal {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
    return &Decimal{Float:*num}, nil
-- 
2.43.0


From a632ffe46a7b220cd87848c89456468596524740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:40 +0000
Subject: [PATCH 103/115] fix: the default of a Timestamp parameter is kept in
 generated Go servers

---
 golang/golang_server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 02f3495..5f180f4 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -208,6 +208,8 @@ func timestampDefault(any interface{}) string {
 	switch v := any.(type) {
 	case *sadl.Timestamp:
 		return fmt.Sprintf("TimestampFromString(%q)", v.String())
+	case *string:
+		return timestampDefault(*v)
 	case string:
 		ts, err := sadl.ParseTimestamp(v)
 		if err == nil {
-- 
2.43.0


From 7e91c35da24fbe28cd4ef2e30fd62241a4b5607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:31 +0000
Subject: [PATCH 104/115] fix: comments with carriage returns or \u broke the
 generated Java

---
 java/export_java.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index 454a174..3066944 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -182,6 +182,13 @@ func (gen *Generator) CreateJavaFileFromTemplate(name string, tmpl string, data
 	}
 }
 
+// FormatComment formats the comment such that Java reads all of it as one: a carriage return would end it, and
+// Java looks for unicode escapes in comments, too.
+func (gen *Generator) FormatComment(indent, comment string, maxcol int, extraPad bool) string {
+	comment = strings.NewReplacer("\r\n", "\n", "\r", "\n", "\\u", "\\ u").Replace(comment)
+	return gen.Generator.FormatComment(indent, comment, maxcol, extraPad)
+}
+
 func (gen *Generator) CreatePojoFromDef(td *sadl.TypeDef, exceptions map[string]string) {
 	className := gen.Capitalize(td.Name)
 	gen.CreatePojo(&td.TypeSpec, className, td.Comment, exceptions)
-- 
2.43.0


From e0931450750c3f22c5d40cb778bbb064e88dc7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:32 +0000
Subject: [PATCH 105/115] fix: a comment of several lines stays a comment in
 GraphQL

---
 graphql/export_graphql.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index a96789b..7c69bcc 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"strings"
 
 	"github.com/boynton/sadl"
 )
@@ -108,7 +109,8 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 		}
 		if fd.Comment != "" {
 			//TO DO: format as block before the field
-			w.Emit("  # %s\n", fd.Comment)
+			comment := strings.NewReplacer("\r\n", "\n  # ", "\r", "\n  # ", "\n", "\n  # ").Replace(fd.Comment)
+			w.Emit("  # %s\n", comment)
 		}
 		ftype := w.typeRef(&fd.TypeSpec)
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
-- 
2.43.0


From 34391527eccdc49ce37149b9ee03c0507c8a6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:33 +0000
Subject: [PATCH 106/115] fix: path and query values of an HTTP trace are
 URL-encoded

---
 httptrace/export_http_examples.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index e7894c1..9d98978 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,6 +3,7 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
+	"net/url"
 	"strings"
 	"time"
 
@@ -97,7 +98,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 				if in.Path || in.Query != "" {
 					sex := stringExample(ex)
 					if in.Path {
-						//inExample = urlEncode(inExample)
+						sex = url.PathEscape(sex)
+					} else {
+						sex = url.QueryEscape(sex)
 					}
 					path = strings.Replace(path, "{" + in.Name + "}", sex, -1)
 				} else if in.Header != "" {
-- 
2.43.0


From dfaba5133c4d20f2b8d1274a7a7ab4bb8c1c3d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:18 +0000
Subject: [PATCH 107/115] fix: the base path was missing in HTTP traces

---
 httptrace/export_http_examples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 9d98978..295266f 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -86,7 +86,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			body = body + "#   Request:"
 			
 			method := hdef.Method
-			path := hdef.Path
+			path := model.Base + hdef.Path
 			bodyExample := ""
 			headers := ""
 			
-- 
2.43.0


From c14c2fb3b9d1db236f2a7dca12139e9b710f206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:39 +0000
Subject: [PATCH 108/115] fix: generated Java clients ignored the base path of
 the model

---
 java/java_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/java_client.go b/java/java_client.go
index 170a4fa..8e8cb8f 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -113,7 +113,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			writer := bufio.NewWriter(&b)
 			pq := strings.Split(hact.Path, "?")
 			path := pq[0]
-			writer.WriteString("        WebTarget target = client.target(config.getTarget()).path(\"" + path + "\")")
+			writer.WriteString("        WebTarget target = client.target(config.getTarget()).path(base).path(\"" + path + "\")")
 			for _, in := range hact.Inputs {
 				src := gen.memberOf("req", in.Name)
 				if in.Path {
-- 
2.43.0


From 85e97d57d77d4416d0e0710c956254a3e4ee2fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:52 +0000
Subject: [PATCH 109/115] fix: an OpenAPI file name with a hyphen gave a model
 name that SADL cannot parse

---
 openapi/import_openapi.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 88f02a8..52a99f2 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -56,6 +56,7 @@ func Import(paths []string, conf *sadl.Data) (*sadl.Model, error) {
 		name = name[:n]
 		name = strings.Replace(name, ".", "_", -1)
 	}
+	name = strings.Replace(name, "-", "_", -1)
 	oas3, err := Load(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 54d96b28b7c3b06fd281c42ebd43286b94271846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 110/115] fix: generated Java unit values lost all but the
 first word of a unit

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 3066944..799431d 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -650,7 +650,7 @@ func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 	}
 	gen.Emit("    @JsonCreator\n")
 	gen.Emit("    public " + className + "(@NotNull String repr) {\n")
-	gen.Emit("        String[] tmp = repr.split(\" \");\n")
+	gen.Emit("        String[] tmp = repr.split(\" \", 2);\n")
 	gen.Emit("        this.value = " + v + ";\n")
 	gen.Emit("        this.unit = " + u + ";\n")
 	gen.Emit("    }\n\n")
-- 
2.43.0


From d05fd42d24e3f0e1ac37fffc2ffa3e3367db2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 111/115] fix: parameters named like a local variable made the
 generated Java not compile

---
 java/java_client.go | 30 ++++++++++++++-----------
 java/java_server.go | 54 +++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 32 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 8e8cb8f..310dd18 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -95,7 +95,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 		"handlerSig": func(hact *sadl.HttpDef) string {
 			name := gen.ActionName(hact)
 			resType := gen.ResponseType(gen.ActionName(hact))
-			return "public " + resType + " " + name + "(" + reqType(name) + " req)"
+			return "public " + resType + " " + name + "(" + reqType(name) + " " + localName("req", hact.Expected.Outputs) + ")"
 		},
 		"resEntity": func(hact *sadl.HttpDef) string {
 			resClass := gen.ResponseType(gen.ActionName(hact))
@@ -109,30 +109,34 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			return gen.Model.Http
 		},
 		"handlerBody": func(hact *sadl.HttpDef) string {
+			local := func(name string) string {
+				return localName(name, hact.Expected.Outputs)
+			}
+			req, target, inv, response := local("req"), local("target"), local("inv"), local("response")
 			var b bytes.Buffer
 			writer := bufio.NewWriter(&b)
 			pq := strings.Split(hact.Path, "?")
 			path := pq[0]
-			writer.WriteString("        WebTarget target = client.target(config.getTarget()).path(base).path(\"" + path + "\")")
+			writer.WriteString("        WebTarget " + target + " = client.target(config.getTarget()).path(base).path(\"" + path + "\")")
 			for _, in := range hact.Inputs {
-				src := gen.memberOf("req", in.Name)
+				src := gen.memberOf(req, in.Name)
 				if in.Path {
 					writer.WriteString("\n            .resolveTemplate(\"" + in.Name + "\", " + src + ", true)")
 				} else if in.Query != "" {
 					writer.WriteString("\n            .queryParam(\"" + in.Query + "\", " + src + ")")
 				}
 			}
-			writer.WriteString(";\n        Invocation.Builder inv = target.request(MediaType.APPLICATION_JSON)")
+			writer.WriteString(";\n        Invocation.Builder " + inv + " = " + target + ".request(MediaType.APPLICATION_JSON)")
 			for _, in := range hact.Inputs {
 				if in.Header != "" {
-					src := gen.memberOf("req", in.Name)
+					src := gen.memberOf(req, in.Name)
 					writer.WriteString("\n            .header(\"" + in.Header + "\", " + src + ")")
 				}
 			}
 			entity := ""
 			for _, in := range hact.Inputs {
 				if in.Query == "" && in.Header == "" && !in.Path {
-					entity = "Entity.entity(" + gen.memberOf("req", in.Name) + ", MediaType.APPLICATION_JSON)"
+					entity = "Entity.entity(" + gen.memberOf(req, in.Name) + ", MediaType.APPLICATION_JSON)"
 				}
 			}
 			if entity == "" && (hact.Method == "PUT" || hact.Method == "POST") {
@@ -141,8 +145,8 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			if entity != "" {
 				entity = ", " + entity
 			}
-			writer.WriteString(";\n        Response response = inv.method(\"" + hact.Method + "\"" + entity + ");\n")
-			writer.WriteString("        switch (response.getStatus()) {\n")
+			writer.WriteString(";\n        Response " + response + " = " + inv + ".method(\"" + hact.Method + "\"" + entity + ");\n")
+			writer.WriteString("        switch (" + response + ".getStatus()) {\n")
 			writer.WriteString("        case " + fmt.Sprint(hact.Expected.Status) + ":\n")
 			if len(hact.Expected.Outputs) == 0 {
 				writer.WriteString("            return null; //shoudn't this be void?!\n") //?
@@ -153,7 +157,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 					if strings.Contains(etype, "<") {
 						cls = "new GenericType<" + etype + ">() {}"
 					}
-					entity := "response.readEntity(" + cls + ")"
+					entity := response + ".readEntity(" + cls + ")"
 					if etype == "String" {
 						//the server wraps it as JSON, see jsonWrapper
 						entity = "Util.fromJson(" + entity + ", String.class)"
@@ -163,7 +167,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
 						tn, _, _ := gen.TypeName(nil, out.Type, false)
-						hsrc := "response.getHeaderString(\"" + out.Header + "\")"
+						hsrc := response + ".getHeaderString(\"" + out.Header + "\")"
 						osrc := hsrc
 						if tn != "String" {
 							osrc = hsrc + " == null ? null : " + fromString(tn, hsrc)
@@ -194,13 +198,13 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				writer.WriteString("        case " + fmt.Sprint(exc.Status) + ":\n")
 				tn, _, _ := gen.TypeName(nil, exc.Type, true)
 				if gen.Config.GetBool("service-exception") && tn != "ServiceException" {
-					writer.WriteString("            throw new ServiceException().entity(response.readEntity(" + tn + ".class));\n")
+					writer.WriteString("            throw new ServiceException().entity(" + response + ".readEntity(" + tn + ".class));\n")
 				} else {
-					writer.WriteString("            throw response.readEntity(" + tn + ".class);\n")
+					writer.WriteString("            throw " + response + ".readEntity(" + tn + ".class);\n")
 				}
 			}
 			writer.WriteString("        default:\n")
-			writer.WriteString("            throw new RuntimeException(\"Unexpected service response status: \" + response.getStatus());\n")
+			writer.WriteString("            throw new RuntimeException(\"Unexpected service response status: \" + " + response + ".getStatus());\n")
 			writer.WriteString("        }\n")
 			writer.Flush()
 			return b.String()
diff --git a/java/java_server.go b/java/java_server.go
index 5506414..617912a 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -63,6 +63,16 @@ func (gen *Generator) ExceptionTypes() map[string]string {
 	return exceptions
 }
 
+// localName is a name for a local variable that is none of the names of the parameters
+func localName(name string, params []*sadl.HttpParamSpec) string {
+	for _, p := range params {
+		if p.Name == name {
+			return localName(name+"_", params)
+		}
+	}
+	return name
+}
+
 func firstTag(annos map[string]string) string {
 	if csv, ok := annos["x_tags"]; ok {
 		return strings.Split(csv, ",")[0]
@@ -232,12 +242,16 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				params = append(params, in.Name)
 			}
 			ename, etype := entityNameType(hact)
+			local := func(name string) string {
+				return localName(name, hact.Inputs)
+			}
+			req, res := local("req"), local("res")
 			var b bytes.Buffer
 			writer := bufio.NewWriter(&b)
 			if gen.UseImmutable {
-				writer.WriteString("        " + reqname + " req = " + reqname + ".builder()")
+				writer.WriteString("        " + reqname + " " + req + " = " + reqname + ".builder()")
 			} else {
-				writer.WriteString("        " + reqname + " req = new " + reqname + "()")
+				writer.WriteString("        " + reqname + " " + req + " = new " + reqname + "()")
 			}
 			for _, p := range params {
 				writer.WriteString("." + p + "(" + p + ")")
@@ -248,15 +262,15 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 			writer.WriteString(";\n")
 			writer.WriteString("        try {\n")
 			if len(hact.Expected.Outputs) > 0 {
-				writer.WriteString("            " + resname + " res = " + implName(iname) + "." + name + "(req);\n")
+				writer.WriteString("            " + resname + " " + res + " = " + implName(iname) + "." + name + "(" + req + ");\n")
 				wrappedResult := ""
 				if ename != "void" && ename != "" {
-					wrappedResult = gen.jsonWrapper(etype, gen.memberOf("res", ename))
+					wrappedResult = gen.jsonWrapper(etype, gen.memberOf(res, ename))
 				}
 				ret := fmt.Sprintf("Response.status(%d)", +hact.Expected.Status)
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
-						ret = ret + ".header(\"" + out.Header + "\", " + gen.memberOf("res", out.Name) + ")"
+						ret = ret + ".header(\"" + out.Header + "\", " + gen.memberOf(res, out.Name) + ")"
 					}
 				}
 				if wrappedResult != "" {
@@ -264,14 +278,15 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				}
 				writer.WriteString("            return " + ret + ".build();\n")
 			} else {
-				writer.WriteString("            " + implName(iname) + "." + name + "(req);\n")
+				writer.WriteString("            " + implName(iname) + "." + name + "(" + req + ");\n")
 				writer.WriteString(fmt.Sprintf("            return Response.status(%d).build();\n", hact.Expected.Status))
 			}
 
 			if gen.Config.GetBool("service-exception") {
-				writer.WriteString("        } catch (ServiceException se) {\n")
-				writer.WriteString("            Object entity = se.entity == null? se : se.entity;\n")
-				writer.WriteString("            int status = 500;\n")
+				se, entity, status := local("se"), local("entity"), local("status")
+				writer.WriteString("        } catch (ServiceException " + se + ") {\n")
+				writer.WriteString("            Object " + entity + " = " + se + ".entity == null? " + se + " : " + se + ".entity;\n")
+				writer.WriteString("            int " + status + " = 500;\n")
 				first := true
 				any := false
 				anyNull := false
@@ -280,14 +295,14 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					if tn != "ServiceException" {
 						any = true
 						if first {
-							writer.WriteString("            if (entity instanceof " + tn + ") {\n")
+							writer.WriteString("            if (" + entity + " instanceof " + tn + ") {\n")
 							first = false
 						} else {
-							writer.WriteString("            } else if (entity instanceof " + tn + ") {\n")
+							writer.WriteString("            } else if (" + entity + " instanceof " + tn + ") {\n")
 						}
-						writer.WriteString(fmt.Sprintf("                status = %d;\n", resp.Status))
+						writer.WriteString(fmt.Sprintf("                %s = %d;\n", status, resp.Status))
 						if resp.Status == 204 || resp.Status == 304 {
-							writer.WriteString("                entity = null;\n")
+							writer.WriteString("                " + entity + " = null;\n")
 							anyNull = true
 						}
 					}
@@ -296,20 +311,21 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 					writer.WriteString("            }\n")
 				}
 				if anyNull {
-					writer.WriteString("            if (entity == null) {\n")
-					writer.WriteString("                throw new WebApplicationException(status);\n")
+					writer.WriteString("            if (" + entity + " == null) {\n")
+					writer.WriteString("                throw new WebApplicationException(" + status + ");\n")
 					writer.WriteString("            }\n")
 				}
-				writer.WriteString("            throw new WebApplicationException(Response.status(status).entity(entity).build());\n")
+				writer.WriteString("            throw new WebApplicationException(Response.status(" + status + ").entity(" + entity + ").build());\n")
 			} else {
+				e := local("e")
 				for _, resp := range hact.Exceptions {
 					status := fmt.Sprint(resp.Status)
 					tn, _, _ := gen.TypeName(nil, resp.Type, true)
-					writer.WriteString("        } catch (" + tn + " e) {\n")
-					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(e).build());\n")
+					writer.WriteString("        } catch (" + tn + " " + e + ") {\n")
+					writer.WriteString("                throw new WebApplicationException(Response.status(" + status + ").entity(" + e + ").build());\n")
 				}
 			}
-			writer.WriteString("        } catch (Throwable th) {\n")
+			writer.WriteString("        } catch (Throwable " + local("th") + ") {\n")
 			writer.WriteString("            return Response.status(500).build();\n")
 			writer.WriteString("        }\n")
 			writer.Flush()
-- 
2.43.0


From a38ea3ffbfce6284196b454843d08d48504c8875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 112/115] fix: a response example after an exception example of
 the same name was printed with the status of the exception

---
 httptrace/export_http_examples.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 295266f..6427e7b 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -66,6 +66,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
 					data.res = ex.Example
+					data.exc = nil
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
-- 
2.43.0


From aee17a6fc4fe6d9d0bd0076f8ff1926b4d9a8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 113/115] fix: Java generation crashed on arrays of plain
 arrays or maps and named a class that does not exist for items of type Struct

---
 java/export_java.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 799431d..9bcbec1 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -738,21 +738,18 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		return "Timestamp", annotations, nil
 	case "Array":
 		gen.AddImport("java.util.List")
-		if ts == nil {
+		if ts == nil || ts.Items == "" {
 			return "List", annotations, nil
 		}
-		td := gen.Model.FindType(ts.Items)
-		items, _, _ := gen.TypeName(&td.TypeSpec, ts.Items, false)
+		items := gen.itemTypeName(ts.Items)
 		return "List<" + items + ">", annotations, nil
 	case "Map":
 		gen.AddImport("java.util.Map")
-		if ts == nil {
+		if ts == nil || ts.Items == "" {
 			return "Map", annotations, nil
 		}
-		ktd := gen.Model.FindType(ts.Keys)
-		keys, _, _ := gen.TypeName(&ktd.TypeSpec, ts.Keys, false)
-		itd := gen.Model.FindType(ts.Items)
-		items, _, _ := gen.TypeName(&itd.TypeSpec, ts.Items, false)
+		keys := gen.itemTypeName(ts.Keys)
+		items := gen.itemTypeName(ts.Items)
 		return "Map<" + keys + "," + items + ">", annotations, nil
 	case "UUID":
 		gen.AddImport("java.util.UUID")
@@ -799,6 +796,17 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	}
 }
 
+// itemTypeName returns the type name of the items or keys of a collection. There is no class for a struct without a name.
+func (gen *Generator) itemTypeName(name string) string {
+	td := gen.Model.FindType(name)
+	tn, _, anonymous := gen.TypeName(&td.TypeSpec, name, false)
+	if anonymous != nil {
+		gen.AddImport("java.util.Map")
+		return "Map<String,Object>"
+	}
+	return tn
+}
+
 // memberTypeName returns the type name of a field or variant. A struct written in place has an inner class named after it.
 func (gen *Generator) memberTypeName(ts *sadl.TypeSpec, name string, required bool) string {
 	tn, _, anonymous := gen.TypeName(ts, ts.Type, required)
-- 
2.43.0


From 5cd6abcad9781630dc7421d9fdcaae7ae223d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 114/115] fix: items of type Array, Map or UnitValue without
 parameters had no item types: every value was refused and exports crashed

---
 model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model.go b/model.go
index 6a76a15..bc90e06 100644
--- a/model.go
+++ b/model.go
@@ -25,6 +25,10 @@ func NewModel(schema *Schema) (*Model, error) {
 	for _, name := range BaseTypes {
 		model.typeIndex[name] = &TypeDef{Name: name, TypeSpec: TypeSpec{Type: name}}
 	}
+	//without parameters, these mean the same as where a type is declared to be one of them
+	model.typeIndex["Array"].Items = "Any"
+	model.typeIndex["Map"].Keys, model.typeIndex["Map"].Items = "String", "Any"
+	model.typeIndex["UnitValue"].Value, model.typeIndex["UnitValue"].Unit = "Decimal", "String"
 	for _, td := range schema.Types {
 		if _, ok := model.typeIndex[td.Name]; ok {
 			return nil, fmt.Errorf("Duplicate type: %s", td.Name)
-- 
2.43.0


From 18c2385122190c41a2245f26a2b953524b7ba23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:16 +0000
Subject: [PATCH 115/115] fix: print every part of a model as SADL text

---
 unparser.go | 239 ++++++++++++++++++++++++----------------------------
 1 file changed, 110 insertions(+), 129 deletions(-)

diff --git a/unparser.go b/unparser.go
index a243ffd..1b662ed 100644
--- a/unparser.go
+++ b/unparser.go
@@ -3,6 +3,7 @@ package sadl
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
 	"strings"
 	"text/template"
 )
@@ -41,22 +42,26 @@ func (g *SadlGenerator) Generate() string {
 		"literal": func(s string) string {
 			return fmt.Sprintf("%q", s)
 		},
+		"symbol": func(s string) bool {
+			return IsSymbol(s)
+		},
 		"annotations": func(annos map[string]string) string {
-			s := ""
-			if len(annos) > 0 {
-				s = "\n"
-				for k, v := range annos {
-					if v == "" {
-						s += fmt.Sprintf("%s\n", k)
-					} else {
-						s += fmt.Sprintf("%s %q\n", k, v)
-					}
+			if len(annos) == 0 {
+				return ""
+			}
+			var lines []string
+			for k, v := range annos {
+				if v == "" {
+					lines = append(lines, fmt.Sprintf("%s\n", k))
+				} else {
+					lines = append(lines, fmt.Sprintf("%s %q\n", k, v))
 				}
 			}
-			return s
+			sort.Strings(lines)
+			return "\n" + strings.Join(lines, "")
 		},
 		"typedef": func(td *TypeDef) string {
-			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, nil, ""))
+			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, annotationOptions(td.Annotations), ""))
 		},
 		"operation": func(op *OperationDef) string {
 			return g.sadlOperationSpec(op)
@@ -65,7 +70,11 @@ func (g *SadlGenerator) Generate() string {
 			return g.sadlHttpSpec(hact)
 		},
 		"example": func(ed *ExampleDef) string {
-			return fmt.Sprintf("example %s (name=%s) %s\n", ed.Target, ed.Name, Pretty(ed.Example))
+			var opts []string
+			if ed.Name != "" {
+				opts = append(opts, "name="+ed.Name)
+			}
+			return fmt.Sprintf("example %s%s %s\n", ed.Target, sadlOptions(opts), Pretty(ed.Example))
 		},
 	}
 	g.Begin()
@@ -89,7 +98,6 @@ func (g *SadlGenerator) CreateSadlSource() {
 func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string) string {
 	switch ts.Type {
 	case "Enum":
-		//Q: what if this is a required field, defined inline in a struct?!
 		s := "Enum {\n"
 		for _, el := range ts.Elements {
 			com := ""
@@ -99,65 +107,16 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 			annos := AnnotationsAsString(el.Annotations)
 			s = s + indent + indentAmount + el.Symbol + annos + com + "\n"
 		}
-		return s + indent + "}"
-	case "String":
-		if ts.Pattern != "" {
-			opts = append(opts, fmt.Sprintf("pattern=%q", ts.Pattern))
-		}
-		if ts.MinSize != nil {
-			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
-		}
-		if ts.MaxSize != nil {
-			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
-		}
-		if ts.Values != nil {
-			opts = append(opts, fmt.Sprintf("values=%s", stringList(ts.Values)))
-		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("String%s", sopts)
-	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-		if ts.Min != nil {
-			opts = append(opts, fmt.Sprintf("min=%v", ts.Min.String()))
-		}
-		if ts.Max != nil {
-			opts = append(opts, fmt.Sprintf("max=%v", ts.Max.String()))
-		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("%s%s", ts.Type, sopts)
+		return s + indent + "}" + sadlOptions(opts)
 	case "Array":
-		if ts.MinSize != nil {
-			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
-		}
-		if ts.MaxSize != nil {
-			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
-		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("List<%s>%s", ts.Items, sopts)
+		return fmt.Sprintf("List<%s>%s", ts.Items, sadlOptions(append(opts, typeOptions(ts)...)))
 	case "Map":
-		if ts.MinSize != nil {
-			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
-		}
-		if ts.MaxSize != nil {
-			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
-		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("Map<%s,%s>%s", ts.Keys, ts.Items, sopts)
+		return fmt.Sprintf("Map<%s,%s>%s", ts.Keys, ts.Items, sadlOptions(append(opts, typeOptions(ts)...)))
+	case "UnitValue":
+		return fmt.Sprintf("UnitValue<%s,%s>%s", ts.Value, ts.Unit, sadlOptions(append(opts, typeOptions(ts)...)))
 	case "Struct":
-		sopt := ""
 		if len(ts.Fields) > 0 {
-			s := fmt.Sprintf("Struct%s {\n", sopt)
+			s := "Struct {\n"
 			blockLine := ""
 			for _, fd := range ts.Fields {
 				if len(fd.Comment) > 60 {
@@ -179,14 +138,18 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				if fd.Required {
 					fopts = append(fopts, "required")
 				}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
+				if fd.Default != nil {
+					fopts = append(fopts, "default="+ToString(fd.Default))
 				}
+				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
-			return s + indent + "}"
+			return s + indent + "}" + sadlOptions(opts)
 		}
-		return fmt.Sprintf("Struct\n")
+		if len(opts) > 0 {
+			return "Struct {}" + sadlOptions(opts)
+		}
+		return "Struct"
 	case "Union":
 		if true {
 			s := fmt.Sprintf("Union {\n")
@@ -200,13 +163,10 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 						com = " // " + fd.Comment
 					}
 				}
-				fopts := []string{}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
+				fopts := annotationOptions(fd.Annotations)
 				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
-			return s + "}"
+			return s + indent + "}" + sadlOptions(opts)
 		} else {
 			s := fmt.Sprintf("Union<")
 			for i, v := range ts.Variants {
@@ -218,39 +178,72 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 			return s + ">"
 		}
 	default:
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("%s%s", ts.Type, sopts)
+		return ts.Type + sadlOptions(append(opts, typeOptions(ts)...))
 	}
 }
 
-func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
+// typeOptions returns the options for the constraints of the type.
+func typeOptions(ts *TypeSpec) []string {
+	var opts []string
+	if ts.Pattern != "" {
+		opts = append(opts, fmt.Sprintf("pattern=%q", ts.Pattern))
+	}
+	if ts.MinSize != nil {
+		opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
+	}
+	if ts.MaxSize != nil {
+		opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
+	}
+	if ts.Values != nil {
+		opts = append(opts, fmt.Sprintf("values=%s", stringList(ts.Values)))
+	}
+	if ts.Min != nil {
+		opts = append(opts, "min="+ts.Min.String())
+	}
+	if ts.Max != nil {
+		opts = append(opts, "max="+ts.Max.String())
+	}
+	if ts.Reference != "" {
+		opts = append(opts, "reference="+ts.Reference)
+	}
+	return opts
+}
+
+// annotationOptions returns the options for the annotations, in the order of their names.
+func annotationOptions(annos map[string]string) []string {
 	var opts []string
-	if len(op.Annotations) > 0 {
-		for k, v := range op.Annotations {
+	for k, v := range annos {
+		if v == "" {
+			opts = append(opts, k)
+		} else {
 			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
 		}
 	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
+	sort.Strings(opts)
+	return opts
+}
+
+func sadlOptions(opts []string) string {
+	if len(opts) == 0 {
+		return ""
 	}
-	var s string
-	s = fmt.Sprintf("operation %s %s {\n", op.Name, opt)
+	return " (" + strings.Join(opts, ", ") + ")"
+}
+
+func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
+	s := fmt.Sprintf("operation %s%s {\n", op.Name, sadlOptions(annotationOptions(op.Annotations)))
 	//s = fmt.Sprintf("action %s %s %q%s {\n", hact.Name, hact.Method, hact.Path, opt)
 	if len(op.Inputs) > 0 {
 		s += indentAmount + "inputs {\n"
 		for _, in := range op.Inputs {
-			opts = nil
-			opt = ""
+			var opts []string
 			com := ""
 			bcom := ""
 			ts := g.sadlTypeSpec(&in.TypeSpec, nil, indentAmount)
 			if in.Required {
 				opts = append(opts, "required")
 			}
+			opt := sadlOptions(append(opts, annotationOptions(in.Annotations)...))
 			if in.Comment != "" {
 				if (len(in.Comment) + len(in.Name) + len(ts) + len(opt)) > 100 {
 					bcom = g.FormatComment("   ", in.Comment, 100, false)[3:] + "   "
@@ -258,9 +251,6 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 					com = " // " + in.Comment
 				}
 			}
-			if len(opts) > 0 {
-				opt = " (" + strings.Join(opts, ", ") + ")"
-			}
 			s += indentAmount + indentAmount + bcom + in.Name + " " + in.Type + opt + com + "\n"
 		}
 		s += indentAmount + "}\n"
@@ -271,6 +261,7 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 			com := ""
 			bcom := ""
 			ts := g.sadlTypeSpec(&out.TypeSpec, nil, indentAmount)
+			opt := sadlOptions(annotationOptions(out.Annotations))
 			if out.Comment != "" {
 				if (len(out.Comment) + len(out.Name) + len(ts) + len(opt)) > 100 {
 					bcom = g.FormatComment("   ", out.Comment, 100, false)[3:] + "   "
@@ -295,40 +286,32 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 
 func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	var opts []string
-	if hact.Name != "" {
-		if hact.Name != actionName(hact) {
+	//the parser gives an action without a name both a name and a resource
+	if hact.Resource != resourceName(hact) || hact.Name != actionName(hact) {
+		if hact.Name != "" {
 			opts = append(opts, "operation="+hact.Name)
 		}
-	}
-	if len(hact.Annotations) > 0 {
-		for k, v := range hact.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
+		if hact.Resource != "" {
+			opts = append(opts, "resource="+hact.Resource)
 		}
 	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
-	}
-	var s string
-	s = fmt.Sprintf("http %s %q%s {\n", hact.Method, hact.Path, opt)
+	opts = append(opts, annotationOptions(hact.Annotations)...)
+	s := fmt.Sprintf("http %s %q%s {\n", hact.Method, hact.Path, sadlOptions(opts))
 	//s = fmt.Sprintf("action %s %s %q%s {\n", hact.Name, hact.Method, hact.Path, opt)
 	for _, in := range hact.Inputs {
 		s += indentAmount + g.sadlParamSpec(in)
 	}
-	bcom := ""
-	if hact.Expected == nil {
-		hact.Expected = &HttpExpectedSpec{
-			Status: 200,
+	if hact.Expected != nil {
+		bcom := ""
+		if hact.Expected.Comment != "" {
+			bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
 		}
+		s += fmt.Sprintf("\n%s%sexpect %d%s {\n", bcom, indentAmount, hact.Expected.Status, sadlOptions(annotationOptions(hact.Expected.Annotations)))
+		for _, out := range hact.Expected.Outputs {
+			s += indentAmount + indentAmount + g.sadlParamSpec(out)
+		}
+		s += "   }\n"
 	}
-	if hact.Expected.Comment != "" {
-		bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
-	}
-	s += fmt.Sprintf("\n%s%sexpect %d {\n", bcom, indentAmount, hact.Expected.Status)
-	for _, out := range hact.Expected.Outputs {
-		s += indentAmount + indentAmount + g.sadlParamSpec(out)
-	}
-	s += "   }\n"
 	if len(hact.Exceptions) > 0 {
 		s += "\n"
 		for _, exc := range hact.Exceptions {
@@ -336,11 +319,12 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 			if exc.Comment != "" {
 				bcom = g.FormatComment(indentAmount, exc.Comment, 100, false)
 			}
+			opt := sadlOptions(annotationOptions(exc.Annotations))
 			if exc.Status == 0 {
-				s += fmt.Sprintf("%s%sexcept %s\n", bcom, indentAmount, exc.Type)
+				s += fmt.Sprintf("%s%sexcept %s%s\n", bcom, indentAmount, exc.Type, opt)
 			} else {
 				//todo: header outputs
-				s += fmt.Sprintf("%s%sexcept %d %s\n", bcom, indentAmount, exc.Status, exc.Type)
+				s += fmt.Sprintf("%s%sexcept %d %s%s\n", bcom, indentAmount, exc.Status, exc.Type, opt)
 			}
 		}
 	}
@@ -359,21 +343,18 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
 	if ps.Header != "" {
 		opts = append(opts, fmt.Sprintf("header=%q", ps.Header))
 	}
-	opt := ""
-	if len(opts) > 0 {
-		opt = " (" + strings.Join(opts, ", ") + ")"
-	}
+	opts = append(opts, annotationOptions(ps.Annotations)...)
 	com := ""
 	bcom := ""
-	ts := g.sadlTypeSpec(&ps.TypeSpec, nil, indentAmount)
+	ts := g.sadlTypeSpec(&ps.TypeSpec, opts, indentAmount)
 	if ps.Comment != "" {
-		if (len(ps.Comment) + len(ps.Name) + len(ts) + len(opt)) > 100 {
+		if (len(ps.Comment) + len(ps.Name) + len(ts)) > 100 {
 			bcom = g.FormatComment("   ", ps.Comment, 100, false)[3:] + "   "
 		} else {
 			com = " // " + ps.Comment
 		}
 	}
-	return bcom + ps.Name + " " + ts + opt + com + "\n"
+	return bcom + ps.Name + " " + ts + com + "\n"
 }
 
 func stringList(lst []string) string {
@@ -394,7 +375,7 @@ func stringList(lst []string) string {
 }
 
 const sadlTemplate = `{{if .Comment}}{{blockComment .Comment}}{{end}}{{if .Namespace}}namespace {{.Namespace}}
-{{end}}{{if .Name}}name {{.Name}}
+{{end}}{{if .Name}}name {{if symbol .Name}}{{.Name}}{{else}}{{literal .Name}}{{end}}
 {{end}}{{if .Base}}base {{literal .Base}}
 {{end}}{{if .Version}}version "{{.Version}}"
 {{end}}{{annotations .Annotations}}{{if .Types}}{{range .Types}}
-- 
2.43.0

