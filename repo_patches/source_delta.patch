From 9514609990b6ceb00696ee327012684f55b225b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 01/19] fix: encoding a nil *uuid.UUID field no longer panics

---
 generator/codegen/field/fields.go     | 2 +-
 generator/codegen/field/marshalers.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 411573e..27239c4 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -165,7 +165,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			return block.Render(putCommaFirstIf)
 		}
 		if tt.Sel.Name == "UUID" {
-			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
 		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 1ef5143..89b4f41 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -97,7 +97,7 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 //			result.Write(buf)
 //			result.WriteRune('"')
 //		}
-func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
+func uuidMarshal(src ast.Expr, jsonName string, omitempty, isStar bool) WriteBlock {
 	var bufVar = asthlp.NewIdent("buf")
 	var w = WriteBlock{
 		Block: []ast.Stmt{
@@ -130,6 +130,9 @@ func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
 			),
 		},
 	}
+	if isStar {
+		w.NotZero = asthlp.NotNil(src)
+	}
 	if !omitempty {
 		w.IfZero = []ast.Stmt{
 			asthlp.CallStmt(asthlp.Call(
-- 
2.43.0


From 522697de8034cdbf1c2f4a09598abceaf642252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 02/19] fix: encode a nil *time.Time field as null, not as the
 zero date

---
 generator/codegen/field/marshalers.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 89b4f41..ed058a6 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -78,11 +78,14 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 		if layout == "" {
 			layout = time.RFC3339
 		}
-		var zeroDate = time.Time{}.Format(layout)
+		var zeroValue = `"` + time.Time{}.Format(layout) + `"`
+		if isStar {
+			zeroValue = "null"
+		}
 		w.IfZero = []ast.Stmt{
 			asthlp.CallStmt(asthlp.Call(
 				RawStringFn,
-				asthlp.StringConstant(fmt.Sprintf(`"%s":"%s"`, jsonName, zeroDate)).Expr(),
+				asthlp.StringConstant(fmt.Sprintf(`"%s":%s`, jsonName, zeroValue)).Expr(),
 			)),
 			SetCommaVar,
 		}
-- 
2.43.0


From ee59ee239b7acf5d676909e777525d37f2b5dfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 03/19] fix: write dates with the declared layout when it names
 a time package constant

---
 generator/codegen/field/extractors.go | 21 ++++++++++++++-------
 generator/codegen/field/marshalers.go | 10 +++++++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 0bfdb51..ce6684d 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -317,13 +317,8 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	if layout == "" {
 		extrStmt = timeExtractionUnify(dst, srcString)
 	} else {
-		var layoutExpr ast.Expr
-		if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
-			layoutExpr = &ast.SelectorExpr{
-				X:   ast.NewIdent(l[0]),
-				Sel: ast.NewIdent(l[1]),
-			}
-		} else {
+		layoutExpr, isConst := layoutConstant(layout)
+		if !isConst {
 			layoutExpr = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
 		}
 		extrStmt = []ast.Stmt{
@@ -369,6 +364,18 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	)
 }
 
+// layoutConstant recognizes a layout that names a constant of package time, such as time.RFC822
+func layoutConstant(layout string) (ast.Expr, bool) {
+	l := strings.Split(layout, ".")
+	if len(l) != 2 || l[0] != "time" {
+		return nil, false
+	}
+	return &ast.SelectorExpr{
+		X:   ast.NewIdent(l[0]),
+		Sel: ast.NewIdent(l[1]),
+	}, true
+}
+
 // valDateBegin, err := parseDateTime(string(b))
 func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 	return []ast.Stmt{
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index ed058a6..5b08eb2 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -54,7 +54,10 @@ func (w WriteBlock) Render(putComma ast.Stmt) []ast.Stmt {
 //	}
 func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool) WriteBlock {
 	var layoutExpr = names.TimeDefaultLayout
-	if layout != "" {
+	constExpr, isConst := layoutConstant(layout)
+	if isConst {
+		layoutExpr = constExpr
+	} else if layout != "" {
 		layoutExpr = asthlp.StringConstant(layout).Expr()
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
@@ -74,6 +77,11 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 			SetCommaVar,
 		},
 	}
+	if !omitempty && isConst && !isStar {
+		// the value of the constant is not known here, so the zero date is written the same way as any other date
+		w.NotZero = nil
+		return w
+	}
 	if !omitempty {
 		if layout == "" {
 			layout = time.RFC3339
-- 
2.43.0


From b47ced0909cc042ffa54d4ef68b7eae1036bcfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 04/19] fix: refuse malformed dates inside lists of dates

The extraction of an element declared its own err, which hid the failure from
the check after the loop: a malformed element was silently replaced by the zero date.
---
 generator/codegen/field/extractors.go | 21 +++++++++++++++++++++
 generator/codegen/field/fill.go       |  7 ++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index ce6684d..debb83f 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -364,6 +364,27 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	)
 }
 
+// assignToOuterErr turns the `b, err := ...` and `{dst}, err := ...` definitions of a time extraction into declarations
+// followed by assignments, so that they do not shadow the `err` variable of an enclosing scope
+//
+//	var b []byte
+//	var {dst} {t}
+//	b, err = {v}.StringBytes()
+//	...
+func assignToOuterErr(stmts []ast.Stmt, dst *ast.Ident, t ast.Expr) []ast.Stmt {
+	result := []ast.Stmt{
+		asthlp.Var(asthlp.VariableType("b", asthlp.ArrayType(asthlp.Byte))),
+		asthlp.Var(asthlp.VariableType(dst.Name, t)),
+	}
+	for _, stmt := range stmts {
+		if define, ok := stmt.(*ast.AssignStmt); ok && define.Tok == token.DEFINE {
+			define.Tok = token.ASSIGN
+		}
+		result = append(result, stmt)
+	}
+	return result
+}
+
 // layoutConstant recognizes a layout that names a constant of package time, such as time.RFC822
 func layoutConstant(layout string) (ast.Expr, bool) {
 	l := strings.Split(layout, ".")
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 35d7662..29eb94c 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -213,7 +213,12 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 		switch t.Sel.Name {
 
 		case "Time":
-			result = append(result, timeExtraction(dst, v, f.tags.JsonName(), f.tags.Layout())...)
+			extraction := timeExtraction(dst, v, f.tags.JsonName(), f.tags.Layout())
+			if f.level > 0 {
+				// inside a loop the error has to reach the check that follows the loop
+				extraction = assignToOuterErr(extraction, dst, asthlp.SimpleSelector("time", "Time"))
+			}
+			result = append(result, extraction...)
 
 		case "UUID":
 			result = append(result, uuidExtraction(dst, f.refx, v, f.tags.JsonName())...)
-- 
2.43.0


From 9365324a553a9b673df14040733b02cffc757e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 05/19] fix: refuse malformed maps inside nested lists

The extraction declared its own err inside the loop, so a failure on a map
value did not reach the check that follows and the bad element was kept empty.
---
 generator/codegen/field/fill.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 29eb94c..3407f8d 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -379,9 +379,18 @@ func (f *Field) mapExtraction(dst *ast.Ident, t *ast.MapType, v, json string) []
 		"json": {f.tags.JsonName()},
 	}), t.Value))
 	valFactory.DontCheckErr()
+	var declareObject, assignObject = asthlp.EmptyStmt(), asthlp.Definition
+	if f.level > 0 {
+		// inside a loop the error has to reach the check that follows the loop
+		//	var o *fastjson.Object
+		//	o, err = {v}.Object()
+		declareObject = asthlp.Var(asthlp.VariableType("o", asthlp.Star(asthlp.SimpleSelector("fastjson", "Object"))))
+		assignObject = asthlp.Assignment
+	}
 	return asthlp.Block(
+		declareObject,
 		//	o, err := {v}.Object()
-		asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), asthlp.Definition, asthlp.Call(
+		asthlp.Assign(asthlp.MakeVarNames("o", names.VarNameError), assignObject, asthlp.Call(
 			asthlp.InlineFunc(asthlp.SimpleSelector(v, "Object")),
 		)),
 		checkErrAndReturnParsingError(asthlp.StringConstant(json).Expr()),
-- 
2.43.0


From ba70fff5577831f32c10a3597571010196c52f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 06/19] fix: do not serialize fields tagged json:"-"

The decoder skips such fields, the encoder wrote them under the key "-".
---
 generator/codegen/field/fields.go |  3 +++
 generator/codegen/struct.go       | 11 +++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 27239c4..bb46a75 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -143,6 +143,9 @@ func (f *Field) FillStatements(name string) []ast.Stmt {
 //
 // result.Write(b)
 func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
+	if f.tags.JsonName() == "-" {
+		return nil
+	}
 	switch tt := f.refx.(type) {
 
 	case *ast.StarExpr:
diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 67fedc8..cc939e8 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -220,7 +220,12 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		Params(asthlp.Field(names.VarNameWriter, nil, asthlp.Star(asthlp.SimpleSelector("jwriter", "Writer")))).
 		Results(asthlp.Field("", nil, asthlp.ErrorType))
 
-	if len(s.spec.Fields.List) == 0 {
+	var fieldStmts []ast.Stmt
+	for _, fld := range s.spec.Fields.List {
+		fieldStmts = append(fieldStmts, jsonFieldStmts(fld)...)
+	}
+
+	if len(fieldStmts) == 0 {
 		return fn.AppendStmt(
 			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
 			asthlp.Return(asthlp.Nil),
@@ -249,9 +254,7 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		)),
 	)
 
-	for _, fld := range s.spec.Fields.List {
-		fn.AppendStmt(jsonFieldStmts(fld)...)
-	}
+	fn.AppendStmt(fieldStmts...)
 
 	fn.AppendStmt(
 		makeWriteAndReturn('}')...,
-- 
2.43.0


From 8673ce02bb6232280c70fcc7e72dadd181abde62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 07/19] fix: struct tags written as interpreted string literals
 were ignored

---
 generator/codegen/tags/tags.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 4005038..43ff13f 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -2,6 +2,7 @@ package tags
 
 import (
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -78,13 +79,12 @@ func Parse(tag string) Tags {
 }
 
 func StructTag(tag string) reflect.StructTag {
-	if len(tag) < 2 {
+	// the tag is either a raw or an interpreted string literal
+	value, err := strconv.Unquote(tag)
+	if err != nil {
 		return ""
 	}
-	if tag[0] == '`' && tag[len(tag)-1] == '`' {
-		return reflect.StructTag(tag[1 : len(tag)-1])
-	}
-	return ""
+	return reflect.StructTag(value)
 }
 
 type StructTags []string
-- 
2.43.0


From e51ec1ab3a4bdc4190231cb055d9323bcb9d2a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 08/19] fix: layouts and defaults were cut at the first comma

default:"a,b" gave the default "a", layout:"Mon, 02 Jan 2006" the layout "Mon".
---
 generator/codegen/tags/tags.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 43ff13f..f13b40f 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -73,8 +73,9 @@ func (t Tags) Layout() string {
 func Parse(tag string) Tags {
 	var result = make(map[string][]string)
 	result["json"] = strings.Split(StructTag(tag).Get("json"), ",")
-	result["layout"] = strings.Split(StructTag(tag).Get("layout"), ",")
-	result["default"] = strings.Split(StructTag(tag).Get("default"), ",")
+	// unlike the options of the name, these are whole texts: a comma is a part of them
+	result["layout"] = []string{StructTag(tag).Get("layout")}
+	result["default"] = []string{StructTag(tag).Get("default")}
 	return result
 }
 
-- 
2.43.0


From 0329fe1f7d0ed9d0428c9b0a4a20f7de3cfb2661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 09/19] fix: a backslash or a line break in a default changed
 its meaning

default:"C:\\dir" became an escape sequence of the generated Go literal.
---
 generator/codegen/helpers/asthelpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/helpers/asthelpers.go b/generator/codegen/helpers/asthelpers.go
index 3c0daae..114be7d 100644
--- a/generator/codegen/helpers/asthelpers.go
+++ b/generator/codegen/helpers/asthelpers.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -47,7 +48,7 @@ func BasicLiteralFromType(t ast.Expr, val string) ast.Expr {
 		case "string":
 			return &ast.BasicLit{
 				Kind:  token.STRING,
-				Value: "\"" + strings.Replace(val, "\"", "\\\"", -1) + "\"",
+				Value: strconv.Quote(val),
 			}
 
 		case "byte", "rune":
-- 
2.43.0


From 8015046a25da6a237cab38b9f8578ff301a5dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 10/19] fix: check the maximum of declared 8, 16 and 32 bit
 types decoded on their own

---
 generator/codegen/field/fill.go | 41 ++++++++++++++++++++++++++-------
 generator/codegen/transit.go    |  3 +++
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 3407f8d..7194c3d 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -465,18 +465,13 @@ func (f *Field) checkErr(val *ast.Ident) []ast.Stmt {
 	if isIdent && ident.Name == "string" {
 		return nil
 	}
-	if maxExp := getMaxByType(ident); maxExp != nil {
-		phldr := "%d"
-		if ident.Name == "float32" {
-			phldr = "%f"
-		}
-		maxExceeded := phldr + " exceeds maximum for data type " + ident.Name
+	if exceeded, maxError := maxExceeded(ident, val); exceeded != nil {
 		checkOverflow = asthlp.If(
-			asthlp.Great(val, maxExp),
+			exceeded,
 			asthlp.Return(asthlp.Call(
 				asthlp.InlineFunc(asthlp.NewIdent(names.ParsingError)),
 				asthlp.StringConstant(f.tags.JsonName()).Expr(),
-				helpers.FmtError(maxExceeded, val),
+				maxError,
 			)),
 		)
 	}
@@ -495,6 +490,36 @@ func (f *Field) checkErr(val *ast.Ident) []ast.Stmt {
 		checkOverflow,
 	}
 }
+// CheckMaxStatements makes statements that return an error if the val is too big for the given type
+//
+//	if _val > math.MaxInt8 {
+//		return fmt.Errorf("%d exceeds maximum for data type int8", _val)
+//	}
+func CheckMaxStatements(t ast.Expr, val *ast.Ident) []ast.Stmt {
+	for base := helpers.DenotedType(t); base != t; base = helpers.DenotedType(t) {
+		t = base
+	}
+	ident, _ := t.(*ast.Ident)
+	exceeded, maxError := maxExceeded(ident, val)
+	if exceeded == nil {
+		return nil
+	}
+	return []ast.Stmt{asthlp.If(exceeded, asthlp.Return(maxError))}
+}
+
+// maxExceeded makes the condition and the error for values that exceed the maximum of the type
+func maxExceeded(t *ast.Ident, val *ast.Ident) (exceeded, maxError ast.Expr) {
+	maxExp := getMaxByType(t)
+	if maxExp == nil {
+		return nil, nil
+	}
+	phldr := "%d"
+	if t.Name == "float32" {
+		phldr = "%f"
+	}
+	return asthlp.Great(val, maxExp), helpers.FmtError(phldr+" exceeds maximum for data type "+t.Name, val)
+}
+
 func getMaxByType(t *ast.Ident) ast.Expr {
 	if t == nil {
 		return nil
diff --git a/generator/codegen/transit.go b/generator/codegen/transit.go
index de54043..882094d 100644
--- a/generator/codegen/transit.go
+++ b/generator/codegen/transit.go
@@ -173,6 +173,9 @@ func (t *Transitive) FillFromFunc() ast.Decl {
 		fn.AppendStmt(typedFiller...)
 		fn.AppendStmt(
 			asthlp.If(asthlp.NotNil(asthlp.NewIdent(names.VarNameError)), asthlp.Return(asthlp.NewIdent(names.VarNameError))),
+		)
+		fn.AppendStmt(field.CheckMaxStatements(t.tran, asthlp.NewIdent("_val"))...)
+		fn.AppendStmt(
 			asthlp.Assign(asthlp.VarNames{asthlp.Star(asthlp.NewIdent(names.VarNameReceiver))}, asthlp.Assignment, asthlp.VariableTypeConvert("_val", asthlp.NewIdent(t.name))),
 		)
 		asthlp.NewIdent(names.VarNameReceiver)
-- 
2.43.0


From 9a20b0b16aa36af77a9a12514b649d38d79d4fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 11/19] fix: do not take "-" of a left out field for the name
 of a member

---
 generator/codegen/struct.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index cc939e8..008abcb 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -125,11 +125,17 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 			asthlp.ReturnEmpty(),
 		),
 	)
+	var checked int
 	for i, fieldSpec := range s.spec.Fields.List {
 		var fieldTags tags.Tags
 		if fieldSpec.Tag != nil {
 			fieldTags = tags.Parse(fieldSpec.Tag.Value)
 		}
+		if fieldTags.JsonName() == "-" {
+			// the field is not a part of the document
+			continue
+		}
+		checked++
 		visitFunc.AppendStmt(
 			//		if bytes.Equal(key, []byte{'f', 'i', 'l', 't', 'e', 'r'}) {
 			//			. . .
@@ -182,7 +188,7 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 		asthlp.If(asthlp.NotEqual(asthlp.NewIdent(names.VarNameError), asthlp.Nil), asthlp.Return(asthlp.NewIdent(names.VarNameError))),
 	)
 
-	if len(s.spec.Fields.List) > 0 {
+	if checked > 0 {
 		// var checkFields [1]int
 		fn.AppendStmt(
 			asthlp.Var(asthlp.VariableType(checkFieldsVarName, asthlp.ArrayType(asthlp.Int, asthlp.IntegerConstant(len(s.spec.Fields.List)).Expr()))),
-- 
2.43.0


From 6d5448be16a565ca9882b83953fd18415b00ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 12/19] fix: write null for a nil pointer to a structure
 without members

---
 generator/codegen/struct.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 008abcb..d9188fe 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -231,13 +231,6 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		fieldStmts = append(fieldStmts, jsonFieldStmts(fld)...)
 	}
 
-	if len(fieldStmts) == 0 {
-		return fn.AppendStmt(
-			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
-			asthlp.Return(asthlp.Nil),
-		).Decl()
-	}
-
 	fn.AppendStmt(
 		// 	if s == nil {
 		//		result.WriteString("null")
@@ -249,6 +242,15 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("null").Expr())),
 			asthlp.Return(asthlp.Nil),
 		),
+	)
+	if len(fieldStmts) == 0 {
+		return fn.AppendStmt(
+			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
+			asthlp.Return(asthlp.Nil),
+		).Decl()
+	}
+
+	fn.AppendStmt(
 		// var (
 		// 	err    error
 		// )
-- 
2.43.0


From 412b7e804166fffc65728b6176ec78ba9f806cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 13/19] fix: inline the structure of the imported package, not
 of its namesake

Structures of other packages were looked up by the bare package name: the
first directory of the module with a package of that name and a type of that
name won, whatever the source imports, and packages imported under another
name were not found at all.
---
 generator/analyse.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 15c33ae..2e08b46 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -310,13 +310,16 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	if !ok {
 		panic(fmt.Errorf("can't inline struct %q; can't recognize %+v expression", inlined.Sel.Name, inlined.X))
 	}
-	pkg, err := v.g.discovery.GetPackage(packIdent.Name, inlined.Sel.Name)
-	if err != nil {
-		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
-	}
 	var v1 = visitor{g: v.g, over: packIdent}
-	ast.Walk(&v1, pkg)
-	decl := v1.getDeclByName(inlined.Sel.Name)
+	decl := v1.exploreImported(packIdent.Name, inlined.Sel.Name)
+	if decl == nil {
+		pkg, err := v.g.discovery.GetPackage(packIdent.Name, inlined.Sel.Name)
+		if err != nil {
+			panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
+		}
+		ast.Walk(&v1, pkg)
+		decl = v1.getDeclByName(inlined.Sel.Name)
+	}
 	if decl == nil {
 		panic("can't resolve inlined field by name")
 	}
@@ -330,6 +333,28 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	return
 }
 
+// exploreImported looks for the declaration in the package that the source file imports under the given name.
+func (v *visitor) exploreImported(packageName, objName string) *taggedDecl {
+	for _, p := range v.g.packages[packageName] {
+		parsed, err := parsePackage(v.g.discovery.PackagePathFromPath(p.Path))
+		if err != nil {
+			continue
+		}
+		for name, pkg := range parsed {
+			if strings.HasSuffix(name, "_test") {
+				continue
+			}
+			v.decls = nil
+			ast.Walk(v, pkg)
+			if decl := v.getDeclByName(objName); decl != nil {
+				return decl
+			}
+		}
+	}
+	v.decls = nil
+	return nil
+}
+
 func findFieldWithName(fields []*ast.Field, name string) *ast.Field {
 	for _, field := range fields {
 		for _, fldName := range field.Names {
-- 
2.43.0


From 5f99eaf213e0ceed00d090e29f66d28b4c600c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:46 +0000
Subject: [PATCH 14/19] fix: qualify all type names of a structure inlined from
 another package

Lists, maps and pointers of types of that package were generated with the
bare names, which the compiler refuses.
---
 generator/analyse.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 2e08b46..d6a5b4f 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -232,12 +232,7 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 			sel.Sel.Obj = v.resolveExternal(sel)
 		}
 		if v.over != nil {
-			if i, ok := fld.Type.(*ast.Ident); ok && unicode.IsUpper([]rune(i.Name)[0]) {
-				fld.Type = &ast.SelectorExpr{
-					X:   v.over,
-					Sel: i,
-				}
-			}
+			fld.Type = v.qualify(fld.Type)
 		}
 		if tag.JsonAppendix() == "inline" {
 			inlinedFields, canInline := v.exploreInlined(fld)
@@ -252,6 +247,23 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 	return flds
 }
 
+// qualify rewrites the names of the explored package the way the source file has to spell them.
+func (v *visitor) qualify(expr ast.Expr) ast.Expr {
+	switch e := expr.(type) {
+	case *ast.Ident:
+		if unicode.IsUpper([]rune(e.Name)[0]) {
+			return &ast.SelectorExpr{X: v.over, Sel: e}
+		}
+	case *ast.StarExpr:
+		e.X = v.qualify(e.X)
+	case *ast.ArrayType:
+		e.Elt = v.qualify(e.Elt)
+	case *ast.MapType:
+		e.Key, e.Value = v.qualify(e.Key), v.qualify(e.Value)
+	}
+	return expr
+}
+
 func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
 	packages, ok := v.g.packages[sel.X.(*ast.Ident).String()]
 	if ok {
-- 
2.43.0


From 7059eb4be79aaf35f7ebaacb723ba2977d46f4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 15/19] fix: read the names of imported packages from the
 packages

The last element of the import path was taken for the name, so types of a
package in a directory called otherwise were generated without the import.
---
 generator/parser.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/generator/parser.go b/generator/parser.go
index 878e64a..5263218 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -50,9 +50,7 @@ func (g *Gen) Parse() (err error) {
 			continue
 		}
 		if name == "" {
-			// FIXME @menshenin the name of package must be read from the package itself
-			split := strings.Split(pkgPath, "/")
-			name = split[len(split)-1]
+			name = g.packageName(pkgPath)
 		}
 		g.packages[name] = append(
 			g.packages[name],
@@ -65,6 +63,24 @@ func (g *Gen) Parse() (err error) {
 	return
 }
 
+// packageName reads the name from the package itself; the directory may be called otherwise.
+func (g *Gen) packageName(pkgPath string) string {
+	name := path.Base(pkgPath)
+	parsed, err := parsePackage(g.discovery.PackagePathFromPath(pkgPath))
+	if err != nil {
+		return name
+	}
+	if _, ok := parsed[name]; ok {
+		return name
+	}
+	for declared := range parsed {
+		if declared != "main" && !strings.HasSuffix(declared, "_test") {
+			return declared
+		}
+	}
+	return name
+}
+
 func (g *Gen) FixImports(internals ...string) {
 	explorer.RegisterPackage("jwriter", explorer.Package{
 		Path: "github.com/mailru/easyjson/jwriter",
-- 
2.43.0


From 24d6fd0c9e608594ea2507ef197b2555e39caba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 16/19] fix: import what the generated code refers to and
 nothing else

Names of packages were looked up in a registry that all generators of the
process share, so a file could get the packages of a file generated before;
and every selector was taken for one of a package, local variables included,
so that importing a package called parser, s or v gave an unused import.
---
 generator/analyse.go |   5 +-
 generator/parser.go  | 107 +++++++++++++++++++++++++++++++------------
 2 files changed, 82 insertions(+), 30 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index d6a5b4f..8486257 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -268,7 +268,7 @@ func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
 	packages, ok := v.g.packages[sel.X.(*ast.Ident).String()]
 	if ok {
 		for _, p := range packages {
-			if p.Kind == explorer.PkgKindSystem {
+			if p.Kind != explorer.PkgKindInternal {
 				continue
 			}
 			if decl := v.g.ExploreType(p, sel.Sel.Name); decl != nil {
@@ -348,6 +348,9 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 // exploreImported looks for the declaration in the package that the source file imports under the given name.
 func (v *visitor) exploreImported(packageName, objName string) *taggedDecl {
 	for _, p := range v.g.packages[packageName] {
+		if p.Kind != explorer.PkgKindInternal {
+			continue
+		}
 		parsed, err := parsePackage(v.g.discovery.PackagePathFromPath(p.Path))
 		if err != nil {
 			continue
diff --git a/generator/parser.go b/generator/parser.go
index 5263218..0d64675 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -1,6 +1,7 @@
 package generator
 
 import (
+	"bytes"
 	"fmt"
 	"go/ast"
 	"go/format"
@@ -40,33 +41,58 @@ func (g *Gen) Parse() (err error) {
 	if err == nil {
 		g.result.Name = g.parsed.(*ast.File).Name
 	}
-	for _, imp := range g.parsed.(*ast.File).Imports {
+	g.explorePackages(g.parsed.(*ast.File))
+	return
+}
+
+// ownPackages are the packages which the generated code refers to on its own.
+var ownPackages = map[string]explorer.Package{
+	"base64":   {Path: "encoding/base64", Kind: explorer.PkgKindSystem},
+	"bytes":    {Path: "bytes", Kind: explorer.PkgKindSystem},
+	"errors":   {Path: "errors", Kind: explorer.PkgKindSystem},
+	"fmt":      {Path: "fmt", Kind: explorer.PkgKindSystem},
+	"math":     {Path: "math", Kind: explorer.PkgKindSystem},
+	"time":     {Path: "time", Kind: explorer.PkgKindSystem},
+	"strconv":  {Path: "strconv", Kind: explorer.PkgKindSystem},
+	"uuid":     {Path: "github.com/google/uuid", Kind: explorer.PkgKindExternal},
+	"fastjson": {Path: "github.com/valyala/fastjson", Kind: explorer.PkgKindExternal},
+	"jwriter":  {Path: "github.com/mailru/easyjson/jwriter", Kind: explorer.PkgKindExternal},
+}
+
+// explorePackages remembers the packages that the file imports by the names they have in it.
+func (g *Gen) explorePackages(file *ast.File) {
+	for _, imp := range file.Imports {
 		var name string
 		if imp.Name != nil {
 			name = imp.Name.Name
 		}
-		pkgPath := strings.Trim(imp.Path.Value, `"`)
-		if !strings.HasPrefix(pkgPath, g.discovery.GetModuleName()) {
-			continue
+		pkg := explorer.Package{
+			Path: strings.Trim(imp.Path.Value, "\"`"),
+			Kind: explorer.PkgKindInternal,
+		}
+		if module := g.discovery.GetModuleName(); pkg.Path != module && !strings.HasPrefix(pkg.Path, module+"/") {
+			pkg.Kind = explorer.PkgKindSystem
+			if strings.Contains(strings.Split(pkg.Path, "/")[0], ".") {
+				pkg.Kind = explorer.PkgKindExternal
+			}
 		}
 		if name == "" {
-			name = g.packageName(pkgPath)
+			name = g.packageName(pkg)
+		}
+		if _, own := ownPackages[name]; own && pkg.Kind != explorer.PkgKindInternal {
+			continue
 		}
-		g.packages[name] = append(
-			g.packages[name],
-			explorer.Package{
-				Path: pkgPath,
-				Kind: explorer.PkgKindInternal,
-			},
-		)
+		g.packages[name] = append(g.packages[name], pkg)
 	}
-	return
 }
 
 // packageName reads the name from the package itself; the directory may be called otherwise.
-func (g *Gen) packageName(pkgPath string) string {
-	name := path.Base(pkgPath)
-	parsed, err := parsePackage(g.discovery.PackagePathFromPath(pkgPath))
+func (g *Gen) packageName(pkg explorer.Package) string {
+	name := path.Base(pkg.Path)
+	if pkg.Kind != explorer.PkgKindInternal {
+		return name
+	}
+	parsed, err := parsePackage(g.discovery.PackagePathFromPath(pkg.Path))
 	if err != nil {
 		return name
 	}
@@ -82,38 +108,47 @@ func (g *Gen) packageName(pkgPath string) string {
 }
 
 func (g *Gen) FixImports(internals ...string) {
-	explorer.RegisterPackage("jwriter", explorer.Package{
-		Path: "github.com/mailru/easyjson/jwriter",
-		Kind: explorer.PkgKindExternal,
-	})
-	explorer.RegisterPackage("base64", explorer.Package{
-		Path: "encoding/base64",
-		Kind: explorer.PkgKindSystem,
-	})
+	known := make(map[string]bool)
+	register := func(name string, pkg explorer.Package) {
+		explorer.RegisterPackage(name, pkg)
+		known[name] = true
+	}
+	for name, pkg := range ownPackages {
+		register(name, pkg)
+	}
 
 	// discovery used imports and build their declaration
 	for name, pkg := range g.packages {
 		for i := range pkg {
-			explorer.RegisterPackage(name, pkg[i])
+			register(name, pkg[i])
 		}
 	}
 	for i := 0; i < len(internals); i += 2 {
-		explorer.RegisterPackage(internals[i], explorer.Package{
+		register(internals[i], explorer.Package{
 			Path: internals[i+1],
 			Kind: explorer.PkgKindInternal,
 		})
 	}
-	g.imports()
+	g.imports(known)
 }
 
-func (g *Gen) imports() {
+// imports declares the packages that the result refers to. The registry of packages is shared by all generators of the
+// process, so that only the names known to this one are looked up there.
+func (g *Gen) imports(known map[string]bool) {
 	defer func() {
 		if r := recover(); r != nil {
 			panic(fmt.Errorf("PANIC at %q: %+v", g.fileName, r))
 		}
 	}()
 	discovery := explorer.New()
-	discovery.Explore(&g.result)
+	ast.Inspect(g.resolved(), func(node ast.Node) bool {
+		if sel, ok := node.(*ast.SelectorExpr); ok {
+			if x, ok := sel.X.(*ast.Ident); ok && x.Obj == nil && known[x.Name] {
+				discovery.Explore(sel)
+			}
+		}
+		return true
+	})
 	var decls = make([]ast.Decl, 0, len(g.result.Decls)+1)
 
 	imports := discovery.ImportSpec()
@@ -127,6 +162,20 @@ func (g *Gen) imports() {
 	g.result.Decls = decls
 }
 
+// resolved returns the result with its identifiers resolved: those of local variables and parameters can be told from
+// those of packages.
+func (g *Gen) resolved() *ast.File {
+	var buf bytes.Buffer
+	if err := printer.Fprint(&buf, token.NewFileSet(), &g.result); err != nil {
+		return &g.result
+	}
+	file, err := parser.ParseFile(token.NewFileSet(), "", &buf, 0)
+	if err != nil {
+		return &g.result
+	}
+	return file
+}
+
 func (g *Gen) Print(name string) {
 	f, err := os.Create(name)
 	if err != nil {
-- 
2.43.0


From b576f01c9d58709dd366b4c4fcd5dd2bf08d380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 17/19] fix: import the packages that fields of an inlined
 structure refer to

A structure inlined from another package may have fields of packages that
the source file itself does not import.
---
 generator/analyse.go | 11 +++++++++--
 generator/parser.go  |  9 +++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 8486257..52b5345 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -361,9 +361,16 @@ func (v *visitor) exploreImported(packageName, objName string) *taggedDecl {
 			}
 			v.decls = nil
 			ast.Walk(v, pkg)
-			if decl := v.getDeclByName(objName); decl != nil {
-				return decl
+			decl := v.getDeclByName(objName)
+			if decl == nil {
+				continue
+			}
+			for _, file := range pkg.Files {
+				if file.Pos() <= decl.spec.Pos() && decl.spec.Pos() < file.End() {
+					v.g.explorePackages(file) // the fields may refer to what this file imports
+				}
 			}
+			return decl
 		}
 	}
 	v.decls = nil
diff --git a/generator/parser.go b/generator/parser.go
index 0d64675..1a36b9b 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -59,8 +59,13 @@ var ownPackages = map[string]explorer.Package{
 	"jwriter":  {Path: "github.com/mailru/easyjson/jwriter", Kind: explorer.PkgKindExternal},
 }
 
-// explorePackages remembers the packages that the file imports by the names they have in it.
+// explorePackages remembers the packages that the file imports by the names they have in it,
+// unless files explored before gave the names to other packages.
 func (g *Gen) explorePackages(file *ast.File) {
+	explored := make(map[string]bool, len(g.packages))
+	for name := range g.packages {
+		explored[name] = true
+	}
 	for _, imp := range file.Imports {
 		var name string
 		if imp.Name != nil {
@@ -79,7 +84,7 @@ func (g *Gen) explorePackages(file *ast.File) {
 		if name == "" {
 			name = g.packageName(pkg)
 		}
-		if _, own := ownPackages[name]; own && pkg.Kind != explorer.PkgKindInternal {
+		if _, own := ownPackages[name]; explored[name] || own && pkg.Kind != explorer.PkgKindInternal {
 			continue
 		}
 		g.packages[name] = append(g.packages[name], pkg)
-- 
2.43.0


From 2d87edea145529f862b054af37f0c99310182e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:44 +0000
Subject: [PATCH 18/19] fix: percent signs in member names garbled encoding
 errors

---
 generator/codegen/field/fields.go     | 4 ++--
 generator/codegen/field/marshalers.go | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index bb46a75..08ddfc9 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -183,7 +183,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		}
 		dec := GetDecorExpr(tt.Value)
 		valType := helpers.DenotedType(tt.Value)
-		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
+		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+formatText(f.tags.JsonName())+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 		block := mapMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", isString, GetValueExtractor(valType, errExpr, dec))
 		return block.Render(putCommaFirstIf)
 
@@ -194,7 +194,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		} else {
 			dec := GetDecorExpr(tt.Elt)
 			valType := helpers.DenotedType(tt.Elt)
-			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
+			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+formatText(f.tags.JsonName())+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
 		}
 		return block.Render(putCommaFirstIf)
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 5b08eb2..17efc3a 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -3,6 +3,7 @@ package field
 import (
 	"fmt"
 	"go/ast"
+	"strings"
 	"time"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -325,6 +326,11 @@ func stringMarshal(src ast.Expr, jsonName string, omitempty, needCast bool) Writ
 	return w
 }
 
+// formatText makes the name usable as a part of a format string
+func formatText(name string) string {
+	return strings.ReplaceAll(name, "%", "%%")
+}
+
 // structMarshal makes WriteBlock for inlined structure marshalling
 //
 //	result.Raw(unpackObject(s.Field.MarshalJSON()))
@@ -374,7 +380,7 @@ func structMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
 				asthlp.Return(
 					asthlp.Call(
 						asthlp.FmtErrorfFn,
-						asthlp.StringConstant(`can't marshal "`+jsonName+`" attribute: %w`).Expr(),
+						asthlp.StringConstant(`can't marshal "`+formatText(jsonName)+`" attribute: %w`).Expr(),
 						asthlp.NewIdent(names.VarNameError),
 					),
 				),
-- 
2.43.0


From c42a2fcdcf1b58be1d7d4660302580febdc5bb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:40 +0000
Subject: [PATCH 19/19] fix: lists nested deeper than two levels did not
 compile

---
 generator/codegen/field/fields.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 08ddfc9..26b5425 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -3,6 +3,8 @@ package field
 import (
 	"fmt"
 	"go/ast"
+	"strconv"
+	"strings"
 	"unicode"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -374,22 +376,23 @@ func GetValueExtractor(t, errExpr ast.Expr, initDecorSrc DecorSrc) ValueExtracto
 		// result.Int64(int64(_v))
 		ve := GetValueExtractor(tt.Elt, errExpr, initDecorSrc)
 		return func(src ast.Expr) []ast.Stmt {
+			key, val := elemVarNames(src)
 			return decorStmt(src, []ast.Stmt{
 				asthlp.CallStmt(asthlp.Call(
 					RawByteFn,
 					asthlp.RuneConstant('[').Expr(),
 				)),
 				// for _k1, _v1 := range _v {
-				asthlp.Range(true, "_k1", "_v1", asthlp.NewIdent("_v"),
+				asthlp.Range(true, key, val, src,
 					append(
-						ve(asthlp.NewIdent("_v1")),
+						ve(asthlp.NewIdent(val)),
 						// if len(_v) -1 > _k1 {
 						//   result.RawByte(',')
 						// }
 						asthlp.If(
 							asthlp.Great(
-								asthlp.Sub(asthlp.Call(asthlp.LengthFn, asthlp.NewIdent("_v")), asthlp.IntegerConstant(1).Expr()),
-								asthlp.NewIdent("_k1"),
+								asthlp.Sub(asthlp.Call(asthlp.LengthFn, src), asthlp.IntegerConstant(1).Expr()),
+								asthlp.NewIdent(key),
 							),
 							asthlp.CallStmt(asthlp.Call(
 								RawByteFn,
@@ -410,6 +413,16 @@ func GetValueExtractor(t, errExpr ast.Expr, initDecorSrc DecorSrc) ValueExtracto
 	}
 }
 
+// elemVarNames makes names of the loop variables for elements of src: each level of nesting has its own
+func elemVarNames(src ast.Expr) (key, val string) {
+	var level int
+	if ident, ok := src.(*ast.Ident); ok {
+		level, _ = strconv.Atoi(strings.TrimPrefix(ident.Name, "_v"))
+	}
+	suffix := strconv.Itoa(level + 1)
+	return "_k" + suffix, "_v" + suffix
+}
+
 func marshalTransit(src ast.Expr, name string, omitempty, isStar bool) WriteBlock {
 	if name == "" {
 		// inlined
-- 
2.43.0

