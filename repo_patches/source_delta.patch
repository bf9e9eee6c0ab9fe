From f2175a3e4974e27222973fce02628a177b639aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 01/58] fix: keep track of the element and simple type being
 parsed

Untyped elements and inline simple types leaked through the parser stacks:
anonymous simple types became spurious top-level types, closed the enclosing
complex type, clobbered members and lost groups, and an anonymous complex type
outside an element panicked.
---
 parser.go         |  6 ++++++
 xmlComplexType.go | 22 +++++++++++++++++---
 xmlElement.go     | 51 +++++++++++++++++++++++++++++++++++++++++++++--
 xmlGroup.go       | 10 +++++-----
 xmlRestriction.go |  2 +-
 xmlSimpleType.go  | 25 ++++++++++++++++-------
 xmlUnion.go       |  4 +---
 7 files changed, 99 insertions(+), 21 deletions(-)

diff --git a/parser.go b/parser.go
index 781c36a..28063dc 100644
--- a/parser.go
+++ b/parser.go
@@ -50,6 +50,9 @@ type Options struct {
 	Group          *Stack
 	AttributeGroup *Stack
 	Choice         *Stack
+
+	elements    []elementScope // element declarations being parsed, innermost last
+	simpleTypes int            // nesting depth of the simple type being parsed
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -97,6 +100,9 @@ func (opt *Options) Parse() (err error) {
 	opt.AttributeGroup = NewStack()
 	opt.Choice = NewStack()
 
+	opt.elements = nil
+	opt.simpleTypes = 0
+
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
 	for {
diff --git a/xmlComplexType.go b/xmlComplexType.go
index ff477e0..0b4f452 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -8,13 +8,26 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"errors"
+)
+
+// errAnonymousType reports a complex type that has neither a name nor an
+// element it is the type of.
+var errAnonymousType = errors.New("complexType without name or element")
 
 // OnComplexType handles parsing event on the complex start elements. A
 // complex element contains other elements and/or attributes.
 func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{}) (err error) {
+	if len(opt.elements) > 0 {
+		opt.elements[len(opt.elements)-1].inline = true
+	}
 	if opt.ComplexType.Len() > 0 {
-		e := opt.Element.Pop().(*Element)
+		e, ok := opt.Element.Pop().(*Element)
+		if !ok {
+			return errAnonymousType
+		}
 		opt.ComplexType.Push(&ComplexType{
 			Name: e.Name,
 		})
@@ -29,7 +42,10 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 			}
 		}
 		if c.Name == "" {
-			e := opt.Element.Pop().(*Element)
+			e, ok := opt.Element.Pop().(*Element)
+			if !ok {
+				return errAnonymousType
+			}
 			c.Name = e.Name
 		}
 		opt.ComplexType.Push(&c)
diff --git a/xmlElement.go b/xmlElement.go
index ffc3c84..33f5bde 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -13,6 +13,16 @@ import (
 	"strconv"
 )
 
+// elementScope describes an element declaration being parsed.
+type elementScope struct {
+	stack  int        // elements on the stack outside the declaration
+	types  int        // complex types around the declaration
+	owner  *[]Element // element list of the enclosing type or group, if any
+	index  int        // position in the list of the owner
+	typed  bool       // the type is given by reference
+	inline bool       // the type is given by a child
+}
+
 // OnElement handles parsing event on the element start elements.
 func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (err error) {
 	e := Element{}
@@ -50,6 +60,8 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 		}
 	}
 
+	opt.elements = append(opt.elements, elementScope{stack: opt.Element.Len(), types: opt.ComplexType.Len(), typed: e.Type != ""})
+	scope := &opt.elements[len(opt.elements)-1]
 	if e.Type == "" {
 		e.Type, err = opt.GetValueType(e.Name, protoTree)
 		if err != nil {
@@ -63,6 +75,7 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 	}
 
 	if opt.ComplexType.Len() > 0 {
+		scope.owner = &opt.ComplexType.Peek().(*ComplexType).Elements
 		element, i := findElement(&e, opt.ComplexType.Peek().(*ComplexType).Elements)
 		// Handle a case where two elements with the same name and type are present in the same complex type
 		// This can happen with a Choice that includes a definition for a single value of a type along with
@@ -74,7 +87,9 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 		if element != nil && element.Type == e.Type {
 			element.Plural = element.Plural || e.Plural
 			opt.ComplexType.Peek().(*ComplexType).Elements[i] = *element
+			scope.index = i
 		} else {
+			scope.index = len(*scope.owner)
 			opt.ComplexType.Peek().(*ComplexType).Elements = append(opt.ComplexType.Peek().(*ComplexType).Elements, e)
 		}
 		return
@@ -82,23 +97,55 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 
 	if opt.InGroup > 0 {
 		if opt.Group.Len() > 0 {
+			scope.owner = &opt.Group.Peek().(*Group).Elements
+			scope.index = len(*scope.owner)
 			opt.Group.Peek().(*Group).Elements = append(opt.Group.Peek().(*Group).Elements, e)
 		}
 		return
 	}
 
-	opt.Element.Push(&e)
+	if opt.Element.Len() == scope.stack {
+		opt.Element.Push(&e)
+	}
 	return
 }
 
 // EndElement handles parsing event on the element end elements.
 func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 {
+	if len(opt.elements) == 0 {
+		return
+	}
+	scope := opt.elements[len(opt.elements)-1]
+	opt.elements = opt.elements[:len(opt.elements)-1]
+	if !scope.typed && !scope.inline {
+		// An element without a type is of any type.
+		var anyType string
+		if anyType, err = opt.GetValueType("anyType", protoTree); err != nil {
+			return
+		}
+		opt.setElementType(scope, anyType)
+	}
+	if scope.owner == nil && opt.Element.Len() > scope.stack && opt.ComplexType.Len() == 0 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.Element.Pop())
 	}
+	for opt.Element.Len() > scope.stack {
+		opt.Element.Pop()
+	}
 	return
 }
 
+// setElementType sets the type of an element declaration being parsed, for
+// types that are not given by reference.
+func (opt *Options) setElementType(scope elementScope, valueType string) {
+	if scope.owner != nil {
+		(*scope.owner)[scope.index].Type = valueType
+		return
+	}
+	if opt.Element.Len() > scope.stack {
+		opt.Element.Peek().(*Element).Type = valueType
+	}
+}
+
 func findElement(element *Element, elements []Element) (existing *Element, index int) {
 	for i, ele := range elements {
 		if element.Name == ele.Name {
diff --git a/xmlGroup.go b/xmlGroup.go
index 2a463e6..4a7f8a4 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -61,14 +61,14 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndGroup handles parsing event on the group end elements.
 func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if ele.Name.Local == opt.CurrentEle && opt.InGroup == 1 {
+	if opt.ComplexType.Len() > 0 || opt.InGroup == 0 {
+		return
+	}
+	if opt.InGroup == 1 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())
 		opt.CurrentEle = ""
-		opt.InGroup--
-	}
-	if ele.Name.Local == opt.CurrentEle {
-		opt.InGroup--
 	}
+	opt.InGroup--
 	return
 }
 
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 8f2880c..2834985 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -44,7 +44,7 @@ func (opt *Options) EndRestriction(ele xml.EndElement, protoTree []interface{})
 		}
 		opt.CurrentEle = ""
 	}
-	if !opt.Element.Empty() {
+	if !opt.Element.Empty() && opt.simpleTypes > 0 {
 		if !opt.ComplexType.Empty() && len(opt.ComplexType.Peek().(*ComplexType).Elements) > 0 {
 			opt.ComplexType.Peek().(*ComplexType).Elements[len(opt.ComplexType.Peek().(*ComplexType).Elements)-1] = *opt.Element.Peek().(*Element)
 		}
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index 45f9e25..1437b2c 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -14,6 +14,7 @@ import "encoding/xml"
 // simpleType element defines a simple type and specifies the constraints and
 // information about the values of attributes or text-only elements.
 func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{}) (err error) {
+	opt.simpleTypes++
 	if opt.SimpleType.Len() == 0 {
 		opt.SimpleType.Push(&SimpleType{})
 	}
@@ -31,18 +32,28 @@ func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{})
 
 // EndSimpleType handles parsing event on the simpleType end elements.
 func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (err error) {
+	if opt.simpleTypes--; opt.simpleTypes > 0 {
+		// A simple type within another one is part of it.
+		return
+	}
+	opt.CurrentEle = ""
 	if opt.SimpleType.Len() > 0 && opt.Attribute.Len() > 0 {
 		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		return
 	}
-	if ele.Name.Local == opt.CurrentEle && opt.ComplexType.Len() == 1 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
-		opt.CurrentEle = ""
+	if l := len(opt.elements); l > 0 && opt.Attribute.Len() == 0 && opt.elements[l-1].types == opt.ComplexType.Len() {
+		opt.elements[l-1].inline = true
+		if opt.SimpleType.Len() > 0 {
+			opt.setElementType(opt.elements[l-1], opt.SimpleType.Pop().(*SimpleType).Base)
+		} else if opt.Element.Len() > opt.elements[l-1].stack {
+			opt.setElementType(opt.elements[l-1], opt.Element.Peek().(*Element).Type)
+		}
+		return
 	}
-
-	if ele.Name.Local == opt.CurrentEle && !opt.InUnion {
-		opt.ProtoTree = append(opt.ProtoTree, opt.SimpleType.Pop())
-		opt.CurrentEle = ""
+	if opt.SimpleType.Len() > 0 {
+		if simpleType := opt.SimpleType.Pop(); opt.ComplexType.Len() == 0 {
+			opt.ProtoTree = append(opt.ProtoTree, simpleType)
+		}
 	}
 	return
 }
diff --git a/xmlUnion.go b/xmlUnion.go
index dce084f..b9653ab 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -40,8 +40,6 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndUnion handles parsing event on the union end elements.
 func (opt *Options) EndUnion(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 {
-		opt.InUnion = false
-	}
+	opt.InUnion = false
 	return
 }
-- 
2.43.0


From dd90b7c6f90cdc5a9f8228c84ed9109145218a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:11 +0000
Subject: [PATCH 02/58] fix: declare Java attribute group members with their
 own type

---
 genJava.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genJava.go b/genJava.go
index 70cbc87..06a13a1 100644
--- a/genJava.go
+++ b/genJava.go
@@ -234,7 +234,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %sAttr %s;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From b5cf6f3b46ca213cca0b1da3457411c652c6ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 03/58] fix: make Rust members collections only when they may
 repeat

---
 genRust.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/genRust.go b/genRust.go
index f3b9cb6..39a73f9 100644
--- a/genRust.go
+++ b/genRust.go
@@ -215,7 +215,7 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 		var content string
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attrGroup.Name, genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attrGroup.Name, genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
@@ -275,7 +275,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			fieldName := genRustFieldName(element.Name)
-			if v.Plural {
+			if element.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", element.Name, fieldName, fieldType)
@@ -284,7 +284,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			fieldName := genRustFieldName(group.Name)
-			if v.Plural {
+			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
 			} else {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", group.Name, fieldName, fieldType)
@@ -305,7 +305,7 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From 83193e38e195233894704985f030b827110f0ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 04/58] fix: rename Rust union members to their own name

---
 genRust.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genRust.go b/genRust.go
index 39a73f9..2c9dede 100644
--- a/genRust.go
+++ b/genRust.go
@@ -192,7 +192,7 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, genRustFieldName(memberName), genRustFieldType(memberType))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
 			gen.Field += fmt.Sprintf("\n#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genRustStructName(v.Name, true), gen.StructAST[v.Name])
-- 
2.43.0


From 065647ca2ca0f56b0fee685ca0878d02db0861be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:15 +0000
Subject: [PATCH 05/58] fix: write C array types of group elements and list
 items as declarators

---
 genC.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/genC.go b/genC.go
index 09e2a88..39ce3c5 100644
--- a/genC.go
+++ b/genC.go
@@ -101,7 +101,7 @@ func genCFieldType(name string) string {
 func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
-			fieldType := genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))
+			fieldType, _ := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
 			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), genCFieldName(v.Name, false))
 			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
@@ -198,11 +198,12 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
 		for _, element := range v.Elements {
-			var plural string
-			if element.Plural {
+			var plural, fieldType string
+			var ok bool
+			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)), genCFieldName(element.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(element.Name, false), plural)
 		}
 
 		for _, group := range v.Groups {
-- 
2.43.0


From 3173ab4d3cddb50a08174cb69fe4555685103a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 06/58] fix: keep TypeScript lists of built-in types arrays

---
 genTypeScript.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genTypeScript.go b/genTypeScript.go
index b5f9d38..c4a4693 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -69,6 +69,9 @@ func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
 func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 	if _, ok := typeScriptBuildInType[name]; ok {
 		fieldType = name
+		if plural && name != "Uint8Array" {
+			fieldType = fmt.Sprintf("Array<%s>", name)
+		}
 		return
 	}
 	for _, str := range strings.Split(name, ".") {
-- 
2.43.0


From 30368a31a1f5b75d6470f53b9027f687531964cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 07/58] fix: do not extend built-in types in TypeScript

---
 genTypeScript.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index c4a4693..c763492 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -16,13 +16,15 @@ import (
 )
 
 var typeScriptBuildInType = map[string]bool{
-	"boolean":    true,
-	"number":     true,
-	"string":     true,
-	"void":       true,
-	"null":       true,
-	"undefined":  true,
-	"Uint8Array": true,
+	"any":           true,
+	"Array<string>": true,
+	"boolean":       true,
+	"number":        true,
+	"string":        true,
+	"void":          true,
+	"null":          true,
+	"undefined":     true,
+	"Uint8Array":    true,
 }
 
 // GenTypeScript generate TypeScript programming language source code for XML
-- 
2.43.0


From 8c06d11cd9ed271eb5b95971327154fd257786db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:14 +0000
Subject: [PATCH 08/58] fix: bind members declared by reference to their local
 XML name

The namespace prefix of the reference ended up in the struct tags and
annotations, which never match a document.
---
 genGo.go   |  6 +++---
 genJava.go |  8 ++++----
 genRust.go | 28 ++++++++++++++--------------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/genGo.go b/genGo.go
index c27fa36..3d3243c 100644
--- a/genGo.go
+++ b/genGo.go
@@ -203,7 +203,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, trimNSPrefix(attribute.Name), optional)
 		}
 		for _, group := range v.Groups {
 			var plural string
@@ -222,7 +222,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, fieldType, element.Name)
+			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, fieldType, trimNSPrefix(element.Name))
 		}
 		if len(v.Base) > 0 {
 			// If the type is a built-in type, generate a Value field as chardata.
@@ -291,7 +291,7 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), attribute.Name, optional)
+			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), trimNSPrefix(attribute.Name), optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genJava.go b/genJava.go
index 06a13a1..9269e0f 100644
--- a/genJava.go
+++ b/genJava.go
@@ -154,7 +154,7 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", trimNSPrefix(attribute.Name), required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		for _, group := range v.Groups {
 			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
@@ -169,7 +169,7 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 			if element.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, genJavaFieldName(element.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", trimNSPrefix(element.Name), fieldType, genJavaFieldName(element.Name, false))
 		}
 
 		if len(v.Base) > 0 && isBuiltInJavaType(v.Base) {
@@ -205,7 +205,7 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 			if element.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", element.Name, fieldType, genJavaFieldName(element.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", trimNSPrefix(element.Name), fieldType, genJavaFieldName(element.Name, false))
 		}
 
 		for _, group := range v.Groups {
@@ -234,7 +234,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", attribute.Name, required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", trimNSPrefix(attribute.Name), required, fieldType, genJavaFieldName(attribute.Name, false))
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genRust.go b/genRust.go
index 2c9dede..a08e1dd 100644
--- a/genRust.go
+++ b/genRust.go
@@ -215,35 +215,35 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 		var content string
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attrGroup.Name, genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attrGroup.Name), genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
 			if attribute.Optional {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), fieldType)
 			}
 		}
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			fieldName := genRustFieldName(group.Name)
 			if group.Plural {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", group.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			}
 		}
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			fieldName := genRustFieldName(element.Name)
 			if element.Plural {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 			} else {
 				if element.Optional {
-					content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", element.Name, fieldName, fieldType)
+					content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 				} else {
-					content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", element.Name, fieldName, fieldType)
+					content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 				}
 			}
 		}
@@ -276,18 +276,18 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			fieldName := genRustFieldName(element.Name)
 			if element.Plural {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", element.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", element.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 			}
 		}
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			fieldName := genRustFieldName(group.Name)
 			if group.Plural {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", group.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", group.Name, fieldName, fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			}
 		}
 		gen.StructAST[v.Name] = content
@@ -303,9 +303,9 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 		var content string
 		for _, attribute := range v.Attributes {
 			if attribute.Optional {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", attribute.Name, genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
 		gen.StructAST[v.Name] = content
-- 
2.43.0


From 1c8babc40bfb3bab5d711598e81d735724c02a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:33 +0000
Subject: [PATCH 09/58] fix: keep attribute group references within attribute
 groups

They became declarations of their own under the prefixed name and were missing
in the group.
---
 genC.go              |  4 ++++
 genGo.go             |  7 +++++++
 genJava.go           |  4 ++++
 genRust.go           |  4 ++++
 genTypeScript.go     |  4 ++++
 proto.go             |  9 +++++----
 xmlAttributeGroup.go | 11 +++++++++++
 7 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/genC.go b/genC.go
index 39ce3c5..b79769c 100644
--- a/genC.go
+++ b/genC.go
@@ -226,6 +226,10 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), genCFieldName(attrGroup.Name, false))
+		}
 		for _, attribute := range v.Attributes {
 			var optional, plural, fieldType string
 			var ok bool
diff --git a/genGo.go b/genGo.go
index 3d3243c..3c5ef4c 100644
--- a/genGo.go
+++ b/genGo.go
@@ -286,6 +286,13 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			gen.ImportEncodingXML = true
 			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
 		}
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			if fieldType == "time.Time" {
+				gen.ImportTime = true
+			}
+			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), genGoFieldType(fieldType))
+		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
diff --git a/genJava.go b/genJava.go
index 9269e0f..1589ea6 100644
--- a/genJava.go
+++ b/genJava.go
@@ -228,6 +228,10 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), genJavaFieldName(attrGroup.Name, false))
+		}
 		for _, attribute := range v.Attributes {
 			var required = ", required = true"
 			if attribute.Optional {
diff --git a/genRust.go b/genRust.go
index a08e1dd..598a57d 100644
--- a/genRust.go
+++ b/genRust.go
@@ -301,6 +301,10 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attrGroup.Name), genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+		}
 		for _, attribute := range v.Attributes {
 			if attribute.Optional {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
diff --git a/genTypeScript.go b/genTypeScript.go
index c763492..17f2432 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -220,6 +220,10 @@ func (gen *CodeGenerator) TypeScriptGroup(v *Group) {
 func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		for _, attrGroup := range v.AttributeGroup {
+			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
+			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(attrGroup.Name, false), genTypeScriptFieldType(fieldType, false))
+		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
diff --git a/proto.go b/proto.go
index 5af61e7..1173b98 100644
--- a/proto.go
+++ b/proto.go
@@ -117,10 +117,11 @@ type Choice struct {
 // <attributeGroup>).
 // https://www.w3.org/TR/xmlschema-1/structures.html#Attribute_Group_Definition
 type AttributeGroup struct {
-	Doc        string
-	Name       string
-	Ref        string
-	Attributes []Attribute
+	Doc            string
+	Name           string
+	Ref            string
+	Attributes     []Attribute
+	AttributeGroup []AttributeGroup
 }
 
 // Restriction are used to define acceptable values for XML elements or
diff --git a/xmlAttributeGroup.go b/xmlAttributeGroup.go
index 1e1cc57..5b639aa 100644
--- a/xmlAttributeGroup.go
+++ b/xmlAttributeGroup.go
@@ -28,6 +28,13 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 			}
 		}
 	}
+	if opt.ComplexType.Len() == 0 && opt.AttributeGroup.Len() > 0 {
+		// A reference to another group is a member of the group around it.
+		parent := opt.AttributeGroup.Peek().(*AttributeGroup)
+		parent.AttributeGroup = append(parent.AttributeGroup, attributeGroup)
+		opt.AttributeGroup.Push(&attributeGroup)
+		return
+	}
 	if opt.ComplexType.Len() == 0 {
 		opt.InAttributeGroup = true
 		opt.CurrentEle = opt.InElement
@@ -44,6 +51,10 @@ func (opt *Options) OnAttributeGroup(ele xml.StartElement, protoTree []interface
 
 // EndAttributeGroup handles parsing event on the attributeGroup end elements.
 func (opt *Options) EndAttributeGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
+	if opt.AttributeGroup.Len() > 1 {
+		opt.AttributeGroup.Pop()
+		return
+	}
 	if opt.AttributeGroup.Len() > 0 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.AttributeGroup.Pop())
 		opt.CurrentEle = ""
-- 
2.43.0


From 695effe22cdfb4fbfba0229959a5c89ae878db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:35 +0000
Subject: [PATCH 10/58] fix: repeat the members of a repeated sequence, not
 those of nested types

maxOccurs of a sequence was ignored, that of a choice leaked into anonymous
types within it, and a group reference with maxOccurs=1 was made plural.
---
 xmlComplexType.go |  3 +++
 xmlGroup.go       |  2 +-
 xmlSequence.go    | 22 ++++++++++++++++++++++
 3 files changed, 26 insertions(+), 1 deletion(-)
 create mode 100644 xmlSequence.go

diff --git a/xmlComplexType.go b/xmlComplexType.go
index 0b4f452..18d28a7 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -50,6 +50,8 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 		}
 		opt.ComplexType.Push(&c)
 	}
+	// The compositors around an anonymous type do not repeat its members.
+	opt.Choice.Push(&Choice{})
 	return
 }
 
@@ -57,5 +59,6 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 func (opt *Options) EndComplexType(ele xml.EndElement, protoTree []interface{}) (err error) {
 	opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
 	opt.CurrentEle = ""
+	opt.Choice.Pop()
 	return
 }
diff --git a/xmlGroup.go b/xmlGroup.go
index 4a7f8a4..bf3e2cb 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -27,7 +27,7 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			}
 		}
 		if attr.Name.Local == "maxOccurs" {
-			if attr.Value != "0" {
+			if attr.Value != "0" && attr.Value != "1" {
 				group.Plural = true
 			}
 		}
diff --git a/xmlSequence.go b/xmlSequence.go
new file mode 100644
index 0000000..788ee73
--- /dev/null
+++ b/xmlSequence.go
@@ -0,0 +1,22 @@
+// Copyright 2020 - 2024 The xgen Authors. All rights reserved. Use of this
+// source code is governed by a BSD-style license that can be found in the
+// LICENSE file.
+//
+// Package xgen written in pure Go providing a set of functions that allow you
+// to parse XSD (XML schema files). This library needs Go version 1.10 or
+// later.
+
+package xgen
+
+import "encoding/xml"
+
+// OnSequence handles parsing event on the sequence start elements. Like a
+// choice, a sequence that may occur more than once makes its members plural.
+func (opt *Options) OnSequence(ele xml.StartElement, protoTree []interface{}) (err error) {
+	return opt.OnChoice(ele, protoTree)
+}
+
+// EndSequence handles parsing event on the sequence end elements.
+func (opt *Options) EndSequence(ele xml.EndElement, protoTree []interface{}) (err error) {
+	return opt.EndChoice(ele, protoTree)
+}
-- 
2.43.0


From fc978132764a74c35cc3d6fe80c5d8ce1154f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:58 +0000
Subject: [PATCH 11/58] fix: merge the alternatives of an element in a group as
 in a complex type

---
 xmlElement.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmlElement.go b/xmlElement.go
index 33f5bde..141a418 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -98,6 +98,11 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 	if opt.InGroup > 0 {
 		if opt.Group.Len() > 0 {
 			scope.owner = &opt.Group.Peek().(*Group).Elements
+			if element, i := findElement(&e, *scope.owner); element != nil && element.Type == e.Type {
+				(*scope.owner)[i].Plural = element.Plural || e.Plural
+				scope.index = i
+				return
+			}
 			scope.index = len(*scope.owner)
 			opt.Group.Peek().(*Group).Elements = append(opt.Group.Peek().(*Group).Elements, e)
 		}
-- 
2.43.0


From 6664c75e8a05acef9acfaf46bd412b76cdc14965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 12/58] fix: resolve type bases once, also those declared later

---
 parser.go         | 23 +++++++++++++++++++++++
 xmlExtension.go   |  5 +----
 xmlRestriction.go |  5 +----
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index 28063dc..5366a66 100644
--- a/parser.go
+++ b/parser.go
@@ -134,6 +134,7 @@ func (opt *Options) Parse() (err error) {
 
 	}
 
+	opt.resolveBases()
 	if !opt.Extract {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
@@ -157,6 +158,28 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// resolveBases resolves the bases of complex types that are simple types
+// declared further down in the document.
+func (opt *Options) resolveBases() {
+	for _, ele := range opt.ProtoTree {
+		complexType, ok := ele.(*ComplexType)
+		if !ok {
+			continue
+		}
+		for range opt.ProtoTree {
+			base := complexType.Base
+			for _, ele := range opt.ProtoTree {
+				if v, ok := ele.(*SimpleType); ok && !v.List && !v.Union && v.Name == trimNSPrefix(base) {
+					complexType.Base = v.Base
+				}
+			}
+			if complexType.Base == base {
+				break
+			}
+		}
+	}
+}
+
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
diff --git a/xmlExtension.go b/xmlExtension.go
index 4e3803d..2838d52 100644
--- a/xmlExtension.go
+++ b/xmlExtension.go
@@ -22,10 +22,7 @@ func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (
 			}
 			if opt.ComplexType.Peek() != nil {
 				var complexType = opt.ComplexType.Peek().(*ComplexType)
-				complexType.Base, err = opt.GetValueType(valueType, protoTree)
-				if err != nil {
-					return
-				}
+				complexType.Base = valueType
 				if complexType.Name == "" {
 					complexType.Name = attr.Value
 				}
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 2834985..bee0ee1 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -22,10 +22,7 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 				return
 			}
 			if opt.SimpleType.Peek() != nil {
-				opt.SimpleType.Peek().(*SimpleType).Base, err = opt.GetValueType(valueType, protoTree)
-				if err != nil {
-					return
-				}
+				opt.SimpleType.Peek().(*SimpleType).Base = valueType
 				if opt.SimpleType.Peek().(*SimpleType).Name == "" {
 					opt.SimpleType.Peek().(*SimpleType).Name = attr.Value
 				}
-- 
2.43.0


From ea9c75c907f08925416c6a9d433d415d3479e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:12 +0000
Subject: [PATCH 13/58] fix: map QName, not anyURI, to the Java QName

---
 utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 459a8e9..e888825 100644
--- a/utils.go
+++ b/utils.go
@@ -88,8 +88,8 @@ var BuildInTypes = map[string][]string{
 	"NMTOKENS":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
 	"NOTATION":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
 	"Name":               {"string", "string", "char", "String", "String"},
-	"QName":              {"xml.Name", "any", "char", "String", "String"},
-	"anyURI":             {"string", "string", "char", "QName", "String"},
+	"QName":              {"xml.Name", "any", "char", "QName", "String"},
+	"anyURI":             {"string", "string", "char", "String", "String"},
 	"base64Binary":       {"string", "Uint8Array", "char[]", "List<Byte>", "String"},
 	"boolean":            {"bool", "boolean", "bool", "Boolean", "bool"},
 	"byte":               {"int8", "any", "char[]", "Byte", "u8"},
-- 
2.43.0


From 01ee735a5bf8ead797e2f75d26ffb9608176c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:14 +0000
Subject: [PATCH 14/58] fix: map bounded integer types to types wide enough

---
 utils.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils.go b/utils.go
index e888825..091a07d 100644
--- a/utils.go
+++ b/utils.go
@@ -92,7 +92,7 @@ var BuildInTypes = map[string][]string{
 	"anyURI":             {"string", "string", "char", "String", "String"},
 	"base64Binary":       {"string", "Uint8Array", "char[]", "List<Byte>", "String"},
 	"boolean":            {"bool", "boolean", "bool", "Boolean", "bool"},
-	"byte":               {"int8", "any", "char[]", "Byte", "u8"},
+	"byte":               {"int8", "any", "signed char", "Byte", "i8"},
 	"date":               {"string", "string", "char", "String", "u8"},
 	"dateTime":           {"string", "string", "char", "String", "u8"},
 	"decimal":            {"float64", "number", "float", "Float", "f64"},
@@ -108,7 +108,7 @@ var BuildInTypes = map[string][]string{
 	"int":                {"int", "number", "int", "Integer", "i32"},
 	"integer":            {"int", "number", "int", "Integer", "i32"},
 	"language":           {"string", "string", "char", "String", "String"},
-	"long":               {"int64", "number", "int", "Long", "i64"},
+	"long":               {"int64", "number", "long", "Long", "i64"},
 	"negativeInteger":    {"int", "number", "int", "Integer", "i32"},
 	"nonNegativeInteger": {"int", "number", "int", "Integer", "u32"},
 	"normalizedString":   {"string", "string", "char", "String", "String"},
@@ -118,10 +118,10 @@ var BuildInTypes = map[string][]string{
 	"string":             {"string", "string", "char", "String", "String"},
 	"time":               {"time.Time", "string", "char", "String", "String"},
 	"token":              {"string", "string", "char", "String", "String"},
-	"unsignedByte":       {"uint8", "any", "char", "Byte", "u8"},
-	"unsignedInt":        {"uint32", "number", "unsigned int", "Integer", "u32"},
-	"unsignedLong":       {"uint64", "number", "unsigned int", "Long", "u64"},
-	"unsignedShort":      {"uint16", "number", "unsigned int", "Short", "u16"},
+	"unsignedByte":       {"uint8", "any", "unsigned char", "Short", "u8"},
+	"unsignedInt":        {"uint32", "number", "unsigned int", "Long", "u32"},
+	"unsignedLong":       {"uint64", "number", "unsigned long", "Long", "u64"},
+	"unsignedShort":      {"uint16", "number", "unsigned int", "Integer", "u16"},
 	"xml:lang":           {"string", "string", "char", "String", "String"},
 	"xml:space":          {"string", "string", "char", "String", "String"},
 	"xml:base":           {"string", "string", "char", "String", "String"},
-- 
2.43.0


From 46788abd2113efd8cbb6596a627432ee27ea338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:44 +0000
Subject: [PATCH 15/58] fix: separate union member types by any white space

---
 xmlUnion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmlUnion.go b/xmlUnion.go
index b9653ab..c069648 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -25,7 +25,7 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 	opt.SimpleType.Peek().(*SimpleType).MemberTypes = make(map[string]string)
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "memberTypes" {
-			memberTypes := strings.Split(attr.Value, " ")
+			memberTypes := strings.Fields(attr.Value)
 			for _, memberType := range memberTypes {
 				opt.SimpleType.Peek().(*SimpleType).MemberTypes[trimNSPrefix(memberType)], err = opt.GetValueType(memberType, protoTree)
 				if err != nil {
-- 
2.43.0


From 3829dccad066345b9c35c37e22d190637d0ce6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:45 +0000
Subject: [PATCH 16/58] fix: type attributes without a type and local unions as
 any type

---
 xmlAttribute.go  | 6 ++++++
 xmlSimpleType.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/xmlAttribute.go b/xmlAttribute.go
index 74adf1a..9e931da 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -48,6 +48,12 @@ func (opt *Options) EndAttribute(ele xml.EndElement, protoTree []interface{}) (e
 	if opt.Attribute.Len() == 0 {
 		return
 	}
+	if attribute := opt.Attribute.Peek().(*Attribute); attribute.Type == "" {
+		// An attribute without a type is of any type.
+		if attribute.Type, err = opt.GetValueType("anyType", protoTree); err != nil {
+			return
+		}
+	}
 	if opt.AttributeGroup.Len() > 0 {
 		opt.AttributeGroup.Peek().(*AttributeGroup).Attributes = append(opt.AttributeGroup.Peek().(*AttributeGroup).Attributes, *opt.Attribute.Pop().(*Attribute))
 		return
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index 1437b2c..5bf4e9d 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -37,6 +37,12 @@ func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (
 		return
 	}
 	opt.CurrentEle = ""
+	if simpleType, ok := opt.SimpleType.Peek().(*SimpleType); ok && simpleType.Base == "" && (opt.Attribute.Len() > 0 || len(opt.elements) > 0) {
+		// A local union is of any type.
+		if simpleType.Base, err = opt.GetValueType("anyType", protoTree); err != nil {
+			return
+		}
+	}
 	if opt.SimpleType.Len() > 0 && opt.Attribute.Len() > 0 {
 		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		return
-- 
2.43.0


From 37ac1de0a97f8c8ac7f5c824fbe98349d9971194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:47 +0000
Subject: [PATCH 17/58] fix: resolve the attributes of the xml namespace

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 5366a66..346d406 100644
--- a/parser.go
+++ b/parser.go
@@ -183,6 +183,10 @@ func (opt *Options) resolveBases() {
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
+	if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok {
+		valueType = buildType
+		return
+	}
 	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {
 		valueType = buildType
 		return
-- 
2.43.0


From c0c81a89d06ad5d94d5f5a11cb3c115eb073f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 18/58] fix: call only parsing handlers for the elements of a
 document

---
 utils.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 091a07d..b7a5a03 100644
--- a/utils.go
+++ b/utils.go
@@ -206,7 +206,7 @@ func ToTitle(val string) string {
 // reflect by given receiver, name and parameters.
 func callFuncByName(receiver interface{}, name string, params []reflect.Value) (err error) {
 	function := reflect.ValueOf(receiver).MethodByName(name)
-	if function.IsValid() {
+	if function.IsValid() && acceptsParams(function.Type(), params) {
 		rt := function.Call(params)
 		if len(rt) == 0 {
 			return
@@ -219,6 +219,19 @@ func callFuncByName(receiver interface{}, name string, params []reflect.Value) (
 	return
 }
 
+// acceptsParams tests whether a function takes the given parameters.
+func acceptsParams(function reflect.Type, params []reflect.Value) bool {
+	if function.NumIn() != len(params) {
+		return false
+	}
+	for i, param := range params {
+		if !param.Type().AssignableTo(function.In(i)) {
+			return false
+		}
+	}
+	return true
+}
+
 // isValidUrl tests a string to determine if it is a well-structured url or
 // not.
 func isValidURL(toTest string) bool {
-- 
2.43.0


From 2ae25930dd96080c6397cd986b3d3f48da3630c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:51 +0000
Subject: [PATCH 19/58] fix: import every package the Go code uses

---
 genGo.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/genGo.go b/genGo.go
index 3c5ef4c..c45319e 100644
--- a/genGo.go
+++ b/genGo.go
@@ -13,6 +13,7 @@ import (
 	"go/format"
 	"os"
 	"reflect"
+	"regexp"
 	"strings"
 )
 
@@ -56,6 +57,12 @@ var goBuildinType = map[string]bool{
 	"uint64":        true,
 }
 
+// The types of imported packages, outside of comments and tags.
+var (
+	goTimeType = regexp.MustCompile("(?m)^[^/\"`\n]*\\btime\\.Time\\b")
+	goXMLType  = regexp.MustCompile("(?m)^[^/\"`\n]*\\bxml\\.Name\\b")
+)
+
 // GenGo generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenGo() error {
@@ -72,6 +79,8 @@ func (gen *CodeGenerator) GenGo() error {
 		return err
 	}
 	defer f.Close()
+	gen.ImportTime = gen.ImportTime || goTimeType.MatchString(gen.Field)
+	gen.ImportEncodingXML = gen.ImportEncodingXML || goXMLType.MatchString(gen.Field)
 	var importPackage, packages string
 	if gen.ImportTime {
 		packages += "\t\"time\"\n"
@@ -138,7 +147,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content := fmt.Sprintf(" []%s\n", genGoFieldType(fieldType))
+			content := fmt.Sprintf(" []%s\n", fieldType)
 			gen.StructAST[v.Name] = content
 			fieldName := genGoFieldName(v.Name, true)
 			gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
-- 
2.43.0


From 530deb3b08ed55ec2c88afa94d77b2aee79b6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 20/58] fix: report documents that cannot be read to their end

---
 parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 346d406..1f45f64 100644
--- a/parser.go
+++ b/parser.go
@@ -11,6 +11,7 @@ package xgen
 import (
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -106,8 +107,14 @@ func (opt *Options) Parse() (err error) {
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
 	for {
-		token, _ := decoder.Token()
+		token, tokenErr := decoder.Token()
 		if token == nil {
+			if tokenErr != io.EOF {
+				return tokenErr
+			}
+			if opt.InElement == "" {
+				return io.ErrUnexpectedEOF
+			}
 			break
 		}
 
-- 
2.43.0


From 06bff48646692e83a79a63454ac90cfb1d7bc702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:35 +0000
Subject: [PATCH 21/58] fix: report output that cannot be written completely

---
 genC.go          | 5 ++++-
 genGo.go         | 5 ++++-
 genJava.go       | 5 ++++-
 genRust.go       | 5 ++++-
 genTypeScript.go | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index b79769c..9a8db5d 100644
--- a/genC.go
+++ b/genC.go
@@ -51,7 +51,10 @@ func (gen *CodeGenerator) GenC() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
diff --git a/genGo.go b/genGo.go
index c45319e..d113f58 100644
--- a/genGo.go
+++ b/genGo.go
@@ -100,7 +100,10 @@ func (gen *CodeGenerator) GenGo() error {
 		f.WriteString(fmt.Sprintf("package %s\n%s%s", packageName, importPackage, gen.Field))
 		return err
 	}
-	f.Write(source)
+	_, err = f.Write(source)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
diff --git a/genJava.go b/genJava.go
index 1589ea6..2cc2a38 100644
--- a/genJava.go
+++ b/genJava.go
@@ -59,7 +59,10 @@ import javax.xml.bind.annotation.XmlSchemaType;
 import javax.xml.bind.annotation.XmlType;
 import javax.xml.bind.annotation.XmlValue;`
 
-	f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
+	_, err = f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
diff --git a/genRust.go b/genRust.go
index 598a57d..91b9dff 100644
--- a/genRust.go
+++ b/genRust.go
@@ -116,7 +116,10 @@ extern crate serde_xml_rs;
 
 use serde_xml_rs::from_reader;`
 	source := []byte(fmt.Sprintf("%s\n\n%s\n%s", copyright, extern, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 }
 
diff --git a/genTypeScript.go b/genTypeScript.go
index 17f2432..2345e9d 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -44,7 +44,10 @@ func (gen *CodeGenerator) GenTypeScript() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
+	_, err = f.Write(source)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
 	return err
 
 }
-- 
2.43.0


From 9f9ba11eb8466ddfaec8307c9f5bb3582171d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:37 +0000
Subject: [PATCH 22/58] fix: return errors on directories to the caller

---
 parser.go | 3 +--
 utils.go  | 6 +++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 1f45f64..c8b0014 100644
--- a/parser.go
+++ b/parser.go
@@ -147,8 +147,7 @@ func (opt *Options) Parse() (err error) {
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
 		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
 		if err := PrepareOutputDir(filepath.Dir(path)); err != nil {
-			fmt.Println(err)
-			os.Exit(1)
+			return err
 		}
 		generator := &CodeGenerator{
 			Lang:      opt.Lang,
diff --git a/utils.go b/utils.go
index b7a5a03..ebcb37d 100644
--- a/utils.go
+++ b/utils.go
@@ -47,6 +47,9 @@ func GetFileList(path string) (files []string, err error) {
 	}
 	if fi.IsDir() {
 		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
+			if err != nil {
+				return err
+			}
 			files = append(files, fp)
 			return nil
 		})
@@ -69,8 +72,9 @@ func PrepareOutputDir(path string) error {
 		if err := os.MkdirAll(path, 0755); err != nil {
 			return err
 		}
+		return nil
 	}
-	return nil
+	return err
 }
 
 // BuildInTypes defines the correspondence between Go, TypeScript, C, Java,
-- 
2.43.0


From 2407ff2fd0e53095d9152c92c5fb74880ff7b256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:15 +0000
Subject: [PATCH 23/58] fix: leave annotations and foreign markup out of the
 schema, keep documentation with its component

---
 parser.go         | 17 +++++++---
 xmlAnnotation.go  | 86 +++++++++++++++++++++++++++++++++++++++++++++++
 xmlCharData.go    | 55 ++++++++++++++----------------
 xmlComplexType.go |  2 ++
 4 files changed, 126 insertions(+), 34 deletions(-)
 create mode 100644 xmlAnnotation.go

diff --git a/parser.go b/parser.go
index c8b0014..0287763 100644
--- a/parser.go
+++ b/parser.go
@@ -54,6 +54,7 @@ type Options struct {
 
 	elements    []elementScope // element declarations being parsed, innermost last
 	simpleTypes int            // nesting depth of the simple type being parsed
+	annotations annotationScope
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -103,6 +104,7 @@ func (opt *Options) Parse() (err error) {
 
 	opt.elements = nil
 	opt.simpleTypes = 0
+	opt.annotations = annotationScope{}
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
@@ -120,7 +122,9 @@ func (opt *Options) Parse() (err error) {
 
 		switch element := token.(type) {
 		case xml.StartElement:
-
+			if !opt.annotations.enter(&element) {
+				continue
+			}
 			opt.InElement = element.Name.Local
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
@@ -128,14 +132,19 @@ func (opt *Options) Parse() (err error) {
 			}
 
 		case xml.EndElement:
+			known, doc := opt.annotations.leave()
+			if err = opt.OnCharData(doc, opt.ProtoTree); err != nil {
+				return
+			}
+			if !known {
+				continue
+			}
 			funcName := fmt.Sprintf("End%s", MakeFirstUpperCase(element.Name.Local))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
 			}
 		case xml.CharData:
-			if err = opt.OnCharData(string(element), opt.ProtoTree); err != nil {
-				return
-			}
+			opt.annotations.text(string(element))
 		default:
 		}
 
diff --git a/xmlAnnotation.go b/xmlAnnotation.go
new file mode 100644
index 0000000..162e981
--- /dev/null
+++ b/xmlAnnotation.go
@@ -0,0 +1,86 @@
+// Copyright 2020 - 2024 The xgen Authors. All rights reserved. Use of this
+// source code is governed by a BSD-style license that can be found in the
+// LICENSE file.
+//
+// Package xgen written in pure Go providing a set of functions that allow you
+// to parse XSD (XML schema files). This library needs Go version 1.10 or
+// later.
+
+package xgen
+
+import (
+	"encoding/xml"
+	"strings"
+)
+
+const xmlSchemaNS = "http://www.w3.org/2001/XMLSchema"
+
+// annotationScope keeps track of what is not part of the schema itself: the
+// content of annotations and of elements of other namespaces.
+type annotationScope struct {
+	namespace  string   // namespace of the document element
+	path       []string // open elements of the schema, innermost last
+	depth      int      // open elements that are not part of the schema
+	annotation bool     // the outermost of them is an annotation
+	inDoc      bool     // the documentation element in it is open
+	docs       []string // content of its documentation elements
+}
+
+// enter handles a start element, and tells whether it is part of the schema.
+func (scope *annotationScope) enter(element *xml.StartElement) bool {
+	if len(scope.path) == 0 && scope.depth == 0 {
+		scope.namespace = element.Name.Space
+	}
+	known := element.Name.Space == scope.namespace || element.Name.Space == xmlSchemaNS
+	if scope.depth > 0 || !known || element.Name.Local == "annotation" {
+		if scope.depth++; scope.depth == 1 {
+			scope.annotation, scope.docs = known, nil
+		}
+		if scope.depth == 2 && scope.annotation && known && element.Name.Local == "documentation" {
+			scope.inDoc = true
+			scope.docs = append(scope.docs, "")
+		}
+		return false
+	}
+	scope.path = append(scope.path, element.Name.Local)
+	var attrs []xml.Attr
+	for _, attr := range element.Attr {
+		// Attributes of other namespaces are not part of the schema.
+		if attr.Name.Space == "" || attr.Name.Space == "xmlns" {
+			attrs = append(attrs, attr)
+		}
+	}
+	element.Attr = attrs
+	return true
+}
+
+// leave handles an end element. It tells whether the element is part of the
+// schema, and returns the documentation of an annotation that ends.
+func (scope *annotationScope) leave() (known bool, doc string) {
+	if scope.depth == 0 {
+		scope.path = scope.path[:len(scope.path)-1]
+		return true, ""
+	}
+	if scope.depth--; scope.depth == 1 {
+		scope.inDoc = false
+	}
+	if scope.depth == 0 && scope.annotation {
+		doc = strings.Join(scope.docs, "\n")
+	}
+	return
+}
+
+// text handles character data.
+func (scope *annotationScope) text(data string) {
+	if scope.inDoc {
+		scope.docs[len(scope.docs)-1] += data
+	}
+}
+
+// owner returns the innermost open element of the schema.
+func (scope *annotationScope) owner() string {
+	if len(scope.path) == 0 {
+		return ""
+	}
+	return scope.path[len(scope.path)-1]
+}
diff --git a/xmlCharData.go b/xmlCharData.go
index f934af5..2d83d6d 100644
--- a/xmlCharData.go
+++ b/xmlCharData.go
@@ -10,49 +10,44 @@ package xgen
 
 import "strings"
 
-// OnCharData handles parsing event on the documentation start elements. The
-// documentation element specifies information to be read or used by users
-// within an annotation element.
+// OnCharData handles the documentation of the component that is being parsed.
+// Documentation of parts of a component without a declaration of their own,
+// such as compositors and facets, is not kept.
 func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error) {
 	if strings.TrimSpace(ele) == "" {
 		return
 	}
 	ele = strings.TrimSpace(ele)
-	if opt.InAttributeGroup {
-		if opt.AttributeGroup.Peek() != nil {
+	switch opt.annotations.owner() {
+	case "attributeGroup":
+		if opt.ComplexType.Len() == 0 && opt.AttributeGroup.Len() == 1 {
 			opt.AttributeGroup.Peek().(*AttributeGroup).Doc = ele
-			return
 		}
-	}
-	if opt.InElement != "" {
-		if opt.Element.Peek() != nil {
-			opt.Element.Peek().(*Element).Doc = ele
-			return
+	case "group":
+		if opt.ComplexType.Len() == 0 && opt.InGroup == 1 && opt.Group.Len() > 0 {
+			opt.Group.Peek().(*Group).Doc = ele
 		}
-	}
-	if opt.Attribute.Len() > 0 {
-		opt.Attribute.Peek().(*Attribute).Doc = ele
-		return
-	}
-	switch opt.CurrentEle {
-	case "simpleType":
-		if opt.SimpleType.Peek() != nil {
-			opt.SimpleType.Peek().(*SimpleType).Doc = ele
-			return
+	case "element":
+		if l := len(opt.elements); l > 0 {
+			scope := opt.elements[l-1]
+			if scope.owner != nil {
+				(*scope.owner)[scope.index].Doc = ele
+			}
+			if opt.Element.Len() > scope.stack {
+				opt.Element.Peek().(*Element).Doc = ele
+			}
 		}
-	case "complexType":
+	case "attribute":
 		if opt.Attribute.Len() > 0 {
 			opt.Attribute.Peek().(*Attribute).Doc = ele
-			return
 		}
-		if opt.ComplexType.Peek() != nil {
-			l := len(opt.ComplexType.Peek().(*ComplexType).Attributes)
-			if l > 0 {
-				opt.ComplexType.Peek().(*ComplexType).Attributes[l-1].Doc = ele
-				return
-			}
+	case "simpleType":
+		if opt.SimpleType.Len() > 0 && opt.simpleTypes == 1 {
+			opt.SimpleType.Peek().(*SimpleType).Doc = ele
+		}
+	case "complexType":
+		if opt.ComplexType.Len() > 0 {
 			opt.ComplexType.Peek().(*ComplexType).Doc = ele
-			return
 		}
 	default:
 	}
diff --git a/xmlComplexType.go b/xmlComplexType.go
index 18d28a7..2ec63f8 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -30,6 +30,7 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 		}
 		opt.ComplexType.Push(&ComplexType{
 			Name: e.Name,
+			Doc:  e.Doc,
 		})
 	}
 
@@ -47,6 +48,7 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 				return errAnonymousType
 			}
 			c.Name = e.Name
+			c.Doc = e.Doc
 		}
 		opt.ComplexType.Push(&c)
 	}
-- 
2.43.0


From dd84514ee4cb907c1f82ed140e7c5e4004e1c939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 24/58] fix: keep documentation within its comment

---
 utils.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index ebcb37d..ca7e856 100644
--- a/utils.go
+++ b/utils.go
@@ -276,7 +276,18 @@ func genFieldComment(name, doc, prefix string) string {
 	if doc == "" {
 		return fmt.Sprintf("\r\n%s %s ...\r\n", prefix, name)
 	}
-	return fmt.Sprintf("\r\n%s %s is %s\r\n", prefix, name, docReplacer.Replace(doc))
+	return fmt.Sprintf("\r\n%s %s is %s\r\n", prefix, name, docReplacer.Replace(commentText(doc)))
+}
+
+// commentText replaces whatever in a documentation would end or continue the
+// lines of a comment in one of the languages, or is not allowed in it.
+func commentText(doc string) string {
+	doc = strings.NewReplacer("\r\n", "\n", "\r", "\n", "\u2028", "\n", "\u2029", "\n", "\ufeff", "", "\\u", "\\ u", "??/", "?? /").Replace(doc)
+	lines := strings.Split(doc, "\n")
+	for i, line := range lines {
+		lines[i] = strings.TrimRight(line, "\\ \t\v\f")
+	}
+	return strings.Join(lines, "\n")
 }
 
 type kvPair struct {
-- 
2.43.0


From 22f2cb953a6ce547a86bff936b76de3358d2c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 25/58] fix: convert only the schemas of an input directory

---
 cmd/xgen/xgen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/xgen/xgen.go b/cmd/xgen/xgen.go
index fa45405..ce8b0c1 100644
--- a/cmd/xgen/xgen.go
+++ b/cmd/xgen/xgen.go
@@ -28,6 +28,8 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"path/filepath"
+	"strings"
 
 	"github.com/xuri/xgen"
 )
@@ -106,6 +108,10 @@ func main() {
 		os.Exit(1)
 	}
 	for _, file := range files {
+		if file != cfg.I && !strings.EqualFold(filepath.Ext(file), ".xsd") {
+			// Not a schema.
+			continue
+		}
 		if err = xgen.NewParser(&xgen.Options{
 			FilePath:            file,
 			InputDir:            cfg.I,
-- 
2.43.0


From 54db1479204a9872996807c4a9041814e5e56356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 26/58] fix: resolve types of other namespaces that are named
 like built-in types

---
 parser.go |  2 +-
 schema.go | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 0287763..fc4517e 100644
--- a/parser.go
+++ b/parser.go
@@ -202,7 +202,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		valueType = buildType
 		return
 	}
-	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok {
+	if buildType, ok := getBuildInTypeByLang(trimNSPrefix(value), opt.Lang); ok && opt.isBuildInNS(value) {
 		valueType = buildType
 		return
 	}
diff --git a/schema.go b/schema.go
index de72f46..e7eaef3 100644
--- a/schema.go
+++ b/schema.go
@@ -8,13 +8,20 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"strings"
+)
 
 func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 	for _, ele := range element.Attr {
 		if ele.Name.Space == "xmlns" {
 			opt.LocalNameNSMap[ele.Name.Local] = ele.Value
 		}
+		if ele.Name.Space == "" && ele.Name.Local == "xmlns" {
+			// The default namespace
+			opt.LocalNameNSMap[""] = ele.Value
+		}
 	}
 }
 
@@ -41,6 +48,13 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 	}
 }
 
+// isBuildInNS tests whether a name may be one of XML Schema: its prefix stands
+// for the namespace of XML Schema or for none.
+func (opt *Options) isBuildInNS(str string) bool {
+	ns := opt.parseNS(str)
+	return ns == "" || strings.Contains(ns, "/XMLSchema")
+}
+
 func (opt *Options) parseNS(str string) (ns string) {
 	return opt.LocalNameNSMap[getNSPrefix(str)]
 }
-- 
2.43.0


From 472cb0d36f38f590db5cea80d82e75ddefdc85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 27/58] fix: do not look for anyType in the default namespace

---
 xmlAttribute.go  | 4 +---
 xmlElement.go    | 5 +----
 xmlSimpleType.go | 4 +---
 3 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/xmlAttribute.go b/xmlAttribute.go
index 9e931da..e791e41 100644
--- a/xmlAttribute.go
+++ b/xmlAttribute.go
@@ -50,9 +50,7 @@ func (opt *Options) EndAttribute(ele xml.EndElement, protoTree []interface{}) (e
 	}
 	if attribute := opt.Attribute.Peek().(*Attribute); attribute.Type == "" {
 		// An attribute without a type is of any type.
-		if attribute.Type, err = opt.GetValueType("anyType", protoTree); err != nil {
-			return
-		}
+		attribute.Type, _ = getBuildInTypeByLang("anyType", opt.Lang)
 	}
 	if opt.AttributeGroup.Len() > 0 {
 		opt.AttributeGroup.Peek().(*AttributeGroup).Attributes = append(opt.AttributeGroup.Peek().(*AttributeGroup).Attributes, *opt.Attribute.Pop().(*Attribute))
diff --git a/xmlElement.go b/xmlElement.go
index 141a418..31bc49e 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -124,10 +124,7 @@ func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err
 	opt.elements = opt.elements[:len(opt.elements)-1]
 	if !scope.typed && !scope.inline {
 		// An element without a type is of any type.
-		var anyType string
-		if anyType, err = opt.GetValueType("anyType", protoTree); err != nil {
-			return
-		}
+		anyType, _ := getBuildInTypeByLang("anyType", opt.Lang)
 		opt.setElementType(scope, anyType)
 	}
 	if scope.owner == nil && opt.Element.Len() > scope.stack && opt.ComplexType.Len() == 0 {
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index 5bf4e9d..e1c3c7b 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -39,9 +39,7 @@ func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (
 	opt.CurrentEle = ""
 	if simpleType, ok := opt.SimpleType.Peek().(*SimpleType); ok && simpleType.Base == "" && (opt.Attribute.Len() > 0 || len(opt.elements) > 0) {
 		// A local union is of any type.
-		if simpleType.Base, err = opt.GetValueType("anyType", protoTree); err != nil {
-			return
-		}
+		simpleType.Base, _ = getBuildInTypeByLang("anyType", opt.Lang)
 	}
 	if opt.SimpleType.Len() > 0 && opt.Attribute.Len() > 0 {
 		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
-- 
2.43.0


From 73458ae8a2d873a1bade9b22fec6832848d3a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 28/58] fix: do not declare an element over the type of the
 same name

---
 xmlElement.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xmlElement.go b/xmlElement.go
index 31bc49e..a149821 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -21,6 +21,7 @@ type elementScope struct {
 	index  int        // position in the list of the owner
 	typed  bool       // the type is given by reference
 	inline bool       // the type is given by a child
+	same   bool       // the type has the name of the element
 }
 
 // OnElement handles parsing event on the element start elements.
@@ -62,6 +63,12 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 
 	opt.elements = append(opt.elements, elementScope{stack: opt.Element.Len(), types: opt.ComplexType.Len(), typed: e.Type != ""})
 	scope := &opt.elements[len(opt.elements)-1]
+	for _, attr := range ele.Attr {
+		if attr.Name.Local == "type" && trimNSPrefix(attr.Value) == e.Name {
+			_, buildIn := getBuildInTypeByLang(e.Name, opt.Lang)
+			scope.same = !buildIn || !opt.isBuildInNS(attr.Value)
+		}
+	}
 	if e.Type == "" {
 		e.Type, err = opt.GetValueType(e.Name, protoTree)
 		if err != nil {
@@ -127,6 +134,10 @@ func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err
 		anyType, _ := getBuildInTypeByLang("anyType", opt.Lang)
 		opt.setElementType(scope, anyType)
 	}
+	if scope.owner == nil && opt.Element.Len() > scope.stack && opt.ComplexType.Len() == 0 && scope.same {
+		// The declaration of the type is the one of the element.
+		opt.Element.Pop()
+	}
 	if scope.owner == nil && opt.Element.Len() > scope.stack && opt.ComplexType.Len() == 0 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.Element.Pop())
 	}
-- 
2.43.0


From da52922b404b0fdb040005bcebdc1cbe66c46060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:18 +0000
Subject: [PATCH 29/58] fix: heed namespace prefixes declared on any element

---
 parser.go |  4 ++++
 schema.go | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/parser.go b/parser.go
index fc4517e..1dd2ff5 100644
--- a/parser.go
+++ b/parser.go
@@ -55,6 +55,7 @@ type Options struct {
 	elements    []elementScope // element declarations being parsed, innermost last
 	simpleTypes int            // nesting depth of the simple type being parsed
 	annotations annotationScope
+	namespaces  []map[string]string // prefixes outside of the open elements
 }
 
 // NewParser creates a new parser options for the Parse. Useful for XML schema
@@ -105,6 +106,7 @@ func (opt *Options) Parse() (err error) {
 	opt.elements = nil
 	opt.simpleTypes = 0
 	opt.annotations = annotationScope{}
+	opt.namespaces = nil
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
@@ -126,6 +128,7 @@ func (opt *Options) Parse() (err error) {
 				continue
 			}
 			opt.InElement = element.Name.Local
+			opt.pushLocalNameNSMap(element)
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
@@ -143,6 +146,7 @@ func (opt *Options) Parse() (err error) {
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
 			}
+			opt.popLocalNameNSMap()
 		case xml.CharData:
 			opt.annotations.text(string(element))
 		default:
diff --git a/schema.go b/schema.go
index e7eaef3..71a15a2 100644
--- a/schema.go
+++ b/schema.go
@@ -25,6 +25,23 @@ func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
 	}
 }
 
+// pushLocalNameNSMap puts the prefixes declared on an element in force, until
+// the element ends.
+func (opt *Options) pushLocalNameNSMap(element xml.StartElement) {
+	opt.namespaces = append(opt.namespaces, opt.LocalNameNSMap)
+	scope := make(map[string]string, len(opt.LocalNameNSMap))
+	for prefix, ns := range opt.LocalNameNSMap {
+		scope[prefix] = ns
+	}
+	opt.LocalNameNSMap = scope
+	opt.prepareLocalNameNSMap(element)
+}
+
+func (opt *Options) popLocalNameNSMap() {
+	last := len(opt.namespaces) - 1
+	opt.LocalNameNSMap, opt.namespaces = opt.namespaces[last], opt.namespaces[:last]
+}
+
 func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 	var currentNS string
 	for _, ele := range element.Attr {
-- 
2.43.0


From 8e5bcd629eb46a482cf5b14b3e233e63e31c95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 30/58] fix: resolve types of included and imported schemas in
 the context of their own file

---
 parser.go     | 122 ++++++++++++++++++++++++++++++++++----------------
 schema.go     |  12 ++++-
 xmlInclude.go |   5 ++-
 3 files changed, 98 insertions(+), 41 deletions(-)

diff --git a/parser.go b/parser.go
index 1dd2ff5..44563a5 100644
--- a/parser.go
+++ b/parser.go
@@ -15,6 +15,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"golang.org/x/net/html/charset"
@@ -106,7 +107,9 @@ func (opt *Options) Parse() (err error) {
 	opt.elements = nil
 	opt.simpleTypes = 0
 	opt.annotations = annotationScope{}
-	opt.namespaces = nil
+	if len(opt.namespaces) > 0 {
+		opt.LocalNameNSMap, opt.namespaces = opt.namespaces[0], nil
+	}
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
@@ -202,7 +205,7 @@ func (opt *Options) resolveBases() {
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
-	if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok {
+	if buildType, ok := getBuildInTypeByLang(value, opt.Lang); ok && strings.HasPrefix(value, "xml:") {
 		valueType = buildType
 		return
 	}
@@ -221,7 +224,10 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if isValidURL(schemaLocation) {
 		return
 	}
-	xsdFile := filepath.Join(opt.FileDir, schemaLocation)
+	xsdFile := opt.FileDir
+	if schemaLocation != "" {
+		xsdFile = schemaLocation
+	}
 	var fi os.FileInfo
 	fi, err = os.Stat(xsdFile)
 	if err != nil {
@@ -229,31 +235,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	}
 	if fi.IsDir() {
 		// extract type of value from include schema.
-		valueType = ""
-		for include := range opt.IncludeMap {
-			parser := NewParser(&Options{
-				FilePath:            filepath.Join(opt.FileDir, include),
-				OutputDir:           opt.OutputDir,
-				Extract:             true,
-				Lang:                opt.Lang,
-				IncludeMap:          opt.IncludeMap,
-				LocalNameNSMap:      opt.LocalNameNSMap,
-				NSSchemaLocationMap: opt.NSSchemaLocationMap,
-				ParseFileList:       opt.ParseFileList,
-				ParseFileMap:        opt.ParseFileMap,
-				ProtoTree:           make([]interface{}, 0),
-			})
-			if parser.Parse() != nil {
-				return
-			}
-			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {
-				valueType = vt
-			}
-		}
-		if valueType == "" {
-			valueType = trimNSPrefix(value)
-		}
-		return
+		return opt.includedType(trimNSPrefix(value))
 	}
 
 	depXSDSchema, ok := opt.ParseFileMap[xsdFile]
@@ -263,19 +245,19 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 			OutputDir:           opt.OutputDir,
 			Extract:             false,
 			Lang:                opt.Lang,
-			IncludeMap:          opt.IncludeMap,
-			LocalNameNSMap:      opt.LocalNameNSMap,
-			NSSchemaLocationMap: opt.NSSchemaLocationMap,
+			IncludeMap:          make(map[string]bool),
+			LocalNameNSMap:      make(map[string]string),
+			NSSchemaLocationMap: make(map[string]string),
 			ParseFileList:       opt.ParseFileList,
 			ParseFileMap:        opt.ParseFileMap,
 			ProtoTree:           make([]interface{}, 0),
 		})
-		if parser.Parse() != nil {
+		if err = parser.Parse(); err != nil {
 			return
 		}
 		depXSDSchema = parser.ProtoTree
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), depXSDSchema)
+	valueType = resolveName(trimNSPrefix(value), depXSDSchema)
 	if valueType != trimNSPrefix(value) && valueType != "" {
 		return
 	}
@@ -284,16 +266,80 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		OutputDir:           opt.OutputDir,
 		Extract:             true,
 		Lang:                opt.Lang,
-		IncludeMap:          opt.IncludeMap,
-		LocalNameNSMap:      opt.LocalNameNSMap,
-		NSSchemaLocationMap: opt.NSSchemaLocationMap,
+		IncludeMap:          make(map[string]bool),
+		LocalNameNSMap:      make(map[string]string),
+		NSSchemaLocationMap: make(map[string]string),
 		ParseFileList:       opt.ParseFileList,
 		ParseFileMap:        opt.ParseFileMap,
 		ProtoTree:           make([]interface{}, 0),
 	})
-	if parser.Parse() != nil {
+	if err = parser.Parse(); err != nil {
 		return
 	}
-	valueType = getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree)
+	valueType = resolveName(trimNSPrefix(value), parser.ProtoTree)
+	if valueType == trimNSPrefix(value) {
+		return parser.includedType(valueType)
+	}
 	return
 }
+
+// includedType looks up a type in the included schemas.
+func (opt *Options) includedType(name string) (valueType string, err error) {
+	var included []interface{}
+	includes := opt.includes(nil)
+	for i := 0; i < len(includes); i++ {
+		parser := NewParser(&Options{
+			FilePath:            includes[i],
+			OutputDir:           opt.OutputDir,
+			Extract:             true,
+			Lang:                opt.Lang,
+			IncludeMap:          opt.IncludeMap,
+			LocalNameNSMap:      make(map[string]string),
+			NSSchemaLocationMap: make(map[string]string),
+			ParseFileList:       opt.ParseFileList,
+			ParseFileMap:        opt.ParseFileMap,
+			ProtoTree:           make([]interface{}, 0),
+		})
+		if err = parser.Parse(); err != nil {
+			return
+		}
+		included = append(included, parser.ProtoTree...)
+		includes = opt.includes(includes)
+	}
+	return resolveName(name, included), nil
+}
+
+// resolveName follows the simple types, elements and attributes of a schema
+// from a name to the type it stands for.
+func resolveName(name string, XSDSchema []interface{}) string {
+	for range XSDSchema {
+		base := getBasefromSimpleType(name, XSDSchema)
+		if base == "" || base == name {
+			break
+		}
+		name = base
+	}
+	return name
+}
+
+// includes appends the schemas included so far to the given list, in a fixed
+// order. Remote schemas are left out.
+func (opt *Options) includes(list []string) []string {
+	var locations []string
+	for location := range opt.IncludeMap {
+		if !isValidURL(location) {
+			locations = append(locations, location)
+		}
+	}
+	sort.Strings(locations)
+	known := map[string]bool{}
+	for _, location := range list {
+		known[location] = true
+	}
+	for _, location := range locations {
+		if !known[location] {
+			list = append(list, location)
+		}
+	}
+	return list
+}
diff --git a/schema.go b/schema.go
index 71a15a2..5d63ecd 100644
--- a/schema.go
+++ b/schema.go
@@ -10,6 +10,7 @@ package xgen
 
 import (
 	"encoding/xml"
+	"path/filepath"
 	"strings"
 )
 
@@ -42,6 +43,15 @@ func (opt *Options) popLocalNameNSMap() {
 	opt.LocalNameNSMap, opt.namespaces = opt.namespaces[last], opt.namespaces[:last]
 }
 
+// schemaPath returns the path of a schema given by its location in the schema
+// being parsed.
+func (opt *Options) schemaPath(location string) string {
+	if isValidURL(location) || filepath.IsAbs(location) {
+		return location
+	}
+	return filepath.Join(opt.FileDir, location)
+}
+
 func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 	var currentNS string
 	for _, ele := range element.Attr {
@@ -60,7 +70,7 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 				// 	continue
 				// }
 			}
-			opt.NSSchemaLocationMap[currentNS] = ele.Value
+			opt.NSSchemaLocationMap[currentNS] = opt.schemaPath(ele.Value)
 		}
 	}
 }
diff --git a/xmlInclude.go b/xmlInclude.go
index 6be1659..7593453 100644
--- a/xmlInclude.go
+++ b/xmlInclude.go
@@ -16,10 +16,11 @@ import "encoding/xml"
 func (opt *Options) OnInclude(ele xml.StartElement, protoTree []interface{}) (err error) {
 	for _, ele := range ele.Attr {
 		if ele.Name.Local == "schemaLocation" {
-			if _, ok := opt.IncludeMap[ele.Value]; ok {
+			location := opt.schemaPath(ele.Value)
+			if _, ok := opt.IncludeMap[location]; ok {
 				continue
 			}
-			opt.IncludeMap[ele.Value] = true
+			opt.IncludeMap[location] = true
 		}
 	}
 	return
-- 
2.43.0


From a340f06b3d00855fecafc12d9a5f7cf0c90e4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 31/58] fix: write the code of imported schemas at its place in
 the output directory

---
 parser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 44563a5..1c97c2c 100644
--- a/parser.go
+++ b/parser.go
@@ -162,6 +162,9 @@ func (opt *Options) Parse() (err error) {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
 		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
+		if rel, err := filepath.Rel(opt.InputDir, opt.FilePath); err == nil && !isOutside(opt.InputDir, opt.FilePath) {
+			path = filepath.Join(opt.OutputDir, rel)
+		}
 		if err := PrepareOutputDir(filepath.Dir(path)); err != nil {
 			return err
 		}
@@ -202,6 +205,13 @@ func (opt *Options) resolveBases() {
 	}
 }
 
+// isOutside tests whether a file is not in a directory, so that there is no
+// place for its code in the output directory.
+func isOutside(dir, file string) bool {
+	rel, err := filepath.Rel(dir, file)
+	return err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator))
+}
+
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
@@ -238,13 +248,19 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		return opt.includedType(trimNSPrefix(value))
 	}
 
+	inputDir := opt.InputDir
+	if inputDir == opt.FilePath {
+		inputDir = opt.FileDir
+	}
 	depXSDSchema, ok := opt.ParseFileMap[xsdFile]
 	if !ok {
 		parser := NewParser(&Options{
 			FilePath:            xsdFile,
+			InputDir:            inputDir,
 			OutputDir:           opt.OutputDir,
-			Extract:             false,
+			Extract:             isOutside(inputDir, xsdFile),
 			Lang:                opt.Lang,
+			Package:             opt.Package,
 			IncludeMap:          make(map[string]bool),
 			LocalNameNSMap:      make(map[string]string),
 			NSSchemaLocationMap: make(map[string]string),
-- 
2.43.0


From a94af1ed5842455af6ec2cdbf531fac070d272cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 32/58] fix: keep generating imported schemas without an input
 directory

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 1c97c2c..2085e7a 100644
--- a/parser.go
+++ b/parser.go
@@ -208,6 +208,9 @@ func (opt *Options) resolveBases() {
 // isOutside tests whether a file is not in a directory, so that there is no
 // place for its code in the output directory.
 func isOutside(dir, file string) bool {
+	if dir == "" && filepath.IsAbs(file) {
+		return false
+	}
 	rel, err := filepath.Rel(dir, file)
 	return err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator))
 }
-- 
2.43.0


From 79dead4e75837aae57e06069673edd08877271b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 33/58] fix: use the default output directory for an empty flag

---
 cmd/xgen/xgen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/xgen/xgen.go b/cmd/xgen/xgen.go
index ce8b0c1..bfe0c37 100644
--- a/cmd/xgen/xgen.go
+++ b/cmd/xgen/xgen.go
@@ -47,6 +47,7 @@ type Config struct {
 // Cfg are the default config for xgen. The default package name and output
 // directory are "schema" and "xgen_out".
 var Cfg = Config{
+	O:       "xgen_out",
 	Pkg:     "schema",
 	Version: "0.1.0",
 }
-- 
2.43.0


From bfccf1aba5619ea0d7d822049ac8fcf393a7aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 34/58] fix: let parsers run concurrently

---
 parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.go b/parser.go
index 2085e7a..832bc7f 100644
--- a/parser.go
+++ b/parser.go
@@ -17,6 +17,7 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+	"sync"
 
 	"golang.org/x/net/html/charset"
 )
@@ -59,6 +60,8 @@ type Options struct {
 	namespaces  []map[string]string // prefixes outside of the open elements
 }
 
+var generatorMutex sync.Mutex
+
 // NewParser creates a new parser options for the Parse. Useful for XML schema
 // parsing.
 func NewParser(options *Options) *Options {
@@ -175,6 +178,9 @@ func (opt *Options) Parse() (err error) {
 			ProtoTree: opt.ProtoTree,
 			StructAST: map[string]string{},
 		}
+		// The generators share their count of declared names.
+		generatorMutex.Lock()
+		defer generatorMutex.Unlock()
 		funcName := fmt.Sprintf("Gen%s", MakeFirstUpperCase(opt.Lang))
 		if err = callFuncByName(generator, funcName, []reflect.Value{}); err != nil {
 			return
-- 
2.43.0


From f4be95b88961d4bcf4b0d2aa09a5e21bbfd08777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 35/58] fix: give every declaration its own identifier and use
 it in references

---
 genC.go          | 15 +++++++++++----
 genGo.go         |  9 ++++++++-
 genJava.go       | 37 +++++++++++++++++++++++++++++++++++++
 genRust.go       | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 genTypeScript.go |  7 +++++++
 utils.go         | 40 ++++++++++++++++++++++++++++++++++++++++
 6 files changed, 149 insertions(+), 5 deletions(-)

diff --git a/genC.go b/genC.go
index 9a8db5d..351a531 100644
--- a/genC.go
+++ b/genC.go
@@ -38,6 +38,7 @@ var cBuildInType = map[string]bool{
 // files.
 func (gen *CodeGenerator) GenC() error {
 	fieldNameCount = make(map[string]int)
+	declareNames(gen.ProtoTree, nil, func(ele interface{}, name string) string { return genCFieldName(name, false) })
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
 			continue
@@ -75,6 +76,9 @@ func genCFieldName(name string, unique bool) (fieldName string) {
 	}
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
+	if identifier, ok := declaredNames[name]; unique && ok {
+		return identifier
+	}
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
@@ -88,6 +92,9 @@ func genCFieldType(name string) string {
 	if _, ok := cBuildInType[name]; ok {
 		return name
 	}
+	if identifier, ok := declaredNames[name]; ok {
+		return identifier
+	}
 	var fieldType string
 	for _, str := range strings.Split(name, ".") {
 		fieldType += MakeFirstUpperCase(str)
@@ -105,7 +112,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.List {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			fieldType, _ := innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))
-			content := fmt.Sprintf("%s %s[];\n", genCFieldType(fieldType), genCFieldName(v.Name, false))
+			content := fmt.Sprintf("%s %s[];\n", fieldType, genCFieldName(v.Name, true))
 			gen.StructAST[v.Name] = content
 			fieldName := genCFieldName(v.Name, true)
 			gen.Field += fmt.Sprintf("%stypedef %s", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
@@ -142,7 +149,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree))); ok {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, true), plural)
 		fieldName := genCFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
@@ -259,7 +266,7 @@ func (gen *CodeGenerator) CElement(v *Element) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, true), plural)
 		gen.Field += fmt.Sprintf("\ntypedef %s;\n", gen.StructAST[v.Name])
 	}
 }
@@ -272,7 +279,7 @@ func (gen *CodeGenerator) CAttribute(v *Attribute) {
 		if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))); ok || v.Plural {
 			plural = "[]"
 		}
-		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, false), plural)
+		gen.StructAST[v.Name] = fmt.Sprintf("%s %s%s", fieldType, genCFieldName(v.Name, true), plural)
 		fieldName := genCFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stypedef %s;\n", genFieldComment(fieldName, v.Doc, "//"), gen.StructAST[v.Name])
 	}
diff --git a/genGo.go b/genGo.go
index d113f58..5fe4717 100644
--- a/genGo.go
+++ b/genGo.go
@@ -67,6 +67,7 @@ var (
 // definition files.
 func (gen *CodeGenerator) GenGo() error {
 	fieldNameCount = make(map[string]int)
+	declareNames(gen.ProtoTree, nil, func(ele interface{}, name string) string { return genGoFieldName(name, false) })
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
 			continue
@@ -117,6 +118,9 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 	}
 	fieldName = tmp
 	fieldName = strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1)
+	if identifier, ok := declaredNames[name]; unique && ok {
+		return identifier
+	}
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
@@ -130,6 +134,9 @@ func genGoFieldType(name string) string {
 	if _, ok := goBuildinType[name]; ok {
 		return name
 	}
+	if identifier, ok := declaredNames[name]; ok {
+		return "*" + identifier
+	}
 	var fieldType string
 	for _, str := range strings.Split(name, ".") {
 		fieldType += MakeFirstUpperCase(str)
@@ -327,7 +334,7 @@ func (gen *CodeGenerator) GoElement(v *Element) {
 		}
 		content := fmt.Sprintf("\t%s%s\n", plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree)))
 		gen.StructAST[v.Name] = content
-		fieldName := genGoFieldName(v.Name, false)
+		fieldName := genGoFieldName(v.Name, true)
 		gen.Field += fmt.Sprintf("%stype %s%s", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
diff --git a/genJava.go b/genJava.go
index 2cc2a38..3ce76fa 100644
--- a/genJava.go
+++ b/genJava.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"regexp"
 	"strings"
 )
 
@@ -29,10 +30,37 @@ var javaBuildInType = map[string]bool{
 	"Long":         true,
 }
 
+// javaReservedNames are the imported and predeclared names that types may not
+// have.
+var javaReservedNames = map[string]bool{
+	"Boolean":         true,
+	"Byte":            true,
+	"Character":       true,
+	"Float":           true,
+	"Integer":         true,
+	"Short":           true,
+	"String":          true,
+	"QName":           true,
+	"Long":            true,
+	"List":            true,
+	"ArrayList":       true,
+	"XmlAccessType":   true,
+	"XmlAccessorType": true,
+	"XmlAttribute":    true,
+	"XmlElement":      true,
+	"XmlSchemaType":   true,
+	"XmlType":         true,
+	"XmlValue":        true,
+}
+
+// javaQName is a use of the type in a member.
+var javaQName = regexp.MustCompile("(?m)^\tprotected \\S*\\bQName\\b")
+
 // GenJava generate Java programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenJava() error {
 	fieldNameCount = make(map[string]int)
+	declareNames(gen.ProtoTree, javaReservedNames, func(ele interface{}, name string) string { return genJavaFieldName(name, false) })
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
 			continue
@@ -58,6 +86,9 @@ import javax.xml.bind.annotation.XmlElement;
 import javax.xml.bind.annotation.XmlSchemaType;
 import javax.xml.bind.annotation.XmlType;
 import javax.xml.bind.annotation.XmlValue;`
+	if javaQName.MatchString(gen.Field) {
+		importPackage += "\nimport javax.xml.namespace.QName;"
+	}
 
 	_, err = f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
 	if closeErr := f.Close(); err == nil {
@@ -76,6 +107,9 @@ func genJavaFieldName(name string, unique bool) (fieldName string) {
 	}
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
+	if identifier, ok := declaredNames[name]; unique && ok {
+		return identifier
+	}
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
@@ -89,6 +123,9 @@ func genJavaFieldType(name string) string {
 	if _, ok := javaBuildInType[name]; ok {
 		return name
 	}
+	if identifier, ok := declaredNames[name]; ok {
+		return identifier
+	}
 	var fieldType string
 	for _, str := range strings.Split(name, ".") {
 		fieldType += MakeFirstUpperCase(str)
diff --git a/genRust.go b/genRust.go
index 91b9dff..17b95a1 100644
--- a/genRust.go
+++ b/genRust.go
@@ -38,6 +38,30 @@ var (
 		"char":        true,
 		"String":      true,
 	}
+	// rustReservedNames are the names that types may not have.
+	rustReservedNames = map[string]bool{
+		"Self":   true,
+		"Option": true,
+		"Vec":    true,
+		"String": true,
+		"bool":   true,
+		"char":   true,
+		"i8":     true,
+		"i16":    true,
+		"i32":    true,
+		"i64":    true,
+		"i128":   true,
+		"isize":  true,
+		"u8":     true,
+		"u16":    true,
+		"u32":    true,
+		"u64":    true,
+		"u128":   true,
+		"usize":  true,
+		"f32":    true,
+		"f64":    true,
+		"str":    true,
+	}
 	rustKeywords = map[string]bool{
 		"as":       true,
 		"break":    true,
@@ -97,6 +121,13 @@ var (
 // definition files.
 func (gen *CodeGenerator) GenRust() error {
 	fieldNameCount = make(map[string]int)
+	declareNames(gen.ProtoTree, rustReservedNames, func(ele interface{}, name string) string {
+		switch ele.(type) {
+		case *Element, *Attribute:
+			return genRustFieldName(name)
+		}
+		return genRustStructName(name, false)
+	})
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
 			continue
@@ -151,6 +182,9 @@ func genRustStructName(name string, unique bool) (structName string) {
 	}
 	structName = tmp
 	structName = strings.NewReplacer("-", "", "_", "").Replace(structName)
+	if identifier, ok := declaredNames[name]; unique && ok {
+		return identifier
+	}
 	if unique {
 		fieldNameCount[structName]++
 		if count := fieldNameCount[structName]; count != 1 {
@@ -166,6 +200,9 @@ func genRustFieldType(name string) string {
 		return name
 	}
 	fieldType := genRustStructName(name, false)
+	if identifier, ok := declaredNames[name]; ok {
+		return identifier
+	}
 	if fieldType != "" {
 		return fieldType
 	}
@@ -295,6 +332,9 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		}
 		gen.StructAST[v.Name] = content
 		fieldName := genRustStructName(v.Name, true)
+		if identifier, ok := declaredNames[v.Name]; ok {
+			fieldName = identifier
+		}
 		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
@@ -331,6 +371,9 @@ func (gen *CodeGenerator) RustElement(v *Element) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
+		if identifier, ok := declaredNames[v.Name]; ok {
+			fieldName = identifier
+		}
 		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
@@ -345,6 +388,9 @@ func (gen *CodeGenerator) RustAttribute(v *Attribute) {
 		} else {
 			gen.StructAST[v.Name] = fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", v.Name, fieldName, fieldType)
 		}
+		if identifier, ok := declaredNames[v.Name]; ok {
+			fieldName = identifier
+		}
 		gen.Field += fmt.Sprintf("\n%s#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genFieldComment(fieldName, v.Doc, "//"), fieldName, gen.StructAST[v.Name])
 	}
 }
diff --git a/genTypeScript.go b/genTypeScript.go
index 2345e9d..b78432d 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -31,6 +31,7 @@ var typeScriptBuildInType = map[string]bool{
 // schema definition files.
 func (gen *CodeGenerator) GenTypeScript() error {
 	fieldNameCount = make(map[string]int)
+	declareNames(gen.ProtoTree, nil, func(ele interface{}, name string) string { return genTypeScriptFieldName(name, false) })
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
 			continue
@@ -62,6 +63,9 @@ func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
 	}
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
+	if identifier, ok := declaredNames[name]; unique && ok {
+		return identifier
+	}
 	if unique {
 		fieldNameCount[fieldName]++
 		if count := fieldNameCount[fieldName]; count != 1 {
@@ -86,6 +90,9 @@ func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 	if fieldType == "" || fieldType == "Any" {
 		fieldType = "any"
 	}
+	if identifier, ok := declaredNames[name]; ok {
+		fieldType = identifier
+	}
 	if plural {
 		fieldType = fmt.Sprintf("Array<%s>", fieldType)
 	}
diff --git a/utils.go b/utils.go
index ca7e856..b638c66 100644
--- a/utils.go
+++ b/utils.go
@@ -28,6 +28,7 @@ var (
 	matchFirstCap  = regexp.MustCompile("([A-Z])([A-Z][a-z])")
 	matchAllCap    = regexp.MustCompile("([a-z0-9])([A-Z])")
 	fieldNameCount map[string]int
+	declaredNames  map[string]string // identifiers of the declared components
 )
 
 // ToSnakeCase converts the provided string to snake_case.
@@ -271,6 +272,45 @@ func fetchSchema(URL string) ([]byte, error) {
 	return body, err
 }
 
+// declareNames gives each component of the proto tree its own identifier: a
+// later one whose identifier is taken, or is reserved in the language, gets a
+// numeric suffix.
+func declareNames(protoTree []interface{}, reserved map[string]bool, identifier func(ele interface{}, name string) string) {
+	declaredNames = make(map[string]string)
+	taken := make(map[string]bool)
+	for _, ele := range protoTree {
+		name := componentName(ele)
+		if _, ok := declaredNames[name]; ok || name == "" {
+			continue
+		}
+		base := identifier(ele, name)
+		unique := base
+		for count := 2; taken[unique] || reserved[unique]; count++ {
+			unique = fmt.Sprintf("%s%d", base, count)
+		}
+		taken[unique] = true
+		declaredNames[name] = unique
+	}
+}
+
+func componentName(ele interface{}) string {
+	switch v := ele.(type) {
+	case *SimpleType:
+		return v.Name
+	case *ComplexType:
+		return v.Name
+	case *Element:
+		return v.Name
+	case *Attribute:
+		return v.Name
+	case *Group:
+		return v.Name
+	case *AttributeGroup:
+		return v.Name
+	}
+	return ""
+}
+
 func genFieldComment(name, doc, prefix string) string {
 	docReplacer := strings.NewReplacer("\n", fmt.Sprintf("\r\n%s ", prefix), "\t", "")
 	if doc == "" {
-- 
2.43.0


From c29f4e1ee474b653cd02c9c23b51b46f53f9562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 36/58] fix: quote TypeScript enumeration names that are no
 identifiers

---
 genTypeScript.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index b78432d..bcd13ab 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -12,6 +12,8 @@ import (
 	"fmt"
 	"os"
 	"reflect"
+	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -27,6 +29,11 @@ var typeScriptBuildInType = map[string]bool{
 	"Uint8Array":    true,
 }
 
+var (
+	tsIdentifier    = regexp.MustCompile("^[\\pL_$][\\pL\\p{Nd}_$]*$")
+	tsStringEscaper = strings.NewReplacer("\\", "\\\\", "'", "\\'", "\n", "\\n", "\r", "\\r", "\u2028", "\\u2028", "\u2029", "\\u2029")
+)
+
 // GenTypeScript generate TypeScript programming language source code for XML
 // schema definition files.
 func (gen *CodeGenerator) GenTypeScript() error {
@@ -75,6 +82,18 @@ func genTypeScriptFieldName(name string, unique bool) (fieldName string) {
 	return
 }
 
+// genTypeScriptEnumName makes a name of an enumeration member, which is quoted
+// unless it is an identifier, and may not be a number.
+func genTypeScriptEnumName(name string) string {
+	if tsIdentifier.MatchString(name) {
+		return name
+	}
+	if _, err := strconv.ParseFloat(name, 64); err == nil || name == "" {
+		return genTypeScriptEnumName("Enum" + name)
+	}
+	return "'" + tsStringEscaper.Replace(name) + "'"
+}
+
 func genTypeScriptFieldType(name string, plural bool) (fieldType string) {
 	if _, ok := typeScriptBuildInType[name]; ok {
 		fieldType = name
@@ -137,11 +156,11 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 		for _, enum := range v.Restriction.Enum {
 			switch baseType {
 			case "string":
-				content += fmt.Sprintf("\t%s = '%s',\n", enum, enum)
+				content += fmt.Sprintf("\t%s = '%s',\n", genTypeScriptEnumName(enum), tsStringEscaper.Replace(enum))
 			case "number":
-				content += fmt.Sprintf("\tEnum%s = %s,\n", enum, enum)
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+enum), strings.Replace(enum, "INF", "Infinity", 1))
 			default:
-				content += fmt.Sprintf("\tEnum%s = '%s',\n", enum, enum)
+				content += fmt.Sprintf("\t%s = '%s',\n", genTypeScriptEnumName("Enum"+enum), tsStringEscaper.Replace(enum))
 			}
 		}
 		fieldName := genTypeScriptFieldName(v.Name, true)
-- 
2.43.0


From 9021c42025291eb82334d4e711fc4fc3251b7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:38 +0000
Subject: [PATCH 37/58] fix: read UTF-16 documents

---
 parser.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 832bc7f..f3be3d4 100644
--- a/parser.go
+++ b/parser.go
@@ -9,6 +9,7 @@
 package xgen
 
 import (
+	"bufio"
 	"encoding/xml"
 	"fmt"
 	"io"
@@ -114,8 +115,10 @@ func (opt *Options) Parse() (err error) {
 		opt.LocalNameNSMap, opt.namespaces = opt.namespaces[0], nil
 	}
 
-	decoder := xml.NewDecoder(xmlFile)
-	decoder.CharsetReader = charset.NewReaderLabel
+	var decoder *xml.Decoder
+	if decoder, err = newDecoder(xmlFile); err != nil {
+		return
+	}
 	for {
 		token, tokenErr := decoder.Token()
 		if token == nil {
@@ -189,6 +192,27 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// newDecoder creates a decoder for a document in any supported encoding. UTF-16
+// is recognized by the byte order mark it requires.
+func newDecoder(file io.Reader) (decoder *xml.Decoder, err error) {
+	var input io.Reader = bufio.NewReader(file)
+	start, _ := input.(*bufio.Reader).Peek(2)
+	label := map[string]string{"\xfe\xff": "utf-16be", "\xff\xfe": "utf-16le"}[string(start)]
+	if label != "" {
+		if input, err = charset.NewReaderLabel(label, input); err != nil {
+			return
+		}
+	}
+	decoder = xml.NewDecoder(input)
+	decoder.CharsetReader = charset.NewReaderLabel
+	if label != "" {
+		decoder.CharsetReader = func(_ string, input io.Reader) (io.Reader, error) {
+			return input, nil
+		}
+	}
+	return
+}
+
 // resolveBases resolves the bases of complex types that are simple types
 // declared further down in the document.
 func (opt *Options) resolveBases() {
-- 
2.43.0


From 271740125b04aed87945c23aa034d1c5f655a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:53 +0000
Subject: [PATCH 38/58] fix: ignore white space around attribute values

---
 xmlAnnotation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xmlAnnotation.go b/xmlAnnotation.go
index 162e981..728d36d 100644
--- a/xmlAnnotation.go
+++ b/xmlAnnotation.go
@@ -47,6 +47,13 @@ func (scope *annotationScope) enter(element *xml.StartElement) bool {
 	for _, attr := range element.Attr {
 		// Attributes of other namespaces are not part of the schema.
 		if attr.Name.Space == "" || attr.Name.Space == "xmlns" {
+			// All values but these are tokens, white space around them
+			// does not count.
+			switch attr.Name.Local {
+			case "value", "default", "fixed":
+			default:
+				attr.Value = strings.Join(strings.Fields(attr.Value), " ")
+			}
 			attrs = append(attrs, attr)
 		}
 	}
-- 
2.43.0


From 2f66f3c2090eb46190d68b59d7669f5548cb0aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 39/58] fix: compare maxOccurs as a number of any size

---
 utils.go      | 14 ++++++++++++++
 xmlChoice.go  | 15 +++------------
 xmlElement.go |  7 +------
 xmlGroup.go   |  4 ++--
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/utils.go b/utils.go
index b638c66..93e6c4f 100644
--- a/utils.go
+++ b/utils.go
@@ -11,6 +11,7 @@ package xgen
 import (
 	"fmt"
 	"io/ioutil"
+	"math/big"
 	"net/http"
 	"net/url"
 	"os"
@@ -169,6 +170,19 @@ func getBasefromSimpleType(name string, XSDSchema []interface{}) string {
 	return name
 }
 
+// isRepeated tests whether a value of maxOccurs, a number of any size or
+// unbounded, is greater than one.
+func isRepeated(maxOccurs string) (bool, error) {
+	if maxOccurs == "unbounded" {
+		return true, nil
+	}
+	count, ok := new(big.Int).SetString(maxOccurs, 10)
+	if !ok {
+		return false, fmt.Errorf("invalid maxOccurs %q", maxOccurs)
+	}
+	return count.Cmp(big.NewInt(1)) > 0, nil
+}
+
 func getNSPrefix(str string) (ns string) {
 	split := strings.Split(str, ":")
 	if len(split) == 2 {
diff --git a/xmlChoice.go b/xmlChoice.go
index 539ad9a..33f29b9 100644
--- a/xmlChoice.go
+++ b/xmlChoice.go
@@ -8,10 +8,7 @@
 
 package xgen
 
-import (
-	"encoding/xml"
-	"strconv"
-)
+import "encoding/xml"
 
 // OnChoice handles parsing event on the choice start elements. The
 // choice element defines that one and only one of the contained element can be present within
@@ -20,15 +17,9 @@ func (opt *Options) OnChoice(ele xml.StartElement, protoTree []interface{}) (err
 	choice := Choice{}
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "maxOccurs" {
-			var maxOccurs int
-			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+			if choice.Plural, err = isRepeated(attr.Value); err != nil {
 				return
 			}
-			if attr.Value == "unbounded" || maxOccurs > 1 {
-				choice.Plural, err = true, nil
-			} else {
-				choice.Plural, err = false, nil
-			}
 		}
 	}
 	// Handle a case of a parent choice having plurality that children should inherit
@@ -46,4 +37,4 @@ func (opt *Options) EndChoice(ele xml.EndElement, protoTree []interface{}) (err
 	opt.Choice.Pop()
 
 	return
-}
\ No newline at end of file
+}
diff --git a/xmlElement.go b/xmlElement.go
index a149821..010878e 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -10,7 +10,6 @@ package xgen
 
 import (
 	"encoding/xml"
-	"strconv"
 )
 
 // elementScope describes an element declaration being parsed.
@@ -46,13 +45,9 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 			}
 		}
 		if attr.Name.Local == "maxOccurs" {
-			var maxOccurs int
-			if maxOccurs, err = strconv.Atoi(attr.Value); attr.Value != "unbounded" && err != nil {
+			if e.Plural, err = isRepeated(attr.Value); err != nil {
 				return
 			}
-			if attr.Value == "unbounded" || maxOccurs > 1 {
-				e.Plural, err = true, nil
-			}
 		}
 		if attr.Name.Local == "unbounded" {
 			if attr.Value != "0" {
diff --git a/xmlGroup.go b/xmlGroup.go
index bf3e2cb..77fa79b 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -27,8 +27,8 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			}
 		}
 		if attr.Name.Local == "maxOccurs" {
-			if attr.Value != "0" && attr.Value != "1" {
-				group.Plural = true
+			if group.Plural, err = isRepeated(attr.Value); err != nil {
+				return
 			}
 		}
 	}
-- 
2.43.0


From b71c6526f06361690301572d7c143d012871cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 40/58] fix: take the base of an inline simple type as resolved

The types of elements and attributes with an inline simple type were resolved
a second time, so that a declared type named as a built-in type of XML Schema
was taken for the latter.
---
 xmlEnumeration.go    | 8 ++------
 xmlExtension.go      | 5 +----
 xmlFractionDigits.go | 4 +---
 xmlLength.go         | 4 +---
 xmlMaxExclusive.go   | 4 +---
 xmlMaxInclusive.go   | 4 +---
 xmlMaxLength.go      | 4 +---
 xmlMinExclusive.go   | 4 +---
 xmlMinInclusive.go   | 4 +---
 xmlMinLength.go      | 4 +---
 xmlPattern.go        | 9 ++-------
 xmlRestriction.go    | 5 +----
 xmlTotalDigits.go    | 4 +---
 xmlWhiteSpace.go     | 4 +---
 14 files changed, 16 insertions(+), 51 deletions(-)

diff --git a/xmlEnumeration.go b/xmlEnumeration.go
index 5bebc70..76f3d08 100644
--- a/xmlEnumeration.go
+++ b/xmlEnumeration.go
@@ -26,15 +26,11 @@ func (opt *Options) OnEnumeration(ele xml.StartElement, protoTree []interface{})
 // Enumeration defines a list of acceptable values.
 func (opt *Options) EndEnumeration(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		if opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Peek().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Peek().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Peek().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Peek().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlExtension.go b/xmlExtension.go
index 2838d52..6cb88bd 100644
--- a/xmlExtension.go
+++ b/xmlExtension.go
@@ -35,10 +35,7 @@ func (opt *Options) OnExtension(ele xml.StartElement, protoTree []interface{}) (
 // EndExtension handles parsing event on the extension end elements.
 func (opt *Options) EndExtension(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
+		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlFractionDigits.go b/xmlFractionDigits.go
index bbc87e9..f322cb2 100644
--- a/xmlFractionDigits.go
+++ b/xmlFractionDigits.go
@@ -16,9 +16,7 @@ import "encoding/xml"
 // than zero.
 func (opt *Options) EndFractionDigits(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlLength.go b/xmlLength.go
index d091fc3..38226ab 100644
--- a/xmlLength.go
+++ b/xmlLength.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // equal to or greater than zero.
 func (opt *Options) EndLength(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMaxExclusive.go b/xmlMaxExclusive.go
index d8c4d78..441aa83 100644
--- a/xmlMaxExclusive.go
+++ b/xmlMaxExclusive.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // be less than this value).
 func (opt *Options) EndMaxExclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMaxInclusive.go b/xmlMaxInclusive.go
index d50fac9..1740a7b 100644
--- a/xmlMaxInclusive.go
+++ b/xmlMaxInclusive.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // be less than or equal to this value).
 func (opt *Options) EndMaxInclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMaxLength.go b/xmlMaxLength.go
index c0ee22e..588c2f3 100644
--- a/xmlMaxLength.go
+++ b/xmlMaxLength.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // equal to or greater than zero.
 func (opt *Options) EndMaxLength(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMinExclusive.go b/xmlMinExclusive.go
index 1f46897..819007d 100644
--- a/xmlMinExclusive.go
+++ b/xmlMinExclusive.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // be greater than this value).
 func (opt *Options) EndMinExclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMinInclusive.go b/xmlMinInclusive.go
index a9bd4f0..2baac2b 100644
--- a/xmlMinInclusive.go
+++ b/xmlMinInclusive.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // be greater than or equal to this value).
 func (opt *Options) EndMinInclusive(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlMinLength.go b/xmlMinLength.go
index b60ea67..71dca42 100644
--- a/xmlMinLength.go
+++ b/xmlMinLength.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // equal to or greater than zero.
 func (opt *Options) EndMinLength(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlPattern.go b/xmlPattern.go
index 53d63ce..6f24fcb 100644
--- a/xmlPattern.go
+++ b/xmlPattern.go
@@ -14,16 +14,11 @@ import "encoding/xml"
 // defines the exact sequence of characters that are acceptable.
 func (opt *Options) EndPattern(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
+		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlRestriction.go b/xmlRestriction.go
index bee0ee1..81a7e9a 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -35,10 +35,7 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 // EndRestriction handles parsing event on the restriction end elements.
 func (opt *Options) EndRestriction(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.Attribute.Len() > 0 && opt.SimpleType.Peek() != nil {
-		opt.Attribute.Peek().(*Attribute).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree)
-		if err != nil {
-			return
-		}
+		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	if !opt.Element.Empty() && opt.simpleTypes > 0 {
diff --git a/xmlTotalDigits.go b/xmlTotalDigits.go
index ae4e7de..014ddeb 100644
--- a/xmlTotalDigits.go
+++ b/xmlTotalDigits.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // than zero.
 func (opt *Options) EndTotalDigits(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
diff --git a/xmlWhiteSpace.go b/xmlWhiteSpace.go
index 4ec2b78..60bc71c 100644
--- a/xmlWhiteSpace.go
+++ b/xmlWhiteSpace.go
@@ -15,9 +15,7 @@ import "encoding/xml"
 // carriage returns) is handled.
 func (opt *Options) EndWhiteSpace(ele xml.EndElement, protoTree []interface{}) (err error) {
 	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 {
-		if opt.Element.Peek().(*Element).Type, err = opt.GetValueType(opt.SimpleType.Pop().(*SimpleType).Base, opt.ProtoTree); err != nil {
-			return
-		}
+		opt.Element.Peek().(*Element).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
 	return
-- 
2.43.0


From f8345fdb4a95a6770eebb5dab085e674422761b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 41/58] fix: take names of no namespace not for built-in types

A type of a schema without a target namespace may have the name of a built-in
type.
---
 schema.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/schema.go b/schema.go
index 5d63ecd..9e54392 100644
--- a/schema.go
+++ b/schema.go
@@ -76,10 +76,9 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 }
 
 // isBuildInNS tests whether a name may be one of XML Schema: its prefix stands
-// for the namespace of XML Schema or for none.
+// for the namespace of XML Schema.
 func (opt *Options) isBuildInNS(str string) bool {
-	ns := opt.parseNS(str)
-	return ns == "" || strings.Contains(ns, "/XMLSchema")
+	return strings.Contains(opt.parseNS(str), "/XMLSchema")
 }
 
 func (opt *Options) parseNS(str string) (ns string) {
-- 
2.43.0


From 1cb0255da2ac76ad49d5f0278d91b807bb663727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:35 +0000
Subject: [PATCH 42/58] fix: read imports whatever the order of their
 attributes

---
 schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema.go b/schema.go
index 9e54392..dcd00e8 100644
--- a/schema.go
+++ b/schema.go
@@ -58,6 +58,8 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 		if ele.Name.Local == "namespace" {
 			currentNS = ele.Value
 		}
+	}
+	for _, ele := range element.Attr {
 		if ele.Name.Local == "schemaLocation" {
 			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
 				continue
-- 
2.43.0


From d1a5fa3eb8fea4e27177c30332af6e7f755ac301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:58 +0000
Subject: [PATCH 43/58] fix: report a read error at the beginning of a document

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index f3be3d4..ba73e12 100644
--- a/parser.go
+++ b/parser.go
@@ -196,7 +196,10 @@ func (opt *Options) Parse() (err error) {
 // is recognized by the byte order mark it requires.
 func newDecoder(file io.Reader) (decoder *xml.Decoder, err error) {
 	var input io.Reader = bufio.NewReader(file)
-	start, _ := input.(*bufio.Reader).Peek(2)
+	start, peekErr := input.(*bufio.Reader).Peek(2)
+	if peekErr != nil && peekErr != io.EOF {
+		return nil, peekErr
+	}
 	label := map[string]string{"\xfe\xff": "utf-16be", "\xff\xfe": "utf-16le"}[string(start)]
 	if label != "" {
 		if input, err = charset.NewReaderLabel(label, input); err != nil {
-- 
2.43.0


From ae37dc323bfd7c01869f35b55d3f73ab2a7c8be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:29 +0000
Subject: [PATCH 44/58] fix: keep repeated unsigned bytes apart in Go

---
 genGo.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/genGo.go b/genGo.go
index 5fe4717..fc7ff95 100644
--- a/genGo.go
+++ b/genGo.go
@@ -234,10 +234,14 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 
 		for _, element := range v.Elements {
 			var plural string
+			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			if element.Plural {
 				plural = "[]"
+				if fieldType == "uint8" {
+					// A slice of bytes is the text of a single element.
+					plural = "[]*"
+				}
 			}
-			fieldType := genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-- 
2.43.0


From 1234f2c8bfa3c2182b0cb376d0a71a891fa8d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:01 +0000
Subject: [PATCH 45/58] fix: find the base of a TypeScript enumeration through
 types declared later

---
 genTypeScript.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index bcd13ab..c168a0e 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -152,7 +152,7 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 	}
 	if len(v.Restriction.Enum) > 0 {
 		var content string
-		baseType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree), false)
+		baseType := genTypeScriptFieldType(resolveName(trimNSPrefix(v.Base), gen.ProtoTree), false)
 		for _, enum := range v.Restriction.Enum {
 			switch baseType {
 			case "string":
-- 
2.43.0


From ae15599517273f48c3297a5e7d82133f65ca7b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:25 +0000
Subject: [PATCH 46/58] fix: give the members of a declaration distinct names

---
 genC.go          | 22 +++++++++++++---------
 genGo.go         | 27 ++++++++++++++++++---------
 genJava.go       | 22 +++++++++++++---------
 genRust.go       | 31 ++++++++++++++++++++-----------
 genTypeScript.go | 25 ++++++++++++++++---------
 utils.go         | 14 ++++++++++++++
 6 files changed, 94 insertions(+), 47 deletions(-)

diff --git a/genC.go b/genC.go
index 351a531..1b16f1d 100644
--- a/genC.go
+++ b/genC.go
@@ -122,6 +122,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 	if v.Union && len(v.MemberTypes) > 0 {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			content := "struct {\n"
+			members := memberNames{}
 			for _, member := range toSortedPairs(v.MemberTypes) {
 				memberName := member.key
 				memberType := member.value
@@ -134,7 +135,7 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 				if fieldType, ok = innerArray(genCFieldType(memberType)); ok {
 					plural = "[]"
 				}
-				content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(memberName, false), plural)
+				content += fmt.Sprintf("\t%s %s%s;\n", fieldType, members.distinct(genCFieldName(memberName, false)), plural)
 			}
 			content += "}"
 			gen.StructAST[v.Name] = content
@@ -160,9 +161,10 @@ func (gen *CodeGenerator) CSimpleType(v *SimpleType) {
 func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
+		members := memberNames{}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), genCFieldName(attrGroup.Name, false))
+			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), members.distinct(genCFieldName(attrGroup.Name, false)))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -175,7 +177,7 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))); ok {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %sAttr%s; // attr%s\n", fieldType, genCFieldName(attribute.Name, false), plural, optional)
+			content += fmt.Sprintf("\t%s %s%s; // attr%s\n", fieldType, members.distinct(genCFieldName(attribute.Name, false)+"Attr"), plural, optional)
 		}
 
 		for _, group := range v.Groups {
@@ -183,7 +185,7 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), genCFieldName(group.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), members.distinct(genCFieldName(group.Name, false)), plural)
 		}
 
 		for _, element := range v.Elements {
@@ -192,7 +194,7 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(element.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, members.distinct(genCFieldName(element.Name, false)), plural)
 		}
 		// TODO: Implement handling of v.Base for the cases of the type being a built-in one and
 		// the case of inheritance/embedding
@@ -207,13 +209,14 @@ func (gen *CodeGenerator) CComplexType(v *ComplexType) {
 func (gen *CodeGenerator) CGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
+		members := memberNames{}
 		for _, element := range v.Elements {
 			var plural, fieldType string
 			var ok bool
 			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))); ok || element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, genCFieldName(element.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", fieldType, members.distinct(genCFieldName(element.Name, false)), plural)
 		}
 
 		for _, group := range v.Groups {
@@ -221,7 +224,7 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), genCFieldName(group.Name, false), plural)
+			content += fmt.Sprintf("\t%s %s%s;\n", genCFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)), members.distinct(genCFieldName(group.Name, false)), plural)
 		}
 
 		content += "}"
@@ -236,9 +239,10 @@ func (gen *CodeGenerator) CGroup(v *Group) {
 func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := "struct {\n"
+		members := memberNames{}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), genCFieldName(attrGroup.Name, false))
+			content += fmt.Sprintf("\t%s %s;\n", genCFieldType(fieldType), members.distinct(genCFieldName(attrGroup.Name, false)))
 		}
 		for _, attribute := range v.Attributes {
 			var optional, plural, fieldType string
@@ -249,7 +253,7 @@ func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 			if fieldType, ok = innerArray(genCFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))); ok {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s %sAttr%s; // attr%s\n", fieldType, genCFieldName(attribute.Name, false), plural, optional)
+			content += fmt.Sprintf("\t%s %s%s; // attr%s\n", fieldType, members.distinct(genCFieldName(attribute.Name, false)+"Attr"), plural, optional)
 		}
 		content += "}"
 		gen.StructAST[v.Name] = content
diff --git a/genGo.go b/genGo.go
index fc7ff95..7fbb667 100644
--- a/genGo.go
+++ b/genGo.go
@@ -167,6 +167,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 	if v.Union && len(v.MemberTypes) > 0 {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			content := " struct {\n"
+			members := memberNames{"XMLName": true}
 			fieldName := genGoFieldName(v.Name, true)
 			if fieldName != v.Name {
 				gen.ImportEncodingXML = true
@@ -179,7 +180,7 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
-				content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(memberName, false), genGoFieldType(memberType))
+				content += fmt.Sprintf("\t%s\t%s\n", members.distinct(genGoFieldName(memberName, false)), genGoFieldType(memberType))
 			}
 			content += "}\n"
 			gen.StructAST[v.Name] = content
@@ -200,6 +201,12 @@ func (gen *CodeGenerator) GoSimpleType(v *SimpleType) {
 func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " struct {\n"
+		members := memberNames{"XMLName": true}
+		if isGoBuiltInType(v.Base) {
+			members["Value"] = true
+		} else if len(v.Base) > 0 {
+			members[strings.TrimPrefix(genGoFieldType(v.Base), "*")] = true
+		}
 		fieldName := genGoFieldName(v.Name, true)
 		if fieldName != v.Name {
 			gen.ImportEncodingXML = true
@@ -210,7 +217,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), genGoFieldType(fieldType))
+			content += fmt.Sprintf("\t%s\t%s\n", members.distinct(genGoFieldName(attrGroup.Name, false)), genGoFieldType(fieldType))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -222,14 +229,14 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), fieldType, trimNSPrefix(attribute.Name), optional)
+			content += fmt.Sprintf("\t%s\t%s\t`xml:\"%s,attr%s\"`\n", members.distinct(genGoFieldName(attribute.Name, false)+"Attr"), fieldType, trimNSPrefix(attribute.Name), optional)
 		}
 		for _, group := range v.Groups {
 			var plural string
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", members.distinct(genGoFieldName(group.Name, false)), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
 		}
 
 		for _, element := range v.Elements {
@@ -245,7 +252,7 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", genGoFieldName(element.Name, false), plural, fieldType, trimNSPrefix(element.Name))
+			content += fmt.Sprintf("\t%s\t%s%s\t`xml:\"%s\"`\n", members.distinct(genGoFieldName(element.Name, false)), plural, fieldType, trimNSPrefix(element.Name))
 		}
 		if len(v.Base) > 0 {
 			// If the type is a built-in type, generate a Value field as chardata.
@@ -272,6 +279,7 @@ func isGoBuiltInType(typeName string) bool {
 func (gen *CodeGenerator) GoGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " struct {\n"
+		members := memberNames{"XMLName": true}
 		fieldName := genGoFieldName(v.Name, true)
 		if fieldName != v.Name {
 			gen.ImportEncodingXML = true
@@ -282,7 +290,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 			if element.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(element.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", members.distinct(genGoFieldName(element.Name, false)), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree)))
 		}
 
 		for _, group := range v.Groups {
@@ -290,7 +298,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 			if group.Plural {
 				plural = "[]"
 			}
-			content += fmt.Sprintf("\t%s\t%s%s\n", genGoFieldName(group.Name, false), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
+			content += fmt.Sprintf("\t%s\t%s%s\n", members.distinct(genGoFieldName(group.Name, false)), plural, genGoFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree)))
 		}
 
 		content += "}\n"
@@ -304,6 +312,7 @@ func (gen *CodeGenerator) GoGroup(v *Group) {
 func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " struct {\n"
+		members := memberNames{"XMLName": true}
 		fieldName := genGoFieldName(v.Name, true)
 		if fieldName != v.Name {
 			gen.ImportEncodingXML = true
@@ -314,14 +323,14 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 			if fieldType == "time.Time" {
 				gen.ImportTime = true
 			}
-			content += fmt.Sprintf("\t%s\t%s\n", genGoFieldName(attrGroup.Name, false), genGoFieldType(fieldType))
+			content += fmt.Sprintf("\t%s\t%s\n", members.distinct(genGoFieldName(attrGroup.Name, false)), genGoFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
 				optional = `,omitempty`
 			}
-			content += fmt.Sprintf("\t%sAttr\t%s\t`xml:\"%s,attr%s\"`\n", genGoFieldName(attribute.Name, false), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), trimNSPrefix(attribute.Name), optional)
+			content += fmt.Sprintf("\t%s\t%s\t`xml:\"%s,attr%s\"`\n", members.distinct(genGoFieldName(attribute.Name, false)+"Attr"), genGoFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)), trimNSPrefix(attribute.Name), optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genJava.go b/genJava.go
index 3ce76fa..4fc81f9 100644
--- a/genJava.go
+++ b/genJava.go
@@ -152,6 +152,7 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 	if v.Union && len(v.MemberTypes) > 0 {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			content := " {\n"
+			members := memberNames{}
 			for _, member := range toSortedPairs(v.MemberTypes) {
 				memberName := member.key
 				memberType := member.value
@@ -160,7 +161,7 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
 				fieldType := genJavaFieldType(memberType)
-				content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", fieldType, genJavaFieldName(memberName, false))
+				content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", fieldType, members.distinct(genJavaFieldName(memberName, false)))
 			}
 			content += "}\n"
 			gen.StructAST[v.Name] = content
@@ -183,9 +184,10 @@ func (gen *CodeGenerator) JavaSimpleType(v *SimpleType) {
 func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), genJavaFieldName(attrGroup.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), members.distinct(genJavaFieldName(attrGroup.Name, false)))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -194,14 +196,14 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", trimNSPrefix(attribute.Name), required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %s;\n", trimNSPrefix(attribute.Name), required, fieldType, members.distinct(genJavaFieldName(attribute.Name, false)+"Attr"))
 		}
 		for _, group := range v.Groups {
 			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
 			if group.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\tprotected %s %s;\n", fieldType, genJavaFieldName(group.Name, false))
+			content += fmt.Sprintf("\tprotected %s %s;\n", fieldType, members.distinct(genJavaFieldName(group.Name, false)))
 		}
 
 		for _, element := range v.Elements {
@@ -209,7 +211,7 @@ func (gen *CodeGenerator) JavaComplexType(v *ComplexType) {
 			if element.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", trimNSPrefix(element.Name), fieldType, genJavaFieldName(element.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", trimNSPrefix(element.Name), fieldType, members.distinct(genJavaFieldName(element.Name, false)))
 		}
 
 		if len(v.Base) > 0 && isBuiltInJavaType(v.Base) {
@@ -240,12 +242,13 @@ func isBuiltInJavaType(typeName string) bool {
 func (gen *CodeGenerator) JavaGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, element := range v.Elements {
 			var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
 			if element.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", trimNSPrefix(element.Name), fieldType, genJavaFieldName(element.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true, name = \"%s\")\n\tprotected %s %s;\n", trimNSPrefix(element.Name), fieldType, members.distinct(genJavaFieldName(element.Name, false)))
 		}
 
 		for _, group := range v.Groups {
@@ -253,7 +256,7 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 			if group.Plural {
 				fieldType = fmt.Sprintf("List<%s>", fieldType)
 			}
-			content += fmt.Sprintf("\tprotected %s %s;\n", fieldType, genJavaFieldName(group.Name, false))
+			content += fmt.Sprintf("\tprotected %s %s;\n", fieldType, members.distinct(genJavaFieldName(group.Name, false)))
 		}
 
 		content += "}\n"
@@ -268,9 +271,10 @@ func (gen *CodeGenerator) JavaGroup(v *Group) {
 func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), genJavaFieldName(attrGroup.Name, false))
+			content += fmt.Sprintf("\t@XmlElement(required = true)\n\tprotected %s %s;\n", genJavaFieldType(fieldType), members.distinct(genJavaFieldName(attrGroup.Name, false)))
 		}
 		for _, attribute := range v.Attributes {
 			var required = ", required = true"
@@ -278,7 +282,7 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 				required = ""
 			}
 			fieldType := genJavaFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
-			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %sAttr;\n", trimNSPrefix(attribute.Name), required, fieldType, genJavaFieldName(attribute.Name, false))
+			content += fmt.Sprintf("\t@XmlAttribute(name = \"%s\"%s)\n\tprotected %s %s;\n", trimNSPrefix(attribute.Name), required, fieldType, members.distinct(genJavaFieldName(attribute.Name, false)+"Attr"))
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/genRust.go b/genRust.go
index 17b95a1..e91b8c7 100644
--- a/genRust.go
+++ b/genRust.go
@@ -225,6 +225,7 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 	if v.Union && len(v.MemberTypes) > 0 {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			var content string
+			members := memberNames{}
 			for _, member := range toSortedPairs(v.MemberTypes) {
 				memberName := member.key
 				memberType := member.value
@@ -232,7 +233,7 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, genRustFieldName(memberName), genRustFieldType(memberType))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", memberName, members.distinct(genRustFieldName(memberName)), genRustFieldType(memberType))
 			}
 			gen.StructAST[v.Name] = content
 			gen.Field += fmt.Sprintf("\n#[derive(Debug, Deserialize, Serialize, PartialEq)]\npub struct %s {\n%s}\n", genRustStructName(v.Name, true), gen.StructAST[v.Name])
@@ -253,21 +254,27 @@ func (gen *CodeGenerator) RustSimpleType(v *SimpleType) {
 func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
+		members := memberNames{}
+		if isRustBuiltInType(v.Base) {
+			members["value"] = true
+		} else if len(v.Base) > 0 {
+			members[genRustFieldName(genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Base), gen.ProtoTree)))] = true
+		}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attrGroup.Name), genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attrGroup.Name), members.distinct(genRustFieldName(attrGroup.Name)), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree))
 			if attribute.Optional {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), members.distinct(genRustFieldName(attribute.Name)), fieldType)
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), fieldType)
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attribute.Name), members.distinct(genRustFieldName(attribute.Name)), fieldType)
 			}
 		}
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
-			fieldName := genRustFieldName(group.Name)
+			fieldName := members.distinct(genRustFieldName(group.Name))
 			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			} else {
@@ -276,7 +283,7 @@ func (gen *CodeGenerator) RustComplexType(v *ComplexType) {
 		}
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
-			fieldName := genRustFieldName(element.Name)
+			fieldName := members.distinct(genRustFieldName(element.Name))
 			if element.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 			} else {
@@ -312,9 +319,10 @@ func isRustBuiltInType(typeName string) bool {
 func (gen *CodeGenerator) RustGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
+		members := memberNames{}
 		for _, element := range v.Elements {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree))
-			fieldName := genRustFieldName(element.Name)
+			fieldName := members.distinct(genRustFieldName(element.Name))
 			if element.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(element.Name), fieldName, fieldType)
 			} else {
@@ -323,7 +331,7 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 		}
 		for _, group := range v.Groups {
 			fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree))
-			fieldName := genRustFieldName(group.Name)
+			fieldName := members.distinct(genRustFieldName(group.Name))
 			if group.Plural {
 				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Vec<%s>,\n", trimNSPrefix(group.Name), fieldName, fieldType)
 			} else {
@@ -344,15 +352,16 @@ func (gen *CodeGenerator) RustGroup(v *Group) {
 func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var content string
+		members := memberNames{}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attrGroup.Name), genRustFieldName(attrGroup.Name), genRustFieldType(fieldType))
+			content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attrGroup.Name), members.distinct(genRustFieldName(attrGroup.Name)), genRustFieldType(fieldType))
 		}
 		for _, attribute := range v.Attributes {
 			if attribute.Optional {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: Option<%s>,\n", trimNSPrefix(attribute.Name), members.distinct(genRustFieldName(attribute.Name)), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			} else {
-				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attribute.Name), genRustFieldName(attribute.Name), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
+				content += fmt.Sprintf("\t#[serde(rename = \"%s\")]\n\tpub %s: %s,\n", trimNSPrefix(attribute.Name), members.distinct(genRustFieldName(attribute.Name)), genRustFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree)))
 			}
 		}
 		gen.StructAST[v.Name] = content
diff --git a/genTypeScript.go b/genTypeScript.go
index c168a0e..491ae27 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -134,6 +134,7 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 	if v.Union && len(v.MemberTypes) > 0 {
 		if _, ok := gen.StructAST[v.Name]; !ok {
 			content := " {\n"
+			members := memberNames{}
 			for _, member := range toSortedPairs(v.MemberTypes) {
 				memberName := member.key
 				memberType := member.value
@@ -141,7 +142,7 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 				if memberType == "" { // fix order issue
 					memberType = getBasefromSimpleType(memberName, gen.ProtoTree)
 				}
-				content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(memberName, false), genTypeScriptFieldType(memberType, false))
+				content += fmt.Sprintf("\t%s: %s;\n", members.distinct(genTypeScriptFieldName(memberName, false)), genTypeScriptFieldType(memberType, false))
 			}
 			content += "}\n"
 			gen.StructAST[v.Name] = content
@@ -180,9 +181,13 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
+		if isBuiltInTypeScriptType(v.Base) {
+			members["Value"] = true
+		}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(attrGroup.Name, false), genTypeScriptFieldType(fieldType, false))
+			content += fmt.Sprintf("\t%s: %s;\n", members.distinct(genTypeScriptFieldName(attrGroup.Name, false)), genTypeScriptFieldType(fieldType, false))
 		}
 
 		for _, attribute := range v.Attributes {
@@ -191,15 +196,15 @@ func (gen *CodeGenerator) TypeScriptComplexType(v *ComplexType) {
 				optional = ` | null`
 			}
 			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree), attribute.Plural)
-			content += fmt.Sprintf("\t%sAttr: %s%s;\n", genTypeScriptFieldName(attribute.Name, false), fieldType, optional)
+			content += fmt.Sprintf("\t%s: %s%s;\n", members.distinct(genTypeScriptFieldName(attribute.Name, false)+"Attr"), fieldType, optional)
 		}
 		for _, group := range v.Groups {
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(group.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), group.Plural))
+			content += fmt.Sprintf("\t%s: %s;\n", members.distinct(genTypeScriptFieldName(group.Name, false)), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), group.Plural))
 		}
 
 		for _, element := range v.Elements {
 			fieldType := genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree), element.Plural)
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(element.Name, false), fieldType)
+			content += fmt.Sprintf("\t%s: %s;\n", members.distinct(genTypeScriptFieldName(element.Name, false)), fieldType)
 		}
 
 		if len(v.Base) > 0 && isBuiltInTypeScriptType(v.Base) {
@@ -229,12 +234,13 @@ func isBuiltInTypeScriptType(typeName string) bool {
 func (gen *CodeGenerator) TypeScriptGroup(v *Group) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, element := range v.Elements {
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(element.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree), element.Plural))
+			content += fmt.Sprintf("\t%s: %s;\n", members.distinct(genTypeScriptFieldName(element.Name, false)), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(element.Type), gen.ProtoTree), element.Plural))
 		}
 
 		for _, group := range v.Groups {
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(group.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), group.Plural))
+			content += fmt.Sprintf("\t%s: %s;\n", members.distinct(genTypeScriptFieldName(group.Name, false)), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(group.Ref), gen.ProtoTree), group.Plural))
 		}
 
 		content += "}\n"
@@ -249,16 +255,17 @@ func (gen *CodeGenerator) TypeScriptGroup(v *Group) {
 func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		content := " {\n"
+		members := memberNames{}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
-			content += fmt.Sprintf("\t%s: %s;\n", genTypeScriptFieldName(attrGroup.Name, false), genTypeScriptFieldType(fieldType, false))
+			content += fmt.Sprintf("\t%s: %s;\n", members.distinct(genTypeScriptFieldName(attrGroup.Name, false)), genTypeScriptFieldType(fieldType, false))
 		}
 		for _, attribute := range v.Attributes {
 			var optional string
 			if attribute.Optional {
 				optional = ` | null`
 			}
-			content += fmt.Sprintf("\t%sAttr: %s%s;\n", genTypeScriptFieldName(attribute.Name, false), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree), attribute.Plural), optional)
+			content += fmt.Sprintf("\t%s: %s%s;\n", members.distinct(genTypeScriptFieldName(attribute.Name, false)+"Attr"), genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(attribute.Type), gen.ProtoTree), attribute.Plural), optional)
 		}
 		content += "}\n"
 		gen.StructAST[v.Name] = content
diff --git a/utils.go b/utils.go
index 93e6c4f..c919a52 100644
--- a/utils.go
+++ b/utils.go
@@ -286,6 +286,20 @@ func fetchSchema(URL string) ([]byte, error) {
 	return body, err
 }
 
+// memberNames holds the names of the members of a declaration.
+type memberNames map[string]bool
+
+// distinct returns a name for a further member: the given one, followed by a
+// number if another member has it.
+func (members memberNames) distinct(name string) string {
+	unique := name
+	for i := 2; members[unique]; i++ {
+		unique = fmt.Sprintf("%s%d", name, i)
+	}
+	members[unique] = true
+	return unique
+}
+
 // declareNames gives each component of the proto tree its own identifier: a
 // later one whose identifier is taken, or is reserved in the language, gets a
 // numeric suffix.
-- 
2.43.0


From a9d917b4c6f4dbacf5764ac9550b000a30a9b758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:05 +0000
Subject: [PATCH 47/58] fix: make identifiers of names that begin with an
 underscore

---
 genC.go    | 4 ++++
 genGo.go   | 7 ++++++-
 genJava.go | 3 +++
 genRust.go | 8 +++++++-
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/genC.go b/genC.go
index 1b16f1d..84468d6 100644
--- a/genC.go
+++ b/genC.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"reflect"
 	"strings"
+	"unicode"
 )
 
 var cBuildInType = map[string]bool{
@@ -76,6 +77,9 @@ func genCFieldName(name string, unique bool) (fieldName string) {
 	}
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
+	if len(fieldName) > 1 && fieldName[0] == '_' && (fieldName[1] == '_' || unicode.IsUpper(rune(fieldName[1]))) {
+		fieldName = "X" + fieldName // reserved
+	}
 	if identifier, ok := declaredNames[name]; unique && ok {
 		return identifier
 	}
diff --git a/genGo.go b/genGo.go
index 7fbb667..6c7f0e0 100644
--- a/genGo.go
+++ b/genGo.go
@@ -15,6 +15,8 @@ import (
 	"reflect"
 	"regexp"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // CodeGenerator holds code generator overrides and runtime data that are used
@@ -117,7 +119,10 @@ func genGoFieldName(name string, unique bool) (fieldName string) {
 		tmp += MakeFirstUpperCase(str)
 	}
 	fieldName = tmp
-	fieldName = strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1)
+	fieldName = MakeFirstUpperCase(strings.Replace(strings.Replace(fieldName, "-", "", -1), "_", "", -1))
+	if first, _ := utf8.DecodeRuneInString(fieldName); name != "" && !unicode.IsUpper(first) {
+		fieldName = "X" + fieldName // to be exported
+	}
 	if identifier, ok := declaredNames[name]; unique && ok {
 		return identifier
 	}
diff --git a/genJava.go b/genJava.go
index 4fc81f9..2610839 100644
--- a/genJava.go
+++ b/genJava.go
@@ -107,6 +107,9 @@ func genJavaFieldName(name string, unique bool) (fieldName string) {
 	}
 	fieldName = tmp
 	fieldName = strings.Replace(fieldName, "-", "", -1)
+	if fieldName == "_" { // reserved
+		fieldName = "X_"
+	}
 	if identifier, ok := declaredNames[name]; unique && ok {
 		return identifier
 	}
diff --git a/genRust.go b/genRust.go
index e91b8c7..a08e519 100644
--- a/genRust.go
+++ b/genRust.go
@@ -13,6 +13,8 @@ import (
 	"os"
 	"reflect"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 var (
@@ -63,6 +65,7 @@ var (
 		"str":    true,
 	}
 	rustKeywords = map[string]bool{
+		"_":        true,
 		"as":       true,
 		"break":    true,
 		"const":    true,
@@ -181,7 +184,10 @@ func genRustStructName(name string, unique bool) (structName string) {
 		tmp += MakeFirstUpperCase(str)
 	}
 	structName = tmp
-	structName = strings.NewReplacer("-", "", "_", "").Replace(structName)
+	structName = MakeFirstUpperCase(strings.NewReplacer("-", "", "_", "").Replace(structName))
+	if first, _ := utf8.DecodeRuneInString(structName); name != "" && !unicode.IsLetter(first) {
+		structName = "X" + structName
+	}
 	if identifier, ok := declaredNames[name]; unique && ok {
 		return identifier
 	}
-- 
2.43.0


From 2393ec6516992d55642c5208da7666f22c369c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:14 +0000
Subject: [PATCH 48/58] fix: give the members of a TypeScript enumeration
 distinct names and legal numbers

---
 genTypeScript.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/genTypeScript.go b/genTypeScript.go
index 491ae27..1cda12b 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -30,6 +30,7 @@ var typeScriptBuildInType = map[string]bool{
 }
 
 var (
+	tsLeadingZeros  = regexp.MustCompile("^([+-]?)0+([0-9])")
 	tsIdentifier    = regexp.MustCompile("^[\\pL_$][\\pL\\p{Nd}_$]*$")
 	tsStringEscaper = strings.NewReplacer("\\", "\\\\", "'", "\\'", "\n", "\\n", "\r", "\\r", "\u2028", "\\u2028", "\u2029", "\\u2029")
 )
@@ -154,14 +155,21 @@ func (gen *CodeGenerator) TypeScriptSimpleType(v *SimpleType) {
 	if len(v.Restriction.Enum) > 0 {
 		var content string
 		baseType := genTypeScriptFieldType(resolveName(trimNSPrefix(v.Base), gen.ProtoTree), false)
+		names := make(map[string]bool)
 		for _, enum := range v.Restriction.Enum {
+			name := enum
+			if baseType != "string" {
+				name = "Enum" + enum
+			}
+			for names[genTypeScriptEnumName(name)] { // two values of one name
+				name = "Enum" + name
+			}
+			names[genTypeScriptEnumName(name)] = true
 			switch baseType {
-			case "string":
-				content += fmt.Sprintf("\t%s = '%s',\n", genTypeScriptEnumName(enum), tsStringEscaper.Replace(enum))
 			case "number":
-				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName("Enum"+enum), strings.Replace(enum, "INF", "Infinity", 1))
+				content += fmt.Sprintf("\t%s = %s,\n", genTypeScriptEnumName(name), tsLeadingZeros.ReplaceAllString(strings.Replace(enum, "INF", "Infinity", 1), "$1$2"))
 			default:
-				content += fmt.Sprintf("\t%s = '%s',\n", genTypeScriptEnumName("Enum"+enum), tsStringEscaper.Replace(enum))
+				content += fmt.Sprintf("\t%s = '%s',\n", genTypeScriptEnumName(name), tsStringEscaper.Replace(enum))
 			}
 		}
 		fieldName := genTypeScriptFieldName(v.Name, true)
-- 
2.43.0


From 0163c76a18e1d2ad969aca8be4984d8a4810ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:20 +0000
Subject: [PATCH 49/58] fix: a simple type within another one is a part of it,
 not its replacement

The parts of a simple type (item type, member types, base type) were written
over the simple type itself: a union with a list among its members became a
list, a union within a union replaced the members of the outer one, a list of
unions was of the type of the last member, the values of a base enumeration
were listed along with those of its restriction, and the values of one member
of a union were taken for all its values.
---
 parser.go         |   6 +--
 xmlCharData.go    |   2 +-
 xmlEnumeration.go |   3 ++
 xmlList.go        |   7 +++
 xmlRestriction.go |   5 ++-
 xmlSimpleType.go  | 106 ++++++++++++++++++++++++++++++++++++++--------
 xmlUnion.go       |   4 ++
 7 files changed, 111 insertions(+), 22 deletions(-)

diff --git a/parser.go b/parser.go
index ba73e12..b454cc1 100644
--- a/parser.go
+++ b/parser.go
@@ -55,8 +55,8 @@ type Options struct {
 	AttributeGroup *Stack
 	Choice         *Stack
 
-	elements    []elementScope // element declarations being parsed, innermost last
-	simpleTypes int            // nesting depth of the simple type being parsed
+	elements    []elementScope    // element declarations being parsed, innermost last
+	simpleTypes []simpleTypeScope // simple types being parsed, innermost last
 	annotations annotationScope
 	namespaces  []map[string]string // prefixes outside of the open elements
 }
@@ -109,7 +109,7 @@ func (opt *Options) Parse() (err error) {
 	opt.Choice = NewStack()
 
 	opt.elements = nil
-	opt.simpleTypes = 0
+	opt.simpleTypes = nil
 	opt.annotations = annotationScope{}
 	if len(opt.namespaces) > 0 {
 		opt.LocalNameNSMap, opt.namespaces = opt.namespaces[0], nil
diff --git a/xmlCharData.go b/xmlCharData.go
index 2d83d6d..5a75eca 100644
--- a/xmlCharData.go
+++ b/xmlCharData.go
@@ -42,7 +42,7 @@ func (opt *Options) OnCharData(ele string, protoTree []interface{}) (err error)
 			opt.Attribute.Peek().(*Attribute).Doc = ele
 		}
 	case "simpleType":
-		if opt.SimpleType.Len() > 0 && opt.simpleTypes == 1 {
+		if opt.SimpleType.Len() > 0 && len(opt.simpleTypes) == 1 {
 			opt.SimpleType.Peek().(*SimpleType).Doc = ele
 		}
 	case "complexType":
diff --git a/xmlEnumeration.go b/xmlEnumeration.go
index 76f3d08..781ebd4 100644
--- a/xmlEnumeration.go
+++ b/xmlEnumeration.go
@@ -14,6 +14,9 @@ import "encoding/xml"
 func (opt *Options) OnEnumeration(ele xml.StartElement, protoTree []interface{}) (err error) {
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "value" {
+			if scope := opt.simpleTypeScope(); scope != nil {
+				scope.enum = append(scope.enum, attr.Value)
+			}
 			if opt.SimpleType.Peek() != nil {
 				opt.SimpleType.Peek().(*SimpleType).Restriction.Enum = append(opt.SimpleType.Peek().(*SimpleType).Restriction.Enum, attr.Value)
 			}
diff --git a/xmlList.go b/xmlList.go
index 0d07154..a33f758 100644
--- a/xmlList.go
+++ b/xmlList.go
@@ -18,11 +18,18 @@ func (opt *Options) OnList(ele xml.StartElement, protoTree []interface{}) (err e
 		return
 	}
 	opt.SimpleType.Peek().(*SimpleType).List = true
+	scope := opt.simpleTypeScope()
+	if scope != nil {
+		scope.list = true
+	}
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "itemType" {
 			if opt.SimpleType.Peek().(*SimpleType).Base, err = opt.GetValueType(attr.Value, protoTree); err != nil {
 				return
 			}
+			if scope != nil {
+				scope.base = opt.SimpleType.Peek().(*SimpleType).Base
+			}
 		}
 	}
 	return
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 81a7e9a..dc6e46b 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -21,6 +21,9 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 			if err != nil {
 				return
 			}
+			if scope := opt.simpleTypeScope(); scope != nil {
+				scope.base = valueType
+			}
 			if opt.SimpleType.Peek() != nil {
 				opt.SimpleType.Peek().(*SimpleType).Base = valueType
 				if opt.SimpleType.Peek().(*SimpleType).Name == "" {
@@ -38,7 +41,7 @@ func (opt *Options) EndRestriction(ele xml.EndElement, protoTree []interface{})
 		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		opt.CurrentEle = ""
 	}
-	if !opt.Element.Empty() && opt.simpleTypes > 0 {
+	if !opt.Element.Empty() && len(opt.simpleTypes) > 0 {
 		if !opt.ComplexType.Empty() && len(opt.ComplexType.Peek().(*ComplexType).Elements) > 0 {
 			opt.ComplexType.Peek().(*ComplexType).Elements[len(opt.ComplexType.Peek().(*ComplexType).Elements)-1] = *opt.Element.Peek().(*Element)
 		}
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index e1c3c7b..59c7f42 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -10,11 +10,23 @@ package xgen
 
 import "encoding/xml"
 
+// simpleTypeScope holds a simple type that is being parsed, which may be part
+// of another one: the item type of a list, a member type of a union or the base
+// type of a restriction.
+type simpleTypeScope struct {
+	base    string            // type of the values, or of the items of a list
+	list    bool              // a list, or a restriction of one
+	union   bool              // a union, or a restriction of one
+	members map[string]string // member types of a union given by reference
+	enum    []string          // values allowed
+	inner   []simpleTypeScope // simple types that are part of it
+}
+
 // OnSimpleType handles parsing event on the simpleType start elements. The
 // simpleType element defines a simple type and specifies the constraints and
 // information about the values of attributes or text-only elements.
 func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{}) (err error) {
-	opt.simpleTypes++
+	opt.simpleTypes = append(opt.simpleTypes, simpleTypeScope{})
 	if opt.SimpleType.Len() == 0 {
 		opt.SimpleType.Push(&SimpleType{})
 	}
@@ -32,32 +44,92 @@ func (opt *Options) OnSimpleType(ele xml.StartElement, protoTree []interface{})
 
 // EndSimpleType handles parsing event on the simpleType end elements.
 func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.simpleTypes--; opt.simpleTypes > 0 {
+	depth := len(opt.simpleTypes) - 1
+	if depth < 0 {
+		return
+	}
+	scope := opt.simpleTypes[depth].complete(opt.Lang)
+	if opt.simpleTypes = opt.simpleTypes[:depth]; depth > 0 {
 		// A simple type within another one is part of it.
+		opt.simpleTypes[depth-1].inner = append(opt.simpleTypes[depth-1].inner, scope)
 		return
 	}
-	opt.CurrentEle = ""
-	if simpleType, ok := opt.SimpleType.Peek().(*SimpleType); ok && simpleType.Base == "" && (opt.Attribute.Len() > 0 || len(opt.elements) > 0) {
+	valueType := scope.base
+	if valueType == "" || len(scope.members) > 0 {
 		// A local union is of any type.
-		simpleType.Base, _ = getBuildInTypeByLang("anyType", opt.Lang)
+		valueType, _ = getBuildInTypeByLang("anyType", opt.Lang)
 	}
-	if opt.SimpleType.Len() > 0 && opt.Attribute.Len() > 0 {
-		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
+	opt.CurrentEle = ""
+	simpleType, _ := opt.SimpleType.Pop().(*SimpleType)
+	if opt.Attribute.Len() > 0 {
+		opt.Attribute.Peek().(*Attribute).Type = valueType
 		return
 	}
-	if l := len(opt.elements); l > 0 && opt.Attribute.Len() == 0 && opt.elements[l-1].types == opt.ComplexType.Len() {
+	if l := len(opt.elements); l > 0 && opt.elements[l-1].types == opt.ComplexType.Len() {
 		opt.elements[l-1].inline = true
-		if opt.SimpleType.Len() > 0 {
-			opt.setElementType(opt.elements[l-1], opt.SimpleType.Pop().(*SimpleType).Base)
-		} else if opt.Element.Len() > opt.elements[l-1].stack {
-			opt.setElementType(opt.elements[l-1], opt.Element.Peek().(*Element).Type)
-		}
+		opt.setElementType(opt.elements[l-1], valueType)
 		return
 	}
-	if opt.SimpleType.Len() > 0 {
-		if simpleType := opt.SimpleType.Pop(); opt.ComplexType.Len() == 0 {
-			opt.ProtoTree = append(opt.ProtoTree, simpleType)
-		}
+	if simpleType != nil && opt.ComplexType.Len() == 0 {
+		simpleType.Base, simpleType.List, simpleType.Union = scope.base, scope.list, scope.union
+		simpleType.MemberTypes, simpleType.Restriction.Enum = scope.members, scope.enum
+		opt.ProtoTree = append(opt.ProtoTree, simpleType)
 	}
 	return
 }
+
+// simpleTypeScope returns the innermost simple type being parsed.
+func (opt *Options) simpleTypeScope() *simpleTypeScope {
+	if len(opt.simpleTypes) == 0 {
+		return nil
+	}
+	return &opt.simpleTypes[len(opt.simpleTypes)-1]
+}
+
+// complete derives what a simple type takes over from the simple types that
+// are part of it.
+func (scope simpleTypeScope) complete(lang string) simpleTypeScope {
+	anyType, _ := getBuildInTypeByLang("anyType", lang)
+	for i, inner := range scope.inner {
+		valueType := inner.base
+		if inner.union || inner.list && scope.union {
+			valueType = anyType
+		}
+		switch {
+		case scope.union:
+			if i > 0 && scope.base != valueType {
+				valueType = anyType
+			}
+			scope.base = valueType
+			// The values are known if those of all members are.
+			if len(inner.enum) == 0 || len(scope.members) > 0 || i > 0 && len(scope.enum) == 0 {
+				scope.enum = nil
+				continue
+			}
+			scope.enum = appendDistinct(scope.enum, inner.enum)
+		case scope.list:
+			scope.base = valueType
+		default:
+			scope.base, scope.list, scope.union, scope.members = inner.base, inner.list, inner.union, inner.members
+			if len(scope.enum) == 0 {
+				scope.enum = inner.enum
+			}
+		}
+	}
+	scope.inner = nil
+	return scope
+}
+
+// appendDistinct appends the values that are not in the list yet.
+func appendDistinct(list, values []string) []string {
+	for _, value := range values {
+		known := false
+		for _, v := range list {
+			known = known || v == value
+		}
+		if !known {
+			list = append(list, value)
+		}
+	}
+	return list
+}
diff --git a/xmlUnion.go b/xmlUnion.go
index c069648..fe322a0 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -23,6 +23,10 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 	}
 	opt.SimpleType.Peek().(*SimpleType).Union = true
 	opt.SimpleType.Peek().(*SimpleType).MemberTypes = make(map[string]string)
+	if scope := opt.simpleTypeScope(); scope != nil {
+		scope.union = true
+		scope.members = opt.SimpleType.Peek().(*SimpleType).MemberTypes
+	}
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "memberTypes" {
 			memberTypes := strings.Fields(attr.Value)
-- 
2.43.0


From 40ff930c7105070069bb6d5a5d32983c7979599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:51 +0000
Subject: [PATCH 50/58] fix: a schema that failed to parse is not taken for
 parsed

After an error the parser had the schema in its lists of parsed files: once
the fault was gone, the same parser left an imported schema without code.
---
 parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.go b/parser.go
index b454cc1..618f1f0 100644
--- a/parser.go
+++ b/parser.go
@@ -91,6 +91,12 @@ func (opt *Options) Parse() (err error) {
 	if !opt.Extract {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
+		defer func() {
+			if err != nil { // not parsed, and no code generated
+				delete(opt.ParseFileList, opt.FilePath)
+				delete(opt.ParseFileMap, opt.FilePath)
+			}
+		}()
 	}
 	opt.ProtoTree = make([]interface{}, 0)
 
-- 
2.43.0


From a20a663e93e7f7f3f240dd14cb370139381b816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:14 +0000
Subject: [PATCH 51/58] fix: a group referred to once and then repeatedly is a
 collection

---
 xmlGroup.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/xmlGroup.go b/xmlGroup.go
index 77fa79b..73c703d 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -45,15 +45,13 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 		}
 		if opt.InGroup > 0 {
 			opt.InGroup++
-			opt.Group.Peek().(*Group).Groups = append(opt.Group.Peek().(*Group).Groups, group)
+			opt.Group.Peek().(*Group).Groups = addGroup(opt.Group.Peek().(*Group).Groups, group)
 			return
 		}
 
 	}
 	if opt.ComplexType.Len() > 0 {
-		if !inGroups(&group, opt.ComplexType.Peek().(*ComplexType).Groups) {
-			opt.ComplexType.Peek().(*ComplexType).Groups = append(opt.ComplexType.Peek().(*ComplexType).Groups, group)
-		}
+		opt.ComplexType.Peek().(*ComplexType).Groups = addGroup(opt.ComplexType.Peek().(*ComplexType).Groups, group)
 		return
 	}
 	return
@@ -72,11 +70,14 @@ func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err e
 	return
 }
 
-func inGroups(group *Group, groups []Group) bool {
-	for _, g := range groups {
-		if g.Name == group.Name {
-			return true
+// addGroup adds a reference to a group. References to the same group are one
+// member with the highest plurality among them.
+func addGroup(groups []Group, group Group) []Group {
+	for i := range groups {
+		if groups[i].Name == group.Name {
+			groups[i].Plural = groups[i].Plural || group.Plural
+			return groups
 		}
 	}
-	return false
+	return append(groups, group)
 }
-- 
2.43.0


From e2dbe5f641b396d0bcf20a0ddc16cedcc689e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:12 +0000
Subject: [PATCH 52/58] fix: an element or group that a sequence holds twice is
 a collection

---
 proto.go      | 21 +++++++++++++++++++++
 xmlChoice.go  | 11 ++++++++---
 xmlElement.go |  4 +++-
 xmlGroup.go   |  4 +++-
 4 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/proto.go b/proto.go
index 1173b98..dba8c6d 100644
--- a/proto.go
+++ b/proto.go
@@ -105,6 +105,27 @@ type Choice struct {
 	ID     string
 	Choice []Choice
 	Plural bool
+
+	alternatives bool            // at most one of the members occurs
+	parent       *Choice         // the compositor around it in the same type
+	members      map[string]bool // what was found in it so far
+}
+
+// again adds a member to a compositor, and tells whether it may occur along
+// with an earlier one of the same name, not just instead of it.
+func (c *Choice) again(name string) (repeated bool) {
+	for p := c; p != nil; p = p.parent {
+		repeated = repeated || !p.alternatives && p.members[name]
+	}
+	c.add(name)
+	return
+}
+
+func (c *Choice) add(name string) {
+	if c.members == nil {
+		c.members = map[string]bool{}
+	}
+	c.members[name] = true
 }
 
 // AttributeGroup definitions do not participate in ·validation· as such, but
diff --git a/xmlChoice.go b/xmlChoice.go
index 33f29b9..2671c7e 100644
--- a/xmlChoice.go
+++ b/xmlChoice.go
@@ -14,7 +14,7 @@ import "encoding/xml"
 // choice element defines that one and only one of the contained element can be present within
 // the contained element.
 func (opt *Options) OnChoice(ele xml.StartElement, protoTree []interface{}) (err error) {
-	choice := Choice{}
+	choice := Choice{alternatives: ele.Name.Local == "choice"}
 	for _, attr := range ele.Attr {
 		if attr.Name.Local == "maxOccurs" {
 			if choice.Plural, err = isRepeated(attr.Value); err != nil {
@@ -24,7 +24,8 @@ func (opt *Options) OnChoice(ele xml.StartElement, protoTree []interface{}) (err
 	}
 	// Handle a case of a parent choice having plurality that children should inherit
 	if opt.Choice.Len() > 0 {
-		choice.Plural = choice.Plural || opt.Choice.Peek().(*Choice).Plural
+		choice.parent = opt.Choice.Peek().(*Choice)
+		choice.Plural = choice.Plural || choice.parent.Plural
 	}
 
 	opt.Choice.Push(&choice)
@@ -34,7 +35,11 @@ func (opt *Options) OnChoice(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndChoice handles parsing event on the choice end elements.
 func (opt *Options) EndChoice(ele xml.EndElement, protoTree []interface{}) (err error) {
-	opt.Choice.Pop()
+	if choice, ok := opt.Choice.Pop().(*Choice); ok && choice.parent != nil {
+		for name := range choice.members {
+			choice.parent.add(name)
+		}
+	}
 
 	return
 }
diff --git a/xmlElement.go b/xmlElement.go
index 010878e..ccb02f8 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -73,7 +73,9 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 	}
 
 	if opt.Choice.Len() > 0 {
-		e.Plural = e.Plural || opt.Choice.Peek().(*Choice).Plural
+		choice := opt.Choice.Peek().(*Choice)
+		repeated := choice.again("element " + e.Name)
+		e.Plural = e.Plural || choice.Plural || repeated
 	}
 
 	if opt.ComplexType.Len() > 0 {
diff --git a/xmlGroup.go b/xmlGroup.go
index 73c703d..830139c 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -33,7 +33,9 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 		}
 	}
 	if opt.Choice.Len() > 0 {
-		group.Plural = group.Plural || opt.Choice.Peek().(*Choice).Plural
+		choice := opt.Choice.Peek().(*Choice)
+		repeated := choice.again("group " + group.Name)
+		group.Plural = group.Plural || choice.Plural || repeated
 	}
 
 	if opt.ComplexType.Len() == 0 {
-- 
2.43.0


From f951e0aa36bb5b96a7cc15ad81ba9502483c5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:29 +0000
Subject: [PATCH 53/58] fix: only the namespace of XML Schema holds the
 built-in types

---
 schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index dcd00e8..169f583 100644
--- a/schema.go
+++ b/schema.go
@@ -11,7 +11,6 @@ package xgen
 import (
 	"encoding/xml"
 	"path/filepath"
-	"strings"
 )
 
 func (opt *Options) prepareLocalNameNSMap(element xml.StartElement) {
@@ -80,7 +79,8 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 // isBuildInNS tests whether a name may be one of XML Schema: its prefix stands
 // for the namespace of XML Schema.
 func (opt *Options) isBuildInNS(str string) bool {
-	return strings.Contains(opt.parseNS(str), "/XMLSchema")
+	ns := opt.parseNS(str)
+	return ns == xmlSchemaNS || ns == xmlSchemaNS+"-datatypes"
 }
 
 func (opt *Options) parseNS(str string) (ns string) {
-- 
2.43.0


From 1d5752de88beeb0f29be0ec62529ee8afbd97c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:30 +0000
Subject: [PATCH 54/58] fix: an imported schema goes into the directory of an
 output that is given with its extension

---
 parser.go | 7 ++++---
 utils.go  | 9 +++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 618f1f0..ffa8b12 100644
--- a/parser.go
+++ b/parser.go
@@ -290,16 +290,17 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		return opt.includedType(trimNSPrefix(value))
 	}
 
-	inputDir := opt.InputDir
+	inputDir, outputDir := opt.InputDir, opt.OutputDir
 	if inputDir == opt.FilePath {
-		inputDir = opt.FileDir
+		// The output is a file, which may be given with its extension.
+		inputDir, outputDir = opt.FileDir, strings.TrimSuffix(outputDir, fileExtensions[opt.Lang])
 	}
 	depXSDSchema, ok := opt.ParseFileMap[xsdFile]
 	if !ok {
 		parser := NewParser(&Options{
 			FilePath:            xsdFile,
 			InputDir:            inputDir,
-			OutputDir:           opt.OutputDir,
+			OutputDir:           outputDir,
 			Extract:             isOutside(inputDir, xsdFile),
 			Lang:                opt.Lang,
 			Package:             opt.Package,
diff --git a/utils.go b/utils.go
index c919a52..b770da2 100644
--- a/utils.go
+++ b/utils.go
@@ -40,6 +40,15 @@ func ToSnakeCase(input string) string {
 	return strings.ToLower(output)
 }
 
+// fileExtensions are the extensions of the generated files.
+var fileExtensions = map[string]string{
+	"C":          ".h",
+	"Go":         ".go",
+	"Java":       ".java",
+	"Rust":       ".rs",
+	"TypeScript": ".ts",
+}
+
 // GetFileList get a list of file by given path.
 func GetFileList(path string) (files []string, err error) {
 	var fi os.FileInfo
-- 
2.43.0


From ff63ecf3de83ad8a6fac705b4d20c27948862e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:32 +0000
Subject: [PATCH 55/58] fix: a schema is the one that an import names, however
 its path is spelled

---
 parser.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index ffa8b12..337fe92 100644
--- a/parser.go
+++ b/parser.go
@@ -88,13 +88,15 @@ func (opt *Options) Parse() (err error) {
 		return
 	}
 	defer xmlFile.Close()
+	// The name that an import of the file gives it.
+	file := filepath.Clean(opt.FilePath)
 	if !opt.Extract {
-		opt.ParseFileList[opt.FilePath] = true
-		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
+		opt.ParseFileList[file] = true
+		opt.ParseFileMap[file] = opt.ProtoTree
 		defer func() {
 			if err != nil { // not parsed, and no code generated
-				delete(opt.ParseFileList, opt.FilePath)
-				delete(opt.ParseFileMap, opt.FilePath)
+				delete(opt.ParseFileList, file)
+				delete(opt.ParseFileMap, file)
 			}
 		}()
 	}
@@ -171,8 +173,8 @@ func (opt *Options) Parse() (err error) {
 
 	opt.resolveBases()
 	if !opt.Extract {
-		opt.ParseFileList[opt.FilePath] = true
-		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
+		opt.ParseFileList[file] = true
+		opt.ParseFileMap[file] = opt.ProtoTree
 		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
 		if rel, err := filepath.Rel(opt.InputDir, opt.FilePath); err == nil && !isOutside(opt.InputDir, opt.FilePath) {
 			path = filepath.Join(opt.OutputDir, rel)
-- 
2.43.0


From 75d866a03765a6283eb76002d2e6f84c27ec8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:08 +0000
Subject: [PATCH 56/58] fix: anySimpleType is a built-in type

---
 utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils.go b/utils.go
index b770da2..e490348 100644
--- a/utils.go
+++ b/utils.go
@@ -93,6 +93,7 @@ func PrepareOutputDir(path string) error {
 // https://www.w3.org/TR/xmlschema-2/#datatype
 var BuildInTypes = map[string][]string{
 	"anyType":            {"string", "string", "char", "String", "String"},
+	"anySimpleType":      {"string", "string", "char", "String", "String"},
 	"ENTITIES":           {"[]string", "Array<string>", "char[]", "List<String>", "Vec<String>"},
 	"ENTITY":             {"string", "string", "char", "String", "String"},
 	"ID":                 {"string", "string", "char", "String", "String"},
-- 
2.43.0


From 9b26b67e6f7a2ba088b1b25a90c87ace6f6108f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:10 +0000
Subject: [PATCH 57/58] fix: an element without a type has the type of the head
 of its substitution group

---
 parser.go     | 29 +++++++++++++++++++++++++++++
 xmlElement.go | 19 ++++++++++++++++---
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 337fe92..afd7a55 100644
--- a/parser.go
+++ b/parser.go
@@ -58,6 +58,7 @@ type Options struct {
 	elements    []elementScope    // element declarations being parsed, innermost last
 	simpleTypes []simpleTypeScope // simple types being parsed, innermost last
 	annotations annotationScope
+	heads       map[*Element]string // heads of the substitution groups that elements have the types of
 	namespaces  []map[string]string // prefixes outside of the open elements
 }
 
@@ -117,6 +118,7 @@ func (opt *Options) Parse() (err error) {
 	opt.Choice = NewStack()
 
 	opt.elements = nil
+	opt.heads = make(map[*Element]string)
 	opt.simpleTypes = nil
 	opt.annotations = annotationScope{}
 	if len(opt.namespaces) > 0 {
@@ -172,6 +174,7 @@ func (opt *Options) Parse() (err error) {
 	}
 
 	opt.resolveBases()
+	opt.resolveHeads()
 	if !opt.Extract {
 		opt.ParseFileList[file] = true
 		opt.ParseFileMap[file] = opt.ProtoTree
@@ -246,6 +249,32 @@ func (opt *Options) resolveBases() {
 	}
 }
 
+// resolveHeads resolves the types of elements that have those of heads of
+// substitution groups declared further down in the document.
+func (opt *Options) resolveHeads() {
+	elements := make(map[string]*Element)
+	for _, ele := range opt.ProtoTree {
+		if v, ok := ele.(*Element); ok {
+			elements[v.Name] = v
+		}
+	}
+	for _, ele := range opt.ProtoTree {
+		element, ok := ele.(*Element)
+		if !ok {
+			continue
+		}
+		head, ok := opt.heads[element]
+		for range elements {
+			v := elements[trimNSPrefix(head)]
+			if !ok || v == nil || element.Type != head {
+				break
+			}
+			element.Type = v.Type
+			head, ok = opt.heads[v]
+		}
+	}
+}
+
 // isOutside tests whether a file is not in a directory, so that there is no
 // place for its code in the output directory.
 func isOutside(dir, file string) bool {
diff --git a/xmlElement.go b/xmlElement.go
index ccb02f8..3dca9d8 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -21,6 +21,7 @@ type elementScope struct {
 	typed  bool       // the type is given by reference
 	inline bool       // the type is given by a child
 	same   bool       // the type has the name of the element
+	head   string     // the type of the head of its substitution group
 }
 
 // OnElement handles parsing event on the element start elements.
@@ -63,6 +64,12 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 			_, buildIn := getBuildInTypeByLang(e.Name, opt.Lang)
 			scope.same = !buildIn || !opt.isBuildInNS(attr.Value)
 		}
+		if attr.Name.Local == "substitutionGroup" && e.Type == "" {
+			scope.head, err = opt.GetValueType(attr.Value, protoTree)
+			if err != nil {
+				return
+			}
+		}
 	}
 	if e.Type == "" {
 		e.Type, err = opt.GetValueType(e.Name, protoTree)
@@ -127,9 +134,15 @@ func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err
 	scope := opt.elements[len(opt.elements)-1]
 	opt.elements = opt.elements[:len(opt.elements)-1]
 	if !scope.typed && !scope.inline {
-		// An element without a type is of any type.
-		anyType, _ := getBuildInTypeByLang("anyType", opt.Lang)
-		opt.setElementType(scope, anyType)
+		// An element without a type is of the one of the head of its
+		// substitution group, or of any type.
+		valueType := scope.head
+		if valueType == "" {
+			valueType, _ = getBuildInTypeByLang("anyType", opt.Lang)
+		} else if element, ok := opt.Element.Peek().(*Element); ok && scope.owner == nil {
+			opt.heads[element] = scope.head
+		}
+		opt.setElementType(scope, valueType)
 	}
 	if scope.owner == nil && opt.Element.Len() > scope.stack && opt.ComplexType.Len() == 0 && scope.same {
 		// The declaration of the type is the one of the element.
-- 
2.43.0


From 94d3a920a096c6a8bdb8230b41e7765e7262e65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:26 +0000
Subject: [PATCH 58/58] fix: give the types of local elements with the same
 name their own names

---
 genGo.go          |  8 ++++++--
 parser.go         | 26 ++++++++++++++++++++++++++
 proto.go          |  2 ++
 xmlComplexType.go | 26 ++++++++++++++++++++++++--
 4 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/genGo.go b/genGo.go
index 6c7f0e0..f4e7c0b 100644
--- a/genGo.go
+++ b/genGo.go
@@ -213,9 +213,13 @@ func (gen *CodeGenerator) GoComplexType(v *ComplexType) {
 			members[strings.TrimPrefix(genGoFieldType(v.Base), "*")] = true
 		}
 		fieldName := genGoFieldName(v.Name, true)
-		if fieldName != v.Name {
+		xmlName := v.Name
+		if v.element != "" {
+			xmlName = v.element
+		}
+		if fieldName != xmlName {
 			gen.ImportEncodingXML = true
-			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", v.Name)
+			content += fmt.Sprintf("\tXMLName\txml.Name\t`xml:\"%s\"`\n", xmlName)
 		}
 		for _, attrGroup := range v.AttributeGroup {
 			fieldType := getBasefromSimpleType(trimNSPrefix(attrGroup.Ref), gen.ProtoTree)
diff --git a/parser.go b/parser.go
index afd7a55..29d7c86 100644
--- a/parser.go
+++ b/parser.go
@@ -59,6 +59,7 @@ type Options struct {
 	simpleTypes []simpleTypeScope // simple types being parsed, innermost last
 	annotations annotationScope
 	heads       map[*Element]string // heads of the substitution groups that elements have the types of
+	anonymous   []anonymousType     // types of the local elements
 	namespaces  []map[string]string // prefixes outside of the open elements
 }
 
@@ -119,6 +120,7 @@ func (opt *Options) Parse() (err error) {
 
 	opt.elements = nil
 	opt.heads = make(map[*Element]string)
+	opt.anonymous = nil
 	opt.simpleTypes = nil
 	opt.annotations = annotationScope{}
 	if len(opt.namespaces) > 0 {
@@ -173,6 +175,7 @@ func (opt *Options) Parse() (err error) {
 
 	}
 
+	opt.nameAnonymousTypes()
 	opt.resolveBases()
 	opt.resolveHeads()
 	if !opt.Extract {
@@ -275,6 +278,29 @@ func (opt *Options) resolveHeads() {
 	}
 }
 
+// nameAnonymousTypes gives each type of a local element its own name: that of
+// the element, followed by a number if another component has it.
+func (opt *Options) nameAnonymousTypes() {
+	types := make(map[*ComplexType]bool)
+	for _, anonymous := range opt.anonymous {
+		types[anonymous.complexType] = true
+	}
+	names := make(map[string]bool)
+	for _, ele := range opt.ProtoTree {
+		if v, ok := ele.(*ComplexType); !ok || !types[v] {
+			names[componentName(ele)] = true
+		}
+	}
+	for _, anonymous := range opt.anonymous {
+		v := anonymous.complexType
+		for i := 2; names[v.Name]; i++ {
+			v.Name = fmt.Sprintf("%s%d", v.element, i)
+		}
+		names[v.Name] = true
+		(*anonymous.owner)[anonymous.index].Type = v.Name
+	}
+}
+
 // isOutside tests whether a file is not in a directory, so that there is no
 // place for its code in the output directory.
 func isOutside(dir, file string) bool {
diff --git a/proto.go b/proto.go
index dba8c6d..93edd19 100644
--- a/proto.go
+++ b/proto.go
@@ -78,6 +78,8 @@ type ComplexType struct {
 	Choice         []Choice
 	AttributeGroup []AttributeGroup
 	Mixed          bool
+
+	element string // the element an anonymous type is the type of
 }
 
 // Group (model group) definitions are provided primarily for reference from
diff --git a/xmlComplexType.go b/xmlComplexType.go
index 2ec63f8..430a4e6 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -17,6 +17,25 @@ import (
 // element it is the type of.
 var errAnonymousType = errors.New("complexType without name or element")
 
+// anonymousType is the type of a local element.
+type anonymousType struct {
+	complexType *ComplexType
+	owner       *[]Element // element list of the type or group around the element
+	index       int        // position in the list of the owner
+}
+
+// addAnonymousType adds the type of the element being parsed, unless that is
+// a global one, which the type shares its name with.
+func (opt *Options) addAnonymousType(c *ComplexType) {
+	if len(opt.elements) == 0 {
+		return
+	}
+	if scope := opt.elements[len(opt.elements)-1]; scope.owner != nil {
+		c.element = c.Name
+		opt.anonymous = append(opt.anonymous, anonymousType{c, scope.owner, scope.index})
+	}
+}
+
 // OnComplexType handles parsing event on the complex start elements. A
 // complex element contains other elements and/or attributes.
 func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{}) (err error) {
@@ -28,10 +47,12 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 		if !ok {
 			return errAnonymousType
 		}
-		opt.ComplexType.Push(&ComplexType{
+		c := ComplexType{
 			Name: e.Name,
 			Doc:  e.Doc,
-		})
+		}
+		opt.addAnonymousType(&c)
+		opt.ComplexType.Push(&c)
 	}
 
 	if opt.ComplexType.Len() == 0 {
@@ -49,6 +70,7 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 			}
 			c.Name = e.Name
 			c.Doc = e.Doc
+			opt.addAnonymousType(&c)
 		}
 		opt.ComplexType.Push(&c)
 	}
-- 
2.43.0

