From 1b7e59c43f7715d690fe114ac537d81775c7ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 01/19] fix: report failures to write or close a generated file

---
 genC.go          |  3 +--
 genGo.go         |  3 +--
 genJava.go       |  3 +--
 genRust.go       |  3 +--
 genTypeScript.go |  3 +--
 utils.go         | 10 ++++++++++
 6 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/genC.go b/genC.go
index 09e2a88..4edca66 100644
--- a/genC.go
+++ b/genC.go
@@ -51,8 +51,7 @@ func (gen *CodeGenerator) GenC() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
-	return err
+	return writeAndClose(f, source)
 }
 
 func innerArray(dataType string) (string, bool) {
diff --git a/genGo.go b/genGo.go
index c27fa36..b6702da 100644
--- a/genGo.go
+++ b/genGo.go
@@ -91,8 +91,7 @@ func (gen *CodeGenerator) GenGo() error {
 		f.WriteString(fmt.Sprintf("package %s\n%s%s", packageName, importPackage, gen.Field))
 		return err
 	}
-	f.Write(source)
-	return err
+	return writeAndClose(f, source)
 }
 
 func genGoFieldName(name string, unique bool) (fieldName string) {
diff --git a/genJava.go b/genJava.go
index 70cbc87..d3d2bcb 100644
--- a/genJava.go
+++ b/genJava.go
@@ -59,8 +59,7 @@ import javax.xml.bind.annotation.XmlSchemaType;
 import javax.xml.bind.annotation.XmlType;
 import javax.xml.bind.annotation.XmlValue;`
 
-	f.Write([]byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
-	return err
+	return writeAndClose(f, []byte(fmt.Sprintf("%s\n\npackage %s;\n\n%s\n%s", copyright, packageName, importPackage, gen.Field)))
 }
 
 func genJavaFieldName(name string, unique bool) (fieldName string) {
diff --git a/genRust.go b/genRust.go
index f3b9cb6..cef40e3 100644
--- a/genRust.go
+++ b/genRust.go
@@ -116,8 +116,7 @@ extern crate serde_xml_rs;
 
 use serde_xml_rs::from_reader;`
 	source := []byte(fmt.Sprintf("%s\n\n%s\n%s", copyright, extern, gen.Field))
-	f.Write(source)
-	return err
+	return writeAndClose(f, source)
 }
 
 // genRustFieldName generate struct field name for Rust code.
diff --git a/genTypeScript.go b/genTypeScript.go
index b5f9d38..f257143 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -42,8 +42,7 @@ func (gen *CodeGenerator) GenTypeScript() error {
 	}
 	defer f.Close()
 	source := []byte(fmt.Sprintf("%s\n%s", copyright, gen.Field))
-	f.Write(source)
-	return err
+	return writeAndClose(f, source)
 
 }
 
diff --git a/utils.go b/utils.go
index 459a8e9..fe61cea 100644
--- a/utils.go
+++ b/utils.go
@@ -73,6 +73,16 @@ func PrepareOutputDir(path string) error {
 	return nil
 }
 
+// writeAndClose writes the whole source to the file and closes it, so that an
+// output which did not reach the disk is reported.
+func writeAndClose(f *os.File, source []byte) error {
+	_, err := f.Write(source)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
+
 // BuildInTypes defines the correspondence between Go, TypeScript, C, Java,
 // Rust languages and data types in XSD.
 // https://www.w3.org/TR/xmlschema-2/#datatype
-- 
2.43.0


From 6250afcfda1605700d5f6a081bb74d151a02e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 02/19] fix: return the error when the output directory can not
 be created

Parse printed it and terminated the process of its caller.
---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 781c36a..e5b8299 100644
--- a/parser.go
+++ b/parser.go
@@ -132,9 +132,8 @@ func (opt *Options) Parse() (err error) {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
 		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
-		if err := PrepareOutputDir(filepath.Dir(path)); err != nil {
-			fmt.Println(err)
-			os.Exit(1)
+		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
+			return
 		}
 		generator := &CodeGenerator{
 			Lang:      opt.Lang,
-- 
2.43.0


From 8b232355db6403ceff15a7e9527992c5ee3f4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 03/19] fix: report schemas that can not be read to their end

Read and syntax errors were taken for the end of the document, so that
Parse generated code for the part before them and reported success.
---
 parser.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index e5b8299..89588ac 100644
--- a/parser.go
+++ b/parser.go
@@ -11,6 +11,7 @@ package xgen
 import (
 	"encoding/xml"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"reflect"
@@ -99,16 +100,28 @@ func (opt *Options) Parse() (err error) {
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
+	var isSchema bool
 	for {
-		token, _ := decoder.Token()
-		if token == nil {
+		var token xml.Token
+		token, err = decoder.Token()
+		if err == io.EOF {
+			err = nil
 			break
 		}
+		if err != nil {
+			if _, ok := err.(*xml.SyntaxError); ok && !isSchema {
+				// not a schema document, there is nothing to generate from
+				err = nil
+				break
+			}
+			return
+		}
 
 		switch element := token.(type) {
 		case xml.StartElement:
 
 			opt.InElement = element.Name.Local
+			isSchema = isSchema || opt.InElement == "schema"
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
-- 
2.43.0


From 7ec4e2f7061586929f6e8850df11aed4f7e51e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 04/19] fix: report directories and files that can not be
 listed

---
 utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.go b/utils.go
index fe61cea..8cdc110 100644
--- a/utils.go
+++ b/utils.go
@@ -47,6 +47,9 @@ func GetFileList(path string) (files []string, err error) {
 	}
 	if fi.IsDir() {
 		err = filepath.Walk(path, func(fp string, info os.FileInfo, err error) error {
+			if err != nil {
+				return err
+			}
 			files = append(files, fp)
 			return nil
 		})
-- 
2.43.0


From 3a6fec5cefd66bfe1c710b32718e16e1e9f9751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 05/19] fix: generate imported schemas with the package name
 asked for

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index 89588ac..7801832 100644
--- a/parser.go
+++ b/parser.go
@@ -223,6 +223,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 			OutputDir:           opt.OutputDir,
 			Extract:             false,
 			Lang:                opt.Lang,
+			Package:             opt.Package,
 			IncludeMap:          opt.IncludeMap,
 			LocalNameNSMap:      opt.LocalNameNSMap,
 			NSSchemaLocationMap: opt.NSSchemaLocationMap,
-- 
2.43.0


From 2c464b387188a8bdc7de69b6f9248fefdcbd1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 06/19] fix: keep prefixes, locations and includes of schemas
 apart

The maps of a schema document were shared with its dependencies, so that
prefixes and relative locations of one document were applied to another,
and the included schema which defined a type depended on the iteration
order of a map that grew during the iteration. Every document gets its
own maps; includes are searched in a fixed order, transitively.
---
 parser.go | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/parser.go b/parser.go
index 7801832..daae38e 100644
--- a/parser.go
+++ b/parser.go
@@ -15,6 +15,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 
 	"golang.org/x/net/html/charset"
@@ -163,6 +164,16 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// includePaths returns the paths of the schemas included by this one, sorted.
+func (opt *Options) includePaths() []string {
+	var paths []string
+	for include := range opt.IncludeMap {
+		paths = append(paths, filepath.Join(opt.FileDir, include))
+	}
+	sort.Strings(paths)
+	return paths
+}
+
 // GetValueType convert XSD schema value type to the build-in type for the
 // given value and proto tree.
 func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueType string, err error) {
@@ -190,15 +201,20 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if fi.IsDir() {
 		// extract type of value from include schema.
 		valueType = ""
-		for include := range opt.IncludeMap {
+		includes := opt.includePaths()
+		for visited := map[string]bool{opt.FilePath: true}; len(includes) > 0; includes = includes[1:] {
+			if visited[includes[0]] {
+				continue
+			}
+			visited[includes[0]] = true
 			parser := NewParser(&Options{
-				FilePath:            filepath.Join(opt.FileDir, include),
+				FilePath:            includes[0],
 				OutputDir:           opt.OutputDir,
 				Extract:             true,
 				Lang:                opt.Lang,
-				IncludeMap:          opt.IncludeMap,
-				LocalNameNSMap:      opt.LocalNameNSMap,
-				NSSchemaLocationMap: opt.NSSchemaLocationMap,
+				IncludeMap:          make(map[string]bool),
+				LocalNameNSMap:      make(map[string]string),
+				NSSchemaLocationMap: make(map[string]string),
 				ParseFileList:       opt.ParseFileList,
 				ParseFileMap:        opt.ParseFileMap,
 				ProtoTree:           make([]interface{}, 0),
@@ -206,9 +222,11 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 			if parser.Parse() != nil {
 				return
 			}
-			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) {
+			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) && vt != "" {
 				valueType = vt
+				break
 			}
+			includes = append(includes, parser.includePaths()...)
 		}
 		if valueType == "" {
 			valueType = trimNSPrefix(value)
@@ -224,9 +242,9 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 			Extract:             false,
 			Lang:                opt.Lang,
 			Package:             opt.Package,
-			IncludeMap:          opt.IncludeMap,
-			LocalNameNSMap:      opt.LocalNameNSMap,
-			NSSchemaLocationMap: opt.NSSchemaLocationMap,
+			IncludeMap:          make(map[string]bool),
+			LocalNameNSMap:      make(map[string]string),
+			NSSchemaLocationMap: make(map[string]string),
 			ParseFileList:       opt.ParseFileList,
 			ParseFileMap:        opt.ParseFileMap,
 			ProtoTree:           make([]interface{}, 0),
@@ -245,9 +263,9 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		OutputDir:           opt.OutputDir,
 		Extract:             true,
 		Lang:                opt.Lang,
-		IncludeMap:          opt.IncludeMap,
-		LocalNameNSMap:      opt.LocalNameNSMap,
-		NSSchemaLocationMap: opt.NSSchemaLocationMap,
+		IncludeMap:          make(map[string]bool),
+		LocalNameNSMap:      make(map[string]string),
+		NSSchemaLocationMap: make(map[string]string),
 		ParseFileList:       opt.ParseFileList,
 		ParseFileMap:        opt.ParseFileMap,
 		ProtoTree:           make([]interface{}, 0),
-- 
2.43.0


From a45a7fcb6391d55341b8fcf3fd4ff42be3d5da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:47 +0000
Subject: [PATCH 07/19] fix: report failures to process included and imported
 schemas

They were ignored, and the types defined there silently replaced by
weaker ones. Included schemas that do not exist are still skipped.
---
 parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index daae38e..ce61373 100644
--- a/parser.go
+++ b/parser.go
@@ -219,7 +219,11 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 				ParseFileMap:        opt.ParseFileMap,
 				ProtoTree:           make([]interface{}, 0),
 			})
-			if parser.Parse() != nil {
+			if err = parser.Parse(); os.IsNotExist(err) {
+				err = nil
+				continue
+			}
+			if err != nil {
 				return
 			}
 			if vt := getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree); vt != trimNSPrefix(value) && vt != "" {
@@ -249,7 +253,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 			ParseFileMap:        opt.ParseFileMap,
 			ProtoTree:           make([]interface{}, 0),
 		})
-		if parser.Parse() != nil {
+		if err = parser.Parse(); err != nil {
 			return
 		}
 		depXSDSchema = parser.ProtoTree
@@ -270,7 +274,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 		ParseFileMap:        opt.ParseFileMap,
 		ProtoTree:           make([]interface{}, 0),
 	})
-	if parser.Parse() != nil {
+	if err = parser.Parse(); err != nil {
 		return
 	}
 	valueType = getBasefromSimpleType(trimNSPrefix(value), parser.ProtoTree)
-- 
2.43.0


From 2ae48fb6650aa1f45396043e5f62a24d1fa54a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 08/19] fix: concurrent generations must not share their field
 name counts

---
 genC.go          | 2 ++
 genGo.go         | 2 ++
 genJava.go       | 2 ++
 genRust.go       | 2 ++
 genTypeScript.go | 2 ++
 utils.go         | 3 +++
 6 files changed, 13 insertions(+)

diff --git a/genC.go b/genC.go
index 4edca66..1d0e309 100644
--- a/genC.go
+++ b/genC.go
@@ -37,6 +37,8 @@ var cBuildInType = map[string]bool{
 // GenC generates C programming language source code for XML schema definition
 // files.
 func (gen *CodeGenerator) GenC() error {
+	fieldNameCountLock.Lock()
+	defer fieldNameCountLock.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genGo.go b/genGo.go
index b6702da..2f0a5a6 100644
--- a/genGo.go
+++ b/genGo.go
@@ -59,6 +59,8 @@ var goBuildinType = map[string]bool{
 // GenGo generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenGo() error {
+	fieldNameCountLock.Lock()
+	defer fieldNameCountLock.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genJava.go b/genJava.go
index d3d2bcb..256ad72 100644
--- a/genJava.go
+++ b/genJava.go
@@ -32,6 +32,8 @@ var javaBuildInType = map[string]bool{
 // GenJava generate Java programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenJava() error {
+	fieldNameCountLock.Lock()
+	defer fieldNameCountLock.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genRust.go b/genRust.go
index cef40e3..8d61748 100644
--- a/genRust.go
+++ b/genRust.go
@@ -96,6 +96,8 @@ var (
 // GenRust generate Go programming language source code for XML schema
 // definition files.
 func (gen *CodeGenerator) GenRust() error {
+	fieldNameCountLock.Lock()
+	defer fieldNameCountLock.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/genTypeScript.go b/genTypeScript.go
index f257143..2c3a4c7 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -28,6 +28,8 @@ var typeScriptBuildInType = map[string]bool{
 // GenTypeScript generate TypeScript programming language source code for XML
 // schema definition files.
 func (gen *CodeGenerator) GenTypeScript() error {
+	fieldNameCountLock.Lock()
+	defer fieldNameCountLock.Unlock()
 	fieldNameCount = make(map[string]int)
 	for _, ele := range gen.ProtoTree {
 		if ele == nil {
diff --git a/utils.go b/utils.go
index 8cdc110..da7eb85 100644
--- a/utils.go
+++ b/utils.go
@@ -19,6 +19,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 	"unicode"
 	"unicode/utf8"
 )
@@ -28,6 +29,8 @@ var (
 	matchFirstCap  = regexp.MustCompile("([A-Z])([A-Z][a-z])")
 	matchAllCap    = regexp.MustCompile("([a-z0-9])([A-Z])")
 	fieldNameCount map[string]int
+	// fieldNameCountLock serializes the generators that use fieldNameCount.
+	fieldNameCountLock sync.Mutex
 )
 
 // ToSnakeCase converts the provided string to snake_case.
-- 
2.43.0


From 8385901fb730c44acab4e20d5b141cf2a6402a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 09/19] fix: keep generated files of schemas in parent
 directories inside the output directory

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index ce61373..d7248e2 100644
--- a/parser.go
+++ b/parser.go
@@ -145,7 +145,7 @@ func (opt *Options) Parse() (err error) {
 	if !opt.Extract {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
-		path := filepath.Join(opt.OutputDir, strings.TrimPrefix(opt.FilePath, opt.InputDir))
+		path := filepath.Join(opt.OutputDir, filepath.Join(string(filepath.Separator), strings.TrimPrefix(opt.FilePath, opt.InputDir)))
 		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
 			return
 		}
-- 
2.43.0


From cba68951700eeff8e53b167d93004b39d4e99848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:11 +0000
Subject: [PATCH 10/19] fix: mirror the input directory however its path is
 written

---
 parser.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index d7248e2..bd134c1 100644
--- a/parser.go
+++ b/parser.go
@@ -145,7 +145,7 @@ func (opt *Options) Parse() (err error) {
 	if !opt.Extract {
 		opt.ParseFileList[opt.FilePath] = true
 		opt.ParseFileMap[opt.FilePath] = opt.ProtoTree
-		path := filepath.Join(opt.OutputDir, filepath.Join(string(filepath.Separator), strings.TrimPrefix(opt.FilePath, opt.InputDir)))
+		path := opt.outputPath()
 		if err = PrepareOutputDir(filepath.Dir(path)); err != nil {
 			return
 		}
@@ -164,6 +164,19 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// outputPath returns the path of the file to generate, without extension: the
+// path of the schema relative to the input directory, mirrored below the
+// output directory.
+func (opt *Options) outputPath() string {
+	path := opt.FilePath
+	if opt.InputDir != "" {
+		if rel, err := filepath.Rel(opt.InputDir, path); err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			path = rel
+		}
+	}
+	return filepath.Join(opt.OutputDir, filepath.Join(string(filepath.Separator), path))
+}
+
 // includePaths returns the paths of the schemas included by this one, sorted.
 func (opt *Options) includePaths() []string {
 	var paths []string
-- 
2.43.0


From 50e975d40c21fc55c97f08772371695a12b43dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 11/19] fix: do not panic on schemas with misplaced elements

---
 utils.go          |  5 +++++
 xmlComplexType.go | 17 ++++++++++++++---
 xmlGroup.go       | 11 +++++++++--
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/utils.go b/utils.go
index da7eb85..01cb356 100644
--- a/utils.go
+++ b/utils.go
@@ -223,6 +223,11 @@ func ToTitle(val string) string {
 func callFuncByName(receiver interface{}, name string, params []reflect.Value) (err error) {
 	function := reflect.ValueOf(receiver).MethodByName(name)
 	if function.IsValid() {
+		for i, param := range params {
+			if i >= function.Type().NumIn() || !param.Type().AssignableTo(function.Type().In(i)) {
+				return
+			}
+		}
 		rt := function.Call(params)
 		if len(rt) == 0 {
 			return
diff --git a/xmlComplexType.go b/xmlComplexType.go
index ff477e0..304e408 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -8,13 +8,21 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"errors"
+)
+
+var errAnonymousComplexType = errors.New("complexType without a name outside of an element")
 
 // OnComplexType handles parsing event on the complex start elements. A
 // complex element contains other elements and/or attributes.
 func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{}) (err error) {
 	if opt.ComplexType.Len() > 0 {
-		e := opt.Element.Pop().(*Element)
+		e, ok := opt.Element.Pop().(*Element)
+		if !ok {
+			return errAnonymousComplexType
+		}
 		opt.ComplexType.Push(&ComplexType{
 			Name: e.Name,
 		})
@@ -29,7 +37,10 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 			}
 		}
 		if c.Name == "" {
-			e := opt.Element.Pop().(*Element)
+			e, ok := opt.Element.Pop().(*Element)
+			if !ok {
+				return errAnonymousComplexType
+			}
 			c.Name = e.Name
 		}
 		opt.ComplexType.Push(&c)
diff --git a/xmlGroup.go b/xmlGroup.go
index 2a463e6..3450a97 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -8,7 +8,10 @@
 
 package xgen
 
-import "encoding/xml"
+import (
+	"encoding/xml"
+	"errors"
+)
 
 // OnGroup handles parsing event on the group start elements. The group
 // element is used to define a group of elements to be used in complex type
@@ -44,8 +47,12 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 			return
 		}
 		if opt.InGroup > 0 {
+			parent, ok := opt.Group.Peek().(*Group)
+			if !ok {
+				return errors.New("group outside of a schema, complexType or group")
+			}
 			opt.InGroup++
-			opt.Group.Peek().(*Group).Groups = append(opt.Group.Peek().(*Group).Groups, group)
+			parent.Groups = append(parent.Groups, group)
 			return
 		}
 
-- 
2.43.0


From 8470298e06f6da2700d542d1b12ed3c9418d0eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 12/19] fix: keep groups that contain inline types

The end of a group was only noticed while no inline simpleType or
complexType had changed the current element: the group was lost, and
with it every later top-level element and group.
---
 xmlGroup.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xmlGroup.go b/xmlGroup.go
index 3450a97..e80898d 100644
--- a/xmlGroup.go
+++ b/xmlGroup.go
@@ -68,14 +68,14 @@ func (opt *Options) OnGroup(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndGroup handles parsing event on the group end elements.
 func (opt *Options) EndGroup(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if ele.Name.Local == opt.CurrentEle && opt.InGroup == 1 {
+	if opt.ComplexType.Len() > 0 || opt.InGroup == 0 {
+		return
+	}
+	if opt.InGroup == 1 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.Group.Pop())
 		opt.CurrentEle = ""
-		opt.InGroup--
-	}
-	if ele.Name.Local == opt.CurrentEle {
-		opt.InGroup--
 	}
+	opt.InGroup--
 	return
 }
 
-- 
2.43.0


From 8abb93188263fe3335b69a2e8d5262b1e54fdc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:08 +0000
Subject: [PATCH 13/19] fix: an element must not take the place of the type of
 its name

Types and elements have names of their own in XSD. When a top-level
element preceded the type of the same name, only the element was
generated and the definition of the type was lost.
---
 genC.go          |  3 +++
 genGo.go         |  3 +++
 genJava.go       |  3 +++
 genRust.go       |  3 +++
 genTypeScript.go |  3 +++
 utils.go         | 18 ++++++++++++++++++
 6 files changed, 33 insertions(+)

diff --git a/genC.go b/genC.go
index 1d0e309..edb52e9 100644
--- a/genC.go
+++ b/genC.go
@@ -246,6 +246,9 @@ func (gen *CodeGenerator) CAttributeGroup(v *AttributeGroup) {
 
 // CElement generates code for element XML schema in C language syntax.
 func (gen *CodeGenerator) CElement(v *Element) {
+	if definesType(v.Name, gen.ProtoTree) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var plural, fieldType string
 		var ok bool
diff --git a/genGo.go b/genGo.go
index 2f0a5a6..a3f60dd 100644
--- a/genGo.go
+++ b/genGo.go
@@ -302,6 +302,9 @@ func (gen *CodeGenerator) GoAttributeGroup(v *AttributeGroup) {
 
 // GoElement generates code for element XML schema in Go language syntax.
 func (gen *CodeGenerator) GoElement(v *Element) {
+	if definesType(v.Name, gen.ProtoTree) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var plural string
 		if v.Plural {
diff --git a/genJava.go b/genJava.go
index 256ad72..f51f141 100644
--- a/genJava.go
+++ b/genJava.go
@@ -246,6 +246,9 @@ func (gen *CodeGenerator) JavaAttributeGroup(v *AttributeGroup) {
 
 // JavaElement generates code for element XML schema in Java language syntax.
 func (gen *CodeGenerator) JavaElement(v *Element) {
+	if definesType(v.Name, gen.ProtoTree) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		var fieldType = genJavaFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
 		if v.Plural {
diff --git a/genRust.go b/genRust.go
index 8d61748..522571c 100644
--- a/genRust.go
+++ b/genRust.go
@@ -317,6 +317,9 @@ func (gen *CodeGenerator) RustAttributeGroup(v *AttributeGroup) {
 
 // RustElement generates code for element XML schema in Rust language syntax.
 func (gen *CodeGenerator) RustElement(v *Element) {
+	if definesType(v.Name, gen.ProtoTree) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		fieldType := genRustFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree))
 		fieldName := genRustFieldName(v.Name)
diff --git a/genTypeScript.go b/genTypeScript.go
index 2c3a4c7..bc2ec12 100644
--- a/genTypeScript.go
+++ b/genTypeScript.go
@@ -232,6 +232,9 @@ func (gen *CodeGenerator) TypeScriptAttributeGroup(v *AttributeGroup) {
 
 // TypeScriptElement generates code for element XML schema in TypeScript language syntax.
 func (gen *CodeGenerator) TypeScriptElement(v *Element) {
+	if definesType(v.Name, gen.ProtoTree) {
+		return
+	}
 	if _, ok := gen.StructAST[v.Name]; !ok {
 		gen.StructAST[v.Name] = fmt.Sprintf(" %s;\n", genTypeScriptFieldType(getBasefromSimpleType(trimNSPrefix(v.Type), gen.ProtoTree), v.Plural))
 		fieldName := genTypeScriptFieldName(v.Name, true)
diff --git a/utils.go b/utils.go
index 01cb356..f906c29 100644
--- a/utils.go
+++ b/utils.go
@@ -180,6 +180,24 @@ func getBasefromSimpleType(name string, XSDSchema []interface{}) string {
 	return name
 }
 
+// definesType reports whether the proto tree defines a type of the given name.
+// An element of that name, which XSD allows, must not take the type's place.
+func definesType(name string, XSDSchema []interface{}) bool {
+	for _, ele := range XSDSchema {
+		switch v := ele.(type) {
+		case *SimpleType:
+			if v.Name == name {
+				return true
+			}
+		case *ComplexType:
+			if v.Name == name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func getNSPrefix(str string) (ns string) {
 	split := strings.Split(str, ":")
 	if len(split) == 2 {
-- 
2.43.0


From 26dbb8c37ef556aa2fa10333d113549f6deec067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:01 +0000
Subject: [PATCH 14/19] fix: take the location of an import whatever the order
 of its attributes

An import that gives schemaLocation before namespace was recorded for no
namespace, so the types taken from it lost their definitions.
---
 schema.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema.go b/schema.go
index de72f46..f15fde7 100644
--- a/schema.go
+++ b/schema.go
@@ -24,6 +24,8 @@ func (opt *Options) prepareNSSchemaLocationMap(element xml.StartElement) {
 		if ele.Name.Local == "namespace" {
 			currentNS = ele.Value
 		}
+	}
+	for _, ele := range element.Attr {
 		if ele.Name.Local == "schemaLocation" {
 			if _, ok := opt.NSSchemaLocationMap[currentNS]; ok {
 				continue
-- 
2.43.0


From 2d0954f3605d4511f679c5f72cc747713f22a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 15/19] fix: keep the parser state of one declaration from the
 next

Elements without a type and inline simple types leave entries on the
parser's stacks. A later simple type was then taken for the type of such
an element and lost, and a later restriction put the element in the
place of one of its own.
---
 parser.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/parser.go b/parser.go
index bd134c1..e3a0e61 100644
--- a/parser.go
+++ b/parser.go
@@ -85,23 +85,12 @@ func (opt *Options) Parse() (err error) {
 	}
 	opt.ProtoTree = make([]interface{}, 0)
 
-	opt.InElement = ""
-	opt.CurrentEle = ""
-	opt.InGroup = 0
-	opt.InUnion = false
-	opt.InAttributeGroup = false
-
-	opt.SimpleType = NewStack()
-	opt.ComplexType = NewStack()
-	opt.Element = NewStack()
-	opt.Attribute = NewStack()
-	opt.Group = NewStack()
-	opt.AttributeGroup = NewStack()
-	opt.Choice = NewStack()
+	opt.resetState()
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
 	var isSchema bool
+	var depth int
 	for {
 		var token xml.Token
 		token, err = decoder.Token()
@@ -121,6 +110,7 @@ func (opt *Options) Parse() (err error) {
 		switch element := token.(type) {
 		case xml.StartElement:
 
+			depth++
 			opt.InElement = element.Name.Local
 			isSchema = isSchema || opt.InElement == "schema"
 			funcName := fmt.Sprintf("On%s", MakeFirstUpperCase(opt.InElement))
@@ -133,6 +123,10 @@ func (opt *Options) Parse() (err error) {
 			if err = callFuncByName(opt, funcName, []reflect.Value{reflect.ValueOf(element), reflect.ValueOf(opt.ProtoTree)}); err != nil {
 				return
 			}
+			if depth--; depth == 1 {
+				// nothing of a declaration is left for the next one
+				opt.resetState()
+			}
 		case xml.CharData:
 			if err = opt.OnCharData(string(element), opt.ProtoTree); err != nil {
 				return
@@ -164,6 +158,23 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// resetState forgets the declarations being parsed.
+func (opt *Options) resetState() {
+	opt.InElement = ""
+	opt.CurrentEle = ""
+	opt.InGroup = 0
+	opt.InUnion = false
+	opt.InAttributeGroup = false
+
+	opt.SimpleType = NewStack()
+	opt.ComplexType = NewStack()
+	opt.Element = NewStack()
+	opt.Attribute = NewStack()
+	opt.Group = NewStack()
+	opt.AttributeGroup = NewStack()
+	opt.Choice = NewStack()
+}
+
 // outputPath returns the path of the file to generate, without extension: the
 // path of the schema relative to the input directory, mirrored below the
 // output directory.
-- 
2.43.0


From 4c34d8e01aa3c325c0bd25e74d6dff5904d26038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:11 +0000
Subject: [PATCH 16/19] fix: keep a type whose name an anonymous restriction of
 it uses first

---
 xmlRestriction.go | 1 +
 xmlSimpleType.go  | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmlRestriction.go b/xmlRestriction.go
index 8f2880c..81cca88 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -28,6 +28,7 @@ func (opt *Options) OnRestriction(ele xml.StartElement, protoTree []interface{})
 				}
 				if opt.SimpleType.Peek().(*SimpleType).Name == "" {
 					opt.SimpleType.Peek().(*SimpleType).Name = attr.Value
+					opt.SimpleType.Peek().(*SimpleType).Anonymous = true
 				}
 			}
 		}
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index 45f9e25..c6b9b5e 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -41,7 +41,12 @@ func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (
 	}
 
 	if ele.Name.Local == opt.CurrentEle && !opt.InUnion {
-		opt.ProtoTree = append(opt.ProtoTree, opt.SimpleType.Pop())
+		s := opt.SimpleType.Pop()
+		if v, ok := s.(*SimpleType); !ok || !v.Anonymous || v.Name != v.Base || BuildInTypes[v.Name] != nil {
+			// an anonymous type must not take the place of its base type, which
+			// is declared elsewhere
+			opt.ProtoTree = append(opt.ProtoTree, s)
+		}
 		opt.CurrentEle = ""
 	}
 	return
-- 
2.43.0


From 4defc0f4309af81327316c7da99b2299d67f2255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:40 +0000
Subject: [PATCH 17/19] fix: keep generated imports apart from the file that
 the output path names

Generating a schema with imports to a path with the extension of the
language, as in -o schema.go, created a directory of that name for the
imported schemas and then failed to create the file.
---
 parser.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index e3a0e61..e853a2b 100644
--- a/parser.go
+++ b/parser.go
@@ -188,6 +188,26 @@ func (opt *Options) outputPath() string {
 	return filepath.Join(opt.OutputDir, filepath.Join(string(filepath.Separator), path))
 }
 
+// fileExtension holds the extension of the generated files by language.
+var fileExtension = map[string]string{
+	"Go":         ".go",
+	"C":          ".h",
+	"Java":       ".java",
+	"Rust":       ".rs",
+	"TypeScript": ".ts",
+}
+
+// importOutputDir returns the output directory for the imported schemas. It
+// is named after the generated file if the output is that file rather than a
+// directory, so that both can exist.
+func (opt *Options) importOutputDir() string {
+	path := opt.outputPath()
+	if extension := fileExtension[opt.Lang]; path == filepath.Clean(opt.OutputDir) && strings.HasSuffix(path, extension) {
+		return strings.TrimSuffix(path, extension)
+	}
+	return opt.OutputDir
+}
+
 // includePaths returns the paths of the schemas included by this one, sorted.
 func (opt *Options) includePaths() []string {
 	var paths []string
@@ -266,7 +286,7 @@ func (opt *Options) GetValueType(value string, XSDSchema []interface{}) (valueTy
 	if !ok {
 		parser := NewParser(&Options{
 			FilePath:            xsdFile,
-			OutputDir:           opt.OutputDir,
+			OutputDir:           opt.importOutputDir(),
 			Extract:             false,
 			Lang:                opt.Lang,
 			Package:             opt.Package,
-- 
2.43.0


From 57a42ee3cca9443cee27b1bc52b916894c6e60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:16 +0000
Subject: [PATCH 18/19] fix: read schemas that are encoded in UTF-16

A schema in UTF-16 was taken for a file that is no schema: generation
reported success and the output was empty.
---
 parser.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index e853a2b..9896b14 100644
--- a/parser.go
+++ b/parser.go
@@ -89,7 +89,7 @@ func (opt *Options) Parse() (err error) {
 
 	decoder := xml.NewDecoder(xmlFile)
 	decoder.CharsetReader = charset.NewReaderLabel
-	var isSchema bool
+	var isSchema, isUTF16 bool
 	var depth int
 	for {
 		var token xml.Token
@@ -100,6 +100,17 @@ func (opt *Options) Parse() (err error) {
 		}
 		if err != nil {
 			if _, ok := err.(*xml.SyntaxError); ok && !isSchema {
+				if !isUTF16 {
+					var reader io.Reader
+					if reader, err = utf16Reader(xmlFile); err != nil {
+						return
+					}
+					if isUTF16 = reader != nil; isUTF16 {
+						decoder = xml.NewDecoder(reader)
+						decoder.CharsetReader = func(label string, input io.Reader) (io.Reader, error) { return input, nil }
+						continue
+					}
+				}
 				// not a schema document, there is nothing to generate from
 				err = nil
 				break
@@ -158,6 +169,27 @@ func (opt *Options) Parse() (err error) {
 	return
 }
 
+// utf16Reader returns a reader of the text of the file from its beginning on
+// if a byte order mark tells that it is encoded in UTF-16, and nil otherwise.
+func utf16Reader(file *os.File) (io.Reader, error) {
+	if _, err := file.Seek(0, io.SeekStart); err != nil {
+		return nil, err
+	}
+	mark := make([]byte, 2)
+	if _, err := io.ReadFull(file, mark); err == io.EOF || err == io.ErrUnexpectedEOF {
+		return nil, nil
+	} else if err != nil {
+		return nil, err
+	}
+	switch string(mark) {
+	case "\xff\xfe":
+		return charset.NewReaderLabel("utf-16le", file)
+	case "\xfe\xff":
+		return charset.NewReaderLabel("utf-16be", file)
+	}
+	return nil, nil
+}
+
 // resetState forgets the declarations being parsed.
 func (opt *Options) resetState() {
 	opt.InElement = ""
-- 
2.43.0


From f4ede1df080ea7dec3a17d8c25bb4938722ba075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:46 +0000
Subject: [PATCH 19/19] fix: keep the members that follow a member with a type
 of its own

The type of an element that is defined inside the element ended the complex
type the element is a member of, or stayed current for the members and
attributes after it: members were moved out of their type, took the place
of each other or got the type of another one.
---
 parser.go         |  2 ++
 xmlComplexType.go |  4 ++++
 xmlElement.go     | 24 +++++++++++++++++++++++-
 xmlRestriction.go |  4 +---
 xmlSimpleType.go  | 12 ++++++++++--
 xmlUnion.go       |  4 +---
 6 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/parser.go b/parser.go
index 9896b14..7d08835 100644
--- a/parser.go
+++ b/parser.go
@@ -44,6 +44,7 @@ type Options struct {
 	InGroup          int
 	InUnion          bool
 	InAttributeGroup bool
+	typedMember      bool
 
 	SimpleType     *Stack
 	ComplexType    *Stack
@@ -197,6 +198,7 @@ func (opt *Options) resetState() {
 	opt.InGroup = 0
 	opt.InUnion = false
 	opt.InAttributeGroup = false
+	opt.typedMember = false
 
 	opt.SimpleType = NewStack()
 	opt.ComplexType = NewStack()
diff --git a/xmlComplexType.go b/xmlComplexType.go
index 304e408..bb275da 100644
--- a/xmlComplexType.go
+++ b/xmlComplexType.go
@@ -52,5 +52,9 @@ func (opt *Options) OnComplexType(ele xml.StartElement, protoTree []interface{})
 func (opt *Options) EndComplexType(ele xml.EndElement, protoTree []interface{}) (err error) {
 	opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
 	opt.CurrentEle = ""
+	if opt.ComplexType.Len() > 0 {
+		// the member that this was the type of is still open
+		opt.Element.Push(&Element{})
+	}
 	return
 }
diff --git a/xmlElement.go b/xmlElement.go
index ffc3c84..b3f17bc 100644
--- a/xmlElement.go
+++ b/xmlElement.go
@@ -50,7 +50,8 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 		}
 	}
 
-	if e.Type == "" {
+	typed := e.Type != ""
+	if !typed {
 		e.Type, err = opt.GetValueType(e.Name, protoTree)
 		if err != nil {
 			return
@@ -63,6 +64,7 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 	}
 
 	if opt.ComplexType.Len() > 0 {
+		opt.typedMember = typed
 		element, i := findElement(&e, opt.ComplexType.Peek().(*ComplexType).Elements)
 		// Handle a case where two elements with the same name and type are present in the same complex type
 		// This can happen with a Choice that includes a definition for a single value of a type along with
@@ -93,6 +95,14 @@ func (opt *Options) OnElement(ele xml.StartElement, protoTree []interface{}) (er
 
 // EndElement handles parsing event on the element end elements.
 func (opt *Options) EndElement(ele xml.EndElement, protoTree []interface{}) (err error) {
+	if opt.ComplexType.Len() > 0 {
+		if !opt.typedMember {
+			// what follows does not belong to this member any more
+			opt.Element.Pop()
+		}
+		opt.typedMember = false
+		return
+	}
 	if opt.Element.Len() > 0 && opt.ComplexType.Len() == 0 {
 		opt.ProtoTree = append(opt.ProtoTree, opt.Element.Pop())
 	}
@@ -107,3 +117,15 @@ func findElement(element *Element, elements []Element) (existing *Element, index
 	}
 	return nil, -1
 }
+
+// updateMember takes over what became known about the type of the member that
+// was added to the complex type last.
+func (opt *Options) updateMember() {
+	if opt.Element.Empty() || opt.ComplexType.Empty() {
+		return
+	}
+	e, elements := opt.Element.Peek().(*Element), opt.ComplexType.Peek().(*ComplexType).Elements
+	if last := len(elements) - 1; last >= 0 && elements[last].Name == e.Name {
+		elements[last] = *e
+	}
+}
diff --git a/xmlRestriction.go b/xmlRestriction.go
index 81cca88..f8e6480 100644
--- a/xmlRestriction.go
+++ b/xmlRestriction.go
@@ -46,9 +46,7 @@ func (opt *Options) EndRestriction(ele xml.EndElement, protoTree []interface{})
 		opt.CurrentEle = ""
 	}
 	if !opt.Element.Empty() {
-		if !opt.ComplexType.Empty() && len(opt.ComplexType.Peek().(*ComplexType).Elements) > 0 {
-			opt.ComplexType.Peek().(*ComplexType).Elements[len(opt.ComplexType.Peek().(*ComplexType).Elements)-1] = *opt.Element.Peek().(*Element)
-		}
+		opt.updateMember()
 	}
 	return
 }
diff --git a/xmlSimpleType.go b/xmlSimpleType.go
index c6b9b5e..ae92981 100644
--- a/xmlSimpleType.go
+++ b/xmlSimpleType.go
@@ -35,9 +35,17 @@ func (opt *Options) EndSimpleType(ele xml.EndElement, protoTree []interface{}) (
 		opt.Attribute.Peek().(*Attribute).Type = opt.SimpleType.Pop().(*SimpleType).Base
 		return
 	}
-	if ele.Name.Local == opt.CurrentEle && opt.ComplexType.Len() == 1 {
-		opt.ProtoTree = append(opt.ProtoTree, opt.ComplexType.Pop())
+	if opt.SimpleType.Len() > 0 && opt.Element.Len() > 0 && !opt.InUnion {
+		// the type of an element, which ends neither the element nor the type
+		// that the element is a member of
+		if s := opt.SimpleType.Pop().(*SimpleType); s.Base != "" {
+			opt.Element.Peek().(*Element).Type = s.Base
+		} else {
+			opt.Element.Peek().(*Element).Type, _ = getBuildInTypeByLang("anyType", opt.Lang)
+		}
+		opt.updateMember()
 		opt.CurrentEle = ""
+		return
 	}
 
 	if ele.Name.Local == opt.CurrentEle && !opt.InUnion {
diff --git a/xmlUnion.go b/xmlUnion.go
index dce084f..b9653ab 100644
--- a/xmlUnion.go
+++ b/xmlUnion.go
@@ -40,8 +40,6 @@ func (opt *Options) OnUnion(ele xml.StartElement, protoTree []interface{}) (err
 
 // EndUnion handles parsing event on the union end elements.
 func (opt *Options) EndUnion(ele xml.EndElement, protoTree []interface{}) (err error) {
-	if opt.SimpleType.Len() > 0 {
-		opt.InUnion = false
-	}
+	opt.InUnion = false
 	return
 }
-- 
2.43.0

