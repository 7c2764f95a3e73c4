From acff1e43eaa788fc0e981b7216660d0b079b56e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 01/35] fix: store reflected result types in Signature.Results

signatureFromReflectType wrote the result types into Args, which lost all
results and panicked for functions with more results than arguments.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a811c6a..2378d07 100644
--- a/types.go
+++ b/types.go
@@ -624,7 +624,7 @@ func signatureFromReflectType(t reflect.Type, sig *Signature) {
 	}
 	sig.Results = make([]ArgType, t.NumOut())
 	for i := 0; i < t.NumOut(); i++ {
-		sig.Args[i] = ArgType{
+		sig.Results[i] = ArgType{
 			Type: TypeNameForReflectType(t.Out(i)),
 		}
 	}
-- 
2.43.0


From f496cfdaa227947fb32291e0b5032d924665e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 02/35] fix: keep embedded fields embedded when converting
 reflect types

TypeNameForReflectType turned an embedded field into a named one, which is a
different struct type. TypeNameForGoType already does this correctly.
---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 2378d07..fba068e 100644
--- a/types.go
+++ b/types.go
@@ -592,8 +592,12 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 		fields := make([]FieldType, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
+			var name string
+			if !field.Anonymous {
+				name = field.Name
+			}
 			fields[i] = FieldType{
-				Name: field.Name,
+				Name: name,
 				Type: TypeNameForReflectType(field.Type),
 				Tag:  field.Tag,
 			}
-- 
2.43.0


From c299b95ca9161369ecf61baf4a71b428cb89346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 03/35] fix: separate embedded interfaces from methods in
 interface types

An unnamed interface type with both embeds and methods was rendered without a
separator between the last embed and the first method ("interface{errorFoo()}").
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index fba068e..497f9c1 100644
--- a/types.go
+++ b/types.go
@@ -904,7 +904,7 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString(emb.Name)
 		}
 		for i, mtd := range tn.Methods() {
-			if i > 0 {
+			if i > 0 || len(tn.Embeds()) > 0 {
 				b.WriteString("; ")
 			}
 			b.WriteString(mtd.Name)
-- 
2.43.0


From b12aad10a1415b286cef19086135cb7f6a370f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 04/35] fix: parenthesize receive-only channel elements of
 bidirectional channels

"chan <-chan T" parses as chan<- (chan T), a different type.
---
 types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/types.go b/types.go
index 497f9c1..38c68f1 100644
--- a/types.go
+++ b/types.go
@@ -863,7 +863,15 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString("<-")
 		}
 		b.WriteRune(' ')
+		// the "<-" in "chan <-chan T" would bind to the left-most chan
+		parens := tn.Dir() == reflect.BothDir && tn.Elem().Kind() == KindChan && tn.Elem().Dir() == reflect.RecvDir
+		if parens {
+			b.WriteRune('(')
+		}
 		typeNameToBuffer(tn.Elem(), b)
+		if parens {
+			b.WriteRune(')')
+		}
 	case KindFunc:
 		b.WriteString("func")
 		signatureToBuffer(tn.Signature(), b)
-- 
2.43.0


From 998cf300c50af211772ef07cdb1bc1b034a394dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 05/35] fix: convert predeclared go/types types and objects

Types and objects from the universe scope (such as error) have no package, so
converting them dereferenced a nil *types.Package.
---
 model.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 9dc510d..98b1a9a 100644
--- a/model.go
+++ b/model.go
@@ -64,8 +64,12 @@ func (p Package) String() string {
 }
 
 // PackageForGoType returns a Package for the given Go types package. This is
-// useful for converting between package representations.
+// useful for converting between package representations. For predeclared
+// elements, whose package is nil, the zero value is returned.
 func PackageForGoType(pkg *types.Package) Package {
+	if pkg == nil {
+		return Package{}
+	}
 	return Package{
 		Name:       pkg.Name(),
 		ImportPath: pkg.Path(),
-- 
2.43.0


From dc4a12190dfb90d84351505196730e1c936bca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 06/35] fix: convert alias types of go/types to references to
 the alias

Since Go 1.22 the type checker can represent aliases (even the predeclared any)
as *types.Alias, for which TypeNameForGoType panicked.
---
 model.go          |  7 ++++---
 types.go          |  7 +++++++
 types_alias.go    | 21 +++++++++++++++++++++
 types_no_alias.go | 13 +++++++++++++
 4 files changed, 45 insertions(+), 3 deletions(-)
 create mode 100644 types_alias.go
 create mode 100644 types_no_alias.go

diff --git a/model.go b/model.go
index 98b1a9a..724d55c 100644
--- a/model.go
+++ b/model.go
@@ -108,10 +108,11 @@ func SymbolForGoObject(obj types.Object) SymbolOrMethodRef {
 		sig := fn.Type().(*types.Signature)
 		if sig.Recv() != nil {
 			// it's a method
-			recvType := TypeNameForGoType(sig.Recv().Type())
-			if recvType.Kind() == KindPtr {
-				recvType = recvType.Elem()
+			goRecvType := unalias(sig.Recv().Type())
+			if ptr, ok := goRecvType.(*types.Pointer); ok {
+				goRecvType = unalias(ptr.Elem())
 			}
+			recvType := TypeNameForGoType(goRecvType)
 			return MethodReference{
 				Type:   recvType.Symbol(),
 				Method: obj.Name(),
diff --git a/types.go b/types.go
index 38c68f1..de34596 100644
--- a/types.go
+++ b/types.go
@@ -396,6 +396,13 @@ var (
 
 // TypeNameForGoType converts the given "go/types" type into a TypeName.
 func TypeNameForGoType(t types.Type) TypeName {
+	if obj := aliasName(t); obj != nil {
+		return NamedType(Symbol{
+			Name:    obj.Name(),
+			Package: PackageForGoType(obj.Pkg()),
+		})
+	}
+
 	switch t := t.(type) {
 	case *types.Named:
 		obj := t.Obj()
diff --git a/types_alias.go b/types_alias.go
new file mode 100644
index 0000000..4467bb6
--- /dev/null
+++ b/types_alias.go
@@ -0,0 +1,21 @@
+//+build go1.22
+
+package gopoet
+
+import "go/types"
+
+// aliasName returns the name of the given type if it is an alias, which the
+// type checker can represent as a distinct node as of Go 1.22. Otherwise, it
+// returns nil.
+func aliasName(t types.Type) *types.TypeName {
+	if alias, ok := t.(*types.Alias); ok {
+		return alias.Obj()
+	}
+	return nil
+}
+
+// unalias returns the actual type for which the given type is an alias, or the
+// given type if it is not one.
+func unalias(t types.Type) types.Type {
+	return types.Unalias(t)
+}
diff --git a/types_no_alias.go b/types_no_alias.go
new file mode 100644
index 0000000..57c4bb5
--- /dev/null
+++ b/types_no_alias.go
@@ -0,0 +1,13 @@
+//+build !go1.22
+
+package gopoet
+
+import "go/types"
+
+func aliasName(t types.Type) *types.TypeName {
+	return nil
+}
+
+func unalias(t types.Type) types.Type {
+	return t
+}
-- 
2.43.0


From 3db0af079ffaaa88ed6f48c82ac0abc70d63892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 07/35] fix: convert interfaces that embed unnamed interfaces

Embedded returns nil for an embedded interface that is not a named type, so
TypeNameForGoType dereferenced nil.
---
 types.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/types.go b/types.go
index de34596..c31f7c8 100644
--- a/types.go
+++ b/types.go
@@ -508,20 +508,38 @@ func TypeNameForGoType(t types.Type) TypeName {
 		return StructType(fields...)
 
 	case *types.Interface:
-		embeds := make([]Symbol, t.NumEmbeddeds())
-		for i := 0; i < t.NumEmbeddeds(); i++ {
-			//lint:ignore SA1019 we still support Go 1.10 which does not have non-deprecated EmbeddedType
-			obj := t.Embedded(i).Obj()
-			embeds[i] = Symbol{
-				Name:    obj.Name(),
-				Package: PackageForGoType(obj.Pkg()),
-			}
-		}
+		var embeds []Symbol
 		methods := make([]MethodType, t.NumExplicitMethods())
+		seen := map[string]bool{}
 		for i := 0; i < t.NumExplicitMethods(); i++ {
 			method := t.ExplicitMethod(i)
 			methods[i].Name = method.Name()
 			signatureFromGoType(method.Type().(*types.Signature), &methods[i].Signature)
+			seen[method.Name()] = true
+		}
+		for i := 0; i < t.NumEmbeddeds(); i++ {
+			//lint:ignore SA1019 we still support Go 1.10 which does not have non-deprecated EmbeddedType
+			if named := t.Embedded(i); named != nil {
+				obj := named.Obj()
+				embeds = append(embeds, Symbol{
+					Name:    obj.Name(),
+					Package: PackageForGoType(obj.Pkg()),
+				})
+				continue
+			}
+			// An embedded interface with no name cannot be referenced by a
+			// symbol, so we fold its contents into the enclosing interface.
+			embedded := TypeNameForGoType(t.EmbeddedType(i))
+			if embedded.Kind() != KindInterface {
+				panic(fmt.Sprintf("interface that embeds %v cannot be represented as TypeName", embedded))
+			}
+			embeds = append(embeds, embedded.Embeds()...)
+			for _, m := range embedded.Methods() {
+				if !seen[m.Name] {
+					seen[m.Name] = true
+					methods = append(methods, m)
+				}
+			}
 		}
 		return InterfaceType(embeds, methods...)
 
-- 
2.43.0


From 4173c927013559aa00ac414bb13565182125b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 08/35] fix: let WriteGoFilesToGoPath write files when GOPATH
 is set

The check for an empty list was inverted, so it failed for every non-empty
GOPATH.
---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 724d55c..509c8d9 100644
--- a/model.go
+++ b/model.go
@@ -271,7 +271,7 @@ func WriteGoFilesToGoPath(files ...*GoFile) error {
 		return errors.New("GOPATH is empty")
 	}
 	paths := strings.Split(gopath, string(filepath.ListSeparator))
-	if len(paths) != 0 {
+	if len(paths) == 0 {
 		return errors.New("GOPATH is empty")
 	}
 	return WriteGoFilesToFileSystem(paths[0], files...)
-- 
2.43.0


From c268b09946ebd6a967ab8e68db36dc568e9a05c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:58 +0000
Subject: [PATCH 09/35] fix: report errors from closing a written file

WriteGoFiles ignored the error from Close, so data that could not be flushed
was lost while reporting success.
---
 model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 509c8d9..21c5163 100644
--- a/model.go
+++ b/model.go
@@ -236,8 +236,12 @@ func WriteGoFiles(outFn func(path string) (io.WriteCloser, error), files ...*GoF
 		if err != nil {
 			return err
 		}
-		err = func() error {
-			defer w.Close()
+		err = func() (err error) {
+			defer func() {
+				if closeErr := w.Close(); err == nil {
+					err = closeErr
+				}
+			}()
 			return WriteGoFile(w, file)
 		}()
 		if err != nil {
-- 
2.43.0


From 72435ea87711df7b57902547e332e984c260f6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 10/35] fix: make Export and Unexport right for every leading
 character

Letters with an upper-case mapping that is not an upper-case letter (such as
U+24D0 or U+1FB3) stayed unexported, upper-case letters with no lower-case
mapping (such as U+1D400) stayed exported, and a valid U+FFFD was mistaken for
invalid UTF-8.
---
 names.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/names.go b/names.go
index 856c3d5..9cb2608 100644
--- a/names.go
+++ b/names.go
@@ -14,11 +14,16 @@ func Unexport(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
-	r = unicode.ToLower(r)
-	return string(r) + s[sz:]
+	lowerR := unicode.ToLower(r)
+	if unicode.IsUpper(lowerR) {
+		// r is an upper-case letter that has no lower-case form :(
+		// just prefix with lower-case x to make returned string unexported
+		return "x" + s
+	}
+	return string(lowerR) + s[sz:]
 }
 
 // Export returns an exported form of the given name. It does not try to verify
@@ -32,14 +37,14 @@ func Export(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz <= 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	if unicode.IsUpper(r) {
 		return s // already exported
 	}
 	upperR := unicode.ToUpper(r)
-	if upperR == r {
+	if !unicode.IsUpper(upperR) {
 		if r == '_' {
 			return "X" + s[sz:]
 		}
-- 
2.43.0


From babd9b353e9a311f3eaa8bb58f12a23bfbf601e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 11/35] fix: derive a legal alias for packages whose name is
 not known

The last element of the import path was used verbatim, which is not always an
identifier ("yaml.v2", "go-cmp", "9p"), may be a keyword, and may shadow a
predeclared identifier that the file uses.
---
 imports.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/imports.go b/imports.go
index 6a159ae..6d72c93 100644
--- a/imports.go
+++ b/imports.go
@@ -2,10 +2,15 @@ package gopoet
 
 import (
 	"fmt"
+	"go/token"
+	"go/types"
 	"path"
 	"reflect"
 	"sort"
 	"strconv"
+	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // Imports accumulate a set of package imports, used for generating a Go source
@@ -81,7 +86,7 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 
 	p := packageName
 	if packageName == "" {
-		p = path.Base(importPath)
+		p = aliasForPath(importPath)
 	}
 	pkgBase := p
 	suffix := 1
@@ -103,6 +108,25 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 	}
 }
 
+// aliasForPath computes an alias for a package whose name is not known. It is
+// the last element of the given import path, adjusted if that is not suitable
+// as a package qualifier (e.g. "yaml.v2", "go-cmp", or "type").
+func aliasForPath(importPath string) string {
+	alias := strings.Map(func(r rune) rune {
+		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, path.Base(importPath))
+	if first, _ := utf8.DecodeRuneInString(alias); unicode.IsDigit(first) || strings.Trim(alias, "_") == "" {
+		alias = "pkg" + alias
+	}
+	if token.Lookup(alias).IsKeyword() || types.Universe.Lookup(alias) != nil || alias == "init" {
+		alias += "_"
+	}
+	return alias
+}
+
 // EnsureImported ensures that the given symbol is imported and returns a new
 // symbol that has the correct package prefix (based on how the given symbol's
 // package was imported/aliased). If the symbol is already in Imports source
-- 
2.43.0


From 63a47984502d9f3a1726487d91d9b1573dc880f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 12/35] fix: qualify *TypeSpec types of consts, vars, and
 fields as references

A named *TypeSpec used as the type of a const, var, or field was rendered with
its package name even in its own package and was never imported in others.
Also, the body of the referenced type was qualified for the wrong file.
---
 model.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/model.go b/model.go
index 21c5163..ff0d52f 100644
--- a/model.go
+++ b/model.go
@@ -496,8 +496,15 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	case TypeName:
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
-		t.qualify(imports)
-		return t
+		if t.Name == "" {
+			t.qualify(imports)
+			return t
+		}
+		if t.parent == nil {
+			return t
+		}
+		// this is just a reference to a named type, defined elsewhere
+		return imports.EnsureTypeImported(t.ToTypeName())
 	default:
 		panic(fmt.Sprintf("unrecognized type %T", t))
 	}
@@ -1137,12 +1144,7 @@ func (t *TypeSpec) isTypeNameOrSpec() {}
 func (t *TypeSpec) qualify(imports *Imports) {
 	t.underlying = imports.EnsureTypeImported(t.underlying)
 	for _, fs := range t.structBody {
-		switch t := fs.Type.(type) {
-		case TypeName:
-			fs.Type = imports.EnsureTypeImported(t)
-		case *TypeSpec:
-			t.qualify(imports)
-		}
+		fs.Type = qualifyType(imports, fs.Type)
 	}
 	for _, ie := range t.interfaceBody {
 		ie.qualify(imports)
-- 
2.43.0


From 075e99eeb7dff3a234890d01db687c9020a4d48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 13/35] fix: render tags and comments of inline struct and
 interface types

The tag of a field whose type is an inline struct or interface (or an unnamed
*TypeSpec) was written on the line after the type, a syntax error. And the
comments inside an unnamed *TypeSpec were lost when it was the type of a const
or var.
---
 model.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/model.go b/model.go
index ff0d52f..62ab275 100644
--- a/model.go
+++ b/model.go
@@ -637,7 +637,8 @@ func (c *ConstSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 	}
 	fmt.Fprintf(b, "%s", strings.Join(c.Names, ", "))
 	if c.Type != nil {
-		fmt.Fprintf(b, " %v", c.Type)
+		b.WriteRune(' ')
+		writeType(c.Type, b)
 	}
 	if c.Initializer != nil {
 		b.WriteString(" = ")
@@ -843,7 +844,8 @@ func (v *VarSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 	}
 	fmt.Fprintf(b, "%s", strings.Join(v.Names, ", "))
 	if v.Type != nil {
-		fmt.Fprintf(b, " %v", v.Type)
+		b.WriteRune(' ')
+		writeType(v.Type, b)
 	}
 	if v.Initializer != nil {
 		b.WriteString(" = ")
@@ -1161,29 +1163,38 @@ func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 		b.WriteString("= ")
 	}
 	t.writeUnderlying(b)
+	b.WriteRune('\n')
 }
 
 func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
 	switch t.underlying.Kind() {
 	case KindStruct:
-		b.WriteString(" struct {\n")
+		b.WriteString("struct {\n")
 		for _, f := range t.structBody {
 			f.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteRune('}')
 	case KindInterface:
-		b.WriteString(" interface {\n")
+		b.WriteString("interface {\n")
 		for _, el := range t.interfaceBody {
 			el.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteRune('}')
 	default:
-		b.WriteRune(' ')
 		typeNameToBuffer(t.underlying, b)
-		b.WriteRune('\n')
 	}
 }
 
+// writeType writes a use of the given type. Unlike its string representation,
+// this includes the comments of an unnamed type's fields and methods.
+func writeType(t TypeNameOrSpec, b *bytes.Buffer) {
+	if ts, ok := t.(*TypeSpec); ok && ts.Name == "" {
+		ts.writeUnderlying(b)
+		return
+	}
+	fmt.Fprintf(b, "%v", t)
+}
+
 // TypeNameOrSpec represents a type and can either be a TypeName instance or a
 // *TypeSpec. The former allows creating arbitrary type references whereas the
 // latter allows referencing type elements whose definitions are also being
@@ -1241,17 +1252,12 @@ func (f *FieldSpec) writeTo(b *bytes.Buffer) {
 	switch t := f.Type.(type) {
 	case TypeName:
 		if t.Kind() == KindStruct || t.Kind() == KindInterface {
-			ts := NewTypeSpec("", t)
-			ts.writeUnderlying(b)
+			writeType(NewTypeSpec("", t), b)
 		} else {
-			fmt.Fprintf(b, "%v", t)
+			writeType(t, b)
 		}
 	case *TypeSpec:
-		if t.Name == "" {
-			t.writeUnderlying(b)
-		} else {
-			fmt.Fprintf(b, "%v", t.ToSymbol())
-		}
+		writeType(t, b)
 	}
 
 	if f.Tag != "" {
-- 
2.43.0


From f583f1b358fc3e20dc9fffdd397ad16683abfea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 14/35] fix: keep the import path of file elements in template
 data

Qualifying the result again (e.g. the same file is rendered twice) registered an
import for the empty path.
---
 templates.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/templates.go b/templates.go
index c0f8302..ac1f045 100644
--- a/templates.go
+++ b/templates.go
@@ -5,6 +5,14 @@ import (
 	"reflect"
 )
 
+// qualifiedParent returns a stand-in for the given file whose package has the
+// given name but the same import path.
+func qualifiedParent(f *GoFile, pkgName string) *GoFile {
+	parent := &GoFile{PackageName: pkgName}
+	parent.pkgPath = f.pkgPath
+	return parent
+}
+
 func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
 	switch data.Kind() {
 	case reflect.Interface:
@@ -98,7 +106,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newCs := t
-					newCs.parent = &GoFile{PackageName: newPkg}
+					newCs.parent = qualifiedParent(t.parent, newPkg)
 					return reflect.ValueOf(&newCs).Elem(), true
 				}
 			}
@@ -108,7 +116,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newVs := t
-					newVs.parent = &GoFile{PackageName: newPkg}
+					newVs.parent = qualifiedParent(t.parent, newPkg)
 					return reflect.ValueOf(&newVs).Elem(), true
 				}
 			}
@@ -118,7 +126,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newTs := t
-					newTs.parent = &GoFile{PackageName: newPkg}
+					newTs.parent = qualifiedParent(t.parent, newPkg)
 					return reflect.ValueOf(&newTs).Elem(), true
 				}
 			}
@@ -128,7 +136,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newFs := t
-					newFs.parent = &GoFile{PackageName: newPkg}
+					newFs.parent = qualifiedParent(t.parent, newPkg)
 					return reflect.ValueOf(&newFs).Elem(), true
 				}
 			}
-- 
2.43.0


From 72c0364a57b3061722024d4f4d13296a221a6c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 15/35] fix: do not modify file elements when rendering a file

Rendering replaced the references in the elements, code blocks, argument lists,
and template data of a file with ones qualified for that file, so rendering
them again or sharing them between files gave wrong or missing qualifiers and
imports. Now references are qualified in copies.
---
 code.go  | 25 ++++++++++-----
 model.go | 96 +++++++++++++++++++++++++++++++++++---------------------
 2 files changed, 79 insertions(+), 42 deletions(-)

diff --git a/code.go b/code.go
index 672132a..4dc5a25 100644
--- a/code.go
+++ b/code.go
@@ -29,7 +29,9 @@ type CodeBlock struct {
 type codeElement interface {
 	isCodeElement()
 	writeTo(b *bytes.Buffer)
-	qualify(imports *Imports)
+	// qualify returns a copy with references qualified for the given imports.
+	// It does not modify the receiver, which could be shared with other files.
+	qualify(imports *Imports) codeElement
 }
 
 // Print adds the given text to the code block. It returns the code block, for
@@ -109,10 +111,15 @@ func RenderCode(template *template.Template, data interface{}) *CodeBlock {
 	return (&CodeBlock{}).RenderCode(template, data)
 }
 
-func (cb *CodeBlock) qualify(imports *Imports) {
-	for _, e := range cb.elements {
-		e.qualify(imports)
+func (cb *CodeBlock) qualify(imports *Imports) *CodeBlock {
+	if cb == nil {
+		return nil
+	}
+	ret := &CodeBlock{elements: make([]codeElement, len(cb.elements))}
+	for i, e := range cb.elements {
+		ret.elements[i] = e.qualify(imports)
 	}
+	return ret
 }
 
 func (cb *CodeBlock) writeTo(b *bytes.Buffer) {
@@ -134,7 +141,10 @@ func (l line) writeTo(b *bytes.Buffer) {
 	fmt.Fprintf(b, l.format, l.args...)
 }
 
-func (l line) qualify(imports *Imports) {
+func (l line) qualify(imports *Imports) codeElement {
+	args := make([]interface{}, len(l.args))
+	copy(args, l.args)
+	l.args = args
 	for i := range l.args {
 		switch a := l.args[i].(type) {
 		case Package:
@@ -212,6 +222,7 @@ func (l line) qualify(imports *Imports) {
 			l.args[i] = imports.registerPackage(p)
 		}
 	}
+	return l
 }
 
 // templ represents a template and data value, which will be rendered to a code
@@ -230,6 +241,6 @@ func (t *templ) writeTo(b *bytes.Buffer) {
 	}
 }
 
-func (t *templ) qualify(imports *Imports) {
-	t.data = imports.QualifyTemplateData(t.data)
+func (t *templ) qualify(imports *Imports) codeElement {
+	return &templ{templ: t.templ, data: imports.QualifyTemplateData(t.data)}
 }
diff --git a/model.go b/model.go
index 62ab275..aa39514 100644
--- a/model.go
+++ b/model.go
@@ -199,14 +199,15 @@ func (e *FormatError) Error() string {
 //
 // The formatted code is then written to the given io.Writer.
 func WriteGoFile(w io.Writer, f *GoFile) error {
-	// make sure all package references are properly qualified for
+	// make sure all package references are properly qualified
+	elements := make([]FileElement, len(f.elements))
 	for i := range f.elements {
-		f.elements[i].qualify(&f.Imports)
+		elements[i] = f.elements[i].qualify(&f.Imports)
 	}
 
 	// now we generate the code
 	var buf bytes.Buffer
-	if err := f.writeTo(&buf); err != nil {
+	if err := f.writeTo(&buf, elements); err != nil {
 		return err
 	}
 	// format it
@@ -349,7 +350,7 @@ func (f *GoFile) Package() Package {
 	}
 }
 
-func (f *GoFile) writeTo(w *bytes.Buffer) error {
+func (f *GoFile) writeTo(w *bytes.Buffer, elements []FileElement) error {
 	writeComment(f.FileComment, w)
 	if f.FileComment != "" {
 		// separate file comment from package doc
@@ -375,7 +376,7 @@ func (f *GoFile) writeTo(w *bytes.Buffer) error {
 	}
 
 	// now we print all of the file elements
-	for _, el := range f.elements {
+	for _, el := range elements {
 		w.WriteRune('\n')
 		el.writeTo(w)
 	}
@@ -400,7 +401,9 @@ type FileElement interface {
 	isFileElement()
 	writeTo(b *bytes.Buffer)
 	setParent(*GoFile)
-	qualify(imports *Imports)
+	// qualify returns a copy with references qualified for the given imports.
+	// It does not modify the receiver, which could be shared with other files.
+	qualify(imports *Imports) FileElement
 }
 
 // ConstDecl is a FileElement representing a declaration of one or more consts.
@@ -480,13 +483,15 @@ func (c *ConstDecl) setParent(f *GoFile) {
 	}
 }
 
-func (c *ConstDecl) qualify(imports *Imports) {
-	for _, cs := range c.Consts {
-		cs.Type = qualifyType(imports, cs.Type)
-		if cs.Initializer != nil {
-			cs.Initializer.qualify(imports)
-		}
+func (c *ConstDecl) qualify(imports *Imports) FileElement {
+	ret := &ConstDecl{Comment: c.Comment, Consts: make([]*ConstSpec, len(c.Consts))}
+	for i, cs := range c.Consts {
+		q := *cs
+		q.Type = qualifyType(imports, cs.Type)
+		q.Initializer = cs.Initializer.qualify(imports)
+		ret.Consts[i] = &q
 	}
+	return ret
 }
 
 func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
@@ -497,8 +502,7 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
 		if t.Name == "" {
-			t.qualify(imports)
-			return t
+			return t.qualify(imports)
 		}
 		if t.parent == nil {
 			return t
@@ -724,13 +728,15 @@ func (v *VarDecl) setParent(f *GoFile) {
 	}
 }
 
-func (v *VarDecl) qualify(imports *Imports) {
-	for _, vs := range v.Vars {
-		vs.Type = qualifyType(imports, vs.Type)
-		if vs.Initializer != nil {
-			vs.Initializer.qualify(imports)
-		}
+func (v *VarDecl) qualify(imports *Imports) FileElement {
+	ret := &VarDecl{Comment: v.Comment, Vars: make([]*VarSpec, len(v.Vars))}
+	for i, vs := range v.Vars {
+		q := *vs
+		q.Type = qualifyType(imports, vs.Type)
+		q.Initializer = vs.Initializer.qualify(imports)
+		ret.Vars[i] = &q
 	}
+	return ret
 }
 
 // VarSpec describes a single var expression (which can actually identify more
@@ -931,10 +937,12 @@ func (t *TypeDecl) setParent(f *GoFile) {
 	}
 }
 
-func (t *TypeDecl) qualify(imports *Imports) {
-	for _, ts := range t.Types {
-		ts.qualify(imports)
+func (t *TypeDecl) qualify(imports *Imports) FileElement {
+	ret := &TypeDecl{Comment: t.Comment, Types: make([]*TypeSpec, len(t.Types))}
+	for i, ts := range t.Types {
+		ret.Types[i] = ts.qualify(imports)
 	}
+	return ret
 }
 
 // TypeSpec describes a single type. The underlying type is not optional and not
@@ -1143,14 +1151,20 @@ func (t *TypeSpec) setParent(f *GoFile) {
 
 func (t *TypeSpec) isTypeNameOrSpec() {}
 
-func (t *TypeSpec) qualify(imports *Imports) {
-	t.underlying = imports.EnsureTypeImported(t.underlying)
-	for _, fs := range t.structBody {
-		fs.Type = qualifyType(imports, fs.Type)
+func (t *TypeSpec) qualify(imports *Imports) *TypeSpec {
+	ret := *t
+	ret.underlying = imports.EnsureTypeImported(t.underlying)
+	ret.structBody = make([]*FieldSpec, len(t.structBody))
+	for i, fs := range t.structBody {
+		q := *fs
+		q.Type = qualifyType(imports, fs.Type)
+		ret.structBody[i] = &q
 	}
-	for _, ie := range t.interfaceBody {
-		ie.qualify(imports)
+	ret.interfaceBody = make([]InterfaceElement, len(t.interfaceBody))
+	for i, ie := range t.interfaceBody {
+		ret.interfaceBody[i] = ie.qualifiedCopy(imports)
 	}
+	return &ret
 }
 
 func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
@@ -1280,6 +1294,7 @@ type InterfaceElement interface {
 	writeTo(b *bytes.Buffer)
 	setParent(*TypeSpec)
 	qualify(*Imports) bool
+	qualifiedCopy(*Imports) InterfaceElement
 }
 
 // InterfaceEmbed is an embedded interface inside of an interface definition.
@@ -1326,6 +1341,12 @@ func (e *InterfaceEmbed) qualify(imports *Imports) bool {
 	return oldType != e.Type
 }
 
+func (e *InterfaceEmbed) qualifiedCopy(imports *Imports) InterfaceElement {
+	ret := *e
+	ret.qualify(imports)
+	return &ret
+}
+
 // InterfaceMethod is a method defined inside of an interface. This represents
 // an explicit method, as opposed to an interface method that comes from an
 // embedded interface.
@@ -1434,6 +1455,12 @@ func (m *InterfaceMethod) qualify(imports *Imports) bool {
 	return false
 }
 
+func (m *InterfaceMethod) qualifiedCopy(imports *Imports) InterfaceElement {
+	ret := *m
+	ret.qualify(imports)
+	return &ret
+}
+
 // FuncSpec is a FileElement representing a func or method definition. The Name
 // field is not optional. If the function has one or more result values in its
 // signature, the code block body should not be empty (or the result will be Go
@@ -1642,12 +1669,11 @@ func (f *FuncSpec) setParent(file *GoFile) {
 	f.parent = file
 }
 
-func (f *FuncSpec) qualify(imports *Imports) {
-	newSig := imports.EnsureAllTypesImported(&f.Signature)
-	if newSig != &f.Signature {
-		f.Signature = *newSig
-	}
-	f.CodeBlock.qualify(imports)
+func (f *FuncSpec) qualify(imports *Imports) FileElement {
+	ret := *f
+	ret.Signature = *imports.EnsureAllTypesImported(&f.Signature)
+	ret.CodeBlock = *f.CodeBlock.qualify(imports)
+	return &ret
 }
 
 // ReceiverSpec describes the receiver for a method definition. Unlike an
-- 
2.43.0


From b4becee6a8bc22180c402127830256646591f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 16/35] fix: always render methods used as format arguments by
 name

An *InterfaceMethod or a method *FuncSpec was rendered as its documented name
or as a method expression, depending on whether its package was the file's own
or was imported with an alias, and imported a package that was then not used.
---
 code.go | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/code.go b/code.go
index 4dc5a25..257dc38 100644
--- a/code.go
+++ b/code.go
@@ -184,22 +184,12 @@ func (l line) qualify(imports *Imports) codeElement {
 		case *TypeSpec:
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
 		case *InterfaceMethod:
-			mr := a.ToMethodRef()
-			sym := imports.EnsureImported(mr.Type)
-			if sym != mr.Type {
-				l.args[i] = &MethodReference{Type: sym, Method: mr.Method}
-			}
+			// rendered as just the method's name, so nothing to qualify
 		case *FuncSpec:
-			symOrMr := a.ToSymbol()
-			switch sm := symOrMr.(type) {
-			case Symbol:
-				l.args[i] = imports.EnsureImported(sm)
-			case MethodReference:
-				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+			if a.Receiver == nil {
+				l.args[i] = imports.EnsureImported(a.ToSymbol().(Symbol))
 			}
+			// methods are rendered as just the name, so nothing to qualify
 		case reflect.Type:
 			t := TypeNameForReflectType(a)
 			l.args[i] = imports.EnsureTypeImported(t)
-- 
2.43.0


From 7198532ce9cc70b907876c7e44e36d846d147dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 17/35] fix: accept unnamed types as format arguments

Rendering a code block with an unnamed *TypeSpec argument panicked.
---
 code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code.go b/code.go
index 257dc38..ee42e92 100644
--- a/code.go
+++ b/code.go
@@ -182,7 +182,7 @@ func (l line) qualify(imports *Imports) codeElement {
 		case *VarSpec:
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
 		case *TypeSpec:
-			l.args[i] = imports.EnsureImported(a.ToSymbol())
+			l.args[i] = imports.EnsureTypeImported(a.ToTypeName())
 		case *InterfaceMethod:
 			// rendered as just the method's name, so nothing to qualify
 		case *FuncSpec:
-- 
2.43.0


From b2e7dd786a5944538f86e47e0c4696dac42ddb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 18/35] fix: render method objects as method references

A method *types.Func used as a format argument was printed as the raw object
when its package needed no alias.
---
 code.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/code.go b/code.go
index ee42e92..0030d5b 100644
--- a/code.go
+++ b/code.go
@@ -203,9 +203,7 @@ func (l line) qualify(imports *Imports) codeElement {
 				l.args[i] = imports.EnsureImported(sm)
 			case MethodReference:
 				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+				l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
 			}
 		case *types.Package:
 			p := PackageForGoType(a)
-- 
2.43.0


From 11955807af772d2ceb847a8e6fba73b6d21aac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 19/35] fix: support structs with unexported fields in template
 data

Qualifying a struct with an unexported field panicked if the struct was not
addressable or if anything in it had to be replaced.
---
 templates.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/templates.go b/templates.go
index ac1f045..51b7e4c 100644
--- a/templates.go
+++ b/templates.go
@@ -153,27 +153,29 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		case Imports:
 			// intentionally do not touch these
 		default:
+			if !data.CanAddr() {
+				// getField needs an addressable struct
+				addressable := reflect.New(data.Type()).Elem()
+				addressable.Set(data)
+				data = addressable
+			}
 			var newStruct reflect.Value
 			for i := 0; i < data.NumField(); i++ {
-				var newV reflect.Value
-				var changedV bool
 				fld, ok := getField(data, i)
 				if !ok {
 					// do not recurse
-					newV = data.Field(i)
-					changedV = false
-				} else {
-					newV, changedV = qualifyTemplateData(imports, fld)
+					continue
 				}
-				if newStruct.IsValid() {
-					newStruct.Field(i).Set(newV)
-				} else if changedV {
+				newV, changedV := qualifyTemplateData(imports, fld)
+				if !changedV {
+					continue
+				}
+				if !newStruct.IsValid() {
 					newStruct = reflect.New(data.Type()).Elem()
-					for j := 0; j < i; j++ {
-						newStruct.Field(j).Set(data.Field(j))
-					}
-					newStruct.Field(i).Set(newV)
+					newStruct.Set(data)
 				}
+				newFld, _ := getField(newStruct, i)
+				newFld.Set(newV)
 			}
 			if newStruct.IsValid() {
 				return newStruct, true
-- 
2.43.0


From b7e46459e20f3069eed926859ff28a7cf01d378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 20/35] fix: support arrays in template data

An array that is not addressable cannot be sliced, so replacing a reference in
one panicked.
---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 51b7e4c..13f25f8 100644
--- a/templates.go
+++ b/templates.go
@@ -204,7 +204,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				} else {
 					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
 				}
-				reflect.Copy(newArray, data.Slice(0, i))
+				reflect.Copy(newArray, data)
 				newArray.Index(i).Set(newV)
 			}
 		}
-- 
2.43.0


From 13f5134f16eaa92aa8a076b168ecb1aa1802a2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 21/35] fix: always convert reflect and go/types values in
 template data

Such values were only converted to gopoet references when their package needed
an alias or none at all. Otherwise, they rendered as the original value, whose
string form is generally not a valid reference.
---
 templates.go | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/templates.go b/templates.go
index 13f25f8..4281a61 100644
--- a/templates.go
+++ b/templates.go
@@ -26,37 +26,23 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 					newRv = reflect.ValueOf(newT)
 				}
 			case reflect.Type:
-				origT := TypeNameForReflectType(d)
-				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				t := TypeNameForReflectType(d)
+				newRv = reflect.ValueOf(imports.EnsureTypeImported(t))
 			case types.Type:
-				origT := TypeNameForGoType(d)
-				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				t := TypeNameForGoType(d)
+				newRv = reflect.ValueOf(imports.EnsureTypeImported(t))
 			case types.Object:
 				sym := SymbolForGoObject(d)
 				switch sym := sym.(type) {
 				case Symbol:
-					newSym := imports.EnsureImported(sym)
-					if newSym != sym {
-						newRv = reflect.ValueOf(newSym)
-					}
+					newRv = reflect.ValueOf(imports.EnsureImported(sym))
 				case MethodReference:
 					newSym := imports.EnsureImported(sym.Type)
-					if newSym != sym.Type {
-						newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
-					}
+					newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
 				}
 			case *types.Package:
-				origP := PackageForGoType(d)
-				newP := imports.registerPackage(origP)
-				if newP != origP.Name {
-					newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
-				}
+				p := PackageForGoType(d)
+				newRv = reflect.ValueOf(Package{Name: imports.registerPackage(p), ImportPath: p.ImportPath})
 			default:
 				qualified = false
 			}
-- 
2.43.0


From 4c616348bcd98b63ade9ff98cd60cc2006c2809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 22/35] fix: do not descend into go/types values in template
 data

A template data field of a concrete type such as *types.Named or *types.Package
cannot hold a replacement, but its (generally cyclic) content was traversed,
which overflowed the stack.
---
 templates.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/templates.go b/templates.go
index 4281a61..d88b35a 100644
--- a/templates.go
+++ b/templates.go
@@ -169,6 +169,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		}
 
 	case reflect.Ptr:
+		switch data.Interface().(type) {
+		case types.Type, types.Object, *types.Package:
+			// can't be replaced since data's type is not an interface; and its
+			// (possibly cyclic) content must be left alone
+			return data, false
+		}
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
 			if newElem.CanAddr() {
 				return newElem.Addr(), true
-- 
2.43.0


From a4b55de9101b056a02628f3486eb321cfb02dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 23/35] fix: do not import an empty path for a zero Package

A zero Package in template data or format arguments (e.g. a struct field that is
not set, or the package of a predeclared go/types object) was registered as an
import with an empty path.
---
 imports.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/imports.go b/imports.go
index 6d72c93..48f37a0 100644
--- a/imports.go
+++ b/imports.go
@@ -48,6 +48,10 @@ func (i *Imports) RegisterImportForPackage(pkg Package) string {
 // the prefix (which includes a trailing dot if non-empty), it just returns the
 // package alias.
 func (i *Imports) registerPackage(pkg Package) string {
+	if pkg == (Package{}) {
+		// like in qualify, there is nothing to import
+		return ""
+	}
 	p := i.RegisterImportForPackage(pkg)
 	if len(p) > 0 && p[len(p)-1] == '.' {
 		p = p[:len(p)-1]
-- 
2.43.0


From bec861cc99b8dd2f0c1556ff49c55bf6327cc4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 24/35] fix: visit maps in template data in a deterministic
 order

References are registered with imports in the order they are visited, so the
random iteration order of maps resulted in different aliases (and thus output)
from run to run when package names conflict.
---
 templates.go | 97 ++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 91 insertions(+), 6 deletions(-)

diff --git a/templates.go b/templates.go
index d88b35a..9a8d0ca 100644
--- a/templates.go
+++ b/templates.go
@@ -3,6 +3,8 @@ package gopoet
 import (
 	"go/types"
 	"reflect"
+	"sort"
+	"strings"
 )
 
 // qualifiedParent returns a stand-in for the given file whose package has the
@@ -206,21 +208,18 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	case reflect.Map:
 		var newMap reflect.Value
-		seenKeys := make([]reflect.Value, 0, data.Len())
-		for _, k := range data.MapKeys() {
+		keys := sortedMapKeys(data)
+		for i, k := range keys {
 			newK, changedK := qualifyTemplateData(imports, k)
 			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
 			if newMap.IsValid() {
 				newMap.SetMapIndex(newK, newV)
 			} else if changedK || changedV {
 				newMap = reflect.MakeMap(data.Type())
-				for _, sk := range seenKeys {
+				for _, sk := range keys[:i] {
 					newMap.SetMapIndex(sk, data.MapIndex(sk))
 				}
 				newMap.SetMapIndex(newK, newV)
-				seenKeys = nil
-			} else {
-				seenKeys = append(seenKeys, k)
 			}
 		}
 		if newMap.IsValid() {
@@ -230,3 +229,89 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	return data, false
 }
+
+// sortedMapKeys returns the keys of the given map in an order that depends only
+// on their content. References are registered with imports in the order they
+// are visited, so visiting keys in random order would result in random aliases.
+func sortedMapKeys(m reflect.Value) []reflect.Value {
+	keys := m.MapKeys()
+	sort.SliceStable(keys, func(i, j int) bool {
+		return compareValues(keys[i], keys[j], map[[2]uintptr]bool{}) < 0
+	})
+	return keys
+}
+
+// compareValues compares the content of the given values. The given map holds
+// the pairs of pointers already being compared (they could be cyclic).
+func compareValues(a, b reflect.Value, seen map[[2]uintptr]bool) int {
+	if !a.IsValid() || !b.IsValid() {
+		return compareBools(a.IsValid(), b.IsValid())
+	}
+	if a.Type() != b.Type() {
+		at, bt := a.Type(), b.Type()
+		if c := strings.Compare(at.String(), bt.String()); c != 0 {
+			return c
+		}
+		return strings.Compare(at.PkgPath(), bt.PkgPath())
+	}
+	switch a.Kind() {
+	case reflect.Bool:
+		return compareBools(a.Bool(), b.Bool())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return compareBools(a.Int() > b.Int(), a.Int() < b.Int())
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return compareBools(a.Uint() > b.Uint(), a.Uint() < b.Uint())
+	case reflect.Float32, reflect.Float64:
+		return compareFloats(a.Float(), b.Float())
+	case reflect.Complex64, reflect.Complex128:
+		if c := compareFloats(real(a.Complex()), real(b.Complex())); c != 0 {
+			return c
+		}
+		return compareFloats(imag(a.Complex()), imag(b.Complex()))
+	case reflect.String:
+		return strings.Compare(a.String(), b.String())
+	case reflect.Interface:
+		return compareValues(a.Elem(), b.Elem(), seen)
+	case reflect.Ptr:
+		pair := [2]uintptr{a.Pointer(), b.Pointer()}
+		if pair[0] == pair[1] || seen[pair] {
+			return 0
+		}
+		seen[pair] = true
+		return compareValues(a.Elem(), b.Elem(), seen)
+	case reflect.Struct:
+		for i := 0; i < a.NumField(); i++ {
+			if c := compareValues(a.Field(i), b.Field(i), seen); c != 0 {
+				return c
+			}
+		}
+	case reflect.Array, reflect.Slice:
+		if c := compareBools(a.Len() > b.Len(), a.Len() < b.Len()); c != 0 {
+			return c
+		}
+		for i := 0; i < a.Len(); i++ {
+			if c := compareValues(a.Index(i), b.Index(i), seen); c != 0 {
+				return c
+			}
+		}
+	}
+	return 0
+}
+
+func compareBools(a, b bool) int {
+	if a == b {
+		return 0
+	}
+	if a {
+		return 1
+	}
+	return -1
+}
+
+func compareFloats(a, b float64) int {
+	if a != a || b != b {
+		// NaNs sort first
+		return compareBools(a == a, b == b)
+	}
+	return compareBools(a > b, a < b)
+}
-- 
2.43.0


From 5a9391944c3ccae4bc35108818c9985635bd0a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 25/35] fix: convert reflect map types

---
 types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types.go b/types.go
index c31f7c8..35c8162 100644
--- a/types.go
+++ b/types.go
@@ -605,6 +605,9 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 	case reflect.Array:
 		return ArrayType(TypeNameForReflectType(t.Elem()), int64(t.Len()))
 
+	case reflect.Map:
+		return MapType(TypeNameForReflectType(t.Key()), TypeNameForReflectType(t.Elem()))
+
 	case reflect.Chan:
 		return ChannelType(TypeNameForReflectType(t.Elem()), t.ChanDir())
 
-- 
2.43.0


From cddabb61770bec27c2b836e6a677ee46aa913912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 26/35] fix: rebuild pointers to interfaces in template data

---
 templates.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/templates.go b/templates.go
index 9a8d0ca..728e6c7 100644
--- a/templates.go
+++ b/templates.go
@@ -178,10 +178,11 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 			return data, false
 		}
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
-			if newElem.CanAddr() {
+			if newElem.CanAddr() && newElem.Type() == data.Type().Elem() {
 				return newElem.Addr(), true
 			}
-			dest := reflect.New(newElem.Type())
+			// NB: data's element type could be an interface
+			dest := reflect.New(data.Type().Elem())
 			dest.Elem().Set(newElem)
 			return dest, true
 		}
-- 
2.43.0


From 622e518b05eb62443b7f2ea5226afedabb0f6436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 27/35] fix: leave nil pointers in template data alone

---
 templates.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 728e6c7..7d117b5 100644
--- a/templates.go
+++ b/templates.go
@@ -18,7 +18,11 @@ func qualifiedParent(f *GoFile, pkgName string) *GoFile {
 func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
 	switch data.Kind() {
 	case reflect.Interface:
-		if data.Elem().IsValid() {
+		if elem := data.Elem(); elem.IsValid() {
+			if elem.Kind() == reflect.Ptr && elem.IsNil() {
+				// nothing to qualify
+				return data, false
+			}
 			qualified := true
 			var newRv reflect.Value
 			switch d := data.Interface().(type) {
-- 
2.43.0


From 76751f9a9357098cf1e2a5936ff07f5e5095b007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 28/35] fix: refuse pointer receivers without a type name

NewPointerReceiver accepted an empty type name, which NewReceiver refuses.
---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index aa39514..d6ea064 100644
--- a/model.go
+++ b/model.go
@@ -1727,6 +1727,9 @@ func NewReceiverForType(name string, rcvrType TypeNameOrSpec) *ReceiverSpec {
 // whose receiver type is a pointer to the given type. The type is an
 // unqualified reference to a named type in the same package.
 func NewPointerReceiver(name, rcvrType string) *ReceiverSpec {
+	if rcvrType == "" {
+		panic("cannot create a ReceiverSpec with an empty receiver type name")
+	}
 	return &ReceiverSpec{Name: name, Type: rcvrType, IsPointer: true}
 }
 
-- 
2.43.0


From 6cad4e2798c6a7c56987d9939d87d5306abcfe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 29/35] fix: cyclic template data overflowed the stack, named
 pointer types were lost

---
 imports.go   |  2 +-
 templates.go | 47 ++++++++++++++++++++++++++++++++++-------------
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/imports.go b/imports.go
index 48f37a0..021a49c 100644
--- a/imports.go
+++ b/imports.go
@@ -359,7 +359,7 @@ func (i *Imports) QualifyTemplateData(data interface{}) interface{} {
 	// (not data's concrete type) so we know we can safely re-write it if it
 	// implements TypeName
 	rv := reflect.ValueOf([]interface{}{data}).Index(0)
-	newData, _ := qualifyTemplateData(i, rv)
+	newData, _ := qualifyTemplateData(i, rv, map[dataPtr]reflect.Value{})
 	return newData.Interface()
 }
 
diff --git a/templates.go b/templates.go
index 7d117b5..9fc56b8 100644
--- a/templates.go
+++ b/templates.go
@@ -15,7 +15,18 @@ func qualifiedParent(f *GoFile, pkgName string) *GoFile {
 	return parent
 }
 
-func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
+// dataPtr identifies a pointer in template data. The type is needed, too, since
+// a pointer to a struct and one to its first field have the same address.
+type dataPtr struct {
+	addr uintptr
+	elem reflect.Type
+}
+
+// qualifyTemplateData re-creates data with references qualified. The returned
+// flag is false if there was nothing to change. The given map holds the results
+// for pointers already visited, the zero value for those that need no change.
+// (Data can be cyclic, like nodes of a tree that have a link to their parent.)
+func qualifyTemplateData(imports *Imports, data reflect.Value, visited map[dataPtr]reflect.Value) (reflect.Value, bool) {
 	switch data.Kind() {
 	case reflect.Interface:
 		if elem := data.Elem(); elem.IsValid() {
@@ -66,7 +77,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				return data, false
 			}
 
-			return qualifyTemplateData(imports, data.Elem())
+			return qualifyTemplateData(imports, data.Elem(), visited)
 		}
 
 	case reflect.Struct:
@@ -158,7 +169,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 					// do not recurse
 					continue
 				}
-				newV, changedV := qualifyTemplateData(imports, fld)
+				newV, changedV := qualifyTemplateData(imports, fld, visited)
 				if !changedV {
 					continue
 				}
@@ -181,20 +192,30 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 			// (possibly cyclic) content must be left alone
 			return data, false
 		}
-		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
-			if newElem.CanAddr() && newElem.Type() == data.Type().Elem() {
-				return newElem.Addr(), true
+		if data.IsNil() {
+			return data, false
+		}
+		ptr := dataPtr{addr: data.Pointer(), elem: data.Type().Elem()}
+		dest, ok := visited[ptr]
+		if !ok {
+			dest = reflect.New(ptr.elem)
+			visited[ptr] = dest
+			newElem, changed := qualifyTemplateData(imports, data.Elem(), visited)
+			if changed {
+				dest.Elem().Set(newElem)
+			} else {
+				dest = reflect.Value{}
+				visited[ptr] = dest
 			}
-			// NB: data's element type could be an interface
-			dest := reflect.New(data.Type().Elem())
-			dest.Elem().Set(newElem)
-			return dest, true
+		}
+		if dest.IsValid() {
+			return dest.Convert(data.Type()), true
 		}
 
 	case reflect.Array, reflect.Slice:
 		var newArray reflect.Value
 		for i := 0; i < data.Len(); i++ {
-			newV, changedV := qualifyTemplateData(imports, data.Index(i))
+			newV, changedV := qualifyTemplateData(imports, data.Index(i), visited)
 			if newArray.IsValid() {
 				newArray.Index(i).Set(newV)
 			} else if changedV {
@@ -215,8 +236,8 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		var newMap reflect.Value
 		keys := sortedMapKeys(data)
 		for i, k := range keys {
-			newK, changedK := qualifyTemplateData(imports, k)
-			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
+			newK, changedK := qualifyTemplateData(imports, k, visited)
+			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k), visited)
 			if newMap.IsValid() {
 				newMap.SetMapIndex(newK, newV)
 			} else if changedK || changedV {
-- 
2.43.0


From c32da50858b85d538e9a158a907ba3ec5f5fc817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 30/35] fix: equal content behind pointer keys of template data
 was visited in random order

---
 templates.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/templates.go b/templates.go
index 9fc56b8..9250c67 100644
--- a/templates.go
+++ b/templates.go
@@ -257,12 +257,18 @@ func qualifyTemplateData(imports *Imports, data reflect.Value, visited map[dataP
 }
 
 // sortedMapKeys returns the keys of the given map in an order that depends only
-// on their content. References are registered with imports in the order they
-// are visited, so visiting keys in random order would result in random aliases.
+// on their content and, if that is equal (keys can be pointers), on the content
+// of the corresponding values. References are registered with imports in the
+// order they are visited, so visiting keys in random order would result in
+// random aliases.
 func sortedMapKeys(m reflect.Value) []reflect.Value {
 	keys := m.MapKeys()
 	sort.SliceStable(keys, func(i, j int) bool {
-		return compareValues(keys[i], keys[j], map[[2]uintptr]bool{}) < 0
+		c := compareValues(keys[i], keys[j], map[[2]uintptr]bool{})
+		if c == 0 {
+			c = compareValues(m.MapIndex(keys[i]), m.MapIndex(keys[j]), map[[2]uintptr]bool{})
+		}
+		return c < 0
 	})
 	return keys
 }
-- 
2.43.0


From 72c1c5f2c539575ed5796af5f81ac383aa439fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 31/35] fix: template data with maps or slices that contain
 themselves overflowed the stack

---
 templates.go | 111 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 72 insertions(+), 39 deletions(-)

diff --git a/templates.go b/templates.go
index 9250c67..8639fc5 100644
--- a/templates.go
+++ b/templates.go
@@ -15,17 +15,20 @@ func qualifiedParent(f *GoFile, pkgName string) *GoFile {
 	return parent
 }
 
-// dataPtr identifies a pointer in template data. The type is needed, too, since
-// a pointer to a struct and one to its first field have the same address.
+// dataPtr identifies a pointer, map, or slice in template data. The type is
+// needed, too, since a pointer to a struct and one to its first field have the
+// same address. And so is the length, since slices can share an array.
 type dataPtr struct {
 	addr uintptr
-	elem reflect.Type
+	typ  reflect.Type
+	len  int
 }
 
 // qualifyTemplateData re-creates data with references qualified. The returned
 // flag is false if there was nothing to change. The given map holds the results
-// for pointers already visited, the zero value for those that need no change.
-// (Data can be cyclic, like nodes of a tree that have a link to their parent.)
+// for pointers, maps, and slices already visited, the zero value for those that
+// need no change. (Data can be cyclic, like nodes of a tree that have a link to
+// their parent.)
 func qualifyTemplateData(imports *Imports, data reflect.Value, visited map[dataPtr]reflect.Value) (reflect.Value, bool) {
 	switch data.Kind() {
 	case reflect.Interface:
@@ -195,10 +198,10 @@ func qualifyTemplateData(imports *Imports, data reflect.Value, visited map[dataP
 		if data.IsNil() {
 			return data, false
 		}
-		ptr := dataPtr{addr: data.Pointer(), elem: data.Type().Elem()}
+		ptr := dataPtr{addr: data.Pointer(), typ: reflect.PtrTo(data.Type().Elem())}
 		dest, ok := visited[ptr]
 		if !ok {
-			dest = reflect.New(ptr.elem)
+			dest = reflect.New(data.Type().Elem())
 			visited[ptr] = dest
 			newElem, changed := qualifyTemplateData(imports, data.Elem(), visited)
 			if changed {
@@ -214,48 +217,62 @@ func qualifyTemplateData(imports *Imports, data reflect.Value, visited map[dataP
 
 	case reflect.Array, reflect.Slice:
 		var newArray reflect.Value
+		var ptr dataPtr
+		if data.Kind() == reflect.Array {
+			newArray = reflect.New(data.Type()).Elem()
+		} else {
+			ptr = dataPtr{addr: data.Pointer(), typ: data.Type(), len: data.Len()}
+			if dest, ok := visited[ptr]; ok || data.IsNil() {
+				return orElse(dest, data)
+			}
+			newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
+			visited[ptr] = newArray
+		}
+		changed := false
 		for i := 0; i < data.Len(); i++ {
 			newV, changedV := qualifyTemplateData(imports, data.Index(i), visited)
-			if newArray.IsValid() {
-				newArray.Index(i).Set(newV)
-			} else if changedV {
-				if data.Kind() == reflect.Array {
-					newArray = reflect.New(data.Type()).Elem()
-				} else {
-					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
-				}
-				reflect.Copy(newArray, data)
-				newArray.Index(i).Set(newV)
-			}
+			newArray.Index(i).Set(newV)
+			changed = changed || changedV
 		}
-		if newArray.IsValid() {
+		if changed {
 			return newArray, true
 		}
+		if data.Kind() == reflect.Slice {
+			visited[ptr] = reflect.Value{}
+		}
 
 	case reflect.Map:
-		var newMap reflect.Value
-		keys := sortedMapKeys(data)
-		for i, k := range keys {
+		ptr := dataPtr{addr: data.Pointer(), typ: data.Type()}
+		if dest, ok := visited[ptr]; ok || data.IsNil() {
+			return orElse(dest, data)
+		}
+		newMap := reflect.MakeMap(data.Type())
+		visited[ptr] = newMap
+		changed := false
+		for _, k := range sortedMapKeys(data) {
 			newK, changedK := qualifyTemplateData(imports, k, visited)
 			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k), visited)
-			if newMap.IsValid() {
-				newMap.SetMapIndex(newK, newV)
-			} else if changedK || changedV {
-				newMap = reflect.MakeMap(data.Type())
-				for _, sk := range keys[:i] {
-					newMap.SetMapIndex(sk, data.MapIndex(sk))
-				}
-				newMap.SetMapIndex(newK, newV)
-			}
+			newMap.SetMapIndex(newK, newV)
+			changed = changed || changedK || changedV
 		}
-		if newMap.IsValid() {
+		if changed {
 			return newMap, true
 		}
+		visited[ptr] = reflect.Value{}
 	}
 
 	return data, false
 }
 
+// orElse returns the given result for data already visited or, if that is the
+// zero value, the data itself.
+func orElse(dest, data reflect.Value) (reflect.Value, bool) {
+	if dest.IsValid() {
+		return dest, true
+	}
+	return data, false
+}
+
 // sortedMapKeys returns the keys of the given map in an order that depends only
 // on their content and, if that is equal (keys can be pointers), on the content
 // of the corresponding values. References are registered with imports in the
@@ -264,9 +281,9 @@ func qualifyTemplateData(imports *Imports, data reflect.Value, visited map[dataP
 func sortedMapKeys(m reflect.Value) []reflect.Value {
 	keys := m.MapKeys()
 	sort.SliceStable(keys, func(i, j int) bool {
-		c := compareValues(keys[i], keys[j], map[[2]uintptr]bool{})
+		c := compareValues(keys[i], keys[j], map[[2]dataPtr]bool{})
 		if c == 0 {
-			c = compareValues(m.MapIndex(keys[i]), m.MapIndex(keys[j]), map[[2]uintptr]bool{})
+			c = compareValues(m.MapIndex(keys[i]), m.MapIndex(keys[j]), map[[2]dataPtr]bool{})
 		}
 		return c < 0
 	})
@@ -274,8 +291,9 @@ func sortedMapKeys(m reflect.Value) []reflect.Value {
 }
 
 // compareValues compares the content of the given values. The given map holds
-// the pairs of pointers already being compared (they could be cyclic).
-func compareValues(a, b reflect.Value, seen map[[2]uintptr]bool) int {
+// the pairs of pointers and slices already being compared (they could be
+// cyclic).
+func compareValues(a, b reflect.Value, seen map[[2]dataPtr]bool) int {
 	if !a.IsValid() || !b.IsValid() {
 		return compareBools(a.IsValid(), b.IsValid())
 	}
@@ -305,11 +323,9 @@ func compareValues(a, b reflect.Value, seen map[[2]uintptr]bool) int {
 	case reflect.Interface:
 		return compareValues(a.Elem(), b.Elem(), seen)
 	case reflect.Ptr:
-		pair := [2]uintptr{a.Pointer(), b.Pointer()}
-		if pair[0] == pair[1] || seen[pair] {
+		if alreadyCompared(a, b, 0, seen) {
 			return 0
 		}
-		seen[pair] = true
 		return compareValues(a.Elem(), b.Elem(), seen)
 	case reflect.Struct:
 		for i := 0; i < a.NumField(); i++ {
@@ -321,6 +337,9 @@ func compareValues(a, b reflect.Value, seen map[[2]uintptr]bool) int {
 		if c := compareBools(a.Len() > b.Len(), a.Len() < b.Len()); c != 0 {
 			return c
 		}
+		if a.Kind() == reflect.Slice && alreadyCompared(a, b, a.Len(), seen) {
+			return 0
+		}
 		for i := 0; i < a.Len(); i++ {
 			if c := compareValues(a.Index(i), b.Index(i), seen); c != 0 {
 				return c
@@ -330,6 +349,20 @@ func compareValues(a, b reflect.Value, seen map[[2]uintptr]bool) int {
 	return 0
 }
 
+// alreadyCompared returns true if the given pointers or slices (of same type and
+// length) are the same or have been passed to this function before.
+func alreadyCompared(a, b reflect.Value, length int, seen map[[2]dataPtr]bool) bool {
+	pair := [2]dataPtr{
+		{addr: a.Pointer(), typ: a.Type(), len: length},
+		{addr: b.Pointer(), typ: b.Type(), len: length},
+	}
+	if pair[0] == pair[1] || seen[pair] {
+		return true
+	}
+	seen[pair] = true
+	return false
+}
+
 func compareBools(a, b bool) int {
 	if a == b {
 		return 0
-- 
2.43.0


From c2f34f586a96709f8b3a26a7ca9d7ee8f5f7103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:50 +0000
Subject: [PATCH 32/35] fix: unused imports if a field's or interface element's
 type is changed after creating the type

The underlying type recorded when a struct or interface type element is
created is not what is rendered, but its packages were imported.
---
 model.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/model.go b/model.go
index d6ea064..2fb95aa 100644
--- a/model.go
+++ b/model.go
@@ -1153,7 +1153,13 @@ func (t *TypeSpec) isTypeNameOrSpec() {}
 
 func (t *TypeSpec) qualify(imports *Imports) *TypeSpec {
 	ret := *t
-	ret.underlying = imports.EnsureTypeImported(t.underlying)
+	switch t.underlying.Kind() {
+	case KindStruct, KindInterface:
+		// rendered from the elements below, whose types could have been
+		// changed since this type was created
+	default:
+		ret.underlying = imports.EnsureTypeImported(t.underlying)
+	}
 	ret.structBody = make([]*FieldSpec, len(t.structBody))
 	for i, fs := range t.structBody {
 		q := *fs
-- 
2.43.0


From e10176c4db701d22c70968f1f58916b7704aa9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:24 +0000
Subject: [PATCH 33/35] fix: embedded interface elements in code blocks were
 neither qualified nor imported

An *InterfaceEmbed passed to Printf rendered with its own package name even
if that package had another name in the file or was not imported at all.
---
 code.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code.go b/code.go
index 0030d5b..2a20a75 100644
--- a/code.go
+++ b/code.go
@@ -183,6 +183,8 @@ func (l line) qualify(imports *Imports) codeElement {
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
 		case *TypeSpec:
 			l.args[i] = imports.EnsureTypeImported(a.ToTypeName())
+		case *InterfaceEmbed:
+			l.args[i] = imports.EnsureImported(a.Type)
 		case *InterfaceMethod:
 			// rendered as just the method's name, so nothing to qualify
 		case *FuncSpec:
-- 
2.43.0


From fb7a887613d68b17c494e54655928db0bf7aae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 34/35] fix: a function body ending with a comment swallowed
 the closing brace

If the last text of a body has no trailing newline, as with Print or
Printf, then '}' was written on the same line.
---
 model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model.go b/model.go
index 2fb95aa..152cf57 100644
--- a/model.go
+++ b/model.go
@@ -1668,6 +1668,10 @@ func (f *FuncSpec) writeTo(b *bytes.Buffer) {
 	signatureToBuffer(&f.Signature, b)
 	b.WriteString(" {\n")
 	f.CodeBlock.writeTo(b)
+	if code := b.Bytes(); code[len(code)-1] != '\n' {
+		// the code could end with a comment
+		b.WriteRune('\n')
+	}
 	b.WriteString("}\n")
 }
 
-- 
2.43.0


From 5a5e521f72477cacb02bae038393248adf015e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:14 +0000
Subject: [PATCH 35/35] fix: template data: order of map keys that differ in
 the maps they point to

Keys were told apart by all that they hold except for maps, and except for
the package of unnamed dynamic types. So the order in which the references
in such keys were registered, and hence their aliases, was random.
---
 templates.go | 54 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/templates.go b/templates.go
index 8639fc5..f820f54 100644
--- a/templates.go
+++ b/templates.go
@@ -298,11 +298,7 @@ func compareValues(a, b reflect.Value, seen map[[2]dataPtr]bool) int {
 		return compareBools(a.IsValid(), b.IsValid())
 	}
 	if a.Type() != b.Type() {
-		at, bt := a.Type(), b.Type()
-		if c := strings.Compare(at.String(), bt.String()); c != 0 {
-			return c
-		}
-		return strings.Compare(at.PkgPath(), bt.PkgPath())
+		return compareTypes(a.Type(), b.Type())
 	}
 	switch a.Kind() {
 	case reflect.Bool:
@@ -328,6 +324,10 @@ func compareValues(a, b reflect.Value, seen map[[2]dataPtr]bool) int {
 		}
 		return compareValues(a.Elem(), b.Elem(), seen)
 	case reflect.Struct:
+		if a.Type() == reflect.TypeOf(Imports{}) {
+			// changes as a file is rendered
+			return 0
+		}
 		for i := 0; i < a.NumField(); i++ {
 			if c := compareValues(a.Field(i), b.Field(i), seen); c != 0 {
 				return c
@@ -345,12 +345,52 @@ func compareValues(a, b reflect.Value, seen map[[2]dataPtr]bool) int {
 				return c
 			}
 		}
+	case reflect.Map:
+		if c := compareBools(a.Len() > b.Len(), a.Len() < b.Len()); c != 0 {
+			return c
+		}
+		if k := a.Type().Key().Kind(); k > reflect.Complex128 && k != reflect.String {
+			// can't afford to sort keys that refer to other data
+			return 0
+		}
+		if alreadyCompared(a, b, 0, seen) {
+			return 0
+		}
+		aKeys, bKeys := sortedMapKeys(a), sortedMapKeys(b)
+		for i := range aKeys {
+			if c := compareValues(aKeys[i], bKeys[i], seen); c != 0 {
+				return c
+			}
+			if c := compareValues(a.MapIndex(aKeys[i]), b.MapIndex(bKeys[i]), seen); c != 0 {
+				return c
+			}
+		}
+	}
+	return 0
+}
+
+func compareTypes(a, b reflect.Type) int {
+	if c := strings.Compare(a.String(), b.String()); c != 0 {
+		return c
+	}
+	if c := strings.Compare(a.PkgPath(), b.PkgPath()); c != 0 || a.Name() != "" || a.Kind() != b.Kind() {
+		return c
+	}
+	// unnamed types, made from types of packages with the same name
+	switch a.Kind() {
+	case reflect.Map:
+		if c := compareTypes(a.Key(), b.Key()); c != 0 {
+			return c
+		}
+		return compareTypes(a.Elem(), b.Elem())
+	case reflect.Ptr, reflect.Array, reflect.Slice, reflect.Chan:
+		return compareTypes(a.Elem(), b.Elem())
 	}
 	return 0
 }
 
-// alreadyCompared returns true if the given pointers or slices (of same type and
-// length) are the same or have been passed to this function before.
+// alreadyCompared returns true if the given pointers, maps, or slices (of same
+// type and length) are the same or have been passed to this function before.
 func alreadyCompared(a, b reflect.Value, length int, seen map[[2]dataPtr]bool) bool {
 	pair := [2]dataPtr{
 		{addr: a.Pointer(), typ: a.Type(), len: length},
-- 
2.43.0

