From 66b05ba9125fd97cb8ab42e1d13cfe9c94b42b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 01/16] fix: end multi-line comments that have a '*' before the
 closing '*/'

BuildScanUnit dropped the rune after every '*' inside a comment, so /***/ was
never closed and '/* a*b */' lost a rune (and its newline count).
---
 svcdef/svcparse/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 329a8f4..ade5985 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -153,6 +153,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 						buf = append(buf, ch)
 						return setReturn(), nil
 					}
+					// Not the end of the comment; this rune may itself be
+					// the '*' of the closing '*/'
+					rr.UnreadRune()
 				} else {
 					// Add the body of the comment to the buffer
 					buf = append(buf, ch)
-- 
2.43.0


From d71f44c82a61a619ae3743ca24349cf20c3804ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 02/16] fix: start every service scan with fresh brace and
 service state

The brace level and service flags are package variables; a text ending inside
a service changed what the next scan in the process reported.
---
 svcdef/svcparse/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index ade5985..8c7e0d1 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -266,6 +266,10 @@ type SvcScanner struct {
 }
 
 func NewSvcScanner(r io.Reader) *SvcScanner {
+	// Every scan starts outside of any definition, wherever the previous scan
+	// ended
+	withinBody, withinDef, braceLev = false, false, 0
+
 	b := make([]*ScanUnit, 0)
 	rr := NewRuneReader(r)
 	for {
-- 
2.43.0


From e2b9408e4d238b12dfe177f270b1d374e7c6b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 03/16] fix: recognise 'service' only as a top level keyword

A message field or a package named 'service' started a service definition, so
the real service was not found and parsing failed.
---
 svcdef/svcparse/scanner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 8c7e0d1..f64741e 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -218,7 +218,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				return setReturn(), err
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
-				if string(buf) == "service" {
+				// Only the keyword of a top level declaration starts a service
+				// definition, not a field or a package of that name
+				if string(buf) == "service" && braceLev == 0 && (unicode.IsSpace(ch) || ch == '/') {
 					withinDef = true
 				}
 				break
@@ -303,7 +305,7 @@ func (self *SvcScanner) FastForward() error {
 		if err != nil {
 			return err
 		}
-		if string(buf) == search_str {
+		if string(buf) == search_str && self.InDefinition {
 			self.UnitPos -= 1
 			break
 		}
-- 
2.43.0


From e2d4763efe5f6357a3195692fcc62ad59d33ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 04/16] fix: UnreadUnit at the first unit rewinds to the start

It went on to decrement the position to -1 and index Buf[-2].
---
 svcdef/svcparse/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index f64741e..f27115a 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -349,6 +349,7 @@ func (self *SvcScanner) UnreadUnit() error {
 		self.InDefinition = false
 		self.BraceLevel = 0
 		self.lineNo = 0
+		return nil
 	}
 	self.UnitPos -= 1
 
-- 
2.43.0


From e2b285fbf11c0829218de8504abb4c656d775fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 05/16] fix: accept a comment at the end of the input

NewTokenGroup panicked when a comment, or a comment and blanks, was the last
thing in the file.
---
 svcdef/svcparse/lexer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index ed2e383..3a45785 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -55,7 +55,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 			one_pos := scn.UnitPos
 			one, err := scn.ReadUnit()
 			if err != nil {
-				panic(err)
+				// Nothing follows this comment
+				break
 			}
 			onestr := string(one)
 			if len(one) > 1 && one[0] == '/' {
@@ -64,7 +65,9 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 				if strings.Count(onestr, "\n") == 0 {
 					two, err := scn.ReadUnit()
 					if err != nil {
-						panic(err)
+						// Only whitespace follows this comment
+						scn.UnReadToPosition(one_pos)
+						break
 					}
 					twostr := string(two)
 					if len(two) > 1 && two[0] == '/' {
-- 
2.43.0


From dad43ac7ed0575cd6c4ce5713f4fc727d13a3a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 06/16] fix: ParseService requires the 'service' keyword

Any identifier was accepted in its place.
---
 svcdef/svcparse/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index dd2922a..099f14b 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -168,7 +168,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 	if tk == EOF {
 		return nil, io.ErrUnexpectedEOF
 	}
-	if tk != IDENT && val != "service" {
+	if tk != IDENT || val != "service" {
 		return nil, parserErr{
 			expected: "'service' identifier",
 			line:     lex.GetLineNumber(),
-- 
2.43.0


From 8b78bb080144596510e01c73910986f3c5a58a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 07/16] fix: allow HTTP rules on methods whose request type has
 no known message

assembleHTTPParams dereferenced a nil message when the request type comes from
another package.
---
 svcdef/consolidate_http.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 3697d00..7f5cd7f 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -112,8 +112,13 @@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) error {
 		bind := HTTPBinding{}
 		bind.Verb, bind.Path = getVerb(parsedbind)
 
+		var fields []*Field
+		// A request type from another package has no known message
+		if msg != nil {
+			fields = msg.Fields
+		}
 		var params []*HTTPParameter
-		for _, field := range msg.Fields {
+		for _, field := range fields {
 			newParam := &HTTPParameter{}
 			newParam.Field = field
 			newParam.Location = paramLocation(field, parsedbind)
-- 
2.43.0


From 79051848361a75f9ce4385f959f227694d3c565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 08/16] fix: an rpc without HTTP annotations does not hide the
 other proto files

consolidateHTTP returned early, so whether the bindings of the other files were
attached depended on map iteration order.
---
 svcdef/consolidate_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 7f5cd7f..b452fe5 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -44,7 +44,7 @@ func consolidateHTTP(sd *Svcdef, protoFiles map[string]io.Reader) error {
 				log.Warnf("Parser found rpc method which lacks HTTP " +
 					"annotations; this is allowed, but will result in HTTP " +
 					"transport not being generated.")
-				return nil
+				continue
 			} else if isEOF(err) {
 				continue
 			}
-- 
2.43.0


From e75a0c9cbfda5cc9c1cad7bb8c828e6bdb846ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 09/16] fix: do not panic on unusual signatures in the previous
 service file

A method with two parameters sharing one type, or with an empty receiver list,
made regeneration index past the end of the field list.
---
 gengokit/service/services.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index bb5912a..9157bb6 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -185,7 +185,7 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 // updateParams updates the second param of f to be `X`.(m.RequestType.Name).
 // func ProtoMethod(ctx context.Context, *pb.Old) ...-> func ProtoMethod(ctx context.Context, *pb.(m.RequestType.Name))...
 func updateParams(f *ast.FuncDecl, m *svcdef.ServiceMethod) {
-	if f.Type.Params.NumFields() != 2 {
+	if f.Type.Params.NumFields() != 2 || len(f.Type.Params.List) != 2 {
 		log.WithField("Function", f.Name.Name).
 			Warn("Function params signature should be func NAME(ctx context.Context, in *pb.TYPE), cannot fix")
 		return
@@ -252,7 +252,7 @@ func isValidFunc(f *ast.FuncDecl, m methodMap, svcName string) bool {
 // string of the recv type.
 //	func (s Foo) Test() {} -> "Foo"
 func recvTypeToString(recv *ast.FieldList) string {
-	if recv == nil ||
+	if recv == nil || len(recv.List) == 0 ||
 		recv.List[0].Type == nil {
 		log.Debug("Function has no reciever")
 		return ""
-- 
2.43.0


From ab967328b4ebee6936a8116361a59677abdb37d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 10/16] fix: collect oneofs per definition and per file

The oneof groups were kept between calls of New, and only gathered from the
first file with oneofs; later wrapper structs were reported as messages and
their fields lost their oneof.
---
 svcdef/svcdef.go | 64 ++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 3fddfbc..70f0129 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -206,6 +206,8 @@ var (
 // New 解析 pb.go 和 go-grpc.pb.go 文件, 创建 Svcdef 服务定义相关信息和 HTTP 绑定相关信息
 func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef, error) {
 	rv := Svcdef{}
+	// The oneofs of an earlier definition are not part of this one
+	oneofs = map[string][]*Field{}
 
 	for path, gofile := range goFiles {
 		fset := token.NewFileSet()
@@ -271,42 +273,40 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 		}
 
 		oneofTypes := map[string]string{}
-		// Find oneof types if they haven't been added already
-		if len(oneofs) == 0 {
-			for _, d := range fileAst.Decls {
-				switch decl := d.(type) {
-				case *ast.FuncDecl:
-					if _, ok := oneofExists[decl.Name.Name]; ok {
-						t := decl.Recv.List[0].Type.(*ast.StarExpr)
-						name := t.X.(*ast.Ident)
-						oneofTypes[name.Name] = decl.Name.Name
-					}
+		// Find the oneof types of this file
+		for _, d := range fileAst.Decls {
+			switch decl := d.(type) {
+			case *ast.FuncDecl:
+				if _, ok := oneofExists[decl.Name.Name]; ok {
+					t := decl.Recv.List[0].Type.(*ast.StarExpr)
+					name := t.X.(*ast.Ident)
+					oneofTypes[name.Name] = decl.Name.Name
 				}
 			}
+		}
 
-			// Process and group oneof types
-			for _, t := range typespecs {
-				switch t.Type.(type) {
-				case *ast.StructType:
-					// Non-exported structs do not represent types
-					if !t.Name.IsExported() {
-						break
-					}
-					// Skip all non-oneofs; will be processed later
-					iface, ok := oneofTypes[t.Name.Name]
-					if !ok {
-						break
-					}
-					nmsg, err := NewMessage(t)
-					if err != nil {
-						return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
-					}
-					f := nmsg.Fields[0]
-					f.Type.Message = &Message{
-						Name: nmsg.Name,
-					}
-					oneofs[iface] = append(oneofs[iface], f)
+		// Process and group oneof types
+		for _, t := range typespecs {
+			switch t.Type.(type) {
+			case *ast.StructType:
+				// Non-exported structs do not represent types
+				if !t.Name.IsExported() {
+					break
+				}
+				// Skip all non-oneofs; will be processed later
+				iface, ok := oneofTypes[t.Name.Name]
+				if !ok {
+					break
+				}
+				nmsg, err := NewMessage(t)
+				if err != nil {
+					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
+				}
+				f := nmsg.Fields[0]
+				f.Type.Message = &Message{
+					Name: nmsg.Name,
 				}
+				oneofs[iface] = append(oneofs[iface], f)
 			}
 		}
 
-- 
2.43.0


From 07a6047340660654fba2af62f4a6f14a1dbbc316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 11/16] fix: resolve the enum type of a map field's values

---
 svcdef/resolvetypes.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/svcdef/resolvetypes.go b/svcdef/resolvetypes.go
index 57f9ab3..b8dab3b 100644
--- a/svcdef/resolvetypes.go
+++ b/svcdef/resolvetypes.go
@@ -40,11 +40,9 @@ func resolveTypes(sd *Svcdef) {
 
 // setType unpacks typeBox value into corresponding FieldType
 func setType(f *FieldType, tmap map[string]typeBox) {
-	// Special case maps with valuetypes pointing to messages
+	// Special case maps, whose valuetypes may be messages or enums
 	if f.Map != nil {
-		if f.Map.ValueType.StarExpr {
-			f = f.Map.ValueType
-		}
+		f = f.Map.ValueType
 	}
 	entry, ok := tmap[f.Name]
 	if !ok {
-- 
2.43.0


From fad9cfa0b06b8af5d9bfb1f8f3b790eb4afd2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 12/16] fix: assign addressable values to optional 32-bit and
 enum fields

---
 gengokit/httptransport/httptransport.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index bee4811..fef2685 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -505,7 +505,11 @@ func createDecodeTypeConversion(f Field) string {
 	}
 	// 如果字段是标量类型并且是指针类型
 	// log.Debugf("[createDecodeTypeConversion] field[%v].GoType=%v.IsBaseType=%v, filed.StarExpr=%v\n", f.Name, f.GoType, f.IsBaseType, f.StarExpr)
-	if f.IsBaseType && f.StarExpr {
+	if (f.IsBaseType || f.IsEnum) && f.StarExpr {
+		if fType != "%s" {
+			// The result of a conversion is not addressable
+			return fmt.Sprintf("&[]%s{"+fType+"}[0]", f.GoType, f.LocalName)
+		}
 		return fmt.Sprintf("&"+fType, f.LocalName)
 	}
 	return fmt.Sprintf(fType, f.LocalName)
-- 
2.43.0


From d134a8745f2de96824c51e388c05c818fdafd16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 13/16] fix: the zero value of an enum is 0, not nil

---
 gengokit/httptransport/httptransport.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index fef2685..7231a3d 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -516,6 +516,9 @@ func createDecodeTypeConversion(f Field) string {
 }
 
 func getZeroValue(f Field) string {
+	if f.IsEnum && !f.Repeated && !f.StarExpr {
+		return "0"
+	}
 	if !f.IsBaseType || f.Repeated || f.StarExpr {
 		return "nil"
 	}
-- 
2.43.0


From a0a43aec1803e771e1e9ec5fe923a597b5740345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 14/16] fix: decode repeated strings and oneof bytes by their
 element type

---
 gengokit/httptransport/httptransport.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 7231a3d..4e3738b 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -434,9 +434,9 @@ if err != nil {
 		}
 		repeatedUnmarshalTmpl := `
 var {{.LocalName}} []{{if .StarExpr -}}*{{- end -}}{{.GoType}}
-{{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
+{{- if and (.IsBaseType) (ne .GoType "byte")}}
 if len({{.LocalName}}StrArr) > 1 {
-	{{- if (Contains .GoType "[]string")}}
+	{{- if (eq .GoType "string")}}
 	{{.LocalName}} = {{.LocalName}}StrArr
 	{{- else}}
 	{{.LocalName}} = make([]{{if .StarExpr -}}*{{- end -}}{{.GoType}}, len({{.LocalName}}StrArr))
@@ -447,9 +447,9 @@ if len({{.LocalName}}StrArr) > 1 {
 	{{- end}}
 } else {
 {{- end}}
-	{{- if (Contains .GoType "[]string")}}
+	{{- if (eq .GoType "string")}}
 		{{.LocalName}} = strings.Split({{.LocalName}}Str, ",")
-	{{- else if and (and .IsBaseType .Repeated) (not (Contains .GoType "[]byte"))}}
+	{{- else if and (and .IsBaseType .Repeated) (ne .GoType "byte")}}
 	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
 	if err != nil {
 		{{.LocalName}}Str = "[" + {{.LocalName}}Str + "]"
@@ -458,7 +458,7 @@ if len({{.LocalName}}StrArr) > 1 {
 	{{- else}}
 	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
 	{{- end}}
-{{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
+{{- if and (.IsBaseType) (ne .GoType "byte")}}
 }
 {{- end}}`
 
-- 
2.43.0


From fa2e5ae963c9fb325e241a7684be25e86eb73b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 15/16] fix: keep rpc methods whose receiver is parenthesised

---
 gengokit/service/services.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index 9157bb6..e4dacec 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -206,9 +206,10 @@ func updateResults(f *ast.FuncDecl, m *svcdef.ServiceMethod) {
 
 // updatePBFieldType updates t if in the form X.Sel/*X.Sel to X.newType/*X.newType.
 func updatePBFieldType(t ast.Expr, newType string) {
+	t = unparen(t)
 	// *pb.TYPE -> pb.TYPE
 	if ptr, _ := t.(*ast.StarExpr); ptr != nil {
-		t = ptr.X
+		t = unparen(ptr.X)
 	}
 	// pb.TYPE -> TYPE
 	if sel, _ := t.(*ast.SelectorExpr); sel != nil {
@@ -261,14 +262,26 @@ func recvTypeToString(recv *ast.FieldList) string {
 	return exprString(recv.List[0].Type)
 }
 
+// unparen returns e without the parentheses around it.
+func unparen(e ast.Expr) ast.Expr {
+	for {
+		p, ok := e.(*ast.ParenExpr)
+		if !ok {
+			return e
+		}
+		e = p.X
+	}
+}
+
 // exprString returns the string representation of
 // ast.Expr for function receivers, parameters, and results.
 func exprString(e ast.Expr) string {
 	var prefix string
+	e = unparen(e)
 	// *Foo -> Foo
 	if ptr, _ := e.(*ast.StarExpr); ptr != nil {
 		prefix = "*"
-		e = ptr.X
+		e = unparen(ptr.X)
 	}
 	// *foo.Foo or foo.Foo
 	if sel, _ := e.(*ast.SelectorExpr); sel != nil {
-- 
2.43.0


From 68c55f138211695c1f7aeb3657faec0cb3b0d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 16/16] fix: do not define an rpc named NewService again on
 every regeneration

---
 gengokit/service/services.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index e4dacec..b235c9a 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -161,8 +161,8 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 		switch x := d.(type) {
 		case *ast.FuncDecl:
 			name := x.Name.Name
-			// Special case NewService and ignore unexported
-			if name == ignoredFunc || !ast.IsExported(name) {
+			// Special case NewService, unless it is an rpc's method, and ignore unexported
+			if name == ignoredFunc && (x.Recv == nil || m[name] == nil) || !ast.IsExported(name) {
 				log.WithField("Func", name).
 					Debug("Ignoring")
 				newDecls = append(newDecls, x)
-- 
2.43.0

