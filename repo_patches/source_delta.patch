From 3408b0ac9af627530f8818b715e5956c062499d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 001/127] fix: scanner loops forever on a dot followed by a
 digit

scanNumber has no fraction branch, so '.5' consumed nothing and the scanner
reported the same error again and again until memory ran out. A dot is an
illegal character like any other.
---
 pkg/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 1d3d44d..62be993 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -708,7 +708,7 @@ scanAgain:
 			insertSemi = true
 			tok = token.IDENT
 		}
-	case isDecimal(ch) || ch == '.' && isDecimal(rune(s.peek())):
+	case isDecimal(ch):
 		insertSemi = true
 		tok, lit = s.scanNumber()
 	default:
-- 
2.43.0


From 485186a9e5f22c82489aa8384a53c3ced1648d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 002/127] fix: ParseFile dereferences nil when the first token
 is illegal

parseFile returns nil after a scan error in the first token; set the path once
the result has been replaced by the empty file.
---
 pkg/parser/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 3a58826..103aadb 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -75,6 +75,7 @@ func ParseFile(fset *token.FileSet, filename string, src interface{}, mode Mode)
 				Scope: ast.NewScope(nil),
 			}
 		}
+		f.Path = filename
 
 		p.errors.Sort()
 		err = p.errors.Err()
@@ -83,7 +84,6 @@ func ParseFile(fset *token.FileSet, filename string, src interface{}, mode Mode)
 	// parse source
 	p.init(fset, filename, text, mode)
 	f = p.parseFile()
-	f.Path = filename
 	return
 }
 
-- 
2.43.0


From 7d24b59d252e72054c6fd8a325f2f9d3ea7da3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 003/127] fix: parser prints a debug trace for a malformed type

tryIdentOrType traced to stdout whenever the token was not an identifier,
instead of when tracing is enabled.
---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a0fc84d..be2e770 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -640,7 +640,7 @@ func (p *parser) parseMapType(value *ast.VarType) *ast.MapType {
 }
 
 func (p *parser) tryIdentOrType() ast.Type {
-	if p.tok != token.IDENT {
+	if p.trace {
 		defer un(trace(p, "TypeName"))
 	}
 	v := &ast.VarType{
-- 
2.43.0


From aae85d977137514b2c2a5eb37918c1e90e7fd682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 004/127] fix: parser panics on an array or map as method type

parseMethodSpec asserted that the result and parameter are plain types; report
an error at the type instead.
---
 pkg/parser/parser.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index be2e770..61032aa 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -595,6 +595,21 @@ func (p *parser) parseVarType() ast.Type {
 	return typ
 }
 
+// parseMethodVarType parses the result or parameter type of a method, which can
+// be neither an array nor a map.
+func (p *parser) parseMethodVarType() *ast.VarType {
+	pos := p.pos
+	typ := p.parseVarType()
+	v, ok := typ.(*ast.VarType)
+	if !ok {
+		p.error(pos, "method type cannot be an array or a map")
+		return &ast.VarType{
+			TypeExpr: &ast.BadExpr{From: pos, To: p.pos},
+		}
+	}
+	return v
+}
+
 func (p *parser) parseMethodSpec() *ast.FuncType {
 	if p.trace {
 		defer un(trace(p, "MethodSpec"))
@@ -602,18 +617,18 @@ func (p *parser) parseMethodSpec() *ast.FuncType {
 
 	doc := p.leadComment
 	tags := p.parseTags()
-	result := p.parseVarType()
+	result := p.parseMethodVarType()
 	name := p.parseIdent()
 	p.expect(token.LPAREN)
-	param := p.parseVarType()
+	param := p.parseMethodVarType()
 	paramName := p.parseIdent()
 	p.expect(token.RPAREN)
 	id := p.parseId()
 
 	var typ = &ast.FuncType{
-		Result:    result.(*ast.VarType),
+		Result:    result,
 		Name:      name,
-		Param:     param.(*ast.VarType),
+		Param:     param,
 		ParamName: paramName,
 		Doc:       doc,
 		Comment:   doc,
-- 
2.43.0


From e93964c4014800b720247af901ca560fe8f6d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 005/127] fix: enum items accept any token in place of '='

parseEnumItem skipped the token after the name without looking at it.
---
 pkg/parser/parser.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 61032aa..d844020 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -842,14 +842,7 @@ func (p *parser) parseEnumItem(scope *ast.Scope) *ast.EnumItem {
 		p.errorExpected(p.pos, "not find Type")
 	}
 	name := p.parseIdent()
-
-	var id *ast.BasicLit
-	p.next()
-	if p.tok != token.INT {
-		p.errorExpected(p.pos, "not find int")
-	}
-	id = &ast.BasicLit{ValuePos: p.pos, Kind: p.tok, Value: p.lit}
-	p.next()
+	var id = p.parseId()
 
 	p.expectSemi() // call before accessing p.linecomment
 	return &ast.EnumItem{
-- 
2.43.0


From ead91e944f203c8ddff80f10ee31a2bcf9a86dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 006/127] fix: server methods accept any token as separator

parseServerSpec skipped the token after a method without looking at it, so
'Res A(Req r) = 0 ) ...' was accepted and a method directly followed by the
closing brace swallowed it.
---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index d844020..9fa037b 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -868,7 +868,7 @@ func (p *parser) parseServerSpec(doc *ast.CommentGroup, tags []*ast.Tag) ast.Spe
 	var list []*ast.FuncType
 	for p.tok != token.RBRACE && p.tok != token.EOF {
 		list = append(list, p.parseMethodSpec())
-		p.next()
+		p.expectSemi()
 	}
 	rbrace := p.expect(token.RBRACE)
 
-- 
2.43.0


From 3a9856430e0d319171217e36f04a1aa27c97a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 007/127] fix: package clause without a language is accepted

A clause like 'package = "x"' was dropped silently; it now reports the missing
name.
---
 pkg/parser/parser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9fa037b..af03cbc 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -981,10 +981,7 @@ func (p *parser) parsePackageSpec() *ast.PackageSpec {
 		return nil
 	}
 
-	var ident *ast.Ident
-	if token.IDENT == p.tok {
-		ident = p.parseIdent()
-	}
+	ident := p.parseIdent()
 
 	if token.ASSIGN != p.tok {
 		p.error(pos, "invalid import path:= ")
-- 
2.43.0


From 61ad05980c6ee03c6da48814c5729d70707df901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 008/127] fix: a comment starting with 'line ' changes error
 positions or fails the build

The scanner had inherited Go's //line directives: '//line a:b' was rejected with
'invalid line number' and '//line a.hbuf:7' moved every later diagnostic to
another file and line. Comments are only comments.
---
 pkg/scanner/scanner.go | 84 ------------------------------------------
 1 file changed, 84 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 62be993..bc09e09 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -1,11 +1,9 @@
 package scanner
 
 import (
-	"bytes"
 	"fmt"
 	"hbuf/pkg/token"
 	"path/filepath"
-	"strconv"
 	"unicode"
 	"unicode/utf8"
 )
@@ -117,7 +115,6 @@ func (s *Scanner) errorf(offs int, format string, args ...interface{}) {
 func (s *Scanner) scanComment() string {
 	// initial '/' already consumed; s.ch == '/' || s.ch == '*'
 	offs := s.offset - 1 // position of initial '/'
-	next := -1           // position immediately following the comment; < 0 means invalid comment
 	numCR := 0
 
 	if s.ch == '/' {
@@ -130,11 +127,6 @@ func (s *Scanner) scanComment() string {
 			}
 			s.next()
 		}
-		// if we are at '\n', the position following the comment is afterwards
-		next = s.offset
-		if s.ch == '\n' {
-			next++
-		}
 		goto exit
 	}
 
@@ -148,7 +140,6 @@ func (s *Scanner) scanComment() string {
 		s.next()
 		if ch == '*' && s.ch == '/' {
 			s.next()
-			next = s.offset
 			goto exit
 		}
 	}
@@ -163,10 +154,6 @@ exit:
 		numCR--
 	}
 
-	if next >= 0 /* implies valid comment */ && (lit[1] == '*' || offs == s.lineOffset) && bytes.HasPrefix(lit[2:], prefix) {
-		s.updateLineInfo(next, offs, lit)
-	}
-
 	if numCR > 0 {
 		lit = stripCR(lit, lit[1] == '*')
 	}
@@ -174,77 +161,6 @@ exit:
 	return string(lit)
 }
 
-var prefix = []byte("line ")
-
-func (s *Scanner) updateLineInfo(next, offs int, text []byte) {
-	// extract comment text
-	if text[1] == '*' {
-		text = text[:len(text)-2] // lop off trailing "*/"
-	}
-	text = text[7:] // lop off leading "//line " or "/*line "
-	offs += 7
-
-	i, n, ok := trailingDigits(text)
-	if i == 0 {
-		return // ignore (not a line directive)
-	}
-	// i > 0
-
-	if !ok {
-		// text has a suffix :xxx but xxx is not a number
-		s.error(offs+i, "invalid line number: "+string(text[i:]))
-		return
-	}
-
-	var line, col int
-	i2, n2, ok2 := trailingDigits(text[:i-1])
-	if ok2 {
-		//line filename:line:col
-		i, i2 = i2, i
-		line, col = n2, n
-		if col == 0 {
-			s.error(offs+i2, "invalid column number: "+string(text[i2:]))
-			return
-		}
-		text = text[:i2-1] // lop off ":col"
-	} else {
-		//line filename:line
-		line = n
-	}
-
-	if line == 0 {
-		s.error(offs+i, "invalid line number: "+string(text[i:]))
-		return
-	}
-
-	// If we have a column (//line filename:line:col form),
-	// an empty filename means to use the previous filename.
-	filename := string(text[:i-1]) // lop off ":line", and trim white space
-	if filename == "" && ok2 {
-		filename = s.file.Position(s.file.Pos(offs)).Filename
-	} else if filename != "" {
-		// Put a relative filename in the current directory.
-		// This is for compatibility with earlier releases.
-		// See issue 26671.
-		filename = filepath.Clean(filename)
-		if !filepath.IsAbs(filename) {
-			filename = filepath.Join(s.dir, filename)
-		}
-	}
-
-	s.file.AddLineColumnInfo(next, filename, line, col)
-}
-
-func trailingDigits(text []byte) (int, int, bool) {
-	i := bytes.LastIndexByte(text, ':') // look from right (Windows filenames may contain ':')
-	if i < 0 {
-		return 0, 0, false // no ":"
-	}
-	// i >= 0
-	n, err := strconv.ParseUint(string(text[i+1:]), 10, 0)
-	return i + 1, int(n), err == nil
-}
-
 func (s *Scanner) findLineEnd() bool {
 	// initial '/' already consumed
 
-- 
2.43.0


From 65385379249777fff4d8a22ddcf9944822c443c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 009/127] fix: scanner reports no error for a lone slash

Every other illegal character is reported at its position.
---
 pkg/scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index bc09e09..866250d 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -696,6 +696,9 @@ scanAgain:
 				}
 				tok = token.COMMENT
 				lit = comment
+			} else {
+				s.errorf(s.file.Offset(pos), "illegal character %#U", ch)
+				lit = string(ch)
 			}
 		case '=':
 			tok = token.ASSIGN
-- 
2.43.0


From 6b6f5c00e7c5d337ecf0286c2707f290f86cbb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 010/127] fix: names with leading, trailing or double
 underscores crash the generators

StringToHumpName and StringToFirstLower sliced an empty word, and all
name conversions cut a multi-byte first letter in the middle.
---
 pkg/build/build.go    | 23 ++++++++++++++---------
 pkg/build/language.go |  5 ++---
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index bb87369..01b9af2 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 type BaseType string
@@ -428,24 +429,28 @@ func StringToHumpName(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
+		ret += firstToUpper(item)
+	}
+	if 0 == len(ret) {
+		return val
 	}
 	return ret
 }
 
+// firstToUpper 首字母大写
+func firstToUpper(val string) string {
+	_, size := utf8.DecodeRuneInString(val)
+	return strings.ToUpper(val[:size]) + val[size:]
+}
+
 // StringToFirstLower 转首字母小写
 func StringToFirstLower(val string) string {
 	if 0 == len(val) {
 		return val
 	}
-	temp := strings.Split(val, "_")
-	var ret string
-	for _, item := range temp {
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
-	}
-	return strings.ToLower(ret[:1]) + ret[1:]
+	ret := StringToHumpName(val)
+	_, size := utf8.DecodeRuneInString(ret)
+	return strings.ToLower(ret[:size]) + ret[size:]
 }
 
 // StringToUnderlineName 下划线
diff --git a/pkg/build/language.go b/pkg/build/language.go
index 4977bc8..f387af1 100644
--- a/pkg/build/language.go
+++ b/pkg/build/language.go
@@ -63,7 +63,7 @@ func GetLang(val string, key string, lanMap map[string]string) string {
 	rex := regexp.MustCompile(`[A-Z_]`)
 	match := rex.FindAllStringSubmatchIndex(val, -1)
 	if nil == match {
-		return strings.ToUpper(val[:1]) + strings.ToLower(val[1:])
+		return firstToUpper(strings.ToLower(val))
 	}
 	var ret string
 	var index = 0
@@ -76,8 +76,7 @@ func GetLang(val string, key string, lanMap map[string]string) string {
 			continue
 		}
 		if 0 == len(ret) {
-			ret += strings.ToUpper(temp[:1])
-			ret += strings.ToLower(temp[1:])
+			ret += firstToUpper(strings.ToLower(temp))
 		} else {
 			ret += " " + strings.ToLower(temp)
 		}
-- 
2.43.0


From 2df4bdc58c9a521f295dd26b874c7efed7c1fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 011/127] fix: readable form of a one-word name starts with a
 space

---
 pkg/build/language.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/build/language.go b/pkg/build/language.go
index f387af1..01fcafe 100644
--- a/pkg/build/language.go
+++ b/pkg/build/language.go
@@ -87,7 +87,9 @@ func GetLang(val string, key string, lanMap map[string]string) string {
 		if 0 == strings.Index(temp, "_") {
 			temp = temp[1:]
 		}
-		if 0 < len(temp) {
+		if 0 == len(ret) {
+			ret = firstToUpper(strings.ToLower(temp))
+		} else if 0 < len(temp) {
 			ret += " " + strings.ToLower(temp)
 		}
 	}
-- 
2.43.0


From 974ad220ee5fc72cc7fd96da0acd38195106a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 012/127] fix: repeated keys are only rejected in the first
 annotation of a construct

---
 pkg/build/build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 01b9af2..b6e4238 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -311,7 +311,10 @@ func (b *Builder) checkTags(tags []*ast.Tag) error {
 	}
 
 	for _, tag := range tags {
-		return b.checkKeyValue(tag.KV)
+		err := b.checkKeyValue(tag.KV)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 1b34a4a128ca16059fd3a2264a44f3ce4582d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 013/127] fix: annotations of an enum are not checked for
 repetition

---
 pkg/build/enum.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index aa4acf6..a24da0e 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -6,6 +6,10 @@ import (
 )
 
 func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error {
+	err := b.checkTags(enum.Tags)
+	if err != nil {
+		return err
+	}
 	name := enum.Name.Name
 	if _, ok := _keys[BaseType(name)]; ok {
 		return scanner.Error{
@@ -21,7 +25,7 @@ func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error
 		}
 	}
 
-	err := b.checkEnumItem(file, enum)
+	err = b.checkEnumItem(file, enum)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cc61de19c140c601edd29498337cdc0be81f8d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 014/127] fix: reserved item and parent names are reported at
 the declaration's position

---
 pkg/build/data.go   | 2 +-
 pkg/build/enum.go   | 2 +-
 pkg/build/server.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/build/data.go b/pkg/build/data.go
index 83836e2..9b4537b 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -43,7 +43,7 @@ func (b *Builder) checkDataExtends(file *ast.File, data *ast.DataType, index int
 	for i, item := range data.Extends {
 		if _, ok := _keys[BaseType(item.Name.Name)]; ok {
 			return scanner.Error{
-				Pos: b.fset.Position(data.Name.Pos()),
+				Pos: b.fset.Position(item.Name.Pos()),
 				Msg: "Invalid name: " + item.Name.Name,
 			}
 		}
diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index a24da0e..e916525 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -42,7 +42,7 @@ func (b *Builder) checkEnumItem(file *ast.File, enum *ast.EnumType) error {
 		}
 		if _, ok := _keys[BaseType(item.Name.Name)]; ok {
 			return scanner.Error{
-				Pos: b.fset.Position(enum.Name.Pos()),
+				Pos: b.fset.Position(item.Name.Pos()),
 				Msg: "Invalid name: " + item.Name.Name,
 			}
 		}
diff --git a/pkg/build/server.go b/pkg/build/server.go
index 754975d..71a833e 100644
--- a/pkg/build/server.go
+++ b/pkg/build/server.go
@@ -152,7 +152,7 @@ func (b *Builder) checkServerExtends(file *ast.File, server *ast.ServerType, ind
 	for i, item := range server.Extends {
 		if _, ok := _keys[BaseType(item.Name.Name)]; ok {
 			return scanner.Error{
-				Pos: b.fset.Position(server.Name.Pos()),
+				Pos: b.fset.Position(item.Name.Pos()),
 				Msg: "Invalid name: " + item.Name.Name,
 			}
 		}
-- 
2.43.0


From 83a84c0fd5d2308e86190b81e54d4a76303ab207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 015/127] fix: an unknown map key type crashes the build

---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index b6e4238..e7ec10f 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -266,7 +266,7 @@ func (b *Builder) checkDataMapKey(file *ast.File, varType *ast.VarType) error {
 			return nil
 		}
 		obj := b.GetDataType(file, varType.TypeExpr.(*ast.Ident).Name)
-		if obj.Kind == ast.Enum {
+		if nil != obj && obj.Kind == ast.Enum {
 			varType.TypeExpr.(*ast.Ident).Obj = obj
 			return nil
 		}
-- 
2.43.0


From 01149e22f569a59c25956f046e09236fcedd2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 016/127] fix: an array or map as map key type crashes the
 build

---
 pkg/build/data.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/build/data.go b/pkg/build/data.go
index 9b4537b..8a72a5b 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -170,7 +170,14 @@ func (b *Builder) checkDataItem(file *ast.File, data *ast.DataType) error {
 			}
 		case *ast.MapType:
 			ma := item.Type.(*ast.MapType)
-			err := b.checkDataMapKey(file, ma.Key.(*ast.VarType))
+			key, ok := ma.Key.(*ast.VarType)
+			if !ok {
+				return scanner.Error{
+					Pos: b.fset.Position(ma.Key.Pos()),
+					Msg: "Map keys can only be of type",
+				}
+			}
+			err := b.checkDataMapKey(file, key)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From eab5470af190ce6f9e3de1d899cc55820eb4fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 017/127] fix: duplicate numbers written in different bases are
 accepted

---
 pkg/build/build.go | 11 +++++++++++
 pkg/build/data.go  |  2 +-
 pkg/build/enum.go  |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index e7ec10f..83b5e84 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -5,6 +5,7 @@ import (
 	"hbuf/pkg/parser"
 	"hbuf/pkg/scanner"
 	"hbuf/pkg/token"
+	"math/big"
 	"path/filepath"
 	"regexp"
 	"strings"
@@ -319,6 +320,16 @@ func (b *Builder) checkTags(tags []*ast.Tag) error {
 	return nil
 }
 
+// sameNumber 判断两个整数字面量的值是否相同
+func sameNumber(a string, b string) bool {
+	x, ok := new(big.Int).SetString(a, 0)
+	if !ok {
+		return a == b
+	}
+	y, ok := new(big.Int).SetString(b, 0)
+	return ok && 0 == x.Cmp(y)
+}
+
 func GetTag(tags []*ast.Tag, key string) (*ast.Tag, bool) {
 	if nil == tags {
 		return nil, false
diff --git a/pkg/build/data.go b/pkg/build/data.go
index 8a72a5b..e3c685b 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -231,7 +231,7 @@ func (b *Builder) checkDataDuplicateItem(data *ast.DataType, index int, name str
 func (b *Builder) checkDataDuplicateValue(data *ast.DataType, index int, id string) bool {
 	for i := index + 1; i < len(data.Fields.List); i++ {
 		s := data.Fields.List[i]
-		if s.Id.Value == id {
+		if sameNumber(s.Id.Value, id) {
 			return true
 		}
 	}
diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index e916525..bf8f1ac 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -75,7 +75,7 @@ func (b *Builder) checkEnumDuplicateItem(enum *ast.EnumType, index int, name str
 func (b *Builder) checkEnumDuplicateValue(enum *ast.EnumType, index int, id string) bool {
 	for i := index + 1; i < len(enum.Items); i++ {
 		s := enum.Items[i]
-		if s.Id.Value == id {
+		if sameNumber(s.Id.Value, id) {
 			return true
 		}
 	}
-- 
2.43.0


From c4f5153fa8d1f943695d686553db809241700325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 018/127] fix: cyclic inheritance overflows the stack

---
 pkg/build/build.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 83b5e84..d8d7eb2 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -159,6 +159,46 @@ func (b *Builder) checkFiles() error {
 		}
 	}
 
+	for _, file := range b.pkg.Files {
+		for _, s := range file.Specs {
+			if t, ok := s.(*ast.TypeSpec); ok {
+				err := b.checkCycle(t.Type, map[ast.Expr]bool{})
+				if err != nil {
+					return err
+				}
+			}
+		}
+	}
+	return nil
+}
+
+// checkCycle 检查循环继承，visited 的值为 true 时表示类型在当前继承链上
+func (b *Builder) checkCycle(expr ast.Expr, visited map[ast.Expr]bool) error {
+	var extends []*ast.Extends
+	switch t := expr.(type) {
+	case *ast.DataType:
+		extends = t.Extends
+	case *ast.ServerType:
+		extends = t.Extends
+	}
+	visited[expr] = true
+	for _, item := range extends {
+		parent := item.Name.Obj.Decl.(*ast.TypeSpec).Type
+		on, ok := visited[parent]
+		if on {
+			return scanner.Error{
+				Pos: b.fset.Position(item.Name.NamePos),
+				Msg: "Cyclic inheritance: " + item.Name.Name,
+			}
+		}
+		if !ok {
+			err := b.checkCycle(parent, visited)
+			if err != nil {
+				return err
+			}
+		}
+	}
+	visited[expr] = false
 	return nil
 }
 
-- 
2.43.0


From e8ecc927de87aa08024ee975f1ce24a870133ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 019/127] fix: a file that imports itself is rejected with
 duplicate types

---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index d8d7eb2..761e44b 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -264,7 +264,7 @@ func (b *Builder) checkDuplicateType(file *ast.File, index int, name string) boo
 	}
 
 	for _, spec := range file.Imports {
-		if f, ok := b.pkg.Files[spec.Path.Value]; ok {
+		if f, ok := b.pkg.Files[spec.Path.Value]; ok && f != file {
 			if obj := f.Scope.Lookup(name); nil != obj {
 				return true
 			}
-- 
2.43.0


From b5fb251cd2549b7f6a70d27fb8d1cc9bf00d66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 020/127] fix: a verify or bind reference without a dot crashes
 the build

---
 pkg/build/binding.go | 2 +-
 pkg/build/verify.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/build/binding.go b/pkg/build/binding.go
index 8fbfa79..c59442f 100644
--- a/pkg/build/binding.go
+++ b/pkg/build/binding.go
@@ -25,7 +25,7 @@ func GetBinding(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, na
 					return nil, NewError(item.Pos()+1, "Not set value")
 				}
 				temp := strings.Split(value, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(item.Pos()+1, "Not find server method:"+value)
 				}
 
diff --git a/pkg/build/verify.go b/pkg/build/verify.go
index 662eecf..c77f15d 100644
--- a/pkg/build/verify.go
+++ b/pkg/build/verify.go
@@ -36,7 +36,7 @@ func GetVerify(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, nam
 					return nil, NewError(i.Pos()+1, "Not set format")
 				}
 				temp := strings.Split(format, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(i.Pos()+1, "Not find enum field:"+format)
 				}
 
-- 
2.43.0


From 93659dad17f68719ad5e357f58eb28a89bb51f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 021/127] fix: every where condition is cut to the length of
 the first one

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 15c700b..925bb8d 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -74,7 +74,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "where" == item.Name.Name {
 						where := make([]string, len(item.Values))
 						for i, val := range item.Values {
-							where[i] = val.Value[1 : len(item.Values[0].Value)-1]
+							where[i] = val.Value[1 : len(val.Value)-1]
 						}
 						db.Where = where
 					} else if "offset" == item.Name.Name {
-- 
2.43.0


From e1d3bd866cc6281d9645d3be51c04bd6c4c0689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 022/127] fix: input files in the current or the root directory
 lose part of their name

The file name was cut at len(dir)+1, which is wrong for the directories
"." and "/". The input path is made absolute, so that a file is read once
whatever the spelling of the paths that lead to it.
---
 pkg/build/build.go      | 7 +++++--
 pkg/parser/interface.go | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 761e44b..3334816 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -112,9 +112,12 @@ func NewBuilder(build Function, param *Param) *Builder {
 }
 
 func Build(out string, in string, typ string, pack string) error {
-	in = filepath.Clean(in)
+	in, err := filepath.Abs(in)
+	if err != nil {
+		return err
+	}
 	path := filepath.Dir(in)
-	name := in[len(path)+1:]
+	name := filepath.Base(in)
 	reg, err := regexp.Compile(strings.ReplaceAll(name, "*", "(.*)"))
 	if err != nil {
 		return err
diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 103aadb..c31ebce 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -137,7 +137,7 @@ func parseDirFile(fset *token.FileSet, pkg *ast.Package, path string, name strin
 			spec.Path.Value = imp
 		}
 		path := filepath.Dir(imp)
-		name := imp[len(path)+1:]
+		name := filepath.Base(imp)
 		err := parseDirFile(fset, pkg, path, name)
 		if err != nil {
 			switch err.(type) {
-- 
2.43.0


From d48a6cb93a55f8f3ce8fe97477d81b2a961167f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 023/127] fix: the input pattern matches parts of file names
 and special characters

---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 3334816..6cd915e 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -118,7 +118,7 @@ func Build(out string, in string, typ string, pack string) error {
 	}
 	path := filepath.Dir(in)
 	name := filepath.Base(in)
-	reg, err := regexp.Compile(strings.ReplaceAll(name, "*", "(.*)"))
+	reg, err := regexp.Compile("^" + strings.ReplaceAll(regexp.QuoteMeta(name), "\\*", ".*") + "$")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From a3041449f02c8356c992c2b5fd2dae48307c98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 024/127] fix: a directory whose name matches the input pattern
 fails the build

---
 pkg/parser/interface.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index c31ebce..c3b07d4 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -98,6 +98,7 @@ func ParseDir(fset *token.FileSet, pkg *ast.Package, path string, reg *regexp.Re
 			if err != nil {
 				return err
 			}
+			continue
 		}
 		if !reg.MatchString(item.Name()) {
 			continue
-- 
2.43.0


From 9aa18b3fc16b39820ee14321b025e57b824cd7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 025/127] fix: absolute imports are looked up below the
 importing directory

---
 pkg/parser/interface.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index c3b07d4..1fa2d6d 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -133,10 +133,12 @@ func parseDirFile(fset *token.FileSet, pkg *ast.Package, path string, name strin
 	for _, spec := range f.Imports {
 		imp := spec.Path.Value
 		imp = imp[1 : len(imp)-1]
-		if !("/" == imp || 0 != len(filepath.VolumeName(imp))) {
+		if filepath.IsAbs(imp) {
+			imp = filepath.Clean(imp)
+		} else {
 			imp = filepath.Join(path, imp)
-			spec.Path.Value = imp
 		}
+		spec.Path.Value = imp
 		path := filepath.Dir(imp)
 		name := filepath.Base(imp)
 		err := parseDirFile(fset, pkg, path, name)
-- 
2.43.0


From 938f253e4cff5e1a8aaa1367b64eabdf563424e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 026/127] fix: a schema file not named *.hbuf crashes the
 generators

---
 pkg/dart/dart.go             | 5 +++--
 pkg/golang/gloang.go         | 2 +-
 pkg/java/java.go             | 5 +++--
 pkg/typescript/typescript.go | 5 +++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 62b402b..c55a387 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -65,7 +66,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -261,7 +262,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index b67ee5b..8779ea1 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -94,7 +94,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	packs := strings.Split(dst.packages, ".")
 	for _, pack := range packs {
 		dir = filepath.Join(dir, pack)
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 180c4fa..6a91357 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -73,7 +74,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	name = build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -269,7 +270,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = dst.Packages + "." + build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	name = dst.Packages + "." + build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index ecfd7a7..d001d9a 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strconv"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -77,7 +78,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -305,7 +306,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	if 0 < len(s) {
 		name = name + "." + s
 	} else {
-- 
2.43.0


From 254c514ba1227d16a1e2768e4a37feb234d98d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 027/127] fix: Dart generator drops errors in verify
 annotations

---
 pkg/dart/dart.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index c55a387..fe13e66 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -48,12 +48,14 @@ func NewGoWriter() *DartWriter {
 type Builder struct {
 	lang map[string]struct{}
 	pkg  *ast.Package
+	fSet *token.FileSet
 }
 
 func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	b := Builder{
 		lang: map[string]struct{}{},
 		pkg:  param.GetPkg(),
+		fSet: fset,
 	}
 	dst := NewGoWriter()
 	err := b.Node(dst, fset, file)
@@ -189,18 +191,24 @@ func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) e
 		switch s.(type) {
 		case *ast.ImportSpec:
 		case *ast.TypeSpec:
-			b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			err := b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
 }
 
-func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) {
+func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) error {
 	switch expr.(type) {
 	case *ast.DataType:
 		b.printDataCode(dst.data, expr.(*ast.DataType))
 		b.printFormCode(dst.ui, expr)
-		b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		err := b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		if err != nil {
+			return err
+		}
 	case *ast.ServerType:
 		b.printServerCode(dst.server, expr.(*ast.ServerType))
 
@@ -208,6 +216,7 @@ func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) {
 		b.printEnumCode(dst.enum, expr.(*ast.EnumType))
 		b.printFormCode(dst.ui, expr)
 	}
+	return nil
 }
 
 func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
-- 
2.43.0


From e5348abc6bbcd0d5e4200ebc4e0884e480bb4045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 028/127] fix: errors in verify and bind annotations have no
 position; inherited ones are looked up in the wrong file

---
 pkg/build/verify.go      | 10 ++++++++++
 pkg/dart/ui.go           |  2 +-
 pkg/dart/verify.go       |  8 ++++----
 pkg/golang/server.go     | 10 +++++++---
 pkg/golang/verify.go     |  8 ++++----
 pkg/typescript/verify.go |  8 ++++----
 6 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/pkg/build/verify.go b/pkg/build/verify.go
index c77f15d..a7a38dd 100644
--- a/pkg/build/verify.go
+++ b/pkg/build/verify.go
@@ -2,6 +2,7 @@ package build
 
 import (
 	"hbuf/pkg/ast"
+	"hbuf/pkg/token"
 	"strings"
 )
 
@@ -69,6 +70,15 @@ func GetVerify(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, nam
 	return v, nil
 }
 
+// GetDataVerify 返回 data 声明的校验，注解里的名称在声明它的文件中查找
+func GetDataVerify(tags []*ast.Tag, data *ast.DataType, fSet *token.FileSet, getType func(file *ast.File, name string) *ast.Object) (*Verify, error) {
+	v, err := GetVerify(tags, data.Name.Obj.Data.(*ast.File), getType)
+	if err != nil {
+		return nil, ErrorToFileError(err, fSet)
+	}
+	return v, nil
+}
+
 func getEnumItem(em *ast.EnumType, name string) *ast.EnumItem {
 	for _, item := range em.Items {
 		if item.Name.Name == name {
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 87c6ec9..1c05902 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -509,7 +509,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		isArray := build.IsArray(field.Type)
 		isNil := build.IsNil(field.Type)
 
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetDataVerify(field.Tags, data, b.fSet, b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index fb72025..fa79962 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -16,7 +16,7 @@ func (b *Builder) printVerifyCode(dst *build.Writer, data *ast.DataType) error {
 		return err
 	}
 
-	verify, err := build.GetVerify(data.Tags, dst.File, b.GetDataType)
+	verify, err := build.GetDataVerify(data.Tags, data, b.fSet, b.GetDataType)
 	if err != nil {
 		return err
 	}
@@ -31,7 +31,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	dName := build.StringToHumpName(data.Name.Name)
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetDataVerify(field.Tags, data, b.fSet, b.GetDataType)
 		if err != nil {
 			return err
 		}
@@ -97,7 +97,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						if 0 < len(f.Min) {
 							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
 							if err != nil {
-								return err
+								return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
 							}
 							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
 						}
@@ -107,7 +107,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							}
 							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
 							if err != nil {
-								return err
+								return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
 							}
 							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
 						}
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 8c5df35..cf38ebc 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -98,7 +98,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 		bind, err := build.GetBinding(method.Tags, dst.File, b.GetDataType)
 		if nil != err {
-			return err
+			return build.ErrorToFileError(err, b.fSet)
 		}
 		if bind == nil {
 			if isSub {
@@ -109,7 +109,10 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
-			b.printBinding(dst, method, bind, isSub)
+			err = b.printBinding(dst, method, bind, isSub)
+			if err != nil {
+				return err
+			}
 		}
 		dst.Code("}\n\n")
 	}
@@ -117,7 +120,8 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 }
 
 func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool) error {
-	verify, err := build.GetVerify(method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType).Tags, dst.File, b.GetDataType)
+	data := method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+	verify, err := build.GetDataVerify(data.Tags, data, b.fSet, b.GetDataType)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index cec26bb..14601fd 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -14,7 +14,7 @@ func (b *Builder) printVerifyCode(dst *build.Writer, data *ast.DataType) error {
 		return err
 	}
 
-	verify, err := build.GetVerify(data.Tags, dst.File, b.GetDataType)
+	verify, err := build.GetDataVerify(data.Tags, data, b.fSet, b.GetDataType)
 	if err != nil {
 		return err
 	}
@@ -68,7 +68,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
 
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetDataVerify(field.Tags, data, b.fSet, b.GetDataType)
 		if err != nil {
 			return err
 		}
@@ -160,7 +160,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						if 0 < len(f.Min) {
 							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
 							if err != nil {
-								return err
+								return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
 							}
 							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > i.Get" + fName + "().UnixMilli() ")
 						}
@@ -170,7 +170,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							}
 							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
 							if err != nil {
-								return err
+								return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
 							}
 							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < i.Get" + fName + "().UnixMilli() ")
 						}
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 655a64b..53cd7f9 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -14,7 +14,7 @@ func (b *Builder) printVerifyCode(dst *build.Writer, data *ast.DataType) error {
 		return err
 	}
 
-	verify, err := build.GetVerify(data.Tags, dst.File, b.GetDataType)
+	verify, err := build.GetDataVerify(data.Tags, data, b.fSet, b.GetDataType)
 	if err != nil {
 		return err
 	}
@@ -29,7 +29,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	dName := build.StringToHumpName(data.Name.Name)
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetDataVerify(field.Tags, data, b.fSet, b.GetDataType)
 		if err != nil {
 			return err
 		}
@@ -94,7 +94,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						if 0 < len(f.Min) {
 							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
 							if err != nil {
-								return err
+								return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
 							}
 							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
 						}
@@ -104,7 +104,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							}
 							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
 							if err != nil {
-								return err
+								return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
 							}
 							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
 						}
-- 
2.43.0


From db85671be55b65c8cb6d07aba0b797b39fd0cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 029/127] fix: a method cannot be bound to a server of its own
 file

---
 pkg/golang/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 14601fd..c8126bc 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -39,6 +39,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 				return obj
 			case *ast.EnumType:
 				return obj
+			case *ast.ServerType:
+				return obj
 			}
 		}
 	}
-- 
2.43.0


From ce57ec9428049043d92bd555625246ec269ea89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 030/127] fix: unresolved verify and bind references are
 reported only after files were written

---
 pkg/build/data.go   | 11 +++++++++++
 pkg/build/server.go | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/pkg/build/data.go b/pkg/build/data.go
index e3c685b..f88b071 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -36,6 +36,17 @@ func (b *Builder) checkData(file *ast.File, data *ast.DataType, index int) error
 	}
 
 	data.Name.Obj.Data = file
+
+	_, err = GetDataVerify(data.Tags, data, b.fset, b.GetDataType)
+	if err != nil {
+		return err
+	}
+	for _, item := range data.Fields.List {
+		_, err = GetDataVerify(item.Tags, data, b.fset, b.GetDataType)
+		if err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
diff --git a/pkg/build/server.go b/pkg/build/server.go
index 71a833e..85c09ac 100644
--- a/pkg/build/server.go
+++ b/pkg/build/server.go
@@ -36,6 +36,13 @@ func (b *Builder) checkServer(file *ast.File, server *ast.ServerType, index int)
 	}
 
 	server.Name.Obj.Data = file
+
+	for _, item := range server.Methods {
+		_, err = GetBinding(item.Tags, file, b.getServerType)
+		if err != nil {
+			return ErrorToFileError(err, b.fset)
+		}
+	}
 	return nil
 }
 
@@ -175,6 +182,10 @@ func (b *Builder) checkServerExtends(file *ast.File, server *ast.ServerType, ind
 	return nil
 }
 
+func (b *Builder) getServerType(file *ast.File, name string) *ast.Object {
+	return b.getServerExtends(file, 0, name)
+}
+
 func (b *Builder) getServerExtends(file *ast.File, index int, name string) *ast.Object {
 	if obj := file.Scope.Lookup(name); nil != obj {
 		switch obj.Decl.(type) {
-- 
2.43.0


From 2256d5e076907c2e6be545fdcf5a73980d46c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 031/127] fix: a db table that is not a data type crashes the
 Go generator or is silently ignored

---
 pkg/build/data.go     | 19 +++++++++++++++++++
 pkg/build/database.go |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/pkg/build/data.go b/pkg/build/data.go
index f88b071..08474f4 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -37,6 +37,11 @@ func (b *Builder) checkData(file *ast.File, data *ast.DataType, index int) error
 
 	data.Name.Obj.Data = file
 
+	err = b.checkDataTable(file, data)
+	if err != nil {
+		return err
+	}
+
 	_, err = GetDataVerify(data.Tags, data, b.fset, b.GetDataType)
 	if err != nil {
 		return err
@@ -50,6 +55,20 @@ func (b *Builder) checkData(file *ast.File, data *ast.DataType, index int) error
 	return nil
 }
 
+func (b *Builder) checkDataTable(file *ast.File, data *ast.DataType) error {
+	dbs := GetDB(data.Name.Name, data.Tags)
+	if 0 == len(dbs) || 0 == len(dbs[0].Table) {
+		return nil
+	}
+	if obj := b.getDataExtends(file, 0, dbs[0].Table); nil == obj {
+		return scanner.Error{
+			Pos: b.fset.Position(dbs[0].TablePos),
+			Msg: "Not find: " + dbs[0].Table,
+		}
+	}
+	return nil
+}
+
 func (b *Builder) checkDataExtends(file *ast.File, data *ast.DataType, index int) error {
 	for i, item := range data.Extends {
 		if _, ok := _keys[BaseType(item.Name.Name)]; ok {
diff --git a/pkg/build/database.go b/pkg/build/database.go
index 925bb8d..8b328f3 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -2,6 +2,7 @@ package build
 
 import (
 	"hbuf/pkg/ast"
+	"hbuf/pkg/token"
 	"sort"
 	"strconv"
 	"strings"
@@ -24,6 +25,7 @@ type DB struct {
 	Map          string
 	Count        bool
 	Table        string
+	TablePos     token.Pos
 	Remove       bool
 	Where        []string
 	Offset       string
@@ -99,6 +101,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 						db.Map = strings.ToLower(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 					} else if "table" == item.Name.Name {
 						db.Table = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.TablePos = item.Values[0].Pos() + 1
 					} else if "set" == item.Name.Name {
 						db.Set = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "count" == item.Name.Name {
-- 
2.43.0


From 9dbcbbd7b1533f3060955d033eeba8db5aab4a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 032/127] fix: a db annotation without any db field crashes the
 Go generator

---
 pkg/golang/database.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 61777a3..a79ab05 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -79,6 +79,13 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		return nil
 	}
 
+	if nil == key && typ == fType && b.needKey(fDbs[0]) {
+		return scanner.Error{
+			Pos: b.fSet.Position(typ.Name.Pos()),
+			Msg: "Not find db field: " + typ.Name.Name,
+		}
+	}
+
 	if 0 == len(fDbs[0].Table) {
 		b.printScanData(dst, typ, dbs[0], wFields, key)
 		b.printNameData(dst, typ)
@@ -195,6 +202,20 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	return nil
 }
 
+// needKey 生成的函数是否用主键定位数据
+func (b *Builder) needKey(db *build.DB) bool {
+	if db.Del || db.Remove {
+		return true
+	}
+	for _, val := range []string{db.Update, db.Set, db.Get} {
+		val = strings.ToLower(val)
+		if "self" == val || "parent" == val {
+			return true
+		}
+	}
+	return false
+}
+
 func (b *Builder) getDBField(typ *ast.DataType) ([]*build.DB, []*build.DBField, *build.DBField, error) {
 	dbs := build.GetDB(typ.Name.Name, typ.Tags)
 	if 0 == len(dbs) {
-- 
2.43.0


From 75b5815eb9ad45cf557eefc033fbc2865efdcf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 033/127] fix: a db statement referring to an unknown field
 crashes the Go generator or loses the reference

---
 pkg/build/database.go  |  2 ++
 pkg/golang/database.go | 29 +++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 8b328f3..9de1264 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -26,6 +26,7 @@ type DB struct {
 	Count        bool
 	Table        string
 	TablePos     token.Pos
+	Pos          token.Pos
 	Remove       bool
 	Where        []string
 	Offset       string
@@ -58,6 +59,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 			db := DB{
 				index: int(index),
 				Fake:  true,
+				Pos:   val.Pos(),
 			}
 			if nil != val.KV {
 				for _, item := range val.KV {
diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index a79ab05..eb3b1c3 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -51,7 +51,10 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 
 	dbs, wFields, key, err := b.getDBField(typ)
-	if 0 == len(dbs) || nil != err {
+	if nil != err {
+		return err
+	}
+	if 0 == len(dbs) {
 		return nil
 	}
 
@@ -68,7 +71,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		typ = table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
 		dbs, fields, key, err = b.getDBField(typ)
 		if nil != err {
-			return nil
+			return err
 		}
 		if len(dbs) == 0 {
 			return nil
@@ -241,6 +244,12 @@ func (b *Builder) getDBField(typ *ast.DataType) ([]*build.DB, []*build.DBField,
 	if nil != err {
 		return nil, nil, nil, err
 	}
+	for _, field := range fields {
+		err = b.checkParam(field, fields)
+		if nil != err {
+			return nil, nil, nil, err
+		}
+	}
 	return dbs, fields, key, nil
 }
 
@@ -403,6 +412,22 @@ func (b *Builder) findField(fields []*build.DBField, name string) *build.DBField
 
 var paramRex = regexp.MustCompile(`(\?{\w+})|(\${\w+})|\$|\?`)
 
+// checkParam 检查语句中引用的字段是否存在
+func (b *Builder) checkParam(self *build.DBField, fields []*build.DBField) error {
+	db := self.Dbs[0]
+	for _, text := range append([]string{db.Set, db.Group, db.Order}, db.Where...) {
+		for _, t := range paramRex.FindAllString(text, -1) {
+			if 2 < len(t) && nil == b.findField(fields, t[2:len(t)-1]) {
+				return scanner.Error{
+					Pos: b.fSet.Position(db.Pos),
+					Msg: "Invalid name: " + t[2:len(t)-1],
+				}
+			}
+		}
+	}
+	return nil
+}
+
 func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField, fields []*build.DBField, array, tab string) error {
 	match := paramRex.FindAllStringSubmatchIndex(text, -1)
 	buf.Code(tab)
-- 
2.43.0


From 0d197dcb41781a635cec3dab918de62e9a89751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 034/127] fix: DbUpdate uses the conditions of the assigned
 fields instead of its own

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index eb3b1c3..44710f1 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -802,7 +802,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, fields, false, false, false)
+	w := b.getParamWhere(dst, wFields, false, false, false)
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
-- 
2.43.0


From 4d934eb7813c7479dae715411042aea5b9b055af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 035/127] fix: generated statements locate rows by a column id
 whatever the key is

---
 pkg/golang/database.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 44710f1..12a68e3 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -126,7 +126,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Del {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printDeleteData(dst, dbs[0], w, fType, nil != c)
@@ -135,7 +135,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Remove {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printRemoveData(dst, dbs[0], w, fType, nil != c)
@@ -168,7 +168,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -182,7 +182,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -196,7 +196,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
-- 
2.43.0


From 0f7388c057b1b83176898b62729f806b4e3b6267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 036/127] fix: DbInsert assigns absent values

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 12a68e3..2ad1ea2 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -744,7 +744,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"INSERT INTO \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, val, false)
+	set := b.printSet(fields, val, true)
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
-- 
2.43.0


From 9c5d8031f0d0cfd82aae02148958d235eb2a45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:37 +0000
Subject: [PATCH 037/127] fix: DbMap is not generated when the key field has
 capital letters

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 9de1264..de3f387 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -100,7 +100,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "list" == item.Name.Name {
 						db.List = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "map" == item.Name.Name {
-						db.Map = strings.ToLower(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
+						db.Map = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "table" == item.Name.Name {
 						db.Table = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 						db.TablePos = item.Values[0].Pos() + 1
-- 
2.43.0


From ced662d5bff8ef5569b26c32850e441e4836d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 038/127] fix: reads and writes use different names for a
 column with a declared name

---
 pkg/golang/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 2ad1ea2..1d5d0ff 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -279,14 +279,14 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 	for _, field := range fields {
 		get := ""
 		if 0 < len(field.Dbs[0].Get) {
-			get = strings.ReplaceAll(field.Dbs[0].Get, "?", build.StringToUnderlineName(field.Dbs[0].Name))
+			get = strings.ReplaceAll(field.Dbs[0].Get, "?", field.Dbs[0].Name)
 		} else if "self" == key && (field.Dbs[0].DefaultWhere ||
 			0 == len(field.Dbs[0].Where) &&
 				0 == len(field.Dbs[0].Limit) &&
 				0 == len(field.Dbs[0].Group) &&
 				0 == len(field.Dbs[0].Offset) &&
 				0 == len(field.Dbs[0].Order)) {
-			get = build.StringToUnderlineName(field.Dbs[0].Name)
+			get = field.Dbs[0].Name
 		} else {
 			continue
 		}
-- 
2.43.0


From c106d6f7de9a99f665c99e944e3ccf0b834ce647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 039/127] fix: several group or order fields give several GROUP
 BY or ORDER BY clauses

---
 pkg/golang/database.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 1d5d0ff..aab36d6 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -343,20 +343,31 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	}
 
 	if groupBy {
-		isFist := true
+		groups := 0
+		for _, field := range fields {
+			if 0 < len(field.Dbs[0].Group) {
+				groups++
+			}
+		}
+		if 1 < groups {
+			where.Code("\tgroup := \" GROUP BY \"\n")
+		}
 		for _, field := range fields {
 			group := field.Dbs[0].Group
 			if 0 < len(group) {
 				if build.IsNil(field.Field.Type) {
 					where.Code("\tif nil != g." + build.StringToHumpName(field.Field.Name.Name) + " {\t")
 				}
-				if isFist {
-					where.Code("\ts.T(\" GROUP BY \")")
+				if 1 < groups {
+					where.Code("\ts.T(group)")
 				} else {
-					where.Code("\ts.T(\", \")")
+					where.Code("\ts.T(\" GROUP BY \")")
 				}
 
 				_ = b.printParam(where, group, field, fields, "", "")
+				if 1 < groups {
+					where.Code("\tgroup = \", \"\n")
+				}
 				if build.IsNil(field.Field.Type) {
 					where.Code("\t}\n")
 				}
@@ -365,7 +376,15 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	}
 
 	if orderBy {
-
+		orders := 0
+		for _, field := range fields {
+			if 0 < len(field.Dbs[0].Order) {
+				orders++
+			}
+		}
+		if 1 < orders {
+			where.Code("\torder := \" ORDER BY \"\n")
+		}
 		for _, field := range fields {
 			order := field.Dbs[0].Order
 			if 0 < len(order) {
@@ -378,10 +397,17 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 				}
 
 				where.Code(" {\n")
-				where.Code("\t\ts.T(\" ORDER BY \")")
+				if 1 < orders {
+					where.Code("\t\ts.T(order)")
+				} else {
+					where.Code("\t\ts.T(\" ORDER BY \")")
+				}
 
 				_ = b.printParam(where, order, field, fields, "", "")
 
+				if 1 < orders {
+					where.Code("\t\torder = \", \"\n")
+				}
 				where.Code("\t}\n")
 			}
 		}
-- 
2.43.0


From ef44222ce00fc8e2de96b995d27eaca7fa4e768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 040/127] fix: an absent limit or offset still adds a LIMIT
 clause

---
 pkg/golang/database.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index aab36d6..ffcdb91 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -415,13 +415,30 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 
 	if page {
 		if limit, ok := b.getLimit(fields); ok {
+			isNil := build.IsNil(limit.Field.Type)
+			if isNil {
+				where.Code("\tif nil != g." + build.StringToHumpName(limit.Field.Name.Name) + " {\n")
+			}
 			if offset, ok := b.getOffset(fields); ok {
+				isNil := build.IsNil(offset.Field.Type)
+				if isNil {
+					where.Code("\tif nil == g." + build.StringToHumpName(offset.Field.Name.Name) + " {\n")
+					where.Code("\ts.T(\" LIMIT " + limit.Dbs[0].Limit + "\")")
+					where.Code(".P(g." + build.StringToHumpName(limit.Field.Name.Name) + ")\n")
+					where.Code("\t} else {\n")
+				}
 				where.Code("\ts.T(\" LIMIT " + offset.Dbs[0].Offset + ", " + limit.Dbs[0].Limit + "\")")
 				where.Code(".P(g." + build.StringToHumpName(offset.Field.Name.Name) + ", g." + build.StringToHumpName(limit.Field.Name.Name) + ")\n")
+				if isNil {
+					where.Code("\t}\n")
+				}
 			} else {
 				where.Code("\ts.T(\" LIMIT " + limit.Dbs[0].Limit + "\")")
 				where.Code(".P(g." + build.StringToHumpName(limit.Field.Name.Name) + ")\n")
 			}
+			if isNil {
+				where.Code("\t}\n")
+			}
 		}
 	}
 	return where
-- 
2.43.0


From e373dc162739079f96f5fcf1e1215dc8782c69b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 041/127] fix: conditions on the elements of a required array
 index it out of range

---
 pkg/golang/database.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index ffcdb91..1474dbc 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -326,18 +326,14 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					_ = b.printParam(where, item, field, fields, "", "\ts")
 				}
 			} else {
-				if build.IsNil(field.Field.Type) {
-					where.Code("\tif nil != g." + fieldName + " && " + strconv.Itoa(i) + " < len(g." + fieldName + ")")
-					array := field.Field.Type.(*ast.ArrayType)
-					if array.VType.Empty {
-						where.Code(" && nil != g." + fieldName + "[" + strconv.Itoa(i) + "]")
-					}
-					where.Code(" {\n")
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
-					where.Code("\t}\n")
-				} else {
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts")
+				where.Code("\tif " + strconv.Itoa(i) + " < len(g." + fieldName + ")")
+				array := field.Field.Type.(*ast.ArrayType)
+				if array.VType.Empty {
+					where.Code(" && nil != g." + fieldName + "[" + strconv.Itoa(i) + "]")
 				}
+				where.Code(" {\n")
+				_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
+				where.Code("\t}\n")
 			}
 		}
 	}
-- 
2.43.0


From 97d92ab9119f50672f808533c4a5a67dd219f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 042/127] fix: generated writes and counts use the cache
 package without importing it

---
 pkg/golang/database.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 1474dbc..54caa51 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -681,6 +681,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 
 	dst.Code("\tvar count int64\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\tc, key, _ := cache.DbGet(ctx, \"\", tableName, s, &count)\n")
 		dst.Code("\tif c != nil {\n")
 		dst.Code("\t\treturn *c, nil\n")
@@ -720,6 +721,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -748,6 +750,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -774,6 +777,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -799,6 +803,7 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	dst.Code("\t\treturn 0, 0, nil\n")
 	dst.Code("\t}\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -847,6 +852,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -879,6 +885,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
-- 
2.43.0


From a1daa5fe49ecc77e03604f0a2f15945786382d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 043/127] fix: a write keeps the table locked when its cache
 cannot be cleared

---
 pkg/golang/database.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 54caa51..07c2ceb 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -723,10 +723,10 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	if isCache {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
+		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
 		dst.Code("\t}\n")
-		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
 
 	dst.Code("\ts := db.NewSql()\n")
@@ -752,10 +752,10 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	if isCache {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
+		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
 		dst.Code("\t}\n")
-		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
 
 	dst.Code("\ts := db.NewSql()\n")
@@ -779,10 +779,10 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	if nil != c {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
+		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
 		dst.Code("\t}\n")
-		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"INSERT INTO \").T(tableName).T(\" SET \").Del(\",\")\n")
@@ -805,10 +805,10 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	if isCache {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
+		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
 		dst.Code("\t}\n")
-		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"INSERT INTO \").T(tableName).T(\" (")
@@ -854,10 +854,10 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	if nil != c {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
+		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
 		dst.Code("\t}\n")
-		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"UPDATE \").T(tableName).T(\" SET \").Del(\",\")\n")
@@ -887,10 +887,10 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	if nil != c {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
+		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
 		dst.Code("\t}\n")
-		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"UPDATE \").T(tableName).T(\" SET \").Del(\",\")\n")
-- 
2.43.0


From b304a43ed50c27ee386aedc8bfccc09e8aedd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 044/127] fix: a cached read crashes when the declared
 lifetimes leave no room

---
 pkg/golang/database.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 07c2ceb..abe72d7 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -24,6 +24,7 @@ func getCache(name string, tags []*ast.Tag) *cache {
 		min: 2 * 60 * 60,
 		max: 3 * 60 * 60,
 	}
+	isMin := false
 	if nil != val.KV {
 		for _, item := range val.KV {
 			if "min" == item.Name.Name {
@@ -33,6 +34,7 @@ func getCache(name string, tags []*ast.Tag) *cache {
 					return nil
 				}
 				c.min = val
+				isMin = true
 			} else if "max" == item.Name.Name {
 				val, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
@@ -43,6 +45,13 @@ func getCache(name string, tags []*ast.Tag) *cache {
 			}
 		}
 	}
+	if c.max < c.min {
+		if isMin {
+			c.max = c.min
+		} else {
+			c.min = c.max
+		}
+	}
 	return c
 }
 
@@ -583,7 +592,7 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
 		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
+			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + "+1)+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
 		}
@@ -650,7 +659,7 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
 		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
+			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + "+1)+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
 		}
@@ -700,7 +709,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &count, ")
 		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
+			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + "+1)+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
 		}
@@ -986,7 +995,7 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &val, ")
 		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
+			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + "+1)+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
 		}
-- 
2.43.0


From eb5a2255ff901fb9c80268a642015857edac900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 045/127] fix: reads through a table of another Go package name
 its data type without the package

---
 pkg/golang/database.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index abe72d7..7f433bd 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -545,7 +545,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 
 func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
+	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
 		key = "self"
 	} else if "self" == key {
@@ -610,7 +610,7 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 		return
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
+	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
 		key = "self"
 	} else if "self" == key {
@@ -948,7 +948,7 @@ func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *bui
 
 func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
+	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	if typ == fType {
 		key = "self"
 	} else if "self" == key {
-- 
2.43.0


From 6915c0c5f3cc36241ec8b56fe3144f593412dbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 046/127] fix: DbInsertList of a data type with a db table is
 declared on the table data

---
 pkg/golang/database.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 7f433bd..bb93202 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -166,7 +166,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printInsertListData(dst, typ, dbs[0], f, key, nil != c)
+		b.printInsertListData(dst, fType, dbs[0], f, key, nil != c)
 	}
 
 	val = strings.ToLower(fDbs[0].Update)
@@ -804,8 +804,8 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("}\n\n")
 }
 
-func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
-	name := build.StringToHumpName(typ.Name.Name)
+func (b *Builder) printInsertListData(dst *build.Writer, fType *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
+	name := build.StringToHumpName(fType.Name.Name)
 	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + name + ") (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\tif nil == val || 0 == len(val) {\n")
-- 
2.43.0


From 926e4a1af81c3fc834c25bb998d2ac9b6a4f426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 047/127] fix: a column name that looks like a field reference
 crashes the Go generator

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index bb93202..6c1c48b 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -463,7 +463,7 @@ var paramRex = regexp.MustCompile(`(\?{\w+})|(\${\w+})|\$|\?`)
 // checkParam 检查语句中引用的字段是否存在
 func (b *Builder) checkParam(self *build.DBField, fields []*build.DBField) error {
 	db := self.Dbs[0]
-	for _, text := range append([]string{db.Set, db.Group, db.Order}, db.Where...) {
+	for _, text := range append([]string{db.Name, db.Set, db.Group, db.Order}, db.Where...) {
 		for _, t := range paramRex.FindAllString(text, -1) {
 			if 2 < len(t) && nil == b.findField(fields, t[2:len(t)-1]) {
 				return scanner.Error{
-- 
2.43.0


From dba39bddc8eef37da45e370af1cc956ed3be78dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 048/127] fix: a method parameter not named req breaks the
 generated Go client

---
 pkg/golang/server.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index cf38ebc..0527a3d 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -44,9 +44,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
 		dst.Code("\t" + build.StringToHumpName(method.Name.Name))
-		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(" *")
+		dst.Code("(ctx context.Context, req *")
 		b.printType(dst, method.Param, true)
 		dst.Code(") ")
 		if isMethod {
@@ -84,9 +82,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
-		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(" *")
+		dst.Code("(ctx context.Context, req *")
 		b.printType(dst, method.Param, true)
 		if isSub {
 			dst.Code(") error {\n")
@@ -191,9 +187,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 
 		dst.Code("func (r *" + serverName + "Client) ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
-		dst.Code("(ctx context.Context, ")
-		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(" *")
+		dst.Code("(ctx context.Context, req *")
 		b.printType(dst, method.Param, true)
 		dst.Code(") ")
 		if isMethod {
-- 
2.43.0


From 9eb1dbddcf3a8a3d088e978816adfd5930eb1539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 049/127] fix: Go code names a type by its schema name where
 the declaration is converted

---
 pkg/golang/data.go   | 2 +-
 pkg/golang/gloang.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index ce3cf51..792bc80 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -117,7 +117,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 			if t.Obj.Kind == ast.Enum {
 				dst.Code("(0)")
 			} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 8779ea1..97ebf8c 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -240,7 +240,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, b2 bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 		} else {
 			if build.Date == build.BaseType((expr.(*ast.Ident)).Name) {
 				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
-- 
2.43.0


From bec6bd69849f32066d13d97b386bbfb6ff4e03d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 050/127] fix: documentation of several lines ends up as code
 in the generated files

---
 pkg/build/writer.go      |  9 +++++++++
 pkg/dart/data.go         |  6 +++---
 pkg/dart/enum.go         |  4 ++--
 pkg/dart/server.go       |  4 ++--
 pkg/golang/data.go       |  6 +++---
 pkg/golang/enum.go       |  4 ++--
 pkg/golang/server.go     | 10 +++++-----
 pkg/java/data.go         |  6 +++---
 pkg/java/enum.go         |  4 ++--
 pkg/java/server.go       |  4 ++--
 pkg/typescript/data.go   |  4 ++--
 pkg/typescript/enum.go   |  4 ++--
 pkg/typescript/server.go |  6 +++---
 13 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/pkg/build/writer.go b/pkg/build/writer.go
index 4833f42..d463356 100644
--- a/pkg/build/writer.go
+++ b/pkg/build/writer.go
@@ -2,6 +2,7 @@ package build
 
 import (
 	"hbuf/pkg/ast"
+	"regexp"
 	"strings"
 )
 
@@ -36,6 +37,14 @@ func (w *Writer) Code(text string) *Writer {
 	return w
 }
 
+var commentLine = regexp.MustCompile("[\n\r\u2028\u2029]")
+
+// Comment 写入单行注释，文本的每一行都以 mark 开头
+func (w *Writer) Comment(mark string, text string) *Writer {
+	text = strings.TrimRight(text, "\r\n")
+	return w.Code(mark + commentLine.ReplaceAllString(text, "\n"+mark) + "\n")
+}
+
 func (w *Writer) LF() *Writer {
 	_, _ = w.code.WriteString("\n")
 	return w
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 792e74a..107f2e2 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -15,7 +15,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 }
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Comment("///", typ.Doc.Text())
 	}
 	dst.Code("abstract class " + build.StringToHumpName(typ.Name.Name) + " implements Data")
 	if nil != typ.Extends {
@@ -24,7 +24,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("{\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Comment("\t/// ", "Get " + field.Doc.Text())
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -36,7 +36,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code(";\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Comment("\t/// ", "Set " + field.Doc.Text())
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index 9b1fec7..0c7e7bd 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -18,7 +18,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Comment("///", typ.Doc.Text())
 	}
 	dst.Code("class " + enumName)
 	dst.Code("{\n")
@@ -57,7 +57,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("\t///" + item.Doc.Text())
+			dst.Comment("\t///", item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + item.Id.Value + ", '" + build.StringToHumpName(item.Name.Name) + "'")
diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 87cba6a..de653d2 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Comment("///", typ.Doc.Text())
 	}
 	dst.Code("abstract class " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Comment("///", method.Doc.Text())
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("  @override\n")
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index 792bc80..b7f0592 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -17,7 +17,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	dst.Import("encoding/json", "")
 	name := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + name + " " + typ.Doc.Text())
+		dst.Comment("// ", name + " " + typ.Doc.Text())
 	}
 	dst.Code("type " + name + " struct")
 	dst.Code(" {\n")
@@ -78,7 +78,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + field.Doc.Text())
+			dst.Comment("// ", "Get" + build.StringToHumpName(field.Name.Name) + " Get " + field.Doc.Text())
 		}
 		dst.Code("func (g *" + build.StringToHumpName(typ.Name.Name) + ") Get" + build.StringToHumpName(field.Name.Name) + "() ")
 		b.printType(dst, field.Type, false)
@@ -96,7 +96,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("}\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("// Set" + build.StringToHumpName(field.Name.Name) + " Set " + field.Doc.Text())
+			dst.Comment("// ", "Set" + build.StringToHumpName(field.Name.Name) + " Set " + field.Doc.Text())
 		}
 		dst.Code("func (g *" + build.StringToHumpName(typ.Name.Name) + ") Set" + build.StringToHumpName(field.Name.Name) + "(val ")
 		b.printType(dst, field.Type, false)
diff --git a/pkg/golang/enum.go b/pkg/golang/enum.go
index 2611abc..80ead6c 100644
--- a/pkg/golang/enum.go
+++ b/pkg/golang/enum.go
@@ -9,7 +9,7 @@ import (
 func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 	name := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + name + " " + typ.Doc.Text())
+		dst.Comment("// ", name + " " + typ.Doc.Text())
 	}
 	maxLen := 0
 	dst.Code("type " + name + " int\n\n")
@@ -20,7 +20,7 @@ func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 			maxLen = l
 		}
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("// " + name + itemName + " " + item.Doc.Text())
+			dst.Comment("// ", name + itemName + " " + item.Doc.Text())
 		}
 		dst.Code("const " + name + itemName + " " + name + " = " + item.Id.Value + "\n\n")
 	}
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 0527a3d..3002bb0 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -25,7 +25,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) error
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Text())
+		dst.Comment("// ", build.StringToHumpName(serverName) + " " + typ.Doc.Text())
 	}
 	dst.Code("type " + serverName)
 	dst.Code(" interface {\n")
@@ -39,7 +39,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		}
 		isFast = false
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Comment("\t// ", build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -61,7 +61,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) error {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Text())
+		dst.Comment("// ", build.StringToHumpName(serverName) + " " + typ.Doc.Text())
 	}
 	dst.Code("type Default" + serverName)
 	dst.Code(" struct {\n")
@@ -74,7 +74,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Comment("// ", build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -179,7 +179,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 	name := build.StringToUnderlineName(typ.Name.Name)
 	err := build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Comment("// ", build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
 		}
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
 
diff --git a/pkg/java/data.go b/pkg/java/data.go
index 2ca61f9..5c6c7b8 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -14,7 +14,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Comment("///", typ.Doc.Text())
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name) + " extends Data")
 	if nil != typ.Extends {
@@ -23,7 +23,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Comment("\t/// ", "Get " + field.Doc.Text())
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -35,7 +35,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Comment("\t/// ", "Set " + field.Doc.Text())
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 09a1027..3df1cd6 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -16,7 +16,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Comment("///", typ.Doc.Text())
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
@@ -61,7 +61,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("///" + item.Doc.Text())
+			dst.Comment("///", item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 38627c8..3400870 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Comment("///", typ.Doc.Text())
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Comment("///", method.Doc.Text())
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t@override\n")
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 58c91d5..2e6ff64 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -13,7 +13,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Comment("///", typ.Doc.Text())
 	}
 	dst.Code("export class " + build.StringToHumpName(typ.Name.Name) + " implements h.Data")
 	if nil != typ.Extends {
@@ -22,7 +22,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t///" + field.Doc.Text())
+			dst.Comment("\t///", field.Doc.Text())
 		}
 		dst.Code("\t")
 		dst.Code(build.StringToFirstLower(field.Name.Name) + ": ")
diff --git a/pkg/typescript/enum.go b/pkg/typescript/enum.go
index f3134ae..b34af3b 100644
--- a/pkg/typescript/enum.go
+++ b/pkg/typescript/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Comment("///", typ.Doc.Text())
 	}
 	dst.Code("export class " + enumName)
 	dst.Code("{\n")
@@ -44,7 +44,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("\t///" + item.Doc.Text())
+			dst.Comment("\t///", item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tpublic static readonly " + itemName + " = new " + enumName + "(")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index d41599b..cd5f9d6 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -16,7 +16,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Comment("///", typ.Doc.Text())
 	}
 	dst.Code("export interface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -26,7 +26,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code(" {\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + method.Doc.Text())
+			dst.Comment("\t//", method.Doc.Text())
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -69,7 +69,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + method.Doc.Text())
+			dst.Comment("\t//", method.Doc.Text())
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
-- 
2.43.0


From 3995b62758dec0972c2646166c9829e29c45ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 051/127] fix: a backslash followed by u in a comment is an
 error in the generated Java code

---
 pkg/java/data.go   | 6 +++---
 pkg/java/enum.go   | 4 ++--
 pkg/java/java.go   | 5 +++++
 pkg/java/server.go | 4 ++--
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 5c6c7b8..31cf64b 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -14,7 +14,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Comment("///", typ.Doc.Text())
+		printComment(dst, "///", typ.Doc.Text())
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name) + " extends Data")
 	if nil != typ.Extends {
@@ -23,7 +23,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Comment("\t/// ", "Get " + field.Doc.Text())
+			printComment(dst, "\t/// ", "Get " + field.Doc.Text())
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -35,7 +35,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Comment("\t/// ", "Set " + field.Doc.Text())
+			printComment(dst, "\t/// ", "Set " + field.Doc.Text())
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 3df1cd6..a55867e 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -16,7 +16,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Comment("///", typ.Doc.Text())
+		printComment(dst, "///", typ.Doc.Text())
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
@@ -61,7 +61,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Comment("///", item.Doc.Text())
+			printComment(dst, "///", item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 6a91357..8cca73f 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -287,3 +287,8 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	dst.Import(name, "")
 	return ""
 }
+
+// printComment 写入注释，Java 在注释里也会解析 \\u 转义
+func printComment(dst *build.Writer, mark string, text string) {
+	dst.Comment(mark, strings.ReplaceAll(text, "\\u", "\\ u"))
+}
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 3400870..bbb285e 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Comment("///", typ.Doc.Text())
+		printComment(dst, "///", typ.Doc.Text())
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Comment("///", method.Doc.Text())
+			printComment(dst, "///", method.Doc.Text())
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t@override\n")
-- 
2.43.0


From 55f89c0d333a68536f9c3c0f9601cbcdcdadad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 052/127] fix: a server that inherits a method through two
 parents does not compile in Go

---
 pkg/golang/server.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 3002bb0..757f606 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -112,9 +112,48 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		dst.Code("}\n\n")
 	}
+
+	b.printServerShared(dst, typ)
 	return nil
 }
 
+// printServerShared 多个父服务都有的方法，嵌入后不再可见，需要明确调用其中一个
+func (b *Builder) printServerShared(dst *build.Writer, typ *ast.ServerType) {
+	methods := map[string]int{}
+	parents := map[string]*ast.Extends{}
+	for _, extend := range typ.Extends {
+		server := extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.ServerType)
+		_ = build.EnumMethod(server, func(method *ast.FuncType, server *ast.ServerType) error {
+			if _, ok := parents[method.Name.Name]; !ok {
+				parents[method.Name.Name] = extend
+			}
+			methods[method.Name.Name]++
+			return nil
+		})
+	}
+	for _, method := range typ.Methods {
+		delete(methods, method.Name.Name)
+	}
+	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
+		if 2 > methods[method.Name.Name] {
+			return nil
+		}
+		name := build.StringToHumpName(method.Name.Name)
+		dst.Code("func (s *Default" + build.StringToHumpName(typ.Name.Name) + ") " + name + "(ctx context.Context, req *")
+		b.printType(dst, method.Param, true)
+		if method.Result.Type().(*ast.Ident).Name == "void" {
+			dst.Code(") error {\n")
+		} else {
+			dst.Code(") (*")
+			b.printType(dst, method.Result.Type(), true)
+			dst.Code(", error) {\n")
+		}
+		dst.Code("\treturn s.Default" + build.StringToHumpName(parents[method.Name.Name].Name.Name) + "." + name + "(ctx, req)\n")
+		dst.Code("}\n\n")
+		return nil
+	})
+}
+
 func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool) error {
 	data := method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
 	verify, err := build.GetDataVerify(data.Tags, data, b.fSet, b.GetDataType)
-- 
2.43.0


From dfecf521ea69bfa3b202a535a2b21d750567d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 053/127] fix: a field inherited through two parents is lost in
 Go

---
 pkg/golang/data.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index b7f0592..04bcf96 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -26,8 +26,9 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	nameLen := 0
 	typLen := 0
 	tagLen := 0
-	fields := make([]dataField, len(typ.Fields.List))
-	for i, field := range typ.Fields.List {
+	list := append(b.getSharedFields(typ), typ.Fields.List...)
+	fields := make([]dataField, len(list))
+	for i, field := range list {
 		temp := build.NewWriter()
 		temp.Packages = dst.Packages
 		b.printType(temp, field.Type, true)
@@ -76,7 +77,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\treturn json.Unmarshal(data, g)\n")
 	dst.Code("}\n\n")
 
-	for _, field := range typ.Fields.List {
+	for _, field := range list {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
 			dst.Comment("// ", "Get" + build.StringToHumpName(field.Name.Name) + " Get " + field.Doc.Text())
 		}
@@ -111,6 +112,29 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	}
 }
 
+// getSharedFields 多个父类型都有的字段，嵌入后不再可见，需要在子类型中声明
+func (b *Builder) getSharedFields(typ *ast.DataType) []*ast.Field {
+	fields := map[string]int{}
+	for _, extend := range typ.Extends {
+		data := extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		_ = build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
+			fields[field.Name.Name]++
+			return nil
+		})
+	}
+	for _, field := range typ.Fields.List {
+		delete(fields, field.Name.Name)
+	}
+	ret := make([]*ast.Field, 0)
+	_ = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
+		if 1 < fields[field.Name.Name] {
+			ret = append(ret, field)
+		}
+		return nil
+	})
+	return ret
+}
+
 func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 	switch expr.(type) {
 	case *ast.Ident:
-- 
2.43.0


From ac80cdd1651c2ed8968ae2cca0e2aef814ed487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 054/127] fix: a Go package name with dots gives a package
 clause and imports that do not compile

---
 pkg/golang/gloang.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 97ebf8c..f178eae 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -150,7 +150,7 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 		}
 	}(fc)
 
-	_, _ = fc.WriteString("package " + packages + "\n\n")
+	_, _ = fc.WriteString("package " + packages[strings.LastIndex(packages, ".")+1:] + "\n\n")
 
 	if 0 < len(data.GetImports()) {
 		_, _ = fc.WriteString("import (\n")
@@ -294,7 +294,9 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr) string {
 	}
 
 	packs := strings.Split(pack, ".")
-	pack = packs[len(packs)-1]
+	if 1 < len(packs) {
+		return dst.Import(b.packages+strings.Join(packs, "/"), strings.Join(packs, "_")) + "."
+	}
 
 	dst.Import(b.packages+pack, "")
 	return pack + "."
-- 
2.43.0


From 1d0066da5933921359c64feaa96737ea356f18a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 055/127] fix: Go verification of int64 and uint64 fields does
 not compile

---
 pkg/golang/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index c8126bc..bb42a7e 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -143,13 +143,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > i.Get" + fName + "().Val ")
+							dst.Code(f.Min + " > i.Get" + fName + "() ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code(f.Max + " < i.Get" + fName + "().Val ")
+							dst.Code(f.Max + " < i.Get" + fName + "() ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From 72d94c5bf3642e702fe59c24d1655b1328fa6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 056/127] fix: Go verification of date fields does not compile

---
 pkg/golang/verify.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index bb42a7e..55f3126 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -157,6 +157,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					}
 				case build.Date:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
+						dst.Import("time", "")
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
@@ -164,7 +165,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > i.Get" + fName + "().UnixMilli() ")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > time.Time(i.Get" + fName + "()).UnixMilli() ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
@@ -174,7 +175,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < i.Get" + fName + "().UnixMilli() ")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < time.Time(i.Get" + fName + "()).UnixMilli() ")
 						}
 						dst.Code("{ //" + f.Min + "--" + f.Max + "\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From 0077682101bf3d2448ef6cc86908e4d3f03cf700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 057/127] fix: Go verification of decimal fields does not
 compile and takes the minimum as the maximum

---
 pkg/golang/verify.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 55f3126..f0405f4 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -183,16 +183,17 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					}
 				case build.Decimal:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
+						dst.Import("github.com/shopspring/decimal", "")
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").GreaterThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.RequireFromString(\"" + f.Min + "\").GreaterThan(i.Get" + fName + "()) ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").LessThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.RequireFromString(\"" + f.Max + "\").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From 306595c23adf1726f4049d38112442da33937471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:53 +0000
Subject: [PATCH 058/127] fix: a verification pattern written as a raw string
 gives code that does not compile

---
 pkg/build/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/build/format.go b/pkg/build/format.go
index 610f864..7d0244e 100644
--- a/pkg/build/format.go
+++ b/pkg/build/format.go
@@ -2,6 +2,7 @@ package build
 
 import (
 	"hbuf/pkg/ast"
+	"strconv"
 )
 
 type Format struct {
@@ -25,6 +26,11 @@ func GetFormat(tags []*ast.Tag) *Format {
 				f.Null = "true" == item.Values[0].Value[1:len(item.Values[0].Value)-1]
 			} else if "reg" == item.Name.Name {
 				f.Reg = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+				if '`' == item.Values[0].Value[0] {
+					// 生成的代码使用双引号字符串
+					f.Reg = strconv.Quote(f.Reg)
+					f.Reg = f.Reg[1 : len(f.Reg)-1]
+				}
 			} else if "min" == item.Name.Name {
 				f.Min = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 			} else if "max" == item.Name.Name {
-- 
2.43.0


From 8b9d2c980493b9834dda94c88c9b4d2c465c4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 059/127] fix: Go verification bounds outside the range of the
 field's type do not compile

---
 pkg/golang/verify.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index f0405f4..b72e04d 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -121,7 +121,24 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 			} else {
 				t := build.GetBaseType(field.Type)
 				switch t {
-				case build.Int8, build.Int16, build.Int32, build.Uint8, build.Uint16, build.Uint32, build.Float, build.Double:
+				case build.Int8, build.Int16, build.Int32, build.Uint8, build.Uint16, build.Uint32:
+					if 0 < len(f.Min) || 0 < len(f.Max) {
+						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+						dst.Code("\tif ")
+						if 0 < len(f.Min) {
+							dst.Code(f.Min + " > int64(i.Get" + fName + "()) ")
+						}
+						if 0 < len(f.Max) {
+							if 0 < len(f.Min) {
+								dst.Code("|| ")
+							}
+							dst.Code(f.Max + " < int64(i.Get" + fName + "()) ")
+						}
+						dst.Code("{\n")
+						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
+						dst.Code("\t}\n")
+					}
+				case build.Float, build.Double:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
-- 
2.43.0


From e8f93956792c8b5d3c214ec8bf6e788b4005ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 060/127] fix: a Go verification without any check imports
 packages it does not use

---
 pkg/golang/verify.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index b72e04d..ce5f955 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -87,11 +87,16 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				continue
 			}
 
-			pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
+			// 没有用到的包不能引入
+			pack := ""
+			if hasVerify(field.Type, f) || build.IsNil(field.Type) && 0 == i && !f.Null {
+				pack = b.getPackage(dst, val.Enum.Name)
+			}
+			pack += build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
 
 			if build.IsNil(field.Type) && 0 == i {
-				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				if !f.Null {
+					dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 					dst.Code("\tif nil == i." + fName)
 					if build.GetBaseType(field.Type) == build.String {
 						dst.Code(" || len(i.Get" + fName + "()) == 0")
@@ -217,8 +222,9 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t}\n")
 					}
 				case build.String:
-					dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
-					pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
+					if hasVerify(field.Type, f) {
+						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+					}
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
@@ -265,6 +271,24 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	return nil
 }
 
+// hasVerify 判断格式是否会检查字段的值
+func hasVerify(t ast.Type, f *build.Format) bool {
+	if build.IsEnum(t) {
+		return true
+	}
+	if build.IsMap(t) || build.IsArray(t) {
+		return false
+	}
+	switch build.GetBaseType(t) {
+	case build.Int8, build.Int16, build.Int32, build.Uint8, build.Uint16, build.Uint32, build.Float, build.Double,
+		build.Int64, build.Uint64, build.Date, build.Decimal:
+		return 0 < len(f.Min) || 0 < len(f.Max)
+	case build.String:
+		return 0 < len(f.Min) || 0 < len(f.Max) || 0 < len(f.Reg)
+	}
+	return false
+}
+
 func (b *Builder) printVerifyDataCode(dst *build.Writer, data *ast.DataType) error {
 	dName := build.StringToHumpName(data.Name.Name)
 	b.getPackage(dst, data.Name)
-- 
2.43.0


From 7964fdb5200474fa38a3d785d6502d4097354dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 061/127] fix: a bound method of no result, of the same types
 or of a server in another package does not compile

---
 pkg/golang/server.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 757f606..2570afd 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -78,8 +78,6 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
-		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
-
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, req *")
@@ -97,6 +95,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 			return build.ErrorToFileError(err, b.fSet)
 		}
 		if bind == nil {
+			dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 			if isSub {
 				dst.Code("\treturn ")
 			} else {
@@ -160,34 +159,49 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	if err != nil {
 		return err
 	}
+	result := "nil, "
+	if isSub {
+		result = ""
+	}
 	if nil != verify {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 		dst.Code("\tif err := req.Verify(ctx); err != nil {\n")
-		dst.Code("\t\treturn nil, erro.Wrap(err)\n")
+		dst.Code("\t\treturn " + result + "erro.Wrap(err)\n")
 		dst.Code("\t}\n")
 	}
 	pack := b.getPackage(dst, bind.Server.Name)
+	param := bind.Method.Param.Type().(*ast.Ident)
+	reps := bind.Method.Result.Type().(*ast.Ident)
 	if !isSub {
 		dst.Code("\treps, err := ")
+	} else if "void" != reps.Name {
+		dst.Code("\t_, err := ")
 	} else {
 		dst.Code("\terr := ")
 	}
 	dst.Code(pack)
-	dst.Code("Get").Code(bind.Server.Name.Name).Code("(ctx).").Code(bind.Method.Name.Name).Code("(ctx, &")
-	dst.Code("req.")
-	b.printType(dst, bind.Method.Param.Type(), true)
+	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).")
+	dst.Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, ")
+	if method.Param.Type().(*ast.Ident).Obj == param.Obj {
+		dst.Code("req")
+	} else {
+		dst.Code("&req." + build.StringToHumpName(param.Name))
+	}
 	dst.Code(")\n")
 
 	dst.Code("\tif err != nil {\n")
-	dst.Code("\t\treturn nil, err\n")
+	dst.Code("\t\treturn " + result + "err\n")
 	dst.Code("\t}\n")
 
 	dst.Code("\treturn ")
 	if !isSub {
-		dst.Code("&")
-		b.printType(dst, method.Result.Type(), true)
-		dst.Code("{")
-		b.printType(dst, bind.Method.Result.Type(), true)
-		dst.Code(": *reps}, ")
+		if method.Result.Type().(*ast.Ident).Obj == reps.Obj {
+			dst.Code("reps, ")
+		} else {
+			dst.Code("&")
+			b.printType(dst, method.Result.Type(), true)
+			dst.Code("{" + build.StringToHumpName(reps.Name) + ": *reps}, ")
+		}
 	}
 	dst.Code("nil\n")
 	return nil
-- 
2.43.0


From d49f23b3cfbe2adda46911a1d56c7c8879f0b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 062/127] fix: a table without any database function imports
 packages it does not use

---
 pkg/golang/database.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 6c1c48b..82cc63c 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -56,9 +56,6 @@ func getCache(name string, tags []*ast.Tag) *cache {
 }
 
 func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error {
-	dst.Import("context", "")
-	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
-
 	dbs, wFields, key, err := b.getDBField(typ)
 	if nil != err {
 		return err
@@ -103,6 +100,11 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		b.printNameData(dst, typ)
 	}
 
+	if b.hasFunc(fDbs[0]) {
+		dst.Import("context", "")
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
+	}
+
 	val := strings.ToLower(fDbs[0].List)
 	if "self" == val || "parent" == val {
 		w := wFields
@@ -228,6 +230,24 @@ func (b *Builder) needKey(db *build.DB) bool {
 	return false
 }
 
+// hasFunc 是否会生成访问数据库的函数
+func (b *Builder) hasFunc(db *build.DB) bool {
+	if b.needKey(db) || db.Count {
+		return true
+	}
+	vals := []string{db.List, db.Insert, db.Inserts}
+	if ks := strings.Split(db.Map, ":"); 1 < len(ks) && 0 < len(ks[0]) {
+		vals = append(vals, ks[1])
+	}
+	for _, val := range vals {
+		val = strings.ToLower(val)
+		if "self" == val || "parent" == val {
+			return true
+		}
+	}
+	return false
+}
+
 func (b *Builder) getDBField(typ *ast.DataType) ([]*build.DB, []*build.DBField, *build.DBField, error) {
 	dbs := build.GetDB(typ.Name.Name, typ.Tags)
 	if 0 == len(dbs) {
@@ -265,6 +285,9 @@ func (b *Builder) getDBField(typ *ast.DataType) ([]*build.DB, []*build.DBField,
 func (b *Builder) printScanData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField) {
 	name := build.StringToHumpName(typ.Name.Name)
 	item, scan, _ := b.getItemAndValue(fields, "self")
+	if strings.Contains(scan.String(), "db.NewJson(") {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
+	}
 	dst.Code("func (val *" + name + ") DbScan() (string, []any) {\n")
 	dst.Code("\treturn `" + item.String() + "`,\n")
 	dst.Code("\t\t[]any{" + scan.String() + "}\n")
-- 
2.43.0


From 458fcdf70b38a13e9044b75e91179da423eb061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 063/127] fix: a column name in back quotes gives Go code that
 does not compile

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 82cc63c..c546900 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -289,7 +289,7 @@ func (b *Builder) printScanData(dst *build.Writer, typ *ast.DataType, db *build.
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	}
 	dst.Code("func (val *" + name + ") DbScan() (string, []any) {\n")
-	dst.Code("\treturn `" + item.String() + "`,\n")
+	dst.Code("\treturn \"" + item.String() + "\",\n")
 	dst.Code("\t\t[]any{" + scan.String() + "}\n")
 	dst.Code("}\n")
 	dst.Code("\n")
-- 
2.43.0


From a7a519c174ae1d4d932fbe40639ce984b0a78818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 064/127] fix: a list or map of a request's own fields over
 another table does not compile

---
 pkg/golang/database.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index c546900..9ad2d4b 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -569,10 +569,10 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
-	if typ != fType {
-		key = "self"
-	} else if "self" == key {
+	if "self" == key {
 		dName = fName
+	} else if typ != fType {
+		key = "self"
 	}
 	w := b.getParamWhere(dst, wFields, true, true, true)
 	dst.AddImports(w.GetImports())
@@ -634,10 +634,10 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
-	if typ != fType {
-		key = "self"
-	} else if "self" == key {
+	if "self" == key {
 		dName = fName
+	} else if typ != fType {
+		key = "self"
 	}
 	w := b.getParamWhere(dst, wFields, true, true, true)
 	dst.AddImports(w.GetImports())
-- 
2.43.0


From 08f0482106f2f3d76b392904c5ab9cd4b8bb1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:17 +0000
Subject: [PATCH 065/127] fix: a read of a request's own fields imports the
 table's package unused

---
 pkg/golang/database.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 9ad2d4b..feaf70f 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -568,10 +568,9 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 
 func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
-	if "self" == key {
-		dName = fName
-	} else if typ != fType {
+	dName := fName
+	if "self" != key && typ != fType {
+		dName = b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 		key = "self"
 	}
 	w := b.getParamWhere(dst, wFields, true, true, true)
@@ -633,10 +632,9 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 		return
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
-	if "self" == key {
-		dName = fName
-	} else if typ != fType {
+	dName := fName
+	if "self" != key && typ != fType {
+		dName = b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 		key = "self"
 	}
 	w := b.getParamWhere(dst, wFields, true, true, true)
@@ -971,14 +969,11 @@ func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *bui
 
 func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
-	if typ == fType {
-		key = "self"
-	} else if "self" == key {
-		dName = fName
-	} else {
-		key = "self"
+	dName := fName
+	if "self" != key && typ != fType {
+		dName = b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	}
+	key = "self"
 
 	w := b.getParamWhere(dst, wFields, false, true, true)
 	dst.AddImports(w.GetImports())
-- 
2.43.0


From ffeb389e05e569ca3d02756539aa277fda83a2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 066/127] fix: an insert imports what only the conditions of
 the other functions use

---
 pkg/golang/database.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index feaf70f..cab3446 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -801,9 +801,6 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	if typ != fType {
 		val = "parent"
 	}
-	w := b.getParamWhere(dst, wFields, false, false, false)
-	dst.AddImports(w.GetImports())
-
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
-- 
2.43.0


From fdfb009cee3d6a03e9db233fd64cdd8c506a333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 067/127] fix: TypeScript refers to types by their schema names
 instead of the names it declares

---
 pkg/typescript/data.go       | 8 ++++----
 pkg/typescript/typescript.go | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 2e6ff64..247e301 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -198,16 +198,16 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					if empty {
-						dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + t.Name + ".valueOf(0) : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(0) : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + p + "." + t.Name + ".fromJson({}) : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".fromJson({}) : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index d001d9a..62d142e 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -246,7 +246,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(t.Name))
 			}
 		} else {
 			if isRecordKey {
@@ -333,14 +333,14 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(t.Name))
 				dst.Code(".valueOf(0)")
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(t.Name))
 				dst.Code("()")
 			}
 		} else {
-- 
2.43.0


From 41f70fd5b9da28775ab6b4e663304d913bedb2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 068/127] fix: TypeScript decodes uint64 values above the int64
 range as negative numbers

---
 pkg/typescript/data.go       | 8 ++++++--
 pkg/typescript/typescript.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 247e301..d32a699 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -229,10 +229,14 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					dst.Import("long", "Long")
+					zero, unsigned := "Long.ZERO", ""
+					if build.Uint64 == build.BaseType(expr.(*ast.Ident).Name) {
+						zero, unsigned = "Long.UZERO", ", true"
+					}
 					if empty {
-						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					} else {
-						dst.Code("null == " + name + " ? Long.ZERO : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? " + zero + " : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					}
 				}
 			case build.Float, build.Double:
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 62d142e..42b8f99 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -20,7 +20,7 @@ var _types = map[build.BaseType]string{
 
 var _typesValue = map[build.BaseType]string{
 	build.Int8: "0", build.Int16: "0", build.Int32: "0", build.Int64: "Long.ZERO", build.Uint8: "0",
-	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.ZERO", build.Bool: "false", build.Float: "0.0",
+	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.UZERO", build.Bool: "false", build.Float: "0.0",
 	build.Double: "0.0", build.String: "\"\"", build.Date: "new Date()", build.Decimal: "new d.Decimal(0)",
 }
 
-- 
2.43.0


From f215902c3e72c0a50a462359f21dffb2fbf2fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 069/127] fix: TypeScript encoding loses the map entries whose
 value is null

---
 pkg/typescript/data.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index d32a699..12eddb9 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -351,14 +351,14 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 					dst.Code(name)
 				} else {
 					if empty {
-						dst.Code(name + "?.value")
+						dst.Code(name + "?.value ?? null")
 					} else {
 						dst.Code(name + ".value")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code(name + "?.toJson()")
+					dst.Code(name + "?.toJson() ?? null")
 				} else {
 					dst.Code(name + ".toJson()")
 				}
@@ -374,7 +374,7 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 					dst.Code(name)
 				} else {
 					if empty {
-						dst.Code(name + "?.toString()")
+						dst.Code(name + "?.toString() ?? null")
 					} else {
 						dst.Code(name + ".toString()")
 					}
@@ -385,7 +385,7 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 					dst.Code(name)
 				} else {
 					if empty {
-						dst.Code(name + "?.getTime()")
+						dst.Code(name + "?.getTime() ?? null")
 					} else {
 						dst.Code(name + ".getTime()")
 					}
@@ -393,7 +393,7 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 
 			case build.Decimal:
 				if empty {
-					dst.Code(name + "?.toString()")
+					dst.Code(name + "?.toString() ?? null")
 				} else {
 					dst.Code(name + ".toString()")
 				}
-- 
2.43.0


From 8b9d4aa58c65c07ab00081d210f32e3ea0ea25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 070/127] fix: TypeScript maps keyed by bool do not compile

---
 pkg/typescript/typescript.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 42b8f99..d5cf59a 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -256,6 +256,8 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 					dst.Code("string")
 				} else if build.Date == build.BaseType((expr.(*ast.Ident).Name)) {
 					dst.Code("number")
+				} else if build.Bool == build.BaseType((expr.(*ast.Ident).Name)) {
+					dst.Code("string")
 				} else {
 					dst.Code(_types[build.BaseType((expr.(*ast.Ident).Name))])
 				}
-- 
2.43.0


From f3d9ddb88abfc95a91dc573d59936e2217d15ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 071/127] fix: TypeScript verification of date fields is Dart
 code

---
 pkg/typescript/verify.go | 44 +++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 53cd7f9..f45421f 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -85,34 +85,28 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Uint64:
 					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
 				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(value!);\n")
-					dst.Code("\tif (null == val) {\n")
-					b.printVerifyError(dst, pName, val)
-					dst.Code("\t}\n")
-					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Code("\tif (")
-						if 0 < len(f.Min) {
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
-							if err != nil {
-								return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
+					dst.Tab(1).Code("{\n")
+					dst.Tab(2).Code("const val = new Date(value).getTime();\n")
+					dst.Tab(2).Code("if (isNaN(val)")
+					if 0 < len(f.Min) {
+						parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
+						if err != nil {
+							return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
 						}
-						if 0 < len(f.Max) {
-							if 0 < len(f.Min) {
-								dst.Code(" || ")
-							}
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
-							if err != nil {
-								return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
+						dst.Code(" || " + strconv.FormatInt(parse.UnixMilli(), 10) + " > val")
+					}
+					if 0 < len(f.Max) {
+						parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
+						if err != nil {
+							return build.ErrorToFileError(build.NewError(val.Item.Pos(), "Invalid date: "+err.Error()), b.fSet)
 						}
-						dst.Code(") {\n")
-						b.printVerifyError(dst, pName, val)
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
+						dst.Code(" || " + strconv.FormatInt(parse.UnixMilli(), 10) + " < val")
 					}
+					dst.Code(") {\n")
+					dst.Tab(1)
+					b.printVerifyError(dst, pName, val)
+					dst.Tab(2).Code("}\n")
+					dst.Tab(1).Code("}\n")
 				case build.Decimal:
 					if 0 < len(f.Reg) {
 						dst.Code("\tif (!new RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").test(value!)) {\n")
-- 
2.43.0


From 0743a1daa4387644959fd6b35238672e667464dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 072/127] fix: TypeScript verification of decimal fields is
 Dart code and checks only the bounds of the last format

---
 pkg/typescript/verify.go | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index f45421f..d0358f5 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -113,36 +113,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						b.printVerifyError(dst, pName, val)
 						dst.Code("\t}\n")
 					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!new RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").test(value")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-
-						dst.Import("decimal.js", "* as d")
-						dst.Code("\tDecimal? val = Decimal.tryParse(value!);\n")
-						dst.Code("\tif (null == val) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							b.printVerifyError(dst, pName, val)
-							dst.Code("\t}\n")
-						}
-					}
+					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
-- 
2.43.0


From 58e6ee5b83e6fc746c70d9704bd2b932b9d87304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 073/127] fix: TypeScript endpoints of inherited methods are
 named after the parent server, Go ones after the server itself

---
 pkg/typescript/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index cd5f9d6..78ff6d0 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -95,7 +95,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 			b.printType(dst, method.Result.Type(), false, false)
 		}
 		dst.Code(">(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
@@ -139,7 +139,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t\tthis.server = server\n")
 	dst.Code("\t\tthis.invoke = {\n")
 	err := build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		dst.Code("\t\t\t\"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": {\n")
+		dst.Code("\t\t\t\"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": {\n")
 		dst.Code("\t\t\t\tformData(data: BinaryData | Record<string, any>): h.Data {\n")
 		dst.Code("\t\t\t\t\treturn ")
 		b.printType(dst, method.Param.Type(), false, false)
-- 
2.43.0


From 7ae44f1b24560aa3deb76cc1c9b42e6f05505e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 074/127] fix: Dart endpoints of inherited methods are named
 after the parent server

---
 pkg/dart/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index de653d2..54df5de 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -70,7 +70,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("    return invoke<")
 		b.printType(dst, method.Result.Type(), false)
 		dst.Code(">(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + method.Id.Value)
@@ -114,7 +114,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("  " + build.StringToHumpName(typ.Name.Name) + "Router(this.server){\n")
 	dst.Code("    _invokeNames = {\n")
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		dst.Code("      \"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
+		dst.Code("      \"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
 		dst.Code("        toData: (List<int> buf) async {\n")
 		dst.Code("          return ")
 		b.printType(dst, method.Param.Type(), false)
-- 
2.43.0


From 00d840df4c9e70876ceb137e094574dd58a9df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 075/127] fix: Java endpoints of inherited methods are named
 after the parent server

---
 pkg/java/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/java/server.go b/pkg/java/server.go
index bbb285e..32983b9 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -74,7 +74,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", Server.Context ctx) throws Exception {\n")
 
 		dst.Code("\t\t\treturn invoke(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + method.Id.Value)
-- 
2.43.0


From b4d59f26009926066c9c3ca6fdd95cf959a4ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 076/127] fix: TypeScript verification has wrong ranges for
 int8, int64 and uint64

---
 pkg/typescript/verify.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index d0358f5..6505605 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -67,7 +67,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
+					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-128", "127")
 				case build.Int16:
 					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
 				case build.Int32:
@@ -81,9 +81,9 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Float, build.Double:
 					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
 				case build.Int64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
+					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
+					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615")
 				case build.Date:
 					dst.Tab(1).Code("{\n")
 					dst.Tab(2).Code("const val = new Date(value).getTime();\n")
-- 
2.43.0


From 2130308aa97b496bf4ae594dd4634093b6f9c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 077/127] fix: TypeScript verification takes texts that only
 contain a number, and rejects negative int64 and one-digit float values

---
 pkg/typescript/verify.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 6505605..697a948 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -67,23 +67,23 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-128", "127")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-128", "127")
 				case build.Int16:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][-+]?[0-9]+)?$", field.Type, "", "")
 				case build.Int64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775807")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "18446744073709551615")
 				case build.Date:
 					dst.Tab(1).Code("{\n")
 					dst.Tab(2).Code("const val = new Date(value).getTime();\n")
@@ -113,7 +113,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						b.printVerifyError(dst, pName, val)
 						dst.Code("\t}\n")
 					}
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][-+]?[0-9]+)?$", field.Type, "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
-- 
2.43.0


From 1fda7de25eeb0355959460f01a403dbce37296b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 078/127] fix: TypeScript verification rounds the bounds of a
 format to a double

---
 pkg/typescript/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 697a948..abac527 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -171,13 +171,13 @@ func (b *Builder) verifyNum(dst *build.Writer, pName string, val *build.VerifyEn
 	if 0 < len(f.Min) || 0 < len(f.Max) {
 		dst.Tab(2).Code("if (")
 		if 0 < len(f.Min) {
-			dst.Code("new d.Decimal(").Code(f.Min).Code(").greaterThan(val)")
+			dst.Code("new d.Decimal(\"").Code(f.Min).Code("\").greaterThan(val)")
 		}
 		if 0 < len(f.Max) {
 			if 0 < len(f.Min) {
 				dst.Code(" || ")
 			}
-			dst.Code("new d.Decimal(").Code(f.Max).Code(").lessThan(val)")
+			dst.Code("new d.Decimal(\"").Code(f.Max).Code("\").lessThan(val)")
 		}
 		dst.Code(") {\n")
 		b.printVerifyError(dst, pName, val)
-- 
2.43.0


From eaaa5e968126fc440583d5dc89415caf182c26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 079/127] fix: TypeScript verification counts UTF-16 units
 where Go counts characters

---
 pkg/typescript/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index abac527..c260de7 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -118,13 +118,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (value?.length ?? 0)")
+							dst.Code(f.Min + " > Array.from(value).length")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code(" || ")
 							}
-							dst.Code(f.Max + " < (value?.length ?? 0)")
+							dst.Code(f.Max + " < Array.from(value).length")
 						}
 						dst.Code(") {\n")
 						b.printVerifyError(dst, pName, val)
-- 
2.43.0


From 0fb03b355489cd8841766093b625fb9b70bbb221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 080/127] fix: the errors of TypeScript enum lookups do not
 tell the value

---
 pkg/typescript/enum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/typescript/enum.go b/pkg/typescript/enum.go
index b34af3b..551eb9c 100644
--- a/pkg/typescript/enum.go
+++ b/pkg/typescript/enum.go
@@ -30,7 +30,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t			return " + enumName + ".values[i];\n")
 	dst.Code("\t		}\n")
 	dst.Code("\t	}\n")
-	dst.Code("\t	throw 'Get " + enumName + " by value error, value=${value}';\n")
+	dst.Code("\t	throw 'Get " + enumName + " by value error, value=' + value;\n")
 	dst.Code("\t}\n\n")
 
 	dst.Code("\tpublic static nameOf(name: string): " + enumName + " {\n")
@@ -39,7 +39,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t			return " + enumName + ".values[i];\n")
 	dst.Code("\t		}\n")
 	dst.Code("\t	}\n")
-	dst.Code("\t	throw 'Get " + enumName + " by name error, name=${name}';\n")
+	dst.Code("\t	throw 'Get " + enumName + " by name error, name=' + name;\n")
 	dst.Code("\t}\n\n")
 
 	for _, item := range typ.Items {
-- 
2.43.0


From 65aef5638181218567e6613cc303e02cc8890d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 081/127] fix: TypeScript verification drops the milliseconds
 of a date

---
 pkg/typescript/verify.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index c260de7..14d0172 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -38,7 +38,11 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		}
 		dst.Import("element-plus", "type {LocaleContext}")
 		dst.Code("export const verify").Code(dName).Code("_").Code(fName).Code(" = (locale: LocaleContext) => (rule: any, value: any, callback: any): any => {\n")
-		dst.Tab(1).Code("value = '' + value\n")
+		if build.GetBaseType(field.Type) == build.Date {
+			dst.Tab(1).Code("value = value instanceof Date && !isNaN(value.getTime()) ? value.toISOString() : '' + value\n")
+		} else {
+			dst.Tab(1).Code("value = '' + value\n")
+		}
 		isNull := build.IsNil(field.Type)
 		for i, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
-- 
2.43.0


From 9252386e4c4dabdbdd7d7cb2099184efeeab3703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 082/127] fix: TypeScript language tables hold empty texts
 where a translation is missing

---
 pkg/typescript/language.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/language.go b/pkg/typescript/language.go
index 15c44e0..911744b 100644
--- a/pkg/typescript/language.go
+++ b/pkg/typescript/language.go
@@ -24,7 +24,7 @@ func printLanguge(langs map[string]*build.Language, dst *build.Writer) {
 			names := build.GetMapKeys(l.Lang)
 			sort.Strings(names)
 			for _, name := range names {
-				dst.Tab(2).Code(name).Code(": ").Code("\"").Code(l.Lang[name][key]).Code("\",\n")
+				dst.Tab(2).Code(name).Code(": ").Code("\"").Code(build.GetLang(name, key, l.Lang[name])).Code("\",\n")
 			}
 			dst.Tab(1).Code("},\n")
 		}
-- 
2.43.0


From 8c1acf0307464dc3406e3d19a848538f66c1efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 083/127] fix: a display text in back quotes, with quotes,
 dollar signs or Go escapes breaks the language tables

---
 pkg/build/language.go      |  7 ++++++-
 pkg/dart/language.go       | 10 ++++++++--
 pkg/typescript/language.go |  9 ++++++++-
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/build/language.go b/pkg/build/language.go
index 01fcafe..bbdcdb6 100644
--- a/pkg/build/language.go
+++ b/pkg/build/language.go
@@ -3,6 +3,7 @@ package build
 import (
 	"hbuf/pkg/ast"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -39,7 +40,11 @@ func getLanguage(tags []*ast.Tag) map[string]string {
 	lang := make(map[string]string, 0)
 	if nil != val.KV {
 		for _, item := range val.KV {
-			lang[StringToFirstLower(item.Name.Name)] = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+			text, err := strconv.Unquote(item.Values[0].Value)
+			if err != nil {
+				text = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+			}
+			lang[StringToFirstLower(item.Name.Name)] = text
 		}
 	}
 	return lang
diff --git a/pkg/dart/language.go b/pkg/dart/language.go
index 836891b..8564371 100644
--- a/pkg/dart/language.go
+++ b/pkg/dart/language.go
@@ -3,6 +3,7 @@ package dart
 import (
 	"hbuf/pkg/build"
 	"sort"
+	"strings"
 )
 
 func printLanguge(dst *build.Writer) {
@@ -72,7 +73,7 @@ func printLanguge(dst *build.Writer) {
 
 		for _, key := range lanKeys {
 			dst.Code("  @override\n")
-			dst.Code("  String get " + key + " => \"" + build.GetLang(key, "____", l.Lang[key]) + "\";\n")
+			dst.Code("  String get " + key + " => " + quote(build.GetLang(key, "____", l.Lang[key])) + ";\n")
 			dst.Code("\n")
 		}
 		dst.Code("}\n")
@@ -84,7 +85,7 @@ func printLanguge(dst *build.Writer) {
 			dst.Code("  const " + keyName + l.Name + "Localizations();\n")
 			for _, f := range lanKeys {
 				dst.Code("  @override\n")
-				dst.Code("  String get " + f + " => \"" + build.GetLang(f, key, l.Lang[f]) + "\";\n")
+				dst.Code("  String get " + f + " => " + quote(build.GetLang(f, key, l.Lang[f])) + ";\n")
 				dst.Code("\n")
 			}
 			dst.Code("}\n")
@@ -92,3 +93,8 @@ func printLanguge(dst *build.Writer) {
 		}
 	}
 }
+
+// quote 返回文本的字符串字面量
+func quote(text string) string {
+	return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "$", "\\$", "\n", "\\n", "\r", "\\r").Replace(text) + "\""
+}
diff --git a/pkg/typescript/language.go b/pkg/typescript/language.go
index 911744b..368c2db 100644
--- a/pkg/typescript/language.go
+++ b/pkg/typescript/language.go
@@ -1,6 +1,7 @@
 package ts
 
 import (
+	"encoding/json"
 	"hbuf/pkg/build"
 	"sort"
 )
@@ -24,10 +25,16 @@ func printLanguge(langs map[string]*build.Language, dst *build.Writer) {
 			names := build.GetMapKeys(l.Lang)
 			sort.Strings(names)
 			for _, name := range names {
-				dst.Tab(2).Code(name).Code(": ").Code("\"").Code(build.GetLang(name, key, l.Lang[name])).Code("\",\n")
+				dst.Tab(2).Code(name).Code(": ").Code(quote(build.GetLang(name, key, l.Lang[name]))).Code(",\n")
 			}
 			dst.Tab(1).Code("},\n")
 		}
 		dst.Tab(0).Code("}\n")
 	}
 }
+
+// quote 返回文本的字符串字面量
+func quote(text string) string {
+	buf, _ := json.Marshal(text)
+	return string(buf)
+}
-- 
2.43.0


From d98d6081806e04f1df8978c6165cb6969e452eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 084/127] fix: the TypeScript input of an optional password has
 an attribute twice

---
 pkg/typescript/ui.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 024327a..70fb70b 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -585,9 +585,6 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			if isNull {
 				dst.Tab(7).Code("clearable\n")
 			}
-			if isNull {
-				dst.Tab(7).Code("clearable\n")
-			}
 			if form.onlyRead {
 				dst.Tab(7).Code("disabled\n")
 			}
-- 
2.43.0


From 3cea8ad0ed9c1e49205cbaf85a47cfe4fc9b7bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 085/127] fix: the TypeScript date input of several dates does
 not compile for a single date

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 70fb70b..63749c4 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -477,7 +477,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				} else if "month" == form.form {
 					dst.Code("_ctx.$timeToUtc($event)")
 				} else if "dates" == form.form {
-					dst.Code("($event?.length ?? 0 == 0) ? null :_ctx.$timeToUtc($event[0])")
+					dst.Code("($event as Date[] | null)?.length ? _ctx.$timeToUtc(($event as Date[])[0]) : null")
 				} else if "year" == form.form {
 					dst.Code("_ctx.$timeToUtc($event)")
 				} else {
-- 
2.43.0


From 25a846157d6d2b7376971b28fd2b653bca3b3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 086/127] fix: a uint64 entered in a TypeScript form becomes a
 negative number

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 63749c4..b2ebfd0 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -344,7 +344,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 				}
-				dst.Code("(/^[+]?[0-9]+$/.test(").Code(name).Code(") ? Long.fromValue(" + name + ") :").Code(name).Code(")")
+				dst.Code("(/^[+]?[0-9]+$/.test(").Code(name).Code(") ? Long.fromValue(" + name + ", true) :").Code(name).Code(")")
 			case build.Float, build.Double:
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
-- 
2.43.0


From f5f4bcf45d58166d185b4d67ed4ea738e37ffac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 087/127] fix: the TypeScript text input of an enumeration does
 not compile unless its name is in hump form

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index b2ebfd0..ee12306 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -315,7 +315,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 			dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 		}
 		p := b.getPackage(dst, t.Name, "")
-		dst.Code("(").Code(p).Code(".").Code(t.Name.Name).Code(".nameOf(").Code(name).Code("))")
+		dst.Code("(").Code(p).Code(".").Code(build.StringToHumpName(t.Name.Name)).Code(".nameOf(").Code(name).Code("))")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-- 
2.43.0


From 5f8165b47864303ce6b36c29840475dff537761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 088/127] fix: the TypeScript text input of a data field does
 not compile

---
 pkg/typescript/ui.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index ee12306..2fc4d09 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -396,6 +396,8 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
 		b.printFormString(dst, name, t.Type(), t.Empty, digit, format)
+	default:
+		dst.Code(name)
 	}
 }
 
-- 
2.43.0


From 4115771476513eaf4800975aa8fd059984c04694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 089/127] fix: the command exits with status zero when a build
 fails

---
 cmd/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 189ea4b..1c81fa2 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -9,6 +9,7 @@ import (
 	"hbuf/pkg/java"
 	ts "hbuf/pkg/typescript"
 	"log"
+	"os"
 )
 
 var version = "0.0.1"
@@ -46,12 +47,12 @@ func main() {
 	}
 	if !build.CheckType(*typ) {
 		fmt.Println(fmt.Errorf("Type error : %s", *typ))
-		return
+		os.Exit(1)
 	}
 
 	err := build.Build(*out, *in, *typ, *pack)
 	if err != nil {
 		fmt.Println(fmt.Errorf("Build error: %s", err))
-		return
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 38d7d53c57fd8a247e78d13c8f2fa3d2340772ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 090/127] fix: a build whose input matches no file succeeds

---
 pkg/build/build.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 6cd915e..eb04ec0 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -1,6 +1,7 @@
 package build
 
 import (
+	"errors"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/parser"
 	"hbuf/pkg/scanner"
@@ -131,6 +132,9 @@ func Build(out string, in string, typ string, pack string) error {
 	if err != nil {
 		return err
 	}
+	if 0 == len(build.pkg.Files) {
+		return errors.New("Not found input: " + in)
+	}
 	err = build.checkFiles()
 	if err != nil {
 		return err
-- 
2.43.0


From 32d967c026603914a72655ff6a45c1fe6138de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 091/127] fix: equality of Java enumerations refers to a class
 Test

---
 pkg/java/enum.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index a55867e..39864ef 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -32,8 +32,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\tpublic boolean equals(Object o) {\n")
 	dst.Code("\t\t\tif (this == o) return true;\n")
 	dst.Code("\t\t\tif (o == null || getClass() != o.getClass()) return false;\n")
-	dst.Code("\t\t\tTest test = (Test) o;\n")
-	dst.Code("\t\t\treturn value == test.value;\n")
+	dst.Code("\t\t\treturn value == ((" + enumName + ") o).value;\n")
 	dst.Code("\t\t}\n\n")
 
 	dst.Code("\t\t@Override\n")
-- 
2.43.0


From d5f90623726641f94d8e6c79204d08976a22e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 092/127] fix: Java enumerations compare names by identity

---
 pkg/java/enum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 39864ef..91ec932 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -51,7 +51,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	dst.Code("\t\tpublic static " + enumName + " nameOf(String name) {\n")
 	dst.Code("\t\t\tfor (" + enumName + " item : values) {\n")
-	dst.Code("\t\t\t\tif (item.name == name) {\n")
+	dst.Code("\t\t\t\tif (item.name.equals(name)) {\n")
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-- 
2.43.0


From fed63d544add30f49d24d7a1fd04a27e1d1ee61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 093/127] fix: Java enumerations with a ui annotation contain
 Dart code

---
 pkg/java/enum.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 91ec932..8116517 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -11,10 +11,6 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
-	_, isUi := build.GetTag(typ.Tags, "ui")
-	if isUi {
-		b.getPackage(dst, typ.Name, "ui")
-	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
 		printComment(dst, "///", typ.Doc.Text())
 	}
@@ -64,9 +60,6 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
-		if isUi {
-			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
-		}
 		dst.Code(");\n")
 	}
 	dst.Code("\n")
-- 
2.43.0


From 9eba5fb37f59e148b713bcca6177719b92147d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 094/127] fix: items of Java enumerations are not accessible
 from other packages

---
 pkg/java/enum.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 8116517..e519620 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -16,8 +16,8 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
-	dst.Code("\t\tfinal int value;\n")
-	dst.Code("\t\tfinal String name;\n\n")
+	dst.Code("\t\tpublic final int value;\n")
+	dst.Code("\t\tpublic final String name;\n\n")
 
 	dst.Code("\t\tprivate " + enumName + "(int value, String name){\n")
 	dst.Code("\t\t\tthis.value = value;\n")
@@ -59,11 +59,11 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			printComment(dst, "///", item.Doc.Text())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
+		dst.Code("\t\tpublic static final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
 		dst.Code(");\n")
 	}
 	dst.Code("\n")
-	dst.Code("\t\tstatic final " + enumName + "[] values = new " + enumName + "[]{\n")
+	dst.Code("\t\tpublic static final " + enumName + "[] values = new " + enumName + "[]{\n")
 	for _, item := range typ.Items {
 		dst.Code("\t\t\t" + build.StringToAllUpper(item.Name.Name) + ",\n")
 	}
-- 
2.43.0


From 2e4ee434936228df2e5c608ac44139e88772492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 095/127] fix: Java overrides are marked with the Dart
 annotation

---
 pkg/java/data.go   | 4 ++--
 pkg/java/server.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 31cf64b..60e5720 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -27,7 +27,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, false)
@@ -38,7 +38,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 			printComment(dst, "\t/// ", "Set " + field.Doc.Text())
 		}
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\tvoid set")
 		dst.Code(build.StringToHumpName(field.Name.Name) + "(")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 32983b9..9649de7 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -31,7 +31,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			printComment(dst, "///", method.Doc.Text())
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
-			dst.Code("\t@override\n")
+			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
 		b.printType(dst, method.Result.Type(), false)
-- 
2.43.0


From c305db13a2a503f10e954461d6ed1d5d4a42d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 096/127] fix: Java code with uint64 fields lacks the import of
 BigInteger

---
 pkg/java/java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 8cca73f..6a28214 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -231,7 +231,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 				dst.Import("java.math.BigDecimal", "")
 			} else if build.Date == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.util.Date", "")
-			} else if build.Int64 == build.BaseType((expr.(*ast.Ident).Name)) {
+			} else if build.Uint64 == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigInteger", "")
 			}
 			if notEmpty {
-- 
2.43.0


From b928020006fbce5e3097e9596e295b121753b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 097/127] fix: the outer interfaces of Java files are always
 called User

---
 pkg/java/java.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 6a28214..6f28b00 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -186,9 +186,10 @@ func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) e
 	dst.SetPath(file)
 	dst.SetPackages(val.Value.Value[1 : len(val.Value.Value)-1])
 
-	dst.data.Code("public interface UserData {\n")
-	dst.server.Code("public interface UserServer {\n")
-	dst.enum.Code("public interface UserEnum {\n")
+	name := outerName(file)
+	dst.data.Code("public interface " + name + "Data {\n")
+	dst.server.Code("public interface " + name + "Server {\n")
+	dst.enum.Code("public interface " + name + "Enum {\n")
 	for _, s := range file.Specs {
 		switch s.(type) {
 		case *ast.ImportSpec:
@@ -260,6 +261,12 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 	}
 }
 
+// outerName 文件对应的外层接口的名称前缀
+func outerName(file *ast.File) string {
+	_, name := filepath.Split(file.Path)
+	return build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
+}
+
 func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string {
 	file := (expr.(*ast.Ident)).Obj.Data
 	switch file.(type) {
-- 
2.43.0


From 2782dc5e6a4fd4e7ab6162e2fcae00eaacae35c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 098/127] fix: Java code refers to types of other files by
 wrong names or packages

---
 pkg/java/data.go |  2 +-
 pkg/java/java.go | 44 +++++++++++++++++++++-----------------------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 60e5720..02773dd 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -170,6 +170,6 @@ func (b *Builder) printExtend(dst *build.Writer, extends []*ast.Extends, start b
 		if 0 != i || start {
 			dst.Code(", ")
 		}
-		dst.Code(build.StringToHumpName(v.Name.Name))
+		dst.Code(b.getPackage(dst, v.Name) + build.StringToHumpName(v.Name.Name))
 	}
 }
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 6f28b00..1d64ed7 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -225,8 +225,8 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(b.getPackage(dst, expr))
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigDecimal", "")
@@ -267,32 +267,30 @@ func outerName(file *ast.File) string {
 	return build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
 }
 
-func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string {
-	file := (expr.(*ast.Ident)).Obj.Data
-	switch file.(type) {
-	case *ast.File:
-		break
-	default:
+// getPackage 导入类型所在文件的外层接口，返回类型名称的前缀
+func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr) string {
+	obj := (expr.(*ast.Ident)).Obj
+	file, ok := obj.Data.(*ast.File)
+	if !ok {
 		return ""
 	}
 
-	_, name := filepath.Split(file.(*ast.File).Path)
-	name = dst.Packages + "." + build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
-	if 0 < len(s) {
-		name = name + "." + s + ".dart"
-	} else {
-		switch (expr.(*ast.Ident)).Obj.Kind {
-		case ast.Data:
-			name = name + "Data.*"
-		case ast.Enum:
-			name = name + "Enum.*"
-		case ast.Server:
-			name = name + "Server.*"
+	name := outerName(file)
+	switch obj.Kind {
+	case ast.Data:
+		name = name + "Data"
+	case ast.Enum:
+		name = name + "Enum"
+	case ast.Server:
+		name = name + "Server"
+	}
+	if val, ok := file.Packages["java"]; ok {
+		packages := val.Value.Value[1 : len(val.Value.Value)-1]
+		if packages != dst.Packages {
+			dst.Import(packages+"."+name, "")
 		}
 	}
-
-	dst.Import(name, "")
-	return ""
+	return name + "."
 }
 
 // printComment 写入注释，Java 在注释里也会解析 \\u 转义
-- 
2.43.0


From b1912cbe4315068ab44cd340c578fa522231c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 099/127] fix: a method number beyond 31 bits does not compile
 in Java

---
 pkg/java/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/java/server.go b/pkg/java/server.go
index 9649de7..f57a508 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -77,7 +77,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
-		dst.Code("0 << 32 | " + method.Id.Value)
+		dst.Code("0L << 32 | " + method.Id.Value + "L")
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
 		dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
-- 
2.43.0


From 9d9ebae5862dffcd078733b146e6de9db653f3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 100/127] fix: methods without a result do not compile in Java

---
 pkg/java/server.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pkg/java/server.go b/pkg/java/server.go
index f57a508..32e8374 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -34,7 +34,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -44,6 +44,18 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t}\n\n")
 }
 
+func isVoid(method *ast.FuncType) bool {
+	return method.Result.Type().(*ast.Ident).Name == "void"
+}
+
+func (b *Builder) printResult(dst *build.Writer, method *ast.FuncType) {
+	if isVoid(method) {
+		dst.Code("Void")
+	} else {
+		b.printType(dst, method.Result.Type(), false)
+	}
+}
+
 func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\tclass " + build.StringToHumpName(typ.Name.Name) + "Client extends Server.ClientRouter implements " + build.StringToHumpName(typ.Name.Name))
 
@@ -66,7 +78,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("\t\t@Override\n")
 		dst.Code("\t\tpublic CompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -80,11 +92,15 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("0L << 32 | " + method.Id.Value + "L")
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl.class), (data)-> new ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl().formData(data));\n")
+		if isVoid(method) {
+			dst.Code(", (data) -> null, (data)-> null);\n")
+		} else {
+			dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl.class), (data)-> new ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl().formData(data));\n")
+		}
 
 		dst.Code("\t\t}\n\n")
 		return nil
-- 
2.43.0


From 1278967dd45ca5e3de966ca5a33744d4bd99448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 101/127] fix: Dart code refers to datas and enumerations by
 their schema names instead of their class names

---
 pkg/dart/dart.go | 2 +-
 pkg/dart/data.go | 8 ++++----
 pkg/dart/ui.go   | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index fe13e66..fc71436 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -225,7 +225,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("package:decimal/decimal.dart", "")
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 107f2e2..3410024 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -408,15 +408,15 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 		if nil != t.Obj {
 			if ast.Enum == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null :" + v + " is num ? " + t.Name + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + t.Name + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
+					dst.Code("null == " + name + " ? null :" + v + " is num ? " + build.StringToHumpName(t.Name) + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + build.StringToHumpName(t.Name) + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".valueOf(0) : " + t.Name + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
+					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".valueOf(0) : " + build.StringToHumpName(t.Name) + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + build.StringToHumpName(t.Name) + ".fromMap(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".fromMap({}) : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".fromMap({}) : " + build.StringToHumpName(t.Name) + ".fromMap(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 1c05902..d533f02 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -402,7 +402,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	switch expr.(type) {
 	case *ast.EnumType:
 		t := expr.(*ast.EnumType)
-		dst.Code(t.Name.Name + ".nameOf(" + name + "!)")
+		dst.Code(build.StringToHumpName(t.Name.Name) + ".nameOf(" + name + "!)")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-- 
2.43.0


From 012db9ab500af8908f84a2f5b7dd17e33d66b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 102/127] fix: Dart writes and copies map values as if they had
 the type of the keys

---
 pkg/dart/data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 3410024..6e1fa9b 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -386,13 +386,13 @@ func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printCopy(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
+			b.printCopy(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
@@ -581,13 +581,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printToMap(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
+			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
-- 
2.43.0


From ad542f4ce7d9474d3d8d11c23a6d6d540dd4bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:50 +0000
Subject: [PATCH 103/127] fix: methods without a result do not compile in Dart

---
 pkg/dart/server.go | 62 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 54df5de..6ff907c 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -34,7 +34,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("  @override\n")
 		}
 		dst.Code("  Future<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -44,6 +44,18 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("}\n\n")
 }
 
+func isVoid(method *ast.FuncType) bool {
+	return method.Result.Type().(*ast.Ident).Name == "void"
+}
+
+func (b *Builder) printResult(dst *build.Writer, method *ast.FuncType) {
+	if isVoid(method) {
+		dst.Code("void")
+	} else {
+		b.printType(dst, method.Result.Type(), false)
+	}
+}
+
 func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("class " + build.StringToHumpName(typ.Name.Name) + "Client extends ServerClient implements " + build.StringToHumpName(typ.Name.Name))
 
@@ -60,7 +72,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("  @override\n")
 		dst.Code("  Future<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -68,7 +80,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", [Context? ctx]){\n")
 
 		dst.Code("    return invoke<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code(">(\"")
 		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
@@ -76,11 +88,15 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(", ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code(".fromMap, ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code(".fromData);\n")
+		if isVoid(method) {
+			dst.Code(", (map) {}, (data) {});\n")
+		} else {
+			dst.Code(", ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code(".fromMap, ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code(".fromData);\n")
+		}
 
 		dst.Code("  }\n\n")
 		return nil
@@ -120,11 +136,20 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 		b.printType(dst, method.Param.Type(), false)
 		dst.Code(".fromMap(json.decode(utf8.decode(buf)));\n")
 		dst.Code("        },\n")
-		dst.Code("        formData: (Data data) async {\n")
-		dst.Code("     	   return utf8.encode(json.encode(data.toMap()));\n")
+		if isVoid(method) {
+			dst.Code("        formData: (Data? data) async {\n")
+			dst.Code("     	   return utf8.encode(\"{}\");\n")
+		} else {
+			dst.Code("        formData: (Data data) async {\n")
+			dst.Code("     	   return utf8.encode(json.encode(data.toMap()));\n")
+		}
 		dst.Code("        },\n")
 		dst.Code("        invoke: (Context ctx, Data data) async {\n")
-		dst.Code("     	   return await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
+		dst.Code("     	   ")
+		if !isVoid(method) {
+			dst.Code("return ")
+		}
+		dst.Code("await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
 		b.printType(dst, method.Param.Type(), false)
 		dst.Code(", ctx);\n")
 		dst.Code("        },\n")
@@ -142,11 +167,20 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 		b.printType(dst, method.Param.Type(), false)
 		dst.Code(".fromData(ByteData.view(Uint8List.fromList(buf).buffer));\n")
 		dst.Code("        },\n")
-		dst.Code("        formData: (Data data) async {\n")
-		dst.Code("     	   return data.toData().buffer.asUint8List();\n")
+		if isVoid(method) {
+			dst.Code("        formData: (Data? data) async {\n")
+			dst.Code("     	   return <int>[];\n")
+		} else {
+			dst.Code("        formData: (Data data) async {\n")
+			dst.Code("     	   return data.toData().buffer.asUint8List();\n")
+		}
 		dst.Code("        },\n")
 		dst.Code("        invoke: (Context ctx, Data data) async {\n")
-		dst.Code("     	   return await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
+		dst.Code("     	   ")
+		if !isVoid(method) {
+			dst.Code("return ")
+		}
+		dst.Code("await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
 		b.printType(dst, method.Param.Type(), false)
 		dst.Code(", ctx);\n")
 		dst.Code("        },\n")
-- 
2.43.0


From af3aa0f70d0bbad8e1410a64fc0dd9830e8d6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 104/127] fix: arrays and maps of floats do not compile in Dart

---
 pkg/dart/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 6e1fa9b..dce8662 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -439,7 +439,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 				if empty {
 					dst.Code("null == " + name + " ? null : (" + v + " is num ? " + v + ".toDouble() : num.tryParse(" + v + ".toString())?.toDouble())")
 				} else {
-					dst.Code("null == " + name + " ? 0 : (" + v + " is num ? " + v + ".toDouble() : num.tryParse(" + v + ".toString())?.toDouble() ?? 0)")
+					dst.Code("null == " + name + " ? 0.0 : (" + v + " is num ? " + v + ".toDouble() : num.tryParse(" + v + ".toString())?.toDouble() ?? 0.0)")
 				}
 			case build.String:
 				if empty {
-- 
2.43.0


From a2e1c3de4ba0312be39acefa771a0add1226c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:14 +0000
Subject: [PATCH 105/127] fix: Dart cannot encode maps whose keys are not
 strings

---
 pkg/dart/data.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index dce8662..d6bbded 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -455,9 +455,9 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 				}
 			case build.Bool:
 				if empty {
-					dst.Code("null == " + name + " ? null : (" + v + " is bool ? " + v + " : (" + v + " is num ? 0 != " + v + " : (null == num.tryParse(" + v + ".toString()) ? null : 0 != num.tryParse(" + v + ".toString()))))")
+					dst.Code("null == " + name + " ? null : (" + v + " is bool ? " + v + " : \"true\" == " + v + " ? true : \"false\" == " + v + " ? false : (" + v + " is num ? 0 != " + v + " : (null == num.tryParse(" + v + ".toString()) ? null : 0 != num.tryParse(" + v + ".toString()))))")
 				} else {
-					dst.Code("null == " + name + " ? false:(" + v + " is bool ? " + v + " : 0 != (" + v + " is num ? " + v + " : num.tryParse(" + v + ".toString()) ?? 0))")
+					dst.Code("null == " + name + " ? false:(" + v + " is bool ? " + v + " : \"true\" == " + v + " || 0 != (" + v + " is num ? " + v + " : num.tryParse(" + v + ".toString()) ?? 0))")
 				}
 			case build.Decimal:
 				if empty {
@@ -579,13 +579,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 		empty = t.IsEmpty()
 		if empty {
 			dst.Code(name + "?.map((key,value) => MapEntry(")
-			b.printToMap(dst, "key", t.Key, data, empty)
+			b.printToMapKey(dst, "key", t.Key)
 			dst.Code(",")
 			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
-			b.printToMap(dst, "key", t.Key, data, empty)
+			b.printToMapKey(dst, "key", t.Key)
 			dst.Code(",")
 			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
@@ -596,6 +596,21 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 	}
 }
 
+// printToMapKey writes the key of a map as a string, the only key that JSON has.
+func (b *Builder) printToMapKey(dst *build.Writer, name string, expr ast.Expr) {
+	if t, ok := expr.(*ast.VarType); ok {
+		expr = t.Type()
+	}
+	if t, ok := expr.(*ast.Ident); ok {
+		if nil != t.Obj && ast.Enum == t.Obj.Kind {
+			name += ".value"
+		} else if nil == t.Obj && build.Date == build.BaseType(t.Name) {
+			name += ".millisecondsSinceEpoch"
+		}
+	}
+	dst.Code(name + ".toString()")
+}
+
 func (b *Builder) printExtend(dst *build.Writer, extends []*ast.Extends, start bool) {
 	for i, v := range extends {
 		if 0 != i || start {
-- 
2.43.0


From 90e1e40c1c28276ab1c19fdcdccad20adf8426d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 106/127] fix: Dart forms assign null to required fields and
 texts to fields of other types

---
 pkg/dart/ui.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index d533f02..49eba66 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -477,6 +477,14 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	}
 }
 
+// formString returns the code that reads a text as a value of a type, empty if the type cannot be entered as text
+func (b *Builder) formString(dst *build.Writer, name string, expr ast.Expr, form *ui) string {
+	value := build.NewWriter()
+	b.printFormString(value, name, expr, false, form.digit, form.format)
+	dst.ImportByWriter(value)
+	return value.String()
+}
+
 func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
@@ -523,11 +531,9 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				setValue.Code(".map((e) => e")
 				b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
 				setValue.Code(").join(\",\");\n")
-				if !form.onlyRead {
+				if value := b.formString(setValue, "e", field.Type.(*ast.ArrayType).VType, form); !form.onlyRead && 0 < len(value) {
 					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-					setValue.Code("val?.split(\",\").map((e) =>e")
-					b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
-					setValue.Code(").toList()")
+					setValue.Code("val?.split(\",\").map((e) => " + value + ").toList()")
 					if !isNil {
 						setValue.Code(" ?? [] ")
 					}
@@ -537,11 +543,12 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
 				b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
 				setValue.Code(";\n")
-				if !form.onlyRead {
+				if value := b.formString(setValue, "val", field.Type, form); !form.onlyRead && 0 < len(value) {
 					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-					setValue.Code("\"\" == val ? null : ")
-					b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
-					setValue.Code(";\n")
+					if isNil {
+						setValue.Code("\"\" == val ? null : ")
+					}
+					setValue.Code(value + ";\n")
 				}
 			}
 
@@ -586,11 +593,12 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
 			b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
 			setValue.Code(";\n")
-			if !form.onlyRead {
+			if value := b.formString(setValue, "val", field.Type, form); !form.onlyRead && 0 < len(value) {
 				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-				setValue.Code("\"\" == val ? null : ")
-				b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
-				setValue.Code(";\n")
+				if isNil {
+					setValue.Code("\"\" == val ? null : ")
+				}
+				setValue.Code(value + ";\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
 			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-- 
2.43.0


From 162565d6dd64caa14d16e73dcb8f731e194a64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 107/127] fix: Dart verification of numbers and dates does not
 compile

---
 pkg/dart/verify.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index fa79962..a490c29 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -70,25 +70,26 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
+					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", "–128", "127")
 				case build.Int16:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
+					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
+					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
+					b.verifyNum(dst, val, f, "[0-9]\\\\d*", "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
+					b.verifyNum(dst, val, f, "[0-9]\\\\d*", "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
+					b.verifyNum(dst, val, f, "[0-9]\\\\d*", "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
+					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", "", "")
 				case build.Int64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
+					b.verifyNum(dst, val, f, "[0-9]\\\\d*", "-9223372036854775808", "9223372036854775808")
 				case build.Uint64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
+					b.verifyNum(dst, val, f, "[0-9]\\\\d*", "0", "18446744073709551615615")
 				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
+					dst.Code("\t{\n")
+					dst.Code("\tfinal val = DateTime.tryParse(text!);\n")
 					dst.Code("\tif (null == val) {\n")
 					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 					dst.Code("\t}\n")
@@ -115,6 +116,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
+					dst.Code("\t}\n")
 				case build.Decimal:
 					if 0 < len(f.Reg) {
 						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
@@ -185,17 +187,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	return nil
 }
 
-func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.Format, reg string, field ast.Type, min, max string) {
-	dst.Code("\tif (!RegExp(\"" + reg + "\").hasMatch(text")
-	if build.IsNil(field) {
-		dst.Code("!")
-	}
-
-	dst.Code(")) {\n")
+func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.Format, reg string, min, max string) {
+	dst.Code("\tif (!RegExp(\"" + reg + "\").hasMatch(text!)) {\n")
 	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 	dst.Code("\t}\n")
 	dst.Import("package:decimal/decimal.dart", "")
-	dst.Code("\tvar val = Decimal.tryParse(text!);\n")
+	dst.Code("\t{\n")
+	dst.Code("\tfinal val = Decimal.tryParse(text!);\n")
 	dst.Code("\tif (null == val) {\n")
 	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 	dst.Code("\t}\n")
@@ -209,16 +207,17 @@ func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.F
 	if 0 < len(f.Min) || 0 < len(f.Max) {
 		dst.Code("\tif (")
 		if 0 < len(f.Min) {
-			dst.Code("Decimal.tryParse(" + f.Min + ") > val")
+			dst.Code("Decimal.parse(\"" + f.Min + "\") > val")
 		}
 		if 0 < len(f.Max) {
 			if 0 < len(f.Min) {
 				dst.Code(" || ")
 			}
-			dst.Code("Decimal.tryParse(" + f.Max + ") < val")
+			dst.Code("Decimal.parse(\"" + f.Max + "\") < val")
 		}
 		dst.Code(") {\n")
 		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 		dst.Code("\t}\n")
 	}
+	dst.Code("\t}\n")
 }
-- 
2.43.0


From 3aa6b188371aa42075b7c715fccea0963b3d7bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 108/127] fix: Dart verification accepts texts that only
 contain a number, and refuses valid ones

---
 pkg/dart/verify.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index a490c29..4e3c8ef 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -70,23 +70,23 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", "–128", "127")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-128", "127")
 				case build.Int16:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", "-32768", "32767")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", "-2147483648", "2147483647")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", "0", "255")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", "0", "65535")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", "0", "4294967295")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", "", "")
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][-+]?[0-9]+)?\\$", "", "")
 				case build.Int64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", "-9223372036854775808", "9223372036854775808")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", "0", "18446744073709551615615")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "18446744073709551615")
 				case build.Date:
 					dst.Code("\t{\n")
 					dst.Code("\tfinal val = DateTime.tryParse(text!);\n")
-- 
2.43.0


From 8bc27643207516774785bad33ca22fa8f55d2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 109/127] fix: Dart verification of decimals inverts the limits
 and skips all formats but the last

---
 pkg/dart/verify.go | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 4e3c8ef..b2d56cb 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -123,36 +123,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").hasMatch(text")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-
-						dst.Import("package:decimal/decimal.dart", "")
-						dst.Code("\tDecimal? val = Decimal.tryParse(text!);\n")
-						dst.Code("\tif (null == val) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-							dst.Code("\t}\n")
-						}
-					}
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]*)?([eE][-+]?[0-9]+)?\\$", "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
-- 
2.43.0


From 37e6211e6870b8ef15b1ffd8fa47a54af872d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 110/127] fix: Dart verification counts the units of a text
 instead of its characters

---
 pkg/dart/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index b2d56cb..b44e399 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -128,13 +128,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (text?.length ?? 0)")
+							dst.Code(f.Min + " > (text?.runes.length ?? 0)")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code(" || ")
 							}
-							dst.Code(f.Max + " < (text?.length ?? 0)")
+							dst.Code(f.Max + " < (text?.runes.length ?? 0)")
 						}
 						dst.Code(") {\n")
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-- 
2.43.0


From b07690ca1bee7cc856da69a530cebd36ceb6f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 111/127] fix: Dart forms and tables show list elements without
 their own format

---
 pkg/dart/ui.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 49eba66..d9e59a6 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -274,7 +274,7 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 					dst.Code("?")
 				}
 				dst.Code(".map((e) => e")
-				b.printToString(dst, field.Type, false, table.digit, table.format, "??\"\"")
+				b.printToString(dst, field.Type.(*ast.ArrayType).VType, false, table.digit, table.format, "??\"\"")
 				dst.Code(").join(',')")
 				if isNull {
 					dst.Code(" ?? ''")
@@ -290,7 +290,7 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 					dst.Code("?")
 				}
 				dst.Code(".map((e) => e")
-				b.printToString(dst, field.Type, false, table.digit, table.format, "??\"\"")
+				b.printToString(dst, field.Type.(*ast.ArrayType).VType, false, table.digit, table.format, "??\"\"")
 				dst.Code(").join(',')")
 				if isNull {
 					dst.Code(" ?? ''")
@@ -529,7 +529,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 					setValue.Code("?")
 				}
 				setValue.Code(".map((e) => e")
-				b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
+				b.printToString(setValue, field.Type.(*ast.ArrayType).VType, false, form.digit, form.format, "??\"\"")
 				setValue.Code(").join(\",\");\n")
 				if value := b.formString(setValue, "e", field.Type.(*ast.ArrayType).VType, form); !form.onlyRead && 0 < len(value) {
 					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-- 
2.43.0


From 28e21225a92fae79696da3e108ca474f236ba934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 112/127] fix: Dart forms and tables hand a map where a text is
 shown

---
 pkg/dart/ui.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index d9e59a6..f3014c9 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -374,15 +374,14 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 		//	dst.Code("?")
 		//}
 	case *ast.MapType:
-		//ma := expr.(*ast.MapType)
-		//dst.Code("Map<")
-		//printType(dst, ma.Key, false)
-		//dst.Code(", ")
-		//printType(dst, ma.VType, false)
-		//dst.Code(">")
-		//if ma.Empty && !notEmpty {
-		//	dst.Code("?")
-		//}
+		ma := expr.(*ast.MapType)
+		if ma.Empty {
+			dst.Code("?")
+		}
+		dst.Code(".toString()")
+		if ma.Empty {
+			dst.Code(val)
+		}
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
 		b.printToString(dst, t.Type(), t.Empty, digit, format, val)
-- 
2.43.0


From 42db559a9a47b5c4f188e3544ebf699b40baff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 113/127] fix: saving a Dart form with an empty list stores an
 element or fails

---
 pkg/dart/ui.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index f3014c9..898a33a 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -532,10 +532,17 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				setValue.Code(").join(\",\");\n")
 				if value := b.formString(setValue, "e", field.Type.(*ast.ArrayType).VType, form); !form.onlyRead && 0 < len(value) {
 					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-					setValue.Code("val?.split(\",\").map((e) => " + value + ").toList()")
-					if !isNil {
-						setValue.Code(" ?? [] ")
+					setValue.Code("null == val || val.isEmpty ? ")
+					if isNil {
+						setValue.Code("null")
+					} else {
+						setValue.Code("[]")
+					}
+					setValue.Code(" : val.split(\",\").map((e) => ")
+					if build.IsNil(field.Type.(*ast.ArrayType).VType) {
+						setValue.Code("\"\" == e ? null : ")
 					}
+					setValue.Code(value + ").toList()")
 					setValue.Code(";\n")
 				}
 			} else {
-- 
2.43.0


From 373962ae411e54ebcb1459b6c44de16fadce4b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 114/127] fix: a Dart date form stores the text instead of the
 date

---
 pkg/dart/ui.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 898a33a..8cfeeab 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -717,10 +717,12 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
 			b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
 			setValue.Code(";\n")
-			if !form.onlyRead {
+			if value := b.formString(setValue, "val", field.Type, form); !form.onlyRead && 0 < len(value) {
 				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-				setValue.Code("\"\" == val ? null : ")
-				setValue.Code("val ;\n")
+				if isNil {
+					setValue.Code("\"\" == val ? null : ")
+				}
+				setValue.Code(value + ";\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
 			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-- 
2.43.0


From b214894f88950245378d21081c7a75999ec3f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 115/127] fix: saving a Dart form replaces an unchanged date by
 the current time

---
 pkg/dart/ui.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 8cfeeab..9aa0eef 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -509,6 +509,9 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			return nil
 		}
 
+		if 0 == len(form.format) {
+			form.format = "yyyy-MM-dd HH:mm:ss" // DateTime.tryParse reads it back
+		}
 		onlyRead := "false"
 		if form.onlyRead {
 			onlyRead = "true"
-- 
2.43.0


From 03ee53d5673b4dcd3b585f4b96da22baf2e091ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 116/127] fix: selecting rows of a Dart table fails when no set
 is given

---
 pkg/dart/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 9aa0eef..837016b 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -156,7 +156,7 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 	dst.Code("\tfinal Set<" + name + "> select;\n\n")
 	dst.Code("\tfinal Function(BuildContext context,  Set<" + name + "> select)? onSelect;\n\n")
 	dst.Code("\tfinal TablesBuild<" + name + "> tables = TablesBuild();\n\n")
-	dst.Code("\tTable" + name + build.StringToHumpName(u.suffix) + "Build (this.list,{this.select = const {}, this.onSelect});\n\n")
+	dst.Code("\tTable" + name + build.StringToHumpName(u.suffix) + "Build (this.list,{Set<" + name + ">? select, this.onSelect}) : select = select ?? <" + name + ">{};\n\n")
 
 	dst.Code("\tWidget build(BuildContext context, {Function(Table" + name + build.StringToHumpName(u.suffix) + "Build ui)? builder}) {\n")
 	dst.Code("\t\ttables.rowBuilder = (context, y) {\n")
-- 
2.43.0


From c6c80b2e083073a0cf898ed3feb05e162e5901c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:59 +0000
Subject: [PATCH 117/127] fix: Dart click, image and switch entries hand their
 validators values instead of texts

---
 pkg/dart/ui.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 837016b..81c41f7 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -591,7 +591,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val?.toString());\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
@@ -682,7 +682,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			}
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, (val?.isEmpty ?? true) ? null : val!.first.url);\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 			fields.Code("\t\t\t" + fieldName + ".build(context),\n")
@@ -757,7 +757,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
 			if nil != verify {
 				b.getPackage(dst, typ.Name, "verify")
-				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val!);\n")
+				setValue.Code("\t\t" + fieldName + ".validator = (val) => verify" + name + "_" + build.StringToHumpName(fieldName) + "(context, val?.toString());\n")
 			}
 			setValue.Code("\t\t" + fieldName + ".decoration = InputDecoration(labelText: " + name + "Localizations.of(context)." + fieldName + ");\n\n")
 
-- 
2.43.0


From 3d5d655b1306d6ee5c77a0d135ea3f5a68e07882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 118/127] fix: Go routers write raw string tag values as broken
 string literals

---
 pkg/golang/server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 2570afd..e9bcff9 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -4,6 +4,7 @@ import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"sort"
+	"strconv"
 )
 
 func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) error {
@@ -303,7 +304,12 @@ func (b *Builder) getTag(tags []*ast.Tag) *Tag {
 		for _, item := range val.KV {
 			list := make([]string, 0)
 			for _, value := range item.Values {
-				list = append(list, value.Value[1:len(value.Value)-1])
+				text := value.Value[1 : len(value.Value)-1]
+				if value.Value[0] == '`' {
+					text = strconv.Quote(text)
+					text = text[1 : len(text)-1]
+				}
+				list = append(list, text)
 			}
 			au[item.Name.Name] = list
 		}
-- 
2.43.0


From 787f4fd88c1c4a6b896a842a133ccfa497832cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:53 +0000
Subject: [PATCH 119/127] fix: raw string database clauses become broken string
 literals in the Go code

---
 pkg/build/database.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index de3f387..7d7da52 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -70,7 +70,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "converter" == item.Name.Name {
 						db.Converter = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "order" == item.Name.Name {
-						db.Order = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Order = sqlText(item.Values[0].Value)
 					} else if "key" == item.Name.Name {
 						db.Key = "true" == item.Values[0].Value[1:len(item.Values[0].Value)-1]
 					} else if "typ" == item.Name.Name {
@@ -78,7 +78,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "where" == item.Name.Name {
 						where := make([]string, len(item.Values))
 						for i, val := range item.Values {
-							where[i] = val.Value[1 : len(val.Value)-1]
+							where[i] = sqlText(val.Value)
 						}
 						db.Where = where
 					} else if "offset" == item.Name.Name {
@@ -92,11 +92,11 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "update" == item.Name.Name {
 						db.Update = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "group" == item.Name.Name {
-						db.Group = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Group = sqlText(item.Values[0].Value)
 					} else if "del" == item.Name.Name {
 						db.Del = "true" == strings.ToLower(item.Values[0].Value[1:len(item.Values[0].Value)-1])
 					} else if "get" == item.Name.Name {
-						db.Get = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Get = sqlText(item.Values[0].Value)
 					} else if "list" == item.Name.Name {
 						db.List = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "map" == item.Name.Name {
@@ -105,7 +105,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 						db.Table = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 						db.TablePos = item.Values[0].Pos() + 1
 					} else if "set" == item.Name.Name {
-						db.Set = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Set = sqlText(item.Values[0].Value)
 					} else if "count" == item.Name.Name {
 						db.Count = "true" == strings.ToLower(item.Values[0].Value[1:len(item.Values[0].Value)-1])
 					} else if "force" == item.Name.Name {
@@ -129,3 +129,13 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 	})
 	return dbs
 }
+
+// sqlText 返回可写入双引号字符串的语句文本
+func sqlText(value string) string {
+	text := value[1 : len(value)-1]
+	if '`' == value[0] {
+		text = strconv.Quote(text)
+		text = text[1 : len(text)-1]
+	}
+	return text
+}
-- 
2.43.0


From 0b44a7c2818b1b58cfda8995e363d3c35c2a65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:59 +0000
Subject: [PATCH 120/127] fix: raw string column names become broken string
 literals in the Go code

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 7d7da52..8fe8840 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -64,7 +64,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 			if nil != val.KV {
 				for _, item := range val.KV {
 					if "name" == item.Name.Name {
-						db.Name = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+						db.Name = sqlText(item.Values[0].Value)
 					} else if "schema" == item.Name.Name {
 						db.Schema = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "converter" == item.Name.Name {
-- 
2.43.0


From 80c2dc0c95a50d4fe66ba9e6fd03a76bc1f99a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:35 +0000
Subject: [PATCH 121/127] fix: documentation lines such as //note:x are dropped
 as directives

---
 pkg/ast/ast.go | 31 -------------------------------
 1 file changed, 31 deletions(-)

diff --git a/pkg/ast/ast.go b/pkg/ast/ast.go
index bd3ed75..3b20fa0 100644
--- a/pkg/ast/ast.go
+++ b/pkg/ast/ast.go
@@ -64,11 +64,6 @@ func (g *CommentGroup) Text() string {
 			if c[0] == ' ' {
 				// strip first space - required for Example tests
 				c = c[1:]
-				break
-			}
-			if isDirective(c) {
-				// Ignore //go:noinline, //line, and so on.
-				continue
 			}
 		case '*':
 			/*-style comment */
@@ -103,32 +98,6 @@ func (g *CommentGroup) Text() string {
 	return strings.Join(lines, "\n")
 }
 
-// isDirective reports whether c is a comment directive.
-func isDirective(c string) bool {
-	// "//line " is a line directive.
-	// (The // has been removed.)
-	if strings.HasPrefix(c, "line ") {
-		return true
-	}
-
-	// "//[a-z0-9]+:[a-z0-9]"
-	// (The // has been removed.)
-	colon := strings.Index(c, ":")
-	if colon <= 0 || colon+1 >= len(c) {
-		return false
-	}
-	for i := 0; i <= colon+1; i++ {
-		if i == colon {
-			continue
-		}
-		b := c[i]
-		if !('a' <= b && b <= 'z' || '0' <= b && b <= '9') {
-			return false
-		}
-	}
-	return true
-}
-
 type Field struct {
 	Tags    []*Tag
 	Doc     *CommentGroup // associated documentation; or nil
-- 
2.43.0


From 34766d1ff1867a3a8b9bf11ede229dc9ad79a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:02 +0000
Subject: [PATCH 122/127] fix: failures to write an output file are ignored

---
 pkg/dart/dart.go             | 8 +++++---
 pkg/golang/gloang.go         | 8 +++++---
 pkg/java/java.go             | 8 +++++---
 pkg/typescript/typescript.go | 8 +++++---
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index fc71436..e95bed3 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -1,6 +1,7 @@
 package dart
 
 import (
+	"bufio"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -143,7 +144,7 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, out string) error {
-	fc, err := os.Create(out)
+	file, err := os.Create(out)
 	if err != nil {
 		return err
 	}
@@ -152,7 +153,8 @@ func writerFile(data *build.Writer, out string) error {
 		if err != nil {
 			print(err)
 		}
-	}(fc)
+	}(file)
+	fc := bufio.NewWriter(file)
 	_, _ = fc.WriteString("// @dart = 2.12\n\n")
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
@@ -170,7 +172,7 @@ func writerFile(data *build.Writer, out string) error {
 	_, _ = fc.WriteString("\n")
 
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return fc.Flush()
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index f178eae..5120936 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"bufio"
 	"go/printer"
 	ast "hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -139,7 +140,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 }
 
 func (b *Builder) writerFile(data *build.Writer, packages string, out string, i int) error {
-	fc, err := os.Create(out)
+	file, err := os.Create(out)
 	if err != nil {
 		return err
 	}
@@ -148,7 +149,8 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 		if err != nil {
 			print(err)
 		}
-	}(fc)
+	}(file)
+	fc := bufio.NewWriter(file)
 
 	_, _ = fc.WriteString("package " + packages[strings.LastIndex(packages, ".")+1:] + "\n\n")
 
@@ -174,7 +176,7 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 	}
 	code := data.GetCode().String()
 	_, _ = fc.WriteString(code[:len(code)-1])
-	return nil
+	return fc.Flush()
 }
 
 func (b *Builder) Node(dst *GoWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 1d64ed7..c176f0f 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -1,6 +1,7 @@
 package java
 
 import (
+	"bufio"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -136,7 +137,7 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, packages string, out string) error {
-	fc, err := os.Create(out)
+	file, err := os.Create(out)
 	if err != nil {
 		return err
 	}
@@ -145,7 +146,8 @@ func writerFile(data *build.Writer, packages string, out string) error {
 		if err != nil {
 			print(err)
 		}
-	}(fc)
+	}(file)
+	fc := bufio.NewWriter(file)
 
 	_, _ = fc.WriteString("package " + packages + ";\n\n")
 
@@ -164,7 +166,7 @@ func writerFile(data *build.Writer, packages string, out string) error {
 	}
 	_, _ = fc.WriteString("\n")
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return fc.Flush()
 }
 
 func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index d5cf59a..2e88bd0 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -1,6 +1,7 @@
 package ts
 
 import (
+	"bufio"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -159,7 +160,7 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, out string) error {
-	fc, err := os.Create(out)
+	file, err := os.Create(out)
 	if err != nil {
 		return err
 	}
@@ -168,7 +169,8 @@ func writerFile(data *build.Writer, out string) error {
 		if err != nil {
 			print(err)
 		}
-	}(fc)
+	}(file)
+	fc := bufio.NewWriter(file)
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
 
@@ -186,7 +188,7 @@ func writerFile(data *build.Writer, out string) error {
 	_, _ = fc.WriteString("\n")
 
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return fc.Flush()
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
-- 
2.43.0


From 2e4b758b23f093f43a42357f1b54100275632e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:50 +0000
Subject: [PATCH 123/127] fix: an invalid import path on a line of its own is
 reported at the import keyword

---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index af03cbc..4785502 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -737,7 +737,7 @@ func (p *parser) parseImportSpec(doc *ast.CommentGroup, _ token.Token, _ int) as
 	if p.tok == token.STRING {
 		path = p.lit
 		if !isValidImport(path) {
-			p.error(pos, "invalid import path: "+path)
+			p.error(p.pos, "invalid import path: "+path)
 		}
 		p.next()
 	} else {
-- 
2.43.0


From 3e896437cdfffc513d989359fd8f534bf5db0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 124/127] fix: generating takes time exponential in the depth
 of repeated inheritance

---
 pkg/build/build.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index eb04ec0..c049b0a 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -401,11 +401,15 @@ func GetKeyValue(kvs []*ast.KeyValue, key string) (*ast.KeyValue, bool) {
 	return nil, false
 }
 
-func enumField(typ *ast.DataType, fields map[string]struct{}, call func(field *ast.Field, data *ast.DataType) error) error {
+func enumField(typ *ast.DataType, fields map[string]struct{}, visited map[*ast.DataType]struct{}, call func(field *ast.Field, data *ast.DataType) error) error {
 	for _, extend := range typ.Extends {
 		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
 		data := types.Type.(*ast.DataType)
-		err := enumField(data, fields, call)
+		if _, ok := visited[data]; ok {
+			continue
+		}
+		visited[data] = struct{}{}
+		err := enumField(data, fields, visited, call)
 		if err != nil {
 			return err
 		}
@@ -425,7 +429,7 @@ func enumField(typ *ast.DataType, fields map[string]struct{}, call func(field *a
 }
 func EnumField(typ *ast.DataType, call func(field *ast.Field, data *ast.DataType) error) error {
 	fields := map[string]struct{}{}
-	return enumField(typ, fields, call)
+	return enumField(typ, fields, map[*ast.DataType]struct{}{}, call)
 }
 
 func CheckSuperField(name string, typ *ast.DataType) bool {
@@ -441,7 +445,7 @@ func CheckSuperField(name string, typ *ast.DataType) bool {
 	return false
 }
 
-func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(method *ast.FuncType, server *ast.ServerType) error) error {
+func enumMethod(typ *ast.ServerType, fields map[string]struct{}, visited map[*ast.ServerType]struct{}, call func(method *ast.FuncType, server *ast.ServerType) error) error {
 	for _, field := range typ.Methods {
 		if _, ok := fields[field.Name.Name]; ok {
 			continue
@@ -456,7 +460,11 @@ func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(metho
 	for _, extend := range typ.Extends {
 		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
 		server := types.Type.(*ast.ServerType)
-		err := enumMethod(server, fields, call)
+		if _, ok := visited[server]; ok {
+			continue
+		}
+		visited[server] = struct{}{}
+		err := enumMethod(server, fields, visited, call)
 		if err != nil {
 			return err
 		}
@@ -466,7 +474,7 @@ func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(metho
 
 func EnumMethod(typ *ast.ServerType, call func(method *ast.FuncType, server *ast.ServerType) error) error {
 	fields := map[string]struct{}{}
-	return enumMethod(typ, fields, call)
+	return enumMethod(typ, fields, map[*ast.ServerType]struct{}{}, call)
 }
 
 func CheckSuperMethod(name string, typ *ast.ServerType) bool {
-- 
2.43.0


From a12ed88e01a99d486f337aa27908d6b86bc1f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 125/127] fix: verification patterns are copied with Go's
 escapes into TypeScript and Dart

---
 pkg/build/format.go      | 10 +++++-----
 pkg/dart/verify.go       |  5 ++---
 pkg/golang/verify.go     |  2 +-
 pkg/typescript/verify.go |  5 ++---
 4 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pkg/build/format.go b/pkg/build/format.go
index 7d0244e..08d0be6 100644
--- a/pkg/build/format.go
+++ b/pkg/build/format.go
@@ -25,12 +25,12 @@ func GetFormat(tags []*ast.Tag) *Format {
 			if "null" == item.Name.Name {
 				f.Null = "true" == item.Values[0].Value[1:len(item.Values[0].Value)-1]
 			} else if "reg" == item.Name.Name {
-				f.Reg = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
-				if '`' == item.Values[0].Value[0] {
-					// 生成的代码使用双引号字符串
-					f.Reg = strconv.Quote(f.Reg)
-					f.Reg = f.Reg[1 : len(f.Reg)-1]
+				// 每种语言有自己的转义
+				reg, err := strconv.Unquote(item.Values[0].Value)
+				if err != nil {
+					reg = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 				}
+				f.Reg = reg
 			} else if "min" == item.Name.Name {
 				f.Min = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 			} else if "max" == item.Name.Name {
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index b44e399..30b28d3 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -4,7 +4,6 @@ import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"strconv"
-	"strings"
 	"time"
 )
 
@@ -119,7 +118,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					dst.Code("\t}\n")
 				case build.Decimal:
 					if 0 < len(f.Reg) {
-						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
+						dst.Code("\tif (!RegExp(" + quote(f.Reg) + ").hasMatch(text!)) {\n")
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
@@ -141,7 +140,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t}\n")
 					}
 					if len(f.Reg) > 0 {
-						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
+						dst.Code("\tif (!RegExp(" + quote(f.Reg) + ").hasMatch(text!)) {\n")
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index ce5f955..e1a3708 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -248,7 +248,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							dst.Code(":")
 						}
 						dst.Import("regexp", "")
-						dst.Code("= regexp.MatchString(\"" + f.Reg + "\", i.Get" + fName + "())\n")
+						dst.Code("= regexp.MatchString(" + strconv.Quote(f.Reg) + ", i.Get" + fName + "())\n")
 						dst.Code("\tif err != nil {\n")
 						dst.Code("\t\treturn err\n")
 						dst.Code("\t}\n")
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 14d0172..09e1cf0 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -4,7 +4,6 @@ import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"strconv"
-	"strings"
 	"time"
 )
 
@@ -113,7 +112,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					dst.Tab(1).Code("}\n")
 				case build.Decimal:
 					if 0 < len(f.Reg) {
-						dst.Code("\tif (!new RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").test(value!)) {\n")
+						dst.Code("\tif (!new RegExp(" + quote(f.Reg) + ").test(value!)) {\n")
 						b.printVerifyError(dst, pName, val)
 						dst.Code("\t}\n")
 					}
@@ -135,7 +134,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t}\n")
 					}
 					if len(f.Reg) > 0 {
-						dst.Code("\tif (!new RegExp(\"" + f.Reg + "\").test(value!)) {\n")
+						dst.Code("\tif (!new RegExp(" + quote(f.Reg) + ").test(value!)) {\n")
 						b.printVerifyError(dst, pName, val)
 						dst.Code("\t}\n")
 					}
-- 
2.43.0


From 402b37877d8d938f97d74e152fcce8752a91912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 126/127] fix: Dart forms copy formats and extensions into
 string literals unquoted

---
 pkg/dart/language.go | 10 ++++++++++
 pkg/dart/ui.go       | 10 +++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/dart/language.go b/pkg/dart/language.go
index 8564371..7ff2e6f 100644
--- a/pkg/dart/language.go
+++ b/pkg/dart/language.go
@@ -3,6 +3,7 @@ package dart
 import (
 	"hbuf/pkg/build"
 	"sort"
+	"strconv"
 	"strings"
 )
 
@@ -98,3 +99,12 @@ func printLanguge(dst *build.Writer) {
 func quote(text string) string {
 	return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "$", "\\$", "\n", "\\n", "\r", "\\r").Replace(text) + "\""
 }
+
+// unquote 返回字符串字面量的文本
+func unquote(literal string) string {
+	text, err := strconv.Unquote(literal)
+	if err != nil {
+		return literal[1 : len(literal)-1]
+	}
+	return text
+}
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 81c41f7..69eac2a 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -91,7 +91,7 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 				}
 				form.index = &atoi
 			} else if "format" == item.Name.Name {
-				form.format = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+				form.format = unquote(item.Values[0].Value)
 			} else if "width" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
@@ -125,7 +125,7 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 
 			} else if "extensions" == item.Name.Name {
 				for _, value := range item.Values {
-					form.extensions = append(form.extensions, value.Value[1:len(value.Value)-1])
+					form.extensions = append(form.extensions, unquote(value.Value))
 				}
 			}
 		}
@@ -357,7 +357,7 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 				if 0 == len(format) {
 					format = "yyyy/MM/dd HH:mm:ss"
 				}
-				dst.Code(".format(\"" + format + "\")")
+				dst.Code(".format(" + quote(format) + ")")
 			case build.Decimal:
 				if empty {
 					dst.Code("?")
@@ -618,7 +618,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 					if 0 < i {
 						setValue.Code(", ")
 					}
-					setValue.Code("\"" + extension + "\"")
+					setValue.Code(quote(extension))
 				}
 				setValue.Code("];\n")
 			}
@@ -676,7 +676,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 					if 0 < i {
 						setValue.Code(", ")
 					}
-					setValue.Code("\"" + extension + "\"")
+					setValue.Code(quote(extension))
 				}
 				setValue.Code("];\n")
 			}
-- 
2.43.0


From 30ff9ed161c836c26a2bcaa1600abe77b4d9bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:25 +0000
Subject: [PATCH 127/127] fix: verification bounds that are fractions or beyond
 the type give code that does not compile

---
 pkg/build/format.go  | 34 ++++++++++++++++++++++++++++++++++
 pkg/dart/verify.go   |  4 ++--
 pkg/golang/verify.go | 12 ++++++------
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/pkg/build/format.go b/pkg/build/format.go
index 08d0be6..b462624 100644
--- a/pkg/build/format.go
+++ b/pkg/build/format.go
@@ -2,6 +2,8 @@ package build
 
 import (
 	"hbuf/pkg/ast"
+	"math"
+	"math/big"
 	"strconv"
 )
 
@@ -40,3 +42,35 @@ func GetFormat(tags []*ast.Tag) *Format {
 	}
 	return f
 }
+
+// IntBound 整数超出边界的条件，边界可以是小数，也可以超出类型的范围
+func IntBound(typ BaseType, text string, isMin bool, value string) string {
+	op := " < "
+	if isMin {
+		op = " > "
+	}
+	rat, ok := new(big.Rat).SetString(text)
+	if !ok {
+		return text + op + value
+	}
+	min, max := big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64)
+	if Uint64 == typ {
+		min, max = new(big.Int), new(big.Int).SetUint64(math.MaxUint64)
+	}
+	num := new(big.Int).Div(rat.Num(), rat.Denom())
+	if isMin && !rat.IsInt() {
+		num.Add(num, big.NewInt(1))
+	}
+	if num.Cmp(min) < 0 {
+		if !isMin {
+			op = " <= "
+		}
+		num = min
+	} else if num.Cmp(max) > 0 {
+		if isMin {
+			op = " >= "
+		}
+		num = max
+	}
+	return num.String() + op + value
+}
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 30b28d3..beef4bc 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -127,13 +127,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (text?.runes.length ?? 0)")
+							dst.Code(build.IntBound(build.Int64, f.Min, true, "(text?.runes.length ?? 0)"))
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code(" || ")
 							}
-							dst.Code(f.Max + " < (text?.runes.length ?? 0)")
+							dst.Code(build.IntBound(build.Int64, f.Max, false, "(text?.runes.length ?? 0)"))
 						}
 						dst.Code(") {\n")
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index e1a3708..495a65d 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -131,13 +131,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > int64(i.Get" + fName + "()) ")
+							dst.Code(build.IntBound(build.Int64, f.Min, true, "int64(i.Get"+fName+"())") + " ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code(f.Max + " < int64(i.Get" + fName + "()) ")
+							dst.Code(build.IntBound(build.Int64, f.Max, false, "int64(i.Get"+fName+"())") + " ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
@@ -165,13 +165,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > i.Get" + fName + "() ")
+							dst.Code(build.IntBound(t, f.Min, true, "i.Get"+fName+"()") + " ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code(f.Max + " < i.Get" + fName + "() ")
+							dst.Code(build.IntBound(t, f.Max, false, "i.Get"+fName+"()") + " ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
@@ -229,14 +229,14 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Import("unicode/utf8", "")
-							dst.Code(f.Min + " > utf8.RuneCountInString(i.Get" + fName + "()) ")
+							dst.Code(build.IntBound(build.Int64, f.Min, true, "utf8.RuneCountInString(i.Get"+fName+"())") + " ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
 							dst.Import("unicode/utf8", "")
-							dst.Code(f.Max + " < utf8.RuneCountInString(i.Get" + fName + "()) ")
+							dst.Code(build.IntBound(build.Int64, f.Max, false, "utf8.RuneCountInString(i.Get"+fName+"())") + " ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0

