From 9de5e680987cee71f9c773132ab744de5ad9b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 01/31] fix: read lines of any length and report read errors

bufio.Scanner stops silently at a line longer than 64KB and its Err() was
never looked at, so the rest of such a script, or everything after a read
error, was dropped without a trace.
---
 vimlparser.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/vimlparser.go b/vimlparser.go
index 9f5a97c..60c5d0f 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/vim-jp/go-vimlparser/ast"
 	internal "github.com/vim-jp/go-vimlparser/go"
@@ -50,7 +51,10 @@ func ParseFile(r io.Reader, filename string, opt *ParseOption) (node *ast.File,
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	neovim := false
 	if opt != nil {
@@ -78,18 +82,30 @@ func ParseExpr(r io.Reader) (node ast.Expr, err error) {
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	p := internal.NewExprParser(reader)
 	node = p.Parse()
 	return
 }
 
-func readlines(r io.Reader) []string {
+func readlines(r io.Reader) ([]string, error) {
 	lines := []string{}
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	br := bufio.NewReader(r)
+	for {
+		line, err := br.ReadString('\n')
+		if err != nil && err != io.EOF {
+			return nil, err
+		}
+		if line != "" {
+			line = strings.TrimSuffix(line, "\n")
+			lines = append(lines, strings.TrimSuffix(line, "\r"))
+		}
+		if err == io.EOF {
+			return lines, nil
+		}
 	}
-	return lines
 }
-- 
2.43.0


From e94f883ceda32d8c84c491c5f2c1e4228437660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 02/31] fix: byte offsets after a line continuation

Text on a continuation line had offset 0, and the text after it was
counted without the newline in between.
---
 autoload/vimlparser.vim | 2 +-
 go/type.go              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a7ae041..f2aca21 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4600,6 +4600,7 @@ function! s:StringReader.__init__(lines) abort
     endfor
     while lnum + 1 < len(a:lines) && a:lines[lnum + 1] =~# '^\s*\\'
       let skip = s:TRUE
+      let offset += 1
       let col = 0
       for c in split(a:lines[lnum + 1], '\zs')
         if skip
@@ -4614,7 +4615,6 @@ function! s:StringReader.__init__(lines) abort
         let offset += len(c)
       endfor
       let lnum += 1
-      let offset += 1
     endwhile
     call add(self.buf, '<EOL>')
     call add(self.pos, [lnum + 1, col + 1, offset])
diff --git a/go/type.go b/go/type.go
index e34d543..a42f748 100644
--- a/go/type.go
+++ b/go/type.go
@@ -206,6 +206,7 @@ func (self *StringReader) __init__(lines []string) {
 		}
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
+			offset += 1 // for EOL of the previous line
 			col = 0
 			for _, r := range lines[lnum+1] {
 				c := string(r)
@@ -215,13 +216,12 @@ func (self *StringReader) __init__(lines []string) {
 					}
 				} else {
 					self.buf = append(self.buf, c)
-					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1})
+					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1, offset: offset})
 				}
 				col += len(c)
 				offset += len(c)
 			}
 			lnum += 1
-			offset += 1
 		}
 		self.buf = append(self.buf, "<EOL>")
 		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
-- 
2.43.0


From dade825106807a4427eb98fe32b249c5f4d5fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 03/31] fix: keep bytes that are not valid UTF-8

Such a byte was replaced by U+FFFD, which also shifted every column and
offset after it by two.
---
 go/type.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/go/type.go b/go/type.go
index a42f748..26dc46e 100644
--- a/go/type.go
+++ b/go/type.go
@@ -3,6 +3,7 @@ package vimlparser
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 type ExArg struct {
@@ -197,8 +198,7 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, r := range lines[lnum] {
-			c := string(r)
+		for _, c := range splitChars(lines[lnum]) {
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -208,8 +208,7 @@ func (self *StringReader) __init__(lines []string) {
 			var skip = true
 			offset += 1 // for EOL of the previous line
 			col = 0
-			for _, r := range lines[lnum+1] {
-				c := string(r)
+			for _, c := range splitChars(lines[lnum+1]) {
 				if skip {
 					if c == "\\" {
 						skip = false
@@ -233,6 +232,18 @@ func (self *StringReader) __init__(lines []string) {
 	self.i = 0
 }
 
+// splitChars splits s into its characters. A byte that is not part of valid
+// UTF-8 is a character of its own, as in Vim.
+func splitChars(s string) []string {
+	cs := make([]string, 0, len(s))
+	for len(s) > 0 {
+		_, n := utf8.DecodeRuneInString(s)
+		cs = append(cs, s[:n])
+		s = s[n:]
+	}
+	return cs
+}
+
 func (self *StringReader) getpos() *pos {
 	p := self.pos[self.i]
 	p.i = self.i
-- 
2.43.0


From eddea90d895688f7c43029874df132bdfffb1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 04/31] fix: report the byte offset of an error

Offset held the index of the character among the parser's cells, which
differs after multibyte characters and line continuations.
---
 go/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/type.go b/go/type.go
index 26dc46e..745c9da 100644
--- a/go/type.go
+++ b/go/type.go
@@ -344,5 +344,5 @@ func (e *ParseError) Error() string {
 }
 
 func Err(msg string, pos *pos) *ParseError {
-	return &ParseError{Offset: pos.i, Line: pos.lnum, Column: pos.col, Msg: msg}
+	return &ParseError{Offset: pos.offset, Line: pos.lnum, Column: pos.col, Msg: msg}
 }
-- 
2.43.0


From db9e1d5aa884d33dbc00f2982c205d095a139d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 05/31] fix: Walk visits lambda bodies and default arguments

---
 ast/walk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 41587bf..ac9c30e 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -40,6 +40,7 @@ func Walk(v Visitor, node Node) {
 	case *Function:
 		Walk(v, n.Name)
 		walkIdentList(v, n.Params)
+		walkExprList(v, n.DefaultArgs)
 		walkStmtList(v, n.Body)
 		Walk(v, n.EndFunction)
 
@@ -205,6 +206,7 @@ func Walk(v Visitor, node Node) {
 
 	case *LambdaExpr:
 		walkIdentList(v, n.Params)
+		Walk(v, n.Expr)
 
 	case *ParenExpr:
 		Walk(v, n.X)
-- 
2.43.0


From 9fb2e1711f36a4687364991b5bde3abdfbd940b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 06/31] fix: Inspect calls f(nil) after the children of a node

as its documentation says, and as go/ast does.
---
 ast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/walk.go b/ast/walk.go
index ac9c30e..38fecc2 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -244,7 +244,7 @@ func walkStmtList(v Visitor, list []Statement) {
 type inspector func(Node) bool
 
 func (f inspector) Visit(node Node) Visitor {
-	if node != nil && f(node) {
+	if f(node) {
 		return f
 	}
 	return nil
-- 
2.43.0


From 4f2a14b7ac3ef68504c6b43c84cc7f9e111fbbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 07/31] fix: compiling a function changed the tree and broke
 the indent

The variadic mark was cut off node.Params, so a second compilation or any
later use of the tree lost it, and the parts of a nested function's header
were indented one by one.
---
 compiler/compiler.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index b0412ac..bef8ba1 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -149,29 +149,25 @@ func (c *Compiler) compileExcmd(node *ast.Excmd) {
 }
 
 func (c *Compiler) compileFunction(node *ast.Function) {
-	c.fprint("(function (%s", c.compileExpr(node.Name))
-	if len(node.Params) > 0 {
-		c.fprint(" ")
-		ps := make([]string, 0, len(node.Params))
-		var remaining bool
-		if node.Params[len(node.Params)-1].Name == token.DOTDOTDOT.String() {
-			node.Params = node.Params[:len(node.Params)-1]
-			remaining = true
-		}
-		for i, p := range node.Params {
-			if i < len(node.Params)-len(node.DefaultArgs) {
-				ps = append(ps, p.Name)
-			} else {
-				ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
-					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(node.Params)])))
-			}
-		}
-		if remaining {
-			ps = append(ps, ". ...")
+	params := node.Params
+	var remaining bool
+	if len(params) > 0 && params[len(params)-1].Name == token.DOTDOTDOT.String() {
+		params = params[:len(params)-1]
+		remaining = true
+	}
+	ps := []string{c.compileExpr(node.Name)}
+	for i, p := range params {
+		if i < len(params)-len(node.DefaultArgs) {
+			ps = append(ps, p.Name)
+		} else {
+			ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
+				c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(params)])))
 		}
-		c.fprint("%s", strings.Join(ps, " "))
 	}
-	c.fprintln(")")
+	if remaining {
+		ps = append(ps, ". ...")
+	}
+	c.fprintln("(function (%s)", strings.Join(ps, " "))
 	c.indent++
 	c.compile(node.Body)
 	c.trimLineBreak()
-- 
2.43.0


From 5b1b19130f4b52f7e7927c7bd3239702a2ef7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 08/31] fix: compiled expressions are not format strings

The text of a compiled expression was used as one: 5 % 2 came out as
(%!(NOVERB) 5 2).
---
 compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index bef8ba1..4620f20 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -78,7 +78,7 @@ func (c *Compiler) compile(node interface{}) error {
 			}
 		}
 	case ast.Expr:
-		c.fprint(c.compileExpr(n))
+		c.fprint("%s", c.compileExpr(n))
 	}
 	return nil
 }
-- 
2.43.0


From 6e9b79c13903a8d5a51ce314edc33b09a768c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 09/31] fix: keep bytes that are not valid UTF-8 in compiled
 commands

---
 compiler/compiler.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 4620f20..af79ce8 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -490,8 +490,9 @@ func (c *Compiler) compileExpr(node ast.Expr) string {
 
 func escape(s string, chars string) string {
 	r := ""
-	for _, c := range s {
-		if strings.IndexRune(chars, c) != -1 {
+	for i := 0; i < len(s); i++ { // chars are ASCII
+		c := s[i]
+		if strings.IndexByte(chars, c) != -1 {
 			switch c {
 			case '\n':
 				r += `\n`
@@ -500,10 +501,10 @@ func escape(s string, chars string) string {
 			case '\r':
 				r += `\r`
 			default:
-				r += `\` + string(c)
+				r += `\` + string(rune(c))
 			}
 		} else {
-			r += string(c)
+			r += s[i : i+1]
 		}
 	}
 	return r
-- 
2.43.0


From 9344b63f0eb8aea6fe5f8f616915870cf0349f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 10/31] fix: printing comparisons

=~ and =~? had no precedence, so printing them panicked, and a comparison
as the left operand of another was printed without the parentheses that
it needs, since comparisons do not associate.
---
 printer/expr.go   | 6 +++++-
 printer/opprec.go | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/printer/expr.go b/printer/expr.go
index 44467c4..a9230cc 100644
--- a/printer/expr.go
+++ b/printer/expr.go
@@ -61,7 +61,11 @@ func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) {
 		return
 	}
 	// TODO(haya14busa): handle line break.
-	p.expr1(x.Left, prec)
+	leftPrec := prec
+	if isComparison(x.Op) {
+		leftPrec++ // a == b == c is not an expression
+	}
+	p.expr1(x.Left, leftPrec)
 	p.printWhite(blank)
 	p.token(x.Op)
 	p.printWhite(blank)
diff --git a/printer/opprec.go b/printer/opprec.go
index e1ca348..d8b65fb 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -36,6 +36,8 @@ func opprec(op ast.Expr) int {
 			token.LTEQ,
 			token.LTEQCI,
 			token.LTEQCS,
+			token.MATCH,
+			token.MATCHCI,
 			token.MATCHCS,
 			token.NOMATCH,
 			token.NOMATCHCI,
@@ -71,3 +73,9 @@ func opprec(op ast.Expr) int {
 		panic(fmt.Errorf("unexpected expr: %T", n))
 	}
 }
+
+// isComparison reports whether op is a comparison operator, which unlike the
+// other binary operators does not associate.
+func isComparison(op token.Token) bool {
+	return token.EQEQ <= op && op <= token.ISNOTCS
+}
-- 
2.43.0


From 0693cb16d3cc5750a920d468d1c6250979e3a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 11/31] fix: Fprint returns an error for a node that it cannot
 print

instead of panicking.
---
 printer/expr.go    |  4 +---
 printer/opprec.go  | 10 ++++------
 printer/printer.go | 22 +++++++++++++++++++++-
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/printer/expr.go b/printer/expr.go
index a9230cc..3e25b18 100644
--- a/printer/expr.go
+++ b/printer/expr.go
@@ -1,8 +1,6 @@
 package printer
 
 import (
-	"fmt"
-
 	"github.com/vim-jp/go-vimlparser/ast"
 	"github.com/vim-jp/go-vimlparser/token"
 )
@@ -45,7 +43,7 @@ func (p *printer) expr1(expr ast.Expr, prec1 int) {
 			p.token(token.PCLOSE)
 		}
 	default:
-		panic(fmt.Errorf("unsupported expr type %T", x))
+		panic(unsupported("unsupported expr type %T", x))
 	}
 }
 
diff --git a/printer/opprec.go b/printer/opprec.go
index d8b65fb..3b5ff16 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -1,8 +1,6 @@
 package printer
 
 import (
-	"fmt"
-
 	"github.com/vim-jp/go-vimlparser/ast"
 	"github.com/vim-jp/go-vimlparser/token"
 )
@@ -54,23 +52,23 @@ func opprec(op ast.Expr) int {
 		case token.STAR, token.SLASH, token.PERCENT:
 			return 6
 		default:
-			panic(fmt.Errorf("unexpected token of BinaryExpr: %v", n.Op))
+			panic(unsupported("unexpected token of BinaryExpr: %v", n.Op))
 		}
 	case *ast.UnaryExpr:
 		switch n.Op {
 		case token.NOT, token.MINUS, token.PLUS:
 			return 7
 		default:
-			panic(fmt.Errorf("unexpected token of UnaryExpr: %v", n.Op))
+			panic(unsupported("unexpected token of UnaryExpr: %v", n.Op))
 		}
 	case *ast.SubscriptExpr, *ast.SliceExpr, *ast.CallExpr, *ast.DotExpr, *ast.MethodExpr:
 		return 8
 	case *ast.BasicLit, *ast.Ident, *ast.List, *ast.Dict, *ast.CurlyName, *ast.HeredocExpr:
 		return 9
 	case *ast.CurlyNameExpr, *ast.CurlyNameLit, *ast.LambdaExpr:
-		panic(fmt.Errorf("precedence is undefined for expr: %T", n))
+		panic(unsupported("precedence is undefined for expr: %T", n))
 	default:
-		panic(fmt.Errorf("unexpected expr: %T", n))
+		panic(unsupported("unexpected expr: %T", n))
 	}
 }
 
diff --git a/printer/printer.go b/printer/printer.go
index 7be5979..b82fce1 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -24,7 +24,16 @@ const (
 type Config struct{}
 
 // Fprint "pretty-prints" an AST node to output for a given configuration cfg.
-func Fprint(output io.Writer, node ast.Node, cfg *Config) error {
+func Fprint(output io.Writer, node ast.Node, cfg *Config) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			e, ok := r.(unsupportedError)
+			if !ok {
+				panic(r)
+			}
+			err = e
+		}
+	}()
 	var p printer
 	p.init(cfg)
 	if err := p.printNode(node); err != nil {
@@ -36,6 +45,17 @@ func Fprint(output io.Writer, node ast.Node, cfg *Config) error {
 	return nil
 }
 
+// unsupportedError is the panic value for nodes which cannot be printed.
+type unsupportedError string
+
+func (e unsupportedError) Error() string {
+	return "go-vimlparser/printer: " + string(e)
+}
+
+func unsupported(format string, args ...interface{}) unsupportedError {
+	return unsupportedError(fmt.Sprintf(format, args...))
+}
+
 type printer struct {
 	Config
 
-- 
2.43.0


From 5246252c646ce7f00cdb267a68b023aea63b0cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 12/31] fix: :@" and :*" name a register in Go too

The generated code compared pointers, so the quote was always taken for
the start of a comment.
---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index f2aca21..72274ef 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1170,7 +1170,7 @@ function! s:VimLParser.separate_nextcmd() abort
     elseif c ==# '|' || c ==# "\n" ||
           \ (c ==# '"' && self.ea.cmd.flags !~# '\<NOTRLCOM\>'
           \   && ((self.ea.cmd.name !=# '@' && self.ea.cmd.name !=# '*')
-          \       || self.reader.getpos() !=# self.ea.argpos)
+          \       || self.reader.getpos().i !=# self.ea.argpos.i)
           \   && (self.ea.cmd.name !=# 'redir'
           \       || self.reader.getpos().i !=# self.ea.argpos.i + 1 || pc !=# '@'))
       let has_cpo_bar = s:FALSE " &cpoptions =~ 'b'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index d642d7a..b0b240e 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1043,7 +1043,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 				panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
 			}
 			self.reader.getn(1)
-		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos() != self.ea.argpos) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
+		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos().i != self.ea.argpos.i) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
 			var has_cpo_bar = false
 			// &cpoptions =~ 'b'
 			if (!has_cpo_bar || !viml_eqregh(self.ea.cmd.flags, "\\<USECTRLV\\>")) && pc == "\\" {
-- 
2.43.0


From 7e944271e4477e68fd8e9338deaef174daf31b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 13/31] fix: recognise :dl and :dp

%[elete] may match nothing, as it does in Vim.
---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 8896232..e1ab50b 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -25,7 +25,7 @@ var patVim2Go = map[string]string{
 	"\\d":                               "\\d",
 	"\\h":                               "[A-Za-z_]",
 	"\\s":                               "\\s",
-	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)[lp]$",
+	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)?[lp]$",
 	"\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])": "^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])",
 	"\\w":                             "[0-9A-Za-z_]",
 	"\\w\\|[:#]":                      "[0-9A-Za-z_]|[:#]",
-- 
2.43.0


From e957c14483a1bf2315802f627622bd2e1f6fc885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 14/31] fix: a user command does not depend on the ones before
 it

After :Foo, :Foo2 was found in the cache under its letters and became :Foo
with the argument 2.
---
 autoload/vimlparser.vim | 2 ++
 go/vimlparser.go        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 72274ef..3a11d2d 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -985,6 +985,8 @@ function! s:VimLParser.find_command() abort
     let name .= self.reader.read_alnum()
     unlet cmd
     let cmd = {'name': name, 'flags': 'USERCMD', 'parser': 'parse_cmd_usercmd'}
+    " Not cached: the key would be a prefix of other user commands.
+    return cmd
   endif
 
   let self.find_command_cache[name] = cmd
diff --git a/go/vimlparser.go b/go/vimlparser.go
index b0b240e..8dc6436 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -862,6 +862,8 @@ func (self *VimLParser) find_command() *Cmd {
 	if (cmd == nil || cmd.name == "Print") && viml_eqregh(name, "^[A-Z]") {
 		name += self.reader.read_alnum()
 		cmd = &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
+		// Not cached: the key would be a prefix of other user commands.
+		return cmd
 	}
 	self.find_command_cache[name] = cmd
 	return cmd
-- 
2.43.0


From d5bddc5dd54d5d567c53dffacc1d8afad4fd1be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 15/31] fix: position of a key of a #{} dictionary

It was that of the second character.
---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 3a11d2d..d12f30d 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -3603,9 +3603,9 @@ function! s:ExprTokenizer.parse_dict_literal_key() abort
     throw s:Err(printf('unexpected character: %s', c), self.reader.getpos())
   endif
   let node = s:Node(s:NODE_STRING)
+  let node.pos = self.reader.getpos()
   let s = c
   call self.reader.seek_cur(1)
-  let node.pos = self.reader.getpos()
   while s:TRUE
     let c = self.reader.p(0)
     if c ==# '<EOF>' || c ==# '<EOL>'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 8dc6436..b290e31 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2342,9 +2342,9 @@ func (self *ExprTokenizer) parse_dict_literal_key() *VimNode {
 		panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
 	}
 	var node = Node(NODE_STRING)
+	node.pos = self.reader.getpos()
 	var s = c
 	self.reader.seek_cur(1)
-	node.pos = self.reader.getpos()
 	for true {
 		c = self.reader.p(0)
 		if c == "<EOF>" || c == "<EOL>" {
-- 
2.43.0


From 6a22f781869bda18e7e86803b1a48845c9fcc95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 16/31] fix: keep :hide used as a command

The command vanished: the modifier loop ended after its name.
---
 autoload/vimlparser.vim | 4 +++-
 go/vimlparser.go        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index d12f30d..8872ebc 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -575,7 +575,9 @@ function! s:VimLParser.parse_command_modifiers() abort
     elseif stridx('keeppatterns', k) ==# 0 && len(k) >= 5 " keepp\%[atterns]
       call add(modifiers, {'name': 'keeppatterns'})
     elseif stridx('hide', k) ==# 0 && len(k) >= 3 " hid\%[e]
-      if self.ends_excmds(c)
+      if self.ends_excmds(self.reader.peekn(1))
+        " :hide without a command
+        call self.reader.seek_set(pos)
         break
       endif
       call add(modifiers, {'name': 'hide'})
diff --git a/go/vimlparser.go b/go/vimlparser.go
index b290e31..9872487 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -475,7 +475,9 @@ func (self *VimLParser) parse_command_modifiers() {
 			modifiers = append(modifiers, map[string]interface{}{"name": "keeppatterns"})
 		} else if viml_stridx("hide", k) == 0 && len(k) >= 3 {
 			// hid\%[e]
-			if self.ends_excmds(c) {
+			if self.ends_excmds(self.reader.peekn(1)) {
+				// :hide without a command
+				self.reader.seek_set(pos)
 				break
 			}
 			modifiers = append(modifiers, map[string]interface{}{"name": "hide"})
-- 
2.43.0


From 1dbc7a9aede27fc480591888044fc7de5b97e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 17/31] fix: counts and depths too big for an int

---
 go/vimlfunc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index e1ab50b..4d11c7c 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -1,6 +1,7 @@
 package vimlparser
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 	"regexp"
@@ -139,8 +140,9 @@ func viml_split(s string, sep string) []string {
 }
 
 func viml_str2nr(s string, base int) int {
-	r, err := strconv.ParseInt(s, base, 32)
-	if err != nil {
+	// like Vim, a number that is too big becomes the biggest one
+	r, err := strconv.ParseInt(s, base, 0)
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		panic(fmt.Errorf("viml_str2nr: %v", err))
 	}
 	return int(r)
-- 
2.43.0


From 71c4b625e9ecc6bb0c38634a372d5c1b15bf4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 18/31] fix: position of the =<< of a heredoc

---
 autoload/vimlparser.vim | 2 ++
 go/vimlparser.go        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 8872ebc..1c37c1e 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1600,10 +1600,12 @@ function! s:VimLParser.parse_cmd_let() abort
     call self.reader.getn(len(s2))
     let node.op = s2
   elseif s2 ==# '=<<'
+    let oppos = self.reader.getpos()
     call self.reader.getn(len(s2))
     call self.reader.skip_white()
     let node.op = s2
     let node.right = self.parse_heredoc()
+    let node.right.pos = oppos
     call self.add_node(node)
     return
   elseif s1 ==# '='
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 9872487..8e50c98 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1457,10 +1457,12 @@ func (self *VimLParser) parse_cmd_let() {
 		self.reader.getn(len(s2))
 		node.op = s2
 	} else if s2 == "=<<" {
+		var oppos = self.reader.getpos()
 		self.reader.getn(len(s2))
 		self.reader.skip_white()
 		node.op = s2
 		node.right = self.parse_heredoc()
+		node.right.pos = oppos
 		self.add_node(node)
 		return
 	} else if s1 == "=" {
-- 
2.43.0


From 2aab996d78821dad4a084e098289515a6c4be297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 19/31] fix: Cmd of a line with only modifiers or a range

---
 ast/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/node.go b/ast/node.go
index bc64b19..9eefab0 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -56,7 +56,12 @@ type Excmd struct {
 }
 
 func (e *Excmd) Pos() Pos { return e.Excmd }
-func (e *Excmd) Cmd() Cmd { return *e.ExArg.Cmd }
+func (e *Excmd) Cmd() Cmd {
+	if e.ExArg.Cmd == nil { // only modifiers or a range
+		return Cmd{}
+	}
+	return *e.ExArg.Cmd
+}
 
 // vimlparser: FUNCTION .ea .body .left .rlist .attr .endfunction
 type Function struct {
-- 
2.43.0


From ba689ac82b4138b09c89f7953a0c682874e70e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 20/31] fix: brackets in patterns

---
 autoload/vimlparser.vim | 23 +++++++++++++++++++++--
 go/vimlparser.go        | 23 +++++++++++++++++++++--
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 1c37c1e..d9ee917 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -730,10 +730,29 @@ function! s:VimLParser.parse_pattern(delimiter) abort
       endif
       call self.reader.getn(1)
       let pattern .= c
+    elseif c ==# '[' && inbracket ==# 0
+      let inbracket = 1
+      " a ] at the start of the list is an item of it
+      if self.reader.p(0) ==# '^'
+        let pattern .= self.reader.getn(1)
+      endif
+      if self.reader.p(0) ==# ']'
+        let pattern .= self.reader.getn(1)
+      endif
     elseif c ==# '['
-      let inbracket += 1
+      " [:alpha:], [=a=] or [.a.]
+      let m = self.reader.p(0)
+      if m ==# ':' || m ==# '=' || m ==# '.'
+        let i = 1
+        while s:isalpha(self.reader.p(i))
+          let i += 1
+        endwhile
+        if self.reader.p(i) ==# m && self.reader.p(i + 1) ==# ']'
+          let pattern .= self.reader.getn(i + 2)
+        endif
+      endif
     elseif c ==# ']'
-      let inbracket -= 1
+      let inbracket = 0
     endif
   endwhile
   return [pattern, endc]
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 8e50c98..bde71a8 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -633,10 +633,29 @@ func (self *VimLParser) parse_pattern(delimiter string) (string, string) {
 			}
 			self.reader.getn(1)
 			pattern += c
+		} else if c == "[" && inbracket == 0 {
+			inbracket = 1
+			// a ] at the start of the list is an item of it
+			if self.reader.p(0) == "^" {
+				pattern += self.reader.getn(1)
+			}
+			if self.reader.p(0) == "]" {
+				pattern += self.reader.getn(1)
+			}
 		} else if c == "[" {
-			inbracket += 1
+			// [:alpha:], [=a=] or [.a.]
+			var m = self.reader.p(0)
+			if m == ":" || m == "=" || m == "." {
+				var i = 1
+				for isalpha(self.reader.p(i)) {
+					i += 1
+				}
+				if self.reader.p(i) == m && self.reader.p(i+1) == "]" {
+					pattern += self.reader.getn(i + 2)
+				}
+			}
 		} else if c == "]" {
-			inbracket -= 1
+			inbracket = 0
 		}
 	}
 	return pattern, endc
-- 
2.43.0


From 66b716e1da68be912f79311dd06606f4e880f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 21/31] fix: bar right after a :syntax pattern

---
 autoload/vimlparser.vim | 3 ++-
 go/vimlparser.go        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index d9ee917..30cf89e 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2161,8 +2161,9 @@ function! s:VimLParser.parse_cmd_syntax() abort
       call self.parse_pattern(' ')
     elseif self.ends_excmds(c)
       break
+    else
+      call self.reader.getn(1)
     endif
-    call self.reader.getn(1)
   endwhile
   let node = s:Node(s:NODE_EXCMD)
   let node.pos = self.ea.cmdpos
diff --git a/go/vimlparser.go b/go/vimlparser.go
index bde71a8..cb692d0 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1996,8 +1996,9 @@ func (self *VimLParser) parse_cmd_syntax() {
 			self.parse_pattern(" ")
 		} else if self.ends_excmds(c) {
 			break
+		} else {
+			self.reader.getn(1)
 		}
-		self.reader.getn(1)
 	}
 	var node = Node(NODE_EXCMD)
 	node.pos = self.ea.cmdpos
-- 
2.43.0


From cc1bca414b1fb314dabd382d1da18e4acfccef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 22/31] fix: ++bad= needs a character

---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 4d11c7c..7ef1a04 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -32,7 +32,7 @@ var patVim2Go = map[string]string{
 	"\\w\\|[:#]":                      "[0-9A-Za-z_]|[:#]",
 	"\\x":                             "[0-9A-Fa-f]",
 	"^++":                             "^\\+\\+",
-	"^++bad=\\(keep\\|drop\\|.\\)\\>": "^\\+\\+bad=(keep|drop|.)\\b",
+	"^++bad=\\(keep\\|drop\\|.\\)\\>": "^\\+\\+bad=(keep|drop|\\w)\\b",
 	"^++bad=drop":                     "^\\+\\+bad=drop",
 	"^++bad=keep":                     "^\\+\\+bad=keep",
 	"^++bin\\>":                       "^\\+\\+bin\\b",
-- 
2.43.0


From 542cc55598c5701c05951f04c06d3539705ec74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 23/31] fix: :break and :continue of a function inside a loop

---
 autoload/vimlparser.vim | 4 ++++
 go/vimlparser.go        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 30cf89e..1d6ef46 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -460,6 +460,10 @@ function! s:VimLParser.find_context(type) abort
     if node.type ==# a:type
       return i
     endif
+    if node.type ==# s:NODE_FUNCTION
+      " what is around a function is not around the commands in it
+      break
+    endif
     let i += 1
   endfor
   return -1
diff --git a/go/vimlparser.go b/go/vimlparser.go
index cb692d0..eeaf5b1 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -353,6 +353,10 @@ func (self *VimLParser) find_context(type_ int) int {
 		if node.type_ == type_ {
 			return i
 		}
+		if node.type_ == NODE_FUNCTION {
+			// what is around a function is not around the commands in it
+			break
+		}
 		i += 1
 	}
 	return -1
-- 
2.43.0


From 5e7bd157bb7e9311b80e5c80d641123ae3477cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 24/31] fix: :sc, :si and :sr at the end of a line

---
 autoload/vimlparser.vim | 2 +-
 go/vimlfunc.go          | 2 +-
 go/vimlparser.go        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 1d6ef46..9f873b2 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -952,7 +952,7 @@ function! s:VimLParser.find_command() abort
   if c ==# 'k'
     call self.reader.getn(1)
     let name = 'k'
-  elseif c ==# 's' && self.reader.peekn(5) =~# '\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])'
+  elseif c ==# 's' && self.reader.peekn(5) =~# '\v^s%(c%($|[^sr]%($|[^i]%($|[^p])))|g|i%($|[^mlg])|I|r%($|[^e]))'
     call self.reader.getn(1)
     let name = 'substitute'
   elseif c =~# '[@*!=><&~#]'
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 7ef1a04..3b9dffc 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -27,7 +27,7 @@ var patVim2Go = map[string]string{
 	"\\h":                               "[A-Za-z_]",
 	"\\s":                               "\\s",
 	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)?[lp]$",
-	"\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])": "^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])",
+	"\\v^s%(c%($|[^sr]%($|[^i]%($|[^p])))|g|i%($|[^mlg])|I|r%($|[^e]))": "^s(c($|[^sr]($|[^i]($|[^p])))|g|i($|[^mlg])|I|r($|[^e]))",
 	"\\w":                             "[0-9A-Za-z_]",
 	"\\w\\|[:#]":                      "[0-9A-Za-z_]|[:#]",
 	"\\x":                             "[0-9A-Fa-f]",
diff --git a/go/vimlparser.go b/go/vimlparser.go
index eeaf5b1..1070445 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -840,7 +840,7 @@ func (self *VimLParser) find_command() *Cmd {
 	if c == "k" {
 		self.reader.getn(1)
 		name = "k"
-	} else if c == "s" && viml_eqregh(self.reader.peekn(5), "\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])") {
+	} else if c == "s" && viml_eqregh(self.reader.peekn(5), "\\v^s%(c%($|[^sr]%($|[^i]%($|[^p])))|g|i%($|[^mlg])|I|r%($|[^e]))") {
 		self.reader.getn(1)
 		name = "substitute"
 	} else if viml_eqregh(c, "[@*!=><&~#]") {
-- 
2.43.0


From 127d5f4d4c8a520cda5e7f56a8cbbc0608ee0b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 25/31] fix: recognise :bufd and :wind

---
 autoload/vimlparser.vim | 4 ++--
 go/builtin_commands.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 9f873b2..9d72553 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2230,7 +2230,7 @@ let s:VimLParser.builtin_commands = [
       \ {'name': 'breakdel', 'minlen': 6, 'flags': 'EXTRA|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'breaklist', 'minlen': 6, 'flags': 'EXTRA|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'browse', 'minlen': 3, 'flags': 'NEEDARG|EXTRA|NOTRLCOM|CMDWIN', 'parser': 'parse_cmd_common'},
-      \ {'name': 'bufdo', 'minlen': 5, 'flags': 'BANG|NEEDARG|EXTRA|NOTRLCOM', 'parser': 'parse_cmd_common'},
+      \ {'name': 'bufdo', 'minlen': 4, 'flags': 'BANG|NEEDARG|EXTRA|NOTRLCOM', 'parser': 'parse_cmd_common'},
       \ {'name': 'buffers', 'minlen': 7, 'flags': 'BANG|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'bunload', 'minlen': 3, 'flags': 'BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR', 'parser': 'parse_cmd_common'},
       \ {'name': 'bwipeout', 'minlen': 2, 'flags': 'BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR', 'parser': 'parse_cmd_common'},
@@ -2677,7 +2677,7 @@ let s:VimLParser.builtin_commands = [
       \ {'name': 'vsplit', 'minlen': 2, 'flags': 'BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR', 'parser': 'parse_cmd_common'},
       \ {'name': 'vunmap', 'minlen': 2, 'flags': 'EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'vunmenu', 'minlen': 5, 'flags': 'EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN', 'parser': 'parse_cmd_common'},
-      \ {'name': 'windo', 'minlen': 5, 'flags': 'BANG|NEEDARG|EXTRA|NOTRLCOM', 'parser': 'parse_cmd_common'},
+      \ {'name': 'windo', 'minlen': 4, 'flags': 'BANG|NEEDARG|EXTRA|NOTRLCOM', 'parser': 'parse_cmd_common'},
       \ {'name': 'write', 'minlen': 1, 'flags': 'RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
       \ {'name': 'wNext', 'minlen': 2, 'flags': 'RANGE|WHOLEFOLD|NOTADR|BANG|FILE1|ARGOPT|TRLBAR', 'parser': 'parse_cmd_common'},
       \ {'name': 'wall', 'minlen': 2, 'flags': 'BANG|TRLBAR|CMDWIN', 'parser': 'parse_cmd_common'},
diff --git a/go/builtin_commands.go b/go/builtin_commands.go
index 9ba4b19..075327b 100644
--- a/go/builtin_commands.go
+++ b/go/builtin_commands.go
@@ -56,7 +56,7 @@ var builtin_commands = []*Cmd{
 	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 6, name: "breakdel", parser: "parse_cmd_common"},
 	{flags: "EXTRA|TRLBAR|CMDWIN", minlen: 6, name: "breaklist", parser: "parse_cmd_common"},
 	{flags: "NEEDARG|EXTRA|NOTRLCOM|CMDWIN", minlen: 3, name: "browse", parser: "parse_cmd_common"},
-	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM", minlen: 5, name: "bufdo", parser: "parse_cmd_common"},
+	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM", minlen: 4, name: "bufdo", parser: "parse_cmd_common"},
 	{flags: "BANG|TRLBAR|CMDWIN", minlen: 7, name: "buffers", parser: "parse_cmd_common"},
 	{flags: "BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR", minlen: 3, name: "bunload", parser: "parse_cmd_common"},
 	{flags: "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR", minlen: 2, name: "bwipeout", parser: "parse_cmd_common"},
@@ -503,7 +503,7 @@ var builtin_commands = []*Cmd{
 	{flags: "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR", minlen: 2, name: "vsplit", parser: "parse_cmd_common"},
 	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 2, name: "vunmap", parser: "parse_cmd_common"},
 	{flags: "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN", minlen: 5, name: "vunmenu", parser: "parse_cmd_common"},
-	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM", minlen: 5, name: "windo", parser: "parse_cmd_common"},
+	{flags: "BANG|NEEDARG|EXTRA|NOTRLCOM", minlen: 4, name: "windo", parser: "parse_cmd_common"},
 	{flags: "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN", minlen: 1, name: "write", parser: "parse_cmd_common"},
 	{flags: "RANGE|WHOLEFOLD|NOTADR|BANG|FILE1|ARGOPT|TRLBAR", minlen: 2, name: "wNext", parser: "parse_cmd_common"},
 	{flags: "BANG|TRLBAR|CMDWIN", minlen: 2, name: "wall", parser: "parse_cmd_common"},
-- 
2.43.0


From 8d267e690d5e74a07eaf274d6532d2a08dee5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 26/31] fix: only a space or tab is white space

---
 go/vimlfunc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 3b9dffc..47f08ee 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -37,8 +37,8 @@ var patVim2Go = map[string]string{
 	"^++bad=keep":                     "^\\+\\+bad=keep",
 	"^++bin\\>":                       "^\\+\\+bin\\b",
 	"^++edit\\>":                      "^\\+\\+edit\\b",
-	"^++enc=\\S":                      "^\\+\\+enc=\\S",
-	"^++encoding=\\S":                 "^\\+\\+encoding=\\S",
+	"^++enc=\\S":                      "^\\+\\+enc=[^ \\t]",
+	"^++encoding=\\S":                 "^\\+\\+encoding=[^ \\t]",
 	"^++ff=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+ff=(dos|unix|mac)\\b",
 	"^++fileformat=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+fileformat=(dos|unix|mac)\\b",
 	"^++nobin\\>":                  "^\\+\\+nobin\\b",
@@ -50,7 +50,7 @@ var patVim2Go = map[string]string{
 	"^\\d":                     "^\\d",
 	"^\\h":                     "^[A-Za-z_]",
 	"^\\s":                     "^\\s",
-	"^\\s*\\\\":                "^\\s*\\\\",
+	"^\\s*\\\\":                "^[ \\t]*\\\\",
 	"^[ \\t]$":                 "^[ \\t]$",
 	"^[A-Za-z]$":               "^[A-Za-z]$",
 	"^[0-9A-Za-z]$":            "^[0-9A-Za-z]$",
-- 
2.43.0


From baf6a58cc8157a8ca184aef51a9a23f4c9e91d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 27/31] fix: order of a heredoc and the comment after its
 marker

---
 autoload/vimlparser.vim | 3 ++-
 go/vimlparser.go        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 9d72553..07f40bc 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1627,9 +1627,10 @@ function! s:VimLParser.parse_cmd_let() abort
     call self.reader.getn(len(s2))
     call self.reader.skip_white()
     let node.op = s2
+    " before a comment after the marker
+    call self.add_node(node)
     let node.right = self.parse_heredoc()
     let node.right.pos = oppos
-    call self.add_node(node)
     return
   elseif s1 ==# '='
     call self.reader.getn(1)
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 1070445..d00b7dd 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1484,9 +1484,10 @@ func (self *VimLParser) parse_cmd_let() {
 		self.reader.getn(len(s2))
 		self.reader.skip_white()
 		node.op = s2
+		// before a comment after the marker
+		self.add_node(node)
 		node.right = self.parse_heredoc()
 		node.right.pos = oppos
-		self.add_node(node)
 		return
 	} else if s1 == "=" {
 		self.reader.getn(1)
-- 
2.43.0


From ef90a4b444b032cc42a6b5aa0290b08be2a1c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 28/31] fix: indented end marker of a trimmed heredoc

---
 autoload/vimlparser.vim | 15 ++++++++++++++-
 go/vimlparser.go        | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 07f40bc..cc00881 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1563,13 +1563,26 @@ function! s:VimLParser.parse_heredoc() abort
     throw s:Err('E172: Missing marker', self.reader.getpos())
   endif
   call self.parse_trail()
+  " with trim the end marker may be indented as the line of the :let is
+  let indented = node.op
+  for flag in node.rlist
+    if flag.value ==# 'trim'
+      let tell = self.reader.tell()
+      call self.reader.setpos(self.ea.linepos)
+      while self.reader.tell() > 0 && self.reader.p(-1) !=# '<EOL>'
+        call self.reader.seek_cur(-1)
+      endwhile
+      let indented = self.reader.read_white() . node.op
+      call self.reader.seek_set(tell)
+    endif
+  endfor
   while s:TRUE
     if self.reader.peek() ==# '<EOF>'
       break
     endif
     let pos = self.reader.getpos()
     let line = self.reader.getn(-1)
-    if line ==# node.op
+    if line ==# node.op || line ==# indented
       return node
     endif
     let linenode = s:Node(s:NODE_STRING)
diff --git a/go/vimlparser.go b/go/vimlparser.go
index d00b7dd..c06bfff 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1424,13 +1424,26 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 		panic(Err("E172: Missing marker", self.reader.getpos()))
 	}
 	self.parse_trail()
+	// with trim the end marker may be indented as the line of the :let is
+	var indented = node.op
+	for _, flag := range node.rlist {
+		if flag.value == "trim" {
+			var tell = self.reader.tell()
+			self.reader.setpos(self.ea.linepos)
+			for self.reader.tell() > 0 && self.reader.p(-1) != "<EOL>" {
+				self.reader.seek_cur(-1)
+			}
+			indented = self.reader.read_white() + node.op
+			self.reader.seek_set(tell)
+		}
+	}
 	for true {
 		if self.reader.peek() == "<EOF>" {
 			break
 		}
 		var pos = self.reader.getpos()
 		var line = self.reader.getn(-1)
-		if line == node.op {
+		if line == node.op || line == indented {
 			return node
 		}
 		var linenode = Node(NODE_STRING)
-- 
2.43.0


From dbc74c0a342a07df87cc5462c4dfbdc4b535177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 29/31] fix: modifiers and ranges after :silent! or a colon

---
 autoload/vimlparser.vim | 1 +
 go/vimlparser.go        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index cc00881..0240929 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -551,6 +551,7 @@ endfunction
 function! s:VimLParser.parse_command_modifiers() abort
   let modifiers = []
   while s:TRUE
+    call self.reader.skip_white_and_colon()
     let pos = self.reader.tell()
     let d = ''
     if s:isdigit(self.reader.peekn(1))
diff --git a/go/vimlparser.go b/go/vimlparser.go
index c06bfff..1d25707 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -441,6 +441,7 @@ func (self *VimLParser) parse_one_cmd() {
 func (self *VimLParser) parse_command_modifiers() {
 	var modifiers = []interface{}{}
 	for true {
+		self.reader.skip_white_and_colon()
 		var pos = self.reader.tell()
 		var d = ""
 		if isdigit(self.reader.peekn(1)) {
-- 
2.43.0


From ce88aed718d79bbb8fd905727bbcbc9d4db45b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:29 +0000
Subject: [PATCH 30/31] fix: readers that fail with bufio.ErrBufferFull or give
 many empty reads

---
 vimlparser.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/vimlparser.go b/vimlparser.go
index 60c5d0f..36e8485 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -1,9 +1,9 @@
 package vimlparser
 
 import (
-	"bufio"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"strings"
 
 	"github.com/vim-jp/go-vimlparser/ast"
@@ -93,19 +93,19 @@ func ParseExpr(r io.Reader) (node ast.Expr, err error) {
 }
 
 func readlines(r io.Reader) ([]string, error) {
+	b, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
 	lines := []string{}
-	br := bufio.NewReader(r)
-	for {
-		line, err := br.ReadString('\n')
-		if err != nil && err != io.EOF {
-			return nil, err
-		}
-		if line != "" {
-			line = strings.TrimSuffix(line, "\n")
-			lines = append(lines, strings.TrimSuffix(line, "\r"))
-		}
-		if err == io.EOF {
-			return lines, nil
+	for s := string(b); s != ""; {
+		line := s
+		if i := strings.IndexByte(s, '\n'); i >= 0 {
+			line, s = s[:i], s[i+1:]
+		} else {
+			s = ""
 		}
+		lines = append(lines, strings.TrimSuffix(line, "\r"))
 	}
+	return lines, nil
 }
-- 
2.43.0


From 4eb8bce68fe5a2036dde391a47d0c77710f1a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:59 +0000
Subject: [PATCH 31/31] fix: an odd digit at the end of a blob after a dot is
 an error at the end of a line too

---
 autoload/vimlparser.vim | 3 +++
 go/vimlparser.go        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 0240929..772501f 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4809,6 +4809,9 @@ function! s:StringReader.read_blob() abort
       let r .= self.getn(2)
     elseif s =~# '^\.[0-9A-Fa-f]$'
       let r .= self.getn(1)
+      if self.peekn(2) !~# '^[0-9A-Fa-f][0-9A-Fa-f]$'
+        throw s:Err('E973: Blob literal should have an even number of hex characters:' . self.peekn(2), self.getpos())
+      endif
     elseif s =~# '^[0-9A-Fa-f][^0-9A-Fa-f]$'
       throw s:Err('E973: Blob literal should have an even number of hex characters:' . s, self.getpos())
     else
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 1d25707..b7b11aa 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3490,6 +3490,9 @@ func (self *StringReader) read_blob() string {
 			r += self.getn(2)
 		} else if viml_eqregh(s, "^\\.[0-9A-Fa-f]$") {
 			r += self.getn(1)
+			if !viml_eqregh(self.peekn(2), "^[0-9A-Fa-f][0-9A-Fa-f]$") {
+				panic(Err("E973: Blob literal should have an even number of hex characters:"+self.peekn(2), self.getpos()))
+			}
 		} else if viml_eqregh(s, "^[0-9A-Fa-f][^0-9A-Fa-f]$") {
 			panic(Err("E973: Blob literal should have an even number of hex characters:"+s, self.getpos()))
 		} else {
-- 
2.43.0

