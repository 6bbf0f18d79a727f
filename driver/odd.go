package main

// A sieve for the printer: the expressions that are not simply printed and
// read back as the same tree. What it lets through counts for nothing; what
// stays in it is judged by the specification.

import (
	"bytes"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/printer"
)

// plain writes a tree without positions, with one parenthesis for several.
// It is false if there is a node in it that the printer does not know.
func plain(x ast.Expr, b *strings.Builder) bool {
	switch n := x.(type) {
	case *ast.BinaryExpr:
		b.WriteString("(" + n.Op.String() + " ")
		l := plain(n.Left, b)
		b.WriteByte(' ')
		r := plain(n.Right, b)
		b.WriteByte(')')
		return l && r
	case *ast.UnaryExpr:
		b.WriteString("(u" + n.Op.String() + " ")
		ok := plain(n.X, b)
		b.WriteByte(')')
		return ok
	case *ast.SubscriptExpr:
		b.WriteString("(s ")
		l := plain(n.Left, b)
		b.WriteByte(' ')
		r := plain(n.Right, b)
		b.WriteByte(')')
		return l && r
	case *ast.BasicLit:
		b.WriteString(n.Kind.String() + n.Value)
	case *ast.Ident:
		b.WriteString("i" + n.Name)
	case *ast.ParenExpr:
		if p, ok := n.X.(*ast.ParenExpr); ok {
			return plain(p, b)
		}
		b.WriteString("(p ")
		ok := plain(n.X, b)
		b.WriteByte(')')
		return ok
	default:
		return false
	}
	return true
}

// odd tells whether printing x goes any other way than expected.
func odd(x ast.Expr, naked bool) bool {
	var want, got strings.Builder
	known := plain(x, &want)
	var buf bytes.Buffer
	if err := printer.Fprint(&buf, x, nil); err != nil {
		return known
	}
	if !known {
		return true
	}
	f, err := vimlparser.ParseFile(strings.NewReader("echo "+buf.String()), "", nil)
	if err != nil || len(f.Body) != 1 {
		return true
	}
	e, ok := f.Body[0].(*ast.EchoCmd)
	if !ok || len(e.Exprs) != 1 {
		return true
	}
	y := e.Exprs[0]
	if naked {
		y = strip(y)
	}
	plain(y, &got)
	return got.String() != want.String()
}

func oddPrint(node ast.Node) bool {
	x, ok := node.(ast.Expr)
	return ok && (odd(x, false) || odd(strip(x), true))
}
