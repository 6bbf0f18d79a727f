package main

// Sources inside of others: an expression that stands alone as it stands in
// a list, and a script that stands alone as it stands in a block, mean the
// same at the end of a long list or deep in blocks.

import (
	"bytes"
	"reflect"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
)

// inner gives what is at the end of the innermost list or body.
func inner(n ast.Node, depth int) ast.Node {
	for ; depth > 0 && !isNil(n); depth-- {
		switch x := n.(type) {
		case *ast.List:
			if len(x.Values) == 0 {
				return nil
			}
			n = x.Values[len(x.Values)-1]
		case *ast.CallExpr:
			if len(x.Args) == 0 {
				return nil
			}
			n = x.Args[len(x.Args)-1]
		case *ast.Dict:
			if len(x.Entries) == 0 {
				return nil
			}
			n = x.Entries[len(x.Entries)-1].Value
		case *ast.ParenExpr:
			n = x.X
		case *ast.File:
			if len(x.Body) == 0 {
				return nil
			}
			body := reflect.Value{}
			if b := reflect.ValueOf(x.Body[len(x.Body)-1]).Elem().FieldByName("Body"); b.IsValid() {
				body = b
			}
			if !body.IsValid() {
				return nil
			}
			f := *x
			f.Body = body.Interface().([]ast.Statement)
			n = &f
		default:
			return nil
		}
	}
	return n
}

func within(c *kase, src []byte, open, close string, depth int) (node ast.Node, err error, pnc string) {
	b := *c
	b.Pre = 0
	node, err, pnc = parse(&b, []byte(open+string(src)+close))
	u := unshift{strings.Count(open, "\n"), len(open) - strings.LastIndex(open, "\n") - 1, len(open)}
	if err != nil || pnc != "" {
		return node, u.err(err), pnc
	}
	pnc = guard(func() {
		node = inner(node, depth)
		if f, ok := node.(*ast.File); ok {
			seen := map[uintptr]bool{}
			for i := range f.Body {
				u.value(reflect.ValueOf(f.Body).Index(i), seen)
			}
		} else if !isNil(node) {
			u.value(reflect.ValueOf(&node).Elem(), map[uintptr]bool{})
		}
	})
	return
}

func sameTree(c *kase, m, n ast.Node) bool {
	if isNil(m) || isNil(n) {
		return false
	}
	fn := ""
	if c.Mode != "expr" {
		fn = string(unlat(c.File))
	}
	var a, b bytes.Buffer
	canonNode(&a, (&dumper{file: fn}).node(m))
	canonNode(&b, (&dumper{file: fn}).node(n))
	return bytes.Equal(a.Bytes(), b.Bytes())
}

// wrapped gives the outcome of a case from within another source, if it is the
// same from within a small one.
func wrapped(c *kase, src []byte) (ast.Node, error, string) {
	p := prefixes[c.Pre]
	b := *c
	b.Pre = 0
	node, err, pnc := parse(&b, src)
	if err != nil || pnc != "" || isNil(node) {
		return node, err, pnc
	}
	if f, ok := node.(*ast.File); ok {
		// what is behind a :finish is text alone and no text in a block
		for _, x := range f.Body {
			if x, ok := x.(*ast.Excmd); ok && x.Cmd().Name == "finish" {
				return node, err, pnc
			}
		}
	}
	if c.Mode == "expr" {
		// the whole of it is the expression: what follows is still in the list
		l, e, q := parse(&b, []byte("["+string(src)+", 0x5eed]"))
		x, ok := l.(*ast.List)
		if e != nil || q != "" || !ok || len(x.Values) != 2 {
			return node, err, pnc
		}
		if v, ok := x.Values[1].(*ast.BasicLit); !ok || v.Value != "0x5eed" {
			return node, err, pnc
		}
	}
	one, e, q := within(c, src, string(unlat(p.Open1)), string(unlat(p.Close1)), 1)
	if e != nil || q != "" || !sameTree(c, node, one) {
		return node, err, pnc
	}
	return within(c, src, string(unlat(p.Text)), string(unlat(p.Close)), p.Depth)
}
