package main

// The projection of an ast tree: [kind, pos, strings, children, ea].

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"

	"github.com/vim-jp/go-vimlparser/ast"
)

// lat gives the bytes of s as characters, so that JSON keeps every byte.
func lat(s string) string {
	ascii := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ascii = false
			break
		}
	}
	if ascii {
		return s
	}
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return string(r)
}

type dumper struct {
	file   string
	badpos []string // positions that name another file
}

func isNil(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return v.IsNil()
	}
	return false
}

func (d *dumper) pos(p ast.Pos) []int {
	if p.Filename != d.file {
		d.badpos = append(d.badpos, p.String())
	}
	return []int{p.Line, p.Column, p.Offset}
}

func (d *dumper) ppos(p *ast.Pos) interface{} {
	if p == nil {
		return nil
	}
	return d.pos(*p)
}

type nd []interface{}

func (d *dumper) mk(k string, p ast.Pos, s []string, c []interface{}) nd {
	if s == nil {
		s = []string{}
	}
	for i := range s {
		s[i] = lat(s[i])
	}
	if c == nil {
		c = []interface{}{}
	}
	return nd{k, d.pos(p), s, c}
}

func seq(c []interface{}) nd {
	if c == nil {
		c = []interface{}{}
	}
	return nd{"seq", []int{0, 0, 0}, []string{}, c}
}

func val(x interface{}) interface{} {
	switch v := x.(type) {
	case string:
		return lat(v)
	case int:
		return v
	case bool:
		return v
	case nil:
		return nil
	case []interface{}:
		r := []interface{}{}
		for _, e := range v {
			r = append(r, val(e))
		}
		return r
	case []string:
		r := []interface{}{}
		for _, e := range v {
			r = append(r, lat(e))
		}
		return r
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range v {
			m[k] = val(e)
		}
		return m
	}
	return fmt.Sprintf("?%T", x)
}

func (d *dumper) ea(e *ast.ExArg) interface{} {
	m := map[string]interface{}{
		"lp": d.ppos(e.Linepos), "cp": d.ppos(e.Cmdpos), "ap": d.ppos(e.Argpos),
		"force": e.Forceit, "amount": e.Amount, "append": e.Append, "filter": e.Usefilter,
		"bin": e.ForceBin, "edit": e.ReadEdit, "ff": lat(e.ForceFf), "enc": lat(e.ForceEnc),
		"bad": lat(e.BadChar), "ecmd": lat(e.DoEcmdCmd),
		"mods": val(e.Modifiers), "range": val(e.Range),
		"zero": []int{e.AddrCount, e.Line1, e.Line2, e.Flags, e.DoEcmdLnum, e.Regname},
	}
	if e.Cmd != nil {
		m["cmd"] = []interface{}{lat(e.Cmd.Name), e.Cmd.Minlen, e.Cmd.Flags, e.Cmd.Parser}
	} else {
		m["cmd"] = nil
	}
	return m
}

func (d *dumper) exprs(l []ast.Expr) []interface{} {
	r := []interface{}{}
	for _, x := range l {
		r = append(r, d.node(x))
	}
	return r
}

func (d *dumper) idents(l []*ast.Ident) []interface{} {
	r := []interface{}{}
	for _, x := range l {
		r = append(r, d.node(x))
	}
	return r
}

func (d *dumper) body(l []ast.Statement) interface{} {
	r := []interface{}{}
	for _, x := range l {
		r = append(r, d.node(x))
	}
	return seq(r)
}

func (d *dumper) cmd(k string, n ast.Node, ea *ast.ExArg, s []string, c []interface{}) interface{} {
	return append(d.mk(k, n.Pos(), s, c), d.ea(ea))
}

type list = []interface{}

// node gives nil for a nil node.
func (d *dumper) node(x ast.Node) interface{} {
	if isNil(x) {
		return nil
	}
	switch n := x.(type) {
	case *ast.File:
		c := list{}
		for _, s := range n.Body {
			c = append(c, d.node(s))
		}
		return d.mk("file", n.Start, nil, c)
	case *ast.Comment:
		return d.mk("comment", n.Quote, []string{n.Text}, nil)
	case *ast.Excmd:
		return d.cmd("excmd", n, &n.ExArg, []string{n.Command}, nil)
	case *ast.Function:
		s := []string{}
		for _, a := range []struct {
			b bool
			n string
		}{{n.Attr.Range, "range"}, {n.Attr.Abort, "abort"}, {n.Attr.Dict, "dict"}, {n.Attr.Closure, "closure"}} {
			if a.b {
				s = append(s, a.n)
			}
		}
		return d.cmd("function", n, &n.ExArg, s, list{d.node(n.Name), seq(d.idents(n.Params)),
			seq(d.exprs(n.DefaultArgs)), d.body(n.Body), d.node(n.EndFunction)})
	case *ast.EndFunction:
		return d.cmd("endfunction", n, &n.ExArg, nil, nil)
	case *ast.DelFunction:
		return d.cmd("delfunction", n, &n.ExArg, nil, list{d.node(n.Name)})
	case *ast.Return:
		return d.cmd("return", n, &n.ExArg, nil, list{d.node(n.Result)})
	case *ast.ExCall:
		return d.cmd("excall", n, &n.ExArg, nil, list{d.node(n.FuncCall)})
	case *ast.Let:
		return d.cmd("let", n, &n.ExArg, []string{n.Op},
			list{d.node(n.Left), seq(d.exprs(n.List)), d.node(n.Rest), d.node(n.Right)})
	case *ast.UnLet:
		return d.cmd("unlet", n, &n.ExArg, nil, d.exprs(n.List))
	case *ast.LockVar:
		return d.cmd("lockvar", n, &n.ExArg, []string{strconv.Itoa(n.Depth)}, d.exprs(n.List))
	case *ast.UnLockVar:
		return d.cmd("unlockvar", n, &n.ExArg, []string{strconv.Itoa(n.Depth)}, d.exprs(n.List))
	case *ast.If:
		ei := list{}
		for _, e := range n.ElseIf {
			ei = append(ei, d.node(e))
		}
		return d.cmd("if", n, &n.ExArg, nil, list{d.node(n.Condition), d.body(n.Body), seq(ei), d.node(n.Else), d.node(n.EndIf)})
	case *ast.ElseIf:
		return d.cmd("elseif", n, &n.ExArg, nil, list{d.node(n.Condition), d.body(n.Body)})
	case *ast.Else:
		return d.cmd("else", n, &n.ExArg, nil, list{d.body(n.Body)})
	case *ast.EndIf:
		return d.cmd("endif", n, &n.ExArg, nil, nil)
	case *ast.While:
		return d.cmd("while", n, &n.ExArg, nil, list{d.node(n.Condition), d.body(n.Body), d.node(n.EndWhile)})
	case *ast.EndWhile:
		return d.cmd("endwhile", n, &n.ExArg, nil, nil)
	case *ast.For:
		return d.cmd("for", n, &n.ExArg, nil, list{d.node(n.Left), seq(d.exprs(n.List)), d.node(n.Rest),
			d.node(n.Right), d.body(n.Body), d.node(n.EndFor)})
	case *ast.EndFor:
		return d.cmd("endfor", n, &n.ExArg, nil, nil)
	case *ast.Continue:
		return d.cmd("continue", n, &n.ExArg, nil, nil)
	case *ast.Break:
		return d.cmd("break", n, &n.ExArg, nil, nil)
	case *ast.Try:
		ca := list{}
		for _, e := range n.Catch {
			ca = append(ca, d.node(e))
		}
		return d.cmd("try", n, &n.ExArg, nil, list{d.body(n.Body), seq(ca), d.node(n.Finally), d.node(n.EndTry)})
	case *ast.Catch:
		return d.cmd("catch", n, &n.ExArg, []string{n.Pattern}, list{d.body(n.Body)})
	case *ast.Finally:
		return d.cmd("finally", n, &n.ExArg, nil, list{d.body(n.Body)})
	case *ast.EndTry:
		return d.cmd("endtry", n, &n.ExArg, nil, nil)
	case *ast.Throw:
		return d.cmd("throw", n, &n.ExArg, nil, list{d.node(n.Expr)})
	case *ast.Eval:
		return d.cmd("eval", n, &n.ExArg, nil, list{d.node(n.Expr)})
	case *ast.EchoCmd:
		return d.cmd("echocmd", n, &n.ExArg, []string{n.CmdName}, d.exprs(n.Exprs))
	case *ast.Echohl:
		return d.cmd("echohl", n, &n.ExArg, []string{n.Name}, nil)
	case *ast.Execute:
		return d.cmd("execute", n, &n.ExArg, nil, d.exprs(n.Exprs))

	case *ast.TernaryExpr:
		return d.mk("ternary", n.Ternary, nil, list{d.node(n.Condition), d.node(n.Left), d.node(n.Right)})
	case *ast.BinaryExpr:
		return d.mk("binary", n.OpPos, []string{n.Op.String()}, list{d.node(n.Left), d.node(n.Right)})
	case *ast.UnaryExpr:
		return d.mk("unary", n.OpPos, []string{n.Op.String()}, list{d.node(n.X)})
	case *ast.SubscriptExpr:
		return d.mk("subscript", n.Lbrack, nil, list{d.node(n.Left), d.node(n.Right)})
	case *ast.SliceExpr:
		return d.mk("slice", n.Lbrack, nil, list{d.node(n.X), d.node(n.Low), d.node(n.High)})
	case *ast.MethodExpr:
		return d.mk("method", n.Lparen, nil, append(list{d.node(n.Left), d.node(n.Method)}, d.exprs(n.Args)...))
	case *ast.CallExpr:
		return d.mk("call", n.Lparen, nil, append(list{d.node(n.Fun)}, d.exprs(n.Args)...))
	case *ast.DotExpr:
		return d.mk("dot", n.Dot, nil, list{d.node(n.Left), d.node(n.Right)})
	case *ast.BasicLit:
		return d.mk("lit", n.ValuePos, []string{kindName(n.Kind.String()), n.Value}, nil)
	case *ast.List:
		return d.mk("list", n.Lsquare, nil, d.exprs(n.Values))
	case *ast.Dict:
		c := list{}
		for _, e := range n.Entries {
			c = append(c, d.node(e.Key), d.node(e.Value))
		}
		return d.mk("dict", n.Lcurlybrace, nil, c)
	case *ast.CurlyName:
		c := list{}
		for _, e := range n.Parts {
			c = append(c, d.node(e))
		}
		return d.mk("curlyname", n.CurlyName, nil, c)
	case *ast.CurlyNameLit:
		return d.mk("curlylit", n.CurlyNameLit, []string{n.Value}, nil)
	case *ast.CurlyNameExpr:
		return d.mk("curlyexpr", n.CurlyNameExpr, nil, list{d.node(n.Value)})
	case *ast.Ident:
		return d.mk("ident", n.NamePos, []string{n.Name}, nil)
	case *ast.LambdaExpr:
		return d.mk("lambda", n.Lcurlybrace, nil, append(list{d.node(n.Expr)}, d.idents(n.Params)...))
	case *ast.ParenExpr:
		return d.mk("paren", n.Lparen, nil, list{d.node(n.X)})
	case *ast.HeredocExpr:
		return d.mk("heredoc", n.OpPos, []string{n.EndMarker}, list{seq(d.exprs(n.Flags)), seq(d.exprs(n.Body))})
	}
	return fmt.Sprintf("?%T", x)
}

func kindName(s string) string {
	switch s {
	case "<NUMBER>":
		return "NUMBER"
	case "<BLOB>":
		return "BLOB"
	case "<STRING>":
		return "STRING"
	case "<&OPTION>":
		return "OPTION"
	case "<$ENV>":
		return "ENV"
	case "<@REG>":
		return "REG"
	}
	return s
}

func sortedKeys(m map[string]interface{}) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
