// Command driver runs the code under test on cases (one JSON object per line
// on standard input) and writes what it did (one JSON object per line).
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
	"github.com/vim-jp/go-vimlparser/printer"
)

type kase struct {
	ID     int      `json:"id"`
	Src    string   `json:"src"` // bytes as characters
	Mode   string   `json:"mode"`
	Nvim   bool     `json:"nvim"`
	NilOpt bool     `json:"nilopt"`
	File   string   `json:"file"`
	Ops    []string `json:"ops"`
	Pol    []int    `json:"pol"`
	Chunks []int    `json:"chunks"` // sizes of the reads, repeated; 0 is an empty read
	Exact  bool     `json:"exact"`  // chunks are all the reads there are, the last with the end or the failure
	Failed bool     `json:"failed"` // with exact: it ends in failure
	EofTog bool     `json:"eoftog"` // the last read returns io.EOF along with data
	Fail   int      `json:"fail"`   // bytes before the reader fails; -1: never
	WFail  int      `json:"wfail"`  // bytes before the writer fails; -1: never
	Pre    int      `json:"pre"`    // this script, of the table, stands before the source
	Pres   []prefix `json:"pres"`   // no case, but the table
}

// A script that is put before others.
type prefix struct {
	Text string `json:"text"`
	N    int    `json:"n"` // statements in it
	// stands around them, not before
	Close  string `json:"close"`
	Depth  int    `json:"depth"`
	Open1  string `json:"open1"` // the same of depth one
	Close1 string `json:"close1"`
}

var prefixes []prefix

// unshift puts an outcome to where it would be without the script before it.
type unshift struct{ lines, cols, bytes int }

func (u unshift) pos(line, col, off int) (int, int, int) {
	line -= u.lines
	if line == 1 {
		col -= u.cols
	}
	return line, col, off - u.bytes
}

var posType = reflect.TypeOf(ast.Pos{})

func (u unshift) value(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		u.value(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			u.value(v.Elem(), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			u.value(v.Index(i), seen)
		}
	case reflect.Struct:
		if v.Type() == posType {
			p := v.Addr().Interface().(*ast.Pos)
			p.Line, p.Column, p.Offset = u.pos(p.Line, p.Column, p.Offset)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				u.value(v.Field(i), seen)
			}
		}
	}
}

// later gives the outcome of the source of a case after another script.
func later(c *kase, f *ast.File, err error) error {
	p := prefixes[c.Pre]
	if f != nil && len(f.Body) >= p.N {
		f.Body = f.Body[p.N:]
		seen := map[uintptr]bool{}
		for i := range f.Body {
			c.unshift().value(reflect.ValueOf(f.Body).Index(i), seen)
		}
	}
	return c.unshift().err(err)
}

func (c *kase) unshift() unshift {
	t := string(unlat(prefixes[c.Pre].Text))
	return unshift{strings.Count(t, "\n"), len(t) - strings.LastIndex(t, "\n") - 1, len(t)}
}

func (u unshift) err(err error) error {
	if e, ok := err.(*vimlparser.ErrVimlParser); ok {
		e := *e
		e.Line, e.Column, e.Offset = u.pos(e.Line, e.Column, e.Offset)
		return &e
	}
	return err
}

func unlat(s string) []byte {
	b := make([]byte, 0, len(s))
	for _, r := range s {
		b = append(b, byte(r))
	}
	return b
}

// Failures of readers. None of them is an end of the input.
type timeout struct{}

func (timeout) Error() string   { return "injected timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

type endlike struct{}

func (endlike) Error() string        { return "EOF" }
func (endlike) Is(target error) bool { return target == io.EOF }

var readErrors = []error{
	errors.New("injected read failure"), io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("injected: %w", io.EOF), os.ErrClosed, timeout{},
	errors.New("EOF"), endlike{}, io.ErrNoProgress, &os.PathError{Op: "read", Path: "f", Err: errors.New("is a directory")}, errors.New(""), bufio.ErrBufferFull, bufio.ErrTooLong, io.ErrShortBuffer,
	&vimlparser.ErrVimlParser{Filename: "other", Line: 3, Column: 2, Offset: 7, Msg: "injected"},
}

func readError(c *kase) error { return readErrors[c.ID%len(readErrors)] }

var errWrite = errors.New("injected write failure")

type chunkReader struct {
	b      []byte
	sizes  []int
	k      int
	eoftog bool
	fail   int // bytes left before failure; -1: never
	err    error
}

func (r *chunkReader) Read(p []byte) (int, error) {
	n := len(p)
	if len(r.sizes) > 0 {
		if s := r.sizes[r.k%len(r.sizes)]; s < n {
			n = s
		}
		r.k++
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	if r.fail >= 0 && n >= r.fail {
		n = r.fail
		copy(p, r.b[:n])
		r.b = r.b[n:]
		r.fail -= n
		if r.eoftog || n == 0 {
			return n, r.err
		}
		return n, nil
	}
	if n == 0 && len(r.b) == 0 {
		return 0, io.EOF
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if r.fail >= 0 {
		r.fail -= n
	}
	if r.eoftog && len(r.b) == 0 && r.fail < 0 {
		return n, io.EOF
	}
	return n, nil
}

// exactReader answers with pieces of the given sizes; the end, or the failure,
// comes with the last one.
type exactReader struct {
	b     []byte
	sizes []int
	k     int
	end   error
}

func (r *exactReader) Read(p []byte) (int, error) {
	if r.k >= len(r.sizes) {
		return 0, r.end
	}
	n := r.sizes[r.k]
	if n > len(p) { // no room: the rest of the piece comes next
		n = len(p)
		r.sizes[r.k] -= n
	} else {
		r.k++
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if r.k >= len(r.sizes) {
		return n, r.end
	}
	return n, nil
}

type failWriter struct {
	left int
	n    int
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		w.n += n
		return n, errWrite
	}
	w.left -= len(p)
	w.n += len(p)
	return len(p), nil
}

type visitor struct {
	id int
	w  *walker
}
type walker struct {
	pol  []int
	n    int // nodes seen
	next int // next fresh visitor
	d    *dumper
	ev   []interface{}
}

func (v *visitor) Visit(n ast.Node) ast.Visitor {
	w := v.w
	if isNil(n) {
		w.ev = append(w.ev, []interface{}{v.id})
		return nil
	}
	w.ev = append(w.ev, []interface{}{v.id, kindOf(n), w.d.pos(n.Pos())})
	a := 1
	if len(w.pol) > 0 {
		a = w.pol[w.n%len(w.pol)]
	}
	w.n++
	switch a {
	case 0:
		return nil
	case 1:
		return v
	}
	w.next++
	return &visitor{id: w.next, w: w}
}

var kinds = map[string]string{
	"File": "file", "Comment": "comment", "Excmd": "excmd", "Function": "function", "EndFunction": "endfunction",
	"DelFunction": "delfunction", "Return": "return", "ExCall": "excall", "Let": "let", "UnLet": "unlet",
	"LockVar": "lockvar", "UnLockVar": "unlockvar", "If": "if", "ElseIf": "elseif", "Else": "else", "EndIf": "endif",
	"While": "while", "EndWhile": "endwhile", "For": "for", "EndFor": "endfor", "Continue": "continue", "Break": "break",
	"Try": "try", "Catch": "catch", "Finally": "finally", "EndTry": "endtry", "Throw": "throw", "Eval": "eval",
	"EchoCmd": "echocmd", "Echohl": "echohl", "Execute": "execute", "TernaryExpr": "ternary", "BinaryExpr": "binary",
	"UnaryExpr": "unary", "SubscriptExpr": "subscript", "SliceExpr": "slice", "MethodExpr": "method", "CallExpr": "call",
	"DotExpr": "dot", "BasicLit": "lit", "List": "list", "Dict": "dict", "CurlyName": "curlyname",
	"CurlyNameLit": "curlylit", "CurlyNameExpr": "curlyexpr", "Ident": "ident", "LambdaExpr": "lambda",
	"ParenExpr": "paren", "HeredocExpr": "heredoc",
}

func kindOf(n ast.Node) string {
	t := reflect.TypeOf(n)
	if t.Kind() == reflect.Ptr {
		if k, ok := kinds[t.Elem().Name()]; ok {
			return k
		}
	}
	return "?" + t.String()
}

// strip gives a copy of x without parenthesis nodes.
func strip(x ast.Expr) ast.Expr {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return strip(n.X)
	case *ast.BinaryExpr:
		c := *n
		c.Left, c.Right = strip(n.Left), strip(n.Right)
		return &c
	case *ast.UnaryExpr:
		c := *n
		c.X = strip(n.X)
		return &c
	case *ast.SubscriptExpr:
		c := *n
		c.Left, c.Right = strip(n.Left), strip(n.Right)
		return &c
	}
	return x
}

// scramble overwrites all that can be reached from a tree.
func scramble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			scramble(v.Elem(), seen)
		}
	case reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem(), seen)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), seen)
		}
		if v.Cap() > v.Len() && v.CanSet() { // and what an append would touch
			all := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				all.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				scramble(f, seen)
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(77)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

type result map[string]interface{}

// guard runs f and returns the panic it ended with, if any.
func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}

func errOf(c *kase, err error) interface{} {
	m := map[string]interface{}{"text": lat(err.Error()), "type": fmt.Sprintf("%T", err)}
	if e, ok := err.(*vimlparser.ErrVimlParser); ok {
		m["msg"], m["line"], m["col"], m["off"], m["file"] = lat(e.Msg), e.Line, e.Column, e.Offset, lat(e.Filename)
	}
	if err == readError(c) {
		m["read"] = true
	}
	return m
}

func wants(c *kase, op string) bool {
	for _, o := range c.Ops {
		if o == op {
			return true
		}
	}
	return false
}

func compile(n ast.Node, wfail int, r result, key string) {
	var buf bytes.Buffer
	if p := guard(func() {
		if err := compiler.Compile(&buf, n); err != nil {
			r[key+"err"] = lat(err.Error())
		}
	}); p != "" {
		r[key+"panic"] = lat(p)
	}
	r[key] = lat(buf.String())
	if wfail >= 0 {
		w := &failWriter{left: wfail}
		if p := guard(func() {
			err := compiler.Compile(w, n)
			r[key+"werr"] = err == errWrite
			r[key+"wnil"] = err == nil
		}); p != "" {
			r[key+"panic"] = lat(p)
		}
	}
}

// otherWays compiles n in other ways that must give the same text: with one
// compiler again and again, also after its writer failed, and command by
// command.
func otherWays(n ast.Node, want string) (bad string) {
	if p := guard(func() {
		c := &compiler.Compiler{Config: compiler.Config{Indent: "  "}}
		c.Compile(&failWriter{left: len(want) / 2}, n)
		for k := 0; k < 2; k++ {
			var b bytes.Buffer
			if err := c.Compile(&b, n); err != nil || b.String() != want {
				bad = "reused: " + b.String()
				return
			}
		}
		f, ok := n.(*ast.File)
		if !ok {
			return
		}
		var b bytes.Buffer
		for _, s := range f.Body {
			if err := c.Compile(&b, s); err != nil {
				bad = "one command: " + err.Error()
				return
			}
		}
		if b.String() != want {
			bad = "command by command: " + b.String()
		}
	}); p != "" {
		bad = "panic: " + p
	}
	return
}

func doPrint(n ast.Node, wfail int, r result, key string) {
	var buf bytes.Buffer
	if p := guard(func() {
		if err := printer.Fprint(&buf, n, nil); err != nil {
			r[key+"err"] = lat(err.Error())
		}
	}); p != "" {
		r[key+"panic"] = lat(p)
	}
	r[key] = lat(buf.String())
	if wfail >= 0 {
		w := &failWriter{left: wfail}
		if p := guard(func() {
			err := printer.Fprint(w, n, &printer.Config{})
			r[key+"werr"] = err == errWrite
			r[key+"wnil"] = err == nil
		}); p != "" {
			r[key+"panic"] = lat(p)
		}
	}
}

func parse(c *kase, src []byte) (node ast.Node, err error, pnc string) {
	if c.Pre > 0 && prefixes[c.Pre].Close != "" {
		return wrapped(c, src)
	}
	if c.Pre > 0 {
		src = append(unlat(prefixes[c.Pre].Text), src...)
	}
	var rd io.Reader = bytes.NewReader(src)
	if c.Exact {
		end := io.EOF
		if c.Failed {
			end = readError(c)
		}
		rd = &exactReader{b: append([]byte(nil), src...), sizes: append([]int(nil), c.Chunks...), end: end}
	} else if c.Chunks != nil || c.Fail >= 0 || c.EofTog {
		rd = &chunkReader{b: append([]byte(nil), src...), sizes: c.Chunks, eoftog: c.EofTog, fail: c.Fail, err: readError(c)}
	}
	pnc = guard(func() {
		if c.Mode == "expr" {
			var x ast.Expr
			x, err = vimlparser.ParseExpr(rd)
			if c.Pre > 0 {
				c.unshift().value(reflect.ValueOf(&x).Elem(), map[uintptr]bool{})
				err = c.unshift().err(err)
			}
			if !isNil(x) {
				node = x
			}
			return
		}
		opt := &vimlparser.ParseOption{Neovim: c.Nvim}
		if c.NilOpt || !c.Nvim && len(c.Src)%2 == 0 { // no options is the same
			opt = nil
		}
		var f *ast.File
		f, err = vimlparser.ParseFile(rd, string(unlat(c.File)), opt)
		if c.Pre > 0 {
			err = later(c, f, err)
		}
		if f != nil {
			node = f
		}
	})
	return
}

func run(c *kase) result {
	r := result{"id": c.ID}
	src := unlat(c.Src)
	file := string(unlat(c.File))
	node, err, pnc := parse(c, src)
	if pnc != "" {
		r["panic"] = lat(pnc)
		return r
	}
	if err != nil {
		r["err"] = errOf(c, err)
	}
	if node == nil {
		return r
	}
	if err != nil {
		r["both"] = true
	}
	fn := file
	if c.Mode == "expr" {
		fn = ""
	}
	d := &dumper{file: fn}
	var tree interface{}
	if p := guard(func() { tree = d.node(node) }); p != "" {
		r["panic"] = "reading the tree: " + lat(p)
		return r
	}
	r["tree"] = tree
	if len(d.badpos) > 0 {
		r["badfile"] = d.badpos[0]
	}
	if wants(c, "cmds") { // Cmd() of every command
		bad := ""
		if p := guard(func() {
			ast.Inspect(node, func(n ast.Node) bool {
				if x, ok := n.(ast.ExCommand); ok {
					x.Cmd()
				}
				return true
			})
		}); p != "" {
			bad = p
		}
		if bad != "" {
			r["cmdpanic"] = lat(bad)
		}
	}
	if wants(c, "sexp") {
		compile(node, c.WFail, r, "sexp")
		r2 := result{}
		compile(node, -1, r2, "sexp")
		r["sexpagain"] = r2["sexp"] == r["sexp"]
		if text, ok := r["sexp"].(string); ok {
			if w := otherWays(node, string(unlat(text))); w != "" {
				r["sexpways"] = lat(w)
			}
		}
		var buf bytes.Buffer
		if p := guard(func() {
			err := (&compiler.Compiler{Config: compiler.Config{Indent: "\t"}}).Compile(&buf, node)
			if err != nil {
				r["sexperr"] = lat(err.Error())
			}
		}); p != "" {
			r["sexppanic"] = lat(p)
		}
		r["sexptab"] = lat(buf.String())
		if text, ok := r["sexp"].(string); ok {
			if t, bad := twinDiffers(c, src, string(unlat(text))); bad {
				r["twin"] = lat(t)
			}
		}
	}
	if wants(c, "print") {
		doPrint(node, c.WFail, r, "print")
		if x, ok := node.(ast.Expr); ok {
			s := strip(x)
			r["stripped"] = (&dumper{file: fn}).node(s)
			doPrint(s, -1, r, "sprint")
		}
	}
	if wants(c, "walk") {
		w := &walker{pol: c.Pol, d: &dumper{file: fn}}
		if p := guard(func() { ast.Walk(&visitor{id: 0, w: w}, node) }); p != "" {
			r["walkpanic"] = lat(p)
		}
		r["walk"] = w.ev
		ev := []interface{}{}
		k := 0
		di := &dumper{file: fn}
		if p := guard(func() {
			ast.Inspect(node, func(n ast.Node) bool {
				if isNil(n) {
					ev = append(ev, []interface{}{})
					return k%2 == 0 // must not matter
				}
				ev = append(ev, []interface{}{kindOf(n), di.pos(n.Pos())})
				a := 1
				if len(c.Pol) > 0 {
					a = c.Pol[k%len(c.Pol)]
				}
				k++
				return a != 0
			})
		}); p != "" {
			r["insppanic"] = lat(p)
		}
		r["insp"] = ev
	}
	if wants(c, "twice") {
		n2, err2, p2 := parse(c, src)
		same := p2 == "" && (err2 == nil) == (err == nil) && n2 != nil
		if same {
			a, _ := json.Marshal(tree)
			b, _ := json.Marshal((&dumper{file: fn}).node(n2))
			same = bytes.Equal(a, b)
			// what is done to one tree must not show in another one
			scramble(reflect.ValueOf(n2), map[uintptr]bool{})
			n3, _, _ := parse(c, src)
			b, _ = json.Marshal((&dumper{file: fn}).node(node))
			same = same && bytes.Equal(a, b) && n3 != nil
			if same {
				b, _ = json.Marshal((&dumper{file: fn}).node(n3))
				same = bytes.Equal(a, b)
			}
		}
		r["twice"] = same
	}
	if len(c.Ops) > 0 { // nothing above may have changed the tree
		a, _ := json.Marshal(tree)
		b, _ := json.Marshal((&dumper{file: fn}).node(node))
		r["kept"] = bytes.Equal(a, b)
	}
	return r
}

func readCases() []*kase {
	var cs []*kase
	d := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	for {
		c := &kase{Fail: -1, WFail: -1}
		if err := d.Decode(c); err == io.EOF {
			return cs
		} else if err != nil {
			fmt.Fprintln(os.Stderr, "bad case:", err)
			os.Exit(3)
		}
		if c.Pres != nil {
			prefixes = c.Pres
			continue
		}
		cs = append(cs, c)
	}
}

func replay(limit time.Duration) {
	cs := readCases()
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	var mu sync.Mutex
	emit := func(r result) {
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		mu.Lock()
		out.Write(b)
		out.WriteByte('\n')
		mu.Unlock()
	}
	ch := make(chan *kase)
	var wg sync.WaitGroup
	var hangs int
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				done := make(chan result, 1)
				c := c
				go func() { done <- run(c) }()
				t := time.NewTimer(limit)
				select {
				case r := <-done:
					emit(r)
				case <-t.C:
					emit(result{"id": c.ID, "hang": true})
					mu.Lock()
					hangs++
					if hangs > 3 { // enough to report; do not burn the machine
						out.Flush()
						os.Exit(4)
					}
					mu.Unlock()
				}
				t.Stop()
			}
		}()
	}
	for _, c := range cs {
		ch <- c
	}
	close(ch)
	wg.Wait()
	out.Flush()
}

// event is one step of a history: worker W calls with case X, or has the
// outcome R (the index of a result in the list of distinct ones) from it.
type event struct {
	Ev string `json:"ev"`
	W  int    `json:"w"`
	X  int    `json:"x"`
	R  int    `json:"r"`
	t  time.Duration
}

// conc runs all cases again and again in workers goroutines, in many orders,
// also reading trees they share, and writes the distinct results and the
// history.  Nothing but the code under test synchronises the goroutines.
func conc(seed int64, rounds, workers int) {
	cs := readCases()
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	emit := func(r interface{}) {
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		out.Write(b)
		out.WriteByte('\n')
	}
	type rec struct {
		ev event
		b  string
	}
	classes := map[string]int{}
	rnd := rand.New(rand.NewSource(seed))
	begin := time.Now()
	var hist []event
	for k := 0; k < rounds; k++ {
		nw := workers
		if k%4 == 3 {
			nw = 1 // a history without overlap
		}
		shared := make([]ast.Node, len(cs))
		if k > 0 { // the first round runs cold
			for i, c := range cs {
				shared[i], _, _ = parse(c, unlat(c.Src))
			}
		}
		logs := make([][]rec, nw)
		var wg sync.WaitGroup
		start := make(chan bool)
		for w := 0; w < nw; w++ {
			w := w
			perm := rnd.Perm(len(cs))
			wg.Add(1)
			go func() {
				defer wg.Done()
				var lg []rec
				<-start
				for _, i := range perm {
					c := *cs[i]
					lg = append(lg, rec{ev: event{Ev: "call", W: w + 1, X: c.ID, t: time.Since(begin)}})
					r := run(&c)
					t := time.Since(begin)
					b, _ := json.Marshal(r)
					lg = append(lg, rec{ev: event{Ev: "ret", W: w + 1, X: c.ID, t: t}, b: string(b)})
					n := shared[i]
					if n == nil {
						continue
					}
					lg = append(lg, rec{ev: event{Ev: "call", W: w + 1, X: c.ID, t: time.Since(begin)}})
					r = result{"id": c.ID}
					if p := guard(func() {
						compile(n, -1, r, "sexp")
						doPrint(n, -1, result{}, "print")
						ast.Inspect(n, func(ast.Node) bool { return true })
						fn := string(unlat(c.File))
						if c.Mode == "expr" {
							fn = ""
						}
						d := &dumper{file: fn}
						r["tree"] = d.node(n)
						if len(d.badpos) > 0 {
							r["badfile"] = d.badpos[0]
						}
					}); p != "" {
						r["panic"] = lat(p)
					}
					t = time.Since(begin)
					b, _ = json.Marshal(r)
					lg = append(lg, rec{ev: event{Ev: "ret", W: w + 1, X: c.ID, t: t}, b: string(b)})
				}
				logs[w] = lg
			}()
		}
		close(start)
		wg.Wait()
		var evs []event
		for _, lg := range logs {
			for _, e := range lg {
				if e.ev.Ev == "ret" {
					n, ok := classes[e.b]
					if !ok {
						n = len(classes) + 1
						classes[e.b] = n
						emit(map[string]interface{}{"class": n, "result": json.RawMessage(e.b)})
					}
					e.ev.R = n
				}
				evs = append(evs, e.ev)
			}
		}
		// each worker's events stay in order; the order between workers is
		// the one of the clock, and says nothing
		sort.SliceStable(evs, func(a, b int) bool { return evs[a].t < evs[b].t })
		hist = append(hist, evs...)
	}
	emit(map[string]interface{}{"history": hist})
	out.Flush()
}

func main() {
	mode := "replay"
	if len(os.Args) > 1 {
		mode = os.Args[1]
	}
	switch {
	case mode == "replay":
		limit := 40 * time.Second
		if len(os.Args) > 2 {
			if d, err := time.ParseDuration(os.Args[2]); err == nil {
				limit = d
			}
		}
		replay(limit)
	case mode == "digest":
		digest(40 * time.Second)
	case strings.HasPrefix(mode, "conc"):
		var seed int64
		var rounds, workers int
		fmt.Sscan(os.Args[2], &seed)
		fmt.Sscan(os.Args[3], &rounds)
		fmt.Sscan(os.Args[4], &workers)
		conc(seed, rounds, workers)
	default:
		os.Exit(3)
	}
}
