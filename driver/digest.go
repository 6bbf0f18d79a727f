package main

// Digests of outcomes, for the library: the canonical text of an outcome is
// the one that vp/lib.py makes of an outcome of the specification.

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
)

func canonPos(b *bytes.Buffer, p []int) {
	b.WriteString(strconv.Itoa(p[0]))
	b.WriteByte(',')
	b.WriteString(strconv.Itoa(p[1]))
	b.WriteByte(',')
	b.WriteString(strconv.Itoa(p[2]))
}

func canonVal(b *bytes.Buffer, x interface{}) {
	switch v := x.(type) {
	case nil:
		b.WriteByte('~')
	case bool:
		if v {
			b.WriteByte('1')
		} else {
			b.WriteByte('0')
		}
	case int:
		b.WriteString(strconv.Itoa(v))
	case string:
		b.WriteString(v)
	case []int:
		canonPos(b, v)
	case []interface{}:
		b.WriteByte('[')
		for _, e := range v {
			b.WriteByte('\x1f')
			canonVal(b, e)
		}
		b.WriteByte(']')
	case map[string]interface{}:
		b.WriteByte('{')
		for _, k := range sortedKeys(v) {
			b.WriteByte('\x1f')
			b.WriteString(k)
			b.WriteByte('=')
			canonVal(b, v[k])
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "?%T", x)
	}
}

var eaFields = []string{"lp", "cp", "ap", "force", "amount", "append", "filter", "bin", "edit", "ff", "enc", "bad", "ecmd", "range", "mods"}

func canonNode(b *bytes.Buffer, x interface{}) {
	if x == nil {
		b.WriteByte('~')
		return
	}
	n, ok := x.(nd)
	if !ok {
		fmt.Fprintf(b, "?%v", x)
		return
	}
	k := n[0].(string)
	b.WriteByte('(')
	b.WriteString(k)
	if k != "seq" {
		b.WriteByte(' ')
		canonPos(b, n[1].([]int))
	}
	for _, s := range n[2].([]string) {
		b.WriteByte('\x1f')
		b.WriteString(s)
	}
	for _, c := range n[3].([]interface{}) {
		canonNode(b, c)
	}
	if len(n) > 4 {
		b.WriteByte('@')
		m, ok := n[4].(map[string]interface{})
		if ok {
			for _, f := range eaFields {
				b.WriteByte('\x1e')
				v := m[f]
				if v == nil && (f == "range" || f == "mods") {
					v = []interface{}{}
				}
				canonVal(b, v)
			}
			b.WriteByte('\x1e')
			if c, ok := m["cmd"].([]interface{}); ok {
				canonVal(b, c[0])
				b.WriteByte('\x1f')
				canonVal(b, c[1])
				b.WriteByte('\x1f')
				canonVal(b, c[2])
			} else {
				b.WriteByte('~')
			}
		}
	}
	b.WriteByte(')')
}

// canon gives the canonical text of what the code does with a case.
func canon(c *kase, b *bytes.Buffer) {
	fn := ""
	if c.Mode != "expr" {
		fn = string(unlat(c.File))
	}
	node, err, pnc := parse(c, unlat(c.Src))
	if pnc != "" {
		b.WriteString("P")
		return
	}
	if err != nil && wants(c, "print") {
		return
	}
	if err != nil {
		e, ok := err.(*vimlparser.ErrVimlParser)
		if !ok || node != nil || e.Filename != fn {
			b.WriteString("I")
			return
		}
		b.WriteByte('E')
		b.WriteString(lat(e.Msg))
		b.WriteByte('\x1f')
		canonPos(b, []int{e.Line, e.Column, e.Offset})
		text := fmt.Sprintf("vimlparser: %s: line %d col %d", e.Msg, e.Line, e.Column)
		if fn != "" {
			text = fn + ":" + strconv.Itoa(e.Line) + ":" + strconv.Itoa(e.Column) + ": vimlparser: " + e.Msg
		}
		if e.Error() != text {
			b.WriteByte('T')
		}
		return
	}
	if node == nil {
		b.WriteString("N")
		return
	}
	if wants(c, "print") {
		if oddPrint(node) {
			b.WriteString("odd")
		}
		return
	}
	if wants(c, "sexp") {
		var s bytes.Buffer
		if err := compiler.Compile(&s, node); err != nil {
			b.WriteString("X" + lat(err.Error()))
			return
		}
		b.WriteByte('S')
		b.WriteString(lat(s.String()))
		if w := otherWays(node, s.String()); w != "" {
			b.WriteString("\x1fW" + lat(w))
		}
		if t, bad := twinDiffers(c, unlat(c.Src), s.String()); bad {
			b.WriteString("\x1fT" + lat(t))
		}
		return
	}
	if wants(c, "walk") {
		w := &walker{pol: c.Pol, d: &dumper{file: fn}}
		ast.Walk(&visitor{id: 0, w: w}, node)
		b.WriteByte('W')
		for _, e := range w.ev {
			canonVal(b, e)
		}
		b.WriteByte('I')
		k := 0
		di := &dumper{file: fn}
		ast.Inspect(node, func(n ast.Node) bool {
			if isNil(n) {
				b.WriteString("[]")
				return k%2 == 0
			}
			b.WriteByte('[')
			b.WriteString(kindOf(n))
			canonPos(b, di.pos(n.Pos()))
			b.WriteByte(']')
			a := 1
			if len(c.Pol) > 0 {
				a = c.Pol[k%len(c.Pol)]
			}
			k++
			return a != 0
		})
		return
	}
	d := &dumper{file: fn}
	b.WriteByte('T')
	canonNode(b, d.node(node))
	if len(d.badpos) > 0 {
		b.WriteByte('B')
	}
}

// digest writes one line for each case: the crc of its canonical text.
func digest(limit time.Duration) {
	cs := readCases()
	res := make([]string, len(cs))
	var wg sync.WaitGroup
	ch := make(chan int)
	var mu sync.Mutex // of res, hangs, and each worker's k and since
	hangs := 0
	flush := func() {
		os.Stdout.WriteString(strings.Join(res, "\n") + "\n")
	}
	type worker struct {
		k     int
		since time.Time
		gone  bool
	}
	one := func(k int) string {
		var b bytes.Buffer
		if p := guard(func() { canon(cs[k], &b) }); p != "" {
			b.WriteString("P")
		}
		if len(os.Args) > 2 {
			return fmt.Sprintf("%q", b.String())
		}
		return strconv.FormatUint(uint64(crc32.ChecksumIEEE(b.Bytes())&0xffffff), 10)
	}
	var ws []*worker
	var start func()
	start = func() { // with mu
		w := &worker{k: -1}
		ws = append(ws, w)
		go func() {
			for k := range ch {
				now := time.Now()
				mu.Lock()
				w.k, w.since = k, now
				mu.Unlock()
				r := one(k)
				mu.Lock()
				if w.gone {
					mu.Unlock()
					return
				}
				res[k], w.k = r, -1
				mu.Unlock()
				wg.Done()
			}
		}()
	}
	mu.Lock()
	for i := 0; i < runtime.GOMAXPROCS(0); i++ {
		start()
	}
	mu.Unlock()
	go func() { // leaves behind what hangs
		for range time.Tick(limit / 20) {
			mu.Lock()
			for _, w := range ws {
				if w.gone || w.k < 0 || time.Since(w.since) < limit {
					continue
				}
				res[w.k], w.gone = "hang", true
				hangs++
				if hangs > 3 {
					flush()
					os.Exit(4)
				}
				start()
				wg.Done()
			}
			mu.Unlock()
		}
	}()
	wg.Add(len(cs))
	for k := range cs {
		ch <- k
	}
	close(ch)
	wg.Wait()
	flush()
}
