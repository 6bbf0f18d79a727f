//go:build twin
// +build twin

package main

import (
	"bytes"
	"regexp"
	"strings"
	"unicode/utf8"

	internal "github.com/vim-jp/go-vimlparser/go"
)

// twin compiles src with the compiler of the go package, which the generator
// makes of the one in Vim script. It is reached through a file that the build
// overlays on that package.
func twin(c *kase, src []byte) (string, bool) {
	lines := []string{}
	s := string(src)
	for s != "" {
		l := s
		if k := strings.IndexByte(s, '\n'); k >= 0 {
			l, s = s[:k], s[k+1:]
		} else {
			s = ""
		}
		lines = append(lines, strings.TrimSuffix(l, "\r"))
	}
	var out string
	if p := guard(func() { out = internal.TwinCompile(lines, c.Nvim, c.Mode == "expr") }); p != "" {
		return "panic: " + p, true
	}
	return out, true
}

var zeroDepth = regexp.MustCompile(`(?m)^( *\((?:un)?lockvar) 0 `)
var noPattern = regexp.MustCompile(`(?m)^( *catch) //(\)*)$`)

// oneForm takes away what the tree of the ast package does not tell apart.
func oneForm(s string) string {
	return noPattern.ReplaceAllString(zeroDepth.ReplaceAllString(s, "$1 "), "$1$2")
}

func twinDiffers(c *kase, src []byte, text string) (string, bool) {
	if !utf8.Valid(src) { // its helpers are for text
		return "", false
	}
	t, _ := twin(c, src)
	if c.Mode != "expr" && text != "" {
		t += "\n"
	}
	if bytes.Equal([]byte(oneForm(t)), []byte(oneForm(text))) {
		return "", false
	}
	return t, true
}
