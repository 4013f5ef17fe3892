package lexer_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
)

type lexPos struct{ row, col int }

// positions of every code point of src (1-based), and of the end of input
func lexPositions(rs []rune) []lexPos {
	out := make([]lexPos, 0, len(rs)+1)
	p := lexPos{1, 1}
	for i, r := range rs {
		out = append(out, p)
		if r == '\n' || r == '\r' && (i+1 >= len(rs) || rs[i+1] != '\n') {
			p = lexPos{p.row + 1, 1}
		} else {
			p.col++
		}
	}
	return append(out, p)
}

// lexOne tokenizes src; modes[i%len] says whether raw mode is on for token i.
func lexOne(v *verifRun, src string, modes string, positions, unsafe bool) bool {
	var opts []lexer.TokenizerOption
	if unsafe {
		opts = append(opts, lexer.WithUnsafe())
	}
	rs := []rune(src)
	pos := lexPositions(rs)
	t := lexer.NewTokenizer(src, opts...)
	at := 0
	var sb strings.Builder
	desc := func() string { return fmt.Sprintf("%q (raw mode pattern %q)", src, modes) }
	kinds := map[token.Type]bool{}
	for i := 0; ; i++ {
		if i > len(rs)+2 {
			v.fail("endless", "more tokens than characters for %s", desc())
			return false
		}
		if modes != "" {
			if modes[i%len(modes)] == 'r' {
				t.SetRawMode()
			} else {
				t.UnsetRawMode()
			}
		}
		tok := t.Next()
		n := len([]rune(tok.Origin))
		if tok.Type == token.EOFType {
			if !positions && (at != len(rs) || tok.Origin != "") {
				v.fail("lossless", "end of input reported after %d of %d characters of %s (tokens so far %q)", at, len(rs), desc(), sb.String())
				return false
			}
			if positions && at == len(rs) {
				want := pos[at]
				if tok.Start.Row != want.row || tok.Start.Column != want.col || tok.End != tok.Start {
					v.fail("position", "end of input of %s at %v..%v, want %v", desc(), tok.Start, tok.End, want)
					return false
				}
			}
			break
		}
		kinds[tok.Type] = true
		if n == 0 || tok.Type == token.UnknownType {
			if !positions {
				v.fail("lossless", "token %d of %s has type %v and text %q", i, desc(), tok.Type, tok.Origin)
			}
			return positions
		}
		sb.WriteString(tok.Origin)
		if at+n > len(rs) || string(rs[at:at+n]) != tok.Origin {
			if !positions {
				v.fail("lossless", "token %d of %s is %q, but the source continues with %q", i, desc(), tok.Origin, string(rs[at:]))
			}
			return positions
		}
		if positions {
			s, e := pos[at], pos[at+n-1]
			if tok.Start.Row != s.row || tok.Start.Column != s.col || tok.End.Row != e.row || tok.End.Column != e.col {
				v.fail("position", "token %d (%q) of %s at %d:%d..%d:%d, want %d:%d..%d:%d", i, tok.Origin, desc(), tok.Start.Row, tok.Start.Column, tok.End.Row, tok.End.Column, s.row, s.col, e.row, e.col)
				return false
			}
		}
		at += n
	}
	v.eval(src, len(kinds) > 2)
	return true
}

var lexPieces = []string{"a", "b1", "é", "日", "\U0001F600", " ", " ", "\t", "\n", "\n", "\r\n", "\r", "\n\r", "-", "- ", "---", "--- ", "---\n", "--", "...", "... ", "..", "?", "? ", ":", ": ", "[", "]", "{", "}", ",", "#", " #", "&", "*", "!", "!<", ">", "|", "|-", ">+", "|2", "'", "''", "\"", "\\\"", "\\", "\\ ", "\\n", "%", "%YAML", "@", "`", "\ufeff", "<<", "=", "~", "\u0085", "\u2028", "0", "\x00", "\x7f", "\ufffd"}

func lexRun(t *testing.T, positions bool) {
	v := verifStart(t, "source texts tokenized to the end of input, with raw mode switched on and off between tokens; non-trivial: at least three kinds of tokens;")
	alpha := []rune{'a', ' ', '\n', '\r', '-', '.', ':', '[', ']', '\'', '"', '\\', '#', '!', '|'}
	var rec func(p []rune, left int) bool
	rec = func(p []rune, left int) bool {
		if left == 0 {
			return lexOne(v, string(p), "", positions, false)
		}
		for _, c := range alpha {
			if !rec(append(p, c), left-1) {
				return false
			}
		}
		return true
	}
	v.guard("panic", "short texts", func() {
		for n := 0; n <= 4; n++ {
			if !rec(nil, n) {
				return
			}
		}
	})
	for v.more() && len(v.keys) == 0 {
		var sb strings.Builder
		n := 1 + v.rng.Intn(30)
		if v.rng.Intn(40) == 0 {
			n = 100 + v.rng.Intn(400)
		}
		k := 2 + v.rng.Intn(len(lexPieces)-2)
		sub := v.rng.Perm(len(lexPieces))[:k]
		for i := 0; i < n; i++ {
			sb.WriteString(lexPieces[sub[v.rng.Intn(k)]])
		}
		modes := ""
		if v.rng.Intn(2) == 0 {
			for i := 1 + v.rng.Intn(9); i > 0; i-- {
				modes += string("nr"[v.rng.Intn(2)])
			}
		}
		v.guard("panic", fmt.Sprintf("%q", sb.String()), func() { lexOne(v, sb.String(), modes, positions, v.rng.Intn(2) == 0) })
	}
}

func TestVerifLossless(t *testing.T)  { lexRun(t, false) }
func TestVerifPositions(t *testing.T) { lexRun(t, true) }
