package parser

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
)

// recorded token stream
type pvRec struct {
	in   ConfigurableTokenStream
	toks []token.Token
}

func (r *pvRec) Next() token.Token {
	t := r.in.Next()
	r.toks = append(r.toks, t)
	return t
}
func (r *pvRec) SetRawMode()   { r.in.SetRawMode() }
func (r *pvRec) UnsetRawMode() { r.in.UnsetRawMode() }

var pvFragments = []string{"a", "b c", "- ", "-", "? ", ": ", ":", "\n", "\n", "\n  ", "\n    ", " ", "  ", "\t", "[", "]", "{", "}", ",", ", ", "\"", "\"x y\"", "'", "'it''s'", "|\n", ">\n", "|2-\n", ">+\n", "# c", " #", "&a ", "*a", "!!str ", "!t ", "! ", "---", "---\n", "...\n", "%YAML 1.2\n", "%X y\n", "\\n", "\\", "\ufeff", "key: ", "\n- ", "\n  - ", "x: y\n", "1", "null", "~", "[a, b]", "{a: b}", "\r\n", "\n\n", "\n \n"}

func pvInput(v *verifRun) string {
	n := 1 + v.rng.Intn(14)
	s := ""
	for i := 0; i < n; i++ {
		s += pvFragments[v.rng.Intn(len(pvFragments))]
	}
	return s
}

func pvIsLineStart(toks []token.Token, n int) bool {
	for n > 1 && toks[n-2].Type == token.BOMType {
		n--
	}
	return n <= 1 || toks[n-2].Type == token.LineBreakType
}

func TestVerifParserState(t *testing.T) {
	v := verifStart(t, "random texts over YAML fragments (up to 14 pieces); after each parse: no checkpoint left, current token, line start and pending brackets those of the position in the token sequence, pooled buffers empty")
	for v.more() {
		src := pvInput(v)
		rec := &pvRec{in: lexer.NewTokenizer(src)}
		p := newParser(newTokenSource(rec))
		done := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Sprintf("panic: %v", r)
				}
			}()
			p.Parse()
			done <- ""
		}()
		select {
		case msg := <-done:
			if msg != "" {
				v.fail("panic", "%s on %q", msg, src)
				continue
			}
		case <-time.After(5 * time.Second):
			return // running time is not part of the property
		}
		if len(p.savedStates) != 0 {
			v.fail("checkpoints", "%d checkpoints left after parsing %q", len(p.savedStates), src)
			continue
		}
		// where does the parser stand?
		tok, line := p.tok, p.startOfLine
		balanced := p.balanceChecker.IsBalanced()
		have := len(rec.toks)
		k := 0
		for len(rec.toks) == have && k <= have+1 {
			p.tokSrc.Next()
			k++
		}
		at := have - (k - 1)
		v.eval(src, at > 2)
		if at < 1 || at > have || tok.Type != rec.toks[at-1].Type || tok.Origin != rec.toks[at-1].Origin || tok.Start != rec.toks[at-1].Start {
			v.fail("token", "after parsing %q the current token is %v %q, but %d of the %d delivered tokens are read", src, tok.Type, tok.Origin, at, have)
			continue
		}
		if line != pvIsLineStart(rec.toks, at) {
			v.fail("line-start", "after parsing %q (current token %q at %v) the parser takes the line start as %v", src, tok.Origin, tok.Start, line)
		}
		var st []token.Type
		dead := false
		for _, x := range rec.toks[:at] {
			if dead {
				break
			}
			switch x.Type {
			case token.SequenceStartType, token.MappingStartType:
				st = append(st, x.Type)
			case token.SequenceEndType, token.MappingEndType:
				want := token.SequenceStartType
				if x.Type == token.MappingEndType {
					want = token.MappingStartType
				}
				if len(st) > 0 && st[len(st)-1] == want {
					st = st[:len(st)-1]
				} else {
					dead = true
				}
			}
		}
		if balanced != (!dead && len(st) == 0) {
			v.fail("brackets", "after parsing %q (current token %q at %v) the brackets count as balanced: %v", src, tok.Origin, tok.Start, balanced)
		}
		var got []*bytes.Buffer
		for i := 0; i < 4; i++ {
			b := bufsPool.Get().(*bytes.Buffer)
			if b.Len() != 0 {
				v.fail("buffers", "after parsing %q a pooled buffer holds %q", src, b.String())
				b.Reset()
			}
			got = append(got, b)
		}
		for _, b := range got {
			bufsPool.Put(b)
		}
	}
}
