package parser_test

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
)

type poRec struct {
	in   parser.ConfigurableTokenStream
	toks []token.Token
}

func (r *poRec) Next() token.Token {
	t := r.in.Next()
	r.toks = append(r.toks, t)
	return t
}
func (r *poRec) SetRawMode()   { r.in.SetRawMode() }
func (r *poRec) UnsetRawMode() { r.in.UnsetRawMode() }

var poFragments = []string{"a", "b c", "- ", "-", "? ", ": ", ":", "\n", "\n", "\n  ", "\n    ", " ", "  ", "[", "[", "]", "]", "{", "{", "}", "}", ",", ", ", "\"", "\"x y\"", "'", "'it''s'", "|\n", ">\n", "|2-\n", ">+\n", "# c", "&a ", "*a", "!!str ", "---\n", "...\n", "%YAML 1.2\n", "\\n", "key: ", "\n- ", "\n  - ", "x: y\n", "1", "[a, b]", "{a: b}", "\r\n", "\n\n"}

// poFlaw: what the delivered tokens say about the brackets.
func poFlaw(toks []token.Token) string {
	var st []token.Type
	for i, x := range toks {
		switch x.Type {
		case token.SequenceStartType, token.MappingStartType:
			st = append(st, x.Type)
		case token.SequenceEndType, token.MappingEndType:
			want := token.SequenceStartType
			if x.Type == token.MappingEndType {
				want = token.MappingStartType
			}
			if len(st) == 0 || st[len(st)-1] != want {
				return fmt.Sprintf("token %d (%q at %v) closes nothing", i, x.Origin, x.Start)
			}
			st = st[:len(st)-1]
		case token.EOFType:
			if len(st) > 0 {
				return fmt.Sprintf("%d brackets are open at the end of the input", len(st))
			}
		}
	}
	return ""
}

func TestVerifParserOutcome(t *testing.T) {
	v := verifStart(t, "random texts over YAML fragments (up to 14 pieces), parsed twice: no error means that the delivered tokens are balanced; the same text gives the same tree")
	parse := func(src string) (n ast.Node, err error, rec *poRec, msg string) {
		rec = &poRec{in: lexer.NewTokenizer(src)}
		done := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Sprintf("panic: %v", r)
				}
			}()
			n, err = parser.Parse(rec)
			done <- ""
		}()
		select {
		case msg = <-done:
		case <-time.After(5 * time.Second):
			msg = "timeout"
		}
		return
	}
	for v.more() {
		n := 1 + v.rng.Intn(14)
		src := ""
		for i := 0; i < n; i++ {
			src += poFragments[v.rng.Intn(len(poFragments))]
		}
		tree, err, rec, msg := parse(src)
		if msg == "timeout" {
			return // running time is not part of the property
		}
		if msg != "" {
			v.fail("panic", "%s on %q", msg, src)
			continue
		}
		v.eval(src, len(rec.toks) > 2)
		if flaw := poFlaw(rec.toks); flaw != "" && err == nil {
			v.fail("unreported", "no error for %q although %s", src, flaw)
		}
		tree2, err2, _, msg := parse(src)
		if msg == "timeout" {
			return
		}
		if (err == nil) != (err2 == nil) || !reflect.DeepEqual(tree, tree2) {
			v.fail("same-text", "parsing %q twice gives different results", src)
		}
	}
}
