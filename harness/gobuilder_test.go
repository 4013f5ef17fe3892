package encode_test

import (
	"testing"

	"github.com/KSpaceer/yamly/engines/goyaml/encode"
	"gopkg.in/yaml.v3"
)

type goBuilder struct{ *encode.ASTBuilder }

func goTree(n *yaml.Node) *bnode {
	if n == nil {
		return nil
	}
	r := &bnode{}
	switch n.Kind {
	case yaml.ScalarNode:
		if n.Tag == "!!null" {
			return &bnode{kind: 'n'}
		}
		r.kind, r.text = 't', n.Value
		if n.Style&yaml.DoubleQuotedStyle != 0 {
			r.quot = "dq"
		}
	case yaml.SequenceNode:
		r.kind = 's'
	case yaml.MappingNode:
		r.kind = 'm'
	default:
		r.kind = '?'
	}
	for _, c := range n.Content {
		r.kids = append(r.kids, goTree(c))
	}
	return r
}

func (b goBuilder) finish() (*bnode, error) {
	n, err := b.Result()
	return goTree(n), err
}

func TestVerifGoBuilder(t *testing.T) {
	v := verifStart(t, "a history with an end call or an error")
	runBuilder(v, func(unq bool) bbuilder {
		if unq {
			return goBuilder{encode.NewASTBuilder(encode.WithUnquotedOneLineStrings())}
		}
		return goBuilder{encode.NewASTBuilder()}
	})
}
