package encode_test

import (
	"testing"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/encode"
)

type yayBuilder struct{ *encode.ASTBuilder }

func yayTree(n ast.Node) *bnode {
	switch n := n.(type) {
	case nil:
		return nil
	case *ast.TextNode:
		q := ""
		switch n.QuotingType() {
		case ast.DoubleQuotingType:
			q = "dq"
		case ast.SingleQuotingType:
			q = "sq"
		}
		return &bnode{kind: 't', text: n.Text(), quot: q}
	case *ast.NullNode:
		return &bnode{kind: 'n'}
	case *ast.SequenceNode:
		r := &bnode{kind: 's'}
		for _, e := range n.Entries() {
			r.kids = append(r.kids, yayTree(e))
		}
		return r
	case *ast.MappingNode:
		r := &bnode{kind: 'm'}
		for _, e := range n.Entries() {
			e, ok := e.(*ast.MappingEntryNode)
			if !ok {
				return &bnode{kind: '?', text: "entry"}
			}
			r.kids = append(r.kids, yayTree(e.Key()))
			if e.Value() != nil {
				r.kids = append(r.kids, yayTree(e.Value()))
			}
		}
		return r
	}
	return &bnode{kind: '?', text: n.Type().String()}
}

func (b yayBuilder) finish() (*bnode, error) {
	n, err := b.Result()
	return yayTree(n), err
}

func TestVerifBuilder(t *testing.T) {
	v := verifStart(t, "a history with an end call or an error")
	runBuilder(v, func(unq bool) bbuilder {
		if unq {
			return yayBuilder{encode.NewASTBuilder(encode.WithUnquotedOneLineStrings())}
		}
		return yayBuilder{encode.NewASTBuilder()}
	})
}
