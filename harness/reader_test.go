package decode_test

import (
	"testing"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/decode"
)

func yayNode(n *rnode) ast.Node {
	var c ast.Node
	switch n.kind {
	case '*':
		return ast.NewAliasNode(n.target.anchor)
	case 'n':
		c = ast.NewNullNode()
	case 't':
		if n.quoted {
			c = ast.NewTextNode(n.txt.text, ast.WithQuotingType(ast.DoubleQuotingType))
		} else {
			c = ast.NewTextNode(n.txt.text)
		}
	case 's':
		var ks []ast.Node
		for _, k := range n.kids {
			ks = append(ks, yayNode(k))
		}
		c = ast.NewSequenceNode(ks)
	case 'm':
		var ks []ast.Node
		for i := 0; i < len(n.kids); i += 2 {
			ks = append(ks, ast.NewMappingEntryNode(yayNode(n.kids[i]), yayNode(n.kids[i+1])))
		}
		c = ast.NewMappingNode(ks)
	}
	if n.anchor == "" && n.tag == "" {
		return c
	}
	var a, t ast.Node
	if n.anchor != "" {
		a = ast.NewAnchorNode(n.anchor)
	}
	if n.tag != "" {
		t = ast.NewTagNode(n.tag)
	}
	return ast.NewContentNode(ast.NewPropertiesNode(t, a), c)
}

func TestVerifReader(t *testing.T) {
	v := verifStart(t, "a walk of more than three calls, or one that ends in an error")
	runReader(v, 1, true, func(n *rnode, multi bool) yamly.Decoder {
		if multi {
			return decode.NewASTReader(yayNode(n), decode.WithMultipleDenyErrors())
		}
		return decode.NewASTReader(yayNode(n))
	})
}
