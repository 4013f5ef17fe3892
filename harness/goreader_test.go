package decode_test

import (
	"testing"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/goyaml/decode"
	"gopkg.in/yaml.v3"
)

func goNode(n *rnode, made map[*rnode]*yaml.Node) *yaml.Node {
	r := &yaml.Node{Anchor: n.anchor}
	switch n.kind {
	case '*':
		return &yaml.Node{Kind: yaml.AliasNode, Value: n.target.anchor, Alias: made[n.target]}
	case 'n':
		r.Kind, r.Tag, r.Value = yaml.ScalarNode, "!!null", "null"
	case 't':
		r.Kind, r.Value = yaml.ScalarNode, n.txt.text
		if n.tag != "" {
			r.Tag = n.tag
			r.Style = yaml.TaggedStyle
		}
		if n.quoted {
			r.Style |= yaml.DoubleQuotedStyle
			r.Tag = "!!str"
		}
	case 's':
		r.Kind = yaml.SequenceNode
	case 'm':
		r.Kind = yaml.MappingNode
	}
	for _, k := range n.kids {
		r.Content = append(r.Content, goNode(k, made))
	}
	made[n] = r
	return r
}

func TestVerifGoReader(t *testing.T) {
	v := verifStart(t, "a walk of more than three calls, or one that ends in an error")
	runReader(v, 2, true, func(n *rnode, multi bool) yamly.Decoder {
		root := goNode(n, map[*rnode]*yaml.Node{})
		if v.rng.Intn(2) == 0 {
			root = &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{root}}
		}
		if multi {
			return decode.NewASTReader(root, decode.WithMultipleDenyErrors())
		}
		return decode.NewASTReader(root)
	})
}
