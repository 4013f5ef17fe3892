package gopkg.in/yaml.v3

trusted Unmarshal
  modifies *as(out, *Node)
  ensures [doc] err == nil && as(out, *Node).Kind == DocumentNode ==> len(as(out, *Node).Content) > 0 && as(out, *Node).Content[0] != nil && fresh(as(out, *Node).Content[0]) && fresh(as(out, *Node).Content[0].Content)
  ensures [bare] err == nil && as(out, *Node).Kind != DocumentNode ==> len(as(out, *Node).Content) == 0 && cap(as(out, *Node).Content) == 0
  reason yaml.Unmarshal into a Node builds a fresh document node holding one child, or leaves the node without content (empty input)

// Tree builder of the goyaml engine: the tree built is the nesting of the calls.
package github.com/KSpaceer/yamly/engines/goyaml/encode

pred gapart(x []*yaml.Node, y []*yaml.Node) bool = arr(x) != arr(y) || cap(x) == 0 || cap(y) == 0
pred gheld(n *yaml.Node) bool = n != nil && allocated(n) && allocated(n.Content)
pred grouteOK(b *ASTBuilder) bool = (forall i :: 0 <= i && i < len(b.route) ==> gheld(b.route[i]) && gapart(b.route[i].Content, b.route))
| && (forall i :: forall j :: 0 <= i && i < j && j < len(b.route) ==> b.route[i] != b.route[j] && gapart(b.route[i].Content, b.route[j].Content))
pred gnew(b *ASTBuilder, n *yaml.Node) bool = gheld(n) && gapart(n.Content, b.route) && (forall i :: 0 <= i && i < len(b.route) ==> b.route[i] != n && gapart(n.Content, b.route[i].Content))
pred gtop(b *ASTBuilder) *yaml.Node = len(b.route) > 0 ? b.route[len(b.route)-1] : nil
pred gtopKind(b *ASTBuilder, k yaml.Kind) bool = len(b.route) > 0 && gtop(b).Kind == k
pred gsameSl(a []*yaml.Node, b []*yaml.Node) bool = len(a) == len(b) && arr(a) == arr(b) && off(a) == off(b)
pred gsameRoute(b *ASTBuilder, k int) bool = len(b.route) >= k && (forall i :: 0 <= i && i < k ==> b.route[i] == old(b.route[i]))
// a failed builder changes nothing
pred gfrozen(b *ASTBuilder) bool = b.fatalError == old(b.fatalError) && b.root == old(b.root) && gsameSl(b.route, old(b.route)) && gsameRoute(b, old(len(b.route))) && (old(len(b.route)) > 0 ==> gsameSl(old(gtop(b)).Content, old(gtop(b).Content)))
pred gopen(b *ASTBuilder) bool = gtopKind(b, yaml.MappingNode) || gtopKind(b, yaml.SequenceNode)
pred gaccepts(b *ASTBuilder) bool = b.fatalError == nil && (len(b.route) == 0 || gopen(b))
pred gplaced(b *ASTBuilder, n *yaml.Node, push bool) bool = old(len(b.route)) == 0 ? (b.root == n && len(b.route) == 1 && b.route[0] == n) : (b.root == old(b.root) && gsameRoute(b, old(len(b.route))) && (push ? (len(b.route) == old(len(b.route)) + 1 && b.route[old(len(b.route))] == n) : len(b.route) == old(len(b.route))) && gappended(old(gtop(b)), n))
pred gappended(p *yaml.Node, n *yaml.Node) bool = len(p.Content) == old(len(p.Content)) + 1 && p.Content[old(len(p.Content))] == n && (forall i :: 0 <= i && i < old(len(p.Content)) ==> p.Content[i] == old(p.Content[i])) && p.Kind == old(p.Kind)
pred gins(b *ASTBuilder) *yaml.Node = old(len(b.route)) == 0 ? b.root : old(gtop(b)).Content[len(old(gtop(b)).Content)-1]
pred gtext(n *yaml.Node, s string, st yaml.Style) bool = n.Kind == yaml.ScalarNode && n.Value == s && n.Style == st && n.Tag == ""

template gbuilder
  property C11
  requires [route] grouteOK(b)
  modifies b.fatalError, b.root, b.route, elems(b.route), gtop(b).Content, elems(gtop(b).Content)
  ensures [route] grouteOK(b)
  ensures [sticky] old(b.fatalError) != nil ==> gfrozen(b)

func (*ASTBuilder).insertNode
  extends gbuilder
  requires [node] b.fatalError == nil ==> gnew(b, n)
  ensures [reject] old(b.fatalError) == nil && !old(gaccepts(b)) ==> b.fatalError != nil && b.root == old(b.root)
  ensures [accept] old(gaccepts(b)) ==> b.fatalError == nil
  ensures [place] old(gaccepts(b)) ==> gplaced(b, n, pushToRoute)

template gscalar
  property C11
  requires [route] grouteOK(b)
  modifies b.fatalError, b.root, b.route, elems(b.route), gtop(b).Content, elems(gtop(b).Content)
  ensures [route] grouteOK(b)
  ensures [sticky] old(b.fatalError) != nil ==> gfrozen(b)
  ensures [reject] !old(gaccepts(b)) ==> b.fatalError != nil && b.root == old(b.root)
  ensures [place] old(gaccepts(b)) ==> b.fatalError == nil && gplaced(b, gins(b), false)

func (*ASTBuilder).InsertInteger
  extends gscalar
  ensures [value] old(gaccepts(b)) ==> gtext(gins(b), schema.FromInteger(val), 0)

func (*ASTBuilder).InsertUnsigned
  extends gscalar
  ensures [value] old(gaccepts(b)) ==> gtext(gins(b), schema.FromUnsignedInteger(val), 0)

func (*ASTBuilder).InsertBoolean
  extends gscalar
  ensures [value] old(gaccepts(b)) ==> gtext(gins(b), schema.FromBoolean(val), 0)

func (*ASTBuilder).InsertFloat
  extends gscalar
  ensures [value] old(gaccepts(b)) ==> gtext(gins(b), schema.FromFloat(val), 0)

func (*ASTBuilder).InsertTimestamp
  extends gscalar
  ensures [value] old(gaccepts(b)) ==> gtext(gins(b), schema.FromTimestamp(val), yaml.DoubleQuotedStyle)

func (*ASTBuilder).InsertString
  extends gscalar
  ensures [value] old(gaccepts(b)) ==> gtext(gins(b), val, b.opts.unquoteOneliners && !isMultiline(val) ? 0 : yaml.DoubleQuotedStyle)

func (*ASTBuilder).InsertNull
  extends gscalar
  ensures [value] old(gaccepts(b)) ==> gins(b).Kind == yaml.ScalarNode && gins(b).Tag == "!!null"

func (*ASTBuilder).InsertRawText
  extends gbuilder
  ensures [given] old(b.fatalError) == nil && err != nil ==> b.fatalError == err && b.root == old(b.root)
  ensures [place] old(gaccepts(b)) && err == nil ==> b.fatalError == nil && gplaced(b, gins(b), false)
  ensures [value] old(gaccepts(b)) && err == nil ==> gins(b).Kind == yaml.ScalarNode && gins(b).Value == string(data)
  ensures [reject] err == nil && !old(gaccepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

func (*ASTBuilder).InsertRaw
  extends gbuilder
  ensures [given] old(b.fatalError) == nil && err != nil ==> b.fatalError == err && b.root == old(b.root)
  ensures [place] old(gaccepts(b)) && b.fatalError == nil ==> gplaced(b, gins(b), false)
  ensures [reject] !old(gaccepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

template gstart
  property C11
  requires [route] grouteOK(b)
  modifies b.fatalError, b.root, b.route, elems(b.route), gtop(b).Content, elems(gtop(b).Content)
  ensures [route] grouteOK(b)
  ensures [sticky] old(b.fatalError) != nil ==> gfrozen(b)
  ensures [reject] !old(gaccepts(b)) ==> b.fatalError != nil && b.root == old(b.root)
  ensures [place] old(gaccepts(b)) ==> b.fatalError == nil && gplaced(b, gins(b), true)

func (*ASTBuilder).StartSequence
  extends gstart
  ensures [kind] old(gaccepts(b)) ==> gins(b).Kind == yaml.SequenceNode && len(gins(b).Content) == 0

func (*ASTBuilder).StartMapping
  extends gstart
  ensures [kind] old(gaccepts(b)) ==> gins(b).Kind == yaml.MappingNode && len(gins(b).Content) == 0

template gend
  property C11
  requires [route] grouteOK(b)
  modifies b.fatalError, b.route
  ensures [route] grouteOK(b)
  ensures [sticky] old(b.fatalError) != nil ==> gfrozen(b)
  ensures [close] b.fatalError == nil ==> len(b.route) == old(len(b.route)) - 1 && gsameRoute(b, len(b.route))

func (*ASTBuilder).EndSequence
  extends gend
  ensures [match] old(b.fatalError) == nil ==> (b.fatalError == nil <==> old(gtopKind(b, yaml.SequenceNode)))

func (*ASTBuilder).EndMapping
  extends gend
  ensures [match] old(b.fatalError) == nil ==> (b.fatalError == nil <==> old(gtopKind(b, yaml.MappingNode) && len(gtop(b).Content) % 2 == 0))

func (*ASTBuilder).Result
  property C11
  modifies b.root, b.route, b.fatalError
  ensures [result] r0 == old(b.root) && r1 == old(b.fatalError)
  ensures [reset] len(b.route) == 0 && b.fatalError == nil && b.root == nil && grouteOK(b)

func NewASTBuilder
  property C11
  ensures [empty] len(result.route) == 0 && result.fatalError == nil && result.root == nil && grouteOK(result)
