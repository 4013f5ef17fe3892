package github.com/KSpaceer/yamly/engines/yayamls/parser

trusted ParseBytes
  ensures [node] r1 == nil ==> r0 != nil && !is(r0, *ast.BasicNode) && ref(r0) != 0
  ensures [new] r1 == nil && is(r0, *ast.SequenceNode) ==> fresh(r0) && fresh(as(r0, *ast.SequenceNode).entries)
  ensures [new] r1 == nil && is(r0, *ast.MappingNode) ==> fresh(r0) && fresh(as(r0, *ast.MappingNode).entries)
  reason the parser is not under contract; a successful parse returns a freshly built tree (checked on concrete inputs)

// Tree builder of the yayamls engine: the tree built is the nesting of the calls.
package github.com/KSpaceer/yamly/engines/yayamls/encode

pred nodeOK(n ast.Node) bool = n != nil && !is(n, *ast.BasicNode) && (box(n) || is(n, *ast.MappingEntryNode) ==> ref(n) != 0)
// the arrays of the open containers and of the route itself do not overlap
pred held(n ast.Node) bool = nodeOK(n) && allocated(n) && (box(n) ==> allocated(kids(n)))
pred apart(x []ast.Node, y []ast.Node) bool = arr(x) != arr(y) || cap(x) == 0 || cap(y) == 0
pred kids(n ast.Node) []ast.Node = is(n, *ast.SequenceNode) ? as(n, *ast.SequenceNode).entries : as(n, *ast.MappingNode).entries
pred box(n ast.Node) bool = is(n, *ast.SequenceNode) || is(n, *ast.MappingNode)
pred routeOK(b *ASTBuilder) bool = (forall i :: 0 <= i && i < len(b.route) ==> held(b.route[i]) && (box(b.route[i]) ==> apart(kids(b.route[i]), b.route)))
| && (forall i :: forall j :: 0 <= i && i < j && j < len(b.route) && box(b.route[i]) && box(b.route[j]) ==> b.route[i] != b.route[j] && apart(kids(b.route[i]), kids(b.route[j])))
pred newNode(b *ASTBuilder, n ast.Node) bool = held(n) && (box(n) ==> apart(kids(n), b.route) && (forall i :: 0 <= i && i < len(b.route) && box(b.route[i]) ==> b.route[i] != n && apart(kids(n), kids(b.route[i]))))
pred top(b *ASTBuilder) ast.Node = len(b.route) > 0 ? b.route[len(b.route)-1] : nil
pred topSeq(b *ASTBuilder) bool = len(b.route) > 0 && is(top(b), *ast.SequenceNode)
pred topMap(b *ASTBuilder) bool = len(b.route) > 0 && is(top(b), *ast.MappingNode)
pred topEntry(b *ASTBuilder) bool = len(b.route) > 0 && is(top(b), *ast.MappingEntryNode)
pred sameSl(a []ast.Node, b []ast.Node) bool = len(a) == len(b) && arr(a) == arr(b) && off(a) == off(b)
pred sameRoute(b *ASTBuilder, k int) bool = len(b.route) >= k && (forall i :: 0 <= i && i < k ==> b.route[i] == old(b.route[i]))

// a failed builder changes nothing
pred frozen(b *ASTBuilder) bool = b.fatalError == old(b.fatalError) && b.root == old(b.root) && sameSl(b.route, old(b.route)) && sameRoute(b, old(len(b.route)))
| && (old(topSeq(b)) ==> sameSl(as(old(top(b)), *ast.SequenceNode).entries, old(as(top(b), *ast.SequenceNode).entries)))
| && (old(topMap(b)) ==> sameSl(as(old(top(b)), *ast.MappingNode).entries, old(as(top(b), *ast.MappingNode).entries)))
| && (old(topEntry(b)) ==> as(old(top(b)), *ast.MappingEntryNode).value == old(as(top(b), *ast.MappingEntryNode).value))
pred tail(b *ASTBuilder, k int, n ast.Node, push bool) bool = push ? (len(b.route) == k + 1 && b.route[k] == n) : len(b.route) == k
pred appended(es []ast.Node, k int) bool = len(es) == k + 1
// node n was put where the open node expects the next one
pred insRoot(b *ASTBuilder, n ast.Node) bool = b.root == n && len(b.route) == 1 && b.route[0] == n
pred insSeq(b *ASTBuilder, s *ast.SequenceNode, n ast.Node, push bool) bool = b.root == old(b.root) && sameRoute(b, old(len(b.route))) && tail(b, old(len(b.route)), n, push) && len(s.entries) == old(len(s.entries)) + 1 && s.entries[old(len(s.entries))] == n && (forall i :: 0 <= i && i < old(len(s.entries)) ==> s.entries[i] == old(s.entries[i]))
pred insMap(b *ASTBuilder, m *ast.MappingNode, n ast.Node, push bool) bool = b.root == old(b.root) && sameRoute(b, old(len(b.route))) && len(b.route) == old(len(b.route)) + (push ? 2 : 1) && (push ==> b.route[len(b.route)-1] == n) && len(m.entries) == old(len(m.entries)) + 1 && (forall i :: 0 <= i && i < old(len(m.entries)) ==> m.entries[i] == old(m.entries[i])) && newEntry(m.entries[old(len(m.entries))], n) && b.route[old(len(b.route))] == m.entries[old(len(m.entries))]
pred newEntry(e ast.Node, n ast.Node) bool = is(e, *ast.MappingEntryNode) && ref(e) != 0 && as(e, *ast.MappingEntryNode).key == n && as(e, *ast.MappingEntryNode).value == nil
pred insEntry(b *ASTBuilder, e *ast.MappingEntryNode, n ast.Node, push bool) bool = b.root == old(b.root) && sameRoute(b, old(len(b.route)) - 1) && tail(b, old(len(b.route)) - 1, n, push) && e.value == n && e.key == old(e.key)

pred ins(b *ASTBuilder) ast.Node = old(len(b.route)) == 0 ? b.root : old(topSeq(b)) ? lastOf(as(old(top(b)), *ast.SequenceNode).entries) : old(topMap(b)) ? as(lastOf(as(old(top(b)), *ast.MappingNode).entries), *ast.MappingEntryNode).key : as(old(top(b)), *ast.MappingEntryNode).value
pred lastOf(es []ast.Node) ast.Node = es[len(es)-1]
pred accepts(b *ASTBuilder) bool = b.fatalError == nil && (len(b.route) == 0 || topSeq(b) || topMap(b) || topEntry(b))
pred placed(b *ASTBuilder, n ast.Node, push bool) bool = (old(len(b.route)) == 0 ==> insRoot(b, n)) && (old(topSeq(b)) ==> insSeq(b, as(old(top(b)), *ast.SequenceNode), n, push)) && (old(topMap(b)) ==> insMap(b, as(old(top(b)), *ast.MappingNode), n, push)) && (old(topEntry(b)) ==> insEntry(b, as(old(top(b)), *ast.MappingEntryNode), n, push))
pred textN(n ast.Node, s string, q ast.QuotingType) bool = is(n, *ast.TextNode) && as(n, *ast.TextNode).text == s && as(n, *ast.TextNode).quotingType == q

func (*ASTBuilder).insertNode
  property C10
  requires [route] routeOK(b)
  requires [node] b.fatalError == nil ==> newNode(b, n)
  modifies b.fatalError, b.root, b.route, elems(b.route), as(top(b), *ast.SequenceNode).entries, elems(as(top(b), *ast.SequenceNode).entries), as(top(b), *ast.MappingNode).entries, elems(as(top(b), *ast.MappingNode).entries), as(top(b), *ast.MappingEntryNode).value
  ensures [route] routeOK(b)
  ensures [sticky] old(b.fatalError) != nil ==> frozen(b)
  ensures [reject] old(b.fatalError) == nil && !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)
  ensures [accept] old(accepts(b)) ==> b.fatalError == nil
  ensures [place] old(accepts(b)) ==> placed(b, n, pushToRoute)

default (*ASTBuilder) Insert*
  property C10
  option unroll=3
  requires [route] routeOK(b)
  modifies b.fatalError, b.root, b.route, elems(b.route), as(top(b), *ast.SequenceNode).entries, elems(as(top(b), *ast.SequenceNode).entries), as(top(b), *ast.MappingNode).entries, elems(as(top(b), *ast.MappingNode).entries), as(top(b), *ast.MappingEntryNode).value
  ensures [route] routeOK(b)
  ensures [sticky] old(b.fatalError) != nil ==> frozen(b)

func (*ASTBuilder).InsertInteger
  extends (*ASTBuilder) Insert*
  ensures [place] old(accepts(b)) ==> b.fatalError == nil && placed(b, ins(b), false) && textN(ins(b), schema.FromInteger(val), ast.AbsentQuotingType)
  ensures [reject] !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

func (*ASTBuilder).InsertUnsigned
  extends (*ASTBuilder) Insert*
  ensures [place] old(accepts(b)) ==> b.fatalError == nil && placed(b, ins(b), false) && textN(ins(b), schema.FromUnsignedInteger(val), ast.AbsentQuotingType)
  ensures [reject] !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

func (*ASTBuilder).InsertBoolean
  extends (*ASTBuilder) Insert*
  ensures [place] old(accepts(b)) ==> b.fatalError == nil && placed(b, ins(b), false) && textN(ins(b), schema.FromBoolean(val), ast.AbsentQuotingType)
  ensures [reject] !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

func (*ASTBuilder).InsertFloat
  extends (*ASTBuilder) Insert*
  ensures [place] old(accepts(b)) ==> b.fatalError == nil && placed(b, ins(b), false) && textN(ins(b), schema.FromFloat(val), ast.AbsentQuotingType)
  ensures [reject] !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

func (*ASTBuilder).InsertTimestamp
  extends (*ASTBuilder) Insert*
  ensures [place] old(accepts(b)) ==> b.fatalError == nil && placed(b, ins(b), false) && textN(ins(b), schema.FromTimestamp(val), ast.DoubleQuotingType)
  ensures [reject] !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

func (*ASTBuilder).InsertString
  extends (*ASTBuilder) Insert*
  ensures [place] old(accepts(b)) ==> b.fatalError == nil && placed(b, ins(b), false) && textN(ins(b), val, b.opts.unquoteOneliners && !isMultiline(val) ? ast.AbsentQuotingType : ast.DoubleQuotingType)
  ensures [reject] !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

func (*ASTBuilder).InsertNull
  extends (*ASTBuilder) Insert*
  ensures [place] old(accepts(b)) ==> b.fatalError == nil && placed(b, ins(b), false) && is(ins(b), *ast.NullNode)
  ensures [reject] !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

func (*ASTBuilder).InsertRaw
  extends (*ASTBuilder) Insert*
  ensures [given] old(b.fatalError) == nil && err != nil ==> b.fatalError == err && b.root == old(b.root)
  ensures [place] old(accepts(b)) && b.fatalError == nil ==> placed(b, ins(b), false)
  ensures [reject] !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

func (*ASTBuilder).InsertRawText
  extends (*ASTBuilder) Insert*
  ensures [given] old(b.fatalError) == nil && err != nil ==> b.fatalError == err && b.root == old(b.root)
  ensures [place] old(accepts(b)) && err == nil ==> b.fatalError == nil && placed(b, ins(b), false) && is(ins(b), *ast.TextNode) && as(ins(b), *ast.TextNode).text == string(text)
  ensures [reject] err == nil && !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)

default (*ASTBuilder) Start*
  property C10
  requires [route] routeOK(b)
  modifies b.fatalError, b.root, b.route, elems(b.route), as(top(b), *ast.SequenceNode).entries, elems(as(top(b), *ast.SequenceNode).entries), as(top(b), *ast.MappingNode).entries, elems(as(top(b), *ast.MappingNode).entries), as(top(b), *ast.MappingEntryNode).value
  ensures [route] routeOK(b)
  ensures [sticky] old(b.fatalError) != nil ==> frozen(b)
  ensures [reject] !old(accepts(b)) ==> b.fatalError != nil && b.root == old(b.root)
  ensures [place] old(accepts(b)) ==> b.fatalError == nil && placed(b, ins(b), true)

func (*ASTBuilder).StartSequence
  extends (*ASTBuilder) Start*
  ensures [kind] old(accepts(b)) ==> is(ins(b), *ast.SequenceNode) && len(as(ins(b), *ast.SequenceNode).entries) == 0

func (*ASTBuilder).StartMapping
  extends (*ASTBuilder) Start*
  ensures [kind] old(accepts(b)) ==> is(ins(b), *ast.MappingNode) && len(as(ins(b), *ast.MappingNode).entries) == 0

default (*ASTBuilder) End*
  property C10
  requires [route] routeOK(b)
  modifies b.fatalError, b.route
  ensures [route] routeOK(b)
  ensures [sticky] old(b.fatalError) != nil ==> frozen(b)
  ensures [close] b.fatalError == nil ==> len(b.route) == old(len(b.route)) - 1 && sameRoute(b, len(b.route))

func (*ASTBuilder).EndSequence
  extends (*ASTBuilder) End*
  ensures [match] old(b.fatalError) == nil ==> (b.fatalError == nil <==> old(topSeq(b)))

func (*ASTBuilder).EndMapping
  extends (*ASTBuilder) End*
  ensures [match] old(b.fatalError) == nil ==> (b.fatalError == nil <==> old(topMap(b)))

func (*ASTBuilder).Result
  property C10
  modifies b.root, b.route, b.fatalError
  ensures [result] r0 == old(b.root) && r1 == old(b.fatalError)
  ensures [reset] len(b.route) == 0 && b.fatalError == nil && b.root == nil && routeOK(b)

func NewASTBuilder
  property C10
  ensures [empty] len(result.route) == 0 && result.fatalError == nil && result.root == nil && routeOK(result)
