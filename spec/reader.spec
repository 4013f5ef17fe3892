// Typed reads of the yayamls reader.
package errors

trusted Is
  pure
  ensures [deny] is(err, *yamly.denyError) ==> result
  ensures [other] is(err, yayamls_decode.AliasDereferenceError) || is(err, goyaml_decode.AliasDereferenceError) || err == nil || err == yamly.ErrEndOfStream ==> !result
  reason errors.Is(err, yamly.ErrDenied): true for errors built by yamly.DenyError, false for nil, ErrEndOfStream and alias errors (documented behaviour, no wrapping)

trusted Join
  ensures [nil] result == nil <==> (forall i :: 0 <= i && i < len(errs) ==> errs[i] == nil)
  reason documented: Join returns nil if every value in errs is nil

package github.com/KSpaceer/yamly/engines/pkg/schema

pred intText(s string) bool = IsInteger(s)
pred boolText(s string) bool = IsBoolean(s)
pred floatText(s string) bool = IsFloat(s)
ghost timeText(s string) bool

func IsTimestamp
  property C12 C13 C14
  pure
  defines result <==> timeText(s)
  ensures [yes@C14] result ==> (exists k :: 0 <= k && k < len(timestampLayouts) && reads(s, k))
  ensures [no@C14] !result ==> (forall k :: 0 <= k && k < len(timestampLayouts) ==> !reads(s, k))
  invariant 1 forall k :: 0 <= k && k <= $i ==> !reads(s, k)

package github.com/KSpaceer/yamly/engines/yayamls/ast

// holds for the texts of text nodes and is otherwise arbitrary: a value for which it holds cannot be a left-over
ghost nodeText(s string) bool

trusted (*TextNode).Text
  pure
  ensures [text] result == t.text
  ensures [some] nodeText(result)
  reason defines nodeText, an otherwise arbitrary set of strings that holds the text of every text node

trusted (*BasicNode).Accept
  ensures false
  reason trees handed to a reader hold no parser-internal nodes (BasicNode, IndentNode, BlockHeaderNode)

trusted (*IndentNode).Accept
  ensures false
  reason trees handed to a reader hold no parser-internal nodes (BasicNode, IndentNode, BlockHeaderNode)

trusted (*BlockHeaderNode).Accept
  ensures false
  reason trees handed to a reader hold no parser-internal nodes (BasicNode, IndentNode, BlockHeaderNode)

package github.com/KSpaceer/yamly/engines/yayamls/decode

pred scalarExp(e expecter) bool = is(e, expectInteger) || is(e, expectBoolean) || is(e, expectFloat) || is(e, expectString) || is(e, expectTimestamp)
pred fits(e expecter, s string) bool = (is(e, expectInteger) ==> intText(s)) && (is(e, expectBoolean) ==> boolText(s)) && (is(e, expectFloat) ==> floatText(s)) && (is(e, expectTimestamp) ==> timeText(s))
pred internalNode(n ast.Node) bool = is(n, *ast.BasicNode) || is(n, *ast.IndentNode) || is(n, *ast.BlockHeaderNode)

pred open(v visitingResult) bool = v.conclusion == visitingConclusionUnknown || v.conclusion == visitingConclusionDeny

template process
  property C12
  pure
  requires [node] n != nil && !internalNode(n)
  ensures [scalar] result.action == visitingActionExtract ==> result.conclusion == visitingConclusionConsume && is(n, *ast.TextNode)
  ensures [known] result.conclusion == visitingConclusionConsume || result.conclusion == visitingConclusionDeny || result.conclusion == visitingConclusionContinue
  ensures [extract] result.conclusion == visitingConclusionConsume ==> result.action == visitingActionExtract
  ensures [pass] (is(n, *ast.TagNode) || is(n, *ast.AnchorNode) || is(n, *ast.ContentNode) || is(n, *ast.PropertiesNode) || is(n, *ast.StreamNode) || is(n, *ast.MappingEntryNode)) ==> result.conclusion == visitingConclusionContinue
  ensures [settles] (is(n, *ast.TextNode) || is(n, *ast.NullNode)) && open(arg2) ==> result.conclusion != visitingConclusionContinue

func expectInteger.process
  extends process
  ensures [fits] result.action == visitingActionExtract ==> intText(as(n, *ast.TextNode).text)

func expectBoolean.process
  extends process
  ensures [fits] result.action == visitingActionExtract ==> boolText(as(n, *ast.TextNode).text)

func expectFloat.process
  extends process
  ensures [fits] result.action == visitingActionExtract ==> floatText(as(n, *ast.TextNode).text)

func expectTimestamp.process
  extends process
  ensures [fits] result.action == visitingActionExtract ==> timeText(as(n, *ast.TextNode).text)

func expectString.process
  extends process

template process0
  property C12
  pure
  requires [node] n != nil && !internalNode(n)
  ensures [known] visitingConclusionMatch <= result.conclusion && result.conclusion <= visitingConclusionContinue
  ensures [pass] is(n, *ast.TagNode) || is(n, *ast.AnchorNode) || is(n, *ast.ContentNode) || is(n, *ast.PropertiesNode) ==> result.conclusion == visitingConclusionContinue
  ensures [settles] (is(n, *ast.TextNode) || is(n, *ast.NullNode)) && open(arg2) ==> result.conclusion != visitingConclusionContinue

func expectNull.process
  extends process0
  ensures [null] result.conclusion == visitingConclusionConsume ==> nullNode(n)
  ensures [extract] result.action == visitingActionNothing
  ensures [nomatch] result.conclusion != visitingConclusionMatch

func expectSequence.process
  extends process0
  ensures [match] result.conclusion == visitingConclusionMatch <==> result.action == visitingActionExtract
  ensures [kind] result.conclusion == visitingConclusionMatch ==> is(n, *ast.SequenceNode)
  ensures [noconsume] result.conclusion != visitingConclusionConsume

func expectMapping.process
  extends process0
  ensures [match] result.conclusion == visitingConclusionMatch <==> result.action == visitingActionExtract
  ensures [kind] result.conclusion == visitingConclusionMatch ==> is(n, *ast.MappingNode)
  ensures [noconsume] result.conclusion != visitingConclusionConsume

func expectAny.process
  extends process0
  ensures [extract] result.action == visitingActionNothing
  ensures [match] result.conclusion == visitingConclusionMatch || result.conclusion == visitingConclusionContinue

func expectRaw.process
  extends process0
  ensures [extract] result.action == visitingActionNothing
  ensures [match] result.conclusion == visitingConclusionMatch || result.conclusion == visitingConclusionContinue

func expectSkip.process
  extends process0
  ensures [extract] result.action == visitingActionNothing
  ensures [consume] result.conclusion == visitingConclusionConsume || result.conclusion == visitingConclusionContinue

pred nullNode(n ast.Node) bool = is(n, *ast.NullNode) || (is(n, *ast.TextNode) && schema.IsNull(n))
pred complexNode(n ast.Node) bool = is(n, *ast.StreamNode) || is(n, *ast.SequenceNode) || is(n, *ast.MappingNode) || is(n, *ast.MappingEntryNode) || is(n, *ast.PropertiesNode) || is(n, *ast.ContentNode)
pred valueNode(n ast.Node) bool = n != nil && !internalNode(n) && !is(n, *ast.TagNode) && !is(n, *ast.AnchorNode)
// a place on the route that a read may start from
pred settled(p routePoint) bool = valueNode(p.node) && (!complexNode(p.node) ==> open(p.visitingResult)) && iterOK(p.iter) && (complexNode(p.node) && p.visitingResult.conclusion != visitingConclusionUnknown ==> p.iter != nil)
// the points above the last one are collections being walked
pred inner(p routePoint) bool = complexNode(p.node) && p.visitingResult.conclusion != visitingConclusionUnknown
pred routeFit(r *ASTReader, k int) bool = forall i :: 0 <= i && i < k ==> settled(r.route[i]) && (i < len(r.route) - 1 ==> inner(r.route[i]))
// after an error nothing is left to iterate over
pred walking(r *ASTReader) bool = r.fatalError == nil && r.lastVisitingResult.conclusion == visitingConclusionContinue ==> (forall i :: 0 <= i && i < len(r.route) ==> inner(r.route[i]))
pred ended(r *ASTReader) bool = r.fatalError != nil ==> (forall i :: 0 <= i && i < len(r.route) ==> drained(r.route[i].iter))
pred readable(r *ASTReader) bool = r.fatalError == nil ==> r.latestDenyError == nil && routeFit(r, len(r.route))
pred here(r *ASTReader) routePoint = r.route[len(r.route)-1]
pred visiting(r *ASTReader, n ast.Node) bool = r.latestDenyError == nil && len(r.route) > 0 && routeFit(r, len(r.route) - 1) && here(r).node == n && n != nil && iterOK(here(r).iter) && (is(n, *ast.TextNode) || is(n, *ast.NullNode) || is(n, *ast.AliasNode) ==> open(here(r).visitingResult)) && (complexNode(n) && here(r).visitingResult.conclusion != visitingConclusionUnknown ==> here(r).iter != nil) && ended(r) && (r.fatalError != nil ==> inner(here(r)))
pred passing(n ast.Node) bool = is(n, *ast.TagNode) || is(n, *ast.AnchorNode)
pred collExp(e expecter) bool = is(e, expectSequence) || is(e, expectMapping)
pred childCount(n ast.Node, k int) bool = (is(n, *ast.SequenceNode) ==> k == len(as(n, *ast.SequenceNode).entries)) && (is(n, *ast.MappingNode) ==> k == len(as(n, *ast.MappingNode).entries))
// the state handed out is that of the collection the reader now stands in
pred handed(r *ASTReader) bool = len(r.route) > 0 && is(r.extractedCollectionState, *collectionState) && ref(r.extractedCollectionState) != 0 && as(r.extractedCollectionState, *collectionState).nodeIterator == here(r).iter && (is(r.currentExpecter, expectSequence) ==> is(here(r).node, *ast.SequenceNode)) && (is(r.currentExpecter, expectMapping) ==> is(here(r).node, *ast.MappingNode)) && childCount(here(r).node, as(r.extractedCollectionState, *collectionState).size)
pred concl(r *ASTReader) visitingConclusion = r.lastVisitingResult.conclusion

trusted (*anchorsKeeper).DereferenceAlias
  pure
  ensures [node] r1 == nil ==> valueNode(r0)
  ensures [err] r1 != nil ==> is(r1, AliasDereferenceError)
  reason the nodes bound to anchors are the contents of content nodes, never tags, anchors or parser-internal nodes

func (*anchorsKeeper).BindNested
  property C12
  modifies entries(ak.anchors)

trusted (*collectionState).empty
  ensures false
  reason a collection state is handed to the caller, never used as the iterator of a route point (synthesised forwarding method)

trusted (*collectionState).node
  ensures false
  reason a collection state is handed to the caller, never used as the iterator of a route point (synthesised forwarding method)

trusted collectionState.empty
  ensures false
  reason a collection state is handed to the caller, never used as the iterator of a route point (synthesised forwarding method)

trusted collectionState.node
  ensures false
  reason a collection state is handed to the caller, never used as the iterator of a route point (synthesised forwarding method)

pred iterOK(n nodeIterator) bool = n == nil || (is(n, *nodeIteratorImpl) && ref(n) != 0 && allocated(n) && as(n, *nodeIteratorImpl).i >= 0)
pred drained(n nodeIterator) bool = is(n, *nodeIteratorImpl) ==> as(n, *nodeIteratorImpl).i >= len(as(n, *nodeIteratorImpl).nodes)
pred sameNodes(a []ast.Node, b []ast.Node) bool = len(a) == len(b) && arr(a) == arr(b) && off(a) == off(b)

func (*ASTReader).setFatalError
  property C12
  option weakframe
  requires [iters] forall i :: 0 <= i && i < len(r.route) ==> iterOK(r.route[i].iter)
  modifies r.fatalError, all(nodeIteratorImpl)
  ensures [set] r.fatalError == err
  ensures [drained] forall i :: 0 <= i && i < len(r.route) ==> drained(r.route[i].iter)
  ensures [on] forall x *nodeIteratorImpl :: x.i >= old(x.i) && sameNodes(x.nodes, old(x.nodes))
  invariant 1 forall i :: 0 <= i && i <= $i ==> drained(r.route[i].iter)
  invariant 1 forall x *nodeIteratorImpl :: x.i >= old(x.i) && sameNodes(x.nodes, old(x.nodes))
  invariant 2 forall x *nodeIteratorImpl :: x.i >= old(x.i) && sameNodes(x.nodes, old(x.nodes))
  invariant 2 forall i :: 0 <= i && i < $i ==> drained(r.route[i].iter)
  invariant 2 forall i :: 0 <= i && i < len(r.route) ==> iterOK(r.route[i].iter)
  invariant 1 forall i :: 0 <= i && i < len(r.route) ==> iterOK(r.route[i].iter)

func (*ASTReader).pushRoutePoint
  property C12
  modifies r.route, elems(r.route)
  ensures [len] len(r.route) == old(len(r.route)) + 1
  ensures [kept] forall i :: 0 <= i && i < old(len(r.route)) ==> r.route[i].node == old(r.route[i].node) && r.route[i].iter == old(r.route[i].iter) && r.route[i].visitingResult.conclusion == old(r.route[i].visitingResult.conclusion) && r.route[i].visitingResult.action == old(r.route[i].visitingResult.action)
  ensures [second] old(len(r.route)) > 0 ==> r.route[len(r.route)-2].node == old(here(r).node) && r.route[len(r.route)-2].iter == old(here(r).iter) && r.route[len(r.route)-2].visitingResult.conclusion == old(here(r).visitingResult.conclusion)
  ensures [top] here(r).node == point.node && here(r).iter == point.iter && here(r).visitingResult.conclusion == point.visitingResult.conclusion && here(r).visitingResult.action == point.visitingResult.action
  ensures [arrays] (arr(r.route) == old(arr(r.route)) && off(r.route) == old(off(r.route))) || fresh(r.route)

template visit
  property C12
  modifies r.route, elems(r.route), r.lastVisitingResult, r.extractedCollectionState, r.extractedValue, r.anchors.metAnchor, r.anchors.anchorName, entries(r.anchors.anchors), r.fatalError, r.latestDenyError, all(nodeIteratorImpl)
  ensures [sticky] old(r.fatalError) != nil ==> r.fatalError == old(r.fatalError)
  ensures [route] routeFit(r, len(r.route))
  ensures [ended] ended(r)
  ensures [walking] walking(r)
  ensures [arrays] (arr(r.route) == old(arr(r.route)) && off(r.route) == old(off(r.route))) || fresh(r.route)
  ensures [iters] forall x *nodeIteratorImpl :: old(allocated(x)) ==> x.i >= old(x.i) && sameNodes(x.nodes, old(x.nodes))
  ensures [done] r.fatalError != nil ==> (forall i :: 0 <= i && i < old(len(r.route)) && old(inner(r.route[i])) ==> drained(old(r.route[i].iter)))
  ensures [stay] r.fatalError == nil && concl(r) == visitingConclusionContinue ==> len(r.route) == old(len(r.route)) - 1 && (forall i :: 0 <= i && i < len(r.route) ==> r.route[i].iter == old(r.route[i].iter))
  ensures [deny] r.latestDenyError != nil ==> concl(r) == visitingConclusionDeny && is(r.latestDenyError, *yamly.denyError)
  ensures [denied] r.fatalError == nil && concl(r) == visitingConclusionDeny ==> r.latestDenyError != nil
  ensures [value] r.fatalError == nil && scalarExp(r.currentExpecter) && concl(r) == visitingConclusionConsume ==> fits(r.currentExpecter, r.extractedValue) && ast.nodeText(r.extractedValue)
  ensures [state] r.fatalError == nil && collExp(r.currentExpecter) && concl(r) == visitingConclusionMatch ==> handed(r)
  ensures [collkind] r.fatalError == nil && collExp(r.currentExpecter) ==> concl(r) == visitingConclusionMatch || concl(r) == visitingConclusionDeny || concl(r) == visitingConclusionContinue
  ensures [kind] r.fatalError == nil && scalarExp(r.currentExpecter) ==> concl(r) == visitingConclusionConsume || concl(r) == visitingConclusionDeny || concl(r) == visitingConclusionContinue

func (*ASTReader).VisitTextNode
  extends visit
  requires [at] visiting(r, n)
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue

func (*ASTReader).VisitTagNode
  extends visit
  requires [at] visiting(r, n)

func (*ASTReader).VisitAnchorNode
  extends visit
  requires [at] visiting(r, n)

func (*ASTReader).VisitNullNode
  extends visit
  requires [at] visiting(r, n)
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue

func (*ASTReader).VisitAliasNode
  extends visit
  requires [at] visiting(r, n)
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue

func (*ASTReader).VisitStreamNode
  extends visit
  requires [at] visiting(r, n)
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue

func (*ASTReader).VisitSequenceNode
  extends visit
  requires [at] visiting(r, n)
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue

func (*ASTReader).VisitMappingNode
  extends visit
  requires [at] visiting(r, n)
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue

func (*ASTReader).VisitMappingEntryNode
  extends visit
  requires [at] visiting(r, n)
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue

func (*ASTReader).VisitPropertiesNode
  extends visit
  requires [at] visiting(r, n)
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue

func (*ASTReader).VisitContentNode
  extends visit
  requires [at] visiting(r, n)
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue

func (*ASTReader).visitCurrentNode
  extends visit
  requires [at] r.latestDenyError == nil && routeFit(r, len(r.route)) && ended(r) && (r.fatalError != nil && len(r.route) > 0 ==> inner(here(r)))
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue

func (*ASTReader).processComplexPoint
  extends visit
  option weakframe
  opaque fits intText boolText floatText timeText
  requires [at] r.latestDenyError == nil && len(r.route) > 0 && routeFit(r, len(r.route) - 1) && complexNode(point.node) && iterOK(point.iter) && point.iter != nil && childCount(point.node, childrenSize) && ended(r) && (r.fatalError != nil ==> drained(point.iter)) && (inner(here(r)) ==> here(r).iter == point.iter)
  ensures [go] r.fatalError == nil ==> concl(r) != visitingConclusionContinue
  ensures [mine] r.fatalError != nil ==> drained(point.iter)
  invariant 2 old(r.fatalError) != nil ==> r.fatalError == old(r.fatalError)
  invariant 2 routeFit(r, len(r.route))
  invariant 2 ended(r)
  invariant 2 walking(r)
  invariant 2 r.fatalError != nil ==> drained(point.iter)
  invariant 2 r.latestDenyError != nil ==> concl(r) == visitingConclusionDeny && is(r.latestDenyError, *yamly.denyError)
  invariant 2 r.fatalError == nil && concl(r) == visitingConclusionDeny ==> r.latestDenyError != nil
  invariant 2 r.fatalError == nil && scalarExp(r.currentExpecter) && concl(r) == visitingConclusionConsume ==> fits(r.currentExpecter, r.extractedValue) && ast.nodeText(r.extractedValue)
  invariant 2 r.fatalError == nil && scalarExp(r.currentExpecter) ==> concl(r) == visitingConclusionConsume || concl(r) == visitingConclusionDeny || concl(r) == visitingConclusionContinue
  invariant 2 iterOK(point.iter)
  invariant 2 r.fatalError == nil && collExp(r.currentExpecter) && concl(r) == visitingConclusionMatch ==> handed(r)
  invariant 2 r.fatalError == nil && collExp(r.currentExpecter) ==> concl(r) == visitingConclusionMatch || concl(r) == visitingConclusionDeny || concl(r) == visitingConclusionContinue
  invariant 2 (arr(r.route) == old(arr(r.route)) && off(r.route) == old(off(r.route))) || fresh(r.route)
  invariant 2 forall x *nodeIteratorImpl :: old(allocated(x)) ==> x.i >= old(x.i) && sameNodes(x.nodes, old(x.nodes))
  invariant 2 r.fatalError == nil && concl(r) == visitingConclusionContinue ==> len(r.route) == old(len(r.route))
  invariant 2 r.fatalError == nil && concl(r) == visitingConclusionContinue ==> here(r).iter == point.iter
  invariant 2 r.fatalError == nil && concl(r) == visitingConclusionContinue ==> (forall i :: 0 <= i && i < len(r.route) - 1 ==> r.route[i].iter == old(r.route[i].iter))
  invariant 2 r.fatalError != nil ==> (forall i :: 0 <= i && i < old(len(r.route)) - 1 && old(inner(r.route[i])) ==> drained(old(r.route[i].iter)))

// a node visited by the reader: the contracts of the Visit methods, met by every Accept
package github.com/KSpaceer/yamly/engines/yayamls/ast

template acceptor
  property C12
  let r = as(v, *decode.ASTReader)
  requires [reader] is(v, *decode.ASTReader) && ref(v) != 0
  requires [at] visiting(r, arg0)
  modifies r.route, elems(r.route), r.lastVisitingResult, r.extractedCollectionState, r.extractedValue, r.anchors.metAnchor, r.anchors.anchorName, entries(r.anchors.anchors), r.fatalError, r.latestDenyError, all(decode.nodeIteratorImpl)
  ensures [sticky] old(r.fatalError) != nil ==> r.fatalError == old(r.fatalError)
  ensures [route] routeFit(r, len(r.route))
  ensures [ended] ended(r)
  ensures [walking] walking(r)
  ensures [arrays] (arr(r.route) == old(arr(r.route)) && off(r.route) == old(off(r.route))) || fresh(r.route)
  ensures [iters] forall x *decode.nodeIteratorImpl :: old(allocated(x)) ==> x.i >= old(x.i) && sameNodes(x.nodes, old(x.nodes))
  ensures [done] r.fatalError != nil ==> (forall i :: 0 <= i && i < old(len(r.route)) && old(inner(r.route[i])) ==> drained(old(r.route[i].iter)))
  ensures [stay] r.fatalError == nil && concl(r) == decode.visitingConclusionContinue ==> len(r.route) == old(len(r.route)) - 1 && (forall i :: 0 <= i && i < len(r.route) ==> r.route[i].iter == old(r.route[i].iter))
  ensures [deny] r.latestDenyError != nil ==> concl(r) == decode.visitingConclusionDeny && is(r.latestDenyError, *yamly.denyError)
  ensures [denied] r.fatalError == nil && concl(r) == decode.visitingConclusionDeny ==> r.latestDenyError != nil
  ensures [value] r.fatalError == nil && scalarExp(r.currentExpecter) && concl(r) == decode.visitingConclusionConsume ==> fits(r.currentExpecter, r.extractedValue) && nodeText(r.extractedValue)
  ensures [state] r.fatalError == nil && collExp(r.currentExpecter) && concl(r) == decode.visitingConclusionMatch ==> handed(r)
  ensures [collkind] r.fatalError == nil && collExp(r.currentExpecter) ==> concl(r) == decode.visitingConclusionMatch || concl(r) == decode.visitingConclusionDeny || concl(r) == decode.visitingConclusionContinue
  ensures [kind] r.fatalError == nil && scalarExp(r.currentExpecter) ==> concl(r) == decode.visitingConclusionConsume || concl(r) == decode.visitingConclusionDeny || concl(r) == decode.visitingConclusionContinue
  ensures [go] r.fatalError == nil && !passing(arg0) ==> concl(r) != decode.visitingConclusionContinue
  ensures [visible] !internalNode(arg0)

iface Node.Accept
  extends acceptor
  reason every Accept of the repository is verified against this contract; trees hold no parser-internal nodes

func (*StreamNode).Accept
  extends acceptor

func (*PropertiesNode).Accept
  extends acceptor

func (*TagNode).Accept
  extends acceptor

func (*AnchorNode).Accept
  extends acceptor

func (*AliasNode).Accept
  extends acceptor

func (*TextNode).Accept
  extends acceptor

func (*ContentNode).Accept
  extends acceptor

func (*SequenceNode).Accept
  extends acceptor

func (*MappingNode).Accept
  extends acceptor

func (*MappingEntryNode).Accept
  extends acceptor

func (*NullNode).Accept
  extends acceptor

// the reads
package github.com/KSpaceer/yamly/engines/yayamls/decode

pred clean(r *ASTReader, n int) bool = r.fatalError == nil && len(r.denyErrors) == n
pred told(r *ASTReader) bool = r.fatalError != nil || len(r.denyErrors) > 0

template read
  property C12
  requires [ready] readable(r) && ended(r)
  modifies r.currentExpecter, r.route, elems(r.route), r.lastVisitingResult, r.extractedCollectionState, r.extractedValue, r.anchors.metAnchor, r.anchors.anchorName, entries(r.anchors.anchors), r.fatalError, r.latestDenyError, r.denyErrors, elems(r.denyErrors), all(nodeIteratorImpl)
  ensures [ready] readable(r) && ended(r)
  ensures [sticky] old(r.fatalError) != nil ==> r.fatalError == old(r.fatalError) && len(r.denyErrors) == old(len(r.denyErrors)) && len(r.route) == old(len(r.route))
  ensures [grow] len(r.denyErrors) >= old(len(r.denyErrors)) && (forall i :: 0 <= i && i < old(len(r.denyErrors)) ==> r.denyErrors[i] == old(r.denyErrors[i]))
  ensures [error] forall i :: old(len(r.denyErrors)) <= i && i < len(r.denyErrors) ==> r.denyErrors[i] != nil

func (*ASTReader).Integer
  extends read
  ensures [value] clean(r, old(len(r.denyErrors))) ==> ast.nodeText(r.extractedValue) && intText(r.extractedValue) && result == fst(schema.ToInteger(r.extractedValue, bitSize)) && snd(schema.ToInteger(r.extractedValue, bitSize)) == nil
  ensures [zero] !clean(r, old(len(r.denyErrors))) ==> result == 0

func (*ASTReader).Unsigned
  extends read
  ensures [value] clean(r, old(len(r.denyErrors))) ==> ast.nodeText(r.extractedValue) && intText(r.extractedValue) && result == fst(schema.ToUnsignedInteger(r.extractedValue, bitSize)) && snd(schema.ToUnsignedInteger(r.extractedValue, bitSize)) == nil
  ensures [zero] !clean(r, old(len(r.denyErrors))) ==> result == 0

func (*ASTReader).Boolean
  extends read
  ensures [value] clean(r, old(len(r.denyErrors))) ==> ast.nodeText(r.extractedValue) && boolText(r.extractedValue) && result == fst(schema.ToBoolean(r.extractedValue)) && snd(schema.ToBoolean(r.extractedValue)) == nil
  ensures [zero] !clean(r, old(len(r.denyErrors))) ==> !result

func (*ASTReader).Float
  extends read
  ensures [value] clean(r, old(len(r.denyErrors))) ==> ast.nodeText(r.extractedValue) && floatText(r.extractedValue) && result == fst(schema.ToFloat(r.extractedValue, bitSize)) && snd(schema.ToFloat(r.extractedValue, bitSize)) == nil
  ensures [zero] !clean(r, old(len(r.denyErrors))) ==> result == fzero()

func (*ASTReader).String
  extends read
  ensures [value] clean(r, old(len(r.denyErrors))) ==> ast.nodeText(result)
  ensures [zero] !clean(r, old(len(r.denyErrors))) ==> result == ""

func (*ASTReader).Timestamp
  extends read
  ensures [value] clean(r, old(len(r.denyErrors))) ==> ast.nodeText(r.extractedValue) && timeText(r.extractedValue)

func (*ASTReader).TryNull
  extends read
  ensures [error] r.fatalError != nil ==> !result
  ensures [quiet] len(r.denyErrors) == old(len(r.denyErrors))

func (*ASTReader).Skip
  extends read

func (*ASTReader).Sequence
  extends read
  ensures [value] clean(r, old(len(r.denyErrors))) ==> handed(r) && result == r.extractedCollectionState && is(here(r).node, *ast.SequenceNode)
  ensures [zero] !clean(r, old(len(r.denyErrors))) ==> is(result, noopState)

func (*ASTReader).Mapping
  extends read
  ensures [value] clean(r, old(len(r.denyErrors))) ==> handed(r) && result == r.extractedCollectionState && is(here(r).node, *ast.MappingNode)
  ensures [zero] !clean(r, old(len(r.denyErrors))) ==> is(result, noopState)

func (*ASTReader).AddError
  property C12
  requires [ready] readable(r) && ended(r)
  modifies r.fatalError, all(nodeIteratorImpl)
  ensures [ready] readable(r) && ended(r)
  ensures [sticky] old(r.fatalError) != nil ==> r.fatalError == old(r.fatalError)
  ensures [set] old(r.fatalError) == nil ==> r.fatalError == err

func (*ASTReader).Error
  property C12
  ensures [fatal] r.fatalError != nil ==> result != nil
  ensures [deny] forall i :: 0 <= i && i < len(r.denyErrors) && r.denyErrors[i] != nil ==> result != nil
  ensures [quiet] r.fatalError == nil && len(r.denyErrors) == 0 ==> result == nil
