// Typed reads of the goyaml reader.
package github.com/KSpaceer/yamly/engines/goyaml/decode

// holds for the texts of scalar nodes and is otherwise arbitrary: a value for which it holds cannot be a left-over
ghost scalarText(s string) bool

pred gcoll(n *yaml.Node) bool = n.Kind == yaml.SequenceNode || n.Kind == yaml.MappingNode
// the trees go-yaml builds below a document
pred gtree(n *yaml.Node) bool = forall x *yaml.Node :: (gcoll(x) || x.Kind == yaml.ScalarNode || x.Kind == yaml.AliasNode) && (x.Kind == yaml.AliasNode ==> x.Alias != nil && x.Alias.Kind != yaml.AliasNode) && (x.Kind == yaml.ScalarNode ==> scalarText(x.Value))

pred gscalarExp(e expecter) bool = is(e, expectInteger) || is(e, expectBoolean) || is(e, expectFloat) || is(e, expectString) || is(e, expectTimestamp)
pred gfits(e expecter, s string) bool = (is(e, expectInteger) ==> intText(s)) && (is(e, expectBoolean) ==> boolText(s)) && (is(e, expectFloat) ==> floatText(s)) && (is(e, expectTimestamp) ==> timeText(s))
pred gready0(v visitingResult) bool = v.conclusion == visitingConclusionUnknown || v.conclusion == visitingConclusionDeny

template gprocess
  property C13
  pure
  requires [node] arg1 != nil && (gcoll(arg1) || arg1.Kind == yaml.ScalarNode)
  ensures [scalar] result.action == visitingActionExtract ==> result.conclusion == visitingConclusionConsume && arg1.Kind == yaml.ScalarNode
  ensures [known] result.conclusion == visitingConclusionConsume || result.conclusion == visitingConclusionDeny || result.conclusion == visitingConclusionContinue
  ensures [extract] result.conclusion == visitingConclusionConsume ==> result.action == visitingActionExtract
  ensures [settles] arg1.Kind == yaml.ScalarNode && gready0(arg2) ==> result.conclusion != visitingConclusionContinue

func expectInteger.process
  extends gprocess
  ensures [fits] result.action == visitingActionExtract ==> intText(arg1.Value)

func expectBoolean.process
  extends gprocess
  ensures [fits] result.action == visitingActionExtract ==> boolText(arg1.Value)

func expectFloat.process
  extends gprocess
  ensures [fits] result.action == visitingActionExtract ==> floatText(arg1.Value)

func expectTimestamp.process
  extends gprocess
  ensures [fits] result.action == visitingActionExtract ==> timeText(arg1.Value)

func expectString.process
  extends gprocess

template gprocess0
  property C13
  pure
  requires [node] arg1 != nil && (gcoll(arg1) || arg1.Kind == yaml.ScalarNode)
  ensures [known] visitingConclusionMatch <= result.conclusion && result.conclusion <= visitingConclusionContinue
  ensures [settles] arg1.Kind == yaml.ScalarNode && gready0(arg2) ==> result.conclusion != visitingConclusionContinue

func expectNull.process
  extends gprocess0
  ensures [extract] result.action == visitingActionNothing
  ensures [nomatch] result.conclusion != visitingConclusionMatch
  ensures [null] result.conclusion == visitingConclusionConsume ==> arg1.Kind == yaml.ScalarNode

func expectSequence.process
  extends gprocess0
  ensures [match] result.conclusion == visitingConclusionMatch <==> result.action == visitingActionExtract
  ensures [kind] result.conclusion == visitingConclusionMatch ==> arg1.Kind == yaml.SequenceNode
  ensures [noconsume] result.conclusion != visitingConclusionConsume

func expectMapping.process
  extends gprocess0
  ensures [match] result.conclusion == visitingConclusionMatch <==> result.action == visitingActionExtract
  ensures [kind] result.conclusion == visitingConclusionMatch ==> arg1.Kind == yaml.MappingNode
  ensures [noconsume] result.conclusion != visitingConclusionConsume

func expectAny.process
  extends gprocess0
  ensures [extract] result.action == visitingActionNothing
  ensures [match] result.conclusion == visitingConclusionMatch || result.conclusion == visitingConclusionContinue

func expectRaw.process
  extends gprocess0
  ensures [extract] result.action == visitingActionNothing
  ensures [match] result.conclusion == visitingConclusionMatch || result.conclusion == visitingConclusionContinue

func expectSkip.process
  extends gprocess0
  ensures [extract] result.action == visitingActionNothing
  ensures [consume] result.conclusion == visitingConclusionConsume || result.conclusion == visitingConclusionContinue

trusted (*collectionState).empty
  ensures false
  reason a collection state is handed to the caller, never used as the iterator of a route point (synthesised forwarding method)

trusted (*collectionState).node
  ensures false
  reason a collection state is handed to the caller, never used as the iterator of a route point (synthesised forwarding method)

trusted collectionState.empty
  ensures false
  reason a collection state is handed to the caller, never used as the iterator of a route point (synthesised forwarding method)

trusted collectionState.node
  ensures false
  reason a collection state is handed to the caller, never used as the iterator of a route point (synthesised forwarding method)

pred giterOK(n nodeIterator) bool = n == nil || (is(n, *nodeIteratorImpl) && ref(n) != 0 && allocated(n) && as(n, *nodeIteratorImpl).i >= 0)
pred gdrained(n nodeIterator) bool = is(n, *nodeIteratorImpl) ==> as(n, *nodeIteratorImpl).i >= len(as(n, *nodeIteratorImpl).nodes)
pred gsameNodes(a []*yaml.Node, b []*yaml.Node) bool = len(a) == len(b) && arr(a) == arr(b) && off(a) == off(b)
pred gsettled(p routePoint) bool = p.node != nil && (!gcoll(p.node) ==> gready0(p.visitingResult)) && giterOK(p.iter) && (gcoll(p.node) && p.visitingResult.conclusion != visitingConclusionUnknown ==> p.iter != nil)
pred ginner(p routePoint) bool = gcoll(p.node) && p.visitingResult.conclusion != visitingConclusionUnknown
pred grouteFit(r *ASTReader, k int) bool = forall i :: 0 <= i && i < k ==> gsettled(r.route[i]) && (i < len(r.route) - 1 ==> ginner(r.route[i]))
pred gended(r *ASTReader) bool = r.fatalError != nil ==> (forall i :: 0 <= i && i < len(r.route) ==> gdrained(r.route[i].iter))
pred greadable(r *ASTReader) bool = r.fatalError == nil ==> r.latestDenyError == nil && grouteFit(r, len(r.route))
pred ghere(r *ASTReader) routePoint = r.route[len(r.route)-1]
pred gconcl(r *ASTReader) visitingConclusion = r.lastVisitingResult.conclusion
pred gcollExp(e expecter) bool = is(e, expectSequence) || is(e, expectMapping)
pred ghanded(r *ASTReader) bool = len(r.route) > 0 && is(r.extractedCollectionState, *collectionState) && ref(r.extractedCollectionState) != 0 && as(r.extractedCollectionState, *collectionState).nodeIterator == ghere(r).iter && (is(r.currentExpecter, expectSequence) ==> ghere(r).node.Kind == yaml.SequenceNode) && (is(r.currentExpecter, expectMapping) ==> ghere(r).node.Kind == yaml.MappingNode) && as(r.extractedCollectionState, *collectionState).size == len(ghere(r).node.Content)
pred gvisiting(r *ASTReader, n *yaml.Node) bool = r.latestDenyError == nil && len(r.route) > 0 && grouteFit(r, len(r.route) - 1) && ghere(r).node == n && n != nil && giterOK(ghere(r).iter) && (!gcoll(n) ==> gready0(ghere(r).visitingResult)) && (gcoll(n) && ghere(r).visitingResult.conclusion != visitingConclusionUnknown ==> ghere(r).iter != nil) && gended(r) && (r.fatalError != nil ==> ginner(ghere(r)))

func (*ASTReader).setFatalError
  property C13
  option weakframe
  requires [iters] forall i :: 0 <= i && i < len(r.route) ==> giterOK(r.route[i].iter)
  modifies r.fatalError, all(nodeIteratorImpl)
  ensures [set] r.fatalError == err
  ensures [drained] forall i :: 0 <= i && i < len(r.route) ==> gdrained(r.route[i].iter)
  ensures [on] forall x *nodeIteratorImpl :: x.i >= old(x.i) && gsameNodes(x.nodes, old(x.nodes))
  invariant 1 forall i :: 0 <= i && i <= $i ==> gdrained(r.route[i].iter)
  invariant 1 forall x *nodeIteratorImpl :: x.i >= old(x.i) && gsameNodes(x.nodes, old(x.nodes))
  invariant 2 forall x *nodeIteratorImpl :: x.i >= old(x.i) && gsameNodes(x.nodes, old(x.nodes))
  invariant 2 forall i :: 0 <= i && i < $i ==> gdrained(r.route[i].iter)
  invariant 2 forall i :: 0 <= i && i < len(r.route) ==> giterOK(r.route[i].iter)
  invariant 1 forall i :: 0 <= i && i < len(r.route) ==> giterOK(r.route[i].iter)

func (*ASTReader).pushRoutePoint
  property C13
  modifies r.route, elems(r.route)
  ensures [len] len(r.route) == old(len(r.route)) + 1
  ensures [kept] forall i :: 0 <= i && i < old(len(r.route)) ==> r.route[i].node == old(r.route[i].node) && r.route[i].iter == old(r.route[i].iter) && r.route[i].visitingResult.conclusion == old(r.route[i].visitingResult.conclusion) && r.route[i].visitingResult.action == old(r.route[i].visitingResult.action)
  ensures [second] old(len(r.route)) > 0 ==> r.route[len(r.route)-2].node == old(ghere(r).node) && r.route[len(r.route)-2].iter == old(ghere(r).iter) && r.route[len(r.route)-2].visitingResult.conclusion == old(ghere(r).visitingResult.conclusion)
  ensures [top] ghere(r).node == point.node && ghere(r).iter == point.iter && ghere(r).visitingResult.conclusion == point.visitingResult.conclusion && ghere(r).visitingResult.action == point.visitingResult.action
  ensures [arrays] (arr(r.route) == old(arr(r.route)) && off(r.route) == old(off(r.route))) || fresh(r.route)

template gvisit
  property C13
  requires [tree] gtree(nil)
  modifies r.route, elems(r.route), r.lastVisitingResult, r.extractedCollectionState, r.extractedValue, r.fatalError, r.latestDenyError, all(nodeIteratorImpl)
  ensures [sticky] old(r.fatalError) != nil ==> r.fatalError == old(r.fatalError)
  ensures [route] grouteFit(r, len(r.route))
  ensures [ended] gended(r)
  ensures [arrays] (arr(r.route) == old(arr(r.route)) && off(r.route) == old(off(r.route))) || fresh(r.route)
  ensures [iters] forall x *nodeIteratorImpl :: old(allocated(x)) ==> x.i >= old(x.i) && gsameNodes(x.nodes, old(x.nodes))
  ensures [done] r.fatalError != nil ==> (forall i :: 0 <= i && i < old(len(r.route)) && old(ginner(r.route[i])) ==> gdrained(old(r.route[i].iter)))
  ensures [deny] r.latestDenyError != nil ==> gconcl(r) == visitingConclusionDeny && is(r.latestDenyError, *yamly.denyError)
  ensures [denied] r.fatalError == nil && gconcl(r) == visitingConclusionDeny ==> r.latestDenyError != nil
  ensures [value] r.fatalError == nil && gscalarExp(r.currentExpecter) && gconcl(r) == visitingConclusionConsume ==> gfits(r.currentExpecter, r.extractedValue) && scalarText(r.extractedValue)
  ensures [state] r.fatalError == nil && gcollExp(r.currentExpecter) && gconcl(r) == visitingConclusionMatch ==> ghanded(r)
  ensures [collkind] r.fatalError == nil && gcollExp(r.currentExpecter) ==> gconcl(r) == visitingConclusionMatch || gconcl(r) == visitingConclusionDeny || gconcl(r) == visitingConclusionContinue
  ensures [kind] r.fatalError == nil && gscalarExp(r.currentExpecter) ==> gconcl(r) == visitingConclusionConsume || gconcl(r) == visitingConclusionDeny || gconcl(r) == visitingConclusionContinue
  ensures [go] r.fatalError == nil ==> gconcl(r) != visitingConclusionContinue

func (*ASTReader).visitNode
  extends gvisit
  requires [at] gvisiting(r, n)
  ensures [below] r.fatalError != nil && old(len(r.route)) > 1 && old(ginner(r.route[len(r.route)-2])) ==> gdrained(old(r.route[len(r.route)-2].iter))

func (*ASTReader).visitCurrentNode
  extends gvisit
  requires [at] r.latestDenyError == nil && grouteFit(r, len(r.route)) && gended(r) && (r.fatalError != nil && len(r.route) > 0 ==> ginner(ghere(r)))

func (*ASTReader).processComplexPoint
  extends gvisit
  option weakframe
  opaque gtree gfits intText boolText floatText timeText
  requires [at] r.latestDenyError == nil && len(r.route) > 0 && grouteFit(r, len(r.route) - 1) && point.node != nil && gcoll(point.node) && giterOK(point.iter) && point.iter != nil && childrenSize == len(point.node.Content) && gended(r) && (r.fatalError != nil ==> gdrained(point.iter)) && (ginner(ghere(r)) ==> ghere(r).iter == point.iter)
  invariant 2 old(r.fatalError) != nil ==> r.fatalError == old(r.fatalError)
  invariant 2 grouteFit(r, len(r.route))
  invariant 2 gended(r)
  invariant 2 r.fatalError == nil && gconcl(r) == visitingConclusionContinue ==> (forall i :: 0 <= i && i < len(r.route) ==> ginner(r.route[i]))
  invariant 2 r.fatalError != nil ==> gdrained(point.iter)
  invariant 2 r.latestDenyError != nil ==> gconcl(r) == visitingConclusionDeny && is(r.latestDenyError, *yamly.denyError)
  invariant 2 r.fatalError == nil && gconcl(r) == visitingConclusionDeny ==> r.latestDenyError != nil
  invariant 2 r.fatalError == nil && gscalarExp(r.currentExpecter) && gconcl(r) == visitingConclusionConsume ==> gfits(r.currentExpecter, r.extractedValue) && scalarText(r.extractedValue)
  invariant 2 r.fatalError == nil && gcollExp(r.currentExpecter) && gconcl(r) == visitingConclusionMatch ==> ghanded(r)
  invariant 2 r.fatalError == nil && gcollExp(r.currentExpecter) ==> gconcl(r) == visitingConclusionMatch || gconcl(r) == visitingConclusionDeny || gconcl(r) == visitingConclusionContinue
  invariant 2 r.fatalError == nil && gscalarExp(r.currentExpecter) ==> gconcl(r) == visitingConclusionConsume || gconcl(r) == visitingConclusionDeny || gconcl(r) == visitingConclusionContinue
  invariant 2 giterOK(point.iter)
  invariant 2 (arr(r.route) == old(arr(r.route)) && off(r.route) == old(off(r.route))) || fresh(r.route)
  invariant 2 forall x *nodeIteratorImpl :: old(allocated(x)) ==> x.i >= old(x.i) && gsameNodes(x.nodes, old(x.nodes))
  invariant 2 r.fatalError == nil && gconcl(r) == visitingConclusionContinue ==> len(r.route) == old(len(r.route))
  invariant 2 r.fatalError == nil && gconcl(r) == visitingConclusionContinue ==> ghere(r).iter == point.iter
  invariant 2 r.fatalError == nil && gconcl(r) == visitingConclusionContinue ==> (forall i :: 0 <= i && i < len(r.route) - 1 ==> r.route[i].iter == old(r.route[i].iter))
  invariant 2 r.fatalError != nil ==> (forall i :: 0 <= i && i < old(len(r.route)) - 1 && old(ginner(r.route[i])) ==> gdrained(old(r.route[i].iter)))

// the reads
pred gclean(r *ASTReader, n int) bool = r.fatalError == nil && len(r.denyErrors) == n
pred gtold(r *ASTReader) bool = r.fatalError != nil || len(r.denyErrors) > 0

template gread
  property C13
  requires [tree] gtree(nil)
  requires [ready] greadable(r) && gended(r)
  modifies r.currentExpecter, r.route, elems(r.route), r.lastVisitingResult, r.extractedCollectionState, r.extractedValue, r.fatalError, r.latestDenyError, r.denyErrors, elems(r.denyErrors), all(nodeIteratorImpl)
  ensures [ready] greadable(r) && gended(r)
  ensures [sticky] old(r.fatalError) != nil ==> r.fatalError == old(r.fatalError) && len(r.denyErrors) == old(len(r.denyErrors)) && len(r.route) == old(len(r.route))
  ensures [grow] len(r.denyErrors) >= old(len(r.denyErrors)) && (forall i :: 0 <= i && i < old(len(r.denyErrors)) ==> r.denyErrors[i] == old(r.denyErrors[i]))
  ensures [error] forall i :: old(len(r.denyErrors)) <= i && i < len(r.denyErrors) ==> r.denyErrors[i] != nil

func (*ASTReader).Integer
  extends gread
  ensures [value] gclean(r, old(len(r.denyErrors))) ==> scalarText(r.extractedValue) && intText(r.extractedValue) && result == fst(schema.ToInteger(r.extractedValue, bitSize)) && snd(schema.ToInteger(r.extractedValue, bitSize)) == nil
  ensures [zero] !gclean(r, old(len(r.denyErrors))) ==> result == 0

func (*ASTReader).Unsigned
  extends gread
  ensures [value] gclean(r, old(len(r.denyErrors))) ==> scalarText(r.extractedValue) && intText(r.extractedValue) && result == fst(schema.ToUnsignedInteger(r.extractedValue, bitSize)) && snd(schema.ToUnsignedInteger(r.extractedValue, bitSize)) == nil
  ensures [zero] !gclean(r, old(len(r.denyErrors))) ==> result == 0

func (*ASTReader).Boolean
  extends gread
  ensures [value] gclean(r, old(len(r.denyErrors))) ==> scalarText(r.extractedValue) && boolText(r.extractedValue) && result == fst(schema.ToBoolean(r.extractedValue)) && snd(schema.ToBoolean(r.extractedValue)) == nil
  ensures [zero] !gclean(r, old(len(r.denyErrors))) ==> !result

func (*ASTReader).Float
  extends gread
  ensures [value] gclean(r, old(len(r.denyErrors))) ==> scalarText(r.extractedValue) && floatText(r.extractedValue) && result == fst(schema.ToFloat(r.extractedValue, bitSize)) && snd(schema.ToFloat(r.extractedValue, bitSize)) == nil
  ensures [zero] !gclean(r, old(len(r.denyErrors))) ==> result == fzero()

func (*ASTReader).String
  extends gread
  ensures [value] gclean(r, old(len(r.denyErrors))) ==> scalarText(result)
  ensures [zero] !gclean(r, old(len(r.denyErrors))) ==> result == ""

func (*ASTReader).Timestamp
  extends gread
  ensures [value] gclean(r, old(len(r.denyErrors))) ==> scalarText(r.extractedValue) && timeText(r.extractedValue)

func (*ASTReader).TryNull
  extends gread
  ensures [error] r.fatalError != nil ==> !result
  ensures [quiet] len(r.denyErrors) == old(len(r.denyErrors))

func (*ASTReader).Skip
  extends gread

func (*ASTReader).Sequence
  extends gread
  ensures [value] gclean(r, old(len(r.denyErrors))) ==> ghanded(r) && result == r.extractedCollectionState && ghere(r).node.Kind == yaml.SequenceNode
  ensures [zero] !gclean(r, old(len(r.denyErrors))) ==> is(result, noopState)

func (*ASTReader).Mapping
  extends gread
  ensures [value] gclean(r, old(len(r.denyErrors))) ==> ghanded(r) && result == r.extractedCollectionState && ghere(r).node.Kind == yaml.MappingNode
  ensures [zero] !gclean(r, old(len(r.denyErrors))) ==> is(result, noopState)

func (*ASTReader).AddError
  property C13
  requires [ready] greadable(r) && gended(r)
  modifies r.fatalError, all(nodeIteratorImpl)
  ensures [ready] greadable(r) && gended(r)
  ensures [sticky] old(r.fatalError) != nil ==> r.fatalError == old(r.fatalError)
  ensures [set] old(r.fatalError) == nil ==> r.fatalError == err

func (*ASTReader).Error
  property C13
  ensures [fatal] r.fatalError != nil ==> result != nil
  ensures [deny] forall i :: 0 <= i && i < len(r.denyErrors) && r.denyErrors[i] != nil ==> result != nil
  ensures [quiet] r.fatalError == nil && len(r.denyErrors) == 0 ==> result == nil
