// The recursive descent parser: exact backtracking.
package github.com/KSpaceer/yamly/engines/yayamls/parser

iface RawTokenModer.SetRawMode
  property C15
  reason switching the mode decides what the stream delivers next; the sequence S is what it delivers

iface RawTokenModer.UnsetRawMode
  property C15
  reason switching the mode decides what the stream delivers next; the sequence S is what it delivers

ghost ST(s ref, i int) token.Token = S

pred P(p *parser) int = pos(p.tokSrc.CheckpointingAccessor)
pred D(p *parser) int = depth(p.tokSrc.CheckpointingAccessor)
pred cp(p *parser, k int) int = cpos(p.tokSrc.CheckpointingAccessor, k)
pred strm(p *parser) ref = ref(p.tokSrc.CheckpointingAccessor.stream)
// at the start of a line: the beginning, or after a line break (byte order marks in between do not count)
recfun sol(st ref, i int) bool = i <= 1 ? true : ST(st, i-2).Type == token.LineBreakType ? true : ST(st, i-2).Type == token.BOMType ? sol(st, i-1) : false
// flow brackets open after the first i tokens, and whether a closing one was unmatched
pred brOpen(t token.Type) bool = t == token.SequenceStartType || t == token.MappingStartType
pred brClose(t token.Type) bool = t == token.SequenceEndType || t == token.MappingEndType
pred brMate(a int, b token.Type) bool = (a == token.SequenceStartType && b == token.SequenceEndType) || (a == token.MappingStartType && b == token.MappingEndType)
recfun brDead(st ref, i int) bool = i <= 0 ? false : brDead(st, i-1) || (brClose(ST(st, i-1).Type) && !bpops(st, i-1))
recfun brDepth(st ref, i int) int = i <= 0 ? 0 : brDead(st, i-1) ? brDepth(st, i-1) : brOpen(ST(st, i-1).Type) ? brDepth(st, i-1) + 1 : brClose(ST(st, i-1).Type) && bpops(st, i-1) ? brDepth(st, i-1) - 1 : brDepth(st, i-1)
recfun brAt(st ref, i int, j int) int = i <= 0 ? 0 : !brDead(st, i-1) && brOpen(ST(st, i-1).Type) && j == brDepth(st, i-1) ? ST(st, i-1).Type : brAt(st, i-1, j)
// the i+1st token closes the innermost open bracket
pred bpops(st ref, i int) bool = brDepth(st, i) > 0 && brMate(brAt(st, i, brDepth(st, i)-1), ST(st, i).Type)
pred stackIs(a []token.Type, st ref, i int) bool = len(a) == brDepth(st, i) && (forall j :: 0 <= j && j < len(a) ==> a[j] == brAt(st, i, j))
pred brConf(p *parser) bool = forall x token.Type :: (has(p.balanceChecker.openers, x) <==> brOpen(x)) && (has(p.balanceChecker.closers, x) <==> brClose(x)) && (brOpen(x) ==> brMate(x, p.balanceChecker.openers[x]))
pred stateIs(s state, st ref, i int) bool = s.startOfLine == sol(st, i) && s.balanceCheckMemento.cannotBeBalanced == brDead(st, i) && len(s.balanceCheckMemento.stack) == brDepth(st, i) && cap(s.balanceCheckMemento.stack) == len(s.balanceCheckMemento.stack) && allocated(s.balanceCheckMemento.stack)
// the state of the parser is a function of its position in the token sequence
pred pbase(p *parser) bool = p.tokSrc != nil && p.tokSrc.CheckpointingAccessor != nil && acc(p.tokSrc.CheckpointingAccessor)
| && len(p.savedStates) == D(p) && P(p) >= 0 && (forall k :: 0 <= k && k < D(p) ==> cp(p, k) >= 1)
| && (P(p) >= 1 ==> p.tok.Type == ST(strm(p), P(p)-1).Type && p.tok.Origin == ST(strm(p), P(p)-1).Origin && p.tok.Start == ST(strm(p), P(p)-1).Start && p.tok.End == ST(strm(p), P(p)-1).End)
| && brConf(p) && p.balanceChecker.cannotBeBalanced == brDead(strm(p), P(p)) && stackIs(p.balanceChecker.stack, strm(p), P(p))
| && (forall k :: 0 <= k && k < D(p) ==> stateIs(p.savedStates[k], strm(p), cp(p, k)) && bcSafe(p.balanceChecker, p.savedStates[k].balanceCheckMemento.stack))
| && (forall k, j :: 0 <= k && k < D(p) && 0 <= j && j < len(p.savedStates[k].balanceCheckMemento.stack) ==> p.savedStates[k].balanceCheckMemento.stack[j] == brAt(strm(p), cp(p, k), j))
pred pinv(p *parser) bool = pbase(p) && P(p) >= 1 && D(p) >= 0 && p.startOfLine == sol(strm(p), P(p))
// the first i tokens close a bracket that is not open, or end the input with one open
pred flaw(st ref, i int) bool = brDead(st, i) || (ST(st, i-1).Type == token.EOFType && brDepth(st, i) > 0)
pred demanded(p *parser) int = fetched(p.tokSrc.CheckpointingAccessor.stream)
// every flaw seen so far has left an error
pred reported(p *parser) bool = (forall i :: 1 <= i && i <= demanded(p) && flaw(strm(p), i) ==> len(p.errors) > 0)
pred noNil(p *parser) bool = (len(p.errors) > 0 ==> p.errors[0] != nil) && (forall j :: 0 <= j && j < len(p.errors) ==> p.errors[j] != nil)

func (*parser).appendError
  property C15
  opaque flaw demanded strm
  requires [error] err != nil && noNil(p)
  modifies p.errors, elems(p.errors)
  ensures [reported] reported(p) && noNil(p)
  ensures [errors] noNil(p)
  ensures [recorded] len(p.errors) == old(len(p.errors)) + 1

func (*parser).setCheckpoint
  property C15
  option skolem
  opaque sol brDead brDepth brAt acc pos depth cpos !snapshots
  requires [inv] pinv(p)
  modifies p.savedStates, elems(p.savedStates), p.tokSrc.CheckpointingAccessor.checkpointsStack, elems(p.tokSrc.CheckpointingAccessor.checkpointsStack)
  ensures [inv] pinv(p)
  ensures [push] D(p) == old(D(p)) + 1 && cp(p, old(D(p))) == old(P(p))
  ensures [others] forall k :: 0 <= k && k < old(D(p)) ==> cp(p, k) == old(cp(p, k))
  ensures [stream] strm(p) == old(strm(p))
  ensures [position] P(p) == old(P(p))

func (*parser).commit
  property C15
  option skolem
  opaque sol brDead brDepth brAt acc pos depth cpos !snapshots
  requires [inv] pinv(p)
  requires [open] D(p) > 0
  modifies p.savedStates, p.tokSrc.CheckpointingAccessor.checkpointsStack, p.tokSrc.CheckpointingAccessor.saved, p.tokSrc.CheckpointingAccessor.buf
  ensures [inv] pinv(p)
  ensures [pop] D(p) == old(D(p)) - 1
  ensures [others] forall k :: 0 <= k && k < D(p) ==> cp(p, k) == old(cp(p, k))
  ensures [stream] strm(p) == old(strm(p))
  ensures [position] P(p) == old(P(p))

func (*parser).rollback
  property C15
  option skolem
  opaque sol brDead brDepth brAt acc pos depth cpos !snapshots
  requires [inv] pinv(p)
  requires [open] D(p) > 0
  modifies p.tok, p.savedStates, p.state, p.balanceChecker, p.tokSrc.CheckpointingAccessor.checkpointsStack, p.tokSrc.CheckpointingAccessor.bufIndicator, p.tokSrc.CheckpointingAccessor.buf
  ensures [inv] pinv(p)
  ensures [pop] D(p) == old(D(p)) - 1
  ensures [others] forall k :: 0 <= k && k < D(p) ==> cp(p, k) == old(cp(p, k))
  ensures [stream] strm(p) == old(strm(p))
  ensures [position] P(p) == old(cp(p, D(p)-1))

func (*parser).next
  property C15
  option skolem
  opaque sol brDead brDepth brAt acc pos depth cpos noNil !snapshots
  unfold 0 sol(strm(p), P(p)+1)
  unfold 0 brDead(strm(p), P(p))
  unfold 0 brDead(strm(p), P(p)+1)
  unfold 0 brDepth(strm(p), P(p)+1)
  unfold 0 forall j :: brAt(strm(p), P(p)+1, j)
  option split
  requires [base] pbase(p)
  requires [reported] reported(p) && noNil(p)
  modifies p.tok, p.state, p.balanceChecker, p.errors, elems(p.errors), p.tokSrc.CheckpointingAccessor.buf, p.tokSrc.CheckpointingAccessor.saved, p.tokSrc.CheckpointingAccessor.bufIndicator, elems(p.tokSrc.CheckpointingAccessor.buf), fetched(strm(p)), p.balanceChecker.stack[len(p.balanceChecker.stack)]
  ensures [base] pbase(p)
  ensures [inv] old(pinv(p)) ==> pinv(p)
  ensures [reported] reported(p) && noNil(p)
  ensures [step] P(p) == old(P(p)) + 1 && D(p) == old(D(p))
  ensures [others] forall k :: 0 <= k && k < D(p) ==> cp(p, k) == old(cp(p, k))
  ensures [errors] len(p.errors) >= old(len(p.errors))
  ensures [stream] strm(p) == old(strm(p))

template parsing
  option skolem
  opaque pbase P D cp strm sol acc pos depth cpos reported noNil
  requires [inv] pinv(p)
  requires [reported] reported(p) && noNil(p)
  modifies *
  ensures [inv] pinv(p)
  ensures [balanced] D(p) == old(D(p))
  ensures [others] forall k :: 0 <= k && k < D(p) ==> cp(p, k) == old(cp(p, k))
  ensures [forward] P(p) >= old(P(p))
  ensures [stream] strm(p) == old(strm(p))
  ensures [errors] len(p.errors) >= old(len(p.errors))
  ensures [reported] reported(p) && noNil(p)
  invariant * pinv(p)
  invariant * reported(p)
  invariant * noNil(p)
  invariant * D(p) == pre(D(p))
  invariant * forall k :: 0 <= k && k < D(p) ==> cp(p, k) == pre(cp(p, k))
  invariant * P(p) >= pre(P(p))
  invariant * strm(p) == pre(strm(p))
  invariant * len(p.errors) >= pre(len(p.errors))

template parsingInto
  extends parsing
  modifies content(buf)
  ensures [appends] blen(content(buf)) >= old(blen(content(buf)))
  invariant * blen(content(buf)) >= pre(blen(content(buf)))
  invariant * $phi >= pre($phi)
  invariant * $phi <= blen(content(buf))

default (*parser) parse* buf
  extends parsingInto
  property C15

default (*parser) parse*
  extends parsing
  property C15

func (*parser).parseGenericFlowNode
  inline

func (*parser).Parse
  property C15
  opaque pbase P D cp strm acc pos depth cpos sol brDead brDepth brAt
  option skolem
  unfold 0 sol(strm(p), 1)
  requires [start] pbase(p) && P(p) == 0 && D(p) == 0 && demanded(p) == 0 && len(p.errors) == 0
  modifies *
  ensures [inv] pinv(p)
  ensures [balanced] D(p) == 0
  ensures [stream] strm(p) == old(strm(p))
  ensures [brackets] r1 == nil ==> (forall i :: 1 <= i && i <= demanded(p) ==> !flaw(strm(p), i))

func newTokenSource
  property C15
  requires [new] fetched(cts) == 0
  modifies *
  ensures [ready] result != nil && fresh(result) && result.CheckpointingAccessor != nil && acc(result.CheckpointingAccessor) && pos(result.CheckpointingAccessor) == 0 && depth(result.CheckpointingAccessor) == 0 && fetched(result.CheckpointingAccessor.stream) == 0
  ensures [stream] ref(result.CheckpointingAccessor.stream) == ref(cts)

func newParser
  property C15
  option skolem
  opaque sol brDead brDepth brAt acc pos depth cpos
  unfold 0 brDead(ref(tokSrc.CheckpointingAccessor.stream), 0)
  unfold 0 brDepth(ref(tokSrc.CheckpointingAccessor.stream), 0)
  requires [source] tokSrc != nil && tokSrc.CheckpointingAccessor != nil && acc(tokSrc.CheckpointingAccessor) && pos(tokSrc.CheckpointingAccessor) == 0 && depth(tokSrc.CheckpointingAccessor) == 0
  ensures [start] pbase(result) && P(result) == 0 && D(result) == 0 && len(result.errors) == 0
  ensures [demand] demanded(result) == old(fetched(tokSrc.CheckpointingAccessor.stream))
  ensures [stream] strm(result) == ref(tokSrc.CheckpointingAccessor.stream)

func Parse
  property C15
  opaque pbase P D cp strm acc pos depth cpos sol brDead brDepth brAt
  requires [new] fetched(cts) == 0
  modifies *

func ParseTokenStream
  property C15
  opaque pbase P D cp strm acc pos depth cpos sol brDead brDepth brAt
  requires [new] fetched(cts) == 0
  modifies *

pred isBufs(p *sync.Pool) bool = p == &bufsPool
pred isAccs(p *sync.Pool) bool = p == &accessorsPool
pred someAcc(x any) bool = is(x, *cpaccessor.CheckpointingAccessor[token.Token]) ==> ref(x) != 0
pred emptyBuf(x any) bool = is(x, *bytes.Buffer) && ref(x) != 0 && len(content(as(x, *bytes.Buffer))) == 0

package sync

trusted (*Pool).Get
  ensures [buffer] isBufs(p) ==> emptyBuf(result) && fresh(result)
  ensures [accessor] isAccs(p) ==> someAcc(result)
  reason sync.Pool hands out what was put into it (Put checks: empty buffers that the caller gives up) or what New makes

trusted (*Pool).Put
  requires [buffer] isBufs(p) ==> emptyBuf(x)
  requires [accessor] isAccs(p) ==> someAcc(x)
  reason sync.Pool keeps the value for a later Get
