// Bracket balance with snapshots.
package github.com/KSpaceer/yamly/engines/yayamls/parser/internal/balancecheck

pred bcIsOpener(b *BalanceChecker, r token.Type) bool = has(b.openers, r)
pred bcIsCloser(b *BalanceChecker, r token.Type) bool = has(b.closers, r)
pred bcCanPop(b *BalanceChecker, r token.Type) bool = len(b.stack) > 0 && b.openers[b.stack[len(b.stack)-1]] == r
// writes through b.stack cannot reach the elements of m
pred bcSafe(b *BalanceChecker, m []token.Type) bool = arr(m) != arr(b.stack) || cap(b.stack) == len(b.stack) || off(m) + len(m) <= off(b.stack) + len(b.stack)
pred bcSameStack(a []token.Type, b []token.Type) bool = len(a) == len(b) && (forall i :: 0 <= i && i < len(a) ==> a[i] == b[i])

func (*BalanceChecker).Add
  property C08
  modifies b.cannotBeBalanced, b.stack, b.stack[len(b.stack)]
  ensures [dead] old(b.cannotBeBalanced) ==> !result && b.cannotBeBalanced && len(b.stack) == old(len(b.stack)) && arr(b.stack) == old(arr(b.stack)) && off(b.stack) == old(off(b.stack))
  ensures [verdict] result <==> !b.cannotBeBalanced
  ensures [unmatched] !old(b.cannotBeBalanced) ==> (b.cannotBeBalanced <==> old(bcIsCloser(b, r) && !bcIsOpener(b, r) && !bcCanPop(b, r)))
  ensures [pop] !old(b.cannotBeBalanced) && old(bcIsCloser(b, r) && bcCanPop(b, r)) ==> len(b.stack) == old(len(b.stack)) - 1
  ensures [push] !old(b.cannotBeBalanced) && old(bcIsOpener(b, r) && !(bcIsCloser(b, r) && bcCanPop(b, r))) ==> len(b.stack) == old(len(b.stack)) + 1 && b.stack[len(b.stack)-1] == r
  ensures [stuck] b.cannotBeBalanced ==> len(b.stack) == old(len(b.stack))
  ensures [ignore] !old(b.cannotBeBalanced) && !old(bcIsOpener(b, r)) && !old(bcIsCloser(b, r)) ==> len(b.stack) == old(len(b.stack))
  ensures [kept] forall i :: 0 <= i && i < len(b.stack) && i < old(len(b.stack)) ==> b.stack[i] == old(b.stack[i])
  ensures [array] arr(b.stack) == old(arr(b.stack)) ? (off(b.stack) == old(off(b.stack)) && (len(b.stack) >= old(len(b.stack)) ? cap(b.stack) == old(cap(b.stack)) : cap(b.stack) == len(b.stack)) && (old(cap(b.stack)) == old(len(b.stack)) ==> cap(b.stack) == len(b.stack))) : fresh(b.stack)
  ensures [snapshots] forall m []token.Type :: off(m) >= 0 && len(m) >= 0 && old(allocated(m)) && old(bcSafe(b, m)) ==> bcSafe(b, m) && (forall i :: 0 <= i && i < len(m) ==> m[i] == old(m[i]))

func (*BalanceChecker).IsBalanced
  property C08
  pure
  ensures [verdict] result <==> !b.cannotBeBalanced && len(b.stack) == 0

func (*BalanceChecker).PeekLastUnbalanced
  property C08
  pure
  ensures [any] r1 <==> len(b.stack) > 0
  ensures [last] r1 ==> r0 == b.stack[len(b.stack)-1]

func (*BalanceChecker).Memento
  property C08
  ensures [exact] bcSameStack(result.stack, b.stack) && result.cannotBeBalanced == b.cannotBeBalanced
  ensures [closed] cap(result.stack) == len(result.stack)
  ensures [safe] bcSafe(b, result.stack)

func (*BalanceChecker).SetMemento
  property C08
  requires cap(m.stack) == len(m.stack)
  modifies b.stack, b.cannotBeBalanced
  ensures [exact] bcSameStack(b.stack, m.stack) && b.cannotBeBalanced == m.cannotBeBalanced
  ensures [closed] cap(b.stack) == len(b.stack)
  ensures [array] allocated(m.stack) ==> allocated(b.stack)
  ensures [snapshots] forall x []token.Type :: bcSafe(b, x)

func (*BalanceChecker).Reset
  property C08
  modifies b.stack, b.cannotBeBalanced
  ensures [empty] len(b.stack) == 0 && !b.cannotBeBalanced

func NewBalanceChecker
  property C08
  ensures [empty] len(result.stack) == 0 && !result.cannotBeBalanced
  ensures [openers] forall i :: 0 <= i && i < len(pairs) ==> has(result.openers, pairs[i][0])
  ensures [closers] forall i :: 0 <= i && i < len(pairs) ==> has(result.closers, pairs[i][1])
  ensures [only-openers] forall x token.Type :: has(result.openers, x) ==> (exists i :: 0 <= i && i < len(pairs) && pairs[i][0] == x && pairs[i][1] == result.openers[x])
  ensures [only-closers] forall x token.Type :: has(result.closers, x) ==> (exists i :: 0 <= i && i < len(pairs) && pairs[i][1] == x)
  invariant 1 forall i :: 0 <= i && i <= $i ==> has(b.openers, pairs[i][0])
  invariant 1 forall i :: 0 <= i && i <= $i ==> has(b.closers, pairs[i][1])
  invariant 1 forall x token.Type :: has(b.openers, x) ==> (exists i :: 0 <= i && i <= $i && pairs[i][0] == x && pairs[i][1] == b.openers[x])
  invariant 1 forall x token.Type :: has(b.closers, x) ==> (exists i :: 0 <= i && i <= $i && pairs[i][1] == x)
  invariant 1 len(b.stack) == 0 && !b.cannotBeBalanced
