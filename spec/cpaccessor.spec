// Checkpointing accessor: exact replay of the underlying stream.
package github.com/KSpaceer/yamly/engines/yayamls/pkg/cpaccessor

ghost var fetched(s ref) int
ghost S(s ref, i int) T

iface ResourceStream.Next
  ensures [elem] result == S(self, old(fetched(self)))
  ensures [adv] fetched(self) == old(fetched(self)) + 1
  modifies fetched(self)
  reason the stream is an arbitrary sequence S read left to right; every element is delivered once

pred bufstart(a *CheckpointingAccessor) int = fetched(a.stream) - len(a.buf)
pred pos(a *CheckpointingAccessor) int = a.bufIndicator == -1 ? fetched(a.stream) : bufstart(a) + a.bufIndicator
pred depth(a *CheckpointingAccessor) int = len(a.checkpointsStack)
pred cpos(a *CheckpointingAccessor, k int) int = bufstart(a) + a.checkpointsStack[k] + 1
pred current(a *CheckpointingAccessor) int = a.bufIndicator == -1 ? len(a.buf) : a.bufIndicator
pred accShape(a *CheckpointingAccessor) bool = fetched(a.stream) >= len(a.buf)
| && (a.bufIndicator == -1 || (0 <= a.bufIndicator && a.bufIndicator < len(a.buf)))
| && (depth(a) == 0 && len(a.buf) > 0 ==> a.bufIndicator != -1)
| && (forall k :: 0 <= k && k < depth(a) ==> -1 <= a.checkpointsStack[k] && a.checkpointsStack[k] + 1 <= current(a))
| && (forall k :: forall m :: 0 <= k && k <= m && m < depth(a) ==> a.checkpointsStack[k] <= a.checkpointsStack[m])
| && (depth(a) > 0 ==> a.checkpointsStack[0] == -1 || a.checkpointsStack[0] + 1 < len(a.buf))
pred accData(a *CheckpointingAccessor) bool = (forall i :: 0 <= i && i < len(a.buf) ==> a.buf[i] == S(a.stream, bufstart(a) + i))
| && (bufstart(a) > 0 ==> a.saved == S(a.stream, bufstart(a) - 1))
pred acc(a *CheckpointingAccessor) bool = accShape(a) && accData(a)

func NewCheckpointingAccessor
  property C01
  ensures [fresh] len(result.buf) == 0 && len(result.checkpointsStack) == 0 && result.bufIndicator == -1

func (*CheckpointingAccessor).Reset
  property C01
  modifies a.stream, a.buf, a.bufIndicator, a.checkpointsStack
  ensures [clear] len(a.buf) == 0 && depth(a) == 0 && a.bufIndicator == -1 && a.stream == nil

func (*CheckpointingAccessor).SetStream
  property C01
  requires fetched(stream) == 0
  modifies a.stream, a.buf, a.bufIndicator, a.checkpointsStack
  ensures [inv] acc(a)
  ensures [start] pos(a) == 0 && depth(a) == 0 && a.stream == stream

func (*CheckpointingAccessor).Next
  property C01
  requires acc(a)
  modifies a.buf, a.saved, a.bufIndicator, elems(a.buf), fetched(a.stream)
  ensures [inv] acc(a)
  ensures [value] result == S(a.stream, old(pos(a)))
  ensures [position] pos(a) == old(pos(a)) + 1
  ensures [demand] old(pos(a)) <= old(fetched(a.stream)) && fetched(a.stream) == (pos(a) > old(fetched(a.stream)) ? pos(a) : old(fetched(a.stream)))
  ensures [checkpoints] depth(a) == old(depth(a)) && (forall k :: 0 <= k && k < depth(a) ==> cpos(a, k) == old(cpos(a, k)))
  ensures [stream] a.stream == old(a.stream)
  ensures [array] arr(a.buf) == old(arr(a.buf)) || fresh(a.buf)

func (*CheckpointingAccessor).SetCheckpoint
  property C01
  requires acc(a)
  modifies a.checkpointsStack, elems(a.checkpointsStack)
  ensures [inv] acc(a)
  ensures [push] depth(a) == old(depth(a)) + 1 && cpos(a, old(depth(a))) == old(pos(a))
  ensures [others] forall k :: 0 <= k && k < old(depth(a)) ==> cpos(a, k) == old(cpos(a, k))
  ensures [position] pos(a) == old(pos(a))
  ensures [stack] arr(a.checkpointsStack) == old(arr(a.checkpointsStack)) || fresh(a.checkpointsStack)

func (*CheckpointingAccessor).Rollback
  property C01
  requires acc(a)
  requires depth(a) > 0
  modifies a.bufIndicator, a.checkpointsStack, a.buf
  ensures [inv] acc(a)
  ensures [pop] depth(a) == old(depth(a)) - 1
  ensures [restore] pos(a) == old(cpos(a, depth(a)-1))
  ensures [value] pos(a) > 0 ==> result == S(a.stream, pos(a)-1)
  ensures [others] forall k :: 0 <= k && k < depth(a) ==> cpos(a, k) == old(cpos(a, k))
  ensures [array] arr(a.buf) == old(arr(a.buf)) || fresh(a.buf)
  ensures [stack] arr(a.checkpointsStack) == old(arr(a.checkpointsStack)) || fresh(a.checkpointsStack)

func (*CheckpointingAccessor).Commit
  property C01
  requires acc(a)
  modifies a.saved, a.buf, a.checkpointsStack
  ensures [inv] acc(a)
  ensures [pop] depth(a) == (old(depth(a)) > 0 ? old(depth(a)) - 1 : 0)
  ensures [position] pos(a) == old(pos(a))
  ensures [others] forall k :: 0 <= k && k < depth(a) ==> cpos(a, k) == old(cpos(a, k))
  ensures [array] arr(a.buf) == old(arr(a.buf)) || fresh(a.buf)
  ensures [stack] arr(a.checkpointsStack) == old(arr(a.checkpointsStack)) || fresh(a.checkpointsStack)
