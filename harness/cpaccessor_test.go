package cpaccessor_test

import (
	"fmt"
	"testing"

	"github.com/KSpaceer/yamly/engines/yayamls/pkg/cpaccessor"
)

type seqStream struct{ n, base int }

func (s *seqStream) Next() int { s.n++; return s.base + s.n }

// runHistory replays ops on the accessor and on a position/stack model.
func runHistory(v *verifRun, ops []byte) bool {
	acc := cpaccessor.NewCheckpointingAccessor[int]()
	st := &seqStream{base: 1000}
	acc.SetStream(st)
	pos := 0
	var stack []int
	back := false
	for i, op := range ops {
		switch op {
		case 'N':
			got := acc.Next()
			if want := st.base + pos + 1; got != want {
				v.fail("replay-value", "history %s: Next number %d returned element %d of the stream, want %d", ops[:i+1], i, got-st.base, want-st.base)
				return false
			}
			pos++
		case 'C':
			acc.SetCheckpoint()
			stack = append(stack, pos)
		case 'R':
			if len(stack) == 0 {
				continue
			}
			got := acc.Rollback()
			if pos != stack[len(stack)-1] {
				back = true
			}
			pos = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if pos > 0 && got != st.base+pos {
				v.fail("rollback-value", "history %s: Rollback returned element %d, want the element before the checkpoint %d", ops[:i+1], got-st.base, pos)
				return false
			}
		case 'K':
			acc.Commit()
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
		case 'S':
			st = &seqStream{base: st.base + 100000}
			acc.SetStream(st)
			pos, stack = 0, nil
		}
	}
	v.eval(string(ops), back)
	return true
}

func TestVerifCpaccessor(t *testing.T) {
	v := verifStart(t, "histories of Next(N)/SetCheckpoint(C)/Rollback(R)/Commit(K)/SetStream(S) over one accessor, compared with a position and a checkpoint stack; non-trivial: at least one Rollback moved back;")
	alpha := []byte("NCRK")
	// exhaustive up to length 8
	var rec func(p []byte, depth, left int)
	rec = func(p []byte, depth, left int) {
		if left == 0 {
			runHistory(v, p)
			return
		}
		for _, c := range alpha {
			d := depth
			if c == 'C' {
				d++
			}
			if c == 'R' || c == 'K' {
				if d == 0 {
					continue
				}
				d--
			}
			rec(append(p, c), d, left-1)
		}
	}
	v.guard("panic", "exhaustive histories", func() {
		for n := 1; n <= 9; n++ {
			rec(nil, 0, n)
		}
	})
	for v.more() {
		n := 5 + v.rng.Intn(120)
		wn, wc, wr, wk := 1+v.rng.Intn(8), 1+v.rng.Intn(4), 1+v.rng.Intn(4), 1+v.rng.Intn(4)
		ops := make([]byte, n)
		for i := range ops {
			x := v.rng.Intn(wn + wc + wr + wk)
			switch {
			case x < wn:
				ops[i] = 'N'
			case x < wn+wc:
				ops[i] = 'C'
			case x < wn+wc+wr:
				ops[i] = 'R'
			default:
				ops[i] = 'K'
			}
			if v.rng.Intn(150) == 0 {
				ops[i] = 'S'
			}
		}
		if !v.guard("panic", fmt.Sprintf("history %s", ops), func() { runHistory(v, ops) }) {
			return
		}
	}
}
