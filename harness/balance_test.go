package balancecheck_test

import (
	"fmt"
	"testing"

	"github.com/KSpaceer/yamly/engines/yayamls/parser/internal/balancecheck"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
)

type balModel struct {
	stack []int // pair numbers
	dead  bool
}

func (m balModel) clone() balModel { return balModel{append([]int{}, m.stack...), m.dead} }

var balPairs = [][2]token.Type{
	{token.SequenceStartType, token.SequenceEndType},
	{token.MappingStartType, token.MappingEndType},
	{token.SingleQuoteType, token.SingleQuoteType},
}

// ops: '[' ']' '{' '}' add brackets, 'q' a pair with equal ends, 's' a neutral token, 'm' save a snapshot, 'r'+digit restore, 'z' reset
func runBalance(v *verifRun, ops []string) bool {
	b := balancecheck.NewBalanceChecker(balPairs)
	var m balModel
	type snap struct {
		s balancecheck.BalanceCheckerMemento
		m balModel
	}
	var snaps []snap
	restored := false
	check := func(i int) bool {
		if got, want := b.IsBalanced(), !m.dead && len(m.stack) == 0; got != want {
			v.fail("balanced", "after %v: IsBalanced = %v, want %v", ops[:i+1], got, want)
			return false
		}
		got, ok := b.PeekLastUnbalanced()
		if ok != (len(m.stack) > 0) || ok && got != balPairs[m.stack[len(m.stack)-1]][0] {
			v.fail("peek", "after %v: last unbalanced = %v, %v; want stack %v", ops[:i+1], got, ok, m.stack)
			return false
		}
		return true
	}
	add := func(tt token.Type) (got, want bool) {
		got = b.Add(tt)
		if m.dead {
			return got, false
		}
		for p, pr := range balPairs {
			if tt == pr[1] && len(m.stack) > 0 && m.stack[len(m.stack)-1] == p {
				m.stack = m.stack[:len(m.stack)-1]
				return got, true
			}
		}
		for p, pr := range balPairs {
			if tt == pr[0] {
				m.stack = append(m.stack[:len(m.stack):len(m.stack)], p)
				return got, true
			}
		}
		for _, pr := range balPairs {
			if tt == pr[1] {
				m.dead = true
				return got, false
			}
		}
		return got, true
	}
	for i, op := range ops {
		var tt token.Type
		switch op[0] {
		case '[':
			tt = token.SequenceStartType
		case ']':
			tt = token.SequenceEndType
		case '{':
			tt = token.MappingStartType
		case '}':
			tt = token.MappingEndType
		case 'q':
			tt = token.SingleQuoteType
		case 's':
			tt = token.StringType
		case 'm':
			snaps = append(snaps, snap{b.Memento(), m.clone()})
		case 'r':
			if len(snaps) == 0 {
				continue
			}
			s := snaps[int(op[1]-'0')%len(snaps)]
			b.SetMemento(s.s)
			m = s.m.clone()
			restored = true
		case 'z':
			b.Reset()
			m = balModel{}
			snaps = nil
		}
		if tt != token.UnknownType {
			got, want := add(tt)
			if got != want {
				v.fail("add", "after %v: Add reports %v, want %v", ops[:i+1], got, want)
				return false
			}
		}
		if !check(i) {
			return false
		}
	}
	// drain, comparing the whole stack
	for !m.dead && len(m.stack) > 0 {
		add(balPairs[m.stack[len(m.stack)-1]][1])
		if !check(len(ops) - 1) {
			return false
		}
	}
	v.eval(fmt.Sprint(ops), restored)
	return true
}

func TestVerifBalance(t *testing.T) {
	v := verifStart(t, "histories of bracket tokens, snapshots and restorations against a stack model; non-trivial: at least one restoration;")
	alpha := []string{"[", "]", "{", "}", "m", "r0"}
	var rec func(p []string, left int) bool
	rec = func(p []string, left int) bool {
		if left == 0 {
			return runBalance(v, append([]string{}, p...))
		}
		for _, c := range alpha {
			if !rec(append(p, c), left-1) {
				return false
			}
		}
		return true
	}
	v.guard("panic", "short histories", func() {
		for n := 1; n <= 6; n++ {
			if !rec(nil, n) {
				return
			}
		}
	})
	all := []string{"[", "[", "[", "{", "{", "]", "]", "}", "q", "s", "m", "m", "r0", "r1", "r2", "r3", "r7", "z"}
	for v.more() && len(v.keys) == 0 {
		n := 4 + v.rng.Intn(60)
		ops := make([]string, n)
		for i := range ops {
			ops[i] = all[v.rng.Intn(len(all))]
			if ops[i] == "z" && v.rng.Intn(4) > 0 {
				ops[i] = "["
			}
		}
		v.guard("panic", fmt.Sprint(ops), func() { runBalance(v, ops) })
	}
}
