package main

// Loops: concrete unrolling when the header condition folds, otherwise
// cut at the header with invariants (checked on entry and on every back edge).

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vcMark struct {
	facts, obls int
	counts      map[string]int
	drops       int
}

func (vc *VC) mark() vcMark {
	c := make(map[string]int, len(vc.counts))
	for k, v := range vc.counts {
		c[k] = v
	}
	return vcMark{len(vc.facts), len(vc.obls), c, vc.drops}
}
func (vc *VC) restore(m vcMark) {
	for _, f := range vc.facts[m.facts:] {
		delete(vc.factSet, f.id)
		delete(vc.factTag, f.id)
	}
	vc.facts = vc.facts[:m.facts]
	vc.obls = vc.obls[:m.obls]
	vc.counts = m.counts
	vc.drops = m.drops
}

func (fr *Frame) execLoop(l *Loop, es []Edge) map[*ssa.BasicBlock][]Edge {
	vc := fr.vc
	g, st := vc.mergeStates(es)
	env := fr.mergeEnv(es)
	fr.evalPhis(l.header, es, env)

	invs, decr := vc.eng.loopSpec(vc, fr, l)
	if ex, ok := fr.tryUnroll(l, g, st, env, len(invs) > 0); ok {
		return ex
	}
	vc.drops++
	return fr.cutLoop(l, g, st, env, invs, decr)
}

func (fr *Frame) tryUnroll(l *Loop, g *Term, st *State, env map[ssa.Value]Value, hasInv bool) (map[*ssa.BasicBlock][]Edge, bool) {
	vc := fr.vc
	ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	_ = ifi
	m := vc.mark()
	rets := len(fr.rets)
	defs := len(fr.defers)
	exits := map[*ssa.BasicBlock][]Edge{}
	cur := Edge{nil, g, st.clone(), copyEnv(env)}
	for k := 0; ; k++ {
		ex, back := fr.execRegion(l.body, l.header, []Edge{cur}, true)
		// header condition must have folded
		fromHeader := false
		for _, e := range ex {
			for _, x := range e {
				if x.from == l.header {
					fromHeader = true
				}
			}
		}
		symbolic := fromHeader && len(back) > 0
		if symbolic || (k >= vc.opt.unroll && len(back) > 0) {
			vc.restore(m)
			fr.rets = fr.rets[:rets]
			fr.defers = fr.defers[:defs]
			return nil, false
		}
		for to, e := range ex {
			exits[to] = append(exits[to], e...)
		}
		if len(back) == 0 {
			return exits, true
		}
		ng, nst := vc.mergeStates(back)
		nenv := fr.mergeEnv(back)
		fr.evalPhis(l.header, back, nenv)
		cur = Edge{nil, ng, nst, nenv}
	}
}

func copyEnv(e map[ssa.Value]Value) map[ssa.Value]Value {
	n := make(map[ssa.Value]Value, len(e))
	for k, v := range e {
		n[k] = v
	}
	return n
}

type modInfo struct {
	full bool
	idx  map[*Term]bool
}

// storeIndices collects the indices at which t was updated relative to base.
func storeIndices(t, base *Term, out map[*Term]bool) bool {
	if t == base {
		return true
	}
	switch t.op {
	case "store":
		out[t.args[1]] = true
		return storeIndices(t.args[0], base, out)
	case "ite":
		return storeIndices(t.args[1], base, out) && storeIndices(t.args[2], base, out)
	}
	// stores of the base overwritten since
	for base.op == "store" {
		out[base.args[1]] = true
		base = base.args[0]
	}
	return t == base
}

// hasSymAfter reports whether t mentions a symbol created after stamp n.
func hasSymAfter(t *Term, n int, seen map[int]bool) bool {
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	if t.op == "const" && t.seq > n {
		return true
	}
	for _, a := range t.args {
		if hasSymAfter(a, n, seen) {
			return true
		}
	}
	return false
}

func (fr *Frame) cutLoop(l *Loop, g *Term, st *State, env map[ssa.Value]Value, invs []Clause, decr *Expr) map[*ssa.BasicBlock][]Edge {
	vc := fr.vc
	vc.loops++
	loopID := fmt.Sprintf("%s/loop%d", fnKey(fr.fn), l.ord)
	stamp := P.symN
	allocEntry := st.alloc
	mods := map[string]*modInfo{}

	var phis []*ssa.Phi
	for _, ins := range l.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	// entry checks
	lk := fr.nameLookup(l.header)
	savedPre := fr.pre
	fr.pre = fr.specEnv(g, st.clone(), copyEnv(env), lk)
	defer func() { fr.pre = savedPre }()
	for _, c := range invs {
		t := fr.evalInv(c, g, st, env, lk)
		if t == nil {
			continue
		}
		if o := vc.oblige("loop-init", loopID+" "+c.label, g, t); o != nil {
			o.comment = c.label
		}
	}

	havocPhis := func(hst *State) map[ssa.Value]Value {
		e := copyEnv(env)
		for _, p := range phis {
			if _, ok := env[p]; !ok {
				continue
			}
			if fv, ok := env[p].(*FuncV); ok {
				_ = fv
			}
			if pv, ok := env[p].(*PtrV); ok && (pv.elem || pv.path != "") {
				unsup("loop-carried interior pointer %s", p.Name())
			}
			e[p] = vc.freshValue(hst, g, "phi."+p.Comment, p.Type())
		}
		return e
	}
	allMod := false // the body calls something that may change any part of the heap
	havocState := func() *State {
		h := st.clone()
		h.alloc = Fresh("alloc", SInt)
		vc.assume(True(), Le(allocEntry, h.alloc))
		if allMod {
			vc.havocAll(h)
		}
		var ks []string
		for k := range mods {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if allMod && !kept(k) {
				continue
			}
			m := mods[k]
			cur := vc.heapGet(st, k, sortOfKey(st, k))
			if m.full {
				nh := Fresh("H:"+k, cur.sort)
				h.heap[k] = nh
			} else {
				t := cur
				var is []*Term
				for i := range m.idx {
					is = append(is, i)
				}
				sort.Slice(is, func(a, b int) bool { return is[a].id < is[b].id })
				for _, i := range is {
					t = Store(t, i, Fresh("h:"+k, cur.sort.arrElem()))
				}
				h.heap[k] = t
			}
		}
		return h
	}

	if vc.con != nil && vc.con.modAll {
		vc.heapGet(st, bufContent, ArrSort(SInt, SStr))
		vc.heapGet(st, bufCell, ArrSort(SInt, SInt))
	}
	// dry runs to find the modified heap components
	for round := 0; round < 8; round++ {
		mk := vc.mark()
		rets, defs := len(fr.rets), len(fr.defers)
		loops := vc.loops
		vc.dry++
		dstamp := P.symN
		h := havocState()
		e := havocPhis(h)
		base := h.clone()
		for _, c := range invs {
			if t := fr.evalInv(c, g, h, e, lk); t != nil {
				vc.assume(g, t)
			}
		}
		_, back := fr.execRegion(l.body, l.header, []Edge{{nil, g, h, e}}, true)
		vc.dry--
		changed := false
		for _, b := range back {
			if b.st.epoch != base.epoch && !allMod {
				allMod, changed = true, true
			}
			for k, t := range b.st.heap {
				if allMod && !kept(k) {
					continue
				}
				bt, ok := base.heap[k]
				if !ok {
					bt = Sym(epochName(b.st.epoch, k), t.sort)
					if b.st.epoch != st.epoch {
						bt = nil
					}
				}
				if bt == t {
					continue
				}
				m := mods[k]
				if m == nil {
					m = &modInfo{idx: map[*Term]bool{}}
					mods[k] = m
					changed = true
					if _, ok := st.heap[k]; !ok {
						vc.heapGet(st, k, t.sort)
					}
				}
				idx := map[*Term]bool{}
				if bt == nil || !storeIndices(t, bt, idx) {
					if !m.full {
						m.full = true
						changed = true
					}
					continue
				}
				for i := range idx {
					if !m.idx[i] {
						if hasSymAfter(i, dstamp, map[int]bool{}) || hasSymAfter(i, stamp, map[int]bool{}) {
							if !m.full {
								m.full = true
								changed = true
							}
							continue
						}
						m.idx[i] = true
						changed = true
					}
				}
			}
		}
		vc.restore(mk)
		vc.loops = loops
		fr.rets = fr.rets[:rets]
		fr.defers = fr.defers[:defs]
		if !changed {
			break
		}
		if round == 6 {
			for _, m := range mods {
				m.full = true
			}
		}
	}

	h := havocState()
	// heap frame: references that the loop cannot have touched (fresh allocations only)
	e := havocPhis(h)
	// counting phis: lower bound from a syntactic check
	autoInv := fr.autoInvariants(l, env, phis)
	for _, f := range autoInv {
		vc.assume(g, f(e, h))
	}
	// frame candidates: objects that existed at loop entry are only changed at the known references
	var frameKeys []string
	frameName, frameLim := map[string]string{}, map[string]*Term{}
	for k, m := range mods {
		if !m.full || k == "rangepos" || !kept(k) && (allMod || vc.con != nil && vc.con.modAll) {
			continue
		}
		weak := false
		if vc.con != nil && vc.con.opts["weakframe"] {
			weak = len(vc.allowedLocs()[k]) > 0
			whole := false
			for _, l := range vc.allowedLocs()[k] {
				whole = whole || l.ref == nil
			}
			if whole {
				continue
			}
		}
		if !weak && !vc.dropInv[loopID+" frame:"+k] {
			frameKeys = append(frameKeys, k)
			frameName[k], frameLim[k] = " frame:", allocEntry
		} else if !vc.dropInv[loopID+" frame0:"+k] {
			// weaker: only what existed when the function was entered
			frameKeys = append(frameKeys, k)
			frameName[k], frameLim[k] = " frame0:", vc.entry.alloc
		}
	}
	sort.Strings(frameKeys)
	frameProp := func(k string, t, r *Term) *Term {
		cond := Lt(r, frameLim[k])
		for i := range mods[k].idx {
			cond = And(cond, Not(Eq(r, i)))
		}
		if frameName[k] == " frame0:" {
			for _, l := range vc.allowedLocs()[k] {
				if l.ref != nil {
					cond = And(cond, Not(Eq(r, l.ref)))
				}
			}
		}
		return Implies(cond, Eq(Select(t, r), Select(st.heap[k], r)))
	}
	for _, k := range frameKeys {
		r := Bound("r", SInt)
		hk := h.heap[k]
		vc.assume(True(), Forall([]*Term{r}, frameProp(k, hk, r), []*Term{Select(hk, r)}))
	}
	for _, c := range invs {
		if t := fr.evalInv(c, g, h, e, lk); t != nil {
			vc.assume(g, t)
		}
	}
	fr.hints(g, h, e, lk)
	var d0 *Term
	if decr != nil {
		d0 = fr.evalSpecTerm(decr, g, h, e, lk)
	}
	exits, back := fr.execRegion(l.body, l.header, []Edge{{nil, g, h.clone(), e}}, true)
	if len(back) > 0 {
		bg, bst := vc.mergeStates(back)
		benv := fr.mergeEnv(back)
		fr.evalPhis(l.header, back, benv)
		for _, c := range invs {
			t := fr.evalInv(c, bg, bst, benv, lk)
			if t == nil {
				continue
			}
			// one part per back edge, evaluated before the obligation is added (which is assumed from there on)
			var parts []oblPart
			if len(back) > 1 && len(back) <= 8 && !t.isTrue() {
				for i := range back {
					be := back[i : i+1]
					env1 := fr.mergeEnv(be)
					fr.evalPhis(l.header, be, env1)
					t1 := fr.evalInv(c, be[0].guard, be[0].st, env1, lk)
					if t1 == nil {
						parts = nil
						break
					}
					for _, x := range splitGoal(t1, vc.con != nil && vc.con.opts["skolem"]) {
						parts = append(parts, oblPart{be[0].guard, x})
					}
				}
			}
			if o := vc.oblige("loop-preserve", loopID+" "+c.label, bg, t); o != nil {
				o.comment = c.label
				o.parts = parts
			}
		}
		for _, k := range frameKeys {
			if o := vc.oblige("loop-preserve", loopID+frameName[k]+k, bg, frameProp(k, bst.heap[k], Fresh("fr.r", SInt))); o != nil {
				o.comment = "auto frame"
			}
		}
		if d0 != nil {
			d1 := fr.evalSpecTerm(decr, bg, bst, benv, lk)
			vc.oblige("termination", loopID+" decreases", bg, And(Lt(d1, d0), Le(Int(0), d0)))
		}
	}
	return exits
}

func sortOfKey(st *State, k string) Sort {
	if t, ok := st.heap[k]; ok {
		return t.sort
	}
	panic("sortOfKey " + k)
}

// autoInvariants: bounds for range indices, string range positions and simple counters.
// Each is justified by the shape of the back-edge value alone.
func (fr *Frame) autoInvariants(l *Loop, env map[ssa.Value]Value, phis []*ssa.Phi) []func(map[ssa.Value]Value, *State) *Term {
	var out []func(map[ssa.Value]Value, *State) *Term
	for _, p := range phis {
		init, ok := env[p].(*Term)
		if !ok || init.sort != SInt {
			continue
		}
		up := true
		for j, pr := range l.header.Preds {
			if !l.body[pr] {
				continue
			}
			if !incOf(p.Edges[j], p, 0) {
				up = false
			}
		}
		if !up {
			continue
		}
		pp := p
		out = append(out, func(e map[ssa.Value]Value, st *State) *Term { return Le(init, e[pp].(*Term)) })
		// header test (p+c) < n with n loop-invariant and every back edge guarded by it
		if f := fr.upperBound(l, p, init); f != nil {
			out = append(out, f)
		}
	}
	for v, val := range env {
		rv, ok := val.(*RangeV)
		if !ok || rv.str == nil {
			continue
		}
		_ = v
		out = append(out, func(e map[ssa.Value]Value, st *State) *Term {
			h, ok := st.heap["rangepos"]
			if !ok {
				return True()
			}
			pos := Select(h, rv.addr)
			return And(Le(Int(0), pos), Le(pos, SeqLen(rv.str)))
		})
	}
	return out
}

// incOf: v is p plus non-negative constants (through phis inside the loop).
func incOf(v ssa.Value, p *ssa.Phi, depth int) bool {
	if v == p {
		return true
	}
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op.String() == "+" {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Int64() >= 0 {
				return incOf(x.X, p, depth+1)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == x {
				continue
			}
			if !incOf(e, p, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// upperBound recognises `for rangeindex`: t = p+1; if t < n, back edge p = t.
func (fr *Frame) upperBound(l *Loop, p *ssa.Phi, init *Term) func(map[ssa.Value]Value, *State) *Term {
	ifi, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if !l.body[l.header.Succs[0]] || l.body[l.header.Succs[1]] {
		return nil
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || cmp.Op.String() != "<" {
		return nil
	}
	if in, ok := cmp.Y.(ssa.Instruction); ok && l.body[in.Block()] {
		return nil
	}
	lhs := cmp.X
	// case A: lhs == p+1 and back edges carry lhs  => p <= n-1 (or p == init)
	// case B: lhs == p and back edges carry p+1    => p <= n   (or p == init)
	mode := 0
	for j, pr := range l.header.Preds {
		if !l.body[pr] {
			continue
		}
		e := p.Edges[j]
		b, isB := e.(*ssa.BinOp)
		switch {
		case e == lhs && isPlus1(lhs, p):
			if mode == 2 {
				return nil
			}
			mode = 1
		case lhs == ssa.Value(p) && isB && isPlus1(b, p):
			if mode == 1 {
				return nil
			}
			mode = 2
		default:
			return nil
		}
	}
	if mode == 0 {
		return nil
	}
	return func(e map[ssa.Value]Value, st *State) *Term {
		nv, err := tryMerge(func() Value { return fr.get(e, cmp.Y) })
		if !err {
			return True()
		}
		n, ok := nv.(*Term)
		if !ok || n.sort != SInt {
			return True()
		}
		pv := e[p].(*Term)
		if mode == 1 {
			return Or(Eq(pv, init), Lt(pv, n))
		}
		return Or(Eq(pv, init), Le(pv, n))
	}
}

func isPlus1(v ssa.Value, p *ssa.Phi) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op.String() != "+" || b.X != ssa.Value(p) {
		return false
	}
	c, ok := b.Y.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == 1
}

// ---------- naming of program variables in specifications ----------

type lookupFn func(name string, env map[ssa.Value]Value, st *State) (SV, bool)

func (fr *Frame) nameLookup(header *ssa.BasicBlock) lookupFn {
	type cand struct {
		v    ssa.Value
		addr bool
	}
	cache := map[string]cand{}
	resolve := func(name string) (cand, bool) {
		if c, ok := cache[name]; ok {
			return c, c.v != nil
		}
		var best cand
		if header != nil {
			for _, ins := range header.Instrs {
				if p, ok := ins.(*ssa.Phi); ok && p.Comment == name {
					best = cand{p, false}
				}
			}
		}
		if best.v == nil {
			// address-taken locals
			for _, b := range fr.fn.Blocks {
				for _, ins := range b.Instrs {
					if a, ok := ins.(*ssa.Alloc); ok && a.Comment == name && (header == nil || b.Dominates(header)) {
						best = cand{a, true}
					}
				}
			}
		}
		if best.v == nil {
			for _, b := range fr.fn.Blocks {
				if header != nil && !(b.Dominates(header)) {
					continue
				}
				for _, ins := range b.Instrs {
					if p, ok := ins.(*ssa.Phi); ok && p.Comment == name && b != header {
						best = cand{p, false}
					}
					d, ok := ins.(*ssa.DebugRef)
					if !ok || d.IsAddr {
						continue
					}
					id, ok := d.Expr.(*ast.Ident)
					if !ok || id.Name != name {
						continue
					}
					if b == header {
						continue
					}
					best = cand{d.X, false}
				}
			}
		}
		if best.v == nil {
			for _, p := range fr.fn.Params {
				if p.Name() == name {
					best = cand{p, false}
				}
			}
			for _, p := range fr.fn.FreeVars {
				if p.Name() == name {
					best = cand{p, true}
				}
			}
		}
		cache[name] = best
		return best, best.v != nil
	}
	return func(name string, env map[ssa.Value]Value, st *State) (SV, bool) {
		if len(name) > 1 && name[0] == '$' && name[1] == 'k' {
			// position of the string range iterator
			for _, v := range env {
				if rv, ok := v.(*RangeV); ok && rv.str != nil {
					if in, ok := rv.src.(ssa.Instruction); ok && in.Parent() == fr.fn {
						if h, ok := st.heap["rangepos"]; ok {
							return SV{Select(h, rv.addr), tInt}, true
						}
					}
				}
			}
			return SV{}, false
		}
		if name == "$i" {
			name = "rangeindex"
		}
		wantAddr := strings.HasPrefix(name, "&")
		name = strings.TrimPrefix(name, "&")
		c, ok := resolve(name)
		if !ok {
			if now := fr.vc.eng.renamed(fr.fn)[name]; now != "" {
				c, ok = resolve(now)
			}
		}
		if !ok {
			return SV{}, false
		}
		v, ok2 := tryMerge(func() Value { return fr.get(env, c.v) })
		if !ok2 {
			return SV{}, false
		}
		if c.addr {
			p, ok := v.(*PtrV)
			if !ok {
				return SV{}, false
			}
			if wantAddr {
				return SV{p, p.typ}, true
			}
			return SV{fr.vc.load(st, True(), p), p.typ}, true
		}
		if wantAddr {
			return SV{}, false
		}
		t := c.v.Type()
		return SV{v, t}, true
	}
}

func (fr *Frame) specEnv(g *Term, st *State, env map[ssa.Value]Value, lk lookupFn) *SpecEnv {
	se := &SpecEnv{vc: fr.vc, st: st, old: fr.entry, vars: map[string]SV{}, oldV: map[string]SV{}, guard: g, targs: typeArgsOf(fr.fn)}
	if fr.fn.Pkg != nil {
		se.pkg = fr.fn.Pkg.Pkg
	} else if o := fr.fn.Origin(); o != nil && o.Pkg != nil {
		se.pkg = o.Pkg.Pkg
	} else if fr.fn.Parent() != nil && fr.fn.Parent().Pkg != nil {
		se.pkg = fr.fn.Parent().Pkg.Pkg
	}
	for i, p := range fr.fn.Params {
		se.oldV[p.Name()] = SV{fr.args[i], p.Type()}
	}
	for was, now := range fr.vc.eng.renamed(fr.fn) {
		if v, ok := se.oldV[now]; ok {
			if _, clash := se.oldV[was]; !clash {
				se.oldV[was] = v
			}
		}
	}
	se.pre = fr.pre
	if lk != nil {
		se.lookup = func(name string, s *State) (SV, bool) { return lk(name, env, s) }
	}
	return se
}

func typeArgsOf(fn *ssa.Function) map[string]types.Type {
	m := map[string]types.Type{}
	if tps, tas := fn.TypeParams(), fn.TypeArgs(); tps != nil && len(tas) == tps.Len() {
		for i := range tas {
			m[tps.At(i).Obj().Name()] = tas[i]
		}
		return m
	}
	if r := fn.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			for i := 0; i < n.TypeArgs().Len(); i++ {
				m[n.Origin().TypeParams().At(i).Obj().Name()] = n.TypeArgs().At(i)
			}
		}
	}
	return m
}

// evalInv evaluates an invariant; nil when it does not apply (names missing).
func (fr *Frame) evalInv(c Clause, g *Term, st *State, env map[ssa.Value]Value, lk lookupFn) (res *Term) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				fr.vc.specNotes[c.label+": "+se.msg] = true
				res = nil
				return
			}
			panic(r)
		}
	}()
	return fr.specEnv(g, st, env, lk).evalBool(c.e)
}

func (fr *Frame) evalSpecTerm(x *Expr, g *Term, st *State, env map[ssa.Value]Value, lk lookupFn) *Term {
	return fr.specEnv(g, st, env, lk).evalTerm(x)
}

// hints assumes the definitions and lemma instances named for a loop at its head.
func (fr *Frame) hints(g *Term, st *State, env map[ssa.Value]Value, lk lookupFn) {
	vc := fr.vc
	con := vc.con
	if con == nil || fr.fn != vc.fn {
		return
	}
	try := func(f func() *Term) {
		defer func() {
			if r := recover(); r != nil {
				if se, ok := r.(specErr); ok {
					vc.specNotes["hint: "+se.msg] = true
					return
				}
				panic(r)
			}
		}()
		vc.assume(g, f())
	}
	for n, xs := range con.unfolds {
		for _, x := range xs {
			if n > 0 {
				try(func() *Term { return fr.specEnv(g, st, env, lk).unfoldRec(x) })
			}
		}
	}
	for n, xs := range con.luses {
		for _, x := range xs {
			if n > 0 {
				try(func() *Term { return vc.eng.instLemma(fr.specEnv(g, st, env, lk), x, nil) })
			}
		}
	}
}
