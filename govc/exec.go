package main

// Forward symbolic execution of go/ssa functions with state merging at joins.
// Produces verification conditions (guarded facts + obligations).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	heap  map[string]*Term
	alloc *Term
	epoch int
}

func epochName(e int, key string) string {
	if e == 0 {
		return "H0:" + key
	}
	return fmt.Sprintf("He%d:%s", e, key)
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), alloc: s.alloc, epoch: s.epoch}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

type Obl struct {
	name   string
	kind   string
	pos    string
	fn     string
	guard  *Term
	goal   *Term
	nfacts int
	parts  []oblPart // finer equivalent obligations, tried when the whole is not decided
	prop   bool      // comes from a property-tagged ensures
	// filled by the solver stage
	status  string // proved / failed / unknown
	solver  string
	secs    float64
	model   string
	comment string
	lite    string // script without quantified facts, tried first
}

type oblPart struct{ guard, goal *Term }

type Options struct {
	nilcheck   bool
	bounds     bool
	unroll     int
	divcheck   bool
	selfInline bool
	allinv     bool
	split      bool // keep paths apart at joins
}

type VC struct {
	topArgs   []Value
	entryOld  *State
	allowed   map[string][]modLoc
	applied   []applyRec
	curGuard  *Term           // guard of the block being executed
	factTag   map[int][]*Term // per fact: the guards under which it arose
	topRets   []Ret
	eng       *Engine
	fn        *ssa.Function
	con       *Contract
	facts     []*Term
	obls      []*Obl
	dry       int
	opt       Options
	depth     int
	stack     []*ssa.Function
	assume_   map[string]bool // assumptions used
	used      map[string]bool // contracts used
	inlined   map[string]bool
	entry     *State
	counts    map[string]int
	visits    int
	factSet   map[int]bool
	curPos    string
	exits     []exit
	initSet   map[string]bool
	loops     int
	drops     int
	epochs    int
	specNotes map[string]bool
	disabled  map[string]bool // contracts replaced by inlining
	known     map[*Term]*Term // terms the precondition fixes to a constant
	ext       map[string]bool
	opaque    map[string]bool
	opReads   map[string]map[string]Sort // heap components read by opaque predicates
	reading   map[string]Sort
	lemUsed   map[string]bool
	dropInv   map[string]bool // loop invariants dropped (not inductive)
}

type exit struct {
	guard *Term
	st    *State
}

func (vc *VC) assume(guard, f *Term) {
	if f.isTrue() {
		return
	}
	t := Implies(guard, reindex(f))
	if t.isTrue() {
		return
	}
	if vc.factSet[t.id] {
		if tags, ok := vc.factTag[t.id]; ok && tags[len(tags)-1] != vc.curGuard {
			if vc.curGuard == nil || len(tags) > 200 {
				delete(vc.factTag, t.id)
			} else {
				vc.factTag[t.id] = append(tags, vc.curGuard)
			}
		}
		return
	}
	vc.factSet[t.id] = true
	if vc.curGuard != nil {
		vc.factTag[t.id] = []*Term{vc.curGuard}
	}
	vc.facts = append(vc.facts, t)
}

func (vc *VC) note(f string, a ...any) { vc.assume_[fmt.Sprintf(f, a...)] = true }

func (vc *VC) oblige(kind, name string, guard, goal *Term) *Obl {
	if vc.dry > 0 {
		return nil
	}
	vc.counts[kind+":"+name]++
	n := name
	if c := vc.counts[kind+":"+name]; c > 1 {
		n = fmt.Sprintf("%s#%d", name, c)
	}
	o := &Obl{name: n, kind: kind, pos: vc.curPos, fn: fnKey(vc.fn), guard: guard, goal: goal, nfacts: len(vc.facts)}
	vc.obls = append(vc.obls, o)
	// after checking, the goal may be assumed
	vc.assume(guard, goal)
	return o
}

// ---------- heap ----------

func (vc *VC) heapGet(st *State, key string, s Sort) *Term {
	if vc.reading != nil {
		vc.reading[key] = s
	}
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := Sym(epochName(st.epoch, key), s)
	st.heap[key] = t
	if vc.entry != nil && vc.entry != st && st.epoch == 0 {
		if _, ok := vc.entry.heap[key]; !ok {
			vc.entry.heap[key] = t
		}
	}
	return t
}

func objKey(root types.Type, path string) string {
	return typeKey(root) + path
}
func elemKey(root types.Type, path string) string { return "[]" + typeKey(root) + path }

func (vc *VC) load(st *State, guard *Term, p *PtrV) Value {
	if _, ok := p.root.Underlying().(*types.Array); ok && !p.elem && p.path == "" {
		// whole-array load
		at := p.root.Underlying().(*types.Array)
		r := &ArrayV{typ: at}
		for _, l := range TE.flatten(at.Elem()) {
			h := vc.heapGet(st, elemKey(at.Elem(), l.path), ArrSort(SInt, ArrSort(SInt, l.sort)))
			r.leaves = append(r.leaves, Select(h, p.base))
		}
		return r
	}
	ls := TE.flatten(p.typ)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = vc.loadLeaf(st, p, l)
	}
	vc.typeFacts(st, guard, ls, ts)
	return fromLeaves(p.typ, ts)
}

func (vc *VC) loadLeaf(st *State, p *PtrV, l Leaf) *Term {
	if p.elem {
		h := vc.heapGet(st, elemKey(p.root, p.path+l.path), ArrSort(SInt, ArrSort(SInt, l.sort)))
		return Select(Select(h, p.base), p.idx)
	}
	h := vc.heapGet(st, objKey(p.root, p.path+l.path), ArrSort(SInt, l.sort))
	return Select(h, p.base)
}

// typeFacts asserts well-formedness facts for leaves read from outside.
func (vc *VC) typeFacts(st *State, guard *Term, ls []Leaf, ts []*Term) {
	g := True() // heap well-formedness is unconditional for initial data
	_ = guard
	for i, l := range ls {
		t := ts[i]
		if t.isLit() || t.bound {
			continue
		}
		switch l.kind {
		case "ptr", "map":
			vc.assume(g, And(Le(Int(-100000), t), Lt(t, st.alloc)))
		case "arr":
			off, ln, cp := ts[i+1], ts[i+2], ts[i+3]
			vc.assume(g, And(Le(Int(0), t), Lt(t, st.alloc), Le(Int(0), off), Le(Int(0), ln), Le(ln, cp), Implies(Eq(t, Int(0)), Eq(cp, Int(0)))))
		case "tag":
			vc.assume(g, And(Le(Int(0), t), Implies(Eq(t, Int(0)), Eq(ts[i+1], Int(0))), Lt(ts[i+1], Add(st.alloc, Int(0)))).andIfPtr(l, ts[i], ts[i+1], st))
		case "":
			if l.typ != nil {
				if f := rangeFact(t, l.typ); f != nil {
					vc.assume(g, f)
				}
			}
		}
	}
}

// andIfPtr keeps only the facts that are valid for boxed payloads.
func (t *Term) andIfPtr(l Leaf, tag, val *Term, st *State) *Term {
	// payload may be a boxed non-pointer: no bound can be assumed on it in general
	return And(Le(Int(0), tag), Implies(Eq(tag, Int(0)), Eq(val, Int(0))))
}

func rangeFact(t *Term, typ types.Type) *Term {
	if t.sort != SInt {
		return nil
	}
	w, signed, ok := intInfo(typ)
	if !ok {
		return nil
	}
	if w == 64 && signed {
		return nil
	}
	lo, hi := intRange(w, signed)
	if w == 64 {
		return Le(Int(0), t)
	}
	return And(Le(BigInt(lo), t), Le(t, BigInt(hi)))
}

func intRange(w int, signed bool) (*big.Int, *big.Int) {
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(w-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	h := new(big.Int).Lsh(one, uint(w))
	return big.NewInt(0), new(big.Int).Sub(h, one)
}

func (vc *VC) store(st *State, p *PtrV, v Value) {
	if at, ok := p.root.Underlying().(*types.Array); ok && !p.elem && p.path == "" {
		ls := TE.flatten(at.Elem())
		av := toLeaves(v)
		for i, l := range ls {
			k := elemKey(at.Elem(), l.path)
			h := vc.heapGet(st, k, ArrSort(SInt, ArrSort(SInt, l.sort)))
			st.heap[k] = Store(h, p.base, av[i])
		}
		return
	}
	ls := TE.flatten(p.typ)
	ts := toLeaves(v)
	if len(ls) != len(ts) {
		unsup("store shape mismatch at %s%s", typeKey(p.root), p.path)
	}
	for i, l := range ls {
		vc.storeLeaf(st, p, l, ts[i])
	}
}

func (vc *VC) storeLeaf(st *State, p *PtrV, l Leaf, t *Term) {
	if p.elem {
		k := elemKey(p.root, p.path+l.path)
		h := vc.heapGet(st, k, ArrSort(SInt, ArrSort(SInt, l.sort)))
		st.heap[k] = Store(h, p.base, Store(Select(h, p.base), p.idx, t))
		return
	}
	k := objKey(p.root, p.path+l.path)
	h := vc.heapGet(st, k, ArrSort(SInt, l.sort))
	st.heap[k] = Store(h, p.base, t)
}

func (vc *VC) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(r, Int(1))
	return r
}

// ---------- fresh values ----------

func (vc *VC) freshValue(st *State, guard *Term, name string, t types.Type) Value {
	if tup, ok := t.(*types.Tuple); ok {
		r := &TupleV{}
		for i := 0; i < tup.Len(); i++ {
			r.vs = append(r.vs, vc.freshValue(st, guard, fmt.Sprintf("%s.%d", name, i), tup.At(i).Type()))
		}
		return r
	}
	ls := TE.flatten(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = Fresh(name+l.path, l.sort)
	}
	vc.typeFacts(st, guard, ls, ts)
	return fromLeaves(t, ts)
}

// ---------- frames ----------

type Edge struct {
	from  *ssa.BasicBlock
	guard *Term
	st    *State
	env   map[ssa.Value]Value
}

type Ret struct {
	guard *Term
	st    *State
	vals  []Value
}

type Frame struct {
	vc     *VC
	fn     *ssa.Function
	rets   []Ret
	loops  map[*ssa.BasicBlock]*Loop
	rpo    []*ssa.BasicBlock
	defers []deferred
	names  map[string]bool
	parent *Frame
	args   []Value
	binds  []Value
	entry  *State
	pre    *SpecEnv // at the entry of the innermost loop being cut
}

type deferred struct {
	guard *Term
	call  *ssa.CallCommon
	args  []Value
	fnv   Value
	instr ssa.Instruction
}

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
	parent *Loop
}

func rpoOf(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func findLoops(fn *ssa.Function, rpo []*ssa.BasicBlock) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	reach := map[*ssa.BasicBlock]bool{}
	for _, b := range rpo {
		reach[b] = true
	}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if reach[p] && !l.body[p] {
							l.body[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	// ordinals by source position of the header's enclosing statement (rpo order of headers)
	var hs []*ssa.BasicBlock
	for h := range loops {
		hs = append(hs, h)
	}
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range rpo {
		idx[b] = i
	}
	sort.Slice(hs, func(i, j int) bool { return idx[hs[i]] < idx[hs[j]] })
	for i, h := range hs {
		loops[h].ord = i + 1
		for _, h2 := range hs {
			if h2 != h && loops[h2].body[h] {
				if loops[h].parent == nil || loops[loops[h].parent.header].body[h2] {
					loops[h].parent = loops[h2]
				}
			}
		}
	}
	return loops
}

// mergeEdges merges states of several edges; returns guard, state, env.
func (vc *VC) mergeStates(es []Edge) (*Term, *State) {
	g := es[0].guard
	for _, e := range es[1:] {
		g = Or(g, e.guard)
	}
	if len(es) == 1 {
		return g, es[0].st.clone()
	}
	conds := edgeConds(es)
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st.heap {
			keys[k] = true
		}
	}
	st := &State{heap: map[string]*Term{}, epoch: es[0].st.epoch}
	for _, e := range es {
		if e.st.epoch != st.epoch {
			vc.epochs++
			st.epoch = 1000000 + vc.epochs
			break
		}
	}
	al := es[len(es)-1].st.alloc
	same := true
	for _, e := range es {
		if e.st.alloc != al {
			same = false
		}
	}
	if same {
		st.alloc = al
	} else {
		na := Fresh("alloc", SInt)
		for _, e := range es {
			vc.assume(True(), Le(e.st.alloc, na))
		}
		st.alloc = na
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var srt Sort
		for _, e := range es {
			if t, ok := e.st.heap[k]; ok {
				srt = t.sort
			}
		}
		cur := vc.heapGet(es[len(es)-1].st, k, srt)
		for i := len(es) - 2; i >= 0; i-- {
			cur = Ite(conds[i], vc.heapGet(es[i].st, k, srt), cur)
		}
		st.heap[k] = cur
	}
	return g, st
}

// edgeConds gives, for each edge but the last, a short condition selecting it.
func edgeConds(es []Edge) []*Term {
	// strip conjuncts common to all guards
	common := map[int]int{}
	for _, e := range es {
		for _, c := range conjuncts(e.guard) {
			common[c.id]++
		}
	}
	out := make([]*Term, len(es))
	for i, e := range es {
		var keep []*Term
		for _, c := range conjuncts(e.guard) {
			if common[c.id] < len(es) {
				keep = append(keep, c)
			}
		}
		out[i] = And(keep...)
	}
	return out
}

func mergeMany(es []Edge, vals []Value) Value {
	conds := edgeConds(es)
	cur := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		cur = mergeVals(conds[i], vals[i], cur)
	}
	return cur
}

func tryMerge(f func() Value) (v Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return f(), true
}

func (fr *Frame) mergeEnv(es []Edge) map[ssa.Value]Value {
	if len(es) == 1 {
		n := make(map[ssa.Value]Value, len(es[0].env))
		for k, v := range es[0].env {
			n[k] = v
		}
		return n
	}
	n := map[ssa.Value]Value{}
	for k, v := range es[0].env {
		same, all := true, true
		vals := make([]Value, len(es))
		vals[0] = v
		for i := 1; i < len(es); i++ {
			w, ok := es[i].env[k]
			if !ok {
				all = false
				break
			}
			vals[i] = w
			if w != v {
				same = false
			}
		}
		if !all {
			continue
		}
		if same {
			n[k] = v
			continue
		}
		if m, ok := tryMerge(func() Value { return mergeMany(es, vals) }); ok {
			n[k] = m
		}
	}
	return n
}

// ---------- region execution ----------

const maxVisits = 60000

// execRegion runs the blocks in region starting at entry with the given edges.
// It returns edges leaving the region (by target) and back edges to the entry.
func (fr *Frame) execRegion(region map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []Edge, phiDone bool) (exits map[*ssa.BasicBlock][]Edge, back []Edge) {
	vc := fr.vc
	pending := map[*ssa.BasicBlock][]Edge{}
	pending[entry] = in
	exits = map[*ssa.BasicBlock][]Edge{}
	route := func(to *ssa.BasicBlock, e Edge) {
		if e.guard.isFalse() {
			return
		}
		if region != nil && !region[to] {
			exits[to] = append(exits[to], e)
			return
		}
		if to == entry && region != nil {
			back = append(back, e)
			return
		}
		pending[to] = append(pending[to], e)
	}
	for _, b := range fr.rpo {
		if region != nil && !region[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if l := fr.loops[b]; l != nil && !(b == entry && region != nil && phiDone) {
			ex := fr.execLoop(l, es)
			var tos []*ssa.BasicBlock
			for to := range ex {
				tos = append(tos, to)
			}
			sort.Slice(tos, func(i, j int) bool { return tos[i].Index < tos[j].Index })
			for _, to := range tos {
				for _, e := range ex[to] {
					route(to, e)
				}
			}
			continue
		}
		vc.visits++
		if vc.visits > maxVisits {
			unsup("block visit limit exceeded in %s", fr.fn)
		}
		groups := [][]Edge{es}
		if vc.opt.split && fr.parent == nil && region == nil && len(es) > 1 {
			groups = nil
			for _, e := range es {
				groups = append(groups, []Edge{e})
			}
		}
		for _, es := range groups {
			g, st := vc.mergeStates(es)
			env := fr.mergeEnv(es)
			if !(b == entry && phiDone) {
				fr.evalPhis(b, es, env)
			}
			fr.execBlock(b, g, st, env, route)
		}
	}
	return exits, back
}

func (fr *Frame) evalPhis(b *ssa.BasicBlock, es []Edge, env map[ssa.Value]Value) {
	var upd []func()
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals := make([]Value, len(es))
		bad := false
		for i, e := range es {
			for j, p := range b.Preds {
				if p == e.from {
					v, ok := tryMerge(func() Value { return fr.get(e.env, phi.Edges[j]) })
					if !ok {
						bad = true
					}
					vals[i] = v
				}
			}
		}
		if bad {
			continue
		}
		v := mergeMany(es, vals)
		p := phi
		upd = append(upd, func() { env[p] = v })
	}
	for _, u := range upd {
		u()
	}
}

func (fr *Frame) get(env map[ssa.Value]Value, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constValue(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{bi: x.Name()}
	case *ssa.Global:
		return fr.vc.eng.globalPtr(x)
	}
	r, ok := env[v]
	if !ok {
		unsup("undefined value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if _, isTP := types.Unalias(t).(*types.TypeParam); isTP {
			unsup("typeparam constant")
		}
		unsup("const of type %s", t)
	}
	return basicConst(c.Value, b, t)
}

func basicConst(v constant.Value, b *types.Basic, t types.Type) Value {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Bool(constant.BoolVal(v))
	case b.Info()&types.IsInteger != 0:
		iv := constant.ToInt(v)
		n, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			unsup("int const %s", v)
		}
		if TE.bv {
			w, _, _ := intInfo(t)
			return BVLit(n, w)
		}
		return BigInt(n)
	case b.Info()&types.IsString != 0:
		return StrLit(constant.StringVal(v))
	case b.Info()&types.IsFloat != 0:
		return Sym("float_"+sanitize(v.ExactString()), "U_Float")
	}
	unsup("const %s", v)
	return nil
}

func (fr *Frame) execBlock(b *ssa.BasicBlock, g *Term, st *State, env map[ssa.Value]Value, route func(*ssa.BasicBlock, Edge)) {
	vc := fr.vc
	defer func() { vc.curGuard = nil }()
	for _, ins := range b.Instrs {
		vc.curGuard = g
		if p := ins.Pos(); p.IsValid() {
			vc.curPos = vc.eng.posStr(p)
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := fr.get(env, x.Cond).(*Term)
			fr.branch(b, g, c, st, env, route)
			return
		case *ssa.Jump:
			route(b.Succs[0], Edge{b, g, st, env})
			return
		case *ssa.Return:
			var vs []Value
			for _, r := range x.Results {
				vs = append(vs, fr.get(env, r))
			}
			fr.rets = append(fr.rets, Ret{g, st, vs})
			return
		case *ssa.Panic:
			vc.oblige("panic", "unreachable-panic", g, False())
			vc.drops++
			return
		case *ssa.RunDefers:
			g = fr.runDefers(g, st, env)
		default:
			var ng *Term
			ng = fr.execInstr(ins, g, st, env)
			if ng != nil {
				g = ng
			}
			if g.isFalse() {
				return
			}
		}
	}
}

func (fr *Frame) branch(b *ssa.BasicBlock, g, c *Term, st *State, env map[ssa.Value]Value, route func(*ssa.BasicBlock, Edge)) {
	// contextual simplification against the path guard
	for _, k := range conjuncts(g) {
		if k == c {
			c = True()
			break
		}
		if k == Not(c) {
			c = False()
			break
		}
	}
	gt, gf := And(g, c), And(g, Not(c))
	if !gt.isFalse() {
		s := st
		if !gf.isFalse() {
			s = st.clone()
		}
		route(b.Succs[0], Edge{b, gt, s, env})
	}
	if !gf.isFalse() {
		route(b.Succs[1], Edge{b, gf, st, env})
	}
}

// callFunction inlines fn's body.
func (vc *VC) callBody(fn *ssa.Function, args, binds []Value, g *Term, st *State, parent *Frame) (Value, *Term, *State) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	for _, s := range vc.stack {
		if s == fn {
			unsup("recursive call of %s without contract", fnKey(fn))
		}
	}
	if len(vc.stack) > 40 {
		unsup("inlining too deep at %s", fn)
	}
	vc.stack = append(vc.stack, fn)
	defer func() { vc.stack = vc.stack[:len(vc.stack)-1] }()
	fr := &Frame{vc: vc, fn: fn, rpo: rpoOf(fn), parent: parent, args: args, binds: binds}
	fr.loops = findLoops(fn, fr.rpo)
	env := map[ssa.Value]Value{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = binds[i]
	}
	fr.entry = st.clone()
	drops := vc.drops
	fr.execRegion(nil, fn.Blocks[0], []Edge{{nil, g, st, env}}, true)
	if len(fr.rets) == 0 {
		vc.drops++
		return zeroResults(fn), False(), st
	}
	es := make([]Edge, len(fr.rets))
	for i, r := range fr.rets {
		es[i] = Edge{guard: r.guard, st: r.st}
	}
	if parent == nil {
		vc.topRets = fr.rets
	}
	og, ost := vc.mergeStates(es)
	n := len(fr.rets[0].vals)
	outs := make([]Value, n)
	for j := 0; j < n; j++ {
		vals := make([]Value, len(es))
		for i := range es {
			vals[i] = fr.rets[i].vals[j]
		}
		outs[j] = mergeMany(es, vals)
	}
	// if every path returns, keep the caller's guard (avoids guard growth)
	if vc.drops == drops {
		og = g
	}
	return packResults(outs), og, ost
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	var outs []Value
	for i := 0; i < r.Len(); i++ {
		outs = append(outs, zeroValue(r.At(i).Type()))
	}
	return packResults(outs)
}

func packResults(outs []Value) Value {
	switch len(outs) {
	case 0:
		return nil
	case 1:
		return outs[0]
	}
	return &TupleV{outs}
}

func derefPtr(v Value) *PtrV {
	p, ok := v.(*PtrV)
	if !ok {
		unsup("pointer expected, got %T", v)
	}
	return p
}

// forPtr applies f to each alternative of a pointer value.
func (fr *Frame) nilCheck(g *Term, p *PtrV, what string) {
	if fr.vc.opt.nilcheck && !p.elem {
		fr.vc.oblige("nil", "nil-deref "+what, g, Not(Eq(p.base, Int(0))))
	} else if !p.elem {
		fr.vc.assume(g, Not(Eq(p.base, Int(0))))
	}
}

func (fr *Frame) execInstr(ins ssa.Instruction, g *Term, st *State, env map[ssa.Value]Value) *Term {
	vc := fr.vc
	set := func(v Value) { env[ins.(ssa.Value)] = v }
	switch x := ins.(type) {
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		r := vc.newRef(st)
		p := &PtrV{base: r, root: et, typ: et}
		if at, ok := et.Underlying().(*types.Array); ok {
			for _, l := range TE.flatten(at.Elem()) {
				k := elemKey(at.Elem(), l.path)
				s := ArrSort(SInt, l.sort)
				h := vc.heapGet(st, k, ArrSort(SInt, s))
				st.heap[k] = Store(h, r, ConstArr(s, zeroLeaf(l)))
			}
		} else {
			vc.store(st, p, zeroValue(et))
			vc.zeroGhost(st, et, r)
		}
		set(p)
	case *ssa.Store:
		v := fr.get(env, x.Val)
		fr.eachPtr(fr.get(env, x.Addr), g, func(p *PtrV, c *Term) {
			fr.nilCheck(And(g, c), p, "store")
			if c.isTrue() {
				vc.store(st, p, v)
			} else {
				old := vc.load(st, g, p)
				vc.store(st, p, mergeVals(c, v, old))
			}
		})
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			var res Value
			if gl, ok := x.X.(*ssa.Global); ok {
				if ex, ok := vc.eng.gregex[gl]; ok {
					if p, ok := vc.load(st, g, vc.eng.globalPtr(gl)).(*PtrV); ok {
						q := regexPtr(p, ex)
						vc.assume(True(), Not(Eq(q.base, Int(0))))
						set(q)
						return g
					}
				}
			}
			first := true
			fr.eachPtr(fr.get(env, x.X), g, func(p *PtrV, c *Term) {
				fr.nilCheck(And(g, c), p, "load")
				v := vc.load(st, g, p)
				if first {
					res = v
					first = false
				} else {
					res = mergeVals(c, v, res)
				}
			})
			set(res)
		case token.NOT:
			set(Not(fr.get(env, x.X).(*Term)))
		case token.SUB:
			a := fr.get(env, x.X).(*Term)
			if a.sort == SInt {
				set(wrapInt(Sub(Int(0), a), x.Type()))
			} else if w, ok := a.sort.isBV(); ok {
				set(bvop("bvsub", BVLit(new(big.Int), w), a))
			} else {
				set(App("fneg", a.sort, a))
			}
		case token.XOR:
			a := fr.get(env, x.X).(*Term)
			if _, ok := a.sort.isBV(); ok {
				set(Raw("bvnot", a.sort, a))
			} else {
				set(wrapInt(Sub(Int(-1), a), x.Type()))
			}
		default:
			unsup("unop %s", x.Op)
		}
	case *ssa.BinOp:
		set(fr.binop(x, g, st, fr.get(env, x.X), fr.get(env, x.Y)))
	case *ssa.FieldAddr:
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := stt.Field(x.Field)
		v := fr.get(env, x.X)
		set(fr.mapPtr(v, g, func(p *PtrV, c *Term) *PtrV {
			fr.nilCheck(And(g, c), p, "field "+f.Name())
			r := *p
			r.path += "." + f.Name()
			r.typ = f.Type()
			return &r
		}))
	case *ssa.Field:
		v := fr.get(env, x.X)
		sv, ok := v.(*StructV)
		if !ok {
			unsup("field of %T", v)
		}
		set(sv.f[x.Field])
	case *ssa.IndexAddr:
		idx := fr.get(env, x.Index).(*Term)
		switch s := fr.get(env, x.X).(type) {
		case *SliceV:
			fr.boundsCheck(g, idx, s.ln, "index")
			set(&PtrV{elem: true, base: s.arr, idx: Add(s.off, toInt(idx)), root: s.elem, typ: s.elem})
		case *PtrV:
			at, ok := s.typ.Underlying().(*types.Array)
			if !ok || s.path != "" || s.elem {
				unsup("IndexAddr on embedded array")
			}
			fr.boundsCheck(g, idx, Int(at.Len()), "index")
			set(&PtrV{elem: true, base: s.base, idx: toInt(idx), root: at.Elem(), typ: at.Elem()})
		default:
			unsup("IndexAddr on %T", s)
		}
	case *ssa.Index:
		idx := fr.get(env, x.Index).(*Term)
		switch s := fr.get(env, x.X).(type) {
		case *ArrayV:
			fr.boundsCheck(g, idx, Int(s.typ.Len()), "index")
			ts := make([]*Term, len(s.leaves))
			for i, l := range s.leaves {
				ts[i] = Select(l, idx)
			}
			set(fromLeaves(s.typ.Elem(), ts))
		case *Term:
			set(fr.strIndex(g, s, idx))
		default:
			unsup("Index on %T", s)
		}
	case *ssa.Lookup:
		switch m := fr.get(env, x.X).(type) {
		case *MapV:
			v, ok := vc.mapLookup(st, g, m, fr.get(env, x.Index))
			if x.CommaOk {
				set(&TupleV{[]Value{v, ok}})
			} else {
				set(v)
			}
		case *Term:
			set(fr.strIndex(g, m, fr.get(env, x.Index).(*Term)))
		default:
			unsup("lookup on %T", m)
		}
	case *ssa.MapUpdate:
		m := fr.get(env, x.Map).(*MapV)
		vc.mapUpdate(st, m, fr.get(env, x.Key), fr.get(env, x.Value), True())
	case *ssa.MakeMap:
		r := vc.newRef(st)
		m := &MapV{r, x.Type().Underlying().(*types.Map)}
		vc.mapClear(st, m)
		set(m)
	case *ssa.MakeSlice:
		ln := toInt(fr.get(env, x.Len).(*Term))
		cp := toInt(fr.get(env, x.Cap).(*Term))
		if vc.opt.bounds {
			vc.oblige("bounds", "make-len", g, And(Le(Int(0), ln), Le(ln, cp)))
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		r := vc.newRef(st)
		for _, l := range TE.flatten(el) {
			k := elemKey(el, l.path)
			s := ArrSort(SInt, l.sort)
			h := vc.heapGet(st, k, ArrSort(SInt, s))
			st.heap[k] = Store(h, r, ConstArr(s, zeroLeaf(l)))
		}
		set(&SliceV{r, Int(0), ln, cp, el})
	case *ssa.Slice:
		set(fr.slice(x, g, st, env))
	case *ssa.MakeInterface:
		v := fr.get(env, x.X)
		set(vc.makeIface(v, x.X.Type()))
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var in ssa.Value
		if ci, ok := x.(*ssa.ChangeInterface); ok {
			in = ci.X
		} else {
			in = x.(*ssa.ChangeType).X
		}
		v := fr.get(env, in)
		t := ins.(ssa.Value).Type()
		set(retype(v, t))
	case *ssa.Convert:
		set(fr.convert(x, g, st, fr.get(env, x.X)))
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.TypeAssert:
		set(fr.typeAssert(x, g, st, fr.get(env, x.X)))
	case *ssa.Extract:
		v := fr.get(env, x.Tuple)
		tv, ok := v.(*TupleV)
		if !ok {
			unsup("extract from %T", v)
		}
		set(tv.vs[x.Index])
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, fr.get(env, b))
		}
		set(f)
	case *ssa.Call:
		v, ng, nst := fr.call(&x.Call, x, g, st, env)
		*st = *nst
		env[x] = v
		return ng
	case *ssa.Defer:
		d := deferred{guard: g, call: &x.Call, instr: x}
		for _, a := range x.Call.Args {
			d.args = append(d.args, fr.get(env, a))
		}
		d.fnv = fr.get(env, x.Call.Value)
		fr.defers = append(fr.defers, d)
	case *ssa.Range:
		switch s := fr.get(env, x.X).(type) {
		case *Term:
			r := vc.newRef(st)
			rv := &RangeV{str: s, addr: r, src: x}
			k := "rangepos"
			st.heap[k] = Store(vc.heapGet(st, k, ArrSort(SInt, SInt)), r, Int(0))
			set(rv)
		case *MapV:
			set(&RangeV{m: s, src: x})
		default:
			unsup("range over %T", s)
		}
	case *ssa.Next:
		rv := fr.get(env, x.Iter).(*RangeV)
		if rv.str != nil {
			k := "rangepos"
			h := vc.heapGet(st, k, ArrSort(SInt, SInt))
			pos := Select(h, rv.addr)
			ok := Lt(pos, SeqLen(rv.str))
			r := SeqNth(rv.str, pos)
			vc.assume(And(g, ok), And(Le(Int(0), r), Le(r, Int(0x10FFFF)), Not(And(Le(Int(0xD800), r), Le(r, Int(0xDFFF))))))
			if TE.bv {
				unsup("string range in bv mode")
			}
			byteIdx := App("byteidx", SInt, rv.str, pos)
			st.heap[k] = Store(h, rv.addr, Ite(ok, Add(pos, Int(1)), pos))
			set(&TupleV{[]Value{ok, byteIdx, r}})
		} else {
			ok := Fresh("mapnext.ok", SBool)
			key := vc.freshValue(st, g, "mapnext.k", rv.m.typ.Key())
			v, has := vc.mapLookup(st, g, rv.m, key)
			vc.assume(And(g, ok), has)
			set(&TupleV{[]Value{ok, key, v}})
		}
	default:
		unsup("instruction %T (%s)", ins, ins)
	}
	return nil
}

func toInt(t *Term) *Term {
	if w, ok := t.sort.isBV(); ok {
		_ = w
		unsup("bv used as int")
	}
	return t
}

func (fr *Frame) eachPtr(v Value, g *Term, f func(p *PtrV, c *Term)) {
	if u, ok := v.(*UnionV); ok {
		for i := len(u.vals) - 1; i >= 0; i-- {
			f(derefPtr(u.vals[i]), u.guards[i])
		}
		return
	}
	f(derefPtr(v), True())
}

func (fr *Frame) mapPtr(v Value, g *Term, f func(p *PtrV, c *Term) *PtrV) Value {
	if u, ok := v.(*UnionV); ok {
		r := &UnionV{guards: u.guards}
		for i := range u.vals {
			r.vals = append(r.vals, f(derefPtr(u.vals[i]), u.guards[i]))
		}
		return r
	}
	return f(derefPtr(v), True())
}

func (fr *Frame) boundsCheck(g, idx, ln *Term, what string) {
	if _, ok := idx.sort.isBV(); ok {
		unsup("bv index")
	}
	c := And(Le(Int(0), idx), Lt(idx, ln))
	if fr.vc.opt.bounds {
		fr.vc.oblige("bounds", what, g, c)
	} else {
		fr.vc.assume(g, c)
	}
}

func (fr *Frame) strIndex(g, s, idx *Term) Value {
	vc := fr.vc
	c := And(Le(Int(0), idx), Lt(idx, byteLen(s)))
	vc.assume(True(), byteLenFacts(s))
	if vc.opt.bounds {
		vc.oblige("bounds", "string-index", g, c)
	} else {
		vc.assume(g, c)
	}
	r := byteAt(s, idx)
	vc.assume(True(), And(Le(Int(0), r), Le(r, Int(255))))
	return r
}

func byteAt(s, idx *Term) *Term {
	if s.op == "ite" {
		return Ite(s.args[0], byteAt(s.args[1], idx), byteAt(s.args[2], idx))
	}
	if l, ok := strLit(s); ok && idx.isInt() && idx.ival.Sign() >= 0 && idx.ival.Cmp(bigOf(int64(len(l)))) < 0 {
		return Int(int64(l[idx.ival.Int64()]))
	}
	return App("byteat", SInt, s, idx)
}

func byteLen(s *Term) *Term {
	if l, ok := strLit(s); ok {
		return Int(int64(len(l)))
	}
	return App("blen", SInt, s)
}
func byteLenFacts(s *Term) *Term {
	bl := byteLen(s)
	if bl.isLit() {
		return True()
	}
	return And(Le(SeqLen(s), bl), Eq(Eq(bl, Int(0)), Eq(SeqLen(s), Int(0))))
}

func wrapInt(t *Term, typ types.Type) *Term {
	w, signed, ok := intInfo(typ)
	if !ok || t.sort != SInt {
		return t
	}
	if w == 64 {
		return t // mathematical 64-bit integers (stated assumption)
	}
	lo, hi := intRange(w, signed)
	if t.isInt() {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		v := new(big.Int).Mod(t.ival, m)
		if v.Cmp(hi) > 0 {
			v.Sub(v, m)
		}
		return BigInt(v)
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	mod := Raw("mod", SInt, t, BigInt(m))
	var wrapped *Term
	if signed {
		wrapped = Ite(Le(mod, BigInt(hi)), mod, Sub(mod, BigInt(m)))
	} else {
		wrapped = mod
	}
	return Ite(And(Le(BigInt(lo), t), Le(t, BigInt(hi))), t, wrapped)
}

func (fr *Frame) binop(x *ssa.BinOp, g *Term, st *State, a, b Value) Value {
	switch x.Op {
	case token.EQL:
		return fr.equal(x.X.Type(), x.Y.Type(), a, b)
	case token.NEQ:
		return Not(fr.equal(x.X.Type(), x.Y.Type(), a, b))
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("binop %s on %T", x.Op, a)
	}
	t := x.X.Type()
	if isString(t) {
		switch x.Op {
		case token.ADD:
			return SeqConcat(ta, tb)
		case token.LSS:
			return App("strlt", SBool, ta, tb)
		case token.GTR:
			return App("strlt", SBool, tb, ta)
		case token.LEQ:
			return Not(App("strlt", SBool, tb, ta))
		case token.GEQ:
			return Not(App("strlt", SBool, ta, tb))
		}
		unsup("string op %s", x.Op)
	}
	w, signed, isInt := intInfo(t)
	if !isInt {
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return App("f"+opName(x.Op), SBool, ta, tb)
		}
		return App("f"+opName(x.Op), ta.sort, ta, tb)
	}
	if _, bv := ta.sort.isBV(); bv {
		return bvBin(x.Op, ta, tb, w, signed, x.Y.Type())
	}
	switch x.Op {
	case token.ADD:
		return wrapInt(Add(ta, tb), x.Type())
	case token.SUB:
		return wrapInt(Sub(ta, tb), x.Type())
	case token.MUL:
		return wrapInt(Mul(ta, tb), x.Type())
	case token.LSS:
		return Lt(ta, tb)
	case token.LEQ:
		return Le(ta, tb)
	case token.GTR:
		return Gt(ta, tb)
	case token.GEQ:
		return Ge(ta, tb)
	case token.QUO, token.REM:
		if fr.vc.opt.bounds {
			fr.vc.oblige("div", "div-by-zero", g, Not(Eq(tb, Int(0))))
		}
		q := Raw("div", SInt, ta, tb)
		// Go truncates toward zero; exact for non-negative operands
		qa := Ite(Le(Int(0), ta), q, Sub(Int(0), Raw("div", SInt, Sub(Int(0), ta), tb)))
		if x.Op == token.QUO {
			return qa
		}
		return Sub(ta, Mul(tb, qa))
	case token.SHL:
		if tb.isInt() && tb.ival.IsInt64() && tb.ival.Int64() < 64 {
			return wrapInt(Mul(ta, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(tb.ival.Int64())))), x.Type())
		}
	case token.SHR:
		if tb.isInt() && tb.ival.IsInt64() && tb.ival.Int64() < 64 {
			return Raw("div", SInt, ta, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(tb.ival.Int64()))))
		}
	}
	r := App(fmt.Sprintf("int%s%d", opName(x.Op), w), SInt, ta, tb)
	if f := rangeFact(r, x.Type()); f != nil {
		fr.vc.assume(True(), f)
	}
	return r
}

func opName(o token.Token) string {
	return map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo", token.REM: "rem",
		token.LSS: "lt", token.GTR: "gt", token.LEQ: "le", token.GEQ: "ge", token.AND: "and", token.OR: "or", token.XOR: "xor",
		token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[o]
}

func bvResize(t *Term, w int, signed bool) *Term {
	cw, _ := t.sort.isBV()
	if cw == w {
		return t
	}
	if t.op == "bv" {
		v := new(big.Int).Set(t.ival)
		if signed && v.Bit(cw-1) == 1 {
			v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(cw)))
		}
		return BVLit(v, w)
	}
	if cw > w {
		return P.mk(fmt.Sprintf("(_ extract %d 0)", w-1), "", BVSort(w), []*Term{t}, nil)
	}
	if signed {
		return P.mk(fmt.Sprintf("(_ sign_extend %d)", w-cw), "", BVSort(w), []*Term{t}, nil)
	}
	return P.mk(fmt.Sprintf("(_ zero_extend %d)", w-cw), "", BVSort(w), []*Term{t}, nil)
}

func bvBin(op token.Token, a, b *Term, w int, signed bool, ytyp types.Type) Value {
	switch op {
	case token.SHL, token.SHR:
		yw, ysigned, _ := intInfo(ytyp)
		// saturate shift count into operand width
		big_ := False()
		if yw > w {
			lim := BVLit(big.NewInt(int64(w)), yw)
			big_ = Not(Raw("bvult", SBool, b, lim))
		}
		sh := bvResize(b, w, ysigned)
		var r *Term
		if op == token.SHL {
			r = bvop("bvshl", a, sh)
		} else if signed {
			r = bvop("bvashr", a, sh)
		} else {
			r = bvop("bvlshr", a, sh)
		}
		return Ite(big_, BVLit(new(big.Int), w), r)
	case token.ADD:
		return bvop("bvadd", a, b)
	case token.SUB:
		return bvop("bvsub", a, b)
	case token.MUL:
		return bvop("bvmul", a, b)
	case token.AND:
		return bvop("bvand", a, b)
	case token.OR:
		return bvop("bvor", a, b)
	case token.XOR:
		return bvop("bvxor", a, b)
	case token.AND_NOT:
		return bvop("bvand", a, Raw("bvnot", b.sort, b))
	}
	s := "u"
	if signed {
		s = "s"
	}
	switch op {
	case token.LSS:
		return Raw("bv"+s+"lt", SBool, a, b)
	case token.LEQ:
		return Raw("bv"+s+"le", SBool, a, b)
	case token.GTR:
		return Raw("bv"+s+"lt", SBool, b, a)
	case token.GEQ:
		return Raw("bv"+s+"le", SBool, b, a)
	}
	unsup("bv op %s", op)
	return nil
}

func (fr *Frame) equal(ta, tb types.Type, a, b Value) *Term {
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia && !ib {
		b = fr.vc.makeIface(b, tb)
	} else if ib && !ia {
		a = fr.vc.makeIface(a, ta)
	}
	return eqValues(a, b)
}

func eqValues(a, b Value) *Term {
	switch x := a.(type) {
	case *SliceV:
		y := b.(*SliceV)
		// only comparisons with nil are legal in Go
		return Eq(x.arr, y.arr)
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if x.elem || x.path != "" || y.elem || y.path != "" {
				if y.base.isInt() && y.base.ival.Sign() == 0 && !y.elem && (x.path != "" || x.elem) {
					return False()
				}
				if x.elem == y.elem && x.path == y.path {
					e := Eq(x.base, y.base)
					if x.elem {
						e = And(e, Eq(x.idx, y.idx))
					}
					return e
				}
				unsup("comparison of interior pointers")
			}
			return Eq(x.base, y.base)
		}
	case *FuncV:
		y := b.(*FuncV)
		if x.sym != nil && y.sym != nil {
			return Eq(x.sym, y.sym)
		}
		return Eq(funcToTerm(x), funcToTerm(y))
	case *StructV:
		y := b.(*StructV)
		var cs []*Term
		for i := range x.f {
			cs = append(cs, eqValues(x.f[i], y.f[i]))
		}
		return And(cs...)
	}
	return eqVals(a, b)
}

func (vc *VC) makeIface(v Value, t types.Type) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	val := boxVal(v, t)
	if val.op == "app" {
		for i, l := range toLeaves(v) {
			if l.bound {
				continue
			}
			vc.assume(True(), Eq(P.mk("app", sanitize(fmt.Sprintf("unbox<%s>.%d", typeKey(t), i)), l.sort, []*Term{val}, nil).declared(l.sort), l))
		}
	}
	return &IfaceV{tag: tagOf(t), val: val, conc: v, ctyp: t}
}

func (t *Term) declared(s Sort) *Term { return App(t.name, s, t.args...) }

func retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *StructV:
		return &StructV{typ: t, f: x.f}
	case *PtrV:
		if x.elem || x.path != "" {
			return v
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return &PtrV{base: x.base, root: p.Elem(), typ: p.Elem()}
		}
	case *MapV:
		if m, ok := t.Underlying().(*types.Map); ok {
			return &MapV{x.ref, m}
		}
	}
	return v
}

func (fr *Frame) slice(x *ssa.Slice, g *Term, st *State, env map[ssa.Value]Value) Value {
	vc := fr.vc
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return toInt(fr.get(env, v).(*Term))
	}
	switch s := fr.get(env, x.X).(type) {
	case *SliceV:
		lo := opt(x.Low, Int(0))
		hi := opt(x.High, s.ln)
		mx := opt(x.Max, s.cp)
		c := And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.cp))
		if vc.opt.bounds {
			vc.oblige("bounds", "slice", g, c)
		} else {
			vc.assume(g, c)
		}
		if x.High != nil && !Le(hi, s.ln).isTrue() {
			// the append model leaves cells between len and cap unspecified
			vc.oblige("bounds", "slice-within-len", g, Le(hi, s.ln))
		}
		return &SliceV{s.arr, Add(s.off, lo), Sub(hi, lo), Sub(mx, lo), s.elem}
	case *PtrV:
		at := s.typ.Underlying().(*types.Array)
		if s.path != "" || s.elem {
			unsup("slicing embedded array")
		}
		lo := opt(x.Low, Int(0))
		hi := opt(x.High, Int(at.Len()))
		c := And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(at.Len())))
		if vc.opt.bounds {
			vc.oblige("bounds", "slice", g, c)
		}
		return &SliceV{s.base, lo, Sub(hi, lo), Sub(Int(at.Len()), lo), at.Elem()}
	case *Term:
		lo := opt(x.Low, Int(0))
		hi := opt(x.High, byteLen(s))
		vc.assume(True(), byteLenFacts(s))
		c := And(Le(Int(0), lo), Le(lo, hi), Le(hi, byteLen(s)))
		if vc.opt.bounds {
			vc.oblige("bounds", "string-slice", g, c)
		} else {
			vc.assume(g, c)
		}
		if lo.isInt() && lo.ival.Sign() == 0 && x.High == nil {
			return s
		}
		r := App("bsub", SStr, s, lo, hi)
		vc.assume(g, Implies(Eq(blenRaw(s), SeqLen(s)), And(Eq(r, SeqExtract(s, lo, Sub(hi, lo))), Eq(blenRaw(r), Sub(hi, lo)))))
		vc.assume(g, Eq(blenRaw(r), Sub(hi, lo)))
		vc.assume(True(), byteLenFacts(r))
		vc.assume(g, Implies(And(Eq(lo, Int(0)), Eq(hi, byteLen(s))), Eq(r, s)))
		return r
	}
	unsup("slice of %T", fr.get(env, x.X))
	return nil
}

func blenRaw(s *Term) *Term { return byteLen(s) }

func (fr *Frame) typeAssert(x *ssa.TypeAssert, g *Term, st *State, v Value) Value {
	vc := fr.vc
	iv, ok := v.(*IfaceV)
	if !ok {
		unsup("typeassert on %T", v)
	}
	t := x.AssertedType
	if it, isI := t.Underlying().(*types.Interface); isI {
		var c *Term
		if it.NumMethods() == 0 {
			c = Not(Eq(iv.tag, Int(0)))
		} else if iv.conc != nil {
			c = Bool(types.Implements(iv.ctyp, it))
		} else {
			c = And(Not(Eq(iv.tag, Int(0))), App("implements<"+typeKey(t)+">", SBool, iv.tag))
			for id, ct := range vc.eng.allTags() {
				f := App("implements<"+typeKey(t)+">", SBool, Int(int64(id)))
				if types.Implements(ct, it) {
					vc.assume(True(), f)
				} else {
					vc.assume(True(), Not(f))
				}
			}
		}
		if x.CommaOk {
			z := zeroValue(t)
			return &TupleV{[]Value{mergeVals(c, v, z), c}}
		}
		if vc.opt.bounds {
			vc.oblige("typeassert", "assert "+typeKey(t), g, c)
		} else {
			vc.assume(g, c)
		}
		return v
	}
	c := Eq(iv.tag, tagOf(t))
	var val Value
	if iv.conc != nil && types.Identical(iv.ctyp, t) {
		val = iv.conc
	} else {
		val = unboxVal(iv.val, t)
		if c.isFalse() {
			val = zeroValue(t)
		} else {
			ls := TE.flatten(t)
			vc.typeFactsG(st, And(g, c), ls, toLeaves(val))
		}
	}
	if x.CommaOk {
		return &TupleV{[]Value{mergeVals(c, val, zeroValue(t)), c}}
	}
	if vc.opt.bounds {
		vc.oblige("typeassert", "assert "+typeKey(t), g, c)
	} else {
		vc.assume(g, c)
	}
	return val
}

func (vc *VC) typeFactsG(st *State, g *Term, ls []Leaf, ts []*Term) {
	save := len(vc.facts)
	_ = save
	for i, l := range ls {
		t := ts[i]
		if t.isLit() || t.bound {
			continue
		}
		switch l.kind {
		case "ptr", "map":
			vc.assume(g, And(Le(Int(-100000), t), Lt(t, st.alloc)))
		case "arr":
			off, ln, cp := ts[i+1], ts[i+2], ts[i+3]
			vc.assume(g, And(Le(Int(0), t), Lt(t, st.alloc), Le(Int(0), off), Le(Int(0), ln), Le(ln, cp)))
		case "":
			if l.typ != nil {
				if f := rangeFact(t, l.typ); f != nil {
					vc.assume(g, f)
				}
			}
		}
	}
}

func (fr *Frame) convert(x *ssa.Convert, g *Term, st *State, v Value) Value {
	vc := fr.vc
	from, to := x.X.Type(), x.Type()
	fu, tu := from.Underlying(), to.Underlying()
	_, fs, fint := intInfo(from)
	tw, _, tint := intInfo(to)
	switch {
	case fint && tint:
		t := v.(*Term)
		if _, ok := t.sort.isBV(); ok {
			return bvResize(t, tw, fs)
		}
		return wrapInt(t, to)
	case isString(to) && fint:
		t := v.(*Term)
		valid := And(Le(Int(0), t), Le(t, Int(0x10FFFF)), Not(And(Le(Int(0xD800), t), Le(t, Int(0xDFFF)))))
		return SeqUnit(Ite(valid, t, Int(0xFFFD)))
	case isString(to) && isString(from):
		return v
	}
	if sl, ok := tu.(*types.Slice); ok && isString(from) {
		s := v.(*Term)
		w, _, _ := intInfo(sl.Elem())
		if w == 32 { // []rune(string)
			r := vc.newRef(st)
			k := elemKey(sl.Elem(), "")
			h := vc.heapGet(st, k, ArrSort(SInt, ArrSort(SInt, SInt)))
			arr := App("runesOf", ArrSort(SInt, SInt), s)
			st.heap[k] = Store(h, r, arr)
			i := Bound("i", SInt)
			vc.assume(True(), Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, SeqLen(s))), And(Eq(Select(arr, i), SeqNth(s, i)), Le(Int(0), Select(arr, i)), Le(Select(arr, i), Int(0x10FFFF)), Not(And(Le(Int(0xD800), Select(arr, i)), Le(Select(arr, i), Int(0xDFFF)))))), []*Term{Select(arr, i)}))
			cp := Fresh("cap", SInt)
			vc.assume(True(), Le(SeqLen(s), cp))
			return &SliceV{r, Int(0), SeqLen(s), cp, sl.Elem()}
		}
		// []byte(string)
		r := vc.newRef(st)
		k := elemKey(sl.Elem(), "")
		h := vc.heapGet(st, k, ArrSort(SInt, ArrSort(SInt, SInt)))
		arr := App("bytesOf", ArrSort(SInt, SInt), s)
		st.heap[k] = Store(h, r, arr)
		vc.assume(True(), byteLenFacts(s))
		cp := Fresh("cap", SInt)
		vc.assume(True(), Le(byteLen(s), cp))
		return &SliceV{r, Int(0), byteLen(s), cp, sl.Elem()}
	}
	if sl, ok := fu.(*types.Slice); ok && isString(to) {
		s := v.(*SliceV)
		w, _, _ := intInfo(sl.Elem())
		k := elemKey(sl.Elem(), "")
		h := vc.heapGet(st, k, ArrSort(SInt, ArrSort(SInt, SInt)))
		arr := Select(h, s.arr)
		if w == 32 {
			return vc.stringOfRunes(arr, s.off, s.ln)
		}
		return vc.stringOfBytes(arr, s.off, s.ln)
	}
	// numeric/float conversions: uninterpreted
	if t, ok := v.(*Term); ok {
		ls := TE.flatten(to)
		if len(ls) == 1 {
			r := App(fmt.Sprintf("conv<%s,%s>", typeKey(fu), typeKey(tu)), ls[0].sort, t)
			if f := rangeFact(r, to); f != nil {
				vc.assume(True(), f)
			}
			return fromLeaves(to, []*Term{r})
		}
	}
	unsup("convert %s -> %s", from, to)
	return nil
}

func (vc *VC) stringOfRunes(arr, off, ln *Term) *Term {
	if ln.isInt() && ln.ival.Int64() <= 16 {
		var us []*Term
		for i := int64(0); i < ln.ival.Int64(); i++ {
			t := Select(arr, Add(off, Int(i)))
			valid := And(Le(Int(0), t), Le(t, Int(0x10FFFF)), Not(And(Le(Int(0xD800), t), Le(t, Int(0xDFFF)))))
			us = append(us, SeqUnit(Ite(valid, t, Int(0xFFFD))))
		}
		return SeqConcat(us...)
	}
	r := App("strOfRunes", SStr, arr, off, ln)
	vc.assume(True(), Implies(Le(Int(0), ln), Eq(SeqLen(r), ln)))
	i := Bound("i", SInt)
	ok := func(t *Term) *Term {
		valid := And(Le(Int(0), t), Le(t, Int(0x10FFFF)), Not(And(Le(Int(0xD800), t), Le(t, Int(0xDFFF)))))
		return Ite(valid, t, Int(0xFFFD))
	}
	vc.assume(True(), Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, ln)), Eq(SeqNth(r, i), ok(Select(arr, Add(off, i))))), []*Term{SeqNth(r, i)}))
	return r
}

func (vc *VC) stringOfBytes(arr, off, ln *Term) *Term {
	r := App("strOfBytes", SStr, arr, off, ln)
	if arr.op == "app" && arr.name == "bytesOf" {
		s := arr.args[0]
		vc.assume(True(), Implies(And(Eq(off, Int(0)), Eq(ln, byteLen(s))), Eq(r, s)))
	}
	vc.assume(True(), Implies(Le(Int(0), ln), Eq(byteLen(r), ln)))
	vc.assume(True(), byteLenFacts(r))
	return r
}

// ---------- maps ----------

func keyTerm(k Value) *Term {
	ls := toLeaves(k)
	if len(ls) == 1 {
		return ls[0]
	}
	var sorts []string
	for _, l := range ls {
		sorts = append(sorts, string(l.sort))
	}
	n := "tuple<" + strings.Join(sorts, ",") + ">"
	return App(n, SInt, ls...)
}

func (vc *VC) tupleFacts(k Value) {
	ls := toLeaves(k)
	if len(ls) > 1 {
		t := keyTerm(k)
		for i, l := range ls {
			if !l.bound {
				vc.assume(True(), Eq(App(t.name+fmt.Sprintf("@%d", i), l.sort, t), l))
			}
		}
	}
}

func mapKeyName(m *types.Map) string {
	return "map<" + typeKey(m.Key()) + "," + typeKey(m.Elem()) + ">"
}

func mapKeySort(m *types.Map) Sort {
	ls := TE.flatten(m.Key())
	if len(ls) == 1 {
		return ls[0].sort
	}
	return SInt
}

func (vc *VC) mapDom(st *State, m *MapV) (string, *Term) {
	ks := mapKeySort(m.typ)
	k := mapKeyName(m.typ) + "#dom"
	return k, vc.heapGet(st, k, ArrSort(SInt, ArrSort(ks, SBool)))
}

func (vc *VC) mapLookup(st *State, g *Term, m *MapV, key Value) (Value, *Term) {
	vc.tupleFacts(key)
	kt := keyTerm(key)
	_, dom := vc.mapDom(st, m)
	has := And(Not(Eq(m.ref, Int(0))), Select(Select(dom, m.ref), kt))
	ks := mapKeySort(m.typ)
	ls := TE.flatten(m.typ.Elem())
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		hk := mapKeyName(m.typ) + l.path
		h := vc.heapGet(st, hk, ArrSort(SInt, ArrSort(ks, l.sort)))
		ts[i] = Ite(has, Select(Select(h, m.ref), kt), zeroLeaf(l))
	}
	vc.typeFacts(st, g, ls, ts)
	return fromLeaves(m.typ.Elem(), ts), has
}

func (vc *VC) mapUpdate(st *State, m *MapV, key, val Value, present *Term) {
	vc.tupleFacts(key)
	kt := keyTerm(key)
	dk, dom := vc.mapDom(st, m)
	d := Select(dom, m.ref)
	st.heap[dk] = Store(dom, m.ref, Store(d, kt, present))
	if val != nil {
		ks := mapKeySort(m.typ)
		vs := toLeaves(val)
		for i, l := range TE.flatten(m.typ.Elem()) {
			hk := mapKeyName(m.typ) + l.path
			h := vc.heapGet(st, hk, ArrSort(SInt, ArrSort(ks, l.sort)))
			st.heap[hk] = Store(h, m.ref, Store(Select(h, m.ref), kt, vs[i]))
		}
	}
}

func (vc *VC) mapClear(st *State, m *MapV) {
	dk, dom := vc.mapDom(st, m)
	ks := mapKeySort(m.typ)
	st.heap[dk] = Store(dom, m.ref, ConstArr(ArrSort(ks, SBool), False()))
}
