package main

// Verification of one function (or lemma) against its contract.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Unit struct {
	key      string
	con      *Contract
	fn       *ssa.Function
	obls     []*Obl
	scripts  []string // per obligation
	used     []string
	lemmas   []string
	inlined  []string
	assumed  []string
	ext      []string
	loops    int
	err      string // translation failure
	dropped  []string
	notes    []string
	smoke    []string // scripts that must not be unsat
	smokeRes []string
	inst     string
	facts    []*Term
	pool     *Pool
	tags     map[int][]*Term
}

func (u *Unit) ok() bool {
	if u.err != "" {
		return false
	}
	for _, o := range u.obls {
		if o.status != "proved" {
			return false
		}
	}
	for _, s := range u.smokeRes {
		if s == "unsat" {
			return false
		}
	}
	return true
}

func newVC(e *Engine, fn *ssa.Function, con *Contract) *VC {
	P = newPool()
	vc := &VC{eng: e, fn: fn, con: con, assume_: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, counts: map[string]int{},
		factSet: map[int]bool{}, factTag: map[int][]*Term{}, initSet: map[string]bool{}, specNotes: map[string]bool{}, disabled: map[string]bool{}, dropInv: map[string]bool{}, ext: map[string]bool{}, known: map[*Term]*Term{}}
	vc.opt = Options{bounds: true, unroll: 40}
	TE.bv = false
	vc.lemUsed = map[string]bool{}
	if con != nil {
		vc.opaque = con.opaque
		for o := range con.opts {
			switch {
			case o == "nilcheck":
				vc.opt.nilcheck = true
			case o == "nobounds":
				vc.opt.bounds = false
			case o == "split":
				vc.opt.split = true
			case o == "bv":
				TE.bv = true
			case strings.HasPrefix(o, "unroll="):
				n, _ := strconv.Atoi(o[7:])
				vc.opt.unroll = n
			}
		}
	}
	return vc
}

// genUnit generates the obligations of fn against con.
func (e *Engine) genUnit(fn *ssa.Function, con *Contract, disabled, dropInv map[string]bool) (u *Unit) {
	u = &Unit{key: con.key, con: con, fn: fn}
	vc := newVC(e, fn, con)
	for k := range disabled {
		vc.disabled[k] = true
	}
	vc.dropInv = dropInv
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				u.err = "unsupported: " + x.msg + " at " + vc.curPos
			case specErr:
				u.err = "contract does not apply: " + x.msg
			default:
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(r)
				}
				u.err = fmt.Sprintf("internal: %v at %s", r, vc.curPos)
			}
		}
		u.loops = vc.loops
		u.used = sortedKeys(vc.used)
		u.lemmas = sortedKeys(vc.lemUsed)
		u.inlined = sortedKeys(vc.inlined)
		u.assumed = sortedKeys(vc.assume_)
		u.ext = sortedKeys(vc.ext)
		u.notes = sortedKeys(vc.specNotes)
	}()
	alloc0 := Sym("alloc0", SInt)
	st := &State{heap: map[string]*Term{}, alloc: alloc0}
	entry := st.clone()
	vc.entry = entry
	vc.assume(True(), Le(Int(1), alloc0))
	g := True()
	var args []Value
	for _, p := range fn.Params {
		v := vc.freshValue(st, g, "arg."+p.Name(), p.Type())
		args = append(args, v)
	}
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if p, ok := args[0].(*PtrV); ok {
			vc.assume(g, Lt(Int(0), p.base))
			if !con.opts["nilrecv"] {
				vc.note("receiver pointers are non-nil")
			}
		}
	}
	var binds []Value
	for _, f := range fn.FreeVars {
		binds = append(binds, vc.freshValue(st, g, "free."+f.Name(), f.Type()))
	}
	names, ptypes := paramNames(fn.Params)
	se := vc.contractEnv(con, fn.Signature, names, ptypes, args, g, st, st, typeArgsOf(fn))
	for i, f := range fn.FreeVars {
		if p, ok := binds[i].(*PtrV); ok {
			_ = p
			se.vars["&"+f.Name()] = SV{binds[i], f.Type()}
		}
	}
	if se.pkg == nil && fn.Pkg != nil {
		se.pkg = fn.Pkg.Pkg
	}
	se.bindLets(con)
	for _, r := range con.requires {
		t := se.evalBool(r.e)
		vc.assume(g, t)
		for _, c := range conjuncts(t) {
			if c.op == "=" && c.args[0].sort == SInt {
				if c.args[1].isLit() {
					vc.known[c.args[0]] = c.args[1]
				} else if c.args[0].isLit() {
					vc.known[c.args[1]] = c.args[0]
				}
			}
		}
	}
	for _, x := range con.unfolds[0] {
		vc.assume(g, se.unfoldRec(x))
	}
	for _, x := range con.luses[0] {
		vc.assume(g, e.instLemma(se, x, nil))
	}
	e.globalFacts(vc, st)
	preFacts := len(vc.facts)
	entry2 := st.clone()
	body := st.clone()
	vc.opt.selfInline = false
	vc.topArgs, vc.entryOld = args, entry2
	res, og, post := vc.callBody(fn, args, binds, g, body, nil)
	if con.applies != nil {
		if len(vc.applied) != 1 || vc.applied[0].guard != og {
			unsup("the function parameter is not called exactly once on every path")
		}
		vc.oblige("post", "applied result", og, eqValues(res, vc.applied[0].res)).prop = true
	}
	// postconditions
	vc.curPos = e.posStr(fn.Pos())
	old := entry2
	se2 := vc.contractEnv(con, fn.Signature, names, ptypes, args, og, post, old, typeArgsOf(fn))
	if se2.pkg == nil && fn.Pkg != nil {
		se2.pkg = fn.Pkg.Pkg
	}
	se2.bindLets(con)
	bindResults(se2, fn.Signature, res)
	nf := len(vc.facts)
	var rets []*SpecEnv
	for _, r := range vc.topRets {
		sr := vc.contractEnv(con, fn.Signature, names, ptypes, args, r.guard, r.st, old, typeArgsOf(fn))
		sr.pkg = se2.pkg
		sr.guard = r.guard
		sr.bindLets(con)
		bindResults(sr, fn.Signature, packResults(r.vals))
		rets = append(rets, sr)
	}
	for _, c := range con.ensures {
		if len(c.props) > 0 && e.curProp != "" && !has(c.props, e.curProp) {
			vc.note("%s [%s] is decided by the check of %s", con.key, c.label, strings.Join(c.props, ", "))
			continue
		}
		t := se2.evalBool(c.e)
		var parts []oblPart
		if len(rets) > 1 && (len(rets) <= 80 || vc.opt.split) {
			for _, sr := range rets {
				for _, x := range splitGoal(sr.evalBool(c.e), con.opts["skolem"]) {
					parts = append(parts, oblPart{sr.guard, x})
				}
			}
		}
		o := vc.oblige("post", c.label, og, t)
		o.prop = true
		o.comment = c.src
		o.parts = parts
	}
	_ = nf
	// frame
	if !con.opts["noframe"] {
		vc.frameObls(con, se2, old, post, og, alloc0, rets)
	}
	if con.pure {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			for _, l := range TE.flatten(fn.Signature.Results().At(i).Type()) {
				if l.kind == "ptr" || l.kind == "arr" || l.kind == "map" {
					unsup("pure function returning a reference")
				}
			}
		}
	}
	// termination measure for recursion: not checked (partial correctness)
	u.obls = vc.obls
	u.facts, u.pool, u.tags = vc.facts, P, vc.factTag
	for _, o := range u.obls {
		if o.kind == "frame" || o.comment == "auto frame" {
			// frames seldom need the quantified facts: first without (fewer assumptions, so a proof is a proof)
			var qf []*Term
			for _, f := range vc.facts[:o.nfacts] {
				if !hasQuant(f, map[int]bool{}) {
					qf = append(qf, f)
				}
			}
			o.lite = underScript(qf, vc.factTag, o.guard, o.goal)
		}
		if vc.opt.split && len(o.parts) > 1 {
			u.scripts = append(u.scripts, "") // decided by its parts
			continue
		}
		u.scripts = append(u.scripts, underScript(vc.facts[:o.nfacts], vc.factTag, o.guard, o.goal))
	}
	u.smoke = append(u.smoke, Script(vc.facts[:preFacts], nil, ""))
	if !con.opts["noreturn"] {
		u.smoke = append(u.smoke, Script(append(append([]*Term{}, vc.facts[:nf]...), og), nil, ""))
	}
	return u
}

func hasQuant(t *Term, seen map[int]bool) bool {
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	for _, a := range t.args {
		if hasQuant(a, seen) {
			return true
		}
	}
	return false
}

// globalFacts asserts the values of constant package variables.
func (e *Engine) globalFacts(vc *VC, st *State) {
	var gs []*ssa.Global
	for g := range e.gconst {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		if vc.fn.Pkg == nil && vc.fn.Origin() == nil {
			continue
		}
		if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); !ok {
			continue
		}
		p := e.globalPtr(g)
		v := constValue(e.gconst[g])
		if t, ok := v.(*Term); ok {
			vc.assume(True(), Eq(vc.loadLeaf(st, p, TE.flatten(p.typ)[0]), t))
		}
	}
	gs = gs[:0]
	for g := range e.gslen {
		if vc.fn.Pkg == g.Pkg {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		if s, ok := vc.load(st, True(), e.globalPtr(g)).(*SliceV); ok {
			vc.assume(True(), Eq(s.ln, Int(e.gslen[g])))
		}
	}
	gs = gs[:0]
	for g := range e.ginit {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		p := e.globalPtr(g)
		tag := vc.loadLeaf(st, p, TE.flatten(p.typ)[0])
		switch v := e.ginit[g].(type) {
		case *ssa.MakeInterface:
			vc.assume(True(), Eq(tag, tagOf(v.X.Type())))
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
				vc.assume(True(), Not(Eq(tag, Int(0))))
			}
		}
	}
}

func (vc *VC) frameObls(con *Contract, se *SpecEnv, old, post *State, g, alloc0 *Term, rets []*SpecEnv) {
	allowed := map[string][]modLoc{}
	for _, m := range con.modifies {
		for _, l := range vc.modLocs(se, old, m) {
			allowed[l.key] = append(allowed[l.key], l)
		}
	}
	var ks []string
	for k := range post.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k == "rangepos" || k == "maplen" || con.modAll && !kept(k) {
			continue
		}
		t := post.heap[k]
		b, ok := old.heap[k]
		if !ok {
			b = Sym(epochName(0, k), t.sort)
		}
		if t == b {
			continue
		}
		whole := false
		for _, l := range allowed[k] {
			if l.ref == nil {
				whole = true
			}
		}
		if whole {
			continue
		}
		sk := Fresh("frame.r", SInt)
		goal := frameGoal(allowed[k], t, b, sk, alloc0)
		var parts []oblPart
		if len(rets) > 1 {
			for _, sr := range rets {
				pt, ok := sr.st.heap[k]
				if !ok || pt == b {
					continue
				}
				parts = append(parts, oblPart{sr.guard, frameGoal(allowed[k], pt, b, sk, alloc0)})
			}
		}
		vc.oblige("frame", k, g, goal).parts = parts
	}
}

// allowedLocs: the locations the contract under proof allows to change, by heap key.
func (vc *VC) allowedLocs() map[string][]modLoc {
	if vc.allowed != nil {
		return vc.allowed
	}
	vc.allowed = map[string][]modLoc{}
	if vc.con == nil || vc.entryOld == nil {
		return vc.allowed
	}
	names, ptypes := paramNames(vc.fn.Params)
	se := vc.contractEnv(vc.con, vc.fn.Signature, names, ptypes, vc.topArgs, True(), vc.entryOld, vc.entryOld, typeArgsOf(vc.fn))
	if se.pkg == nil && vc.fn.Pkg != nil {
		se.pkg = vc.fn.Pkg.Pkg
	}
	se.bindLets(vc.con)
	for _, m := range vc.con.modifies {
		for _, l := range vc.modLocs(se, vc.entryOld, m) {
			vc.allowed[l.key] = append(vc.allowed[l.key], l)
		}
	}
	return vc.allowed
}

func frameGoal(allowed []modLoc, t, b, r, alloc0 *Term) *Term {
	cond := Lt(r, alloc0)
	for _, l := range allowed {
		if l.idx == nil {
			cond = And(cond, Not(Eq(r, l.ref)))
		}
	}
	same := Eq(Select(t, r), Select(b, r))
	var byIdx []modLoc
	for _, l := range allowed {
		if l.idx != nil {
			byIdx = append(byIdx, l)
		}
	}
	if len(byIdx) > 0 {
		j := Bound("j", SInt)
		ex := False()
		for _, l := range byIdx {
			c := And(Eq(r, l.ref), Eq(j, l.idx))
			if l.cond != nil {
				c = And(c, l.cond)
			}
			ex = Or(ex, c)
		}
		same = Forall([]*Term{j}, Or(ex, Eq(Select(Select(t, r), j), Select(Select(b, r), j))))
	}
	return Implies(cond, same)
}

// relevant keeps the assertions connected to the last two (guard, goal) by
// shared symbols, except that quantifier-free unconnected facts are dropped.
func relevant(as []*Term) []*Term {
	n := len(as)
	if n < 60 {
		return as
	}
	syms := make([]map[int]bool, n)
	for i, a := range as {
		m := map[int]bool{}
		collectSyms(a, m, map[int]bool{})
		syms[i] = m
	}
	in := make([]bool, n)
	have := map[int]bool{}
	add := func(i int) {
		in[i] = true
		for s := range syms[i] {
			have[s] = true
		}
	}
	add(n - 1)
	add(n - 2)
	for changed := true; changed; {
		changed = false
		for i := range as {
			if in[i] {
				continue
			}
			for s := range syms[i] {
				if have[s] {
					add(i)
					changed = true
					break
				}
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if in[i] || len(syms[i]) == 0 {
			out = append(out, a)
		}
	}
	return out
}

func collectSyms(t *Term, out, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "const" {
		out[t.id] = true
	}
	for _, a := range t.args {
		collectSyms(a, out, seen)
	}
}

// genLemma generates the obligations of a lemma.
func (e *Engine) genLemma(l *Lemma) (u *Unit) {
	con := &Contract{key: "lemma " + l.name, name: l.name, pkg: l.pkg, props: l.props, opts: map[string]bool{}, opaque: l.opaque}
	if l.bv {
		con.opts["bv"] = true
	}
	u = &Unit{key: con.key, con: con}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				u.err = "unsupported: " + x.msg
			case specErr:
				u.err = "lemma does not apply: " + x.msg
			default:
				panic(r)
			}
		}
	}()
	var anyFn *ssa.Function
	for _, f := range e.fns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == l.pkg {
			anyFn = f
			break
		}
	}
	vc := newVC(e, anyFn, con)
	st := &State{heap: map[string]*Term{}, alloc: Sym("alloc0", SInt)}
	vc.entry = st.clone()
	se := &SpecEnv{vc: vc, st: st, old: st, vars: map[string]SV{}, oldV: map[string]SV{}, guard: True(), pkg: e.typesPkg(l.pkg), targs: map[string]types.Type{}}
	for _, q := range l.vars {
		t := se.resolveType(q.typ)
		v := SV{vc.freshValue(st, True(), q.name, t), t}
		se.vars[q.name] = v
		se.oldV[q.name] = v
	}
	for _, r := range l.req {
		vc.assume(True(), se.evalBool(r))
	}
	for _, us := range l.uses {
		vc.assume(True(), e.instLemma(se, us, l))
	}
	for _, uf := range l.unf {
		vc.assume(True(), se.unfoldRec(uf))
	}
	if l.induct != "" {
		// hypothesis: the lemma for the induction variable minus one (when >= 0)
		v := se.vars[l.induct]
		n := se.withVars(map[string]SV{l.induct: {Sub(v.v.(*Term), Int(1)), v.t}})
		hyp := True()
		for _, c := range l.ens {
			hyp = And(hyp, n.evalBool(c.e))
		}
		pre := Lt(Int(0), v.v.(*Term))
		for _, r := range l.req {
			pre = And(pre, n.evalBool(r))
		}
		vc.assume(True(), Implies(pre, hyp))
	}
	nf := len(vc.facts)
	for i, c := range l.ens {
		lb := c.label
		if lb == "" {
			lb = fmt.Sprintf("lemma%d", i+1)
		}
		vc.oblige("lemma", lb, True(), se.evalBool(c.e)).comment = c.src
	}
	u.facts, u.pool, u.tags = vc.facts, P, vc.factTag
	u.obls = vc.obls
	u.lemmas = sortedKeys(vc.lemUsed)
	for _, o := range u.obls {
		o.fn = con.key
		as := append([]*Term{}, vc.facts[:o.nfacts]...)
		as = append(as, o.guard, Not(o.goal))
		u.scripts = append(u.scripts, Script(as, nil, ""))
	}
	u.smoke = append(u.smoke, Script(vc.facts[:nf], nil, ""))
	return u
}

// instLemma instantiates a lemma; within a lemma only earlier lemmas may be used.
func (e *Engine) instLemma(se *SpecEnv, x *Expr, in *Lemma) *Term {
	for _, l := range e.spec.lemmas {
		if l == in {
			break
		}
		if x.op == "call" && l.name == x.args[0].name {
			se.vc.lemUsed[l.name] = true
			m := map[string]SV{}
			for i, q := range l.vars {
				m[q.name] = se.eval(x.args[1+i])
			}
			n := *se
			n.lookup = nil
			n.vars, n.oldV = m, m
			pre, post := True(), True()
			for _, r := range l.req {
				pre = And(pre, n.evalBool(r))
			}
			for _, c := range l.ens {
				post = And(post, n.evalBool(c.e))
			}
			return Implies(pre, post)
		}
	}
	se.fail("unknown lemma %s", exprStr(x))
	return nil
}

// splitGoal: conjuncts of a goal, also below an implication.
func splitGoal(t *Term, sk bool) []*Term {
	switch t.op {
	case "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, splitGoal(a, sk)...)
		}
		return out
	case "or":
		at := -1
		for i, a := range t.args {
			if a.op == "and" {
				if at >= 0 {
					return []*Term{t}
				}
				at = i
			}
		}
		if at >= 0 {
			var out []*Term
			for _, c := range splitGoal(t.args[at], sk) {
				xs := []*Term{c}
				for i, a := range t.args {
					if i != at {
						xs = append(xs, a)
					}
				}
				out = append(out, splitGoal(Or(xs...), sk)...)
			}
			return out
		}
	case "forall": // a goal: arbitrary values for the variables
		if !sk || t.bound {
			return []*Term{t}
		}
		m := map[*Term]*Term{}
		for _, v := range t.vars {
			m[v] = Fresh("sk."+v.name, v.sort)
		}
		if out := splitGoal(substMemo(t.args[0], m, map[int]*Term{}), sk); len(out) > 1 {
			return out
		}
	case "=>":
		var out []*Term
		for _, c := range splitGoal(t.args[1], sk) {
			out = append(out, Implies(t.args[0], c))
		}
		return out
	case "ite":
		if t.sort == SBool {
			var out []*Term
			for _, c := range splitGoal(t.args[1], sk) {
				out = append(out, Implies(t.args[0], c))
			}
			for _, c := range splitGoal(t.args[2], sk) {
				out = append(out, Implies(Not(t.args[0]), c))
			}
			return out
		}
	}
	return []*Term{t}
}

// partScripts: scripts of the finer obligations (nil if there is nothing to split).
func (u *Unit) partScripts(o *Obl) []string {
	P = u.pool
	parts := o.parts
	if parts == nil {
		gs := []*Term{o.guard}
		if o.guard.op == "or" && len(o.guard.args) <= 40 {
			gs = o.guard.args
		} else if o.guard.op == "and" {
			for _, c := range o.guard.args {
				if c.op == "or" && len(c.args) <= 40 {
					gs = nil
					for _, a := range c.args {
						gs = append(gs, And(o.guard, a))
					}
					break
				}
			}
		}
		for _, g := range gs {
			for _, x := range splitGoal(o.goal, u.con != nil && u.con.opts["skolem"]) {
				parts = append(parts, oblPart{g, x})
			}
		}
	}
	if len(parts) < 2 {
		return nil
	}
	var out []string
	for _, p := range parts {
		if p.goal.isTrue() || p.guard.isFalse() {
			continue
		}
		if sc := underScript(u.facts[:o.nfacts], u.tags, p.guard, p.goal); sc != "" {
			out = append(out, sc)
		}
	}
	return out
}

// reindex rewrites assumed quantifiers over slice offsets: forall i. P(a[off+i]) becomes the
// equivalent forall j. P'(a[j]) for each indexed term, so that the solver can match on a[j].
func reindex(t *Term) *Term {
	switch t.op {
	case "and":
		var xs []*Term
		for _, a := range t.args {
			xs = append(xs, reindex(a))
		}
		return And(xs...)
	case "=>":
		return Implies(t.args[0], reindex(t.args[1]))
	case "or":
		q := false
		xs := append([]*Term{}, t.args...)
		for i, a := range t.args {
			if a.op == "forall" || a.op == "and" {
				xs[i] = reindex(a)
				q = q || xs[i] != a
			}
		}
		if q {
			return Or(xs...)
		}
	case "forall":
		if len(t.vars) != 1 || len(t.trig) > 0 || t.vars[0].sort != SInt {
			return t
		}
		v := t.vars[0]
		type pat struct {
			term, idx *Term
			arg       int
		}
		var pats []pat
		direct, nested := false, false
		seen := map[int]bool{}
		var visit func(x *Term)
		visit = func(x *Term) {
			if !x.bound || seen[x.id] {
				return
			}
			seen[x.id] = true
			if x.op == "forall" || x.op == "exists" {
				nested = true
				return
			}
			for k, a := range x.args {
				if (x.op == "select" && k == 1 || x.op == "app") && a.sort == SInt && a.bound {
					only := true
					for m, b := range x.args {
						if m != k && b.bound {
							only = false
						}
					}
					if a == v {
						direct = true
					} else if only && isOffset(a, v) {
						pats = append(pats, pat{x, a, k})
					}
				}
				visit(a)
			}
		}
		visit(t.args[0])
		if !nested && (direct && len(pats) > 1 || len(pats) > 4) {
			// one shifted copy, matching on any of the indexed terms
			rest := Subst(pats[0].idx, map[*Term]*Term{v: Int(0)})
			j := Bound("j", SInt)
			nv := Sub(j, rest)
			var trig [][]*Term
			for _, p := range pats {
				tr := Subst(p.term, map[*Term]*Term{v: nv})
				if p.idx != pats[0].idx || tr.args[p.arg] != j {
					return t
				}
				trig = append(trig, []*Term{tr})
			}
			q := Forall([]*Term{j}, Subst(t.args[0], map[*Term]*Term{v: nv}), trig...)
			if !direct {
				return q
			}
			return And(t, q)
		}
		if nested || len(pats) == 0 || len(pats) > 4 {
			return t
		}
		out := []*Term{}
		if direct {
			out = append(out, t)
		}
		done := map[int]bool{}
		for _, p := range pats {
			j := Bound("j", SInt)
			// idx = v + rest  =>  v := j - rest
			rest := Subst(p.idx, map[*Term]*Term{v: Int(0)})
			nv := Sub(j, rest)
			body := Subst(t.args[0], map[*Term]*Term{v: nv})
			tr := Subst(p.term, map[*Term]*Term{v: nv})
			if tr.args[p.arg] != j {
				return t
			}
			k := Subst(tr, map[*Term]*Term{j: Int(0)})
			if done[k.id] {
				continue
			}
			done[k.id] = true
			out = append(out, Forall([]*Term{j}, body, []*Term{tr}))
		}
		return And(out...)
	}
	return t
}

// isOffset: a is v plus terms without v.
func isOffset(a, v *Term) bool {
	if a.op != "+" {
		return false
	}
	n := 0
	for _, x := range a.args {
		if x == v || (x.bound && isOffset(x, v)) {
			n++
		} else if x.bound {
			return false
		}
	}
	return n == 1
}

// underScript: facts, guard and negated goal, simplified under the literals of the guard
// ("" if the goal simplifies to true).
func underScript(facts []*Term, tags map[int][]*Term, guard, goal *Term) string {
	m := map[*Term]*Term{}
	for _, c := range conjuncts(guard) {
		if c.op == "not" {
			m[c.args[0]] = False()
		} else {
			m[c] = True()
		}
	}
	memo := map[int]*Term{}
	as := make([]*Term, 0, len(facts)+2)
	for _, f := range facts {
		x := f
		if ts := tags[f.id]; ts != nil {
			all := true // arose only on paths that exclude the guard
			for _, tag := range ts {
				if !excludes(tag, m) {
					all = false
					break
				}
			}
			if all {
				continue
			}
		}
		if len(m) > 0 {
			x = substMemo(f, m, memo)
		}
		if !x.isTrue() {
			as = append(as, x)
		}
	}
	g := goal
	if len(m) > 0 {
		g = substMemo(goal, m, memo)
	}
	if g.isTrue() {
		return ""
	}
	as = append(as, guard, Not(g))
	return Script(relevant(as), nil, "")
}

// excludes: the guard contradicts the literals fixed by m.
func excludes(guard *Term, m map[*Term]*Term) bool {
	for _, c := range conjuncts(guard) {
		if r, ok := m[c]; ok && r.isFalse() {
			return true
		}
		if c.op == "not" {
			if r, ok := m[c.args[0]]; ok && r.isTrue() {
				return true
			}
		}
	}
	return false
}
