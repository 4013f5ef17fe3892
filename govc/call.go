package main

// Calls: builtins, contracts, inlining, interface dispatch, external models.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (fr *Frame) call(c *ssa.CallCommon, site ssa.Instruction, g *Term, st *State, env map[ssa.Value]Value) (Value, *Term, *State) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, fr.get(env, a))
	}
	if c.IsInvoke() {
		return fr.invoke(c, fr.get(env, c.Value), args, g, st)
	}
	return fr.callValue(c, fr.get(env, c.Value), args, g, st)
}

func (fr *Frame) callValue(c *ssa.CallCommon, fv Value, args []Value, g *Term, st *State) (Value, *Term, *State) {
	vc := fr.vc
	switch f := fv.(type) {
	case *FuncV:
		switch {
		case f.bi != "":
			return fr.builtin(f.bi, c, args, g, st), g, st
		case f.fn != nil:
			return fr.callFn(f.fn, args, f.binds, g, st)
		default:
			if vc.con != nil && vc.con.applies != nil && len(args) == 1 {
				for i, p := range vc.fn.Params {
					if p.Name() == vc.con.applies.fn && vc.topArgs[i] == fv {
						return vc.recordApply(c, args[0], g, st), g, st
					}
				}
			}
			// unknown function value: arbitrary result, assumed not to touch modelled state
			vc.note("calls through unknown function values (%s) are assumed not to modify modelled state", typeKey(c.Signature()))
			ng := g
			return vc.freshValue(st, g, "unkcall", resultType(c.Signature())), ng, st
		}
	case *UnionV:
		var es []Edge
		var vals []Value
		for i, alt := range f.vals {
			gi := And(g, f.guards[i])
			if gi.isFalse() {
				continue
			}
			v, og, ost := fr.callValue(c, alt, args, gi, st.clone())
			if og.isFalse() {
				continue
			}
			es = append(es, Edge{guard: og, st: ost})
			vals = append(vals, v)
		}
		if len(es) == 0 {
			return nil, False(), st
		}
		ng, nst := vc.mergeStates(es)
		if vals[0] == nil {
			return nil, ng, nst
		}
		return mergeMany(es, vals), ng, nst
	}
	unsup("call of %T", fv)
	return nil, nil, nil
}

func resultType(s *types.Signature) types.Type {
	switch s.Results().Len() {
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func (fr *Frame) callFn(fn *ssa.Function, args, binds []Value, g *Term, st *State) (Value, *Term, *State) {
	vc := fr.vc
	if con := vc.eng.contractFor(fn); con != nil && !con.inline && !con.opts["open"] && !vc.disabled[con.key] {
		if fn != vc.fn || !vc.opt.selfInline {
			v := vc.applyContract(con, fn, fn.Signature, fn.Params, args, g, st)
			return v, g, st
		}
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if m, ok := externals[name]; ok {
		vc.ext[name] = true
		return m(fr, fn, args, g, st), g, st
	}
	if len(fn.Blocks) == 0 || vc.eng.isForeign(fn) {
		return fr.foreign(fn, args, g, st), g, st
	}
	vc.inlined[fnKey(fn)] = true
	v, og, ost := vc.callBody(fn, args, binds, g, st, fr)
	return v, og, ost
}

// foreign models an external function without a specific model: a pure,
// deterministic, uninterpreted function of its (scalar) arguments.
func (fr *Frame) foreign(fn *ssa.Function, args []Value, g *Term, st *State) Value {
	vc := fr.vc
	name := fn.String()
	vc.ext["uninterpreted "+name] = true
	var ts []*Term
	ok := true
	for _, a := range args {
		v, good := tryMerge(func() Value { return &TupleV{[]Value{a}} })
		if !good {
			ok = false
			break
		}
		switch v.(*TupleV).vs[0].(type) {
		case *SliceV, *FuncV, *UnionV:
			ok = false
		case *PtrV:
			p := a.(*PtrV)
			if p.elem || p.path != "" {
				ok = false
			}
		}
		if !ok {
			break
		}
		ts = append(ts, toLeaves(a)...)
	}
	res := fn.Signature.Results()
	mk := func(i int, t types.Type) Value {
		if !ok || len(ts) == 0 {
			return vc.freshValue(st, g, "ext."+fn.Name(), t)
		}
		ls := TE.flatten(t)
		out := make([]*Term, len(ls))
		for j, l := range ls {
			out[j] = App(fmt.Sprintf("ext:%s.%d%s", name, i, l.path), l.sort, ts...)
		}
		vc.typeFacts(st, g, ls, out)
		return fromLeaves(t, out)
	}
	var outs []Value
	for i := 0; i < res.Len(); i++ {
		outs = append(outs, mk(i, res.At(i).Type()))
	}
	return packResults(outs)
}

func (fr *Frame) runDefers(g *Term, st *State, env map[ssa.Value]Value) *Term {
	ds := fr.defers
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		// executed when its registration point was on the path
		cond := implied(g, d.guard)
		if cond == nil {
			// conditional defer
			gi := And(g, d.guard)
			if gi.isFalse() {
				continue
			}
			_, og, ost := fr.callDeferred(d, gi, st.clone())
			es := []Edge{{guard: og, st: ost}, {guard: And(g, Not(d.guard)), st: st.clone()}}
			ng, nst := fr.vc.mergeStates(es)
			*st = *nst
			g = ng
			continue
		}
		_, og, ost := fr.callDeferred(d, g, st)
		*st = *ost
		g = og
	}
	return g
}

func implied(g, d *Term) *Term {
	have := map[int]bool{}
	for _, c := range conjuncts(g) {
		have[c.id] = true
	}
	for _, c := range conjuncts(d) {
		if !have[c.id] {
			return nil
		}
	}
	return True()
}

func (fr *Frame) callDeferred(d deferred, g *Term, st *State) (Value, *Term, *State) {
	if d.call.IsInvoke() {
		return fr.invoke(d.call, d.fnv, d.args, g, st)
	}
	return fr.callValue(d.call, d.fnv, d.args, g, st)
}

// invoke dispatches an interface method call.
func (fr *Frame) invoke(c *ssa.CallCommon, recv Value, args []Value, g *Term, st *State) (Value, *Term, *State) {
	vc := fr.vc
	iv, ok := recv.(*IfaceV)
	if !ok {
		unsup("invoke on %T", recv)
	}
	it := c.Value.Type()
	if iv.conc != nil {
		if m := vc.eng.prog.LookupMethod(iv.ctyp, c.Method.Pkg(), c.Method.Name()); m != nil {
			return fr.callFn(m, append([]Value{iv.conc}, args...), nil, g, st)
		}
	}
	if con := vc.eng.ifaceContract(it, c.Method.Name()); con != nil && !vc.disabled[con.key] {
		v := vc.applyIfaceContract(con, it, c.Method, iv, args, g, st)
		return v, g, st
	}
	if c.Method.Name() == "Error" || c.Method.Pkg() == nil || vc.eng.foreignPkg(c.Method.Pkg()) {
		key := fmt.Sprintf("inv:%s.%s", typeKey(it), c.Method.Name())
		if len(args) == 0 && c.Signature().Results().Len() == 1 {
			t := c.Signature().Results().At(0).Type()
			ls := TE.flatten(t)
			out := make([]*Term, len(ls))
			for j, l := range ls {
				out[j] = App(key+l.path, l.sort, iv.tag, iv.val)
			}
			vc.typeFacts(st, g, ls, out)
			return fromLeaves(t, out), g, st
		}
		vc.note("external interface method %s.%s: arbitrary result, no effect on modelled state", typeKey(it), c.Method.Name())
		return vc.freshValue(st, g, "inv", resultType(c.Signature())), g, st
	}
	cands := vc.eng.implementers(it)
	if len(cands) == 0 {
		unsup("no implementers of %s", typeKey(it))
	}
	// closed world over the repository's implementations
	var tags []*Term
	for _, t := range cands {
		tags = append(tags, Eq(iv.tag, tagOf(t)))
	}
	vc.note("closed world: %s is implemented only by the repository's %d types", typeKey(it), len(cands))
	if vc.opt.nilcheck {
		vc.oblige("nil", "nil interface call "+c.Method.Name(), g, Not(Eq(iv.tag, Int(0))))
	}
	vc.assume(g, Or(tags...))
	var es []Edge
	var vals []Value
	for i, t := range cands {
		if k := vc.known[iv.tag]; k != nil && k != tagOf(t) { // excluded by the precondition
			continue
		}
		gi := And(g, tags[i])
		if gi.isFalse() || impliedFalse(g, tags[i]) {
			continue
		}
		m := vc.eng.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			continue
		}
		val := unboxVal(iv.val, t)
		s := st.clone()
		vc.typeFactsG(s, gi, TE.flatten(t), toLeaves(val))
		if p, ok := val.(*PtrV); ok {
			vc.assume(gi, Not(Eq(p.base, Int(0))))
		}
		v, og, ost := fr.callFn(m, append([]Value{val}, args...), nil, gi, s)
		if og.isFalse() {
			continue
		}
		es = append(es, Edge{guard: og, st: ost})
		vals = append(vals, v)
	}
	if len(es) == 0 {
		return vc.freshValue(st, g, "inv", resultType(c.Signature())), False(), st
	}
	_, nst := vc.mergeStates(es)
	ng := g
	if vals[0] == nil {
		return nil, ng, nst
	}
	return mergeMany(es, vals), ng, nst
}

// impliedFalse: guard already contains tag = other constant.
func impliedFalse(g, tagEq *Term) bool {
	if tagEq.op != "=" {
		return tagEq.isFalse()
	}
	for _, c := range conjuncts(g) {
		if c.op == "not" && c.args[0] == tagEq {
			return true
		}
		if c.op == "=" && c.args[0] == tagEq.args[0] && c.args[1].isLit() && tagEq.args[1].isLit() && c.args[1] != tagEq.args[1] {
			return true
		}
	}
	return false
}

// ---------- builtins ----------

func (fr *Frame) builtin(name string, c *ssa.CallCommon, args []Value, g *Term, st *State) Value {
	vc := fr.vc
	switch name {
	case "len", "cap":
		switch s := args[0].(type) {
		case *SliceV:
			if name == "cap" {
				return s.cp
			}
			return s.ln
		case *Term:
			vc.assume(True(), byteLenFacts(s))
			return byteLen(s)
		case *MapV:
			k := "maplen"
			h := vc.heapGet(st, k, ArrSort(SInt, SInt))
			r := Fresh("maplen", SInt)
			_ = h
			vc.assume(True(), Le(Int(0), r))
			return r
		case *ArrayV:
			return Int(s.typ.Len())
		}
	case "append":
		s, ok := args[0].(*SliceV)
		if !ok {
			unsup("append to %T", args[0])
		}
		if len(args) == 1 {
			return s
		}
		if t, ok := args[1].(*Term); ok { // append([]byte, string...)
			r := vc.newRef(st)
			_ = t
			ln := Add(s.ln, byteLen(t))
			k := elemKey(s.elem, "")
			h := vc.heapGet(st, k, ArrSort(SInt, ArrSort(SInt, SInt)))
			st.heap[k] = Store(h, r, App("bytecat", ArrSort(SInt, SInt), Select(h, s.arr), s.off, s.ln, t))
			cp := Fresh("cap", SInt)
			vc.assume(True(), And(Le(ln, cp), byteLenFacts(t)))
			vc.note("append([]byte, string...) modelled as reallocating")
			return &SliceV{r, Int(0), ln, cp, s.elem}
		}
		v := args[1].(*SliceV)
		return fr.appendSlice(s, v, g, st)
	case "copy":
		d, ok := args[0].(*SliceV)
		if !ok {
			unsup("copy to %T", args[0])
		}
		n := Fresh("copied", SInt)
		var srcLen *Term
		switch s := args[1].(type) {
		case *SliceV:
			srcLen = s.ln
			vc.assume(g, Eq(n, Ite(Le(d.ln, s.ln), d.ln, s.ln)))
			for _, l := range TE.flatten(d.elem) {
				k := elemKey(d.elem, l.path)
				h := vc.heapGet(st, k, ArrSort(SInt, ArrSort(SInt, l.sort)))
				na := Fresh("copy", ArrSort(SInt, l.sort))
				i := Bound("i", SInt)
				in := And(Le(d.off, i), Lt(i, Add(d.off, n)))
				vc.assume(g, Forall([]*Term{i}, Eq(Select(na, i), Ite(in, Select(Select(h, s.arr), Add(Sub(i, d.off), s.off)), Select(Select(h, d.arr), i))), []*Term{Select(na, i)}))
				st.heap[k] = Store(h, d.arr, na)
			}
		case *Term:
			srcLen = byteLen(s)
			vc.assume(g, Eq(n, Ite(Le(d.ln, srcLen), d.ln, srcLen)))
			k := elemKey(d.elem, "")
			h := vc.heapGet(st, k, ArrSort(SInt, ArrSort(SInt, SInt)))
			st.heap[k] = Store(h, d.arr, Fresh("copy", ArrSort(SInt, SInt)))
		}
		return n
	case "delete":
		m := args[0].(*MapV)
		vc.mapUpdate(st, m, args[1], nil, False())
		return nil
	case "clear":
		if m, ok := args[0].(*MapV); ok {
			vc.mapClear(st, m)
			return nil
		}
	case "print", "println":
		return nil
	case "recover":
		return &IfaceV{tag: Int(0), val: Int(0)}
	case "min", "max":
		a, b := args[0].(*Term), args[1].(*Term)
		if a.sort == SInt && len(args) == 2 {
			if name == "min" {
				return Ite(Le(a, b), a, b)
			}
			return Ite(Le(a, b), b, a)
		}
	case "ssa:wrapnilchk":
		return args[0]
	}
	unsup("builtin %s", name)
	return nil
}

func (fr *Frame) appendSlice(s, v *SliceV, g *Term, st *State) Value {
	vc := fr.vc
	newLen := Add(s.ln, v.ln)
	fits := Le(newLen, s.cp)
	fr_ := vc.newRef(st)
	zero := Eq(v.ln, Int(0))
	resArr := Ite(fits, s.arr, fr_)
	cp := Fresh("cap", SInt)
	vc.assume(True(), Le(newLen, cp))
	resCap := Ite(fits, s.cp, cp)
	resOff := s.off
	concrete := int64(-1)
	if v.ln.isInt() && v.ln.ival.IsInt64() && v.ln.ival.Int64() <= 8 {
		concrete = v.ln.ival.Int64()
	}
	if concrete == 0 {
		return s
	}
	for _, l := range TE.flatten(s.elem) {
		k := elemKey(s.elem, l.path)
		h := vc.heapGet(st, k, ArrSort(SInt, ArrSort(SInt, l.sort)))
		cur := Select(h, s.arr)
		var na *Term
		if concrete >= 0 {
			na = cur
			for i := int64(0); i < concrete; i++ {
				na = Store(na, Add(Add(s.off, s.ln), Int(i)), Select(Select(h, v.arr), Add(v.off, Int(i))))
			}
		} else {
			na = Fresh("appended", ArrSort(SInt, l.sort))
			i := Bound("i", SInt)
			in := And(Le(Add(s.off, s.ln), i), Lt(i, Add(s.off, newLen)))
			vc.assume(True(), Forall([]*Term{i}, Eq(Select(na, i), Ite(in, Select(Select(h, v.arr), Add(Sub(i, Add(s.off, s.ln)), v.off)), Select(cur, i))), []*Term{Select(na, i)}))
			if s.ln.isInt() { // literal prefix: also read the other way round
				src := Select(Select(h, v.arr), i)
				vc.assume(True(), Forall([]*Term{i}, Implies(And(Le(v.off, i), Lt(i, Add(v.off, v.ln))), Eq(Select(na, Add(Sub(i, v.off), Add(s.off, s.ln))), src)), []*Term{src}))
			}
		}
		st.heap[k] = Store(h, resArr, na)
	}
	r := &SliceV{resArr, resOff, newLen, resCap, s.elem}
	if concrete < 0 {
		// append(nil) with no elements stays nil
		r.arr = Ite(And(zero, Eq(s.arr, Int(0))), Int(0), resArr)
	}
	return r
}

// ---------- contracts at call sites ----------

func (vc *VC) contractEnv(con *Contract, sig *types.Signature, names []string, ptypes []types.Type, args []Value, g *Term, st, old *State, targs map[string]types.Type) *SpecEnv {
	se := &SpecEnv{vc: vc, st: st, old: old, vars: map[string]SV{}, oldV: map[string]SV{}, guard: g, targs: targs}
	se.pkg = vc.eng.typesPkg(con.pkg)
	for i, n := range names {
		sv := SV{args[i], ptypes[i]}
		se.vars[n] = sv
		se.oldV[n] = sv
		se.vars[fmt.Sprintf("arg%d", i)] = sv
		se.oldV[fmt.Sprintf("arg%d", i)] = sv
	}
	if rec, ok := vc.eng.names[con.key]; ok && len(rec.Params) == len(names) {
		for i, n := range rec.Params { // the names the contract was written with
			if _, clash := se.vars[n]; !clash && n != "" {
				se.vars[n] = se.vars[fmt.Sprintf("arg%d", i)]
				se.oldV[n] = se.vars[n]
			}
		}
	}
	return se
}

func (se *SpecEnv) bindLets(con *Contract) {
	for _, l := range con.lets {
		// lets are evaluated in the pre-state
		o := *se
		o.st = se.old
		o.vars = se.oldV
		v := o.eval(l.e)
		se.vars[l.name] = v
		se.oldV[l.name] = v
	}
}

func bindResults(se *SpecEnv, sig *types.Signature, res Value) {
	n := sig.Results().Len()
	if n == 0 {
		return
	}
	var vs []Value
	if n == 1 {
		vs = []Value{res}
	} else {
		vs = res.(*TupleV).vs
	}
	for i := 0; i < n; i++ {
		v := sig.Results().At(i)
		sv := SV{vs[i], v.Type()}
		se.vars[fmt.Sprintf("r%d", i)] = sv
		if i == 0 {
			se.vars["result"] = sv
		}
		if v.Name() != "" && v.Name() != "_" {
			if _, clash := se.vars[v.Name()]; !clash {
				se.vars[v.Name()] = sv
			}
		}
	}
}

func paramNames(ps []*ssa.Parameter) ([]string, []types.Type) {
	var ns []string
	var ts []types.Type
	for _, p := range ps {
		ns = append(ns, p.Name())
		ts = append(ts, p.Type())
	}
	return ns, ts
}

func (vc *VC) applyContract(con *Contract, fn *ssa.Function, sig *types.Signature, params []*ssa.Parameter, args []Value, g *Term, st *State) Value {
	if TE.bv && !con.opts["bv"] && con.pure && len(con.requires) == 0 {
		vc.note("%s: treated as a deterministic function without effects (no other part of its contract is used here)", con.key)
	} else {
		vc.used[con.key] = true
	}
	ns, ts := paramNames(params)
	if len(ns) == 0 && len(args) > 0 { // no body: names from the signature
		if r := sig.Recv(); r != nil {
			ns, ts = append(ns, r.Name()), append(ts, r.Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ns, ts = append(ns, sig.Params().At(i).Name()), append(ts, sig.Params().At(i).Type())
		}
	}
	if con.trusted {
		vc.note("trusted contract: %s (%s)", con.key, con.reason)
	}
	return vc.applySpec(con, sig, ns, ts, args, g, st, typeArgsOf(fn), fnKey(fn))
}

func (vc *VC) applyIfaceContract(con *Contract, it types.Type, m *types.Func, recv *IfaceV, args []Value, g *Term, st *State) Value {
	vc.used[con.key] = true
	sig := m.Type().(*types.Signature)
	ns := []string{"self"}
	ts := []types.Type{it}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		n := p.Name()
		if n == "" {
			n = fmt.Sprintf("p%d", i)
		}
		ns = append(ns, n)
		ts = append(ts, p.Type())
	}
	targs := map[string]types.Type{}
	if n, ok := types.Unalias(it).(*types.Named); ok {
		for i := 0; i < n.TypeArgs().Len(); i++ {
			targs[n.Origin().TypeParams().At(i).Obj().Name()] = n.TypeArgs().At(i)
		}
	}
	vc.note("interface contract assumed for implementations outside the verified set: %s", con.key)
	return vc.applySpec(con, sig, ns, ts, append([]Value{recv}, args...), g, st, targs, con.key)
}

func (vc *VC) applySpec(con *Contract, sig *types.Signature, ns []string, ts []types.Type, args []Value, g *Term, st *State, targs map[string]types.Type, callee string) Value {
	old := st.clone()
	se := vc.contractEnv(con, sig, ns, ts, args, g, st, old, targs)
	se.bindLets(con)
	mismatch := con.opts["bv"] && !TE.bv
	if mismatch {
		vc.note("%s: verified in bit-vector mode; callers rely on its frame and scalar preconditions only, its data invariant is assumed at the call", con.key)
	}
	for _, r := range con.requires {
		if mismatch && r.label == "inv" {
			continue
		}
		t := se.evalBool(r.e)
		vc.oblige("pre", callee+" "+r.label, g, t)
	}
	// havoc
	if con.modAll {
		vc.havocAll(st)
		na := Fresh("alloc", SInt)
		vc.assume(True(), Le(old.alloc, na))
		st.alloc = na
	} else if !con.pure {
		na := Fresh("alloc", SInt)
		vc.assume(True(), Le(old.alloc, na))
		st.alloc = na
	}
	{
		for _, m := range con.modifies {
			for _, loc := range vc.modLocs(se, old, m) {
				h := vc.heapGet(st, loc.key, loc.sort)
				if loc.ref == nil {
					st.heap[loc.key] = Fresh("H:"+loc.key, loc.sort)
				} else if loc.idx != nil {
					_, es := loc.sort.arrParts()
					_, vs := es.arrParts()
					nv := Fresh("h:"+loc.key, vs)
					if loc.cond != nil {
						nv = Ite(loc.cond, nv, Select(Select(h, loc.ref), loc.idx))
					}
					st.heap[loc.key] = Store(h, loc.ref, Store(Select(h, loc.ref), loc.idx, nv))
				} else {
					_, vs := loc.sort.arrParts()
					f := Fresh("h:"+loc.key, vs)
					st.heap[loc.key] = Store(h, loc.ref, f)
				}
			}
		}
		// well-formedness of havocked locations
		for _, m := range con.modifies {
			vc.modFacts(se, old, st, g, m)
		}
	}
	var res Value
	if con.applies != nil {
		res = vc.applyClosure(con, se, sig, ns, args, g, st)
	}
	if res == nil && con.opts["det"] { // a function of its (scalar) arguments
		res = vc.detApp(con, sig, args, g, st)
	}
	if res == nil {
		res = vc.freshValue(st, g, "res."+con.name, resultType(sig))
	}
	if sig.Results().Len() == 0 {
		res = nil
	}
	se2 := *se
	se2.st = st
	se2.old = old
	bindResults(&se2, sig, res)
	for _, e := range con.ensures {
		if (mismatch && e.label == "inv") || (TE.bv && !con.opts["bv"]) {
			continue // dropping a postcondition
		}
		if vc.opaque["!"+e.label] {
			continue // dropping a postcondition only weakens what the caller may assume
		}
		t := se2.evalBool(e.e)
		vc.assume(g, t)
	}
	for _, e := range con.defines {
		vc.note("definitional: %s names the result of %s", e.src, con.key)
		vc.assume(g, se2.evalBool(e.e))
	}
	return res
}

const bufContent = "bytes.Buffer#content"

const bufCell = "*bytes.Buffer" // captured local variables holding a buffer

// kept: heap components which "modifies *" does not cover.
func kept(k string) bool { return k == bufContent || k == bufCell }

// havocAll forgets the whole heap except the contents of buffers, which contracts list.
func (vc *VC) havocAll(st *State) {
	b := vc.heapGet(st, bufContent, ArrSort(SInt, SStr))
	c := vc.heapGet(st, bufCell, ArrSort(SInt, SInt))
	vc.epochs++
	st.heap = map[string]*Term{bufContent: b, bufCell: c}
	st.epoch = vc.epochs
}

// detApp is the result of a function that depends on its scalar arguments only.
func (vc *VC) detApp(con *Contract, sig *types.Signature, args []Value, g *Term, st *State) Value {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, toLeaves(a)...)
	}
	var outs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		ls := TE.flatten(t)
		out := make([]*Term, len(ls))
		for j, l := range ls {
			name := fmt.Sprintf("det:%s.%d%s", con.key, i, l.path)
			if len(ts) == 0 {
				out[j] = Sym(name, l.sort)
			} else {
				out[j] = App(name, l.sort, ts...)
			}
		}
		if !anyBound(out) {
			vc.typeFacts(st, g, ls, out)
		}
		outs = append(outs, fromLeaves(t, out))
	}
	return packResults(outs)
}

type modLoc struct {
	key  string
	sort Sort
	ref  *Term // nil: whole map
	idx  *Term
	cond *Term // idx lies within the capacity of the slice (nil: always)
}

// modLocs lists the heap locations named by a modifies item (evaluated in state st).
func (vc *VC) modLocs(se *SpecEnv, st *State, m *Expr) []modLoc {
	e := *se
	e.st = st
	e.vars = se.oldV
	var out []modLoc
	addPtr := func(p *PtrV, typ types.Type) {
		for _, l := range TE.flatten(typ) {
			if p.elem {
				out = append(out, modLoc{elemKey(p.root, p.path+l.path), ArrSort(SInt, ArrSort(SInt, l.sort)), p.base, p.idx, nil})
			} else {
				out = append(out, modLoc{objKey(p.root, p.path+l.path), ArrSort(SInt, l.sort), p.base, nil, nil})
			}
		}
		if gh := ghostBuf(typ); gh {
			out = append(out, modLoc{bufKey(p), ArrSort(SInt, SStr), p.base, nil, nil})
		}
	}
	if m.op == "call" && m.args[0].op == "ident" {
		name := m.args[0].name
		switch name {
		case "elems":
			s := e.eval(m.args[1]).v.(*SliceV)
			for _, l := range TE.flatten(s.elem) {
				out = append(out, modLoc{elemKey(s.elem, l.path), ArrSort(SInt, ArrSort(SInt, l.sort)), s.arr, nil, nil})
			}
			return out
		case "allelems": // contents of every []T backing array
			t := e.resolveType(exprStr(m.args[1]))
			for _, l := range TE.flatten(t) {
				out = append(out, modLoc{elemKey(t, l.path), ArrSort(SInt, ArrSort(SInt, l.sort)), nil, nil, nil})
			}
			return out
		case "content":
			p := e.lvalue(m.args[1])
			return []modLoc{{bufKey(p), ArrSort(SInt, SStr), p.base, nil, nil}}
		case "all":
			t := e.resolveType(exprStr(m.args[1]))
			for _, l := range TE.flatten(t) {
				out = append(out, modLoc{objKey(t, l.path), ArrSort(SInt, l.sort), nil, nil, nil})
			}
			return out
		case "entries":
			mv := e.eval(m.args[1]).v.(*MapV)
			ks := mapKeySort(mv.typ)
			out = append(out, modLoc{mapKeyName(mv.typ) + "#dom", ArrSort(SInt, ArrSort(ks, SBool)), mv.ref, nil, nil})
			for _, l := range TE.flatten(mv.typ.Elem()) {
				out = append(out, modLoc{mapKeyName(mv.typ) + l.path, ArrSort(SInt, ArrSort(ks, l.sort)), mv.ref, nil, nil})
			}
			return out
		}
		if gd, ok := vc.eng.spec.ghosts[name]; ok && gd.state {
			rt := e.resolveType(gd.ret)
			var at *Term
			if len(m.args) > 1 {
				at = refOf(e.eval(m.args[1]).v)
			}
			for _, l := range TE.flatten(rt) {
				out = append(out, modLoc{"ghost:" + name + l.path, ArrSort(SInt, l.sort), at, nil, nil})
			}
			return out
		}
	}
	if m.op == "un" && m.name == "*" {
		p := e.lvalue(m.args[0])
		addPtr(p, p.typ)
		return out
	}
	p := e.lvalue(m)
	addPtr(p, p.typ)
	if m.op == "index" {
		if sl, ok := e.eval(m.args[0]).v.(*SliceV); ok {
			c := Lt(e.evalTerm(m.args[1]), sl.cp)
			for i := range out {
				out[i].cond = c
			}
		}
	}
	return out
}

func (vc *VC) modFacts(se *SpecEnv, old, st *State, g *Term, m *Expr) {
	if m.op == "call" {
		return
	}
	e := *se
	e.st = old
	e.vars = se.oldV
	x := m
	if m.op == "un" && m.name == "*" {
		x = m.args[0]
	}
	p := e.lvalue(x)
	ls := TE.flatten(p.typ)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = vc.loadLeaf(st, p, l)
	}
	vc.typeFacts(st, g, ls, ts)
}

// ---------- external models ----------

type extModel func(fr *Frame, fn *ssa.Function, args []Value, g *Term, st *State) Value

func ghostBuf(t types.Type) bool {
	s := types.TypeString(types.Unalias(t), nil)
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func bufKey(p *PtrV) string { return objKey(p.root, p.path) + "#content" }

func (vc *VC) bufContent(st *State, p *PtrV) *Term {
	if p.elem {
		unsup("builder in slice element")
	}
	return Select(vc.heapGet(st, bufKey(p), ArrSort(SInt, SStr)), p.base)
}
func (vc *VC) setBuf(st *State, p *PtrV, t *Term) {
	k := bufKey(p)
	st.heap[k] = Store(vc.heapGet(st, k, ArrSort(SInt, SStr)), p.base, t)
}

func (vc *VC) appendBuf(st *State, p *PtrV, t *Term) {
	c := vc.bufContent(st, p)
	n := SeqConcat(c, t)
	if bufKey(p) == bufContent {
		vc.assume(True(), And(Eq(byteLen(n), Add(byteLen(c), byteLen(t))), byteLenFacts(t)))
	}
	vc.setBuf(st, p, n)
}

// zeroGhost initialises ghost builder contents inside a freshly allocated object.
func (vc *VC) zeroGhost(st *State, t types.Type, ref *Term) {
	var walk func(t types.Type, path string)
	root := t
	walk = func(t types.Type, path string) {
		if ghostBuf(t) {
			vc.setBuf(st, &PtrV{base: ref, root: root, path: path, typ: t}, SeqEmpty())
			return
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				walk(s.Field(i).Type(), path+"."+s.Field(i).Name())
			}
		}
	}
	walk(t, "")
}

func nilErr() Value { return &IfaceV{tag: Int(0), val: Int(0)} }

func (vc *VC) freshErr(st *State, g *Term, name string) Value {
	v := vc.freshValue(st, g, name, types.Universe.Lookup("error").Type()).(*IfaceV)
	vc.assume(True(), Not(Eq(v.tag, Int(0))))
	r := vc.newRef(st)
	vc.assume(True(), Eq(v.val, r))
	return v
}

func runeStr(r *Term) *Term {
	valid := And(Le(Int(0), r), Le(r, Int(0x10FFFF)), Not(And(Le(Int(0xD800), r), Le(r, Int(0xDFFF)))))
	return SeqUnit(Ite(valid, r, Int(0xFFFD)))
}

var externals map[string]extModel

func init() {
	externals = map[string]extModel{}
	for _, ty := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		externals[ty+".WriteRune"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
			p := derefPtr(a[0])
			fr.vc.appendBuf(st, p, runeStr(a[1].(*Term)))
			return &TupleV{[]Value{Fresh("n", SInt), nilErr()}}
		}
		externals[ty+".WriteByte"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
			p := derefPtr(a[0])
			b := a[1].(*Term)
			ch := b
			if !b.isInt() {
				fr.vc.note("WriteByte of non-constant bytes is modelled for ASCII only")
				ch = Ite(Le(b, Int(127)), b, App("rawbyte", SInt, b))
			}
			fr.vc.setBuf(st, p, SeqConcat(fr.vc.bufContent(st, p), SeqUnit(ch)))
			return nilErr()
		}
		externals[ty+".WriteString"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
			p := derefPtr(a[0])
			fr.vc.appendBuf(st, p, a[1].(*Term))
			return &TupleV{[]Value{Fresh("n", SInt), nilErr()}}
		}
		externals[ty+".String"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
			return fr.vc.bufContent(st, derefPtr(a[0]))
		}
		externals[ty+".Grow"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value { return nil }
		externals[ty+".Reset"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
			fr.vc.setBuf(st, derefPtr(a[0]), SeqEmpty())
			return nil
		}
		externals[ty+".Len"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
			c := fr.vc.bufContent(st, derefPtr(a[0]))
			fr.vc.assume(True(), byteLenFacts(c))
			return byteLen(c)
		}
	}
	externals["(*bytes.Buffer).Truncate"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
		vc := fr.vc
		p := derefPtr(a[0])
		c := vc.bufContent(st, p)
		n := a[1].(*Term)
		if vc.opt.bounds {
			vc.oblige("bounds", "Truncate", g, And(Le(Int(0), n), Le(n, byteLen(c))))
		}
		r := App("btrunc", SStr, c, n)
		vc.assume(g, And(Raw("seq.prefixof", SBool, r, c), Eq(byteLen(r), n)))
		vc.assume(True(), And(byteLenFacts(r), byteLenFacts(c)))
		vc.setBuf(st, p, r)
		return nil
	}
	errNew := func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
		return fr.vc.freshErr(st, g, "err")
	}
	externals["fmt.Errorf"] = errNew
	externals["errors.New"] = errNew
	externals["errors.Join"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
		vc := fr.vc
		s := a[0].(*SliceV)
		res := vc.freshValue(st, g, "joined", types.Universe.Lookup("error").Type()).(*IfaceV)
		tagH := Select(vc.heapGet(st, elemKey(s.elem, "#tag"), ArrSort(SInt, ArrSort(SInt, SInt))), s.arr)
		if s.ln.isInt() && s.ln.ival.Int64() <= 8 {
			any_ := False()
			for i := int64(0); i < s.ln.ival.Int64(); i++ {
				any_ = Or(any_, Not(Eq(Select(tagH, Add(s.off, Int(i))), Int(0))))
			}
			vc.assume(g, Eq(Eq(res.tag, Int(0)), Not(any_)))
		} else {
			i := Bound("i", SInt)
			allNil := Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, s.ln)), Eq(Select(tagH, Add(s.off, i)), Int(0))))
			vc.assume(g, Eq(Eq(res.tag, Int(0)), allNil))
		}
		return res
	}
	externals["strings.ContainsRune"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
		return containsRune(fr, a[0].(*Term), a[1].(*Term))
	}
	externals["strings.IndexRune"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
		c := containsRune(fr, a[0].(*Term), a[1].(*Term))
		r := App("indexrune", SInt, a[0].(*Term), a[1].(*Term))
		fr.vc.assume(True(), And(Le(Int(-1), r), Eq(Eq(r, Int(-1)), Not(c))))
		return r
	}
	externals["unicode/utf8.ValidRune"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
		r := a[0].(*Term)
		return And(Le(Int(0), r), Le(r, Int(0x10FFFF)), Not(And(Le(Int(0xD800), r), Le(r, Int(0xDFFF)))))
	}
	externals["math/bits.TrailingZeros16"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
		x := a[0].(*Term)
		w, ok := x.sort.isBV()
		if !ok || w != 16 {
			unsup("TrailingZeros16 outside bit-vector mode")
		}
		r := BVLit(bigOf(16), 64)
		for i := 15; i >= 0; i-- {
			bit := Eq(P.mk(fmt.Sprintf("(_ extract %d %d)", i, i), "", BVSort(1), []*Term{x}, nil), BVLit(bigOf(1), 1))
			r = Ite(bit, BVLit(bigOf(int64(i)), 64), r)
		}
		return r
	}
}

func containsRune(fr *Frame, s, r *Term) *Term {
	lit, ok := strLit(s)
	if !ok {
		return Raw("seq.contains", SBool, s, SeqUnit(r))
	}
	var cs []*Term
	seen := map[rune]bool{}
	for _, c := range lit {
		if !seen[c] {
			seen[c] = true
			cs = append(cs, Eq(r, Int(int64(c))))
		}
	}
	return Or(cs...)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// recordApply handles, inside the body of a function with an applies clause,
// the call of its function parameter.
func (vc *VC) recordApply(c *ssa.CallCommon, arg Value, g *Term, st *State) Value {
	names, ptypes := paramNames(vc.fn.Params)
	se := vc.contractEnv(vc.con, vc.fn.Signature, names, ptypes, vc.topArgs, g, st, vc.entryOld, typeArgsOf(vc.fn))
	if se.pkg == nil && vc.fn.Pkg != nil {
		se.pkg = vc.fn.Pkg.Pkg
	}
	se.vars[vc.con.applies.v] = SV{arg, c.Args[0].Type()}
	vc.oblige("post", "applies", g, se.evalBool(vc.con.applies.cond)).prop = true
	r := vc.freshValue(st, g, "applied", resultType(c.Signature()))
	vc.applied = append(vc.applied, applyRec{g, r})
	vc.note("the function-valued parameter %s has no effects (checked where a known function is passed)", vc.con.applies.fn)
	return r
}

type applyRec struct {
	guard *Term
	res   Value
}

// applyClosure: at a call site of a function with an applies clause, the
// result is obtained by running the passed function on an argument about which
// only the condition is known.
func (vc *VC) applyClosure(con *Contract, se *SpecEnv, sig *types.Signature, ns []string, args []Value, g *Term, st *State) Value {
	var f *FuncV
	for i, n := range ns {
		if n == con.applies.fn {
			f, _ = args[i].(*FuncV)
		}
	}
	if f == nil || f.fn == nil || f.fn.Signature.Params().Len() != 1 {
		return nil
	}
	pt := f.fn.Signature.Params().At(0).Type()
	var arg Value
	if sl, ok := pt.Underlying().(*types.Slice); ok {
		r := vc.newRef(st)
		ls := TE.flatten(sl.Elem())
		for _, l := range ls {
			k := elemKey(sl.Elem(), l.path)
			so := ArrSort(SInt, ArrSort(SInt, l.sort))
			h := vc.heapGet(st, k, so)
			st.heap[k] = Store(h, r, Fresh("applyarg", ArrSort(SInt, l.sort)))
		}
		ln, cp := Fresh("applylen", SInt), Fresh("applycap", SInt)
		vc.assume(True(), And(Le(Int(0), ln), Le(ln, cp)))
		arg = &SliceV{elem: sl.Elem(), arr: r, off: Int(0), ln: ln, cp: cp}
	} else {
		arg = vc.freshValue(st, g, "applyarg", pt)
	}
	se2 := *se
	se2.st = st
	se2.vars = map[string]SV{}
	for k, v := range se.vars {
		se2.vars[k] = v
	}
	se2.vars[con.applies.v] = SV{arg, pt}
	vc.assume(g, se2.evalBool(con.applies.cond))
	fr := &Frame{vc: vc, fn: f.fn}
	before := st.clone()
	v, og, ost := fr.callFn(f.fn, []Value{arg}, f.binds, g, st.clone())
	if og != g {
		unsup("function argument %s may not return", fnKey(f.fn))
	}
	for k, t := range ost.heap {
		if b, ok := before.heap[k]; ok && b != t {
			unsup("function argument %s changes %s", fnKey(f.fn), k)
		}
	}
	return v
}
