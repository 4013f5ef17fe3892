package main

// Contract language: evaluation into SMT terms.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SV struct {
	v Value
	t types.Type
}

type SpecEnv struct {
	vc     *VC
	st     *State
	old    *State
	vars   map[string]SV
	oldV   map[string]SV
	pkg    *types.Package
	targs  map[string]types.Type
	guard  *Term
	depth  int
	lookup func(name string, st *State) (SV, bool)
	pre    *SpecEnv // environment at loop entry, in loop invariants
}

type specErr struct{ msg string }

func (e *SpecEnv) fail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func (e *SpecEnv) evalBool(x *Expr) *Term {
	r := e.eval(x)
	t, ok := r.v.(*Term)
	if !ok || t.sort != SBool {
		e.fail("boolean expected: %s", x.src)
	}
	return t
}
func (e *SpecEnv) evalTerm(x *Expr) *Term {
	r := e.eval(x)
	t, ok := r.v.(*Term)
	if !ok {
		ls := toLeaves(r.v)
		if len(ls) == 1 {
			return ls[0]
		}
		e.fail("scalar expected (%T): %s", r.v, exprStr(x))
	}
	return t
}

func exprStr(x *Expr) string {
	if x == nil {
		return ""
	}
	if x.src != "" {
		return x.src
	}
	switch x.op {
	case "ident":
		return x.name
	case "field":
		return exprStr(x.args[0]) + "." + x.name
	case "bin":
		return exprStr(x.args[0]) + x.name + exprStr(x.args[1])
	case "call":
		var as []string
		for _, a := range x.args[1:] {
			as = append(as, exprStr(a))
		}
		return exprStr(x.args[0]) + "(" + strings.Join(as, ",") + ")"
	}
	return x.op + ":" + x.name
}

func (e *SpecEnv) resolveType(s string) types.Type {
	s = strings.TrimSpace(s)
	if t, ok := e.targs[s]; ok {
		return t
	}
	switch s {
	case "", "int", "ref":
		return tInt
	case "bool":
		return tBool
	case "string", "seq":
		return tString
	case "rune":
		return types.Typ[types.Int32]
	case "byte":
		return types.Typ[types.Uint8]
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any":
		return types.Universe.Lookup("any").Type()
	}
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(e.resolveType(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(e.resolveType(s[2:]))
	}
	if strings.HasPrefix(s, "map[") {
		k := strings.Index(s, "]")
		return types.NewMap(e.resolveType(s[4:k]), e.resolveType(s[k+1:]))
	}
	if b := types.Universe.Lookup(s); b != nil {
		if tn, ok := b.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if k := strings.Index(s, "["); k > 0 && strings.HasSuffix(s, "]") {
		if nt, ok := e.resolveType(s[:k]).(*types.Named); ok {
			var as []types.Type
			for _, a := range strings.Split(s[k+1:len(s)-1], ",") {
				as = append(as, e.resolveType(strings.TrimSpace(a)))
			}
			if it, err := types.Instantiate(nil, nt.Origin(), as, true); err == nil {
				return it
			}
		}
	}
	pk, n := e.pkg, s
	if a, b, ok := strings.Cut(s, "."); ok {
		pk = e.vc.eng.findPkg(e.pkg, a)
		n = b
		if pk == nil {
			e.fail("unknown package %s", a)
		}
	}
	if pk != nil {
		if o := pk.Scope().Lookup(n); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				t := tn.Type()
				if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
					var as []types.Type
					for i := 0; i < nt.TypeParams().Len(); i++ {
						a := e.targs[nt.TypeParams().At(i).Obj().Name()]
						if a == nil {
							return t
						}
						as = append(as, a)
					}
					if it, err := types.Instantiate(nil, nt, as, false); err == nil {
						return it
					}
				}
				return t
			}
		}
	}
	e.fail("unknown type %s", s)
	return nil
}

func (e *SpecEnv) withVars(m map[string]SV) *SpecEnv {
	n := *e
	n.vars = map[string]SV{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range m {
		n.vars[k] = v
	}
	n.oldV = map[string]SV{}
	for k, v := range e.oldV {
		n.oldV[k] = v
	}
	for k, v := range m {
		n.oldV[k] = v
	}
	return &n
}

func (e *SpecEnv) ident(name string) (SV, bool) {
	if v, ok := e.vars[name]; ok {
		return v, true
	}
	if e.lookup != nil {
		if v, ok := e.lookup(name, e.st); ok {
			return v, true
		}
	}
	switch name {
	case "true":
		return SV{True(), tBool}, true
	case "false":
		return SV{False(), tBool}, true
	case "nil":
		return SV{nil, types.Typ[types.UntypedNil]}, true
	}
	if v, ok := e.pkgObj(e.pkg, name); ok {
		return v, true
	}
	return SV{}, false
}

func (e *SpecEnv) pkgObj(pk *types.Package, name string) (SV, bool) {
	if pk == nil {
		return SV{}, false
	}
	o := pk.Scope().Lookup(name)
	switch c := o.(type) {
	case *types.Const:
		b, ok := c.Type().Underlying().(*types.Basic)
		if !ok {
			return SV{}, false
		}
		t := c.Type()
		if c.Val().Kind() == constant.Int && b.Info()&types.IsUntyped != 0 {
			t = tInt
		}
		return SV{basicConst(c.Val(), t.Underlying().(*types.Basic), t), t}, true
	case *types.Var:
		g := e.vc.eng.globalByObj(c)
		if g != nil {
			p := e.vc.eng.globalPtr(g)
			return SV{e.vc.load(e.st, e.guard, p), c.Type()}, true
		}
	}
	return SV{}, false
}

func (e *SpecEnv) eval(x *Expr) SV {
	vc := e.vc
	switch x.op {
	case "int":
		if TE.bv {
			return SV{Int(x.n), types.Typ[types.UntypedInt]}
		}
		return SV{Int(x.n), tInt}
	case "str":
		return SV{StrLit(x.name), tString}
	case "ident":
		v, ok := e.ident(x.name)
		if !ok {
			e.fail("unknown identifier %s", x.name)
		}
		return v
	case "un":
		if x.name == "&" {
			p := e.lvalue(x.args[0])
			return SV{p, types.NewPointer(p.typ)}
		}
		a := e.eval(x.args[0])
		switch x.name {
		case "!":
			return SV{Not(a.v.(*Term)), tBool}
		case "-":
			return SV{Sub(Int(0), a.v.(*Term)), a.t}
		case "*":
			p := derefPtr(a.v)
			return SV{vc.load(e.st, e.guard, p), p.typ}
		}
	case "ite":
		c := e.evalBool(x.args[0])
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		a, b = unifyNil(a, b)
		return SV{mergeVals(c, a.v, b.v), a.t}
	case "forall", "exists":
		m := map[string]SV{}
		var bs []*Term
		for _, q := range x.vars {
			t := e.resolveType(q.typ)
			ls := TE.flatten(t)
			var ts []*Term
			for _, l := range ls {
				b := Bound(q.name, l.sort)
				bs = append(bs, b)
				ts = append(ts, b)
			}
			m[q.name] = SV{fromLeaves(t, ts), t}
		}
		n := e.withVars(m)
		body := n.evalBool(x.args[0])
		var trig [][]*Term
		if len(x.trig) > 0 {
			var g []*Term
			for _, t := range x.trig {
				g = append(g, n.evalTerm(t))
			}
			trig = append(trig, g)
		}
		return SV{Quant(x.op, bs, body, trig...), tBool}
	case "bin":
		return e.bin(x)
	case "field":
		return e.field(x)
	case "index":
		a := e.eval(x.args[0])
		switch s := a.v.(type) {
		case *SliceV:
			i := e.evalTerm(x.args[1])
			p := &PtrV{elem: true, base: s.arr, idx: Add(s.off, i), root: s.elem, typ: s.elem}
			return SV{vc.load(e.st, e.guard, p), s.elem}
		case *Term:
			return SV{SeqNth(s, e.evalTerm(x.args[1])), types.Typ[types.Int32]}
		case *MapV:
			k := e.eval(x.args[1])
			v, _ := vc.mapLookup(e.st, e.guard, s, k.v)
			return SV{v, s.typ.Elem()}
		case *ArrayV:
			i := e.evalTerm(x.args[1])
			ts := make([]*Term, len(s.leaves))
			for j, l := range s.leaves {
				ts[j] = Select(l, i)
			}
			return SV{fromLeaves(s.typ.Elem(), ts), s.typ.Elem()}
		}
		e.fail("index of %T", a.v)
	case "slice":
		a := e.eval(x.args[0])
		lo := Int(0)
		if x.args[1] != nil {
			lo = e.evalTerm(x.args[1])
		}
		switch s := a.v.(type) {
		case *Term:
			hi := SeqLen(s)
			if x.args[2] != nil {
				hi = e.evalTerm(x.args[2])
			}
			return SV{SeqExtract(s, lo, Sub(hi, lo)), tString}
		case *SliceV:
			hi := s.ln
			if x.args[2] != nil {
				hi = e.evalTerm(x.args[2])
			}
			return SV{&SliceV{s.arr, Add(s.off, lo), Sub(hi, lo), Sub(s.cp, lo), s.elem}, a.t}
		}
	case "is", "assert", "as":
		a := e.eval(x.args[0])
		iv, ok := a.v.(*IfaceV)
		if !ok {
			e.fail("is/as on non-interface %T", a.v)
		}
		t := e.resolveType(x.name)
		if x.op == "is" {
			return SV{Eq(iv.tag, tagOf(t)), tBool}
		}
		if iv.conc != nil && types.Identical(iv.ctyp, t) {
			return SV{iv.conc, t}
		}
		return SV{unboxVal(iv.val, t), t}
	case "call":
		return e.call(x)
	}
	e.fail("cannot evaluate %s (%s)", x.op, exprStr(x))
	return SV{}
}

func unifyNil(a, b SV) (SV, SV) {
	if a.v == nil && b.v != nil {
		a = SV{zeroValue(b.t), b.t}
	}
	if b.v == nil && a.v != nil {
		b = SV{zeroValue(a.t), a.t}
	}
	return a, b
}

func (e *SpecEnv) coerceBV(a, b SV) (SV, SV) {
	ta, ok1 := a.v.(*Term)
	tb, ok2 := b.v.(*Term)
	if ok1 && ok2 && ta.sort != tb.sort {
		if w, ok := ta.sort.isBV(); ok && tb.isInt() {
			b = SV{BVLit(tb.ival, w), a.t}
		} else if w, ok := tb.sort.isBV(); ok && ta.isInt() {
			a = SV{BVLit(ta.ival, w), b.t}
		}
	}
	return a, b
}

func (e *SpecEnv) bin(x *Expr) SV {
	switch x.name {
	case "&&":
		a := e.evalBool(x.args[0])
		if a.isFalse() {
			return SV{a, tBool}
		}
		return SV{And(a, e.evalBool(x.args[1])), tBool}
	case "||":
		a := e.evalBool(x.args[0])
		if a.isTrue() {
			return SV{a, tBool}
		}
		return SV{Or(a, e.evalBool(x.args[1])), tBool}
	case "==>":
		a := e.evalBool(x.args[0])
		if a.isFalse() {
			return SV{True(), tBool}
		}
		return SV{Implies(a, e.evalBool(x.args[1])), tBool}
	case "<==>":
		return SV{Eq(e.evalBool(x.args[0]), e.evalBool(x.args[1])), tBool}
	}
	a, b := e.eval(x.args[0]), e.eval(x.args[1])
	a, b = unifyNil(a, b)
	a, b = e.coerceBV(a, b)
	switch x.name {
	case "==", "!=":
		var r *Term
		if a.v == nil && b.v == nil {
			r = True()
		} else {
			_, ia := a.v.(*IfaceV)
			_, ib := b.v.(*IfaceV)
			if ia && !ib {
				b.v = e.vc.makeIface(b.v, b.t)
			} else if ib && !ia {
				a.v = e.vc.makeIface(a.v, a.t)
			}
			r = eqValues(a.v, b.v)
		}
		if x.name == "!=" {
			r = Not(r)
		}
		return SV{r, tBool}
	case "++":
		return SV{SeqConcat(a.v.(*Term), b.v.(*Term)), tString}
	}
	ta, ok1 := a.v.(*Term)
	tb, ok2 := b.v.(*Term)
	if !ok1 || !ok2 {
		e.fail("operator %s on %T,%T in %s", x.name, a.v, b.v, exprStr(x))
	}
	if _, bv := ta.sort.isBV(); bv {
		w, signed, _ := intInfo(a.t)
		_ = w
		s := "u"
		if signed {
			s = "s"
		}
		switch x.name {
		case "<":
			return SV{Raw("bv"+s+"lt", SBool, ta, tb), tBool}
		case "<=":
			return SV{Raw("bv"+s+"le", SBool, ta, tb), tBool}
		case ">":
			return SV{Raw("bv"+s+"lt", SBool, tb, ta), tBool}
		case ">=":
			return SV{Raw("bv"+s+"le", SBool, tb, ta), tBool}
		case "+":
			return SV{bvop("bvadd", ta, tb), a.t}
		case "-":
			return SV{bvop("bvsub", ta, tb), a.t}
		}
	}
	switch x.name {
	case "<":
		return SV{Lt(ta, tb), tBool}
	case "<=":
		return SV{Le(ta, tb), tBool}
	case ">":
		return SV{Gt(ta, tb), tBool}
	case ">=":
		return SV{Ge(ta, tb), tBool}
	case "+":
		if ta.sort == SStr {
			return SV{SeqConcat(ta, tb), tString}
		}
		return SV{Add(ta, tb), tInt}
	case "-":
		return SV{Sub(ta, tb), tInt}
	case "*":
		return SV{Mul(ta, tb), tInt}
	case "/":
		return SV{Raw("div", SInt, ta, tb), tInt}
	case "%":
		return SV{Raw("mod", SInt, ta, tb), tInt}
	}
	e.fail("operator %s", x.name)
	return SV{}
}

func (e *SpecEnv) field(x *Expr) SV {
	// package-qualified name
	if b := x.args[0]; b.op == "ident" {
		if _, isVar := e.ident(b.name); !isVar {
			if pk := e.vc.eng.findPkg(e.pkg, b.name); pk != nil {
				if v, ok := e.pkgObj(pk, x.name); ok {
					return v
				}
				e.fail("unknown %s.%s", b.name, x.name)
			}
		}
	}
	if e.vc.reading != nil && x.args[0].op == "field" {
		if p := e.structLoc(x.args[0]); p != nil { // reads only the selected field
			return e.selField(SV{p, types.NewPointer(p.typ)}, x.name)
		}
	}
	a := e.eval(x.args[0])
	return e.selField(a, x.name)
}

// structLoc locates a field of struct type without reading it.
func (e *SpecEnv) structLoc(x *Expr) *PtrV {
	var b *PtrV
	if y := x.args[0]; y.op == "field" {
		b = e.structLoc(y)
	} else if y.op != "ident" {
		return nil
	}
	if b == nil {
		if y := x.args[0]; y.op == "ident" {
			if _, isVar := e.ident(y.name); !isVar {
				return nil
			}
		}
		p, ok := e.eval(x.args[0]).v.(*PtrV)
		if !ok {
			return nil
		}
		b = p
	}
	st, ok := b.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == x.name {
			if _, ok := f.Type().Underlying().(*types.Struct); !ok {
				return nil
			}
			r := *b
			r.path += "." + f.Name()
			r.typ = f.Type()
			return &r
		}
	}
	return nil
}

// selField selects a (possibly promoted) field.
func (e *SpecEnv) selField(a SV, name string) SV {
	t := a.t
	if p, ok := a.v.(*PtrV); ok {
		t = p.typ
	}
	if t == nil {
		e.fail("field %s of untyped value", name)
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, e.anyPkg(t), name)
	if _, ok := obj.(*types.Var); !ok {
		e.fail("no field %s in %s", name, t)
	}
	cur := a
	for _, i := range idx {
		switch v := cur.v.(type) {
		case *PtrV:
			// auto-deref chain: value may itself be pointer-typed location
			st, ok := v.typ.Underlying().(*types.Struct)
			if !ok {
				e.fail("field of non-struct %s", v.typ)
			}
			f := st.Field(i)
			r := *v
			r.path += "." + f.Name()
			r.typ = f.Type()
			cur = SV{e.vc.load(e.st, e.guard, &r), f.Type()}
		case *StructV:
			st := v.typ.Underlying().(*types.Struct)
			cur = SV{v.f[i], st.Field(i).Type()}
		default:
			e.fail("field %s of %T", name, cur.v)
		}
	}
	return cur
}

func (e *SpecEnv) anyPkg(t types.Type) *types.Package {
	tt := types.Unalias(t)
	if p, ok := tt.(*types.Pointer); ok {
		tt = types.Unalias(p.Elem())
	}
	if n, ok := tt.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return e.pkg
}

// lvalue evaluates an expression as a location.
func (e *SpecEnv) lvalue(x *Expr) *PtrV {
	switch x.op {
	case "ident":
		if e.lookup != nil {
			if v, ok := e.lookup("&"+x.name, e.st); ok {
				if p, ok := v.v.(*PtrV); ok {
					return p
				}
			}
		}
		if _, local := e.vars[x.name]; !local && e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(x.name).(*types.Var); ok {
				if g := e.vc.eng.globalByObj(o); g != nil {
					return e.vc.eng.globalPtr(g)
				}
			}
		}
		v, ok := e.ident(x.name)
		if !ok {
			e.fail("unknown %s", x.name)
		}
		if p, ok := v.v.(*PtrV); ok {
			return p
		}
	case "un":
		if x.name == "*" {
			return derefPtr(e.eval(x.args[0]).v)
		}
	case "as", "assert":
		if p, ok := e.eval(x).v.(*PtrV); ok {
			return p
		}
	case "index":
		a := e.eval(x.args[0])
		if s, ok := a.v.(*SliceV); ok {
			i := e.evalTerm(x.args[1])
			return &PtrV{elem: true, base: s.arr, idx: Add(s.off, i), root: s.elem, typ: s.elem}
		}
	case "field":
		var base *PtrV
		if v, ok := func() (v SV, ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(specErr); is {
						ok = false
						return
					}
					panic(r)
				}
			}()
			return e.eval(x.args[0]), true
		}(); ok {
			if p, isP := v.v.(*PtrV); isP {
				base = p
			}
		}
		if base == nil {
			base = e.lvalue(x.args[0])
		}
		obj, idx, _ := types.LookupFieldOrMethod(base.typ, true, e.anyPkg(base.typ), x.name)
		if obj == nil {
			e.fail("no field %s in %s", x.name, base.typ)
		}
		for _, i := range idx {
			st, ok := base.typ.Underlying().(*types.Struct)
			if !ok {
				if _, isp := base.typ.Underlying().(*types.Pointer); isp {
					base = derefPtr(e.vc.load(e.st, e.guard, base))
					st = base.typ.Underlying().(*types.Struct)
				}
			}
			f := st.Field(i)
			r := *base
			r.path += "." + f.Name()
			r.typ = f.Type()
			base = &r
		}
		return base
	}
	e.fail("not an lvalue: %s", exprStr(x))
	return nil
}

func refOf(v Value) *Term {
	switch x := v.(type) {
	case *PtrV:
		return x.base
	case *IfaceV:
		return x.val
	case *MapV:
		return x.ref
	case *SliceV:
		return x.arr
	case *Term:
		return x
	}
	unsup("refOf %T", v)
	return nil
}

func (e *SpecEnv) call(x *Expr) SV {
	vc := e.vc
	f := x.args[0]
	args := x.args[1:]
	if f.op != "ident" {
		if f.op == "field" && f.args[0].op == "ident" {
			if e.vc.eng.pureFn(e.pkg, exprStr(f)) != nil {
				return e.callNamed(exprStr(f), args, x)
			}
			if _, isVar := e.ident(f.args[0].name); !isVar {
				if pk := e.vc.eng.findPkg(e.pkg, f.args[0].name); pk != nil {
					if fn := e.vc.eng.pureFn(pk, f.name); fn != nil {
						return e.inlineCall(fn, args)
					}
					if fn := e.vc.eng.foreignFn(pk, f.name); fn != nil {
						return e.foreignCall(fn, args)
					}
				}
			}
			// pkg.pred
			return e.callNamed(f.name, args, x)
		}
		e.fail("call of %s", exprStr(f))
	}
	switch f.name {
	case "old":
		n := *e
		n.st = e.old
		n.vars = e.oldV
		if e.lookup != nil {
			n.lookup = nil
		}
		return n.eval(args[0])
	case "pre": // value at loop entry, in a loop invariant
		if e.pre == nil {
			e.fail("pre outside a loop invariant")
		}
		n := *e.pre
		n.vars = e.vars
		return n.eval(args[0])
	case "len":
		a := e.eval(args[0])
		switch s := a.v.(type) {
		case *SliceV:
			return SV{s.ln, tInt}
		case *Term:
			return SV{SeqLen(s), tInt}
		case *MapV:
			return SV{App("maplen", SInt, s.ref), tInt}
		case *ArrayV:
			return SV{Int(s.typ.Len()), tInt}
		}
		e.fail("len of %T", a.v)
	case "fst", "snd":
		a := e.eval(args[0])
		tv, ok := a.v.(*TupleV)
		if !ok {
			e.fail("fst/snd of %T", a.v)
		}
		i := 0
		if f.name == "snd" {
			i = 1
		}
		return SV{tv.vs[i], a.t.(*types.Tuple).At(i).Type()}
	case "fzero":
		return SV{Sym("float_0", "U_Float"), types.Typ[types.Float64]}
	case "cap":
		return SV{e.eval(args[0]).v.(*SliceV).cp, tInt}
	case "blen":
		return SV{byteLen(e.evalTerm(args[0])), tInt}
	case "arr":
		return SV{refOf(e.eval(args[0]).v), tInt}
	case "off":
		return SV{e.eval(args[0]).v.(*SliceV).off, tInt}
	case "ref":
		return SV{refOf(e.eval(args[0]).v), tInt}
	case "tagof":
		return SV{e.eval(args[0]).v.(*IfaceV).tag, tInt}
	case "fresh":
		r := refOf(e.eval(args[0]).v)
		return SV{And(Le(e.old.alloc, r), Lt(r, e.st.alloc)), tBool}
	case "allocated":
		r := refOf(e.eval(args[0]).v)
		return SV{Lt(r, e.st.alloc), tBool}
	case "has":
		m := e.eval(args[0]).v.(*MapV)
		k := e.eval(args[1])
		_, h := vc.mapLookup(e.st, e.guard, m, k.v)
		return SV{h, tBool}
	case "unit":
		return SV{SeqUnit(e.evalTerm(args[0])), tString}
	case "content": // ghost content of a builder/buffer
		p := e.lvalue(args[0])
		return SV{vc.bufContent(e.st, p), tString}
	case "string":
		a := e.eval(args[0])
		if sl, ok := a.v.(*SliceV); ok {
			w, _, _ := intInfo(sl.elem)
			h := vc.heapGet(e.st, elemKey(sl.elem, ""), ArrSort(SInt, ArrSort(SInt, SInt)))
			if w == 32 {
				return SV{vc.stringOfRunes(Select(h, sl.arr), sl.off, sl.ln), tString}
			}
			return SV{vc.stringOfBytes(Select(h, sl.arr), sl.off, sl.ln), tString}
		}
		return a
	case "int", "rune", "byte":
		return e.eval(args[0])
	case "prefix":
		return SV{Raw("seq.prefixof", SBool, e.evalTerm(args[0]), e.evalTerm(args[1])), tBool}
	case "contains":
		return SV{Raw("seq.contains", SBool, e.evalTerm(args[0]), e.evalTerm(args[1])), tBool}
	case "matches": // matches(s, "regular expression")
		ex, ok := strLit(e.evalTerm(args[1]))
		if !ok {
			e.fail("matches needs a constant expression")
		}
		return SV{reOf(ex).matchTerm(e.evalTerm(args[0])), tBool}
	case "bounded":
		return SV{Bool(true), tBool}
	}
	return e.callNamed(f.name, args, x)
}

func (e *SpecEnv) callNamed(name string, args []*Expr, x *Expr) SV {
	vc := e.vc
	if pd, ok := vc.eng.spec.preds[name]; ok {
		if len(pd.params) != len(args) {
			e.fail("%s: wrong number of arguments", name)
		}
		if pd.rec {
			return e.callRec(pd, args)
		}
		if e.depth > 60 {
			e.fail("pred nesting too deep at %s", name)
		}
		n := *e
		n.depth++
		n.vars = map[string]SV{}
		n.oldV = map[string]SV{}
		n.lookup = nil
		n.pkg = vc.eng.typesPkg(pd.pkg)
		for i, a := range args {
			v := e.eval(a)
			if v.v == nil {
				t := n.resolveType(pd.params[i].typ)
				v = SV{zeroValue(t), t}
			}
			if p, ok := v.v.(*PtrV); ok && v.t != nil { // a pointer given where an interface is declared
				if _, ptr := types.Unalias(v.t).Underlying().(*types.Pointer); ptr && !strings.HasPrefix(pd.params[i].typ, "*") && pd.params[i].typ != "ref" {
					if t := n.resolveType(pd.params[i].typ); types.IsInterface(t) {
						v = SV{vc.makeIface(p, v.t), t}
					}
				}
			}
			n.vars[pd.params[i].name] = v
			n.oldV[pd.params[i].name] = v
			if p, ok := v.v.(*PtrV); ok {
				if nt, ok := types.Unalias(p.typ).(*types.Named); ok && nt.TypeArgs().Len() > 0 {
					n.targs = map[string]types.Type{}
					for k, v := range e.targs {
						n.targs[k] = v
					}
					for j := 0; j < nt.TypeArgs().Len(); j++ {
						n.targs[nt.Origin().TypeParams().At(j).Obj().Name()] = nt.TypeArgs().At(j)
					}
				}
			}
		}
		if vc.opaque[pd.name] {
			return n.opaquePred(pd)
		}
		return n.eval(pd.body)
	}
	if gd, ok := vc.eng.spec.ghosts[name]; ok {
		var ts []*Term
		for i, a := range args {
			v := e.eval(a)
			if v.v == nil {
				v.v = Int(0)
			}
			if gd.params[i].typ == "ref" {
				ts = append(ts, refOf(v.v))
			} else {
				ts = append(ts, toLeaves(v.v)...)
			}
		}
		rt := e.resolveType(gd.ret)
		if gd.state {
			var vs []*Term
			for _, l := range TE.flatten(rt) {
				vs = append(vs, Select(vc.heapGet(e.st, "ghost:"+name+l.path, ArrSort(SInt, l.sort)), ts[0]))
			}
			return SV{fromLeaves(rt, vs), rt}
		}
		ls := TE.flatten(rt)
		out := make([]*Term, len(ls))
		for i, l := range ls {
			out[i] = App("gh:"+gd.name+l.path+"<"+string(l.sort)+">", l.sort, ts...)
		}
		if !anyBound(out) {
			vc.typeFacts(e.st, e.guard, ls, out)
		}
		return SV{fromLeaves(rt, out), rt}
	}
	// method of a Go type used as pure function: inline real code
	if fn := vc.eng.pureFn(e.pkg, name); fn != nil {
		return e.inlineCall(fn, args)
	}
	e.fail("unknown function %s", name)
	return SV{}
}

// opaquePred applies a heap-reading predicate as an uninterpreted function of its arguments and of every heap
// component its definition reads; e is the environment of the definition, with the parameters bound.
func (e *SpecEnv) opaquePred(pd *PredDef) SV {
	vc := e.vc
	if vc.opReads == nil {
		vc.opReads = map[string]map[string]Sort{}
	}
	reads, ok := vc.opReads[pd.name]
	if !ok {
		// the components read on symbolic arguments, so that nothing is folded away
		mk := vc.mark()
		vc.dry++
		n := *e
		st := e.st.clone()
		n.st, n.old = st, st
		n.vars = map[string]SV{}
		for _, q := range pd.params {
			v := e.vars[q.name]
			if v.t == nil {
				v.t = n.resolveType(q.typ)
			}
			n.vars[q.name] = SV{vc.freshValue(st, True(), "op."+q.name, v.t), v.t}
		}
		n.oldV = n.vars
		saved := vc.reading
		vc.reading = map[string]Sort{}
		n.eval(pd.body)
		reads = vc.reading
		vc.reading = saved
		vc.dry--
		vc.restore(mk)
		vc.opReads[pd.name] = reads
	}
	for k, s := range reads {
		if vc.reading != nil {
			vc.reading[k] = s
		}
	}
	var ts []*Term
	for _, q := range pd.params {
		ts = append(ts, toLeaves(e.vars[q.name].v)...)
	}
	for _, k := range sortedKeys(reads) {
		ts = append(ts, vc.heapGet(e.st, k, reads[k]))
	}
	rt := e.resolveType(pd.ret)
	ls := TE.flatten(rt)
	out := make([]*Term, len(ls))
	for i, l := range ls {
		out[i] = App("op:"+pd.name+l.path, l.sort, ts...)
	}
	return SV{fromLeaves(rt, out), rt}
}

// foreignCall is the value an external function has for its arguments.
func (e *SpecEnv) foreignCall(fn *ssa.Function, args []*Expr) SV {
	var vs []Value
	for i, a := range args {
		v := e.eval(a)
		if v.v == nil {
			v.v = zeroValue(fn.Params[i].Type())
		}
		vs = append(vs, v.v)
	}
	var r Value
	if con := e.vc.eng.contractFor(fn); con != nil {
		if !con.opts["det"] {
			e.fail("%s is not a function of its arguments", fn)
		}
		r = e.vc.detApp(con, fn.Signature, vs, e.guard, e.st)
	} else {
		fr := &Frame{vc: e.vc, fn: fn}
		r = fr.foreign(fn, vs, e.guard, e.st)
	}
	if fn.Signature.Results().Len() == 1 {
		return SV{r, fn.Signature.Results().At(0).Type()}
	}
	return SV{r, fn.Signature.Results()}
}

// inlineCall evaluates a function of the code under verification on its real body.
func (e *SpecEnv) inlineCall(fn *ssa.Function, args []*Expr) SV {
	vc := e.vc
	var vs []Value
	for i, a := range args {
		v := e.eval(a)
		if v.v == nil {
			v.v = zeroValue(fn.Params[i].Type())
		}
		vs = append(vs, v.v)
	}
	vc.dry++
	r, _, _ := vc.callBody(fn, vs, nil, e.guard, e.st.clone(), nil)
	vc.dry--
	return SV{r, resultType(fn.Signature)}
}

func anyBound(ts []*Term) bool {
	for _, t := range ts {
		if t.bound {
			return true
		}
	}
	return false
}

// callRec applies a recursive spec function over scalar/sequence arguments.
func (e *SpecEnv) callRec(pd *PredDef, args []*Expr) SV {
	vc := e.vc
	var ts []*Term
	for i, a := range args {
		v := e.eval(a).v
		if pd.params[i].typ == "ref" {
			if v == nil {
				v = Int(0)
			}
			ts = append(ts, refOf(v))
			continue
		}
		ts = append(ts, toLeaves(v)...)
	}
	rt := e.resolveType(pd.ret)
	s := TE.flatten(rt)[0].sort
	name := "rec:" + pd.name
	if vc.opaque[pd.name] {
		return SV{App("o"+name, s, ts...), rt}
	}
	vc.eng.defineRec(vc, pd, name, s)
	return SV{App(name, s, ts...), rt}
}

// unfoldRec gives the defining equation of a recursive spec function at the given arguments.
func (e *SpecEnv) unfoldRec(x *Expr) *Term {
	if x.op == "forall" {
		m := map[string]SV{}
		var bs []*Term
		for _, q := range x.vars {
			t := e.resolveType(q.typ)
			b := Bound(q.name, TE.flatten(t)[0].sort)
			bs = append(bs, b)
			m[q.name] = SV{fromLeaves(t, []*Term{b}), t}
		}
		n := e.withVars(m)
		return Quant("forall", bs, n.unfoldRec(x.args[0]), []*Term{n.evalTerm(x.args[0])})
	}
	if x.op != "call" || x.args[0].op != "ident" {
		e.fail("unfold needs a call")
	}
	pd, ok := e.vc.eng.spec.preds[x.args[0].name]
	if !ok || !pd.rec {
		e.fail("unfold of %s", exprStr(x))
	}
	lhs := e.eval(x)
	n := *e
	n.vars = map[string]SV{}
	n.lookup = nil
	n.pkg = e.vc.eng.typesPkg(pd.pkg)
	for i, a := range x.args[1:] {
		n.vars[pd.params[i].name] = e.eval(a)
	}
	n.oldV = n.vars
	return eqValues(lhs.v, n.eval(pd.body).v)
}
