package main

// Symbolic values and the flattening of Go types into SMT leaves.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StructV struct {
	typ types.Type
	f   []Value
}
type SliceV struct {
	arr, off, ln, cp *Term
	elem             types.Type
}

// PtrV is an lvalue: an object root (heap cell of type root at ref base) or a
// slice/array element root (backing array base, index idx), plus a field path.
type PtrV struct {
	elem bool // element of backing array
	base *Term
	idx  *Term
	root types.Type
	path string
	typ  types.Type // type of the pointed-to location
}
type IfaceV struct {
	tag, val *Term
	conc     Value
	ctyp     types.Type
}
type FuncV struct {
	fn    *ssa.Function
	binds []Value
	sym   *Term // unknown function value
	bi    string
}
type TupleV struct{ vs []Value }
type MapV struct {
	ref *Term
	typ *types.Map
}
type ArrayV struct { // array value: one SMT array per leaf
	leaves []*Term
	typ    *types.Array
}
type RangeV struct {
	str  *Term // string range
	m    *MapV
	addr *Term // ref of a ghost cell holding the position
	src  ssa.Value
}
type UnionV struct {
	guards []*Term
	vals   []Value
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type Leaf struct {
	path string
	sort Sort
	typ  types.Type
	kind string // "" scalar, "ptr","arr","off","len","cap","tag","val","map","func"
}

type TypeEnv struct {
	bv    bool
	cache map[string][]Leaf
}

var TE = &TypeEnv{cache: map[string][]Leaf{}}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func intInfo(t types.Type) (width int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	default:
		return 64, false, true
	}
}

func (te *TypeEnv) scalarSort(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			if te.bv {
				w, _, _ := intInfo(t)
				return BVSort(w)
			}
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return "U_Float"
		case u.Info()&types.IsComplex != 0:
			return "U_Complex"
		case u.Kind() == types.UnsafePointer:
			return SInt
		case u.Kind() == types.UntypedNil:
			return SInt
		}
	}
	return ""
}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string {
		return shortPkg(p.Path())
	})
}

func shortPkg(p string) string {
	p = strings.TrimPrefix(p, "github.com/KSpaceer/yamly/")
	p = strings.TrimPrefix(p, "engines/")
	return strings.ReplaceAll(p, "/", ".")
}

func (te *TypeEnv) flatten(t types.Type) []Leaf {
	t = types.Unalias(t)
	k := typeKey(t)
	if te.bv {
		k = "bv:" + k
	}
	if l, ok := te.cache[k]; ok {
		return l
	}
	var out []Leaf
	if tp, ok := t.(*types.TypeParam); ok {
		out = []Leaf{{"", Sort("U_" + tp.Obj().Name()), t, ""}}
		te.cache[k] = out
		return out
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s := te.scalarSort(t)
		if s == "" {
			unsup("basic type %s", t)
		}
		out = []Leaf{{"", s, t, ""}}
	case *types.Pointer:
		out = []Leaf{{"", SInt, t, "ptr"}}
	case *types.Slice:
		out = []Leaf{{"#arr", SInt, t, "arr"}, {"#off", SInt, t, "off"}, {"#len", SInt, t, "len"}, {"#cap", SInt, t, "cap"}}
	case *types.Interface:
		out = []Leaf{{"#tag", SInt, t, "tag"}, {"#val", SInt, t, "val"}}
	case *types.Map:
		out = []Leaf{{"", SInt, t, "map"}}
	case *types.Signature:
		out = []Leaf{{"", SInt, t, "func"}}
	case *types.Chan:
		out = []Leaf{{"", SInt, t, "chan"}}
	case *types.Array:
		for _, l := range te.flatten(u.Elem()) {
			out = append(out, Leaf{"[]" + l.path, ArrSort(SInt, l.sort), t, ""})
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range te.flatten(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.path, l.sort, l.typ, l.kind})
			}
		}
	default:
		unsup("type %s", t)
	}
	te.cache[k] = out
	return out
}

func zeroLeaf(l Leaf) *Term {
	switch {
	case l.sort == SBool:
		return False()
	case l.sort == SInt:
		return Int(0)
	case l.sort == SStr:
		return SeqEmpty()
	}
	if w, ok := l.sort.isBV(); ok {
		return BVLit(new(big.Int), w)
	}
	if strings.HasPrefix(string(l.sort), "(Array") {
		_, v := l.sort.arrParts()
		return ConstArr(l.sort, zeroLeaf(Leaf{sort: v}))
	}
	return Sym("zero_"+string(l.sort), l.sort)
}

func zeroValue(t types.Type) Value {
	ls := TE.flatten(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = zeroLeaf(l)
	}
	return fromLeaves(t, ts)
}

func fromLeaves(t types.Type, ts []*Term) Value {
	v, rest := fromLeaves1(t, ts)
	if len(rest) != 0 {
		panic("fromLeaves: leftover")
	}
	return v
}

var closureTab = map[*Term]*FuncV{}

func fromLeaves1(t types.Type, ts []*Term) (Value, []*Term) {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return ts[0], ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return ts[0], ts[1:]
	case *types.Pointer:
		return ptrFromTerm(ts[0], u.Elem()), ts[1:]
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3], u.Elem()}, ts[4:]
	case *types.Interface:
		return &IfaceV{tag: ts[0], val: ts[1]}, ts[2:]
	case *types.Map:
		return &MapV{ts[0], u}, ts[1:]
	case *types.Signature:
		return funcFromTerm(ts[0]), ts[1:]
	case *types.Chan:
		return ts[0], ts[1:]
	case *types.Array:
		n := len(TE.flatten(t))
		return &ArrayV{append([]*Term{}, ts[:n]...), u}, ts[n:]
	case *types.Struct:
		sv := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ts = fromLeaves1(u.Field(i).Type(), ts)
			sv.f = append(sv.f, f)
		}
		return sv, ts
	}
	unsup("fromLeaves %s", t)
	return nil, nil
}

func ptrFromTerm(b *Term, elem types.Type) Value {
	if _, ok := elem.Underlying().(*types.Array); ok {
		return &PtrV{base: b, root: elem, typ: elem}
	}
	return &PtrV{base: b, root: elem, typ: elem}
}

func funcFromTerm(t *Term) Value {
	if f, ok := closureTab[t]; ok {
		return f
	}
	if t.op == "ite" {
		return mergeVals(t.args[0], funcFromTerm(t.args[1]), funcFromTerm(t.args[2]))
	}
	return &FuncV{sym: t}
}

var closureIDs = map[string]*Term{}

func funcToTerm(f *FuncV) *Term {
	if f.sym != nil {
		return f.sym
	}
	key := "fn:"
	if f.fn != nil {
		key += f.fn.String() + fmt.Sprintf("@%d", f.fn.Pos())
	} else {
		key += "bi:" + f.bi
	}
	for _, b := range f.binds {
		if p, ok := b.(*PtrV); ok && (p.elem || p.path != "") {
			key += fmt.Sprintf(",%d:%s%s", p.base.id, typeKey(p.root), p.path)
			if p.idx != nil {
				key += fmt.Sprintf("[%d", p.idx.id)
			}
			continue
		}
		for _, l := range toLeaves(b) {
			key += fmt.Sprintf(",%d", l.id)
		}
	}
	if t, ok := closureIDs[key]; ok {
		return t
	}
	t := Int(int64(900000000 + len(closureIDs)))
	closureIDs[key] = t
	closureTab[t] = f
	return t
}

func toLeaves(v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *StructV:
		var out []*Term
		for _, f := range x.f {
			out = append(out, toLeaves(f)...)
		}
		return out
	case *SliceV:
		return []*Term{x.arr, x.off, x.ln, x.cp}
	case *PtrV:
		if x.elem || x.path != "" {
			return []*Term{interiorPtr(x)}
		}
		return []*Term{x.base}
	case *IfaceV:
		return []*Term{x.tag, x.val}
	case *FuncV:
		return []*Term{funcToTerm(x)}
	case *MapV:
		return []*Term{x.ref}
	case *ArrayV:
		return x.leaves
	case *TupleV:
		var out []*Term
		for _, f := range x.vs {
			out = append(out, toLeaves(f)...)
		}
		return out
	case *UnionV:
		n := len(x.vals)
		cur := toLeaves(x.vals[n-1])
		for i := n - 2; i >= 0; i-- {
			l := toLeaves(x.vals[i])
			nc := make([]*Term, len(l))
			for j := range l {
				nc[j] = Ite(x.guards[i], l[j], cur[j])
			}
			cur = nc
		}
		return cur
	case nil:
		return nil
	}
	unsup("toLeaves %T", v)
	return nil
}

// interiorPtr encodes an interior pointer as an opaque, injective, non-null integer.
var interiorTab = map[*Term]*PtrV{}

func interiorPtr(x *PtrV) *Term {
	unsup("interior pointer stored as value: %s%s", typeKey(x.root), x.path)
	return nil
}

func mergeVals(c *Term, a, b Value) Value {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Ite(c, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := &StructV{typ: x.typ, f: make([]Value, len(x.f))}
			for i := range x.f {
				r.f[i] = mergeVals(c, x.f[i], y.f[i])
			}
			return r
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			return &SliceV{Ite(c, x.arr, y.arr), Ite(c, x.off, y.off), Ite(c, x.ln, y.ln), Ite(c, x.cp, y.cp), x.elem}
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if x.elem == y.elem && x.path == y.path && typeKey(x.root) == typeKey(y.root) {
				r := *x
				r.base = Ite(c, x.base, y.base)
				if x.elem {
					r.idx = Ite(c, x.idx, y.idx)
				}
				return &r
			}
			return &UnionV{[]*Term{c, Not(c)}, []Value{a, b}}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			r := &IfaceV{tag: Ite(c, x.tag, y.tag), val: Ite(c, x.val, y.val)}
			if x.conc != nil && y.conc != nil && x.ctyp != nil && y.ctyp != nil && types.Identical(x.ctyp, y.ctyp) {
				r.conc = mergeVals(c, x.conc, y.conc)
				r.ctyp = x.ctyp
			}
			return r
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			if x.fn == y.fn && x.sym == y.sym && len(x.binds) == len(y.binds) && x.bi == y.bi {
				r := &FuncV{fn: x.fn, sym: x.sym, bi: x.bi}
				for i := range x.binds {
					r.binds = append(r.binds, mergeVals(c, x.binds[i], y.binds[i]))
				}
				return r
			}
			return &UnionV{[]*Term{c, Not(c)}, []Value{a, b}}
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			return &MapV{Ite(c, x.ref, y.ref), x.typ}
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok {
			r := &ArrayV{typ: x.typ}
			for i := range x.leaves {
				r.leaves = append(r.leaves, Ite(c, x.leaves[i], y.leaves[i]))
			}
			return r
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.vs) == len(y.vs) {
			r := &TupleV{}
			for i := range x.vs {
				r.vs = append(r.vs, mergeVals(c, x.vs[i], y.vs[i]))
			}
			return r
		}
	case *RangeV:
		if y, ok := b.(*RangeV); ok && x.src == y.src {
			return a
		}
	}
	_, ua := a.(*UnionV)
	_, ub := b.(*UnionV)
	if ua || ub {
		r := &UnionV{}
		add := func(g *Term, v Value) {
			if u, ok := v.(*UnionV); ok {
				for i := range u.vals {
					r.guards = append(r.guards, And(g, u.guards[i]))
					r.vals = append(r.vals, u.vals[i])
				}
				return
			}
			r.guards = append(r.guards, g)
			r.vals = append(r.vals, v)
		}
		add(c, a)
		add(Not(c), b)
		return r
	}
	unsup("merge %T / %T", a, b)
	return nil
}

// ---------- interface type tags & boxing ----------

var tagIDs = map[string]int{}
var tagTypes = map[int]types.Type{}

func tagOf(t types.Type) *Term {
	k := types.TypeString(types.Unalias(t), nil)
	id, ok := tagIDs[k]
	if !ok {
		id = len(tagIDs) + 1
		tagIDs[k] = id
		tagTypes[id] = t
	}
	return Int(int64(id))
}

func isPtrPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Pointer)
	return ok
}

func boxVal(v Value, t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Pointer:
		if p, ok := v.(*PtrV); ok && (p.elem || p.path != "") {
			if isPtrPtr(t) {
				// the address of a pointer field: boxed as an unknown value, never unboxed
				return Fresh("boxed.addr", SInt)
			}
			unsup("boxing interior pointer")
		}
		return toLeaves(v)[0]
	case *types.Map, *types.Chan, *types.Signature:
		return toLeaves(v)[0]
	}
	ls := toLeaves(v)
	if len(ls) == 0 {
		return Int(0)
	}
	return App("box<"+typeKey(t)+">", SInt, ls...)
}

// unboxVal yields the value of type t stored in payload val.
func unboxVal(val *Term, t types.Type) Value {
	if isPtrPtr(t) {
		unsup("pointer to a pointer taken out of an interface")
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return fromLeaves(t, []*Term{val})
	}
	ls := TE.flatten(t)
	ts := make([]*Term, len(ls))
	name := "box<" + typeKey(t) + ">"
	for i, l := range ls {
		if val.op == "app" && val.name == sanitize(name) {
			ts[i] = val.args[i]
			continue
		}
		ts[i] = App(fmt.Sprintf("unbox<%s>.%d", typeKey(t), i), l.sort, val)
	}
	return fromLeaves(t, ts)
}

func eqVals(a, b Value) *Term {
	la, lb := toLeaves(a), toLeaves(b)
	if len(la) != len(lb) {
		unsup("comparison of differently shaped values %T %T", a, b)
	}
	var cs []*Term
	for i := range la {
		cs = append(cs, Eq(la[i], lb[i]))
	}
	return And(cs...)
}
