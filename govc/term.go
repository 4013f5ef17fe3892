package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "(Seq Int)"
)

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }
func BVSort(w int) Sort      { return Sort(fmt.Sprintf("(_ BitVec %d)", w)) }

func (s Sort) isBV() (int, bool) {
	if strings.HasPrefix(string(s), "(_ BitVec ") {
		n, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(string(s), "(_ BitVec "), ")"))
		return n, true
	}
	return 0, false
}

// arrElem returns the value sort of an array sort.
func (s Sort) arrElem() Sort {
	_, v := s.arrParts()
	return v
}
func (s Sort) arrParts() (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not array sort: " + str)
	}
	body := str[7 : len(str)-1]
	d := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort")
}

type Term struct {
	id    int
	op    string // operator, or "const" (symbol), "int", "true","false","bound","forall","exists","bv"
	name  string // symbol name, literal
	args  []*Term
	sort  Sort
	ival  *big.Int
	bound bool    // contains free bound var
	vars  []*Term // for quantifiers
	trig  [][]*Term
	seq   int // creation stamp for symbols
}

type Pool struct {
	tab    map[string]*Term
	n      int
	symN   int
	funcs  map[string]string // declared uninterpreted functions: name -> declaration text
	frefs  map[string]map[string]bool
	forder []string
}

var P *Pool

func newPool() *Pool {
	closureTab, closureIDs = map[*Term]*FuncV{}, map[string]*Term{}
	return &Pool{tab: map[string]*Term{}, funcs: map[string]string{}}
}

func (p *Pool) mk(op, name string, s Sort, args []*Term, ival *big.Int) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(string(s))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := p.tab[k]; ok {
		return t
	}
	p.n++
	t := &Term{id: p.n, op: op, name: name, sort: s, args: args, ival: ival}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	if op == "bound" {
		t.bound = true
	}
	p.tab[k] = t
	return t
}

func True() *Term  { return P.mk("true", "", SBool, nil, nil) }
func False() *Term { return P.mk("false", "", SBool, nil, nil) }
func Bool(b bool) *Term {
	if b {
		return True()
	}
	return False()
}
func Int(n int64) *Term { return BigInt(big.NewInt(n)) }
func BigInt(n *big.Int) *Term {
	return P.mk("int", n.String(), SInt, nil, new(big.Int).Set(n))
}
func BVLit(n *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	return P.mk("bv", v.String(), BVSort(w), nil, v)
}
func Sym(name string, s Sort) *Term { // global symbol
	return P.mk("const", name, s, nil, nil)
}
func Fresh(prefix string, s Sort) *Term {
	P.symN++
	t := P.mk("const", fmt.Sprintf("%s!%d", sanitize(prefix), P.symN), s, nil, nil)
	t.seq = P.symN
	return t
}
func Bound(prefix string, s Sort) *Term {
	P.symN++
	return P.mk("bound", fmt.Sprintf("%s?%d", sanitize(prefix), P.symN), s, nil, nil)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '$' || r == '-' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// App applies an uninterpreted function, declaring it on first use.
func App(fn string, s Sort, args ...*Term) *Term {
	fn = sanitize(fn)
	if len(args) == 0 {
		return Sym(fn, s)
	}
	if _, ok := P.funcs[fn]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, string(a.sort))
		}
		P.funcs[fn] = fmt.Sprintf("(declare-fun |%s| (%s) %s)", fn, strings.Join(as, " "), s)
		P.forder = append(P.forder, fn)
	}
	return P.mk("app", fn, s, args, nil)
}

// Def declares a (possibly recursive) defined function verbatim.
func DefFun(name, decl string) {
	if _, ok := P.funcs[name]; !ok {
		P.funcs[name] = decl
		P.forder = append(P.forder, name)
	}
}

func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }
func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) isLit() bool {
	return t.op == "int" || t.op == "true" || t.op == "false" || t.op == "bv"
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False()
	case "false":
		return True()
	case "not":
		return a.args[0]
	}
	return P.mk("not", "", SBool, []*Term{a}, nil)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isTrue() {
			return true
		}
		if a.isFalse() {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False()
		}
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return False()
		}
	}
	if len(out) == 0 {
		return True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return P.mk("and", "", SBool, out, nil)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isFalse() {
			continue
		}
		if a.isTrue() {
			return True()
		}
		var xs []*Term
		if a.op == "or" {
			xs = a.args
		} else {
			xs = []*Term{a}
		}
		for _, x := range xs {
			if !seen[x.id] {
				seen[x.id] = true
				out = append(out, x)
			}
		}
	}
	for _, a := range out {
		if a.op == "not" && seen[a.args[0].id] {
			return True()
		}
	}
	// factor: (g & c) | (g & !c) => g
	if len(out) == 2 {
		if f := factorOr(out[0], out[1]); f != nil {
			return f
		}
	}
	if len(out) == 0 {
		return False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return P.mk("or", "", SBool, out, nil)
}

func conjuncts(a *Term) []*Term {
	if a.op == "and" {
		return a.args
	}
	return []*Term{a}
}

func factorOr(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inB := map[int]bool{}
	for _, x := range cb {
		inB[x.id] = true
	}
	inA := map[int]bool{}
	for _, x := range ca {
		inA[x.id] = true
	}
	var common, ra, rb []*Term
	for _, x := range ca {
		if inB[x.id] {
			common = append(common, x)
		} else {
			ra = append(ra, x)
		}
	}
	for _, x := range cb {
		if !inA[x.id] {
			rb = append(rb, x)
		}
	}
	if len(ra) == 0 || len(rb) == 0 {
		return And(common...)
	}
	if len(ra) == 1 && len(rb) == 1 && Not(ra[0]) == rb[0] {
		return And(common...)
	}
	if len(common) > 0 {
		return And(append(append([]*Term{}, common...), Or(And(ra...), And(rb...)))...)
	}
	return nil
}

func Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() {
		return True()
	}
	if b.isFalse() {
		return Not(a)
	}
	if a == b {
		return True()
	}
	return P.mk("=>", "", SBool, []*Term{a, b}, nil)
}

func Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch: %s vs %s", a.sort, b.sort))
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return Not(c)
		}
		if a.isTrue() {
			return Or(c, b)
		}
		if a.isFalse() {
			return And(Not(c), b)
		}
		if b.isTrue() {
			return Or(Not(c), a)
		}
		if b.isFalse() {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return P.mk("ite", "", a.sort, []*Term{c, a, b}, nil)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch: %s (%s) vs %s (%s)", a.sort, a.String(), b.sort, b.String()))
	}
	if a.isLit() && b.isLit() {
		return Bool(a == b)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return Not(b)
		}
		if b.isFalse() {
			return Not(a)
		}
	}
	if a.isLit() || (b.id < a.id && !b.isLit()) {
		a, b = b, a
	}
	if b.isLit() && a.op == "ite" && (a.args[1].isLit() || a.args[2].isLit()) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if a.sort == SStr {
		la, oka := strLit(a)
		lb, okb := strLit(b)
		if oka && okb {
			return Bool(la == lb)
		}
	}
	if a.sort == SInt {
		// a+c1 = a+c2
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba != nil && ba == bb {
			return Bool(ca.Cmp(cb) == 0)
		}
		if ba != nil && bb == nil && ca.Sign() != 0 {
			return Eq(ba, BigInt(new(big.Int).Sub(cb, ca)))
		}
	}
	return P.mk("=", "", SBool, []*Term{a, b}, nil)
}

// splitAdd writes t as base + const (base nil for literals).
func splitAdd(t *Term) (*Term, *big.Int) {
	if t.isInt() {
		return nil, t.ival
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].isInt() {
		return t.args[0], t.args[1].ival
	}
	return t, new(big.Int)
}

func Add(a, b *Term) *Term {
	if _, ok := a.sort.isBV(); ok {
		return bvop("bvadd", a, b)
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	c := new(big.Int).Add(ca, cb)
	switch {
	case ba == nil && bb == nil:
		return BigInt(c)
	case ba == nil:
		return addc(bb, c)
	case bb == nil:
		return addc(ba, c)
	}
	if bb.op == "-" && len(bb.args) == 2 && bb.args[1] == ba {
		return addc(bb.args[0], c)
	}
	if ba.op == "-" && len(ba.args) == 2 && ba.args[1] == bb {
		return addc(ba.args[0], c)
	}
	return addc(P.mk("+", "", SInt, []*Term{ba, bb}, nil), c)
}
func addc(b *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return b
	}
	return P.mk("+", "", SInt, []*Term{b, BigInt(c)}, nil)
}
func Sub(a, b *Term) *Term {
	if _, ok := a.sort.isBV(); ok {
		return bvop("bvsub", a, b)
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	c := new(big.Int).Sub(ca, cb)
	if ba == bb {
		return BigInt(c)
	}
	if bb == nil {
		return addc(ba, c)
	}
	if ba == nil {
		ba = Int(0)
	}
	if ba.op == "+" && len(ba.args) == 2 {
		if ba.args[0] == bb {
			return Add(ba.args[1], BigInt(c))
		}
		if ba.args[1] == bb {
			return Add(ba.args[0], BigInt(c))
		}
	}
	return addc(P.mk("-", "", SInt, []*Term{ba, bb}, nil), c)
}
func Mul(a, b *Term) *Term {
	if _, ok := a.sort.isBV(); ok {
		return bvop("bvmul", a, b)
	}
	if a.isInt() && b.isInt() {
		return BigInt(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() && b.ival.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return P.mk("*", "", SInt, []*Term{a, b}, nil)
}

func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Le(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.isInt() && b.isInt() {
		return Bool(a.ival.Cmp(b.ival) <= 0)
	}
	ba, ca := splitAdd(a)
	bb, cb := splitAdd(b)
	if ba != nil && ba == bb {
		return Bool(ca.Cmp(cb) <= 0)
	}
	if ba == nil && b.op == "ite" && b.args[1].isInt() && b.args[2].isInt() {
		return Ite(b.args[0], Le(a, b.args[1]), Le(a, b.args[2]))
	}
	if bb == nil && a.op == "ite" && a.args[1].isInt() && a.args[2].isInt() {
		return Ite(a.args[0], Le(a.args[1], b), Le(a.args[2], b))
	}
	// normalise constants to one side
	if ba == nil && bb != nil {
		return P.mk("<=", "", SBool, []*Term{BigInt(new(big.Int).Sub(ca, cb)), bb}, nil)
	}
	if bb == nil && ba != nil {
		return P.mk("<=", "", SBool, []*Term{ba, BigInt(new(big.Int).Sub(cb, ca))}, nil)
	}
	return P.mk("<=", "", SBool, []*Term{a, b}, nil)
}

func Raw(op string, s Sort, args ...*Term) *Term { return P.mk(op, "", s, args, nil) }

func bvop(op string, a, b *Term) *Term {
	w, _ := a.sort.isBV()
	if a.op == "bv" && b.op == "bv" {
		m := new(big.Int)
		switch op {
		case "bvadd":
			return BVLit(m.Add(a.ival, b.ival), w)
		case "bvsub":
			return BVLit(m.Sub(a.ival, b.ival), w)
		case "bvmul":
			return BVLit(m.Mul(a.ival, b.ival), w)
		case "bvand":
			return BVLit(m.And(a.ival, b.ival), w)
		case "bvor":
			return BVLit(m.Or(a.ival, b.ival), w)
		}
	}
	if a.sort != b.sort {
		panic("bv width mismatch " + op + " " + string(a.sort) + " " + string(b.sort))
	}
	return P.mk(op, "", a.sort, []*Term{a, b}, nil)
}

func Select(a, i *Term) *Term {
	for a.op == "store" {
		e := Eq(a.args[1], i)
		if e.isTrue() {
			return a.args[2]
		}
		if e.isFalse() {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "ite") && iteDepth(a) < 6 {
		l, r := Select(a.args[1], i), Select(a.args[2], i)
		return Ite(a.args[0], l, r)
	}
	return P.mk("select", "", a.sort.arrElem(), []*Term{a, i}, nil)
}
func iteDepth(a *Term) int {
	if a.op != "ite" {
		return 0
	}
	return 1 + max(iteDepth(a.args[1]), iteDepth(a.args[2]))
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if v.sort != a.sort.arrElem() {
		panic(fmt.Sprintf("store sort mismatch %s into %s", v.sort, a.sort))
	}
	return P.mk("store", "", a.sort, []*Term{a, i, v}, nil)
}
func ConstArr(s Sort, v *Term) *Term { return P.mk("constarr", "", s, []*Term{v}, nil) }

// sequences
func StrLit(s string) *Term {
	rs := []rune(s)
	ts := make([]*Term, len(rs))
	for i, r := range rs {
		ts[i] = SeqUnit(Int(int64(r)))
	}
	return SeqConcat(ts...)
}
func strLit(t *Term) (string, bool) {
	switch t.op {
	case "seq.empty":
		return "", true
	case "seq.unit":
		if t.args[0].isInt() {
			return string(rune(t.args[0].ival.Int64())), true
		}
	case "seq.++":
		s := ""
		for _, a := range t.args {
			x, ok := strLit(a)
			if !ok {
				return "", false
			}
			s += x
		}
		return s, true
	}
	return "", false
}
func SeqEmpty() *Term       { return P.mk("seq.empty", "", SStr, nil, nil) }
func SeqUnit(e *Term) *Term { return P.mk("seq.unit", "", SStr, []*Term{e}, nil) }
func SeqConcat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		switch a.op {
		case "seq.empty":
		case "seq.++":
			out = append(out, a.args...)
		default:
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return SeqEmpty()
	}
	if len(out) == 1 {
		return out[0]
	}
	return P.mk("seq.++", "", SStr, out, nil)
}
func SeqLen(s *Term) *Term {
	switch s.op {
	case "seq.empty":
		return Int(0)
	case "seq.unit":
		return Int(1)
	case "seq.++":
		t := Int(0)
		for _, a := range s.args {
			t = Add(t, SeqLen(a))
		}
		return t
	}
	return P.mk("seq.len", "", SInt, []*Term{s}, nil)
}
func SeqNth(s, i *Term) *Term {
	if s.op == "seq.unit" && i.isInt() && i.ival.Sign() == 0 {
		return s.args[0]
	}
	if s.op == "seq.++" && i.isInt() {
		k := i.ival.Int64()
		for _, a := range s.args {
			if a.op != "seq.unit" {
				break
			}
			if k == 0 {
				return a.args[0]
			}
			k--
		}
	}
	return P.mk("seq.nth", "", SInt, []*Term{s, i}, nil)
}
func SeqExtract(s, off, n *Term) *Term {
	if n.isInt() && n.ival.Sign() == 0 {
		return SeqEmpty()
	}
	return P.mk("seq.extract", "", SStr, []*Term{s, off, n}, nil)
}

// Quant builds a quantified formula over bound variables.
func Quant(kind string, vars []*Term, body *Term, trig ...[]*Term) *Term {
	if body.isLit() {
		return body
	}
	names := make([]string, len(vars))
	for i, v := range vars {
		names[i] = v.name
	}
	tr := ""
	for _, g := range trig {
		for _, t := range g {
			tr += fmt.Sprintf(",%d", t.id)
		}
		tr += ";"
	}
	t := P.mk(kind, strings.Join(names, " ")+"#"+tr, SBool, []*Term{body}, nil)
	t.vars = vars
	t.trig = trig
	// recompute bound-ness: any free bound vars other than ours
	free := map[int]bool{}
	freeBound(body, free, map[int]bool{})
	for _, v := range vars {
		delete(free, v.id)
	}
	t.bound = len(free) > 0
	return t
}
func Forall(vars []*Term, body *Term, trig ...[]*Term) *Term {
	return Quant("forall", vars, body, trig...)
}

func freeBound(t *Term, out, seen map[int]bool) {
	if !t.bound || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "bound" {
		out[t.id] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[int]bool{}
		freeBound(t.args[0], in, map[int]bool{})
		for _, v := range t.vars {
			delete(in, v.id)
		}
		for k := range in {
			out[k] = true
		}
		return
	}
	for _, a := range t.args {
		freeBound(a, out, seen)
	}
}

// Subst replaces terms (by identity).
func Subst(t *Term, m map[*Term]*Term) *Term { return substMemo(t, m, map[int]*Term{}) }

func substMemo(t *Term, m map[*Term]*Term, memo map[int]*Term) *Term {
	var go_ func(t *Term) *Term
	go_ = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = go_(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			if len(t.trig) > 0 && (t.op == "forall" || t.op == "exists") {
				nt := make([][]*Term, len(t.trig))
				for i, g := range t.trig {
					for _, x := range g {
						nt[i] = append(nt[i], go_(x))
					}
				}
				r = Quant(t.op, t.vars, na[0], nt...)
			} else {
				r = rebuild(t, na)
			}
		}
		memo[t.id] = r
		return r
	}
	return go_(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a[0], a[1])
	case "-":
		return Sub(a[0], a[1])
	case "*":
		return Mul(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "seq.++":
		return SeqConcat(a...)
	case "seq.len":
		return SeqLen(a[0])
	case "forall", "exists":
		return Quant(t.op, t.vars, a[0], t.trig...)
	}
	return P.mk(t.op, t.name, t.sort, a, nil)
}

// ---------- printing ----------

func (t *Term) String() string { return printInline(t, nil, 0) }

func printInline(t *Term, defs map[int]string, depth int) string {
	if defs != nil {
		if n, ok := defs[t.id]; ok {
			return n
		}
	}
	if depth > 200 && defs == nil {
		return "..."
	}
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")"
		}
		return t.ival.String()
	case "bv":
		w, _ := t.sort.isBV()
		return fmt.Sprintf("(_ bv%s %d)", t.ival.String(), w)
	case "const", "bound":
		return "|" + t.name + "|"
	case "seq.empty":
		return "(as seq.empty (Seq Int))"
	case "constarr":
		return "((as const " + string(t.sort) + ") " + printInline(t.args[0], defs, depth+1) + ")"
	case "app":
		var sb strings.Builder
		sb.WriteString("(|" + t.name + "|")
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(printInline(a, defs, depth+1))
		}
		sb.WriteByte(')')
		return sb.String()
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			sb.WriteString("(|" + v.name + "| " + string(v.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.trig) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(printInline(t.args[0], defs, depth+1))
		for _, g := range t.trig {
			sb.WriteString(" :pattern (")
			for i, x := range g {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(printInline(x, defs, depth+1))
			}
			sb.WriteString(")")
		}
		if len(t.trig) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteString("(" + t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(printInline(a, defs, depth+1))
	}
	sb.WriteByte(')')
	return sb.String()
}

// Script renders an SMT-LIB script asserting the given terms.
func Script(asserts []*Term, decls []string, dialect string) string {
	asserts = append(asserts[:len(asserts):len(asserts)], regexFacts(asserts)...)
	// collect symbols, functions, ref counts
	refs := map[int]int{}
	var order []*Term
	syms := map[string]*Term{}
	fns := map[string]bool{}
	sorts := map[string]bool{}
	noteSort := func(s Sort) {
		str := string(s)
		for _, f := range strings.FieldsFunc(str, func(r rune) bool { return r == ' ' || r == '(' || r == ')' }) {
			if strings.HasPrefix(f, "U_") {
				sorts[f] = true
			}
		}
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t.id]++
		if refs[t.id] > 1 {
			return
		}
		noteSort(t.sort)
		for _, v := range t.vars {
			noteSort(v.sort)
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, g := range t.trig {
			for _, x := range g {
				visit(x)
			}
		}
		if t.op == "const" {
			syms[t.name] = t
		}
		if t.op == "app" {
			fns[t.name] = true
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	// transitive closure over defined functions
	var closure func(n string)
	seenf := map[string]bool{}
	closure = func(n string) {
		if seenf[n] {
			return
		}
		seenf[n] = true
		d := P.funcs[n]
		for _, o := range P.forder {
			if o != n && strings.Contains(d, "|"+o+"|") {
				closure(o)
			}
		}
	}
	for n := range fns {
		closure(n)
	}
	for _, o := range P.forder {
		if seenf[o] {
			for _, f := range strings.FieldsFunc(P.funcs[o], func(r rune) bool { return r == ' ' || r == '(' || r == ')' }) {
				if strings.HasPrefix(f, "U_") {
					sorts[f] = true
				}
			}
		}
	}
	var sn []string
	for s := range sorts {
		sn = append(sn, s)
	}
	sort.Strings(sn)
	for _, s := range sn {
		sb.WriteString("(declare-sort " + s + " 0)\n")
	}
	for _, o := range P.forder {
		if seenf[o] {
			sb.WriteString(P.funcs[o] + "\n")
		}
	}
	var names []string
	for n := range syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sb.WriteString("(declare-const |" + n + "| " + string(syms[n].sort) + ")\n")
	}
	for _, d := range decls {
		sb.WriteString(d + "\n")
	}
	defs := map[int]string{}
	for _, t := range order {
		if len(t.args) == 0 || t.bound {
			continue
		}
		if refs[t.id] > 1 {
			n := fmt.Sprintf("d%d", t.id)
			sb.WriteString("(define-fun " + n + " () " + string(t.sort) + " " + printInline(t, defs, 0) + ")\n")
			defs[t.id] = n
		}
	}
	for _, a := range asserts {
		sb.WriteString("(assert " + printInline(a, defs, 0) + ")\n")
	}
	return sb.String()
}
