package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Regular expressions compiled from constants are interpreted exactly: matching is a predicate re:<id>(s), and every
// script relates the predicates applied to one text by the truth vectors their languages allow (product automaton).

type reLang struct {
	id   string
	expr string
	prog *syntax.Prog
	ok   bool
}

var (
	reMu    sync.Mutex
	reByExp = map[string]*reLang{}
	reByID  = map[string]*reLang{}
)

const rePrefix = "re_"

func reOf(expr string) *reLang {
	reMu.Lock()
	defer reMu.Unlock()
	if l := reByExp[expr]; l != nil {
		return l
	}
	h := sha256.Sum256([]byte(expr))
	l := &reLang{id: fmt.Sprintf("%s%x", rePrefix, h[:6]), expr: expr}
	if re, err := syntax.Parse(expr, syntax.Perl); err == nil {
		if p, err := syntax.Compile(re.Simplify()); err == nil {
			l.prog, l.ok = p, true
			for _, in := range p.Inst {
				if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
					l.ok = false
				}
			}
		}
	}
	reByExp[expr] = l
	reByID[l.id] = l
	return l
}

// matchTerm is the term saying that s matches the language.
func (l *reLang) matchTerm(s *Term) *Term {
	if lit, ok := strLit(s); ok && l.ok {
		return Bool(l.match(lit))
	}
	if s.op == "ite" {
		return Ite(s.args[0], l.matchTerm(s.args[1]), l.matchTerm(s.args[2]))
	}
	return App(l.id, SBool, s)
}

type reState struct {
	pcs   string // sorted program counters (before following empty edges), as a string key
	set   []uint32
	begin bool
	done  bool
}

func (l *reLang) start() reState { return l.norm([]uint32{uint32(l.prog.Start)}, true, false) }

func (l *reLang) norm(set []uint32, begin, done bool) reState {
	sort.Slice(set, func(i, j int) bool { return set[i] < set[j] })
	out := set[:0:0]
	for i, p := range set {
		if i == 0 || p != set[i-1] {
			out = append(out, p)
		}
	}
	if done {
		out = nil
	}
	return reState{pcs: fmt.Sprint(out, begin, done), set: out, begin: begin, done: done}
}

// closure follows empty edges; it reports the consuming instructions reached and whether a match is.
func (l *reLang) closure(s reState, end bool) (ins []uint32, match bool) {
	seen := map[uint32]bool{}
	var walk func(pc uint32)
	walk = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &l.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(in.Out)
			walk(in.Arg)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(in.Arg)
			if op&syntax.EmptyBeginText != 0 && !s.begin || op&syntax.EmptyEndText != 0 && !end {
				return
			}
			walk(in.Out)
		case syntax.InstCapture, syntax.InstNop:
			walk(in.Out)
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			ins = append(ins, pc)
		}
	}
	for _, pc := range s.set {
		walk(pc)
	}
	return ins, match
}

func (l *reLang) accepts(s reState) bool {
	if s.done {
		return true
	}
	_, m := l.closure(s, true)
	return m
}

func (l *reLang) step(s reState, r rune) reState {
	if s.done {
		return s
	}
	ins, m := l.closure(s, false)
	if m {
		return l.norm(nil, false, true)
	}
	next := []uint32{uint32(l.prog.Start)} // a match may begin anywhere
	for _, pc := range ins {
		if l.prog.Inst[pc].MatchRune(r) {
			next = append(next, l.prog.Inst[pc].Out)
		}
	}
	return l.norm(next, false, false)
}

func (l *reLang) match(s string) bool {
	st := l.start()
	for _, r := range s {
		st = l.step(st, r)
	}
	return l.accepts(st)
}

// bounds adds the first runes of the classes the language tells apart.
func (l *reLang) bounds(m map[rune]bool) {
	for _, in := range l.prog.Inst {
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			rs := in.Rune
			if len(rs) == 1 {
				for f := unicode.SimpleFold(rs[0]); ; f = unicode.SimpleFold(f) {
					m[f], m[f+1] = true, true
					if f == rs[0] {
						break
					}
				}
				continue
			}
			for i := 0; i+1 < len(rs); i += 2 {
				m[rs[i]], m[rs[i+1]+1] = true, true
			}
		case syntax.InstRuneAnyNotNL:
			m['\n'], m['\n'+1] = true, true
		}
	}
}

// reVectors lists the combinations of truth values that some text gives to the languages (with, last, whether the
// text is empty, and whether its first character is each of firsts).
func reVectors(ls []*reLang, firsts []rune) [][]bool {
	ck := fmt.Sprint(firsts)
	for _, l := range ls {
		ck += " " + l.id
	}
	if v, ok := reCache[ck]; ok {
		return v
	}
	v := reVectors1(ls, firsts)
	reCache[ck] = v
	return v
}

var reCache = map[string][][]bool{}

func reVectors1(ls []*reLang, firsts []rune) [][]bool {
	bm := map[rune]bool{0: true}
	for _, l := range ls {
		l.bounds(bm)
	}
	for _, c := range firsts {
		bm[c], bm[c+1] = true, true
	}
	var reps []rune
	for r := range bm {
		if r >= 0 && r <= unicode.MaxRune {
			reps = append(reps, r)
		}
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i] < reps[j] })
	type node struct {
		st    []reState
		first rune // -1: empty, -2: other
	}
	key := func(n node) string {
		k := fmt.Sprint(n.first)
		for _, s := range n.st {
			k += "/" + s.pcs
		}
		return k
	}
	isFirst := map[rune]bool{}
	for _, c := range firsts {
		isFirst[c] = true
	}
	n0 := node{first: -1}
	for _, l := range ls {
		n0.st = append(n0.st, l.start())
	}
	seen := map[string]bool{key(n0): true}
	queue := []node{n0}
	vecs := map[string][]bool{}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if len(seen) > 60000 {
			return nil
		}
		var v []bool
		for i, l := range ls {
			v = append(v, l.accepts(n.st[i]))
		}
		v = append(v, n.first == -1)
		for _, c := range firsts {
			v = append(v, n.first == c)
		}
		vecs[fmt.Sprint(v)] = v
		for _, r := range reps {
			m := node{first: n.first}
			if m.first == -1 {
				m.first = -2
				if isFirst[r] {
					m.first = r
				}
			}
			for i, l := range ls {
				m.st = append(m.st, l.step(n.st[i], r))
			}
			if k := key(m); !seen[k] {
				seen[k] = true
				queue = append(queue, m)
			}
		}
	}
	var out [][]bool
	for _, k := range sortedKeys(vecs) {
		out = append(out, vecs[k])
	}
	return out
}

// regexFacts relates the regular predicates of a script.
func regexFacts(asserts []*Term) []*Term {
	seen := map[int]bool{}
	byArg := map[*Term]map[string]*reLang{}
	firsts := map[*Term]map[rune]bool{}
	lits := map[string]*Term{}
	eqs := map[*Term]map[string]*Term{}
	quant := map[string]*reLang{}
	langs := map[string]*reLang{}
	var argOrder []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.sort == SStr {
			if s, ok := strLit(t); ok {
				lits[s] = t
				return
			}
		}
		if t.op == "app" && reByID[t.name] != nil && reByID[t.name].ok {
			langs[t.name] = reByID[t.name]
			if t.bound {
				quant[t.name] = reByID[t.name]
			} else {
				a := t.args[0]
				if byArg[a] == nil {
					byArg[a] = map[string]*reLang{}
					argOrder = append(argOrder, a)
				}
				byArg[a][t.name] = reByID[t.name]
			}
		}
		if t.op == "=" && len(t.args) == 2 {
			for i, x := range t.args {
				y := t.args[1-i]
				if x.sort == SStr && !x.bound {
					if lit, ok := strLit(y); ok {
						if eqs[x] == nil {
							eqs[x] = map[string]*Term{}
						}
						eqs[x][lit] = t
					}
				}
				if x.op == "app" && x.name == "byteat" && x.args[1].isInt() && x.args[1].ival.Sign() == 0 && y.isInt() && y.ival.Int64() < 128 && y.ival.Int64() >= 0 {
					if firsts[x.args[0]] == nil {
						firsts[x.args[0]] = map[rune]bool{}
					}
					firsts[x.args[0]][rune(y.ival.Int64())] = true
				}
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, a := range asserts {
		visit(a)
	}
	if len(langs) == 0 {
		return nil
	}
	var out []*Term
	for _, a := range argOrder {
		var ls []*reLang
		var ts []*Term
		for _, k := range sortedKeys(byArg[a]) {
			ls = append(ls, byArg[a][k])
			ts = append(ts, App(k, SBool, a))
		}
		for _, k := range sortedKeys(eqs[a]) {
			ls = append(ls, reOf("^"+regexp.QuoteMeta(k)+"$"))
			ts = append(ts, eqs[a][k])
		}
		ts = append(ts, Eq(SeqLen(a), Int(0)))
		var fs []rune
		for c := range firsts[a] {
			fs = append(fs, c)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i] < fs[j] })
		for _, c := range fs {
			ts = append(ts, And(Not(Eq(SeqLen(a), Int(0))), Eq(App("byteat", SInt, a, Int(0)), Int(int64(c)))))
		}
		var alts []*Term
		for _, v := range reVectors(ls, fs) {
			var cs []*Term
			for i, b := range v {
				if b {
					cs = append(cs, ts[i])
				} else {
					cs = append(cs, Not(ts[i]))
				}
			}
			alts = append(alts, And(cs...))
		}
		if alts != nil {
			out = append(out, Or(alts...), byteLenFacts(a))
		}
	}
	if len(quant) > 0 { // applied to bound texts: the same relation, for all texts
		x := Bound("s", SStr)
		var ls []*reLang
		var ts []*Term
		for _, k := range sortedKeys(langs) {
			ls = append(ls, langs[k])
			ts = append(ts, App(k, SBool, x))
		}
		var alts []*Term
		for _, v := range reVectors(ls, nil) {
			var cs []*Term
			for i := range ls {
				if v[i] {
					cs = append(cs, ts[i])
				} else {
					cs = append(cs, Not(ts[i]))
				}
			}
			alts = append(alts, And(cs...))
		}
		if alts != nil {
			q := Forall([]*Term{x}, Or(alts...))
			if len(q.vars) > 0 {
				for _, t := range ts {
					q.trig = append(q.trig, []*Term{t})
				}
			}
			out = append(out, q)
		}
	}
	for _, s := range sortedKeys(lits) {
		for _, k := range sortedKeys(langs) {
			out = append(out, Eq(App(k, SBool, lits[s]), Bool(langs[k].match(s))))
		}
	}
	return out
}

// regexConst gives the expression of a MustCompile call on a constant.
func regexConst(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return "", false
	}
	f := c.Call.StaticCallee()
	if f == nil || f.String() != "regexp.MustCompile" {
		return "", false
	}
	k, ok := c.Call.Args[0].(*ssa.Const)
	if !ok || k.Value == nil {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

const regexRef = "regex="

func regexPtr(p *PtrV, expr string) *PtrV {
	q := *p
	q.base = Sym(regexRef+reOf(expr).id, SInt)
	return &q
}

func init() {
	externals["regexp.MustCompile"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
		p := fr.vc.freshValue(st, g, "regex", fn.Signature.Results().At(0).Type()).(*PtrV)
		fr.vc.assume(g, Not(Eq(p.base, Int(0))))
		if lit, ok := strLit(a[0].(*Term)); ok {
			return regexPtr(p, lit)
		}
		return p
	}
	externals["(*regexp.Regexp).MatchString"] = func(fr *Frame, fn *ssa.Function, a []Value, g *Term, st *State) Value {
		if p, ok := a[0].(*PtrV); ok && p.base.op == "const" && strings.HasPrefix(p.base.name, regexRef) {
			if l := reByID[p.base.name[len(regexRef):]]; l != nil {
				return l.matchTerm(a[1].(*Term))
			}
		}
		return fr.foreign(fn, a, g, st)
	}
}
