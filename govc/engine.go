package main

// Engine: the loaded program plus the contract files.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPrefix = "github.com/KSpaceer/yamly"

type Engine struct {
	curProp  string
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	tpkgs    map[string]*types.Package
	spec     *SpecFile
	fns      map[string]*ssa.Function // fnKey -> function (origin)
	insts    map[string][]*ssa.Function
	globals  map[*ssa.Global]*PtrV
	gobjs    map[types.Object]*ssa.Global
	concrete []types.Type
	repo     string
	gconst   map[*ssa.Global]*ssa.Const
	gregex   map[*ssa.Global]string    // regular expressions compiled once from a constant
	gslen    map[*ssa.Global]int64     // lengths of slices assigned once, from a literal
	ginit    map[*ssa.Global]ssa.Value // interface variables assigned once, by the package initialiser
	gstores  map[*ssa.Global]int
	implMemo map[string][]types.Type
	names    map[string]fnNames
	renames  map[string]map[string]string
}

func bigOf(n int64) *big.Int { return big.NewInt(n) }

// loadEngine type-checks and SSA-converts the repository's current source.
func loadEngine(repo string, modules []string) (*Engine, error) {
	e := &Engine{pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, spec: newSpec(), fns: map[string]*ssa.Function{}, insts: map[string][]*ssa.Function{},
		globals: map[*ssa.Global]*PtrV{}, gobjs: map[types.Object]*ssa.Global{}, repo: repo, gconst: map[*ssa.Global]*ssa.Const{}, ginit: map[*ssa.Global]ssa.Value{}, gregex: map[*ssa.Global]string{}, gslen: map[*ssa.Global]int64{}, gstores: map[*ssa.Global]int{}, implMemo: map[string][]types.Type{}}
	// a workspace file outside the repository gives one program over all modules
	dir, err := os.MkdirTemp("", "govc-work")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	var sb strings.Builder
	sb.WriteString("go 1.21.1\n\nuse (\n")
	var pats []string
	for _, m := range modules {
		sb.WriteString("\t" + filepath.Join(repo, m) + "\n")
		pats = append(pats, filepath.Join(repo, m)+"/...")
	}
	sb.WriteString(")\n")
	work := filepath.Join(dir, "go.work")
	if err := os.WriteFile(work, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	var env []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOWORK=") {
			continue
		}
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=", "GOWORK="+work, "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(pk, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	for i, p := range sp {
		if p == nil {
			continue
		}
		e.pkgs[p.Pkg.Path()] = p
		_ = i
	}
	for _, p := range prog.AllPackages() {
		e.tpkgs[p.Pkg.Path()] = p.Pkg
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 {
			continue
		}
		if fn.Synthetic != "" && fn.Origin() == nil && fn.Name() != "init" && fn.Parent() == nil {
			continue // wrappers, thunks
		}
		k := fnKey(fn)
		if o := fn.Origin(); o != nil && o != fn {
			e.insts[k] = append(e.insts[k], fn)
			continue
		}
		if old := e.fns[k]; old == nil {
			e.fns[k] = fn
		}
	}
	// generic origins and unreferenced methods
	for _, p := range e.pkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				if e.fns[fnKey(x)] == nil && len(x.Blocks) > 0 {
					e.fns[fnKey(x)] = x
				}
			case *ssa.Global:
				e.gobjs[x.Object()] = x
			case *ssa.Type:
				n, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					f := prog.FuncValue(n.Method(i))
					if f != nil && len(f.Blocks) > 0 && e.fns[fnKey(f)] == nil {
						e.fns[fnKey(f)] = f
					}
				}
				if n.TypeParams().Len() == 0 {
					e.concrete = append(e.concrete, n, types.NewPointer(n))
				}
			}
		}
	}
	for k := range e.insts {
		sort.Slice(e.insts[k], func(i, j int) bool { return e.insts[k][i].String() < e.insts[k][j].String() })
	}
	sort.Slice(e.concrete, func(i, j int) bool { return typeKey(e.concrete[i]) < typeKey(e.concrete[j]) })
	e.scanGlobals()
	return e, nil
}

func fnKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + fn.Name()[len(fn.Parent().Name()):]
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if ob := fn.Object(); ob != nil && ob.Pkg() != nil {
		pkg = ob.Pkg().Path()
	}
	name := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := types.Unalias(r.Type())
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			name = "(" + star + n.Obj().Name() + ")." + name
			if star == "" {
				name = n.Obj().Name() + "." + fn.Name()
			}
			if pkg == "" && n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Path()
			}
		}
	}
	return shortPkg(pkg) + "." + name
}

func (e *Engine) posStr(p token.Pos) string {
	ps := e.prog.Fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(e.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// scanGlobals finds package variables that are assigned exactly once, in the
// package initialiser, with a constant.
func (e *Engine) scanGlobals() {
	val := map[*ssa.Global]*ssa.Const{}
	visit := func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, isStore := ins.(*ssa.Store)
				if isStore {
					if g, ok := st.Addr.(*ssa.Global); ok {
						e.gstores[g]++
						if c, ok := st.Val.(*ssa.Const); ok && fn.Name() == "init" {
							val[g] = c
						}
						if n, ok := literalLen(st.Val); ok && fn.Name() == "init" {
							e.gslen[g] = n
						}
						if x, ok := regexConst(st.Val); ok && fn.Name() == "init" {
							e.gregex[g] = x
						}
						if fn.Name() == "init" && types.IsInterface(st.Val.Type()) && strings.HasPrefix(g.Pkg.Pkg.Path(), modPrefix) {
							e.ginit[g] = st.Val
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok {
						switch x := ins.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if x.Addr != ssa.Value(g) {
								e.gstores[g] += 100
							}
						default:
							e.gstores[g] += 100 // address escapes
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(e.prog) {
		if !seen[fn] {
			seen[fn] = true
			visit(fn)
		}
	}
	for _, f := range e.fns {
		if !seen[f] {
			seen[f] = true
			visit(f)
		}
	}
	for g := range e.gslen {
		if e.gstores[g] != 1 {
			delete(e.gslen, g)
		}
	}
	for g := range e.gregex {
		if e.gstores[g] != 1 {
			delete(e.gregex, g)
		}
	}
	for g := range e.ginit {
		if e.gstores[g] != 1 {
			delete(e.ginit, g)
		}
	}
	for g, c := range val {
		if e.gstores[g] == 1 {
			e.gconst[g] = c
		}
	}
}

func literalLen(v ssa.Value) (int64, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
		return 0, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return 0, false
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return at.Len(), true
}

func (e *Engine) globalPtr(g *ssa.Global) *PtrV {
	if p, ok := e.globals[g]; ok {
		q := *p
		q.base = Int(p.base.ival.Int64())
		return &q
	}
	n := int64(-(len(e.globals) + 1))
	t := g.Type().Underlying().(*types.Pointer).Elem()
	p := &PtrV{base: Int(n), root: t, typ: t}
	e.globals[g] = p
	return p
}

func (e *Engine) globalByObj(o types.Object) *ssa.Global { return e.gobjs[o] }

func (e *Engine) typesPkg(path string) *types.Package { return e.tpkgs[path] }

func (e *Engine) findPkg(from *types.Package, name string) *types.Package {
	if from != nil {
		if from.Path() == name { // a library package naming itself
			return from
		}
		for _, p := range from.Imports() {
			if p.Name() == name {
				return p
			}
		}
	}
	var best *types.Package
	suffix := "/" + strings.ReplaceAll(name, "_", "/")
	for path, p := range e.tpkgs {
		if strings.Contains(name, "_") && strings.HasSuffix(path, suffix) { // yayamls_decode is engines/yayamls/decode
			return p
		}
		if p.Name() == name && strings.HasPrefix(path, modPrefix) {
			if best == nil || near(from, p) > near(from, best) || near(from, p) == near(from, best) && path < best.Path() {
				best = p
			}
		}
	}
	return best
}

// near: length of the common path prefix (a name means the package of the same engine first)
func near(from, p *types.Package) int {
	if from == nil {
		return 0
	}
	a, b := strings.Split(from.Path(), "/"), strings.Split(p.Path(), "/")
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func (e *Engine) foreignPkg(p *types.Package) bool {
	return !strings.HasPrefix(p.Path(), modPrefix)
}

func (e *Engine) isForeign(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return e.foreignPkg(ob.Pkg())
		}
		return false
	}
	return e.foreignPkg(f.Pkg.Pkg)
}

func (e *Engine) pureFn(pkg *types.Package, name string) *ssa.Function {
	if pkg == nil {
		return nil
	}
	return e.fns[shortPkg(pkg.Path())+"."+name]
}

// foreignFn finds a function of an external package.
func (e *Engine) foreignFn(pk *types.Package, name string) *ssa.Function {
	if sp := e.prog.Package(pk); sp != nil && e.foreignPkg(pk) {
		return sp.Func(name)
	}
	return nil
}

// contractFor returns the contract of a function, if any.
func (e *Engine) contractFor(fn *ssa.Function) *Contract {
	k := fnKey(fn)
	if c, ok := e.spec.contracts[k]; ok {
		return c
	}
	for _, d := range e.spec.defaults {
		pre := shortPkg(d.pkg) + "." + d.recv + "."
		if strings.HasPrefix(k, pre) && fn.Parent() == nil {
			nm := k[len(pre):]
			if ok, _ := filepath.Match(d.pattern, nm); ok {
				rec, known := e.names[k]
				if !known && len(e.names) > 0 && !callsItself(fn) {
					return nil // a helper introduced later: verified where it is called
				}
				if d.param != "" {
					if !known {
						rec = namesOf(fn)
					}
					if !has(rec.Params, d.param) {
						continue
					}
				}
				c := *d.con
				c.key = k
				c.name = d.recv + "." + nm
				e.spec.contracts[k] = &c
				return &c
			}
		}
	}
	return nil
}

func callsItself(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

func (e *Engine) ifaceContract(it types.Type, method string) *Contract {
	t := types.Unalias(it)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		c := e.spec.contracts["iface "+shortPkg(n.Obj().Pkg().Path())+"."+n.Obj().Name()+"."+method]
		if c != nil && len(c.props) > 0 && !has(c.props, e.curProp) {
			return nil // the contract belongs to other properties
		}
		return c
	}
	return nil
}

func (e *Engine) implementers(it types.Type) []types.Type {
	k := typeKey(it)
	if r, ok := e.implMemo[k]; ok {
		return r
	}
	iface, ok := it.Underlying().(*types.Interface)
	var out []types.Type
	if ok {
		for _, t := range e.concrete {
			if _, isI := t.Underlying().(*types.Interface); isI {
				continue
			}
			if p, isP := t.(*types.Pointer); isP {
				if _, isI := p.Elem().Underlying().(*types.Interface); isI {
					continue
				}
			} else if types.Implements(types.NewPointer(t), iface) && types.Implements(t, iface) {
				// value receiver: both T and *T implement; keep T only when values are boxed
			}
			if types.Implements(t, iface) {
				out = append(out, t)
			}
		}
	}
	e.implMemo[k] = out
	return out
}

func (e *Engine) allTags() map[int]types.Type { return tagTypes }

// loopSpec: every loop invariant written for the function (or, for helper
// functions without a contract, for the function under verification) is a
// candidate for the loop; candidates that are not inductive are dropped.
func (e *Engine) loopSpec(vc *VC, fr *Frame, l *Loop) ([]Clause, *Expr) {
	id := fmt.Sprintf("%s/loop%d", fnKey(fr.fn), l.ord)
	var cons []*Contract
	if c := e.contractFor(fr.fn); c != nil {
		cons = append(cons, c)
	}
	if vc.con != nil && (len(cons) == 0 || cons[0] != vc.con) {
		cons = append(cons, vc.con)
	}
	var out []Clause
	var decr *Expr
	for ci, c := range cons {
		var ords []int
		for o := range c.loops {
			ords = append(ords, o)
		}
		sort.Ints(ords)
		add := func(cl Clause) {
			if strings.Contains(cl.src, "$phi") {
				// one candidate per integer variable the loop carries
				for _, n := range intPhis(l) {
					c1 := cl
					c1.e = substIdent(cl.e, "$phi", n)
					c1.label = cl.label + "@" + n
					if !vc.dropInv[id+" "+c1.label] {
						out = append(out, c1)
					}
				}
				return
			}
			if !vc.dropInv[id+" "+cl.label] {
				out = append(out, cl)
			}
		}
		for _, o := range ords {
			if ci == 0 && o != l.ord && len(fr.loops) > 1 && !vc.opt.allinv {
				// candidates of other loops are tried too, but under another label
				for _, cl := range c.loops[o] {
					cl.label = "x" + cl.label
					add(cl)
				}
				continue
			}
			for _, cl := range c.loops[o] {
				add(cl)
			}
		}
		for _, cl := range c.pool {
			add(cl)
		}
		if d, ok := c.decr[l.ord]; ok && ci == 0 {
			decr = d
		}
	}
	return out, decr
}

// defineRec emits a recursive spec function as an SMT define-fun-rec.
func (e *Engine) defineRec(vc *VC, pd *PredDef, name string, s Sort) {
	if _, ok := P.funcs[sanitize(name)]; ok {
		return
	}
	DefFun(sanitize(name), "") // break the cycle
	se := &SpecEnv{vc: vc, st: vc.entry, old: vc.entry, vars: map[string]SV{}, oldV: map[string]SV{}, guard: True(), pkg: e.typesPkg(pd.pkg), targs: map[string]types.Type{}}
	var ps []string
	for _, q := range pd.params {
		t := se.resolveType(q.typ)
		ls := TE.flatten(t)
		var ts []*Term
		for _, l := range ls {
			b := Bound("p_"+q.name, l.sort)
			ps = append(ps, fmt.Sprintf("(%s %s)", b.String(), l.sort))
			ts = append(ts, b)
		}
		se.vars[q.name] = SV{fromLeaves(t, ts), t}
		se.oldV[q.name] = se.vars[q.name]
	}
	body := toLeaves(se.eval(pd.body).v)[0]
	for i, n := range P.forder { // after the functions its body mentions
		if n == sanitize(name) {
			P.forder = append(append([]string{}, P.forder[:i]...), P.forder[i+1:]...)
			break
		}
	}
	P.forder = append(P.forder, sanitize(name))
	P.funcs[sanitize(name)] = fmt.Sprintf("(define-fun-rec |%s| (%s) %s %s)", sanitize(name), strings.Join(ps, " "), s, body.String())
}

// intPhis: the named integer variables carried around a loop.
func intPhis(l *Loop) []string {
	var out []string
	for _, ins := range l.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok || p.Comment == "" || strings.HasPrefix(p.Comment, "range") || strings.ContainsAny(p.Comment, "&|. ") {
			continue
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			out = append(out, p.Comment)
		}
	}
	return out
}

func substIdent(x *Expr, from, to string) *Expr {
	if x == nil {
		return nil
	}
	y := *x
	if x.op == "ident" && x.name == from {
		y.name = to
	}
	y.args = nil
	for _, a := range x.args {
		y.args = append(y.args, substIdent(a, from, to))
	}
	y.trig = nil
	for _, a := range x.trig {
		y.trig = append(y.trig, substIdent(a, from, to))
	}
	return &y
}
