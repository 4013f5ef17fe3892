package main

// Contract language: parser.

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"
)

type Expr struct {
	op   string // ident, int, str, rune, call, field, index, slice, bin, un, forall, exists, ite, let, type
	name string
	args []*Expr
	vars []QVar
	trig []*Expr
	n    int64
	src  string
}
type QVar struct {
	name string
	typ  string
}

type Clause struct {
	label string
	e     *Expr
	src   string
	props []string
}

type Contract struct {
	key      string
	pkg      string
	name     string
	file     string
	line     int
	props    []string
	requires []Clause
	ensures  []Clause
	modifies []*Expr
	modAll   bool
	loops    map[int][]Clause
	pool     []Clause // invariants usable for any loop of the function
	decr     map[int]*Expr
	trusted  bool
	inline   bool
	iface    bool
	pure     bool
	opts     map[string]bool
	reason   string
	lets     []Let
	decrFn   *Expr
	opaque   map[string]bool
	unfolds  map[int][]*Expr // definitions instantiated at loop N (0: at entry)
	luses    map[int][]*Expr // lemmas instantiated at loop N (0: at entry)
	applies  *Applies        // the function's result is that of its function-valued parameter on an argument satisfying a condition
	defines  []Clause        // definitional: assumed at call sites, names the result of a deterministic function
}

// Applies: fn is called exactly once, on an argument (named v) with which cond
// holds, and its result is the function's result.
type Applies struct {
	fn, v string
	cond  *Expr
}

type Let struct {
	name string
	e    *Expr
}

type PredDef struct {
	name   string
	params []QVar
	ret    string
	body   *Expr
	pkg    string
	rec    bool
}
type GhostDef struct {
	name   string
	params []QVar
	ret    string
	state  bool // state-dependent ghost variable
	pkg    string
}
type Lemma struct {
	name   string
	vars   []QVar
	req    []*Expr
	ens    []Clause
	pkg    string
	induct string
	props  []string
	uses   []*Expr
	unf    []*Expr
	opaque map[string]bool
	bv     bool
}

type SpecFile struct {
	contracts map[string]*Contract
	preds     map[string]*PredDef
	ghosts    map[string]*GhostDef
	lemmas    []*Lemma
	defaults  []*DefaultContract
	assumes   []string
}

type DefaultContract struct {
	param   string
	pkg     string
	recv    string
	pattern string
	con     *Contract
}

func newSpec() *SpecFile {
	return &SpecFile{contracts: map[string]*Contract{}, preds: map[string]*PredDef{}, ghosts: map[string]*GhostDef{}}
}

func (sf *SpecFile) parseFile(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	lines := strings.Split(string(data), "\n")
	// join continuation lines: a line starting with "|" or deeper-indented with leading "." is appended
	type ln struct {
		s string
		n int
	}
	var ls []ln
	for i, l := range lines {
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") && !strings.Contains(l[:k], "'") {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if strings.HasPrefix(t, "| ") && len(ls) > 0 {
			ls[len(ls)-1].s += " " + t[2:]
			continue
		}
		ls = append(ls, ln{t, i + 1})
	}
	pkg := ""
	var cur *Contract
	var curL *Lemma
	fail := func(n int, e error) error { return fmt.Errorf("%s:%d: %v", path, n, e) }
	for _, l := range ls {
		word, rest, _ := strings.Cut(l.s, " ")
		rest = strings.TrimSpace(rest)
		switch word {
		case "package":
			pkg = rest
			cur, curL = nil, nil
		case "func", "iface", "trusted":
			c := &Contract{pkg: pkg, name: rest, file: path, line: l.n, loops: map[int][]Clause{}, decr: map[int]*Expr{}, opts: map[string]bool{}}
			c.key = shortPkg(pkg) + "." + rest
			if word == "iface" {
				c.iface = true
				c.key = "iface " + c.key
			}
			if word == "trusted" {
				c.trusted = true
			}
			if _, dup := sf.contracts[c.key]; dup {
				return fail(l.n, fmt.Errorf("duplicate contract %s", c.key))
			}
			sf.contracts[c.key] = c
			cur = c
			curL = nil
		case "default": // default <recv> <pattern>
			f := strings.Fields(rest)
			c := &Contract{pkg: pkg, name: rest, file: path, line: l.n, loops: map[int][]Clause{}, decr: map[int]*Expr{}, opts: map[string]bool{}}
			d := &DefaultContract{pkg: pkg, recv: f[0], pattern: f[1], con: c}
			if len(f) > 2 {
				d.param = f[2] // only functions with this parameter
			}
			sf.defaults = append(sf.defaults, d)
			cur = c
			curL = nil
		case "template": // a contract to extend, applied to nothing by itself
			c := &Contract{pkg: pkg, name: rest, file: path, line: l.n, loops: map[int][]Clause{}, decr: map[int]*Expr{}, opts: map[string]bool{}}
			sf.defaults = append(sf.defaults, &DefaultContract{pkg: pkg, recv: "template", pattern: rest, con: c})
			cur = c
			curL = nil
		case "extends": // start from the clauses of a default or template
			var from *Contract
			for _, d := range sf.defaults {
				if d.con.name == rest {
					from = d.con
				}
			}
			if from == nil {
				return fail(l.n, fmt.Errorf("unknown default %s", rest))
			}
			c := *from
			c.key, c.pkg, c.name, c.file, c.line, c.trusted, c.iface = cur.key, cur.pkg, cur.name, cur.file, cur.line, cur.trusted, cur.iface
			c.requires = append([]Clause{}, from.requires...)
			c.ensures = append([]Clause{}, from.ensures...)
			c.modifies = append([]*Expr{}, from.modifies...)
			c.pool = append([]Clause{}, from.pool...)
			c.lets = append([]Let{}, from.lets...)
			c.opts = map[string]bool{}
			for k, v := range from.opts {
				c.opts[k] = v
			}
			c.loops = map[int][]Clause{}
			for k, v := range from.loops {
				c.loops[k] = append([]Clause{}, v...)
			}
			cp := func(m map[int][]*Expr) map[int][]*Expr {
				n := map[int][]*Expr{}
				for k, v := range m {
					n[k] = append([]*Expr{}, v...)
				}
				return n
			}
			c.unfolds, c.luses = cp(from.unfolds), cp(from.luses)
			*cur = c
		case "pred", "ghost", "recfun":
			if err := sf.parseDef(word, rest, pkg); err != nil {
				return fail(l.n, err)
			}
			cur, curL = nil, nil
		case "lemma":
			name, vs, _ := strings.Cut(rest, "(")
			lm := &Lemma{name: strings.TrimSpace(name), pkg: pkg}
			vs = strings.TrimSuffix(strings.TrimSpace(vs), ")")
			lm.vars = parseQVars(vs)
			sf.lemmas = append(sf.lemmas, lm)
			curL = lm
			cur = nil
		case "induction":
			curL.induct = rest
		case "requires", "ensures", "invariant":
			if cur == nil && curL == nil {
				return fail(l.n, fmt.Errorf("%s outside func", word))
			}
			loopN := 0
			label := ""
			if word == "invariant" {
				n, r, _ := strings.Cut(rest, " ")
				if n == "*" {
					loopN = -1
				} else if v, err := strconv.Atoi(n); err == nil {
					loopN = v
				} else {
					return fail(l.n, fmt.Errorf("invariant needs loop number"))
				}
				rest = strings.TrimSpace(r)
			}
			if strings.HasPrefix(rest, "[") {
				if k := strings.Index(rest, "]"); k > 0 {
					label = rest[1:k]
					rest = strings.TrimSpace(rest[k+1:])
				}
			}
			e, err := parseExpr(rest)
			if err != nil {
				return fail(l.n, err)
			}
			var cprops []string
			if a, b, ok := strings.Cut(label, "@"); ok {
				label, cprops = a, strings.Split(b, ",")
			}
			cl := Clause{label: label, e: e, src: rest, props: cprops}
			if curL != nil {
				if word == "requires" {
					curL.req = append(curL.req, e)
				} else {
					curL.ens = append(curL.ens, cl)
				}
				break
			}
			switch word {
			case "requires":
				if cl.label == "" {
					cl.label = fmt.Sprintf("pre%d", len(cur.requires)+1)
				}
				cur.requires = append(cur.requires, cl)
			case "ensures":
				if cl.label == "" {
					cl.label = fmt.Sprintf("post%d", len(cur.ensures)+1)
				}
				cur.ensures = append(cur.ensures, cl)
			case "invariant":
				if loopN == -1 {
					cl.label = fmt.Sprintf("inv*.%d", len(cur.pool)+1)
					cur.pool = append(cur.pool, cl)
				} else {
					if cl.label == "" {
						cl.label = fmt.Sprintf("inv%d.%d", loopN, len(cur.loops[loopN])+1)
					}
					cur.loops[loopN] = append(cur.loops[loopN], cl)
				}
			}
		case "applies":
			a, b, _ := strings.Cut(rest, "(")
			v, c, _ := strings.Cut(b, ")")
			e, err := parseExpr(c)
			if err != nil {
				return fail(l.n, err)
			}
			cur.applies = &Applies{strings.TrimSpace(a), strings.TrimSpace(v), e}
		case "defines":
			e, err := parseExpr(rest)
			if err != nil {
				return fail(l.n, err)
			}
			cur.defines = append(cur.defines, Clause{label: "defines", e: e, src: rest})
		case "decreases":
			if n, r, ok := strings.Cut(rest, " "); ok {
				if v, err := strconv.Atoi(n); err == nil {
					e, err := parseExpr(r)
					if err != nil {
						return fail(l.n, err)
					}
					cur.decr[v] = e
					break
				}
			}
			e, err := parseExpr(rest)
			if err != nil {
				return fail(l.n, err)
			}
			cur.decrFn = e
		case "use":
			e, err := parseExpr(rest)
			if err != nil {
				return fail(l.n, err)
			}
			if curL != nil {
				curL.uses = append(curL.uses, e)
			}
		case "unfold", "lemmaat":
			n := 0
			if curL == nil {
				a, b, _ := strings.Cut(rest, " ")
				v, err := strconv.Atoi(a)
				if err != nil {
					return fail(l.n, err)
				}
				n, rest = v, b
			}
			e, err := parseExpr(rest)
			if err != nil {
				return fail(l.n, err)
			}
			switch {
			case curL != nil:
				curL.unf = append(curL.unf, e)
			case word == "unfold":
				if cur.unfolds == nil {
					cur.unfolds = map[int][]*Expr{}
				}
				cur.unfolds[n] = append(cur.unfolds[n], e)
			default:
				if cur.luses == nil {
					cur.luses = map[int][]*Expr{}
				}
				cur.luses[n] = append(cur.luses[n], e)
			}
		case "opaque":
			m := map[string]bool{}
			for _, f := range strings.Fields(rest) {
				m[f] = true
			}
			if curL != nil {
				curL.opaque = m
			} else {
				cur.opaque = m
			}
		case "let":
			name, ex, _ := strings.Cut(rest, "=")
			e, err := parseExpr(ex)
			if err != nil {
				return fail(l.n, err)
			}
			cur.lets = append(cur.lets, Let{strings.TrimSpace(name), e})
		case "modifies":
			if rest == "*" {
				cur.modAll = true
				break
			}
			p := &eparser{src: rest}
			p.lex()
			for {
				e, err := p.parse(0)
				if err != nil {
					return fail(l.n, err)
				}
				cur.modifies = append(cur.modifies, e)
				if p.tok != "," {
					break
				}
				p.next()
			}
		case "property":
			ps := strings.FieldsFunc(rest, func(r rune) bool { return r == ',' || r == ' ' })
			if curL != nil {
				curL.props = append(curL.props, ps...)
			} else {
				cur.props = append(cur.props, ps...)
			}
		case "option":
			for _, o := range strings.Fields(rest) {
				if curL != nil {
					curL.bv = curL.bv || o == "bv"
					continue
				}
				cur.opts[o] = true
			}
		case "inline":
			cur.inline = true
		case "pure":
			cur.pure = true
		case "reason":
			cur.reason = rest
		default:
			return fail(l.n, fmt.Errorf("unknown directive %q", word))
		}
	}
	return nil
}

func parseQVars(vs string) []QVar {
	var out []QVar
	for _, v := range strings.Split(vs, ",") {
		v = strings.TrimSpace(v)
		if v == "" {
			continue
		}
		n, t, _ := strings.Cut(v, " ")
		out = append(out, QVar{n, strings.TrimSpace(t)})
	}
	return out
}

func (sf *SpecFile) parseDef(word, rest, pkg string) error {
	state := false
	if word == "ghost" && strings.HasPrefix(rest, "var ") {
		state = true
		rest = rest[4:]
	}
	head, body, hasBody := rest, "", false
	{
		head, body, hasBody = strings.Cut(rest, " = ")
		if !hasBody && word != "ghost" {
			return fmt.Errorf("pred needs a body")
		}
	}
	k := strings.Index(head, "(")
	e := strings.LastIndex(head, ")")
	if k < 0 || e < 0 {
		return fmt.Errorf("bad definition %q", head)
	}
	name := strings.TrimSpace(head[:k])
	params := parseQVars(head[k+1 : e])
	ret := strings.TrimSpace(head[e+1:])
	if word == "ghost" {
		sym := name
		if hasBody { // another name for the same function at a given type
			sym = strings.TrimSpace(body)
		}
		sf.ghosts[name] = &GhostDef{sym, params, ret, state, pkg}
		return nil
	}
	ex, err := parseExpr(body)
	if err != nil {
		return err
	}
	if _, dup := sf.preds[name]; dup {
		return fmt.Errorf("duplicate pred %s", name)
	}
	sf.preds[name] = &PredDef{name, params, ret, ex, pkg, word == "recfun"}
	return nil
}

// ---------- expression parser ----------

type eparser struct {
	src  string
	pos  int
	tok  string
	kind string // ident,int,str,rune,op,eof
	err  error
}

func parseExpr(s string) (*Expr, error) {
	p := &eparser{src: s}
	p.lex()
	e, err := p.parse(0)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	if p.kind != "eof" {
		return nil, fmt.Errorf("unexpected %q in %q", p.tok, s)
	}
	e.src = s
	return e, nil
}

func (p *eparser) next() { p.lex() }

func (p *eparser) lex() {
	s := p.src
	for p.pos < len(s) && (s[p.pos] == ' ' || s[p.pos] == '\t') {
		p.pos++
	}
	if p.pos >= len(s) {
		p.tok, p.kind = "", "eof"
		return
	}
	c := s[p.pos]
	st := p.pos
	switch {
	case c == '"':
		q := p.pos + 1
		for q < len(s) && s[q] != '"' {
			if s[q] == '\\' {
				q++
			}
			q++
		}
		p.pos = q + 1
		p.tok, p.kind = s[st:p.pos], "str"
	case c == '\'':
		q := p.pos + 1
		for q < len(s) && s[q] != '\'' {
			if s[q] == '\\' {
				q++
			}
			q++
		}
		p.pos = q + 1
		p.tok, p.kind = s[st:p.pos], "rune"
	case unicode.IsDigit(rune(c)):
		for p.pos < len(s) && (isIdent(s[p.pos])) {
			p.pos++
		}
		p.tok, p.kind = s[st:p.pos], "int"
	case isIdent(c) || c == '$' || c == '#':
		p.pos++
		for p.pos < len(s) && (isIdent(s[p.pos])) {
			p.pos++
		}
		p.tok, p.kind = s[st:p.pos], "ident"
	default:
		for _, o := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++"} {
			if strings.HasPrefix(s[p.pos:], o) {
				p.pos += len(o)
				p.tok, p.kind = o, "op"
				return
			}
		}
		p.pos++
		p.tok, p.kind = s[st:p.pos], "op"
	}
}

func isIdent(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

var prec = map[string]int{"<==>": 1, "==>": 2, "?": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "++": 7, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}

func (p *eparser) parse(min int) (*Expr, error) {
	l, err := p.unary()
	if err != nil {
		return nil, err
	}
	for p.kind == "op" {
		op := p.tok
		pr, ok := prec[op]
		if !ok || pr < min {
			break
		}
		p.next()
		if op == "?" {
			a, err := p.parse(3)
			if err != nil {
				return nil, err
			}
			if p.tok != ":" {
				return nil, fmt.Errorf("expected : got %q", p.tok)
			}
			p.next()
			b, err := p.parse(3)
			if err != nil {
				return nil, err
			}
			l = &Expr{op: "ite", args: []*Expr{l, a, b}}
			continue
		}
		nm := pr + 1
		if op == "==>" {
			nm = pr // right assoc
		}
		r, err := p.parse(nm)
		if err != nil {
			return nil, err
		}
		l = &Expr{op: "bin", name: op, args: []*Expr{l, r}}
	}
	return l, nil
}

func (p *eparser) unary() (*Expr, error) {
	if p.kind == "op" && (p.tok == "!" || p.tok == "-" || p.tok == "*" || p.tok == "&") {
		op := p.tok
		p.next()
		e, err := p.unary()
		if err != nil {
			return nil, err
		}
		return &Expr{op: "un", name: op, args: []*Expr{e}}, nil
	}
	if p.kind == "ident" && (p.tok == "forall" || p.tok == "exists") {
		q := p.tok
		p.next()
		e := &Expr{op: q}
		for {
			if p.kind != "ident" {
				return nil, fmt.Errorf("quantifier variable expected")
			}
			n := p.tok
			p.next()
			typ := ""
			if p.tok == "[" || p.kind == "ident" || p.tok == "*" {
				for p.tok != "," && p.tok != "::" && p.kind != "eof" {
					typ += p.tok
					p.next()
				}
			}
			e.vars = append(e.vars, QVar{n, typ})
			if p.tok == "," {
				p.next()
				continue
			}
			break
		}
		if p.tok != "::" {
			return nil, fmt.Errorf("expected :: in quantifier, got %q", p.tok)
		}
		p.next()
		if p.tok == "{" {
			p.next()
			for p.tok != "}" {
				t, err := p.parse(0)
				if err != nil {
					return nil, err
				}
				e.trig = append(e.trig, t)
				if p.tok == "," {
					p.next()
				}
			}
			p.next()
		}
		b, err := p.parse(0)
		if err != nil {
			return nil, err
		}
		e.args = []*Expr{b}
		return e, nil
	}
	return p.postfix()
}

func (p *eparser) postfix() (*Expr, error) {
	e, err := p.primary()
	if err != nil {
		return nil, err
	}
	for p.kind == "op" {
		switch p.tok {
		case ".":
			p.next()
			if p.tok == "(" { // type assertion x.(T)
				p.next()
				t := ""
				for p.tok != ")" && p.kind != "eof" {
					t += p.tok
					p.next()
				}
				p.next()
				e = &Expr{op: "assert", name: t, args: []*Expr{e}}
				continue
			}
			e = &Expr{op: "field", name: p.tok, args: []*Expr{e}}
			p.next()
		case "[":
			p.next()
			var lo, hi *Expr
			if p.tok != ":" {
				lo, err = p.parse(0)
				if err != nil {
					return nil, err
				}
			}
			if p.tok == ":" {
				p.next()
				if p.tok != "]" {
					hi, err = p.parse(0)
					if err != nil {
						return nil, err
					}
				}
				if p.tok != "]" {
					return nil, fmt.Errorf("expected ]")
				}
				p.next()
				e = &Expr{op: "slice", args: []*Expr{e, lo, hi}}
				continue
			}
			if p.tok != "]" {
				return nil, fmt.Errorf("expected ]")
			}
			p.next()
			e = &Expr{op: "index", args: []*Expr{e, lo}}
		case "(":
			p.next()
			c := &Expr{op: "call", args: []*Expr{e}}
			if e.op == "ident" && (e.name == "is" || e.name == "as" || e.name == "tag") {
				// is(x, T)
				x, err := p.parse(0)
				if err != nil {
					return nil, err
				}
				if p.tok == "," {
					p.next()
					t := ""
					for p.tok != ")" && p.kind != "eof" {
						t += p.tok
						p.next()
					}
					p.next()
					e = &Expr{op: e.name, name: t, args: []*Expr{x}}
					continue
				}
				c.args = append(c.args, x)
			}
			for p.tok != ")" {
				a, err := p.parse(0)
				if err != nil {
					return nil, err
				}
				c.args = append(c.args, a)
				if p.tok == "," {
					p.next()
				} else if p.tok != ")" {
					return nil, fmt.Errorf("expected ) or , got %q", p.tok)
				}
			}
			p.next()
			e = c
		default:
			return e, nil
		}
	}
	return e, nil
}

func (p *eparser) primary() (*Expr, error) {
	switch p.kind {
	case "int":
		n, err := strconv.ParseInt(p.tok, 0, 64)
		if err != nil {
			return nil, err
		}
		p.next()
		return &Expr{op: "int", n: n}, nil
	case "str":
		s, err := strconv.Unquote(p.tok)
		if err != nil {
			return nil, err
		}
		p.next()
		return &Expr{op: "str", name: s}, nil
	case "rune":
		r, _, _, err := strconv.UnquoteChar(p.tok[1:len(p.tok)-1], '\'')
		if err != nil {
			return nil, err
		}
		p.next()
		return &Expr{op: "int", n: int64(r)}, nil
	case "ident":
		n := p.tok
		p.next()
		return &Expr{op: "ident", name: n}, nil
	case "op":
		if p.tok == "(" {
			p.next()
			e, err := p.parse(0)
			if err != nil {
				return nil, err
			}
			if p.tok != ")" {
				return nil, fmt.Errorf("expected ) got %q", p.tok)
			}
			p.next()
			return e, nil
		}
	}
	return nil, fmt.Errorf("unexpected token %q", p.tok)
}
