package main

// Proof driver for one property: closure over contracts, Houdini over loop
// invariants, fallback to inlining for auxiliary contracts.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type ProofCfg struct {
	quick, long float64
	workers     int
	verbose     bool
	only        string
	deadline    time.Time
}

type ProofResult struct {
	prop     string
	units    map[string]*Unit
	order    []string
	disabled map[string]string
	wall     float64
	genSecs  float64
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// rootsFor lists contracts that carry the property.
func (e *Engine) rootsFor(prop string) []*Contract {
	// expand defaults
	for _, d := range e.spec.defaults {
		if !has(d.con.props, prop) {
			continue
		}
		for _, f := range e.fns {
			e.contractFor(f)
		}
	}
	var out []*Contract
	for _, k := range sortedKeys(e.spec.contracts) {
		c := e.spec.contracts[k]
		if has(c.props, prop) && !c.iface && !c.trusted && !c.inline {
			out = append(out, c)
		}
	}
	return out
}

func (e *Engine) fnOf(con *Contract) *ssa.Function { return e.fns[con.key] }

func (e *Engine) prove(prop string, cfg ProofCfg) *ProofResult {
	t0 := time.Now()
	e.curProp = prop
	r := &ProofResult{prop: prop, units: map[string]*Unit{}, disabled: map[string]string{}}
	dropInv := map[string]map[string]bool{}
	disabled := map[string]bool{}
	pending := map[string]bool{}
	rootSet := map[string]bool{}
	for _, c := range e.rootsFor(prop) {
		if cfg.only != "" && !strings.Contains(c.key, cfg.only) {
			continue
		}
		pending[c.key] = true
		rootSet[c.key] = true
	}
	lemDone := map[string]bool{}
	doLemmas := func(want func(l *Lemma) bool) {
		for again := true; again; {
			again = false
			var us []*Unit
			for _, l := range e.spec.lemmas {
				if lemDone[l.name] || !want(l) {
					continue
				}
				lemDone[l.name] = true
				u := e.genLemma(l)
				r.units[u.key] = u
				us = append(us, u)
			}
			e.solveUnits(us, cfg)
			need := map[string]bool{}
			for _, u := range us {
				for _, n := range u.lemmas {
					if !lemDone[n] && cfg.only == "" {
						need[n] = true
						again = true
					}
				}
			}
			want = func(l *Lemma) bool { return need[l.name] }
		}
	}
	doLemmas(func(l *Lemma) bool {
		return has(l.props, prop) && (cfg.only == "" || strings.Contains(l.name, cfg.only))
	})
	for round := 0; len(pending) > 0 && round < 60; round++ {
		var us []*Unit
		for _, k := range sortedKeys(pending) {
			con := e.spec.contracts[k]
			fn := e.fnOf(con)
			if dropInv[k] == nil {
				dropInv[k] = map[string]bool{}
			}
			if fn == nil {
				r.units[k] = &Unit{key: k, con: con, err: "function under contract no longer exists: " + k}
				continue
			}
			g0 := time.Now()
			u := e.genUnit(fn, con, disabled, dropInv[k])
			if u.err != "" && len(e.insts[k]) > 0 {
				// generic body outside the subset: verify every instantiation
				for _, in := range e.insts[k] {
					u = e.genUnit(in, con, disabled, dropInv[k])
					if u.err != "" {
						break
					}
				}
			}
			r.genSecs += time.Since(g0).Seconds()
			r.units[k] = u
			us = append(us, u)
		}
		pending = map[string]bool{}
		e.solveUnits(us, cfg)
		for _, u := range us {
			// Houdini: drop candidate invariants that failed
			redo := false
			for _, o := range u.obls {
				if o.status != "proved" && (o.kind == "loop-init" || o.kind == "loop-preserve") {
					if cfg.verbose {
						fmt.Printf("  drop %s: %s %s (%s, %s %.1fs)\n", u.key, o.kind, o.name, o.status, o.solver, o.secs)
					}
					base := o.name
					if i := strings.LastIndex(base, "#"); i > 0 && strings.Trim(base[i+1:], "0123456789") == "" {
						base = base[:i]
					}
					if !dropInv[u.key][base] {
						dropInv[u.key][base] = true
						redo = true
					}
				}
			}
			if redo {
				pending[u.key] = true
				continue
			}
			u.dropped = sortedKeys(dropInv[u.key])
			if !u.ok() && !rootSet[u.key] && !disabled[u.key] {
				// auxiliary contract failed: inline the body at its callers instead
				disabled[u.key] = true
				r.disabled[u.key] = describeFail(u)
				delete(r.units, u.key)
				for k, v := range r.units {
					if has(v.used, u.key) {
						pending[k] = true
					}
				}
				continue
			}
			for _, k := range u.used {
				c := e.spec.contracts[k]
				if c == nil || c.trusted || c.iface || disabled[k] {
					continue
				}
				if r.units[k] == nil {
					pending[k] = true
				}
			}
		}
	}
	need := map[string]bool{}
	for _, u := range r.units {
		for _, n := range u.lemmas {
			need[n] = true
		}
	}
	if cfg.only == "" {
		doLemmas(func(l *Lemma) bool { return need[l.name] })
	}
	// prune units no longer reachable
	live := map[string]bool{}
	var mark func(k string)
	mark = func(k string) {
		u := r.units[k]
		if u == nil || live[k] {
			return
		}
		live[k] = true
		for _, x := range u.used {
			mark(x)
		}
	}
	for k := range r.units {
		if rootSet[k] || strings.HasPrefix(k, "lemma ") {
			mark(k)
		}
	}
	for k := range r.units {
		if !live[k] {
			delete(r.units, k)
		}
	}
	r.order = sortedKeys(r.units)
	r.wall = time.Since(t0).Seconds()
	return r
}

func describeFail(u *Unit) string {
	if u.err != "" {
		return u.err
	}
	var fs []string
	for _, o := range u.obls {
		if o.status != "proved" {
			fs = append(fs, o.kind+" "+o.name+" "+o.status)
		}
	}
	sort.Strings(fs)
	if len(fs) > 4 {
		fs = fs[:4]
	}
	return strings.Join(fs, "; ")
}

func (e *Engine) solveUnits(us []*Unit, cfg ProofCfg) {
	type job struct {
		u *Unit
		i int
		s bool
	}
	var jobs []job
	for _, u := range us {
		if u.err != "" {
			continue
		}
		for i := range u.obls {
			if u.obls[i].goal.isTrue() || u.obls[i].guard.isFalse() {
				u.obls[i].status, u.obls[i].solver = "proved", "simplifier"
				continue
			}
			jobs = append(jobs, job{u, i, false})
		}
		u.smokeRes = make([]string, len(u.smoke))
		for i := range u.smoke {
			jobs = append(jobs, job{u, i, true})
		}
	}
	dbg := os.Getenv("GOVC_DUMP")
	limits := func() (float64, float64) {
		q, lg := cfg.quick, cfg.long
		if !cfg.deadline.IsZero() {
			if left := time.Until(cfg.deadline).Seconds(); left < lg*2 {
				lg = max(left/2, 0)
				if left <= 0 {
					q = 2
				}
			}
		}
		return q, lg
	}
	finish := func(u *Unit, i int, r solveRes, script string) {
		o := u.obls[i]
		o.solver = r.solver
		o.secs += r.secs
		switch r.status {
		case "unsat":
			o.status = "proved"
		case "sat":
			o.status = "failed"
			m := solve(script, cfg.quick, 0, true)
			o.model = m.output
		default:
			o.status = "unknown"
			o.model = r.output
		}
	}
	parallel(cfg.workers, len(jobs), func(i int) {
		j := jobs[i]
		if j.s {
			j.u.smokeRes[j.i] = solve(j.u.smoke[j.i], 1, 0, false).status
			if dbg != "" {
				os.WriteFile(filepath.Join(dbg, fmt.Sprintf("%s.smoke%d.smt2", sanitizeFile(j.u.key), j.i)), []byte(j.u.smoke[j.i]+"(check-sat)\n"), 0o644)
			}
			return
		}
		q, _ := limits()
		if l := j.u.obls[j.i].lite; l != "" {
			if r := solve(l, min(q, 3), 0, false); r.status == "unsat" {
				finish(j.u, j.i, r, l)
				return
			}
			if dbg != "" {
				os.WriteFile(filepath.Join(dbg, sanitizeFile(j.u.key+".lite."+j.u.obls[j.i].name)+".smt2"), []byte(l+"(check-sat)\n(get-model)\n"), 0o644)
			}
		}
		if j.u.scripts[j.i] == "" {
			if j.u.obls[j.i].parts != nil {
				j.u.obls[j.i].status = "unknown"
			} else {
				finish(j.u, j.i, solveRes{status: "unsat", solver: "simplifier"}, "")
			}
			return
		}
		finish(j.u, j.i, solve(j.u.scripts[j.i], q, 0, false), j.u.scripts[j.i])
	})
	// undecided: finer obligations (per return path and conjunct), else a race of all solvers
	type pjob struct {
		u      *Unit
		i, k   int
		script string
	}
	var pjobs []pjob
	results := map[*Obl][]solveRes{}
	bad := map[*Obl]*atomic.Bool{}
	for _, j := range jobs {
		if j.s || j.u.obls[j.i].status != "unknown" {
			continue
		}
		o := j.u.obls[j.i]
		ps := j.u.partScripts(o)
		if len(ps) == 0 {
			if j.u.scripts[j.i] == "" || o.parts != nil {
				finish(j.u, j.i, solveRes{status: "unsat", solver: "simplifier"}, "")
				continue
			}
			ps = []string{j.u.scripts[j.i]}
		}
		results[o] = make([]solveRes, len(ps))
		bad[o] = &atomic.Bool{}
		for k, s := range ps {
			pjobs = append(pjobs, pjob{j.u, j.i, k, s})
		}
	}
	parallel(cfg.workers, len(pjobs), func(i int) {
		j := pjobs[i]
		o := j.u.obls[j.i]
		if bad[o].Load() {
			return
		}
		q, lg := limits()
		if len(results[o]) == 1 {
			q = 0
		}
		r := solve(j.script, q, lg, false)
		results[o][j.k] = r
		if r.status != "unsat" {
			bad[o].Store(true)
			if dbg != "" {
				os.WriteFile(filepath.Join(dbg, sanitizeFile(fmt.Sprintf("%s.%s.%s.part%d", j.u.key, o.kind, o.name, j.k))+".smt2"), []byte(j.script+"(check-sat)\n(get-model)\n"), 0o644)
			}
		}
	})
	seen := map[*Obl]bool{}
	for _, j := range pjobs {
		o := j.u.obls[j.i]
		if seen[o] {
			continue
		}
		seen[o] = true
		tot := solveRes{status: "unsat"}
		script := ""
		for k, r := range results[o] {
			tot.secs += r.secs
			if tot.solver == "" || r.status != "unsat" {
				tot.solver = r.solver
			}
			if r.status == "sat" || (r.status != "unsat" && tot.status == "unsat") {
				tot.status, tot.output, tot.solver = r.status, r.output, r.solver
				for _, x := range pjobs {
					if x.u.obls[x.i] == o && x.k == k {
						script = x.script
					}
				}
			}
			if r.status == "" && tot.status == "unsat" {
				tot.status = "unknown"
			}
		}
		finish(j.u, j.i, tot, script)
	}
	for _, j := range jobs {
		if o := j.u.obls; dbg != "" && !j.s && (o[j.i].status != "proved" || os.Getenv("GOVC_DUMPALL") != "") {
			os.WriteFile(filepath.Join(dbg, sanitizeFile(j.u.key+"."+o[j.i].kind+"."+o[j.i].name)+".smt2"), []byte(j.u.scripts[j.i]+"(check-sat)\n(get-model)\n"), 0o644)
		}
	}
}

func sanitizeFile(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '/' || r == ' ' || r == '*' || r == '(' || r == ')' || r == '[' || r == ']' || r == '#' || r == '>' || r == '<' {
			return '_'
		}
		return r
	}, s)
}
