package main

// The check command: proof, replay search / bounded stand-ins, evidence.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type HarnessCfg struct {
	Module string   `json:"module"`
	Pkg    string   `json:"pkg"`     // directory relative to the module
	Name   string   `json:"package"` // Go package name of the test files
	Files  []string `json:"files"`
	Run    string   `json:"run"`
	Covers string   `json:"covers"` // what the bounded run stands in for
	Quick  int      `json:"quick_ms"`
	Long   int      `json:"thorough_ms"`
}

type PropCfg struct {
	ID      string       `json:"id"`
	Title   string       `json:"title"`
	Level   string       `json:"level"`
	Harness []HarnessCfg `json:"harness"`
	Bounded string       `json:"bounded"` // which part of the property the harness (not the proof) decides
}

type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
}

type HarnessRes struct {
	cfg      HarnessCfg
	evals    int
	distinct int
	samples  []string
	rule     string
	fails    []string // "key :: description"
	built    bool
	out      string
	secs     float64
}

var failRe = regexp.MustCompile(`VERIF-FAIL key=(\S+) :: (.*)`)
var statRe = regexp.MustCompile(`VERIF-STAT (\{.*\})`)

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOWORK=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
}

func runHarness(verif, repo string, h HarnessCfg, ms int, seed int64) *HarnessRes {
	t0 := time.Now()
	r := &HarnessRes{cfg: h}
	dir, err := os.MkdirTemp("", "govc-harness")
	if err != nil {
		r.out = err.Error()
		return r
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	pkgdir := filepath.Join(repo, h.Module, h.Pkg)
	util, err := os.ReadFile(filepath.Join(verif, "harness", "verifutil.go.txt"))
	if err == nil {
		u := filepath.Join(dir, "zz_verifutil_test.go")
		os.WriteFile(u, []byte(strings.Replace(string(util), "package PKG", "package "+h.Name, 1)), 0o644)
		rep[filepath.Join(pkgdir, "zz_verifutil_test.go")] = u
	}
	for _, f := range h.Files {
		rep[filepath.Join(pkgdir, "zz_"+filepath.Base(f))] = filepath.Join(verif, "harness", f)
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(dir, "overlay.json")
	os.WriteFile(ov, js, 0o644)
	limit := time.Duration(ms)*time.Millisecond*3 + 180*time.Second
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	tmo := time.Duration(ms)*time.Millisecond*3 + 60*time.Second
	cmd := exec.CommandContext(ctx, "go", "test", "-count=1", "-vet=off", "-overlay", ov, "-run", "^("+h.Run+")$", "-timeout", tmo.String(), "-v", "./"+h.Pkg)
	cmd.Dir = filepath.Join(repo, h.Module)
	cmd.Env = append(goEnv(), fmt.Sprintf("VERIF_MS=%d", ms), fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_SCRATCH="+dir, "GOMEMLIMIT=8GiB")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	runErr := cmd.Run()
	r.out = out.String()
	r.secs = time.Since(t0).Seconds()
	r.built = !strings.Contains(r.out, "[build failed]") && !strings.Contains(r.out, "[setup failed]")
	sc := bufio.NewScanner(strings.NewReader(r.out))
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		l := sc.Text()
		if m := failRe.FindStringSubmatch(l); m != nil {
			r.fails = append(r.fails, m[1]+" :: "+m[2])
		}
		if m := statRe.FindStringSubmatch(l); m != nil {
			var s struct {
				Evaluations, Distinct int
				Rule                  string
				Samples               []string
			}
			if json.Unmarshal([]byte(m[1]), &s) == nil {
				r.evals += s.Evaluations
				r.distinct += s.Distinct
				r.samples = append(r.samples, s.Samples...)
				if s.Rule != "" {
					r.rule = strings.TrimSpace(r.rule + " " + s.Rule)
				}
			}
		}
	}
	if r.built && runErr != nil && len(r.fails) == 0 {
		// the code under test crashed the process
		i := strings.Index(r.out, "panic:")
		if j := strings.Index(r.out, "fatal error:"); i < 0 {
			i = j
		}
		d := firstLines(r.out, 5)
		if i >= 0 {
			d = firstLines(r.out[i:], 12)
		}
		if i >= 0 || strings.Contains(r.out, "--- FAIL") {
			r.fails = append(r.fails, "crash :: "+strings.ReplaceAll(d, "\n", " | "))
		} else {
			r.built = false
		}
	}
	return r
}

func loadJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

func cmdCheck(args []string) int {
	t0 := time.Now()
	if len(args) < 1 {
		fmt.Println("usage: govc check PROP [quick|thorough]")
		return 2
	}
	prop := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	var cfgs []PropCfg
	if err := loadJSON(filepath.Join(verif, "props.json"), &cfgs); err != nil {
		fmt.Println(err)
		return 2
	}
	var pc *PropCfg
	for i := range cfgs {
		if cfgs[i].ID == prop {
			pc = &cfgs[i]
		}
	}
	if pc == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	var known []Finding
	loadJSON(filepath.Join(verif, "known_findings.json"), &known)

	e, err := loadEngine(repo, []string{".", "engines/yayamls", "engines/goyaml"})
	var pr *ProofResult
	loadErr := ""
	if err != nil {
		loadErr = err.Error()
		fmt.Println("load error:", loadErr)
		return 2
	}
	e.loadNames(filepath.Join(verif, "spec"))
	fl, _ := filepath.Glob(filepath.Join(verif, "spec", "*.spec"))
	for _, f := range fl {
		if err := e.spec.parseFile(f); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	cfg := ProofCfg{quick: 6, long: 40, workers: 8, deadline: time.Now().Add(330 * time.Second)}
	if tier == "thorough" {
		cfg.quick, cfg.long = 15, 180
		cfg.deadline = time.Now().Add(3 * time.Hour)
	}
	pr = e.prove(prop, cfg)

	var failed []*Obl
	var failedUnits []string
	total, ok := 0, 0
	bySolver := map[string]int{}
	secs := 0.0
	for _, k := range pr.order {
		u := pr.units[k]
		if u.err != "" {
			failedUnits = append(failedUnits, k+": "+u.err)
			total++
		}
		for i, s := range u.smokeRes {
			if s == "unsat" {
				failedUnits = append(failedUnits, fmt.Sprintf("%s: vacuous (%s)", k, []string{"precondition unsatisfiable", "no path returns"}[i]))
				total++
			}
		}
		for _, o := range u.obls {
			total++
			secs += o.secs
			if o.status == "proved" {
				ok++
				bySolver[o.solver]++
			} else {
				failed = append(failed, o)
			}
		}
	}
	proofFailed := len(failed) > 0 || len(failedUnits) > 0

	// bounded stand-ins / replay search
	var hres []*HarnessRes
	for _, h := range pc.Harness {
		ms := h.Quick
		if ms == 0 {
			ms = 3000
		}
		if tier == "thorough" {
			ms = h.Long
			if ms == 0 {
				ms = 60000
			}
		} else if proofFailed {
			ms *= 4 // search harder for a failing input
		}
		r := runHarness(verif, repo, h, ms, seed)
		hres = append(hres, r)
	}
	var newFails []string
	seenKnown := map[string]bool{}
	for _, r := range hres {
		for _, f := range r.fails {
			key, desc, _ := strings.Cut(f, " :: ")
			hit := false
			for _, k := range known {
				if k.Property == prop && k.Status == "known" && k.Key == key {
					hit = true
					if !seenKnown[key] {
						seenKnown[key] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, key, k.What)
					}
				}
			}
			if !hit {
				newFails = append(newFails, r.cfg.Run+" "+key+": "+desc)
			}
		}
	}
	violations := 0
	exit := 0
	repdir := filepath.Join(verif, "evidence", "replays")
	if proofFailed || len(newFails) > 0 {
		os.MkdirAll(repdir, 0o755)
		exit = 1
		violations = 1
		path := filepath.Join(repdir, prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s (%s)\n", prop, pc.Title)
		if len(newFails) > 0 {
			sb.WriteString("\nFAILING INPUTS (replayed against the real code)\n")
			for _, f := range newFails {
				sb.WriteString("  " + f + "\n")
			}
			for _, r := range hres {
				if len(r.fails) > 0 {
					fmt.Fprintf(&sb, "re-run: %s/check.sh %s %s (harness %v, test %s, package %s/%s, VERIF_SEED=%d)\n", verif, prop, tier, r.cfg.Files, r.cfg.Run, r.cfg.Module, r.cfg.Pkg, seed)
				}
			}
		}
		if proofFailed {
			sb.WriteString("\nFAILED OBLIGATIONS\n")
			for _, f := range failedUnits {
				sb.WriteString("  " + f + "\n")
			}
			for _, o := range failed {
				fmt.Fprintf(&sb, "  %s: %s %s at %s: %s by %s after %.1fs   %s\n", o.fn, o.kind, o.name, o.pos, o.status, o.solver, o.secs, o.comment)
			}
			sb.WriteString("\nVERIFIER OUTPUT\n")
			for _, o := range failed {
				fmt.Fprintf(&sb, "--- %s %s %s\n%s\n", o.fn, o.kind, o.name, firstLines(o.model, 400))
			}
		}
		for k, w := range pr.disabled {
			fmt.Fprintf(&sb, "auxiliary contract replaced by inlining: %s (%s)\n", k, w)
		}
		for _, r := range hres {
			if len(r.fails) > 0 || !r.built {
				fmt.Fprintf(&sb, "\nHARNESS OUTPUT %s\n%s\n", r.cfg.Run, firstLines(r.out, 200))
			}
		}
		os.WriteFile(path, []byte(sb.String()), 0o644)
		for _, f := range failedUnits {
			fmt.Println("failed:", f)
		}
		for i, o := range failed {
			if i < 12 {
				fmt.Printf("failed: %s %s %s at %s (%s)\n", o.fn, o.kind, o.name, o.pos, o.status)
			}
		}
		for i, f := range newFails {
			if i < 5 {
				fmt.Println("failing input:", f)
			}
		}
		if len(newFails) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
	}
	writeEvidence(verif, prop, tier, seed, pc, pr, hres, total, ok, bySolver, secs, violations, time.Since(t0).Seconds())
	fmt.Printf("%s %s: %d/%d obligations over %d functions, %.1fs solver, %.1fs wall\n", prop, tier, ok, total, len(pr.order), secs, time.Since(t0).Seconds())
	return exit
}

func writeEvidence(verif, prop, tier string, seed int64, pc *PropCfg, pr *ProofResult, hres []*HarnessRes, total, ok int, bySolver map[string]int, secs float64, violations int, wall float64) {
	ass := map[string]bool{}
	var fns []map[string]any
	trusted := map[string]bool{
		"govc VC generator (/verif/govc): SSA semantics, heap model, contract language":   true,
		"go/packages, go/ssa (golang.org/x/tools v0.52.0) and the Go 1.27.3 type checker": true,
		"SMT solvers z3 5.3.2, cvc5 1.1.2, z3 4.8.12":                                     true,
	}
	inl := map[string]bool{}
	for _, k := range pr.order {
		u := pr.units[k]
		n := 0
		for _, o := range u.obls {
			if o.status == "proved" {
				n++
			}
		}
		fns = append(fns, map[string]any{"function": k, "obligations": len(u.obls), "discharged": n, "loops": u.loops})
		for _, a := range u.assumed {
			ass[a] = true
		}
		for _, x := range u.ext {
			ass["external function modelled: "+x] = true
		}
		for _, x := range u.inlined {
			inl[x] = true
		}
		for _, x := range u.used {
			if strings.HasPrefix(x, "iface ") {
				ass["assumed interface contract: "+x] = true
			}
		}
	}
	ass["integers of 64 bits are treated as mathematical integers (no overflow of int/int64/uint64); narrower types wrap"] = true
	ass["strings are sequences of Unicode code points (valid UTF-8); goroutines, unsafe and reflection are outside the model"] = true
	ass["partial correctness: termination is not proved unless an obligation of kind termination is listed"] = true
	level := pc.Level
	if level == "" {
		level = "proof"
	}
	cov := map[string]any{
		"obligations": total, "discharged": ok, "checker_cmd": fmt.Sprintf("%s/check.sh %s %s", verif, prop, tier),
		"trusted_base": sortedKeys(trusted), "functions_under_contract": fns, "functions_inlined_into_those": sortedKeys(inl),
		"by_back_end": bySolver, "solver_seconds": secs,
	}
	ev, dist := 0, 0
	var samples []any
	var hs []map[string]any
	rule := ""
	for _, r := range hres {
		ev += r.evals
		dist += r.distinct
		for _, s := range r.samples {
			if len(samples) < 8 {
				samples = append(samples, s)
			}
		}
		if r.rule != "" {
			rule = strings.TrimSpace(rule + " " + r.rule)
		}
		hs = append(hs, map[string]any{"test": r.cfg.Run, "built": r.built, "evaluations": r.evals, "distinct_nontrivial": r.distinct, "seconds": r.secs, "covers": r.cfg.Covers})
	}
	if len(hres) > 0 {
		cov["bounded_runs"] = hs
		cov["evaluations"] = ev
		cov["distinct_nontrivial"] = dist
		cov["rule"] = rule
		if len(samples) == 0 {
			samples = append(samples, "none")
		}
		cov["samples"] = samples
	}
	if pc.Bounded != "" {
		cov["bounded_part"] = pc.Bounded
	}
	if len(pr.disabled) > 0 {
		cov["auxiliary_contracts_inlined"] = pr.disabled
	}
	out := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": sortedKeys(ass), "wall_s": wall, "violations": violations}
	b, _ := json.MarshalIndent(out, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
	_ = sort.Strings
}
