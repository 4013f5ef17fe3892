package main

// Solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type solverCfg struct {
	name string
	argv []string
}

var solvers = []solverCfg{
	{"z3-5.3", []string{"z3-new", "-in", "-smt2"}},
	{"cvc5-1.1", []string{"cvc5", "--lang=smt2", "--incremental"}},
	{"z3-4.8", []string{"z3", "-in", "-smt2"}},
}

var z3arith2 = solverCfg{"z3-5.3", []string{"z3-new", "-in", "-smt2", "smt.arith.solver=2"}}

var solverSeconds int64 // accumulated ms
var solverCalls int64
var solverWins sync.Map

type solveRes struct {
	status string // unsat / sat / unknown
	solver string
	secs   float64
	output string
}

func runSolver(ctx context.Context, s solverCfg, script string, sec float64) solveRes {
	c, cancel := context.WithTimeout(ctx, time.Duration((sec+2)*float64(time.Second)))
	defer cancel()
	argv := append([]string{}, s.argv...)
	if strings.HasPrefix(s.name, "z3") {
		argv = append(argv, fmt.Sprintf("-t:%d", int(sec*1000)), fmt.Sprintf("-memory:%d", 3000))
	} else {
		argv = append(argv, fmt.Sprintf("--tlimit-per=%d", int(sec*1000)))
		script = "(set-option :strings-exp true)\n(set-option :fmf-fun true)\n" + script
		if !strings.Contains(script, "define-fun-rec") {
			script = strings.Replace(script, "(set-option :fmf-fun true)\n", "", 1)
		}
	}
	cmd := exec.CommandContext(c, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&solverSeconds, d.Milliseconds())
	atomic.AddInt64(&solverCalls, 1)
	o := out.String()
	r := solveRes{status: "unknown", solver: s.name, secs: d.Seconds(), output: o}
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			r.status = "unsat"
			return r
		case "sat":
			r.status = "sat"
			return r
		}
		if strings.Contains(l, "error") && !strings.Contains(l, "model is not available") {
			break
		}
	}
	return r
}

// solve decides a script: first solver alone for a short while, then a race.
func solve(script string, quick, long float64, model bool) solveRes {
	s := script + "(check-sat)\n"
	if model {
		s += "(get-model)\n"
	}
	r := solveRes{status: "unknown"}
	if quick > 0 {
		// short attempts with both arithmetic engines first
		if quick > 2 {
			for i, c := range []solverCfg{solvers[0], z3arith2} {
				r = runSolver(context.Background(), c, s, []float64{0.7, 2}[i])
				if r.status != "unknown" {
					return r
				}
			}
		}
		r = runSolver(context.Background(), solvers[0], s, quick)
		if r.status != "unknown" {
			return r
		}
	}
	if strings.Contains(r.output, "error") && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "SOLVER ERROR:", firstLines(r.output, 3))
	}
	if long <= 0 {
		return r
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solveRes, len(solvers))
	for _, c := range solvers {
		c := c
		go func() { ch <- runSolver(ctx, c, s, long) }()
	}
	best := r
	for range solvers {
		x := <-ch
		if x.status == "unsat" {
			return x
		}
		if x.status == "sat" && (x.solver != "cvc5-1.1") {
			return x
		}
		if x.status == "sat" {
			best = x
		}
	}
	return best
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

// parallel runs jobs on the worker pool.
func parallel(n int, jobs int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, n)
	for i := 0; i < jobs; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}
