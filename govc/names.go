package main

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"os"
	"path/filepath"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Contracts and invariants name parameters and locals. spec/names.json records the names they were written with, in
// order of declaration, so that renaming a variable does not detach its invariant.

type fnNames struct {
	Params []string `json:"p"`
	Locals []string `json:"l"`
}

func namesOf(fn *ssa.Function) fnNames {
	var r fnNames
	for _, p := range fn.Params {
		r.Params = append(r.Params, p.Name())
	}
	id := func(e ast.Expr) {
		if i, ok := e.(*ast.Ident); ok && i.Name != "_" {
			r.Locals = append(r.Locals, i.Name)
		}
	}
	var body *ast.BlockStmt
	switch d := fn.Syntax().(type) {
	case *ast.FuncDecl:
		body = d.Body
		if d.Type.Results != nil {
			for _, f := range d.Type.Results.List {
				for _, n := range f.Names {
					id(n)
				}
			}
		}
	case *ast.FuncLit:
		body = d.Body
	}
	if body == nil {
		return r
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				for _, l := range s.Lhs {
					id(l)
				}
			}
		case *ast.RangeStmt:
			if s.Tok == token.DEFINE {
				id(s.Key)
				if s.Value != nil {
					id(s.Value)
				}
			}
		case *ast.ValueSpec:
			for _, l := range s.Names {
				id(l)
			}
		}
		return true
	})
	return r
}

var renMu sync.Mutex

// renamed maps recorded names to the present ones, where the function still declares as many variables.
func (e *Engine) renamed(fn *ssa.Function) map[string]string {
	k := fnKey(fn)
	renMu.Lock()
	defer renMu.Unlock()
	if m, ok := e.renames[k]; ok {
		return m
	}
	m := map[string]string{}
	if rec, ok := e.names[k]; ok {
		now := namesOf(fn)
		pair := func(a, b []string) {
			if len(a) != len(b) {
				return
			}
			have := map[string]bool{}
			for _, n := range b {
				have[n] = true
			}
			for i := range a {
				if a[i] != b[i] && !have[a[i]] && m[a[i]] == "" {
					m[a[i]] = b[i]
				}
			}
		}
		pair(rec.Params, now.Params)
		pair(rec.Locals, now.Locals)
	}
	e.renames[k] = m
	return m
}

func (e *Engine) loadNames(dir string) {
	e.names, e.renames = map[string]fnNames{}, map[string]map[string]string{}
	if b, err := os.ReadFile(filepath.Join(dir, "names.json")); err == nil {
		json.Unmarshal(b, &e.names)
	}
}

// writeNames records the names of every function under contract.
func (e *Engine) writeNames(dir string) error {
	out := map[string]fnNames{}
	for k, fn := range e.fns {
		if n := namesOf(fn); len(n.Params)+len(n.Locals) > 0 {
			out[k] = n
		}
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "names.json"), append(b, '\n'), 0o644)
}
