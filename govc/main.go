package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc prove|fns ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "prove":
		cmdProve(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "fns":
		e, err := loadEngine("/repo", []string{".", "engines/yayamls", "engines/goyaml"})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, k := range sortedKeys(e.fns) {
			fmt.Println(k)
		}
	case "names": // record the variable names the contracts rely on
		e, err := loadEngine("/repo", []string{".", "engines/yayamls", "engines/goyaml"})
		if err == nil {
			err = e.writeNames("/verif/spec")
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	case "ssa":
		e, err := loadEngine("/repo", []string{".", "engines/yayamls", "engines/goyaml"})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		e.fns[os.Args[2]].WriteTo(os.Stdout)
	}
}

func cmdProve(args []string) {
	fs := flag.NewFlagSet("prove", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	specDir := fs.String("spec", "/verif/spec", "")
	repo := fs.String("repo", "/repo", "")
	only := fs.String("only", "", "")
	v := fs.Bool("v", false, "")
	quick := fs.Float64("quick", 4, "")
	long := fs.Float64("long", 15, "")
	fs.Parse(args)
	e, err := loadEngine(*repo, []string{".", "engines/yayamls", "engines/goyaml"})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.loadNames(*specDir)
	fl, _ := filepath.Glob(filepath.Join(*specDir, "*.spec"))
	for _, f := range fl {
		if err := e.spec.parseFile(f); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	r := e.prove(*prop, ProofCfg{quick: *quick, long: *long, workers: 8, verbose: *v, only: *only})
	tot, ok := 0, 0
	for _, k := range r.order {
		u := r.units[k]
		n := 0
		for _, o := range u.obls {
			tot++
			if o.status == "proved" {
				n++
				ok++
			}
		}
		fmt.Printf("%-60s %d/%d loops=%d smoke=%v %s\n", k, n, len(u.obls), u.loops, u.smokeRes, u.err)
		if *v {
			for _, x := range u.notes {
				fmt.Println("    note", x)
			}
			for _, x := range u.dropped {
				fmt.Println("    dropped", x)
			}
			fmt.Println("    inlined", u.inlined)
			fmt.Println("    ext", u.ext)
			fmt.Println("    assumed", u.assumed)
		}
		for _, o := range u.obls {
			if o.status != "proved" || (*v && o.secs > 3) {
				fmt.Printf("    %s %s/%s @%s  %s %s %.1fs\n", o.status, o.kind, o.name, o.pos, o.comment, o.solver, o.secs)
			}
		}
	}
	for k, w := range r.disabled {
		fmt.Println("disabled", k, w)
	}
	fmt.Printf("%d/%d obligations, %.1fs (gen %.1fs)\n", ok, tot, r.wall, r.genSecs)
}
