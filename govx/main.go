package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govx gen|verify|check|locals ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	rootsF := fs.String("roots", "", "comma separated contract keys")
	out := fs.String("out", "", "")
	tier := fs.String("tier", "quick", "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(*repo, *verif, *prop, *tier))
	case "gen", "verify", "canary":
		prog, err := LoadProgram(*repo, filepath.Join(*verif, "clients"))
		fatal(err)
		cs, err := LoadContracts(filepath.Join(*verif, "contracts"))
		fatal(err)
		var roots []string
		if *prop != "" {
			for _, p := range strings.Split(*prop, ",") {
				roots = append(roots, cs.Props[p]...)
			}
		}
		if *rootsF != "" {
			roots = append(roots, strings.Split(*rootsF, ",")...)
		}
		if *prop == "" && *rootsF == "" {
			for _, k := range sortedKeys(cs.M) {
				if cs.M[k].Kind == "func" && !strings.HasPrefix(k, "ext:") {
					roots = append(roots, k)
				}
			}
		}
		cs = cs.Scope(roots)
		eff := os.Getenv("GOVX_EFF") != "" || cs.Eff[*prop]
		if eff {
			cs = cs.Effects()
		}
		g := NewGen(prog, cs)
		g.eff = eff
		work := *out
		if work == "" {
			work = "/tmp/govx"
		}
		os.MkdirAll(work, 0o755)
		g.canary = os.Args[1] == "canary"
		o, err := g.Verify(roots, filepath.Join(*verif, "spec"), work, time.Now().Add(20*time.Minute), loadLocals(*verif))
		fatal(err)
		if g.canary {
			bad := map[string]bool{}
			for _, f := range o.Failures {
				bad[f.Fn] = true
			}
			for _, k := range o.Cone {
				if !bad[k] && !cs.M[k].Trusted && cs.M[k].Kind != "iface" && cs.M[k].Kind != "functype" && !strings.HasPrefix(k, "ext:") {
					fmt.Println("VACUOUS", k)
				}
			}
			return
		}
		for _, f := range o.Failures {
			fmt.Println("FAIL", f.Kind, f)
			if os.Getenv("V") != "" {
				fmt.Println(f.Rendered)
			}
		}
		fmt.Printf("cone %d, verified %d, obligations %d, smt %dms, wall %v, runs %d\n", len(o.Cone), o.Verified, o.Obligations, o.SmtMs, o.VerusTime, o.Runs)
	case "locals":
		prog, err := LoadProgram(*repo, filepath.Join(*verif, "clients"))
		fatal(err)
		cs, err := LoadContracts(filepath.Join(*verif, "contracts"))
		fatal(err)
		g := NewGen(prog, cs)
		var roots []string
		for _, k := range sortedKeys(cs.M) {
			if cs.M[k].Kind == "func" && !strings.HasPrefix(k, "ext:") {
				roots = append(roots, k)
			}
		}
		for k := 0; k < 3; k++ {
			g.reset()
			g.failed = map[string]string{}
			if _, err = g.Generate(roots, filepath.Join(*verif, "spec")); err != errHeapGrew {
				break
			}
		}
		fatal(err)
		m := map[string][]string{}
		for k, l := range g.locals {
			if len(*l) > 0 {
				m[k] = *l
			}
		}
		b, _ := json.MarshalIndent(m, "", " ")
		fatal(os.WriteFile(filepath.Join(*verif, "contracts", "locals.json"), append(b, '\n'), 0o644))
		var bad []string
		for k, v := range g.failed {
			bad = append(bad, k+": "+v)
		}
		sort.Strings(bad)
		fmt.Println(strings.Join(bad, "\n"))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func loadLocals(verif string) map[string][]string {
	m := map[string][]string{}
	b, err := os.ReadFile(filepath.Join(verif, "contracts", "locals.json"))
	if err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "govx:", err)
		os.Exit(2)
	}
}
