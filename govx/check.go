package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// harnessReport is what the failing-input search prints on its last line.
type harnessReport struct {
	Evaluations int64    `json:"evaluations"`
	Distinct    int64    `json:"distinct"`
	Samples     []string `json:"samples"`
	Rule        string   `json:"rule"`
	Failed      bool     `json:"failed"`
	Known       []string `json:"known"`
	Message     string   `json:"message"`
	Input       string   `json:"input"`
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	WallS       float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOSUMDB=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

// buildHarness compiles the failing-input search against the current source.
func buildHarness(repo, verif, work string, race bool) (string, error) {
	dst := filepath.Join(work, "harness")
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return "", err
	}
	files, _ := filepath.Glob(filepath.Join(verif, "harness", "*.go"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(f)), b, 0o644); err != nil {
			return "", err
		}
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	name := ""
	var rest []string
	for _, ln := range strings.Split(string(mod), "\n") {
		if m, ok := strings.CutPrefix(ln, "module "); ok {
			name = strings.TrimSpace(m)
			continue
		}
		rest = append(rest, ln)
	}
	text := "module vharness\n" + strings.Join(rest, "\n") + fmt.Sprintf("\nrequire %s v0.0.0\nreplace %s => %s\n", name, name, repo)
	if err := os.WriteFile(filepath.Join(dst, "go.mod"), []byte(text), 0o644); err != nil {
		return "", err
	}
	if b, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(dst, "go.sum"), b, 0o644)
	}
	bin := filepath.Join(work, "vharness")
	if race {
		cmd := exec.Command("go", "build", "-race", "-o", bin, ".")
		cmd.Dir = dst
		cmd.Env = append(goEnv(), "CGO_ENABLED=1")
		if cmd.Run() == nil {
			return bin, nil
		}
	}
	cmd := exec.Command("go", "build", "-o", bin, ".")
	cmd.Dir = dst
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

func runHarness(bin, prop string, seed int, budget time.Duration, repo, work string, focus []string) (*harnessReport, error) {
	rep, crash, err := runHarness1(bin, prop, seed, budget, repo, work, focus, prop == "C23")
	if err != nil && crash != "" && prop != "C23" {
		// the process died: once more, with the running cases on record
		rep, crash, err = runHarness1(bin, prop, seed, budget, repo, work, focus, true)
	}
	if err != nil && crash != "" {
		var in strings.Builder
		for i := 0; i < 64; i++ {
			if b, e := os.ReadFile(filepath.Join(work, fmt.Sprintf("case%d", i))); e == nil {
				fmt.Fprintf(&in, "running when the process ended:\n%s\n\n", b)
			}
		}
		return &harnessReport{Failed: true, Message: crash, Input: in.String()}, nil
	}
	return rep, err
}

// runHarness1 runs the search once. A crash is the message of a failure which
// ended the process.
func runHarness1(bin, prop string, seed int, budget time.Duration, repo, work string, focus []string, trace bool) (*harnessReport, string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), budget+60*time.Second)
	defer cancel()
	args := []string{"-prop", prop, "-seed", strconv.Itoa(seed), "-budget", budget.String(), "-repo", repo, "-focus", strings.Join(focus, ",")}
	if trace {
		args = append(args, "-trace", work)
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "TMPDIR="+work, "GORACE=halt_on_error=1 exitcode=66")
	cmd.WaitDelay = 2 * time.Second
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var rep harnessReport
	lines := strings.Split(strings.TrimSpace(so.String()), "\n")
	if e := json.Unmarshal([]byte(lines[len(lines)-1]), &rep); e != nil {
		crash := ""
		for _, m := range []string{"WARNING: DATA RACE", "fatal error: concurrent map", "fatal error: stack overflow", "goroutine stack exceeds", "fatal error: all goroutines are asleep"} {
			if i := strings.Index(se.String(), m); i >= 0 {
				crash = head(se.String()[i:], 4000)
				break
			}
		}
		return nil, crash, fmt.Errorf("no report (%v): %s", err, tail(se.String(), 4000))
	}
	return &rep, "", nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func relevant(f *Failure, prop string) bool {
	if len(f.Tags) == 0 {
		return true
	}
	for _, t := range f.Tags {
		if t == prop {
			return true
		}
	}
	return false
}

// safeVerify turns a crash of the translator into a failed translation.
func safeVerify(g *Gen, roots []string, spec, work string, deadline time.Time, locals map[string][]string) (o *Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			o, err = nil, fmt.Errorf("translation failed: %v", r)
		}
	}()
	return g.Verify(roots, spec, work, deadline, locals)
}

func runCheck(repo, verif, prop, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if tier != "thorough" {
		tier = "quick"
	}
	work, err := os.MkdirTemp("", "govx-"+prop+"-")
	fatal(err)
	defer os.RemoveAll(work)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	replay := filepath.Join(verif, "evidence", "replay-"+prop+".txt")
	os.Remove(replay)

	type hb struct {
		bin string
		err error
	}
	hch := make(chan hb, 1)
	go func() {
		b, err := buildHarness(repo, verif, work, prop == "C23")
		hch <- hb{b, err}
	}()

	proofBudget, audit, search := 240*time.Second, 4*time.Second, 75*time.Second
	if tier == "thorough" {
		proofBudget, audit, search = 420*time.Second, 120*time.Second, 240*time.Second
	}
	o := &Outcome{Unsupported: map[string]string{}}
	var g *Gen
	prog, err := LoadProgram(repo, filepath.Join(verif, "clients"))
	if err != nil {
		o.Failures = append(o.Failures, &Failure{Fn: "all", Kind: "translation", Desc: "the source cannot be loaded: " + err.Error()})
	} else {
		cs, err := LoadContracts(filepath.Join(verif, "contracts"))
		fatal(err)
		roots := cs.Props[prop]
		cs = cs.Scope(roots)
		if cs.Eff[prop] {
			cs = cs.Effects()
		}
		g = NewGen(prog, cs)
		g.eff = cs.Eff[prop]
		if len(roots) == 0 {
			fatal(fmt.Errorf("property %s has no contracts", prop))
		}
		o, err = safeVerify(g, roots, filepath.Join(verif, "spec"), work, time.Now().Add(proofBudget), loadLocals(verif))
		if err != nil {
			o = &Outcome{Unsupported: map[string]string{}, Failures: []*Failure{{Fn: "all", Kind: "translation", Desc: err.Error()}}}
		}
	}
	var fails []*Failure
	for _, f := range o.Failures {
		if relevant(f, prop) {
			fails = append(fails, f)
		}
	}
	var dead []string
	if tier == "thorough" && len(o.Failures) == 0 && g != nil {
		// every function must be able to reach its end under its contract
		g2 := NewGen(prog, g.cs)
		g2.canary, g2.eff = true, g.eff
		w2 := filepath.Join(work, "canary")
		os.MkdirAll(w2, 0o755)
		if o2, err := g2.Verify(g.cs.Props[prop], filepath.Join(verif, "spec"), w2, time.Now().Add(proofBudget), loadLocals(verif)); err == nil {
			bad := map[string]bool{}
			for _, f := range o2.Failures {
				bad[f.Fn] = true
			}
			for _, k := range o2.Cone {
				if !bad[k] && !g.isAssumed(k) {
					dead = append(dead, k)
					fails = append(fails, &Failure{Fn: k, Kind: "vacuity", Desc: "no path through the function satisfies its assumptions"})
				}
			}
		}
	}
	var focus []string
	for _, f := range fails {
		focus = append(focus, f.Fn)
	}
	budget := audit
	if len(fails) > 0 {
		budget = search
	}
	h := <-hch
	var rep *harnessReport
	harnessErr := ""
	if h.err != nil {
		harnessErr = h.err.Error()
	} else {
		rep, err = runHarness(h.bin, prop, seed, budget, repo, work, uniq(focus))
		if err != nil {
			harnessErr = err.Error()
		}
	}
	code := 0
	violations := 0
	switch {
	case rep != nil && rep.Failed:
		code, violations = 1, 1
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: violation replayed against the real code\n\n%s\n\ninput:\n%s\n", prop, rep.Message, rep.Input)
		writeObligations(&sb, fails)
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Printf("%s\n", rep.Message)
		for i, f := range fails {
			if i < 8 {
				fmt.Println("failed obligation:", f)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	case len(fails) > 0:
		code, violations = 1, len(fails)
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: obligations not discharged; no failing input found\n", prop)
		if harnessErr != "" {
			fmt.Fprintf(&sb, "search for a failing input: %s\n", harnessErr)
		}
		writeObligations(&sb, fails)
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for i, f := range fails {
			if i < 8 {
				fmt.Println("failed obligation:", f)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
	case rep == nil:
		// every obligation is discharged; only the audit could not run
		fmt.Println("note: the bounded audit did not run:", harnessErr)
	}
	if rep != nil {
		for _, k := range rep.Known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		}
	}
	cov := map[string]interface{}{
		"obligations":                   o.Obligations,
		"discharged":                    o.Discharged,
		"checker_cmd":                   "verus vc.rs --output-json --time --rlimit (back end: Z3 bundled with Verus)",
		"smt_ms":                        o.SmtMs,
		"verifier_wall_s":               o.VerusTime.Seconds(),
		"verifier_runs":                 o.Runs,
		"verified_by_verus":             o.Verified,
		"precondition_canaries_refuted": o.Canaries - len(o.DeadCanary),
	}
	var assumptions []string
	if g != nil {
		var under, inl []string
		trusted := map[string]bool{}
		for _, k := range o.Cone {
			if g.isAssumed(k) {
				trusted[k] = true
			} else {
				under = append(under, k)
			}
			for x := range g.extUsed[k] {
				trusted["ext:"+x] = true
			}
			for x := range g.inlined[k] {
				inl = append(inl, x)
			}
		}
		sort.Strings(under)
		sort.Strings(inl)
		cov["functions_under_contract"] = under
		cov["functions_inlined"] = uniq(inl)
		per := map[string]int{}
		for _, k := range under {
			per[k] = o.Obls[k]
		}
		cov["obligations_per_function"] = per
		tb := []string{"Verus and Z3", "govx translation of the Go source (what it drops is listed in DESIGN.md)", "spec/*.rs definitions of Go strings, UTF-8 and maps"}
		for _, k := range sortedKeys(trusted) {
			tb = append(tb, "assumed: "+k)
		}
		cov["trusted_base"] = tb
	} else {
		cov["trusted_base"] = []string{"Verus and Z3"}
	}
	if rep != nil {
		cov["bounded_audit_evaluations"] = rep.Evaluations
		cov["bounded_audit_distinct"] = rep.Distinct
		cov["bounded_audit_rule"] = rep.Rule + " (bounded: never counted as proved)"
		cov["bounded_audit_samples"] = rep.Samples
	}
	assumptions = append(assumptions,
		"int arithmetic is mathematical: no int64 overflow",
		"callbacks given by the caller terminate, do not panic and are functions of their arguments",
		"interface values are nil or one of the implementations in the module",
		"storage is not aliased between the caller and the library beyond what the ownership checks of govx cover; no concurrent mutation")
	if prop == "C21" || prop == "C23" {
		assumptions = append(assumptions, "regexp, regexp2 and math/rand are safe for concurrent use, as documented, and matching does not depend on earlier calls",
			"objects shared between calls are those reachable from components and globals by the types of their fields; texts and callbacks belong to one call")
	}
	if len(dead) > 0 {
		cov["vacuous"] = dead
	}
	ev := evidence{Property: prop, Tier: tier, Seed: seed, Level: "proof", Coverage: cov, Assumptions: assumptions, WallS: time.Since(t0).Seconds(), Violations: violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	fatal(os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644))
	fmt.Printf("%s: %d obligations, %d discharged, %d functions verified, %.1fs\n", prop, o.Obligations, o.Discharged, o.Verified, time.Since(t0).Seconds())
	return code
}

func writeObligations(sb *strings.Builder, fails []*Failure) {
	for _, f := range fails {
		fmt.Fprintf(sb, "\nfailed obligation: %s\n  kind: %s\n  %s\n%s\n", f, f.Kind, f.Msg, f.Rendered)
	}
}

// isAssumed reports whether the contract of k is not proved from a body.
func (g *Gen) isAssumed(k string) bool {
	c := g.cs.M[k]
	return c == nil || c.Trusted || c.Kind == "functype" || c.Kind == "iface" || strings.HasPrefix(k, "ext:")
}
