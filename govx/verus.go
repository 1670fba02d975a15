package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"syscall"
	"time"
)

type span struct {
	LineStart int    `json:"line_start"`
	LineEnd   int    `json:"line_end"`
	Primary   bool   `json:"is_primary"`
	Label     string `json:"label"`
}

type diag struct {
	Level    string `json:"level"`
	Message  string `json:"message"`
	Spans    []span `json:"spans"`
	Rendered string `json:"rendered"`
	Code     *struct {
		Code string `json:"code"`
	} `json:"code"`
}

type VerusResult struct {
	Verified, Errors int
	VirError         bool
	Success          bool
	Diags            []diag
	Raw              string
	Dur              time.Duration
	SmtMs            int64
	Funcs            int
	Timeout          bool
}

func runVerus(file string, args []string, timeout time.Duration) *VerusResult {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	a := append([]string{file, "--output-json", "--error-format=json", "--time"}, args...)
	cmd := exec.CommandContext(ctx, "verus", a...)
	cmd.WaitDelay = 2 * time.Second
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) } // its solvers too
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	t0 := time.Now()
	runErr := cmd.Run()
	r := &VerusResult{Dur: time.Since(t0)}
	if ctx.Err() != nil {
		r.Timeout = true
	}
	sc := bufio.NewScanner(&se)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		ln := sc.Text()
		var d diag
		if json.Unmarshal([]byte(ln), &d) == nil && d.Level != "" {
			if d.Level == "error" && !strings.HasPrefix(d.Message, "aborting due to") {
				r.Diags = append(r.Diags, d)
			}
			continue
		}
		r.Raw += ln + "\n"
	}
	var out struct {
		FD map[string]json.RawMessage `json:"func-details"`
		VR struct {
			EE  bool `json:"encountered-error"`
			VE  bool `json:"encountered-vir-error"`
			S   bool `json:"success"`
			Ver int  `json:"verified"`
			Err int  `json:"errors"`
		} `json:"verification-results"`
		Times struct {
			SMT struct {
				Total int64 `json:"total"`
			} `json:"smt"`
		} `json:"times-ms"`
	}
	if err := json.Unmarshal(so.Bytes(), &out); err != nil {
		r.VirError = true
		r.Raw += "no result: " + err.Error() + "\n"
		if runErr != nil {
			r.Raw += runErr.Error() + "\n"
		}
		return r
	}
	r.Verified, r.Errors, r.VirError, r.Success = out.VR.Ver, out.VR.Err, out.VR.VE, out.VR.S
	r.SmtMs = out.Times.SMT.Total
	r.Funcs = len(out.FD)
	if !r.Success && r.Errors == 0 {
		r.VirError = true
	}
	return r
}

// Failure is a failed obligation.
type Failure struct {
	Fn, Kind, Src, Desc, Msg string
	Tags                     []string
	Rendered                 string
}

func (x *Failure) String() string {
	s := x.Fn + ": " + x.Desc
	if x.Src != "" {
		s += " [" + x.Src + "]"
	}
	return s
}

// failures maps the diagnostics of a run to obligations. Canaries are
// expected to fail and are returned apart.
func (g *Gen) failures(r *VerusResult) (fs []*Failure, canaries map[string]bool) {
	canaries = map[string]bool{}
	for _, d := range r.Diags {
		var prim *LineInfo
		var all []*LineInfo
		for _, s := range d.Spans {
			li := g.info[s.LineStart]
			if li == nil {
				continue
			}
			all = append(all, li)
			if s.Primary && prim == nil {
				prim = li
			}
		}
		if prim == nil && len(all) > 0 {
			prim = all[0]
		}
		if prim != nil && prim.Kind == "canary" {
			canaries[prim.Fn] = true
			continue
		}
		f := &Failure{Msg: d.Message, Rendered: d.Rendered}
		if prim == nil {
			f.Fn, f.Desc = "unknown", d.Message
			fs = append(fs, f)
			continue
		}
		f.Fn, f.Kind, f.Src, f.Desc, f.Tags = prim.Fn, prim.Kind, prim.Src, prim.Desc, prim.Tags
		best := prim
		for _, li := range all {
			switch li.Kind {
			case "ensures", "inv", "ens":
				if li.Fn == prim.Fn {
					best = li
				}
			case "requires":
				if best == prim {
					best = li
				}
			}
		}
		if best != prim {
			f.Tags = best.Tags
			f.Desc = best.Desc
			if best.Kind == "requires" {
				f.Desc = "call of " + best.Fn + ": " + best.Desc
				f.Kind = "call"
			} else {
				f.Kind = best.Kind
			}
			if prim.Src != "" {
				f.Src = prim.Src + ", " + best.Src
			} else {
				f.Src = best.Src
			}
		}
		if f.Desc == "" {
			f.Desc = d.Message
		}
		fs = append(fs, f)
	}
	return
}

type Outcome struct {
	Cone        []string
	Failures    []*Failure
	Unsupported map[string]string
	Verified    int // functions accepted by the verifier
	Obligations int
	Discharged  int
	Runs        int
	SmtMs       int64
	VerusTime   time.Duration
	Canaries    int
	DeadCanary  []string
	Assumed     []string
	File        string
	Obls        map[string]int
}

// Verify generates the obligations of a property from the current source and
// lets the verifier decide them.
func (g *Gen) Verify(roots []string, specDir, work string, deadline time.Time, baseLocals map[string][]string) (*Outcome, error) {
	o := &Outcome{Unsupported: map[string]string{}}
	forced := map[string]string{}
	file := work + "/vc.rs"
	o.File = file
	var cone []string
	gen := func() error {
		for k := 0; k < 3; k++ {
			g.reset()
			g.failed = map[string]string{}
			for f, r := range forced {
				g.failed[f] = r
			}
			var err error
			cone, err = g.Generate(roots, specDir)
			if err == errHeapGrew {
				continue
			}
			if err != nil {
				return err
			}
			break
		}
		return os.WriteFile(file, []byte(g.out.String()), 0o644)
	}
	var res *VerusResult
	for round := 0; round < 8; round++ {
		if err := gen(); err != nil {
			return nil, err
		}
		if round == 0 && g.computeRenames(baseLocals) {
			if err := gen(); err != nil {
				return nil, err
			}
		}
		left := time.Until(deadline)
		if left < 5*time.Second {
			break
		}
		res = runVerus(file, []string{"--multiple-errors", "8", "--rlimit", "40", "--num-threads", "8"}, left)
		o.Runs++
		o.SmtMs += res.SmtMs
		o.VerusTime += res.Dur
		if !res.VirError {
			break
		}
		// the translation does not compile: drop the proof steps of the
		// functions concerned, then the functions themselves
		progress := false
		for _, d := range res.Diags {
			fn := ""
			for _, s := range d.Spans {
				if li := g.info[s.LineStart]; li != nil && s.Primary {
					fn = li.Fn
				}
			}
			if fn == "" || g.cs.M[fn] == nil && !strings.Contains(fn, "<:") {
				continue
			}
			if !g.noHooks[fn] {
				g.noHooks[fn] = true
				progress = true
			} else if forced[fn] == "" {
				forced[fn] = "its translation is rejected: " + d.Message
				progress = true
			}
		}
		if os.Getenv("GOVX_DEBUG") != "" {
			for _, d := range res.Diags {
				fmt.Fprintln(os.Stderr, d.Rendered)
			}
			fmt.Fprintln(os.Stderr, res.Raw)
		}
		if !progress {
			break
		}
	}
	o.Cone = cone
	for k, v := range g.failed {
		o.Unsupported[k] = v
		o.Failures = append(o.Failures, &Failure{Fn: k, Kind: "translation", Desc: "the function cannot be brought under its contract: " + v})
	}
	for f := range g.noHooks {
		if g.failed[f] == "" {
			o.Unsupported[f] = "proof steps no longer apply"
		}
	}
	if res == nil || res.VirError || res.Timeout {
		msg := "the verifier gave no answer"
		rendered := ""
		if res != nil {
			rendered = res.Raw
			for _, d := range res.Diags {
				rendered += d.Rendered + "\n"
			}
			if res.Timeout {
				msg = "the verifier ran out of time"
			}
		}
		o.Failures = append(o.Failures, &Failure{Fn: "all", Kind: "verifier", Desc: msg, Rendered: rendered})
		return o, nil
	}
	fs, can := g.failures(res)
	if left := time.Until(deadline); len(fs) > 0 && len(g.failed) == 0 && left > 20*time.Second && !g.canary && os.Getenv("GOVX_NORETRY") == "" {
		// A proof which the solver did not find is looked for once more, each
		// function in a solver of its own. A function is at fault only if both
		// runs fail on it.
		res2 := runVerus(file, []string{"--multiple-errors", "8", "--rlimit", "80", "--num-threads", "8", "-V", "spinoff-all", "--smt-option", "smt.random_seed=7"}, left)
		o.Runs++
		o.SmtMs += res2.SmtMs
		o.VerusTime += res2.Dur
		if !res2.VirError && !res2.Timeout {
			fs2, can2 := g.failures(res2)
			again := map[string]bool{}
			for _, f := range fs2 {
				again[f.Fn] = true
			}
			var keep []*Failure
			gone := map[string]bool{}
			for _, f := range fs {
				if again[f.Fn] {
					keep = append(keep, f)
				} else {
					gone[f.Fn] = true
				}
			}
			fs = keep
			res.Verified += len(gone)
			for k := range can2 {
				can[k] = true
			}
		}
	}
	o.Failures = append(o.Failures, fs...)
	o.Verified = res.Verified
	o.Canaries = len(g.canaries)
	for k := range g.canaries {
		if !can[k] {
			o.DeadCanary = append(o.DeadCanary, k)
			o.Failures = append(o.Failures, &Failure{Fn: k, Kind: "vacuity", Desc: "the precondition of the contract is contradictory"})
		}
	}
	sort.Strings(o.DeadCanary)
	for _, n := range g.obls {
		o.Obligations += n
	}
	o.Obls = g.obls
	o.Discharged = o.Obligations - len(fs)
	if o.Discharged < 0 {
		o.Discharged = 0
	}
	return o, nil
}

// computeRenames compares the local variables of each function with those it
// had when the contracts were written, and follows renamed ones.
func (g *Gen) computeRenames(base map[string][]string) bool {
	any := false
	g.gone = map[string]map[string]bool{}
	g.base = map[string]map[string]string{}
	g.baseChanged = map[string]map[string]bool{}
	split := func(xs []string) (ns, ts []string) {
		for _, x := range xs {
			n, t, _ := strings.Cut(x, " ")
			ns, ts = append(ns, n), append(ts, strings.TrimSuffix(t, " *"))
		}
		return
	}
	for k, o := range base {
		cur := g.locals[k]
		if cur == nil {
			continue
		}
		old, oldT := split(o)
		now, nowT := split(*cur)
		have, was := map[string]string{}, map[string]string{}
		for i, n := range now {
			have[n] = nowT[i]
		}
		for i, n := range old {
			was[n] = oldT[i]
		}
		g.base[k] = was
		ch := map[string]bool{}
		for i, n := range old {
			ch[n] = ch[n] || strings.HasSuffix(o[i], " *")
		}
		g.baseChanged[k] = ch
		rn := map[string]string{}
		if len(now) == len(old) {
			for i := range old {
				if _, there := have[old[i]]; old[i] != now[i] && !there {
					if _, before := was[now[i]]; !before && oldT[i] == nowT[i] {
						rn[old[i]] = now[i]
					}
				}
			}
		}
		if len(rn) == 0 {
			var gone, added []string
			for _, n := range uniq(old) {
				if _, ok := have[n]; !ok {
					gone = append(gone, n)
				}
			}
			for _, n := range uniq(now) {
				if _, ok := was[n]; !ok {
					added = append(added, n)
				}
			}
			byType := func(xs []string, ty map[string]string, t string) (out []string) {
				for _, x := range xs {
					if ty[x] == t {
						out = append(out, x)
					}
				}
				return
			}
			for _, n := range gone {
				gs, as := byType(gone, was, was[n]), byType(added, have, was[n])
				if len(gs) == len(as) {
					for i := range gs {
						rn[gs[i]] = as[i]
					}
				}
			}
			if len(rn) == 0 && len(gone) == len(added) {
				for i := range gone {
					rn[gone[i]] = added[i]
				}
			}
		}
		if len(rn) > 0 {
			g.renames[k] = rn
			any = true
		}
		for _, n := range old {
			if _, ok := have[n]; !ok && rn[n] == "" {
				if g.gone[k] == nil {
					g.gone[k] = map[string]bool{}
				}
				g.gone[k][n] = true
				any = true
			}
		}
		if len(now) != len(old) {
			any = true
		}
	}
	return any
}

func uniq(xs []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}
