package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	Tags []string
	Text string
	Src  string
}

type LoopSpec struct {
	Inv, InvNB, Ens []Clause
	Eff             []Clause // invariants for the check of effects
	Dec             string
	Hooks           map[string]string
	With            string      // this specification is for code which has this local
	Alts            []*LoopSpec // specifications for other ways to write the loop
}

type CallSpec struct{ Before, After string }

type Mod struct {
	Type  string // heap type name
	At    string // ref expression; "" with Alloc
	Set   bool   // At is a set or a sequence of refs
	Alloc bool
	Trace bool
	Any   bool // anything may change
}

type Contract struct {
	Kind     string // func, functype, iface, closure
	Key      string
	Params   []string
	Src      string
	Mods     []Mod
	Requires []Clause
	Ensures  []Clause
	Returns  []string
	RetTags  []string
	Loops    map[int]*LoopSpec
	Calls    map[string]*CallSpec // "key#n"
	Start    string
	Return   string
	Trusted  bool
	Inline   bool
	Fresh    bool
	Denotes  string
	CbName   string // functype: name of the ghost function
	CbType   string
	Attrs    []string
	Rlimit   int
	Eff      []Clause // what callers learn when only effects are checked
	Keep     []Clause // facts every loop keeps; its presence isolates the loops
	Props    []string
	NilRecv  bool
	Measure  string // decreases along recursion
	File     string
}

type Contracts struct {
	M     map[string]*Contract
	Raw   string              // raw verus text blocks
	RawBy map[string]string   // the same, per file
	Needs map[string][]string // file -> files it uses
	Types map[string]string
	Props map[string][]string // property -> roots
	Eff   map[string]bool     // properties about effects only
	Deps  map[string][]string // contract -> others its specification relies on
	Files []string
}

var tagRE = regexp.MustCompile(`^\[([A-Za-z0-9_, ]*)\]\s*`)

func parseTags(s string) ([]string, string) {
	m := tagRE.FindStringSubmatch(s)
	if m == nil {
		return nil, s
	}
	var tags []string
	for _, t := range strings.Split(m[1], ",") {
		t = strings.TrimSpace(t)
		if t != "" {
			tags = append(tags, t)
		}
	}
	return tags, s[len(m[0]):]
}

func balance(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			n++
		case ')', ']', '}':
			n--
		}
	}
	return n
}

func continues(s string) bool {
	s = strings.TrimSpace(s)
	for _, op := range []string{"==>", "<==>", "&&", "||", "==", "+ "} {
		if strings.HasPrefix(s, op) {
			return true
		}
	}
	return false
}

func unfinished(s string) bool {
	s = strings.TrimSpace(s)
	for _, op := range []string{"==>", "<==>", "&&", "||", "==", "+"} {
		if strings.HasSuffix(s, op) {
			return true
		}
	}
	return false
}

func stripComment(s string) string {
	if i := strings.Index(s, "//"); i >= 0 {
		return s[:i]
	}
	return s
}

func LoadContracts(dir string) (*Contracts, error) {
	cs := &Contracts{M: map[string]*Contract{}, Types: map[string]string{}, Props: map[string][]string{}, Deps: map[string][]string{}, RawBy: map[string]string{}, Needs: map[string][]string{}, Eff: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvx"))
	sort.Strings(files)
	for _, f := range files {
		cs.Files = append(cs.Files, f)
		if err := cs.parse(f); err != nil {
			return nil, err
		}
	}
	// effects are checked for every function under contract
	for p := range cs.Eff {
		for _, k := range sortedKeys(cs.M) {
			if c := cs.M[k]; c.Kind == "func" && !strings.HasPrefix(k, "ext:") && !c.Inline {
				cs.Props[p] = append(cs.Props[p], k)
			}
		}
	}
	return cs, nil
}

// Scope keeps the contract files which declare the given roots and those they
// need, so that a change elsewhere cannot disturb the proof.
func (cs *Contracts) Scope(roots []string) *Contracts {
	in := map[string]bool{}
	var add func(f string)
	add = func(f string) {
		if !in[f] {
			in[f] = true
			for _, n := range cs.Needs[f] {
				add(n)
			}
		}
	}
	for _, r := range roots {
		if c := cs.M[r]; c != nil {
			add(c.File)
		}
	}
	out := &Contracts{M: map[string]*Contract{}, Types: cs.Types, Props: cs.Props, Deps: cs.Deps, RawBy: cs.RawBy, Needs: cs.Needs, Files: cs.Files, Eff: cs.Eff}
	for k, c := range cs.M {
		if in[c.File] {
			out.M[k] = c
		}
	}
	for _, f := range cs.Files {
		if st := strings.TrimSuffix(filepath.Base(f), ".gvx"); in[st] {
			out.Raw += cs.RawBy[st]
		}
	}
	return out
}

// Effects turns the contracts into statements about effects only: what a
// function may write to. Preconditions, functional postconditions, loop
// invariants and proof steps are gone.
func (cs *Contracts) Effects() *Contracts {
	out := *cs
	out.M = map[string]*Contract{}
	out.Deps = map[string][]string{}
	for k, c := range cs.M {
		if c.Kind == "closure" {
			continue
		}
		n := *c
		n.Requires, n.Ensures, n.Keep, n.RetTags = nil, c.Eff, nil, nil
		n.Loops, n.Calls, n.Start, n.Return = map[int]*LoopSpec{}, map[string]*CallSpec{}, "", ""
		for i, l := range c.Loops {
			if len(l.Eff) > 0 {
				n.Loops[i] = &LoopSpec{Inv: l.Eff, Hooks: map[string]string{}}
			}
		}
		if len(c.Mods) > 0 {
			n.Mods = append([]Mod{{Any: true}}, c.Mods...)
		}
		out.M[k] = &n
	}
	var sb strings.Builder
	sb.WriteString(assumeLemmas(cs.Raw))
	out.Raw = sb.String()
	return &out
}

var lemmaRE = regexp.MustCompile(`^\s*(?:pub )?(?:broadcast )?proof fn `)

// assumeLemmas keeps the statements of lemmas and skips their proofs, which
// are checked with the properties that use them.
func assumeLemmas(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if lemmaRE.MatchString(l) && !(i > 0 && strings.Contains(ls[i-1], "via_fn")) {
			ls[i] = "#[verifier::external_body] " + l
		}
	}
	return strings.Join(ls, "\n")
}

func (cs *Contracts) parse(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	lines := strings.Split(string(b), "\n")
	base := filepath.Base(file)
	stem := strings.TrimSuffix(base, ".gvx")
	var cur *Contract
	var loop *LoopSpec
	i := 0
	fail := func(msg string) error { return fmt.Errorf("%s:%d: %s", base, i+1, msg) }
	block := func() string {
		var sb strings.Builder
		for i++; i < len(lines); i++ {
			if strings.TrimSpace(lines[i]) == "end" {
				return sb.String()
			}
			sb.WriteString(lines[i] + "\n")
		}
		return sb.String()
	}
	clause := func(rest string, src string) Clause {
		tags, text := parseTags(rest)
		text = stripComment(text)
		for i+1 < len(lines) && (balance(text) > 0 || continues(lines[i+1]) || unfinished(text)) {
			i++
			text += " " + strings.TrimSpace(stripComment(lines[i]))
		}
		return Clause{Tags: tags, Text: strings.TrimSpace(text), Src: src}
	}
	for ; i < len(lines); i++ {
		ln := strings.TrimSpace(stripComment(lines[i]))
		if ln == "" {
			continue
		}
		src := fmt.Sprintf("%s:%d", base, i+1)
		word, rest, _ := strings.Cut(ln, " ")
		rest = strings.TrimSpace(rest)
		if t, ok := strings.CutPrefix(word, "requires["); ok {
			word, rest = "requires", "["+t+" "+rest
		}
		if t, ok := strings.CutPrefix(word, "ensures["); ok {
			word, rest = "ensures", "["+t+" "+rest
		}
		if t, ok := strings.CutPrefix(word, "inv["); ok {
			word, rest = "inv", "["+t+" "+rest
		}
		switch word {
		case "func", "iface", "functype", "closure":
			m := regexp.MustCompile(`^((?:ext:\(\S+\)\.\w+)|[^\s(]+)\s*\(([^)]*)\)\s*(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				return fail("bad header: " + ln)
			}
			cur = &Contract{Kind: word, Key: m[1], Src: src, Loops: map[int]*LoopSpec{}, Calls: map[string]*CallSpec{}}
			for _, p := range strings.Split(m[2], ",") {
				if p = strings.TrimSpace(p); p != "" {
					cur.Params = append(cur.Params, p)
				}
			}
			if m[3] != "" {
				a := strings.SplitN(m[3], ":", 2)
				cur.CbName = strings.TrimSpace(strings.TrimPrefix(a[0], "as"))
				if len(a) == 2 {
					cur.CbType = strings.TrimSpace(a[1])
				}
			}
			if cs.M[cur.Key] != nil {
				return fail("duplicate contract " + cur.Key)
			}
			cur.File = stem
			cs.M[cur.Key] = cur
			loop = nil
		case "property":
			a := strings.Fields(rest)
			cs.Props[a[0]] = append(cs.Props[a[0]], a[1:]...)
		case "effects":
			for _, p := range strings.Fields(rest) {
				cs.Eff[p] = true
			}
		case "measure":
			cur.Measure = clause(rest, src).Text
		case "eff":
			cur.Eff = append(cur.Eff, clause(rest, src))
		case "dep":
			cs.Deps[cur.Key] = append(cs.Deps[cur.Key], strings.Fields(rest)...)
		case "nilrecv":
			cur.NilRecv = true
		case "raw":
			t := block()
			cs.Raw += t
			cs.RawBy[stem] += t
		case "needs":
			cs.Needs[stem] = append(cs.Needs[stem], strings.Fields(rest)...)
		case "modifies":
			for _, m := range strings.Split(rest, ";") {
				m = strings.TrimSpace(m)
				if m == "" {
					continue
				}
				if m == "trace" {
					cur.Mods = append(cur.Mods, Mod{Trace: true})
				} else if m == "*" {
					cur.Mods = append(cur.Mods, Mod{Any: true})
				} else if strings.HasPrefix(m, "+") {
					cur.Mods = append(cur.Mods, Mod{Type: m[1:], Alloc: true})
				} else {
					a := strings.SplitN(m, "@", 2)
					if len(a) != 2 {
						return fail("bad modifies")
					}
					m := Mod{Type: strings.TrimSpace(a[0]), At: strings.TrimSpace(a[1])}
					if strings.HasPrefix(m.At, "@") {
						m.At, m.Set = m.At[1:], true
					}
					cur.Mods = append(cur.Mods, m)
				}
			}
		case "keep":
			cur.Keep = append(cur.Keep, clause(rest, src))
		case "requires":
			cur.Requires = append(cur.Requires, clause(rest, src))
		case "ensures":
			cur.Ensures = append(cur.Ensures, clause(rest, src))
		case "returns":
			c := clause(rest, src)
			cur.RetTags = c.Tags
			t := c.Text
			if strings.HasPrefix(t, "|") { // multiple results separated by |
				for _, x := range strings.Split(t[1:], "|") {
					cur.Returns = append(cur.Returns, strings.TrimSpace(x))
				}
			} else {
				cur.Returns = []string{t}
			}
		case "denotes":
			cur.Denotes = clause(rest, src).Text
		case "end":
			loop = nil
		case "trusted":
			cur.Trusted = true
		case "inline":
			cur.Inline = true
		case "fresh":
			cur.Fresh = true
		case "attr":
			cur.Attrs = append(cur.Attrs, rest)
		case "rlimit":
			cur.Rlimit, _ = strconv.Atoi(rest)
		case "loop":
			num, with, alt := strings.Cut(rest, " with ")
			n, err := strconv.Atoi(num)
			if err != nil {
				return fail("bad loop")
			}
			loop = &LoopSpec{Hooks: map[string]string{}, With: with}
			if !alt {
				cur.Loops[n] = loop
			} else if base := cur.Loops[n]; base != nil {
				base.Alts = append(base.Alts, loop)
			} else {
				return fail("no loop to be an alternative of")
			}
		case "inv":
			loop.Inv = append(loop.Inv, clause(rest, src))
		case "effinv":
			loop.Eff = append(loop.Eff, clause(rest, src))
		case "invnb":
			loop.InvNB = append(loop.InvNB, clause(rest, src))
		case "ens":
			loop.Ens = append(loop.Ens, clause(rest, src))
		case "dec":
			loop.Dec = clause(rest, src).Text
		case "before:", "top:", "bottom:", "after:", "init:":
			if loop == nil {
				return fail("hook outside loop")
			}
			loop.Hooks[strings.TrimSuffix(word, ":")] = block()
		case "start:":
			cur.Start = block()
		case "return:":
			cur.Return = block()
		case "call":
			a := strings.Fields(rest)
			if len(a) != 3 {
				return fail("bad call hook")
			}
			k := a[0] + "#" + a[1]
			if cur.Calls[k] == nil {
				cur.Calls[k] = &CallSpec{}
			}
			t := block()
			if a[2] == "before:" {
				cur.Calls[k].Before = t
			} else {
				cur.Calls[k].After = t
			}
		default:
			return fail("unknown directive: " + ln)
		}
	}
	return nil
}
