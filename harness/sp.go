package main

import (
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
)

var res = []string{`a+`, `x*`, `\s+`, `\w+|[^\w\s]+`, `[^a]`, `^a|a$`, `(a)(b)?`, `é|😀`, `$`, `(?m)^`, `a?`, `.`, `(?s).`, `\b`, `aa|a`, `[[:punct:]]`, `\p{L}+`, `(?i)A`, `zzz`, ``, `(?s).+`, `b|`, "\uFFFD"}

// No expression starts with a literal of two characters: the engine itself
// panics on those (Boyer-Moore tables) when the text leaves the BMP.
var res2 = []string{`a+`, `x*`, `\s+`, `\w+|[^\w\s]+`, `[^a]`, `(?<=a).`, `(?!a).`, `a(?=b)`, `é|😀`, `$`, `\b`, `aa|a`, `\p{L}+`, ` ?\p{L}+|\s+(?!\S)|\s+`, `z(?=z)`, ``, `b|`, `(?s).+`, `(.)\1`, `'s|'t| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`, "\uFFFD"}

var res2opts = []regexp2.RegexOptions{0, regexp2.IgnoreCase | regexp2.Multiline, regexp2.Singleline, regexp2.RightToLeft}

var cRes []*regexp.Regexp
var cRes2 []*regexp2.Regexp

func init() {
	for _, r := range res {
		cRes = append(cRes, regexp.MustCompile(r))
	}
	for _, r := range res2 {
		for _, o := range res2opts {
			c := regexp2.MustCompile(r, o)
			if m, _ := c.MatchString(""); o == regexp2.RightToLeft && (m || strings.ContainsAny(r, "*$") || r == `\b`) {
				// The engine never ends the enumeration of empty
				// matches from right to left.
				continue
			}
			cRes2 = append(cRes2, regexp2.MustCompile(r, o))
		}
	}
}

// capsOf tiles the text around the given matches.
func capsOf(s string, ms []span) (caps []splitpattern.Capture) {
	if s == "" {
		return []splitpattern.Capture{mkCap(0, 0, false)}
	}
	prev := 0
	for _, m := range ms {
		if m.s > prev {
			caps = append(caps, mkCap(prev, m.s, false))
		}
		caps = append(caps, mkCap(m.s, m.e, true))
		prev = m.e
	}
	if prev < len(s) {
		caps = append(caps, mkCap(prev, len(s), false))
	}
	return
}

func re2Spans(r *regexp2.Regexp, s string) (ms []span) {
	off := []int{}
	for i := range s {
		off = append(off, i)
	}
	off = append(off, len(s))
	m, err := r.FindRunesMatch(runesOf(s))
	for m != nil && err == nil {
		ms = append(ms, span{off[m.Index], off[m.Index+m.Length]})
		m, err = r.FindNextMatch(m)
	}
	if r.RightToLeft() {
		for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
			ms[i], ms[j] = ms[j], ms[i]
		}
	}
	return
}

func reSpans(r *regexp.Regexp, s string) (ms []span) {
	for _, m := range r.FindAllStringIndex(s, -1) {
		ms = append(ms, span{m[0], m[1]})
	}
	return
}

func litSpans(lit, s string) (ms []span) {
	if lit == "" {
		return
	}
	for i := 0; ; {
		j := strings.Index(s[i:], lit)
		if j < 0 {
			return
		}
		ms = append(ms, span{i + j, i + j + len(lit)})
		i += j + len(lit)
	}
}

func (t *T) genLiteral(s string) string {
	if bs := boundaries(s); len(bs) > 2 && !t.pick(3) {
		i := t.Intn(len(bs) - 1)
		j := i + 1 + t.Intn(3)
		if j >= len(bs) {
			j = len(bs) - 1
		}
		return s[bs[i]:bs[j]]
	}
	if t.pick(6) {
		return ""
	}
	if t.pick(4) {
		return []string{".", "a.", "*", "(", `\`, "[a]", "a|b", "^", "$"}[t.Intn(9)]
	}
	return t.genShort(true)
}

// genSP draws a built-in pattern with the captures which it must give.
func (t *T) genSP(s string) (string, splitpattern.SplitPattern, func(string) []splitpattern.Capture) {
	switch t.Intn(6) {
	case 0:
		n, p := t.genPred()
		return "FromFunc(" + n + ")", splitpattern.FromFunc(p), func(s string) []splitpattern.Capture { return predCaps(s, p) }
	case 1:
		r := t.genRune()
		if rs := []rune(s); len(rs) > 0 && !t.pick(4) {
			r = rs[t.Intn(len(rs))]
		}
		return fmt.Sprintf("FromRune(%q)", r), splitpattern.FromRune(r), func(s string) []splitpattern.Capture {
			return predCaps(s, func(x rune) bool { return x == r })
		}
	case 2:
		lit := t.genLiteral(s)
		if !utf8.ValidString(lit) || strings.Contains(lit, "\uFFFD") {
			lit = "a"
		}
		return fmt.Sprintf("FromString(%q)", lit), splitpattern.FromString(lit), func(s string) []splitpattern.Capture { return capsOf(s, litSpans(lit, s)) }
	case 3:
		r := cRes[t.Intn(len(cRes))]
		return fmt.Sprintf("FromRegexp(%q)", r), splitpattern.FromRegexp(r), func(s string) []splitpattern.Capture { return capsOf(s, reSpans(r, s)) }
	case 4:
		r := cRes2[t.Intn(len(cRes2))]
		return fmt.Sprintf("FromRegexp2(%q, right-to-left %v)", r, r.RightToLeft()), splitpattern.FromRegexp2(r), func(s string) []splitpattern.Capture { return capsOf(s, re2Spans(r, s)) }
	default:
		if t.pick(6) {
			caps := t.genTiling(s)
			return fmt.Sprintf("Invert(%v)", caps), splitpattern.Invert(listPattern{caps: caps}), func(string) []splitpattern.Capture { return flip(caps) }
		}
		n, p, c := t.genSP(s)
		return "Invert(" + n + ")", splitpattern.Invert(p), func(s string) []splitpattern.Capture { return flip(c(s)) }
	}
}

func flip(caps []splitpattern.Capture) (out []splitpattern.Capture) {
	for _, c := range caps {
		out = append(out, mkCap(c.Offsets.Start, c.Offsets.End, !c.IsMatch))
	}
	return
}

func checkC08(s string, t *T) {
	t.in("text %q", s)
	n, p, f := t.genSP(s)
	t.in("%s", n)
	for k := 0; k < 2; k++ {
		want := f(s)
		caps, err := p.FindMatches(s)
		if err != nil {
			t.failf("FindMatches fails: %v", err)
		}
		pos := 0
		for _, c := range caps {
			if c.Offsets.Start != pos || c.Offsets.End < pos {
				t.failf("the captures %v are not contiguous", caps)
			}
			pos = c.Offsets.End
		}
		if pos != len(s) || len(caps) == 0 {
			t.failf("the captures %v do not cover the %d bytes", caps, len(s))
		}
		if !reflect.DeepEqual(caps, want) {
			t.failf("the captures are %v, expected %v", caps, want)
		}
	}
	if t.pick(50) {
		// the engine gives up on the run of a's: at the first match if the
		// text starts with it, after a match otherwise
		r := regexp2.MustCompile("x|(a|aa)+$", 0)
		r.MatchTimeout = 2 * time.Millisecond
		q := strings.Repeat("x", t.Intn(3)) + strings.Repeat("a", 48) + "b"
		t.in("regexp2 %q with a time limit, text %q", r, q)
		var p splitpattern.SplitPattern = splitpattern.FromRegexp2(r)
		if t.pick(2) {
			p = splitpattern.Invert(p)
		}
		if caps, err := p.FindMatches(q); err == nil {
			t.failf("the expression runs out of time, and FindMatches gives %v without an error", caps)
		}
	}
	if t.pick(50) {
		if caps, err := splitpattern.Invert(listPattern{err: errors.New("x")}).FindMatches(s); err == nil || caps != nil {
			t.failf("Invert loses the error of its pattern")
		}
	}
}

var propC08 = property{
	rule: "every text of at most 4 symbols over {a, space, é, 😀, malformed byte} and random texts, each with random built-in patterns",
	enum: func(run func(func(*T))) {
		smallTexts(alpha5, 4, func(s string) {
			for k := 0; k < 12; k++ {
				run(func(t *T) { checkC08(s, t) })
			}
		})
	},
	random: func(t *T) {
		s := t.genText(t.pick(2))
		if t.pick(300) {
			s = t.long(s, 3000)
		}
		checkC08(s, t)
	},
}
