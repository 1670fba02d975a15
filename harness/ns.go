package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

type NS = normalizedstring.NormalizedString

func nr(a, b int) normalizedstring.NormalizedRange { return normalizedstring.NewNormalizedRange(a, b) }
func or(a, b int) normalizedstring.OriginalRange   { return normalizedstring.NewOriginalRange(a, b) }

type span struct{ s, e int }

// view is what can be observed of a normalized string.
type view struct {
	text, orig string
	shift      int
	al         []span
}

func (t *T) look(ns *NS) view {
	v := view{text: ns.Get(), orig: ns.GetOriginal(), shift: ns.OriginalOffsets().Start}
	for i := range []byte(v.text) {
		r, ok := ns.CoerceRangeToOriginal(nr(i, i+1))
		if !ok {
			t.failf("byte %d of %q has no source range", i, v.text)
		}
		v.al = append(v.al, span{r.Start(), r.End()})
	}
	return v
}

func (v view) String() string {
	return fmt.Sprintf("%q (from %q+%d, %v)", v.text, v.orig, v.shift, v.al)
}

func (v view) equal(w view) bool {
	return v.text == w.text && v.orig == w.orig && v.shift == w.shift && (len(v.al) == 0 && len(w.al) == 0 || reflect.DeepEqual(v.al, w.al))
}

// char is one character with the source ranges of its bytes.
type char struct {
	r  rune
	al span
}

// chars decodes the text; ok is false if a character has bytes with different
// sources (possible only after joining malformed bytes).
func (v view) chars() (cs []char, ok bool) {
	ok = true
	for i, r := range v.text {
		n := runeLen(v.text[i:])
		for j := i + 1; j < i+n; j++ {
			if v.al[j] != v.al[i] {
				ok = false
			}
		}
		cs = append(cs, char{r, v.al[i]})
	}
	return
}

func runeLen(s string) int {
	_, n := utf8.DecodeRuneInString(s)
	return n
}

func fixRune(r rune) rune {
	if !utf8.ValidRune(r) {
		return utf8.RuneError
	}
	return r
}

func runesOf(s string) []rune {
	var rs []rune
	for _, r := range s {
		rs = append(rs, r)
	}
	return rs
}

func (t *T) wf(v view) {
	for i, a := range v.al {
		if a.s < 0 || a.e < a.s || a.e > len(v.orig) {
			t.failf("source range %v of byte %d lies outside the original text: %v", a, i, v)
		}
		for j := 0; j < i; j++ {
			b := v.al[j]
			if a != b && b.e > a.s {
				t.failf("source ranges %v and %v of bytes %d and %d go backwards or overlap: %v", b, a, j, i, v)
			}
		}
	}
	if len(v.al) != len(v.text) {
		t.failf("%d source ranges for %d bytes", len(v.al), len(v.text))
	}
}

func (t *T) genNS(valid bool) (*NS, string) {
	s := t.genText(valid)
	t.in("FromString(%q)", s)
	return normalizedstring.FromString(s), s
}

// boundary is the set of character boundaries of a text.
func boundaries(s string) []int {
	bs := []int{}
	for i := range s {
		bs = append(bs, i)
	}
	return append(bs, len(s))
}

func (t *T) genRangeOn(s string) (int, int) {
	bs := boundaries(s)
	i, j := t.Intn(len(bs)), t.Intn(len(bs))
	if j < i {
		i, j = j, i
	}
	return bs[i], bs[j]
}

// listPattern is a pattern given by its captures.
type listPattern struct {
	caps []splitpattern.Capture
	err  error
	got  *string
}

func (p listPattern) FindMatches(s string) ([]splitpattern.Capture, error) {
	if p.got != nil {
		*p.got = s
	}
	if p.err != nil {
		return nil, p.err
	}
	return append([]splitpattern.Capture{}, p.caps...), nil
}

func mkCap(a, b int, m bool) splitpattern.Capture {
	return splitpattern.Capture{Offsets: strutils.ByteOffsets{Start: a, End: b}, IsMatch: m}
}

// genTiling cuts a text at random character boundaries.
func (t *T) genTiling(s string) []splitpattern.Capture {
	bs := boundaries(s)
	p := 1 + t.Intn(4)
	var caps []splitpattern.Capture
	prev := 0
	for _, b := range bs[1:] {
		if t.pick(p) || b == len(s) {
			caps = append(caps, mkCap(prev, b, t.pick(2)))
			prev = b
			if t.pick(8) {
				caps = append(caps, mkCap(b, b, t.pick(2)))
			}
		}
	}
	if len(s) == 0 {
		caps = append(caps, mkCap(0, 0, false))
	}
	return caps
}

// genPattern draws a pattern and the captures it must give on the text.
func (t *T) genPattern(s string) (string, splitpattern.SplitPattern, []splitpattern.Capture) {
	switch t.Intn(5) {
	case 0:
		n, p := t.genPred()
		return "predicate " + n, splitpattern.FromFunc(p), predCaps(s, p)
	case 1:
		r := t.genRune()
		if rs := []rune(s); len(rs) > 0 && !t.pick(4) {
			r = rs[t.Intn(len(rs))]
		}
		return fmt.Sprintf("rune %q", r), splitpattern.FromRune(r), predCaps(s, func(x rune) bool { return x == r })
	default:
		caps := t.genTiling(s)
		return fmt.Sprintf("captures %v", caps), listPattern{caps: caps}, caps
	}
}

func predCaps(s string, p func(rune) bool) (caps []splitpattern.Capture) {
	if s == "" {
		return []splitpattern.Capture{mkCap(0, 0, false)}
	}
	prev := 0
	for i, r := range s {
		if p(r) {
			if prev < i {
				caps = append(caps, mkCap(prev, i, false))
			}
			prev = i + runeLen(s[i:])
			caps = append(caps, mkCap(i, prev, true))
		}
	}
	if prev < len(s) {
		caps = append(caps, mkCap(prev, len(s), false))
	}
	return
}

func isSpace(r rune) bool { return unicode.Is(unicode.White_Space, r) }

// step applies one random edit and returns the characters which it must give,
// or nil if the result is not determined by the properties. The edits are
// checked one by one from the observed state.
type edit struct {
	exp     []char
	checked bool
}

func (t *T) edit(ns *NS, v view) edit {
	cs, uniform := v.chars()
	known := uniform
	var exp []char
	last := func() span {
		if len(cs) == 0 {
			return span{}
		}
		return cs[len(cs)-1].al
	}
	switch t.Intn(14) {
	case 0, 1:
		n, f := t.genMap()
		t.in("Map(%s)", n)
		ns.Map(f)
		for _, c := range cs {
			exp = append(exp, char{fixRune(f(c.r)), c.al})
		}
	case 2:
		t.in("ToUpper()")
		ns.ToUpper()
		for _, c := range cs {
			exp = append(exp, char{fixRune(unicode.ToUpper(c.r)), c.al})
		}
	case 3:
		t.in("ToLower()")
		ns.ToLower()
		for _, c := range cs {
			exp = append(exp, char{fixRune(unicode.ToLower(c.r)), c.al})
		}
	case 4, 5:
		n, p := t.genPred()
		if rs := []rune(v.text); len(rs) > 0 && t.pick(2) {
			x, y := rs[0], rs[t.Intn(len(rs))]
			if t.pick(2) {
				x = rs[len(rs)-1]
			}
			n, p = fmt.Sprintf("not %q %q", x, y), func(r rune) bool { return r != x && r != y }
		}
		t.in("Filter(%s)", n)
		ns.Filter(p)
		for _, c := range cs {
			if p(c.r) {
				exp = append(exp, c)
			}
		}
	case 6, 7:
		l, r := t.pick(2), t.pick(2)
		switch {
		case t.pick(3):
			t.in("TrimLeftRight(%v, %v)", l, r)
			ns.TrimLeftRight(l, r)
		case t.pick(3):
			l, r = true, false
			t.in("TrimLeft()")
			ns.TrimLeft()
		case t.pick(2):
			l, r = false, true
			t.in("TrimRight()")
			ns.TrimRight()
		default:
			l, r = true, true
			t.in("Trim()")
			ns.Trim()
		}
		exp = trimmed(cs, l, r)
	case 8:
		s := t.genShort(false)
		t.in("Prepend(%q)", s)
		ns.Prepend(s)
		if len(cs) > 0 {
			for _, r := range runesOf(s) {
				exp = append(exp, char{r, cs[0].al})
			}
			exp = append(exp, cs...)
		}
	case 9:
		s := t.genShort(false)
		t.in("Append(%q)", s)
		ns.Append(s)
		if len(cs) > 0 {
			exp = append(exp, cs...)
			for _, r := range runesOf(s) {
				exp = append(exp, char{r, last()})
			}
		}
	case 10, 11:
		s := t.genShort(false)
		n, p, caps := t.genPattern(v.text)
		t.in("Replace(%s, %q)", n, s)
		if t.pick(30) {
			p = listPattern{err: errors.New("x")}
			if ns.Replace(p, s) == nil {
				t.failf("Replace swallows the error of the pattern")
			}
			exp = cs
			break
		}
		if err := ns.Replace(p, s); err != nil {
			t.failf("Replace fails: %v", err)
		}
		var text strings.Builder
		var al []span
		for _, c := range caps {
			a, b := c.Offsets.Start, c.Offsets.End
			if !c.IsMatch {
				text.WriteString(v.text[a:b])
				al = append(al, v.al[a:b]...)
				continue
			}
			src := span{}
			if b > 0 {
				src = v.al[b-1]
			}
			for _, r := range runesOf(s) {
				text.WriteRune(r)
				for k := 0; k < len(string(r)); k++ {
					al = append(al, src)
				}
			}
		}
		var ok bool
		exp, ok = view{text: text.String(), al: al}.chars()
		known = known && ok
	default:
		a, b := t.genRangeOn(v.text)
		if t.pick(3) {
			a, b = 0, len(v.text)
		}
		sub := v.text[a:b]
		sizes := []int{}
		for i := range sub {
			sizes = append(sizes, runeLen(sub[i:]))
		}
		pos, k := a, 0
		skip := 0
		if len(sizes) > 0 && t.pick(3) {
			skip = t.Intn(len(sizes) + 1)
		}
		for ; k < skip; k++ {
			pos += sizes[k]
		}
		var dest []normalizedstring.RuneChange
		text := v.text[:a]
		al := append([]span{}, v.al[:a]...)
		for {
			rest := len(sizes) - k
			if t.pick(5) && (rest == 0 || t.pick(2)) {
				break
			}
			r := t.genRune()
			ch, n := 1, 0
			var src span
			if rest > 0 && !t.pick(3) {
				n = 1
				if t.pick(3) {
					n = 1 + t.Intn(rest)
				}
				ch = 1 - n
				src = v.al[pos]
			} else if pos > 0 {
				src = v.al[pos-1]
			}
			dest = append(dest, normalizedstring.RuneChange{Rune: r, Change: ch})
			for ; n > 0; n-- {
				pos += sizes[k]
				k++
			}
			text += string(r)
			for i := 0; i < len(string(r)); i++ {
				al = append(al, src)
			}
		}
		text += v.text[b:]
		al = append(al, v.al[b:]...)
		if a == 0 && b == len(v.text) && t.pick(2) {
			t.in("Transform(%v, %d)", dest, skip)
			ns.Transform(dest, skip)
		} else {
			t.in("TransformRange([%d,%d), %v, %d)", a, b, dest, skip)
			ns.TransformRange(nr(a, b), dest, skip)
		}
		var ok bool
		exp, ok = view{text: text, al: al}.chars()
		known = known && ok
	}
	return edit{exp, known}
}

func trimmed(cs []char, l, r bool) []char {
	a, b := 0, len(cs)
	for l && a < b && isSpace(cs[a].r) {
		a++
	}
	for r && b > a && isSpace(cs[b-1].r) {
		b--
	}
	return cs[a:b]
}

func (t *T) sameText(cs []char, v view) {
	var got, want []rune
	for _, c := range cs {
		want = append(want, c.r)
	}
	got = runesOf(v.text)
	if string(got) != string(want) {
		t.failf("the text is %q, expected %q", string(got), string(want))
	}
}

func (t *T) sameSources(cs []char, v view) {
	got, ok := v.chars()
	if !ok {
		t.failf("the bytes of a character of %v have different sources", v)
	}
	for i := range cs {
		if i < len(got) && got[i] != cs[i] {
			t.failf("character %d of %v is aligned to %v, expected %q at %v", i, v, got[i].al, cs[i].r, cs[i].al)
		}
	}
	if len(got) != len(cs) {
		t.failf("%v has %d characters, expected %d", v, len(got), len(cs))
	}
}

// mutateSlice replaces the text by a slice or a piece of it.
func (t *T) mutateSlice(ns *NS, v view) *NS {
	if t.pick(2) {
		n, p, _ := t.genPattern(v.text)
		b := normalizedstring.SplitDelimiterBehavior(t.Intn(5))
		t.in("Split(%s, %d)", n, b)
		nss, err := ns.Split(p, b)
		if err != nil || len(nss) == 0 {
			return ns
		}
		k := t.Intn(len(nss))
		t.in("[%d]", k)
		return nss[k]
	}
	if t.pick(3) {
		a, b := t.genRangeOn(v.orig)
		t.in("Slice(original [%d,%d))", a, b)
		if s, ok := ns.Slice(or(a, b)); ok {
			return s
		}
		return ns
	}
	a, b := t.genRangeOn(v.text)
	t.in("Slice([%d,%d))", a, b)
	if s, ok := ns.Slice(nr(a, b)); ok {
		return s
	}
	return ns
}

// history runs random edits, calling check after each.
// A text which was sliced, and its slices, must not change when another of them
// is edited: apart is called when one does.
func (t *T) history(valid bool, slices bool, n int, check func(before, after view, e edit, ns *NS), apart func(before, now view)) *NS {
	type relative struct {
		ns *NS
		v  view
	}
	var others []relative
	ns, _ := t.genNS(valid)
	v := t.look(ns)
	check(v, v, edit{}, ns)
	for k := t.Intn(n + 1); k > 0; k-- {
		if slices && t.pick(6) {
			old, oldv := ns, v
			ns = t.mutateSlice(ns, v)
			w := t.look(ns)
			check(w, w, edit{}, ns)
			v = w
			if ns != old {
				others = append(others, relative{old, oldv})
				if t.pick(4) {
					// go on with the source; the slice must keep what it holds
					others[len(others)-1] = relative{ns, v}
					ns, v = old, oldv
				}
			}
			continue
		}
		e := t.edit(ns, v)
		w := t.look(ns)
		if w.orig != v.orig || w.shift != v.shift {
			t.failf("the original text or its position changed: %v to %v", v, w)
		}
		check(v, w, e, ns)
		for _, o := range others {
			if x := t.look(o.ns); !x.equal(o.v) {
				t.in("look at the related text %v", o.v)
				if apart != nil {
					apart(o.v, x)
				}
			}
		}
		if _, ok := w.chars(); !ok {
			break
		}
		v = w
	}
	return ns
}

func enumHistories(prop func(before, after view, e edit, ns *NS, t *T)) func(run func(func(*T))) {
	return func(run func(func(*T))) {
		smallTexts(alpha5, 4, func(s string) {
			for k := 0; k < 6; k++ {
				run(func(t *T) {
					t.in("FromString(%q)", s)
					ns := normalizedstring.FromString(s)
					v := t.look(ns)
					prop(v, v, edit{}, ns, t)
					for i := 0; i < 2; i++ {
						e := t.edit(ns, v)
						w := t.look(ns)
						prop(v, w, e, ns, t)
						if _, ok := w.chars(); !ok {
							return
						}
						v = w
					}
				})
			}
		})
	}
}

func checkC01(before, after view, e edit, ns *NS, t *T) { t.wf(after) }

func checkC02(before, after view, e edit, ns *NS, t *T) {
	if e.checked {
		t.sameText(e.exp, after)
	}
}

func checkC03(before, after view, e edit, ns *NS, t *T) {
	if e.checked {
		t.sameSources(e.exp, after)
	}
}

func histProp(check func(before, after view, e edit, ns *NS, t *T), n int) property {
	return property{
		rule: "every text of at most 4 symbols over {a, space, é, 😀, malformed byte} with random pairs of edits, then random histories of at most 8 edits and slicings of random texts",
		enum: enumHistories(check),
		random: func(t *T) {
			t.history(t.pick(3), true, n, func(b, a view, e edit, ns *NS) { check(b, a, e, ns, t) }, func(b, a view) {
				check(b, a, edit{}, nil, t)
				t.failf("an edit of another text changes %v to %v", b, a)
			})
		},
	}
}

func finalProp(rule string, check func(v view, ns *NS, t *T)) property {
	return property{
		rule: rule,
		enum: func(run func(func(*T))) {
			smallTexts(alpha5, 4, func(s string) {
				run(func(t *T) {
					t.in("FromString(%q)", s)
					ns := normalizedstring.FromString(s)
					check(t.look(ns), ns, t)
				})
				run(func(t *T) {
					t.in("FromString(%q)", s)
					ns := normalizedstring.FromString(s)
					t.edit(ns, t.look(ns))
					check(t.look(ns), ns, t)
				})
			})
		},
		random: func(t *T) {
			ns := t.history(t.pick(3), true, 5, func(b, a view, e edit, ns *NS) {}, nil)
			check(t.look(ns), ns, t)
		},
	}
}

// ---- C04

func inside(a span, x, y int) bool { return x <= a.s && a.e <= y }

func (t *T) checkConv(v view, ns *NS, a, b int) {
	n, m := len(v.text), len(v.orig)
	// Own referential: unchanged.
	if r, ok := ns.CoerceRangeToNormalized(nr(a, b)); !ok || r.Start() != a || r.End() != b {
		t.failf("normalized range [%d,%d) is changed to [%d,%d) %v", a, b, r.Start(), r.End(), ok)
	}
	if r, ok := ns.CoerceRangeToOriginal(or(a, b)); !ok || r.Start() != a || r.End() != b {
		t.failf("original range [%d,%d) is changed to [%d,%d) %v", a, b, r.Start(), r.End(), ok)
	}
	ro, oko := ns.CoerceRangeToOriginal(nr(a, b))
	rn, okn := ns.CoerceRangeToNormalized(or(a, b))
	switch {
	case a == b:
		if !oko || ro.Start() != a || ro.End() != b {
			t.failf("the empty normalized range [%d,%d) is changed to [%d,%d) %v in %v", a, b, ro.Start(), ro.End(), oko, v)
		}
		if !okn || rn.Start() != a || rn.End() != b {
			t.failf("the empty original range [%d,%d) is changed to [%d,%d) %v in %v", a, b, rn.Start(), rn.End(), okn, v)
		}
	default:
		if 0 <= a && a < b && b <= n {
			if !oko || ro.Start() != v.al[a].s || ro.End() != v.al[b-1].e {
				t.failf("normalized range [%d,%d) gives original [%d,%d) %v, expected [%d,%d) in %v", a, b, ro.Start(), ro.End(), oko, v.al[a].s, v.al[b-1].e, v)
			}
		}
		if 0 <= a && a < b && b <= m {
			some := false
			s, e := rn.Start(), rn.End()
			for i, x := range v.al {
				in := okn && s <= i && i < e
				if inside(x, a, b) && x.s < x.e {
					some = true
					if !in {
						t.failf("original range [%d,%d) gives normalized [%d,%d) %v, which misses byte %d in %v", a, b, s, e, okn, i, v)
					}
				}
				if !inside(x, a, b) && in {
					t.failf("original range [%d,%d) gives normalized [%d,%d) %v, which has byte %d from outside in %v", a, b, s, e, okn, i, v)
				}
			}
			if okn && (s < 0 || s > e || e > n) {
				t.failf("original range [%d,%d) gives normalized [%d,%d), out of bounds in %v", a, b, s, e, v)
			}
			_ = some
		}
	}
	// Extraction.
	for k := 0; k < 4; k++ {
		var got string
		var ok bool
		var text, what string
		var s, e int
		conv := true
		switch k {
		case 0:
			what, text, s, e = "GetRange(normalized", v.text, a, b
			got, ok = ns.GetRange(nr(a, b))
		case 1:
			what, text, s, e = "GetOriginalRange(original", v.orig, a, b
			got, ok = ns.GetOriginalRange(or(a, b))
		case 2:
			what, text, s, e, conv = "GetRange(original", v.text, rn.Start(), rn.End(), okn
			got, ok = ns.GetRange(or(a, b))
		case 3:
			what, text, s, e, conv = "GetOriginalRange(normalized", v.orig, ro.Start(), ro.End(), oko
			got, ok = ns.GetOriginalRange(nr(a, b))
		}
		valid := conv && 0 <= s && s <= e && e <= len(text)
		if ok != valid || ok && got != text[s:e] {
			t.failf("%s [%d,%d)) gives %q %v in %v", what, a, b, got, ok, v)
		}
	}
}

func checkC04(v view, ns *NS, t *T) {
	n := len(v.text)
	if len(v.orig) > n {
		n = len(v.orig)
	}
	if n <= 12 {
		for a := -2; a <= n+2; a++ {
			for b := -2; b <= n+2; b++ {
				t.checkConv(v, ns, a, b)
			}
		}
		return
	}
	for k := 0; k < 40; k++ {
		t.checkConv(v, ns, t.Intn(n+6)-3, t.Intn(n+6)-3)
	}
}

// ---- C05

func rangeOf(x interface{}) span {
	v := reflect.ValueOf(x)
	s, e := v.FieldByName("start"), v.FieldByName("end")
	if !s.IsValid() || !e.IsValid() {
		s, e = v.Field(0), v.Field(1)
	}
	return span{int(s.Int()), int(e.Int())}
}

func checkC05(v view, ns *NS, t *T) {
	table := ns.OriginalAlignments()
	if len(table) != len(v.orig) {
		t.failf("%d entries for %d original bytes in %v", len(table), len(v.orig), v)
	}
	run := make([]span, len(v.orig))
	cov := make([]bool, len(v.orig))
	for i := 0; i < len(v.al); {
		j := i
		for j < len(v.al) && v.al[j] == v.al[i] {
			j++
		}
		for b := v.al[i].s; b < v.al[i].e; b++ {
			run[b] = span{i, j}
			cov[b] = true
		}
		i = j
	}
	for b := range table {
		got := rangeOf(table[b])
		if cov[b] {
			if got != run[b] {
				t.failf("original byte %d has entry %v, expected %v in %v", b, got, run[b], v)
			}
			continue
		}
		// after all that comes from before it, and before the rest
		n := 0
		for n < len(v.al) && v.al[n].e <= b {
			n++
		}
		if got.s != n || got.e != n {
			t.failf("removed original byte %d has entry %v, expected [%d,%d) in %v", b, got, n, n, v)
		}
	}
}

// ---- C06

func onBoundary(s string, i int) bool {
	return i == 0 || i == len(s) || i > 0 && i < len(s) && s[i]&0xC0 != 0x80
}

func (t *T) checkSlice(v view, ns *NS, normalized bool, a, b int) *NS {
	var s *NS
	var ok bool
	text := v.orig
	var what string
	if normalized {
		text = v.text
		s, ok = ns.Slice(nr(a, b))
		what = fmt.Sprintf("Slice([%d,%d)) of %v", a, b, v)
	} else {
		s, ok = ns.Slice(or(a, b))
		what = fmt.Sprintf("Slice(original [%d,%d)) of %v", a, b, v)
	}
	if w := t.look(ns); !w.equal(v) {
		t.failf("%s changes its source to %v", what, w)
	}
	if a > b || !onBoundary(text, a) || !onBoundary(text, b) {
		if ok {
			t.failf("%s is not refused", what)
		}
		return nil
	}
	if !ok {
		if !normalized {
			for _, x := range v.al {
				if x.s < x.e && inside(x, a, b) {
					t.failf("%s is refused", what)
				}
			}
			return nil
		}
		t.failf("%s is refused", what)
	}
	w := t.look(s)
	var na, nb, oa, ob int
	if normalized {
		na, nb = a, b
		if a < b {
			oa, ob = v.al[a].s, v.al[b-1].e
		}
	} else {
		oa, ob = a, b
		r, cok := ns.CoerceRangeToNormalized(or(a, b))
		if !cok {
			t.failf("%s is accepted but the range does not convert", what)
		}
		na, nb = r.Start(), r.End()
	}
	if w.text != v.text[na:nb] {
		t.failf("%s has text %q", what, w.text)
	}
	if a == b {
		return s
	}
	if w.orig != v.orig[oa:ob] {
		t.failf("%s has original text %q, expected %q", what, w.orig, v.orig[oa:ob])
	}
	if w.shift != v.shift+oa {
		t.failf("%s has absolute position %d, expected %d", what, w.shift, v.shift+oa)
	}
	if o := s.OriginalOffsets(); o.Start != v.shift+oa || o.End != v.shift+ob {
		t.failf("%s has absolute offsets %v, expected [%d,%d)", what, o, v.shift+oa, v.shift+ob)
	}
	for i, x := range w.al {
		y := v.al[na+i]
		if x.s != y.s-oa || x.e != y.e-oa {
			t.failf("%s aligns byte %d to %v, expected %v", what, i, x, span{y.s - oa, y.e - oa})
		}
	}
	return s
}

func checkC06(v view, ns *NS, t *T) {
	n := len(v.text)
	if len(v.orig) > n {
		n = len(v.orig)
	}
	if n <= 7 {
		for a := -1; a <= n+1; a++ {
			for b := -1; b <= n+1; b++ {
				t.checkSlice(v, ns, true, a, b)
				t.checkSlice(v, ns, false, a, b)
			}
		}
	}
	for k := 0; k < 8; k++ {
		t.checkSlice(v, ns, t.pick(2), t.Intn(n+4)-2, t.Intn(n+4)-2)
	}
	root, cur, cv := v, ns, v
	for k := 0; k < 4; k++ {
		var s *NS
		if t.pick(2) {
			a, b := t.genRangeOn(cv.text)
			t.in("nested [%d,%d)", a, b)
			if a == b {
				break
			}
			s = t.checkSlice(cv, cur, true, a, b)
		} else {
			a, b := t.genRangeOn(cv.orig)
			t.in("nested original [%d,%d)", a, b)
			if a == b {
				break
			}
			s = t.checkSlice(cv, cur, false, a, b)
		}
		if s == nil {
			break
		}
		cur, cv = s, t.look(s)
		o := s.OriginalOffsets()
		a, b := o.Start-root.shift, o.End-root.shift
		if a < 0 || b > len(root.orig) || a > b || root.orig[a:b] != s.GetOriginal() {
			t.failf("the offsets %v do not select the original text %q of the slice in %v", o, s.GetOriginal(), root)
		}
		if e := t.Intn(3); e == 0 {
			t.edit(cur, cv)
			cv = t.look(cur)
			if w := t.look(ns); cur != ns && !w.equal(root) {
				t.failf("an edit of the slice changes the sliced text %v to %v", root, w)
			}
			if _, ok := cv.chars(); !ok {
				break
			}
		}
	}
}

// ---- C07

func splitSpans(caps []splitpattern.Capture, b normalizedstring.SplitDelimiterBehavior) []span {
	var out []span
	sp := func(i int) span { return span{caps[i].Offsets.Start, caps[i].Offsets.End} }
	n := len(caps)
	join := make([]bool, n) // join[i]: capture i continues the piece of capture i-1
	switch b {
	case normalizedstring.SplitDelimiterRemoved:
		for i, c := range caps {
			if !c.IsMatch {
				out = append(out, sp(i))
			}
		}
		return out
	case normalizedstring.SplitDelimiterMergedWithPrevious:
		for i := 1; i < n; i++ {
			join[i] = caps[i].IsMatch && !caps[i-1].IsMatch
		}
	case normalizedstring.SplitDelimiterMergedWithNext:
		for i := 1; i < n; i++ {
			join[i] = caps[i-1].IsMatch && !caps[i].IsMatch
		}
	case normalizedstring.SplitDelimiterContiguous:
		for i := 1; i < n; i++ {
			join[i] = caps[i-1].IsMatch == caps[i].IsMatch
		}
	}
	for i := range caps {
		if join[i] {
			out[len(out)-1].e = caps[i].Offsets.End
		} else {
			out = append(out, sp(i))
		}
	}
	return out
}

func checkC07(v view, ns *NS, t *T) {
	n, p, caps := t.genPattern(v.text)
	b := normalizedstring.SplitDelimiterBehavior(t.Intn(5))
	t.in("Split(%s, %d)", n, b)
	valid := utf8.ValidString(v.text)
	if t.pick(40) {
		if nss, err := ns.Split(listPattern{err: errors.New("x")}, b); err == nil || nss != nil {
			t.failf("the error of the pattern is lost")
		}
		return
	}
	nss, err := ns.Split(p, b)
	if w := t.look(ns); !w.equal(v) {
		t.failf("Split changes its source %v to %v", v, w)
	}
	if err != nil {
		if valid {
			t.failf("Split fails: %v", err)
		}
		return
	}
	want := splitSpans(caps, b)
	if len(nss) != len(want) {
		t.failf("%d pieces, expected %d (%v) in %v", len(nss), len(want), want, v)
	}
	for i, x := range nss {
		w := t.look(x)
		a, e := want[i].s, want[i].e
		if w.text != v.text[a:e] {
			t.failf("piece %d is %q, expected %q", i, w.text, v.text[a:e])
		}
		if a == e {
			continue
		}
		oa, ob := v.al[a].s, v.al[e-1].e
		exp := view{text: v.text[a:e], orig: v.orig[oa:ob], shift: v.shift + oa}
		for _, y := range v.al[a:e] {
			exp.al = append(exp.al, span{y.s - oa, y.e - oa})
		}
		if !w.equal(exp) {
			t.failf("piece %d is %v, expected %v", i, w, exp)
		}
	}
}
