package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

// start gives the pieces to pre-tokenize: one text, or some pieces of it with
// and without tokens.
func (t *T) start(valid bool) (*PTS, []piece) {
	ns, _ := t.genNS(valid)
	if t.pick(3) {
		if t.edit(ns, t.look(ns)); valid && !utf8.ValidString(ns.Get()) {
			ns = normalizedstring.FromString(strings.ToValidUTF8(ns.Get(), "?"))
		} else if _, ok := t.look(ns).chars(); !ok {
			ns = normalizedstring.FromString(ns.Get())
		}
	}
	return t.startFrom(ns)
}

func (t *T) startFrom(ns *NS) (*PTS, []piece) {
	p := pretokenizedstring.FromNormalizedString(ns)
	if t.pick(5) {
		n, sp, _ := t.genPattern(ns.Get())
		t.in("split by %s", n)
		p.Split(func(_ int, ns *NS) ([]pretokenizedstring.Split, error) {
			nss, err := ns.Split(sp, normalizedstring.SplitDelimiterIsolated)
			if err != nil {
				return nil, err
			}
			out := pretokenizedstring.SplitsFromNormalizedStrings(nss)
			for i := range out {
				if t.pick(4) {
					out[i].Tokens = &[]models.Token{{ID: 1, Value: "t"}}
				}
			}
			return out, nil
		})
	}
	return p, pieces(p)
}

// stretches keeps the stretches of the view for which keep holds.
func cut(v view, spans []span) (out []view) {
	for _, s := range spans {
		if s.s == s.e {
			continue
		}
		oa, ob := v.al[s.s].s, v.al[s.e-1].e
		w := view{text: v.text[s.s:s.e], orig: v.orig[oa:ob], shift: v.shift + oa}
		for _, y := range v.al[s.s:s.e] {
			w.al = append(w.al, span{y.s - oa, y.e - oa})
		}
		out = append(out, w)
	}
	return
}

// checkPre runs a pre-tokenizer and compares the pieces with the expected
// ones of each piece without tokens.
func (t *T) checkPre(name string, pre pretokenizers.PreTokenizer, p *PTS, cur []piece, expect func(v view) []view) {
	t.in("%s.PreTokenize", name)
	type item struct {
		keep *piece
		v    view
	}
	var want []item
	valid := true
	for i := range cur {
		c := cur[i]
		if c.tok != nil {
			want = append(want, item{keep: &c})
			continue
		}
		valid = valid && utf8.ValidString(c.ns.Get())
		for _, v := range expect(t.look(c.ns)) {
			want = append(want, item{v: v})
		}
	}
	if err := pre.PreTokenize(p); err != nil {
		if valid {
			t.failf("PreTokenize fails: %v", err)
		}
		return
	}
	got := pieces(p)
	var texts []string
	for _, g := range got {
		texts = append(texts, g.ns.Get())
	}
	for i := range want {
		if i >= len(got) {
			break
		}
		if k := want[i].keep; k != nil {
			if got[i] != *k {
				t.failf("piece %d of %q with tokens is not kept", i, texts)
			}
			continue
		}
		w := t.look(got[i].ns)
		if got[i].tok != nil {
			t.failf("piece %d has tokens", i)
		}
		if !valid {
			// only the text and positions of malformed input
			if !sameRunes(w.text, want[i].v.text) {
				t.failf("piece %d of %q is %q, expected %q", i, texts, w.text, want[i].v.text)
			}
			continue
		}
		if !w.equal(want[i].v) {
			t.failf("piece %d of %q is %v, expected %v", i, texts, w, want[i].v)
		}
	}
	if len(got) != len(want) {
		t.failf("%d pieces %q, expected %d", len(got), texts, len(want))
	}
}

func sameRunes(a, b string) bool { return string(runesOf(a)) == string(runesOf(b)) }

func keepSpans(text string, delim func(rune) bool) (out []span) {
	prev := -1
	for i, r := range text {
		if delim(r) {
			if prev >= 0 {
				out = append(out, span{prev, i})
			}
			prev = -1
		} else if prev < 0 {
			prev = i
		}
	}
	if prev >= 0 {
		out = append(out, span{prev, len(text)})
	}
	return
}

func bertSpans(text string) (out []span) {
	for _, s := range keepSpans(text, isSpace) {
		prev := s.s
		for i, r := range text[s.s:s.e] {
			if unicode.IsPunct(r) {
				i += s.s
				if prev < i {
					out = append(out, span{prev, i})
				}
				prev = i + runeLen(text[i:])
				out = append(out, span{i, prev})
			}
		}
		if prev < s.e {
			out = append(out, span{prev, s.e})
		}
	}
	return
}

func checkC16(t *T, p *PTS, cur []piece) {
	switch t.Intn(4) {
	case 0:
		t.checkPre("whitespace split", whitespacesplitpretokenizer.New(), p, cur, func(v view) []view { return cut(v, keepSpans(v.text, isSpace)) })
	case 1:
		d := t.genRune()
		if len(cur) > 0 {
			if rs := []rune(cur[0].ns.Get()); len(rs) > 0 && !t.pick(4) {
				d = rs[t.Intn(len(rs))]
			}
		}
		t.checkPre(fmt.Sprintf("rune delimiter %q", d), runedelimiterpretokenizer.New(d), p, cur, func(v view) []view {
			return cut(v, keepSpans(v.text, func(r rune) bool { return r == d }))
		})
	case 2:
		t.checkPre("BERT", bertpretokenizer.New(), p, cur, func(v view) []view { return cut(v, bertSpans(v.text)) })
	default:
		r := whitespacepretokenizer.DefaultWordRegexp
		pre := whitespacepretokenizer.NewDefault()
		if t.pick(3) {
			r = cRes2[t.Intn(len(cRes2))]
			pre = whitespacepretokenizer.New(r)
		}
		t.checkPre(fmt.Sprintf("word %q", r), pre, p, cur, func(v view) []view { return cut(v, re2Spans(r, v.text)) })
	}
}

var propC16 = property{
	rule: "every text of at most 4 symbols over {a, space, é, comma, U+3000}, random texts, edited texts and pieces with tokens, for the four pre-tokenizers",
	enum: func(run func(func(*T))) {
		smallTexts([]string{"a", " ", "é", ",", "\u3000"}, 4, func(s string) {
			for k := 0; k < 3; k++ {
				run(func(t *T) {
					t.in("FromString(%q)", s)
					p, cur := t.startFrom(normalizedstring.FromString(s))
					checkC16(t, p, cur)
				})
			}
		})
	},
	random: func(t *T) {
		p, cur := t.start(!t.pick(6))
		checkC16(t, p, cur)
	},
}

// ---- C15

var decodeByte = map[rune]byte{}

func init() {
	// The published byte-to-character table of GPT-2.
	n := 0
	for b := 0; b < 256; b++ {
		if b >= '!' && b <= '~' || b >= 0xA1 && b <= 0xAC || b >= 0xAE && b <= 0xFF {
			decodeByte[rune(b)] = byte(b)
		} else {
			decodeByte[rune(256+n)] = byte(b)
			n++
		}
	}
}

func checkC15(t *T, p *PTS, cur []piece) {
	r := bytelevelpretokenizer.DefaultSplittingRegexp
	prefix := t.pick(2)
	pre := bytelevelpretokenizer.New(r, prefix, t.pick(2))
	if prefix && t.pick(2) {
		pre = bytelevelpretokenizer.NewDefault()
	} else if t.pick(4) {
		r = cRes2[t.Intn(len(cRes2))]
		pre = bytelevelpretokenizer.New(r, prefix, t.pick(2))
	}
	t.in("byte level %q prefix %v", r, prefix)
	valid := true
	type want struct {
		keep *piece
		v    view // before the encoding of the bytes
	}
	var ws []want
	for i := range cur {
		c := cur[i]
		if c.tok != nil {
			ws = append(ws, want{keep: &c})
			continue
		}
		v := t.look(c.ns)
		valid = valid && utf8.ValidString(v.text)
		if prefix && v.text != "" && !isSpace(runesOf(v.text)[0]) {
			v.text = " " + v.text
			v.al = append([]span{v.al[0]}, v.al...)
		}
		var spans []span
		for _, c := range capsOf(v.text, re2Spans(r, v.text)) {
			spans = append(spans, span{c.Offsets.Start, c.Offsets.End})
		}
		for _, w := range cut(v, spans) {
			ws = append(ws, want{v: w})
		}
	}
	if err := pre.PreTokenize(p); err != nil {
		if valid {
			t.failf("PreTokenize fails: %v", err)
		}
		return
	}
	got := pieces(p)
	if !valid {
		return
	}
	if len(got) != len(ws) {
		t.failf("%d pieces, expected %d", len(got), len(ws))
	}
	for i, g := range got {
		if k := ws[i].keep; k != nil {
			if g != *k {
				t.failf("piece %d with tokens is not kept", i)
			}
			continue
		}
		w := ws[i].v
		gv := t.look(g.ns)
		cs, ok := gv.chars()
		var bs []byte
		for _, c := range cs {
			b, in := decodeByte[c.r]
			if !in {
				t.failf("piece %d %q has a character %q which encodes no byte", i, gv.text, c.r)
			}
			bs = append(bs, b)
		}
		if string(bs) != w.text {
			t.failf("piece %d %q decodes to %q, expected %q", i, gv.text, bs, w.text)
		}
		if gv.orig != w.orig || gv.shift != w.shift {
			t.failf("piece %d comes from %q+%d, expected %q+%d", i, gv.orig, gv.shift, w.orig, w.shift)
		}
		for k, c := range cs {
			if !ok || c.al != w.al[k] {
				t.failf("character %d of piece %v is aligned to %v, expected %v", k, gv, c.al, w.al[k])
			}
		}
	}
}

var propC15 = property{
	rule: "every text of at most 3 symbols over 10 characters, all characters below U+0400, random texts, edited texts and pieces with tokens; default and other expressions",
	enum: func(run func(func(*T))) {
		smallTexts([]string{"a", " ", "é", "'s", "\u3000", "1", "!", "😀", "\n", "İ"}, 3, func(s string) {
			run(func(t *T) {
				t.in("FromString(%q)", s)
				p, cur := t.startFrom(normalizedstring.FromString(s))
				checkC15(t, p, cur)
			})
		})
		for r := rune(0); r < 0x400; r++ {
			s := string(r)
			run(func(t *T) {
				t.in("FromString(%q)", s)
				p, cur := t.startFrom(normalizedstring.FromString(s))
				checkC15(t, p, cur)
			})
		}
	},
	random: func(t *T) {
		p, cur := t.start(!t.pick(8))
		checkC15(t, p, cur)
	},
}

// ---- C17

func metaExpect(v view, marker rune, prefix bool) []view {
	m := string(marker)
	cs, _ := v.chars()
	if prefix && len(cs) > 0 && !isSpace(cs[0].r) && cs[0].r != marker {
		cs = append([]char{{marker, cs[0].al}}, cs...)
	}
	w := view{orig: v.orig, shift: v.shift}
	var spans []span
	prev := 0
	for _, c := range cs {
		r := c.r
		if r == ' ' {
			r = marker
		}
		if r == marker && len(w.text) > 0 {
			spans = append(spans, span{prev, len(w.text)})
			prev = len(w.text)
		}
		w.text += string(r)
		for len(w.al) < len(w.text) {
			w.al = append(w.al, c.al)
		}
	}
	spans = append(spans, span{prev, len(w.text)})
	_ = m
	return cut(w, spans)
}

func checkC17(t *T, p *PTS, cur []piece) {
	marker := []rune{'▁', '▁', '_', 'é', '😀', 'a', ' ', '\t'}[t.Intn(8)]
	prefix := t.pick(2)
	pre := metaspacepretokenizer.New(marker, prefix)
	if marker == '▁' && prefix && t.pick(2) {
		pre = metaspacepretokenizer.NewDefault()
	}
	t.checkPre(fmt.Sprintf("meta space %q prefix %v", marker, prefix), pre, p, cur, func(v view) []view { return metaExpect(v, marker, prefix) })
}

var propC17 = property{
	rule: "every text of at most 5 symbols over {a, space, é, marker}, random texts, edited texts and pieces with tokens; seven markers, both prefix options",
	enum: func(run func(func(*T))) {
		smallTexts([]string{"a", " ", "é", "▁"}, 5, func(s string) {
			for k := 0; k < 2; k++ {
				run(func(t *T) {
					t.in("FromString(%q)", s)
					p, cur := t.startFrom(normalizedstring.FromString(s))
					checkC17(t, p, cur)
				})
			}
		})
	},
	random: func(t *T) {
		p, cur := t.start(true)
		checkC17(t, p, cur)
	},
}

// ---- C18

func isCJK(r rune) bool {
	for _, b := range [][2]rune{{0x3400, 0x4dbf}, {0x4e00, 0x9fff}, {0xf900, 0xfaff}, {0x20000, 0x2a6df}, {0x2a700, 0x2b73f}, {0x2b740, 0x2b81f}, {0x2b820, 0x2ceaf}, {0x2f800, 0x2fa1f}} {
		if b[0] <= r && r <= b[1] {
			return true
		}
	}
	return false
}

func refBert(rs []rune, clean, cjk, strip, lower bool) (out []rune) {
	step := func(f func(r rune) []rune) {
		var next []rune
		for _, r := range rs {
			next = append(next, f(r)...)
		}
		rs = next
	}
	if clean {
		step(func(r rune) []rune {
			ws := r == '\t' || r == '\n' || r == '\r'
			if r == 0 || r == 0xfffd || !ws && unicode.Is(unicode.Other, r) {
				return nil
			}
			if ws || isSpace(r) {
				return []rune{' '}
			}
			return []rune{r}
		})
	}
	if cjk {
		step(func(r rune) []rune {
			if isCJK(r) {
				return []rune{' ', r, ' '}
			}
			return []rune{r}
		})
	}
	if strip {
		step(func(r rune) []rune {
			if unicode.Is(unicode.Mn, r) {
				return nil
			}
			return []rune{r}
		})
	}
	if lower {
		step(func(r rune) []rune { return []rune{fixRune(unicode.ToLower(r))} })
	}
	return rs
}

type failNorm struct{ err error }

func (f failNorm) Normalize(*NS) error { return f.err }

type norm struct {
	name string
	n    normalizers.Normalizer
	f    func([]rune) ([]rune, error)
}

func (t *T) genNorm(depth int) norm {
	k := t.Intn(6)
	switch {
	case k < 3:
		a, b, c, d := t.pick(2), t.pick(2), t.pick(2), t.pick(2)
		n := bertnormalizer.NewBertNormalizer(a, b, c, d)
		if a && b && c && d {
			n = bertnormalizer.DefaultBertNormalizer()
		}
		return norm{fmt.Sprintf("bert(%v,%v,%v,%v)", a, b, c, d), n, func(rs []rune) ([]rune, error) { return refBert(rs, a, b, c, d), nil }}
	case k == 3:
		l, r := t.pick(2), t.pick(2)
		return norm{fmt.Sprintf("strip(%v,%v)", l, r), stripnormalizer.NewStripNormalizer(l, r), func(rs []rune) ([]rune, error) {
			a, b := 0, len(rs)
			for l && a < b && isSpace(rs[a]) {
				a++
			}
			for r && b > a && isSpace(rs[b-1]) {
				b--
			}
			return rs[a:b], nil
		}}
	case k == 4 || depth == 0:
		return norm{"lower", lowercasenormalizer.NewLowerCaseNormalizer(), func(rs []rune) (out []rune, _ error) {
			for _, r := range rs {
				out = append(out, fixRune(unicode.ToLower(r)))
			}
			return out, nil
		}}
	default:
		var ms []norm
		var ns []normalizers.Normalizer
		var names []string
		for n := t.Intn(4); n > 0; n-- {
			m := t.genNorm(depth - 1)
			if t.pick(5) {
				e := fmt.Errorf("fails")
				m = norm{"failing", failNorm{e}, func(rs []rune) ([]rune, error) { return rs, e }}
			}
			ms = append(ms, m)
			ns = append(ns, m.n)
			names = append(names, m.name)
		}
		return norm{"seq(" + strings.Join(names, ", ") + ")", sequencenormalizer.NewSequenceNormalizer(ns), func(rs []rune) ([]rune, error) {
			for _, m := range ms {
				var err error
				if rs, err = m.f(rs); err != nil {
					return rs, err
				}
			}
			return rs, nil
		}}
	}
}

func (t *T) checkNorm(m norm, ns *NS) {
	t.in("%s", m.name)
	in := runesOf(ns.Get())
	want, werr := m.f(in)
	err := m.n.Normalize(ns)
	if err != werr {
		t.failf("the error is %v, expected %v", err, werr)
	}
	if got := string(runesOf(ns.Get())); got != string(want) {
		t.failf("the text is %q, expected %q", got, string(want))
	}
	t.wf(t.look(ns))
}

func bertNorm(k int) norm {
	a, b, c, d := k&1 != 0, k&2 != 0, k&4 != 0, k&8 != 0
	return norm{fmt.Sprintf("bert(%v,%v,%v,%v)", a, b, c, d), bertnormalizer.NewBertNormalizer(a, b, c, d), func(rs []rune) ([]rune, error) { return refBert(rs, a, b, c, d), nil }}
}

var propC18 = property{
	rule: "all 1114112 characters in batches through the four single BERT options and the default, every option combination on texts of at most 3 symbols, and random normalizers and nested sequences with failing members on random and edited texts",
	enum: func(run func(func(*T))) {
		smallTexts([]string{"a", "\u3000", "É", "中", "\u0301", "\x00", "\xff"}, 3, func(s string) {
			for k := 0; k < 16; k++ {
				run(func(t *T) {
					t.in("FromString(%q)", s)
					t.checkNorm(bertNorm(k), normalizedstring.FromString(s))
				})
			}
		})
		const batch = 256
		for lo := rune(0); lo <= 0x10ffff; lo += batch {
			var sb strings.Builder
			for r := lo; r < lo+batch; r++ {
				if utf8.ValidRune(r) {
					sb.WriteRune(r)
				}
			}
			s := sb.String()
			for _, k := range []int{1, 2, 4, 8} {
				run(func(t *T) {
					t.in("all characters from %U to %U", lo, lo+batch-1)
					ns := normalizedstring.FromString(s)
					m := bertNorm(k)
					t.in("%s", m.name)
					want, _ := m.f(runesOf(s))
					if err := m.n.Normalize(ns); err != nil {
						t.failf("%v", err)
					}
					got := runesOf(ns.Get())
					for i := range want {
						if i >= len(got) || got[i] != want[i] {
							t.failf("the text differs from the expected %U at character %d", want[i], i)
						}
					}
					if len(got) != len(want) {
						t.failf("%d characters, expected %d", len(got), len(want))
					}
				})
			}
		}
	},
	random: func(t *T) {
		ns, _ := t.genNS(t.pick(2))
		if t.pick(3) {
			t.edit(ns, t.look(ns))
		}
		t.checkNorm(t.genNorm(2), ns)
	},
}

// ---- C19

func checkC19(t *T, s string) {
	t.in("text %q", s)
	for i := -3; i <= len(s)+3; i++ {
		if got := strutils.IsRuneBoundary(s, i); got != onBoundary(s, i) {
			t.failf("IsRuneBoundary(%d) = %v", i, got)
		}
	}
	for _, i := range []int{-1 << 63, 1<<63 - 1} {
		if strutils.IsRuneBoundary(s, i) {
			t.failf("IsRuneBoundary(%d) = true", i)
		}
	}
	before := make([]int, len(s)+1) // characters starting before
	bound := make([]bool, len(s)+1)
	n := 0
	for i := range s {
		bound[i] = true
		for k := 1; k <= runeLen(s[i:]); k++ {
			before[i+k] = n
		}
		n++
		before[i+runeLen(s[i:])] = n
	}
	bound[len(s)] = true
	// characters before byte i, where i is inside a character: those which
	// start before it, without the one holding it.
	c := strutils.NewBytesToRuneOffsetConverter(s)
	if s == "" {
		if got := c.Convert(strutils.ByteOffsets{}); got.Start != 0 || got.End != 0 {
			t.failf("the empty text gives %v", got)
		}
		return
	}
	try := func(a, b int) {
		got := c.Convert(strutils.ByteOffsets{Start: a, End: b})
		if got.Start != before[a] {
			t.failf("Convert([%d,%d)) = %v, expected start %d", a, b, got, before[a])
		}
		if bound[b] && got.End != before[b] {
			t.failf("Convert([%d,%d)) = %v, expected end %d", a, b, got, before[b])
		}
	}
	if len(s) < 14 {
		for a := 0; a <= len(s); a++ {
			for b := a; b <= len(s); b++ {
				try(a, b)
			}
		}
		return
	}
	for k := 0; k < 60; k++ {
		a := t.Intn(len(s) + 1)
		try(a, a+t.Intn(len(s)-a+1))
	}
}

var propC19 = property{
	rule: "every text of at most 5 symbols over {a, space, é, 😀, malformed byte} and random texts, all indices and ranges",
	enum: func(run func(func(*T))) {
		smallTexts(alpha5, 5, func(s string) { run(func(t *T) { checkC19(t, s) }) })
	},
	random: func(t *T) {
		s := t.genText(t.pick(2))
		if t.pick(300) {
			s = t.long(s, 66000)
		}
		checkC19(t, s)
	},
}

// ---- C21

// dump describes a value with everything it refers to, without following the
// types of other packages.
func dump(v reflect.Value, seen map[uintptr]bool, sb *strings.Builder) {
	if !v.IsValid() {
		sb.WriteString("invalid")
		return
	}
	ty := v.Type()
	if p := ty.PkgPath(); p != "" && !strings.Contains(p, "nlpodyssey") {
		fmt.Fprintf(sb, "%s", ty)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if seen[v.Pointer()] {
			sb.WriteString("@")
			return
		}
		seen[v.Pointer()] = true
		sb.WriteString("&")
		dump(v.Elem(), seen, sb)
	case reflect.Interface:
		dump(v.Elem(), seen, sb)
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			dump(v.Field(i), seen, sb)
			sb.WriteString(";")
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(v.Index(i), seen, sb)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var b strings.Builder
			dump(k, seen, &b)
			b.WriteString(":")
			dump(v.MapIndex(k), seen, &b)
			ks = append(ks, b.String())
		}
		sortStrings(ks)
		fmt.Fprintf(sb, "map%v", ks)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(sb, "%x", v.Pointer())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(sb, "%v", v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%v", v.Float())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(sb, "%d", v.Uint())
	default:
		fmt.Fprintf(sb, "%d", v.Int())
	}
}

func dumpOf(x interface{}) string {
	var sb strings.Builder
	dump(reflect.ValueOf(x), map[uintptr]bool{}, &sb)
	return sb.String()
}

func (t *T) genPre() (string, pretokenizers.PreTokenizer) {
	switch t.Intn(6) {
	case 0:
		return "bert", bertpretokenizer.New()
	case 1:
		if t.pick(3) {
			r := cRes2[t.Intn(len(cRes2))]
			return fmt.Sprintf("bytelevel %q", r), bytelevelpretokenizer.New(r, t.pick(2), t.pick(2))
		}
		b := t.pick(2)
		return fmt.Sprintf("bytelevel %v", b), bytelevelpretokenizer.New(bytelevelpretokenizer.DefaultSplittingRegexp, b, t.pick(2))
	case 2:
		r := t.genRune()
		if t.pick(3) {
			r = []rune{-1, 0xd800, 0x110000, 0xfffd, ' '}[t.Intn(5)]
		}
		b := t.pick(2)
		return fmt.Sprintf("metaspace %q %v", r, b), metaspacepretokenizer.New(r, b)
	case 3:
		r := t.genRune()
		if t.pick(3) {
			r = []rune{-1, 0xd800, 0x110000, 0xfffd, ' '}[t.Intn(5)]
		}
		return fmt.Sprintf("delimiter %q", r), runedelimiterpretokenizer.New(r)
	case 4:
		if t.pick(2) {
			r := cRes2[t.Intn(len(cRes2))]
			return fmt.Sprintf("word %q", r), whitespacepretokenizer.New(r)
		}
		return "word", whitespacepretokenizer.NewDefault()
	default:
		return "whitespace split", whitespacesplitpretokenizer.New()
	}
}

// result runs one component on one text and describes the result.
func (t *T) genComponent() (name string, comp interface{}, run func(s string) string) {
	switch t.Intn(5) {
	case 0:
		m := t.genNorm(2)
		return m.name, m.n, func(s string) string {
			ns := normalizedstring.FromString(s)
			err := m.n.Normalize(ns)
			return fmt.Sprint(t.look(ns), err)
		}
	case 1:
		n, p := t.genPre()
		return n, p, func(s string) string {
			pts := pretokenizedstring.FromString(s)
			err := p.PreTokenize(pts)
			var out []string
			for _, x := range pieces(pts) {
				out = append(out, t.look(x.ns).String())
			}
			return fmt.Sprint(out, err)
		}
	case 2:
		n, p, _ := t.genSP("a é😀b")
		return n, p, func(s string) string { c, err := p.FindMatches(s); return fmt.Sprint(c, err) }
	case 3:
		c := t.genBPE()
		if c.dropout > 0 && c.dropout < 1 {
			return "bpe with dropout", c.m, func(s string) string { _, _ = c.m.Tokenize(s); return "" }
		}
		return "bpe", c.m, func(s string) string { k, err := c.m.Tokenize(s); return fmt.Sprint(k, err) }
	default:
		c := t.genWP()
		return "wordpiece", c.m, func(s string) string { k, err := c.m.Tokenize(s); return fmt.Sprint(k, err) }
	}
}

var propC21 = property{
	rule: "random components (normalizers, pre-tokenizers, patterns, models) applied to 2-6 random texts: a deep dump of the component before and after each call, and the same result when a text comes again; and groups of calls with different components in two orders, in two processes, with the same results",
	random: func(t *T) {
		if t.n%400 == 399 {
			checkHistory(t)
			return
		}
		n, comp, run := t.genComponent()
		t.in("%s", n)
		before := dumpOf(comp)
		texts := []string{t.bpeWord(), t.genText(false), t.bpeWord()}
		for k := t.Intn(3); k > 0; k-- {
			texts = append(texts, t.genText(t.pick(2)))
		}
		first := map[string]string{}
		for k := 0; k < 2; k++ {
			for _, s := range texts {
				t.in("on %q", s)
				r := run(s)
				if a := dumpOf(comp); a != before {
					t.failf("the component changed from %s to %s", clip(before, 1500), clip(a, 1500))
				}
				if o, ok := first[s]; ok && o != r {
					t.failf("the result changed from %s to %s", clip(o, 1000), clip(r, 1000))
				}
				first[s] = r
			}
		}
	},
}

// ---- C22

var errProbe = errors.New("x")

func checkC22(t *T, s string) {
	t.in("text %q", s)
	ns := normalizedstring.FromString(s)
	for k := t.Intn(3); k > 0; k-- {
		m := t.genNorm(2)
		t.in("%s", m.name)
		m.n.Normalize(ns)
	}
	p := pretokenizedstring.FromNormalizedString(ns)
	for k := t.Intn(3); k > 0; k-- {
		n, pre := t.genPre()
		t.in("%s", n)
		if err := pre.PreTokenize(p); err != nil {
			t.in("  fails")
		}
	}
	var model models.Model
	if t.pick(2) {
		model = t.genBPE().m
	} else {
		model = t.genWP().m
	}
	p.Tokenize(func(ns *NS) ([]models.Token, error) { return model.Tokenize(ns.Get()) })
	enc, err := p.IntoEncoding(t.Intn(3)-1, 0)
	p.GetNormalizedByteSplits()
	p.GetOriginalByteSplits()
	if err == nil {
		conv := strutils.NewBytesToRuneOffsetConverter(s)
		for _, o := range enc.Offsets {
			if 0 <= o.Start && o.Start <= o.End && o.End <= len(s) {
				conv.Convert(o)
			}
		}
	}
	for _, x := range pieces(p) {
		x.ns.OriginalAlignments()
	}
}

var propC22 = property{
	rule: "every text of at most 4 symbols over {a, space, é, 😀, malformed byte} and random byte strings through random chains of normalizers, pre-tokenizers and a model to the encoding",
	enum: func(run func(func(*T))) {
		smallTexts(alpha5, 4, func(s string) {
			for k := 0; k < 4; k++ {
				run(func(t *T) { checkC22(t, s) })
			}
		})
	},
	random: func(t *T) {
		s := t.genText(false)
		if t.pick(4) {
			b := make([]byte, t.Intn(20))
			for i := range b {
				b[i] = byte(t.Intn(256))
			}
			s = string(b)
		}
		checkC22(t, s)
	},
}

var _ = splitpattern.FromRune
var _ = regexp2.None
var _ = errProbe
