package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/strutils"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

var (
	tmpOnce sync.Once
	tmpDir  string
)

// scratch is a directory of its own, removed by the caller of the harness.
func scratch() string {
	tmpOnce.Do(func() {
		d, err := ioutil.TempDir("", "vharness")
		if err != nil {
			panic(err)
		}
		tmpDir = d
	})
	return tmpDir
}

func cleanup() {
	if tmpDir != "" {
		os.RemoveAll(tmpDir)
	}
}

func (t *T) tempFile(content []byte) string {
	f, err := ioutil.TempFile(scratch(), "f")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	f.Write(content)
	return f.Name()
}

// ---- C11

type bij struct {
	ids   map[string]int
	terms []string
}

func (t *T) sameVocab(v *vocabulary.Vocabulary, b *bij, probes []string) {
	if v.Size() != len(b.terms) {
		t.failf("size %d, expected %d", v.Size(), len(b.terms))
	}
	for i, s := range b.terms {
		if id, ok := v.GetID(s); !ok || id != i {
			t.failf("GetID(%q) = %d, %v, expected %d", s, id, ok, i)
		}
		if x, ok := v.GetString(i); !ok || x != s {
			t.failf("GetString(%d) = %q, %v, expected %q", i, x, ok, s)
		}
	}
	for _, i := range []int{-1, len(b.terms), len(b.terms) + 1, 1 << 40} {
		if x, ok := v.GetString(i); ok {
			t.failf("GetString(%d) = %q for an absent id", i, x)
		}
	}
	for _, s := range probes {
		if _, in := b.ids[s]; !in {
			if i, ok := v.GetID(s); ok {
				t.failf("GetID(%q) = %d for an absent term", s, i)
			}
		}
	}
}

var propC11 = property{
	rule: "random sequences of at most 200 additions to an empty vocabulary or one loaded from a JSON file (ids 0..n-1), all lookups after each step, after some or at the end; malformed and missing files",
	random: func(t *T) {
		b := &bij{ids: map[string]int{}}
		add := func(s string) bool {
			if _, ok := b.ids[s]; ok {
				return false
			}
			b.ids[s] = len(b.terms)
			b.terms = append(b.terms, s)
			return true
		}
		v := vocabulary.NewVocabulary()
		switch {
		case t.pick(12):
			bad := []string{"", "{", "[]", "3", `{"a":"b"}`, `{"a":1.5}`, `{"a":0} x`, `"x"`}[t.Intn(8)]
			t.in("FromJSONFile(%s)", bad)
			f := t.tempFile([]byte(bad))
			defer os.Remove(f)
			if t.pick(4) {
				f = filepath.Join(scratch(), "missing")
			}
			if w, err := vocabulary.FromJSONFile(f); err == nil || w != nil {
				t.failf("a malformed or missing file is accepted")
			}
			return
		case t.pick(3):
			n := t.Intn(12)
			for i := 0; i < n; i++ {
				add(t.genText(true))
			}
			data, _ := json.Marshal(b.ids)
			if n == 0 && t.pick(2) {
				data = []byte("null")
			}
			t.in("FromJSONFile(%s)", data)
			f := t.tempFile(data)
			defer os.Remove(f)
			var err error
			if v, err = vocabulary.FromJSONFile(f); err != nil {
				t.failf("FromJSONFile fails: %v", err)
			}
		default:
			t.in("NewVocabulary()")
		}
		probes := []string{"", "a", "zz", t.genShort(false)}
		// what was looked up before must not matter
		every := 1 + t.Intn(4)
		look := func() {
			if t.pick(every) {
				t.sameVocab(v, b, probes)
			}
		}
		look()
		steps := t.Intn(12)
		if t.pick(20) {
			steps = t.Intn(200)
		}
		for k := steps; k > 0; k-- {
			s := t.genShort(false)
			if len(b.terms) > 0 && t.pick(4) {
				s = b.terms[t.Intn(len(b.terms))]
			}
			t.in("AddTerm(%q)", s)
			v.AddTerm(s)
			add(s)
			if k < 12 {
				look()
			}
		}
		t.sameVocab(v, b, probes)
	},
}

// ---- C12, C13

// sym is a symbol of the reference segmentation.
type sym struct{ id, n int }

type pairKey [2]int

type mergeTable map[pairKey]bpemodel.MergeValue

// refMerge merges by rank, leftmost first, to a fixpoint.
func refMerge(w []sym, mt mergeTable) []sym {
	w = append([]sym{}, w...)
	for {
		best := -1
		var bm bpemodel.MergeValue
		for i := 0; i+1 < len(w); i++ {
			if m, ok := mt[pairKey{w[i].id, w[i+1].id}]; ok && (best < 0 || m.Rank < bm.Rank) {
				best, bm = i, m
			}
		}
		if best < 0 {
			return w
		}
		w[best] = sym{bm.ID, w[best].n + w[best+1].n}
		w = append(w[:best+1], w[best+2:]...)
	}
}

func (mt mergeTable) real() *bpemodel.MergeMap {
	m := bpemodel.NewMergeMap()
	for k, v := range mt {
		m.Set(k[0], k[1], v)
	}
	return m
}

func (mt mergeTable) String() string {
	var ks []string
	for k, v := range mt {
		ks = append(ks, fmt.Sprintf("%d+%d->%d@%d", k[0], k[1], v.ID, v.Rank))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// genTable draws a table in which the merged symbol identifies the pair.
func (t *T) genTable(base int) mergeTable {
	mt := mergeTable{}
	next := base
	used := map[int]bool{}
	for k := t.Intn(10); k > 0; k-- {
		a, b := t.Intn(next), t.Intn(next)
		if t.pick(3) {
			b = a
		}
		if _, ok := mt[pairKey{a, b}]; ok {
			continue
		}
		id := next
		if t.pick(8) {
			id = t.Intn(next) // may make cycles
		} else {
			next++
		}
		if used[id] {
			continue
		}
		used[id] = true
		mt[pairKey{a, b}] = bpemodel.MergeValue{Rank: t.Intn(8), ID: id}
	}
	return mt
}

func wordSyms(w *bpemodel.Word) (out []sym) {
	for _, s := range *w {
		out = append(out, sym{s.ID, s.Length})
	}
	return
}

func checkMergeAll(t *T, ids []int, lens []int, mt mergeTable) {
	t.in("word %v lengths %v table %v", ids, lens, mt)
	var in []sym
	for i := range ids {
		in = append(in, sym{ids[i], lens[i]})
	}
	mk := func() *bpemodel.Word {
		w := bpemodel.NewWord()
		if t.pick(2) {
			w = bpemodel.NewWordWithCapacity(len(ids))
		}
		for _, s := range in {
			w.Add(s.id, s.n)
		}
		return w
	}
	m := mt.real()
	w := mk()
	w.MergeAll(m, 0)
	got, want := wordSyms(w), refMerge(in, mt)
	if w.Len() != len(got) || !sameSyms(got, want) {
		t.failf("the merges give %v, expected %v", got, want)
	}
	// Dropout.
	w = mk()
	w.MergeAll(m, 1)
	if got := wordSyms(w); !sameSyms(got, in) {
		t.failf("merges happen with dropout 1: %v", got)
	}
	p := []float64{0.1, 0.5, 0.9}[t.Intn(3)]
	w = mk()
	w.MergeAll(m, p)
	got = wordSyms(w)
	pos, start := 0, 0
	for _, g := range got {
		for n := 0; n < g.n && pos < len(in); pos++ {
			n += in[pos].n
			if n > g.n {
				t.failf("with dropout %v the symbols are %v", p, got)
			}
		}
		if !derivable(in[start:pos], g.id, mt) {
			t.failf("with dropout %v symbol %v of %v does not arise from merges", p, g, got)
		}
		start = pos
	}
	if pos != len(in) {
		t.failf("with dropout %v symbols are lost: %v", p, got)
	}
}

// checkLongWord merges a word of one base symbol repeated, with a single
// merge, possibly behind another symbol.
func checkLongWord(t *T, n int) {
	lead := t.Intn(2)
	t.in("word of %d symbols 7 and %d symbols 0, merge of 0 and 0 only", lead, n)
	m := bpemodel.NewMergeMap()
	m.Set(0, 0, bpemodel.MergeValue{Rank: 3, ID: 1})
	w := bpemodel.NewWord()
	var want []sym
	for i := 0; i < lead; i++ {
		w.Add(7, 2)
		want = append(want, sym{7, 2})
	}
	for i := 0; i < n; i++ {
		w.Add(0, 1)
	}
	for i := 0; i+1 < n; i += 2 {
		want = append(want, sym{1, 2})
	}
	if n%2 == 1 {
		want = append(want, sym{0, 1})
	}
	w.MergeAll(m, 0)
	if got := wordSyms(w); !sameSyms(got, want) {
		t.failf("the symbols are not merged from the left: %d symbols, expected %d", len(got), len(want))
	}
}

func sameSyms(a, b []sym) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// derivable tells whether the symbols can be merged into the id.
func derivable(w []sym, id int, mt mergeTable) bool {
	n := len(w)
	if n == 0 {
		return false
	}
	cky := map[[2]int]map[int]bool{}
	for l := 1; l <= n; l++ {
		for i := 0; i+l <= n; i++ {
			s := map[int]bool{}
			if l == 1 {
				s[w[i].id] = true
			}
			for k := 1; k < l; k++ {
				for a := range cky[[2]int{i, i + k}] {
					for b := range cky[[2]int{i + k, i + l}] {
						if m, ok := mt[pairKey{a, b}]; ok {
							s[m.ID] = true
						}
					}
				}
			}
			cky[[2]int{i, i + l}] = s
		}
	}
	return cky[[2]int{0, n}][id]
}

var propC13 = property{
	rule: "random merge tables over 2-4 base symbols in which the merged symbol identifies the pair, every word of at most 5 base symbols for enumerated tables, random words of at most 14 symbols and now and then 70, repeated symbols up to 33000; dropout 0, 1 and between",
	enum: func(run func(func(*T))) {
		for k := 0; k < 40; k++ {
			var rec func(ids []int)
			var mt mergeTable
			run(func(t *T) { mt = t.genTable(2) })
			rec = func(ids []int) {
				run(func(t *T) {
					lens := make([]int, len(ids))
					for i := range lens {
						lens[i] = 1 + i%3
					}
					checkMergeAll(t, ids, lens, mt)
				})
				if len(ids) < 5 {
					rec(append(append([]int{}, ids...), 0))
					rec(append(append([]int{}, ids...), 1))
				}
			}
			rec(nil)
		}
	},
	random: func(t *T) {
		if t.pick(300) {
			checkLongWord(t, []int{300, 3000, 33000}[t.Intn(3)]+t.Intn(4))
			return
		}
		base := 2 + t.Intn(3)
		mt := t.genTable(base)
		n := t.Intn(14)
		if t.pick(25) {
			n = t.Intn(70)
		}
		same := t.pick(6)
		ids, lens := make([]int, n), make([]int, n)
		for i := range ids {
			ids[i] = t.Intn(base)
			if t.pick(8) {
				ids[i] = t.Intn(base + 3)
			}
			if same {
				ids[i] = ids[0]
			}
			lens[i] = 1 + t.Intn(4)
		}
		checkMergeAll(t, ids, lens, mt)
	},
}

type bpeCase struct {
	vocab      []string
	mt         mergeTable
	unk        string
	prefix     string
	suffix     string
	fuse       bool
	cap        int
	v          *vocabulary.Vocabulary
	m          *bpemodel.BPEModel
	ids        map[string]int
	dropout    float64
	unkMissing bool
}

// genBPE draws a vocabulary with merges which concatenate terms.
func (t *T) genBPE() *bpeCase {
	c := &bpeCase{mt: mergeTable{}, ids: map[string]int{}, v: vocabulary.NewVocabulary()}
	if t.pick(60) {
		c.m = bpemodel.NewDefault()
		t.in("BPE NewDefault()")
		return c
	}
	add := func(s string) int {
		if id, ok := c.ids[s]; ok {
			return id
		}
		c.v.AddTerm(s)
		c.ids[s] = len(c.vocab)
		c.vocab = append(c.vocab, s)
		return c.ids[s]
	}
	if t.pick(2) {
		c.prefix = []string{"##", "@", "é", "a"}[t.Intn(4)]
	}
	if t.pick(2) {
		c.suffix = []string{"</w>", "$", "é", "b"}[t.Intn(4)]
	}
	c.fuse = t.pick(2)
	c.cap = []int{0, 1, 100}[t.Intn(3)]
	if !t.pick(3) {
		c.unk = []string{"<unk>", "a", "é"}[t.Intn(3)]
		if t.pick(8) {
			c.unkMissing = true
			c.unk = "missing"
		} else {
			add(c.unk)
		}
	}
	alpha := []string{"a", "b", "c", "é", "😀", "\ufffd", " "}
	full := c.unk == "" || t.pick(3)
	for _, a := range alpha {
		for _, s := range []string{a, c.prefix + a, a + c.suffix, c.prefix + a + c.suffix} {
			if full || t.pick(2) {
				add(s)
			}
		}
	}
	n := len(c.vocab)
	strays := t.pick(6)
	for k := t.Intn(12); k > 0 && n > 0; k-- {
		stray := strays && t.pick(3)
		l, r := t.Intn(len(c.vocab)), t.Intn(n)
		if t.pick(3) {
			r = t.Intn(len(c.vocab))
		}
		right := c.vocab[r]
		if strings.HasPrefix(right, c.prefix) {
			right = right[len(c.prefix):]
		}
		var id int
		if stray {
			// a merge whose result is not a vocabulary term
			id = 1000 + k
		} else {
			id = add(c.vocab[l] + right)
		}
		dup := false
		for _, m := range c.mt {
			dup = dup || m.ID == id
		}
		if !dup {
			c.mt[pairKey{l, r}] = bpemodel.MergeValue{Rank: len(c.mt), ID: id}
		}
	}
	if t.pick(4) {
		c.dropout = []float64{0.3, 1}[t.Intn(2)]
	}
	c.m = bpemodel.New(c.v, c.mt.real(), c.cap, c.dropout, c.unk, c.prefix, c.suffix, c.fuse)
	t.in("BPE vocab %q merges %v unk %q prefix %q suffix %q fuse %v dropout %v", c.vocab, c.mt, c.unk, c.prefix, c.suffix, c.fuse, c.dropout)
	return c
}

func (t *T) bpeWord() string {
	alpha := []string{"a", "b", "c", "é", "😀", "a", "b", "x", "y", "\xff", " ", "\xe2\x82", "中"}
	var sb strings.Builder
	n := t.Intn(9)
	if t.pick(30) {
		n = t.Intn(60)
		if t.pick(4) {
			n = t.genLen()
		}
	}
	for ; n > 0; n-- {
		sb.WriteString(alpha[t.Intn(len(alpha))])
	}
	return sb.String()
}

// initial gives the symbols of the characters; ok is false when some
// character is unknown and there is no unknown token.
func (c *bpeCase) initial(w string) (out []sym, ok bool) {
	ok = true
	prevUnk := false
	for i, r := range w {
		n := runeLen(w[i:])
		s := string(r)
		if i > 0 {
			s = c.prefix + s
		}
		if i+n == len(w) {
			s += c.suffix
		}
		if id, in := c.ids[s]; in {
			out = append(out, sym{id, n})
			prevUnk = false
			continue
		}
		if c.unk == "" {
			ok = false
			continue
		}
		if prevUnk && c.fuse {
			out[len(out)-1].n += n
		} else {
			out = append(out, sym{c.ids[c.unk], n})
		}
		prevUnk = true
	}
	return
}

func (t *T) checkBPE(c *bpeCase, w string) {
	t.in("Tokenize(%q)", w)
	toks, err := c.m.Tokenize(w)
	if w == "" {
		if err != nil || len(toks) != 0 {
			t.failf("the empty word gives %v, %v", toks, err)
		}
		return
	}
	if c.unkMissing {
		if err == nil {
			t.failf("the missing unknown token is not reported")
		}
		return
	}
	in, ok := c.initial(w)
	if !ok {
		return
	}
	want := in
	if c.dropout == 0 {
		want = refMerge(in, c.mt)
	}
	for _, m := range c.mt {
		if err != nil && m.ID >= len(c.vocab) && c.dropout > 0 {
			return
		}
	}
	for _, k := range want {
		if err != nil && k.id >= len(c.vocab) {
			return
		}
	}
	if err != nil {
		t.failf("Tokenize fails: %v", err)
	}
	pos := 0
	for _, k := range toks {
		if k.Offsets.Start != pos || k.Offsets.End <= pos {
			t.failf("the ranges of %v are not consecutive", toks)
		}
		pos = k.Offsets.End
		if k.ID < 0 || k.ID >= len(c.vocab) || c.vocab[k.ID] != k.Value {
			t.failf("token %v does not carry the term of its id", k)
		}
	}
	if pos != len(w) {
		t.failf("the tokens %v do not cover the %d bytes", toks, len(w))
	}
	if c.dropout > 0 && c.dropout < 1 {
		return
	}
	if len(want) != len(toks) {
		t.failf("the tokens are %v, expected %v", toks, want)
	}
	for i := range want {
		if toks[i].ID != want[i].id || toks[i].Offsets.End-toks[i].Offsets.Start != want[i].n {
			t.failf("the tokens are %v, expected %v", toks, want)
		}
	}
}

var propC12 = property{
	rule: "random vocabularies over 7 characters with and without prefix, suffix, unknown token, fusion and dropout, and random words with unknown, multi-byte and malformed characters",
	random: func(t *T) {
		c := t.genBPE()
		t.checkBPE(c, "")
		var words []string
		for k := 0; k < 8; k++ {
			w := t.bpeWord()
			if len(words) > 0 && t.pick(3) {
				// a word again, or a variation of one
				old := words[t.Intn(len(words))]
				switch t.Intn(4) {
				case 0:
					w = old + w
				case 1:
					w = w + old
				case 2:
					w = strings.ToUpper(old)
				default:
					w = old
				}
			}
			words = append(words, w)
			t.checkBPE(c, w)
		}
	},
}

// ---- C14

type wpCase struct {
	ids    map[string]int
	vocab  []string
	unk    string
	prefix string
	max    int
	m      *wordpiecemodel.WordPieceModel
	v      *vocabulary.Vocabulary
}

func (t *T) genWP() *wpCase {
	c := &wpCase{ids: map[string]int{}, v: vocabulary.NewVocabulary()}
	add := func(s string) {
		if _, ok := c.ids[s]; !ok {
			c.v.AddTerm(s)
			c.ids[s] = len(c.vocab)
			c.vocab = append(c.vocab, s)
		}
	}
	c.prefix = []string{"##", "", "a", "é"}[t.Intn(4)]
	c.unk = "[UNK]"
	if !t.pick(8) {
		add(c.unk)
	}
	alpha := []string{"a", "b", "é", "😀", "中", "x", "\xff"}
	for n := 2 + t.Intn(24); n > 0; n-- {
		s := ""
		for k := 1 + t.Intn(3); k > 0; k-- {
			s += alpha[t.Intn(len(alpha))]
		}
		if t.pick(2) {
			s = c.prefix + s
		}
		add(s)
	}
	if !t.pick(3) {
		for _, a := range alpha {
			if !t.pick(6) {
				add(c.prefix + a)
			}
			if !t.pick(6) {
				add(a)
			}
		}
	}
	c.max = []int{100, 5, 1, 0, 3}[t.Intn(5)]
	c.m = wordpiecemodel.New(c.v, c.unk, c.prefix, c.max)
	t.in("WordPiece vocab %q prefix %q max %d", c.vocab, c.prefix, c.max)
	return c
}

func (c *wpCase) ref(w string) ([]models.Token, bool) {
	if len(runesOf(w)) > c.max {
		return nil, false
	}
	bs := boundariesC(w)
	var out []models.Token
	for start := 0; start < len(w); {
		found := false
		for i := len(bs) - 1; i >= 0 && bs[i] > start; i-- {
			s := w[start:bs[i]]
			if start > 0 {
				s = c.prefix + s
			}
			if id, ok := c.ids[s]; ok {
				out = append(out, models.Token{ID: id, Value: s, Offsets: strutils.ByteOffsets{Start: start, End: bs[i]}})
				start = bs[i]
				found = true
				break
			}
		}
		if !found {
			return nil, false
		}
	}
	return out, true
}

// boundariesC gives the indices at which a character can start.
func boundariesC(s string) (bs []int) {
	for i := 0; i <= len(s); i++ {
		if onBoundary(s, i) {
			bs = append(bs, i)
		}
	}
	return
}

func (t *T) checkWP(c *wpCase, w string) {
	t.in("Tokenize(%q)", w)
	toks, err := c.m.Tokenize(w)
	want, ok := c.ref(w)
	if !ok {
		id, in := c.ids[c.unk]
		if !in {
			if err == nil {
				t.failf("the missing unknown token is not reported")
			}
			return
		}
		want = []models.Token{{ID: id, Value: c.unk, Offsets: strutils.ByteOffsets{Start: 0, End: len(w)}}}
	}
	if err != nil {
		t.failf("Tokenize fails: %v", err)
	}
	if len(toks) != len(want) {
		t.failf("the tokens are %v, expected %v", toks, want)
	}
	for i := range want {
		if toks[i] != want[i] {
			t.failf("the tokens are %v, expected %v", toks, want)
		}
	}
}

var propC14 = property{
	rule: "random vocabularies over 7 symbols of 1-4 bytes, prefixes and limits, and random words, also longer than the limit",
	random: func(t *T) {
		c := t.genWP()
		if t.pick(40) {
			// an empty vocabulary: not even the unknown token is in it
			c = &wpCase{ids: map[string]int{}, unk: "[UNK]", prefix: "##", max: 100, m: wordpiecemodel.NewDefault()}
			t.in("NewDefault()")
		}
		alpha := []string{"a", "b", "é", "😀", "中", "x", "a", "\xff", "\xe2\x82"}
		t.checkWP(c, "")
		for k := 0; k < 8; k++ {
			n := t.Intn(8)
			if t.pick(4) {
				n = c.max + t.Intn(3) - 1
			}
			m := len(alpha)
			if !t.pick(3) {
				m -= 2
			}
			w := ""
			for ; n > 0; n-- {
				w += alpha[t.Intn(m)]
			}
			t.checkWP(c, w)
		}
	},
}

// ---- C20

var propC20 = property{
	rule: "random merge files of at most 12 lines (CRLF, headers, repeated pairs, missing terms, extra spaces, short terms, too long lines, no final newline), prefix lengths 0-4, a directory and a missing file",
	random: func(t *T) {
		v := vocabulary.NewVocabulary()
		ids := map[string]int{}
		pl := t.Intn(4)
		if t.pick(3) {
			pl = 0
		}
		terms := []string{"a", "b", "é", "##a", "##b", "ab", "abc", "", "#", "#version", "#v"}
		for n := t.Intn(4); n > 0; n-- {
			terms = append(terms, t.genShort(true))
		}
		add := func(s string) {
			if _, ok := ids[s]; !ok {
				ids[s] = len(ids)
				v.AddTerm(s)
			}
		}
		for _, s := range terms {
			if !t.pick(8) {
				add(s)
			}
		}
		eol := "\n"
		if t.pick(4) {
			eol = "\r\n"
		}
		var sb strings.Builder
		n := t.Intn(8)
		if t.pick(10) {
			n = t.Intn(60)
		}
		var keep []string
		for k := 0; k < n; k++ {
			l, r := terms[t.Intn(len(terms))], terms[t.Intn(len(terms))]
			line := l + " " + r
			switch {
			case t.pick(12):
				line = []string{"#version: 0.2", "#version", "#versionx y z"}[t.Intn(3)]
			case t.pick(60):
				line = []string{"", "a", "a  b", "a b ", " a b", "a b c", "a\tb", "\ufeffa b", "#version 1 2 "}[t.Intn(9)]
			case t.pick(400):
				line = l + " " + strings.Repeat("a", 65530+t.Intn(12))
			default:
				if t.pick(6) && len(keep) > 0 {
					line = keep[t.Intn(len(keep))]
					break
				}
				if !t.pick(30) {
					for i := 0; i < 20 && (len(r) < pl || strings.ContainsAny(l+r, " \n\r")); i++ {
						l, r = terms[t.Intn(len(terms))], terms[t.Intn(len(terms))]
					}
					if len(r) >= pl {
						line = l + " " + r
						add(l)
						add(r)
						add(l + r[pl:])
					}
				}
				keep = append(keep, line)
			}
			sb.WriteString(line)
			if k < n-1 || !t.pick(3) {
				sb.WriteString(eol)
			}
		}
		content := sb.String()
		t.in("merge file %s, prefix length %d, vocabulary %v", clip(fmt.Sprintf("%q", content), 2000), pl, ids)
		f := t.tempFile([]byte(content))
		defer os.Remove(f)
		if t.pick(40) {
			f = scratch()
			t.in("a directory")
			if m, err := bpemodel.MergeMapFromFile(f, v, pl); err == nil || m != nil {
				t.failf("reading a directory gives %v, %v", m, err)
			}
			return
		}
		if t.pick(40) {
			if m, err := bpemodel.MergeMapFromFile(filepath.Join(scratch(), "missing"), v, pl); err == nil || m != nil {
				t.failf("a missing file gives %v, %v", m, err)
			}
			return
		}
		got, err := bpemodel.MergeMapFromFile(f, v, pl)
		want := mergeTable{}
		bad := ""
		rank := 0
		lines := strings.Split(content, "\n")
		if lines[len(lines)-1] == "" {
			lines = lines[:len(lines)-1]
		}
		long := false
		for _, l := range lines {
			if len(l) > 65000 {
				long = true // may exceed the line limit of the reader
			}
			l = strings.TrimSuffix(l, "\r")
			if strings.HasPrefix(l, "#version") {
				continue
			}
			p := strings.Split(l, " ")
			if len(p) != 2 {
				bad = "not two terms"
				break
			}
			a, aok := ids[p[0]]
			b, bok := ids[p[1]]
			if !aok || !bok || len(p[1]) < pl {
				bad = "missing or short term"
				break
			}
			m, mok := ids[p[0]+p[1][pl:]]
			if !mok {
				bad = "missing merged term"
				break
			}
			want[pairKey{a, b}] = bpemodel.MergeValue{Rank: rank, ID: m}
			rank++
		}
		if err != nil {
			if got != nil {
				t.failf("a table is returned with the error %v", err)
			}
			if bad == "" && !long {
				t.failf("the file is rejected: %v", err)
			}
			return
		}
		if bad != "" {
			t.failf("the file is accepted: %s", bad)
		}
		if len(*got) != len(want) {
			t.failf("the table has %d entries, expected %v", len(*got), want)
		}
		for k, m := range want {
			if g, ok := got.Get(k[0], k[1]); !ok || g != m {
				t.failf("pair %v has %v %v, expected %v", k, g, ok, m)
			}
		}
	},
}
