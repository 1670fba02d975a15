package main

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/splitpattern"
	"github.com/nlpodyssey/gotokenizers/strutils"
)

type PTS = pretokenizedstring.PreTokenizedString

var errX = errors.New("x")

type piece struct {
	ns  *NS
	tok *[]models.Token
}

func pieces(p *PTS) (ps []piece) {
	for _, s := range p.Splits() {
		ps = append(ps, piece{s.NormalizedString, s.Tokens})
	}
	return
}

func (t *T) samePieces(got, want []piece, what string) {
	if len(got) != len(want) {
		t.failf("%s gives %d pieces, expected %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			t.failf("%s: piece %d is %v, expected %v", what, i, got[i], want[i])
		}
	}
}

func (t *T) genTokens(s string, valid bool) []models.Token {
	toks := []models.Token{}
	if t.pick(8) {
		return nil
	}
	for n := t.Intn(4); n > 0; n-- {
		a, b := t.genRangeOn(s)
		if t.pick(6) {
			a, b = t.Intn(len(s)+1), t.Intn(len(s)+1)
			if a > b {
				a, b = b, a
			}
		}
		if !valid && t.pick(3) {
			b = a + t.Intn(7) - 1
		}
		toks = append(toks, models.Token{ID: t.Intn(9), Value: t.genShort(true), Offsets: strutils.ByteOffsets{Start: a, End: b}})
	}
	return toks
}

// genPTS builds a pre-tokenized text by random operations, checking each.
func (t *T) genPTS(n int) (*PTS, []piece) {
	ns, _ := t.genNS(t.pick(2))
	t.edit(ns, t.look(ns))
	p := pretokenizedstring.FromNormalizedString(ns)
	if t.pick(4) {
		p = pretokenizedstring.FromString(ns.Get())
		cur := pieces(p)
		if len(cur) != 1 || cur[0].tok != nil || cur[0].ns.Get() != ns.Get() || cur[0].ns.GetOriginal() != ns.Get() {
			t.failf("FromString gives %v", cur)
		}
	} else {
		t.samePieces(pieces(p), []piece{{ns, nil}}, "FromNormalizedString")
	}
	cur := pieces(p)
	for k := 0; k < n; k++ {
		cur = t.ptsOp(p, cur)
	}
	return p, cur
}

func (t *T) ptsOp(p *PTS, cur []piece) []piece {
	failAt := -1
	if t.pick(5) {
		failAt = t.Intn(3)
	}
	calls := 0
	switch op := t.Intn(5); op {
	case 0, 1, 2:
		t.in("Split")
		next := []piece{}
		i := 0
		bad := ""
		skip := func() {
			for i < len(cur) && cur[i].tok != nil {
				next = append(next, cur[i])
				i++
			}
		}
		err := p.Split(func(index int, ns *NS) ([]pretokenizedstring.Split, error) {
			skip()
			if i >= len(cur) {
				bad = "too many calls"
				return nil, errX
			}
			if index != i || ns != cur[i].ns {
				bad = fmt.Sprintf("call for piece %d, expected %d", index, i)
			}
			i++
			calls++
			if calls-1 == failAt {
				t.in("  fails at piece %d", index)
				if t.pick(2) {
					return []pretokenizedstring.Split{{NormalizedString: ns}}, errX
				}
				return nil, errX
			}
			var out []pretokenizedstring.Split
			if t.pick(5) {
				t.in("  %d: nothing", index)
				return nil, nil
			}
			nss, err := ns.Split(splitpattern.FromFunc(func(r rune) bool { return r%3 == 0 }), normalizedstring.SplitDelimiterIsolated)
			if err != nil {
				nss = []*NS{ns}
			}
			t.in("  %d: %d pieces", index, len(nss))
			for _, x := range nss {
				if t.pick(6) {
					x.Filter(func(rune) bool { return false })
				}
				sp := pretokenizedstring.Split{NormalizedString: x}
				if t.pick(5) {
					toks := t.genTokens(x.Get(), true)
					sp.Tokens = &toks
				}
				out = append(out, sp)
				if x.Len() > 0 {
					next = append(next, piece{x, sp.Tokens})
				}
			}
			if t.pick(3) {
				if ss := pretokenizedstring.SplitsFromNormalizedStrings(nss); len(ss) != len(nss) {
					bad = "SplitsFromNormalizedStrings"
				} else {
					for i := range ss {
						if ss[i].NormalizedString != nss[i] || ss[i].Tokens != nil {
							bad = "SplitsFromNormalizedStrings"
						}
					}
				}
			}
			return out, nil
		})
		if bad != "" {
			t.failf("Split: %s", bad)
		}
		if failAt >= 0 && calls > failAt {
			if err != errX || calls != failAt+1 {
				t.failf("Split returns %v after %d calls, the callback failed at call %d", err, calls, failAt+1)
			}
			t.samePieces(pieces(p), cur, "a failed Split")
			return cur
		}
		skip()
		if err != nil || i != len(cur) {
			t.failf("Split: error %v, visited up to piece %d of %d", err, i, len(cur))
		}
		t.samePieces(pieces(p), next, "Split")
		return next
	case 3:
		t.in("Normalize")
		var seen, want []*NS
		for _, c := range cur {
			if c.tok == nil {
				want = append(want, c.ns)
			}
		}
		err := p.Normalize(func(ns *NS) error {
			seen = append(seen, ns)
			if len(seen)-1 == failAt {
				return errX
			}
			ns.ToUpper()
			return nil
		})
		if failAt >= 0 && failAt < len(want) {
			want = want[:failAt+1]
			if err != errX {
				t.failf("Normalize loses the error")
			}
		} else if err != nil {
			t.failf("Normalize fails: %v", err)
		}
		if len(seen) != len(want) {
			t.failf("Normalize visits %d pieces, expected %d", len(seen), len(want))
		}
		for i := range seen {
			if seen[i] != want[i] {
				t.failf("Normalize visits the wrong piece at call %d", i)
			}
		}
		t.samePieces(pieces(p), cur, "Normalize")
		return cur
	default:
		t.in("Tokenize")
		next := append([]piece{}, cur...)
		var seen []*NS
		var toks [][]models.Token
		err := p.Tokenize(func(ns *NS) ([]models.Token, error) {
			seen = append(seen, ns)
			tk := t.genTokens(ns.Get(), true)
			toks = append(toks, tk)
			if len(seen)-1 == failAt {
				return tk, errX
			}
			return tk, nil
		})
		k := 0
		got := pieces(p)
		if len(got) != len(cur) {
			t.failf("Tokenize changes the number of pieces")
		}
		failed := false
		for i, c := range cur {
			if got[i].ns != c.ns {
				t.failf("Tokenize changes piece %d", i)
			}
			if c.tok != nil || failed {
				if got[i].tok != c.tok {
					t.failf("Tokenize changes the tokens of piece %d", i)
				}
				continue
			}
			if k >= len(seen) || seen[k] != c.ns {
				t.failf("Tokenize does not visit piece %d in order", i)
			}
			if k == failAt {
				failed = true
				if got[i].tok != nil {
					t.failf("Tokenize attaches tokens to the piece which failed")
				}
				k++
				continue
			}
			if got[i].tok == nil || len(*got[i].tok)+len(toks[k]) > 0 && !reflect.DeepEqual(*got[i].tok, toks[k]) {
				t.failf("Tokenize attaches the wrong tokens to piece %d", i)
			}
			next[i].tok = got[i].tok
			k++
		}
		if k != len(seen) || failed != (err == errX) || !failed && err != nil {
			t.failf("Tokenize: %d calls, expected %d; error %v", len(seen), k, err)
		}
		return next
	}
}

func (t *T) checkReports(p *PTS, cur []piece) {
	o, n := p.GetOriginalByteSplits(), p.GetNormalizedByteSplits()
	if len(o) != len(cur) || len(n) != len(cur) {
		t.failf("the reports have %d and %d entries for %d pieces", len(o), len(n), len(cur))
	}
	pos := 0
	for i, c := range cur {
		v := t.look(c.ns)
		if o[i].String != v.text || o[i].Offsets.Start != v.shift || o[i].Offsets.End != v.shift+len(v.orig) || o[i].Tokens != c.tok {
			t.failf("the original report of piece %d %v is %v", i, v, o[i])
		}
		if n[i].String != v.text || n[i].Offsets.Start != pos || n[i].Offsets.End != pos+len(v.text) || n[i].Tokens != c.tok {
			t.failf("the normalized report of piece %d %v is %v", i, v, n[i])
		}
		pos += len(v.text)
	}
}

func checkC09(t *T, n int) {
	p, cur := t.genPTS(n)
	t.checkReports(p, cur)
}

var propC09 = property{
	rule:   "random texts, edited, then up to 6 random splits, normalizations and tokenizations with failing and succeeding callbacks",
	random: func(t *T) { checkC09(t, t.Intn(7)) },
}

func (t *T) checkEncoding(p *PTS, cur []piece) {
	wi := t.Intn(6) - 2
	ti := t.Intn(5) - 1
	t.in("IntoEncoding(%d, %d)", wi, ti)
	enc, err := p.IntoEncoding(wi, ti)
	miss := false
	var want encodings.Encoding
	for i, c := range cur {
		if c.tok == nil {
			miss = true
			continue
		}
		t.in("  piece %q shift %d tokens %v", c.ns.Get(), c.ns.OriginalOffsets().Start, *c.tok)
		v := t.look(c.ns)
		for _, k := range *c.tok {
			a, b := k.Offsets.Start, k.Offsets.End
			off := span{-1, -1} // not checked
			if a < b && a >= 0 && b <= len(v.text) {
				off = span{v.shift + v.al[a].s, v.shift + v.al[b-1].e}
			} else if a > b || a < b && a >= 0 && b > len(v.text) {
				off = span{a, b} // outside the piece
			}
			w := wi
			if wi < 0 {
				w = i
			}
			want.IDs = append(want.IDs, k.ID)
			want.Tokens = append(want.Tokens, k.Value)
			want.TypeIDs = append(want.TypeIDs, ti)
			want.Words = append(want.Words, w)
			want.SpecialTokensMask = append(want.SpecialTokensMask, 0)
			want.AttentionMask = append(want.AttentionMask, 1)
			want.Offsets = append(want.Offsets, strutils.ByteOffsets{Start: off.s, End: off.e})
		}
	}
	if miss {
		if err == nil || enc != nil {
			t.failf("a piece without tokens is accepted")
		}
		return
	}
	if err != nil {
		t.failf("IntoEncoding fails: %v", err)
	}
	n := len(want.IDs)
	if len(enc.IDs) != n || len(enc.Tokens) != n || len(enc.TypeIDs) != n || len(enc.Words) != n || len(enc.Offsets) != n || len(enc.SpecialTokensMask) != n || len(enc.AttentionMask) != n {
		t.failf("the lists of %v do not have %d entries", enc, n)
	}
	if enc.Len() != n || enc.IsEmpty() != (n == 0) {
		t.failf("Len %d, IsEmpty %v for %d tokens", enc.Len(), enc.IsEmpty(), n)
	}
	for i := 0; i < n; i++ {
		if enc.IDs[i] != want.IDs[i] || enc.Tokens[i] != want.Tokens[i] || enc.TypeIDs[i] != want.TypeIDs[i] || enc.Words[i] != want.Words[i] ||
			enc.SpecialTokensMask[i] != 0 || enc.AttentionMask[i] != 1 || want.Offsets[i].Start >= 0 && enc.Offsets[i] != want.Offsets[i] {
			t.failf("entry %d of %+v differs from the expected %+v", i, *enc, want)
		}
	}
	if len(enc.Overflowing) != 0 {
		t.failf("there are overflowing encodings")
	}
}

var propC10 = property{
	rule: "random pre-tokenized texts (edited, split, tokenized with random in-bounds token ranges), every word index -2..3 and type id -1..3",
	random: func(t *T) {
		p, cur := t.genPTS(t.Intn(5))
		if !t.pick(5) {
			// Tokenize what is left.
			if err := p.Tokenize(func(ns *NS) ([]models.Token, error) { return t.genTokens(ns.Get(), !t.pick(4)), nil }); err != nil {
				t.failf("Tokenize fails: %v", err)
			}
			cur = pieces(p)
		}
		if t.pick(30) {
			if err := p.Split(func(int, *NS) ([]pretokenizedstring.Split, error) { return nil, nil }); err != nil {
				t.failf("Split fails: %v", err)
			}
			cur = pieces(p)
		}
		t.checkEncoding(p, cur)
		if t.pick(40) {
			t.checkNewEncoding()
		}
	},
}

func (t *T) checkNewEncoding() {
	for _, e := range []*encodings.Encoding{encodings.NewDefaultEncoding(), encodings.NewEncodingWithCapacity(t.Intn(5)), encodings.EncodingFromEncodableTokens(nil)} {
		if e.Len() != 0 || !e.IsEmpty() || len(e.IDs)+len(e.TypeIDs)+len(e.Tokens)+len(e.Words)+len(e.Offsets)+len(e.SpecialTokensMask)+len(e.AttentionMask)+len(e.Overflowing) != 0 {
			t.failf("a new encoding is not empty: %+v", *e)
		}
	}
	w := encodings.Encoding{IDs: []int{1, 2}, TypeIDs: []int{3, 4}, Tokens: []string{"a", "b"}, Words: []int{5, 6}, Offsets: []strutils.ByteOffsets{{Start: 7, End: 8}, {Start: 8, End: 9}},
		SpecialTokensMask: []int{1, 0}, AttentionMask: []int{0, 1}, Overflowing: []*encodings.Encoding{encodings.NewDefaultEncoding()}}
	e := encodings.NewEncoding(w.IDs, w.TypeIDs, w.Tokens, w.Words, w.Offsets, w.SpecialTokensMask, w.AttentionMask, w.Overflowing)
	if !reflect.DeepEqual(*e, w) || e.Len() != 2 || e.IsEmpty() {
		t.failf("NewEncoding gives %+v for the lists of %+v", *e, w)
	}
}
