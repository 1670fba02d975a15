// Package client holds uses of the library which are verified against the
// contracts of its functions: whatever the components and the text, the calls
// fit together without a panic. It is not part of the library and is compiled
// by nothing but the verifier.
package client

import (
	"github.com/dlclark/regexp2"
	"github.com/nlpodyssey/gotokenizers/encodings"
	"github.com/nlpodyssey/gotokenizers/models"
	"github.com/nlpodyssey/gotokenizers/models/bpemodel"
	"github.com/nlpodyssey/gotokenizers/models/wordpiecemodel"
	"github.com/nlpodyssey/gotokenizers/normalizedstring"
	"github.com/nlpodyssey/gotokenizers/normalizers"
	"github.com/nlpodyssey/gotokenizers/normalizers/bertnormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/lowercasenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/sequencenormalizer"
	"github.com/nlpodyssey/gotokenizers/normalizers/stripnormalizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizedstring"
	"github.com/nlpodyssey/gotokenizers/pretokenizers"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bertpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/bytelevelpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/metaspacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/runedelimiterpretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacepretokenizer"
	"github.com/nlpodyssey/gotokenizers/pretokenizers/whitespacesplitpretokenizer"
	"github.com/nlpodyssey/gotokenizers/vocabulary"
)

// Encode normalizes, pre-tokenizes and tokenizes s, and builds the encoding.
func Encode(s string, ns []normalizers.Normalizer, ps []pretokenizers.PreTokenizer, m models.Model, wordIndex, typeID int) (*encodings.Encoding, error) {
	text := normalizedstring.FromString(s)
	for _, n := range ns {
		if err := n.Normalize(text); err != nil {
			return nil, err
		}
	}
	pts := pretokenizedstring.FromNormalizedString(text)
	for _, p := range ps {
		if err := p.PreTokenize(pts); err != nil {
			return nil, err
		}
	}
	err := pts.Tokenize(func(t *normalizedstring.NormalizedString) ([]models.Token, error) {
		return m.Tokenize(t.Get())
	})
	if err != nil {
		return nil, err
	}
	return pts.IntoEncoding(wordIndex, typeID)
}

// EncodePieces pre-tokenizes s first and normalizes the pieces.
func EncodePieces(s string, p, q pretokenizers.PreTokenizer, n normalizers.Normalizer, m models.Model) (*encodings.Encoding, error) {
	pts := pretokenizedstring.FromString(s)
	if err := p.PreTokenize(pts); err != nil {
		return nil, err
	}
	if err := pts.Normalize(func(t *normalizedstring.NormalizedString) error { return n.Normalize(t) }); err != nil {
		return nil, err
	}
	if err := q.PreTokenize(pts); err != nil {
		return nil, err
	}
	err := pts.Tokenize(func(t *normalizedstring.NormalizedString) ([]models.Token, error) {
		return m.Tokenize(t.Get())
	})
	if err != nil {
		return nil, err
	}
	return pts.IntoEncoding(-1, 0)
}

// ByteLevel cuts and encodes a text which was not edited.
func ByteLevel(s string, b *bytelevelpretokenizer.ByteLevelPreTokenizer) (*pretokenizedstring.PreTokenizedString, error) {
	pts := pretokenizedstring.FromString(s)
	err := b.PreTokenize(pts)
	return pts, err
}

// Options of components, each with any value.
type Options struct {
	A, B, C, D, E, F, G bool
	Rune                rune
	Splitting           *regexp2.Regexp
	Vocab               *vocabulary.Vocabulary
	Merges              *bpemodel.MergeMap
	Capacity, MaxChars  int
	Dropout             float64
	Unknown, Prefix     string
	Suffix              string
	Model               int
}

// Build makes components of all kinds with the options and encodes s with them.
func Build(s string, o Options) (*encodings.Encoding, error) {
	inner := []normalizers.Normalizer{
		bertnormalizer.NewBertNormalizer(o.A, o.B, o.C, o.D),
		bertnormalizer.DefaultBertNormalizer(),
		lowercasenormalizer.NewLowerCaseNormalizer(),
		stripnormalizer.NewStripNormalizer(o.E, o.F),
	}
	ns := []normalizers.Normalizer{
		sequencenormalizer.NewSequenceNormalizer(inner),
	}
	ps := []pretokenizers.PreTokenizer{
		bertpretokenizer.New(),
		bytelevelpretokenizer.New(o.Splitting, o.A, o.B),
		bytelevelpretokenizer.NewDefault(),
		metaspacepretokenizer.New(o.Rune, o.G),
		metaspacepretokenizer.NewDefault(),
		runedelimiterpretokenizer.New(o.Rune),
		whitespacepretokenizer.New(o.Splitting),
		whitespacepretokenizer.NewDefault(),
		whitespacesplitpretokenizer.New(),
	}
	var m models.Model
	switch o.Model {
	case 0:
		m = bpemodel.New(o.Vocab, o.Merges, o.Capacity, o.Dropout, o.Unknown, o.Prefix, o.Suffix, o.G)
	case 1:
		m = bpemodel.NewDefault()
	case 2:
		m = wordpiecemodel.New(o.Vocab, o.Unknown, o.Prefix, o.MaxChars)
	default:
		m = wordpiecemodel.NewDefault()
	}
	return Encode(s, ns, ps, m, o.Capacity, o.MaxChars)
}

// FromFiles encodes s with a model made from the files.
func FromFiles(s, vocabFile, mergesFile string, prefixLength int, o Options) (*encodings.Encoding, error) {
	vocab, err := vocabulary.FromJSONFile(vocabFile)
	if err != nil {
		return nil, err
	}
	merges, err := bpemodel.MergeMapFromFile(mergesFile, vocab, prefixLength)
	if err != nil {
		return nil, err
	}
	m := bpemodel.New(vocab, merges, o.Capacity, o.Dropout, o.Unknown, o.Prefix, o.Suffix, o.G)
	return Encode(s, nil, nil, m, o.Capacity, o.MaxChars)
}
