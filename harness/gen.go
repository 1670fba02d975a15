package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Literals of the current source: they tell which values the code treats
// specially.
var (
	litRunes []rune
	litInts  []int
	litStrs  []string
)

func mine(repo string) {
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "testdata") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				l, ok := n.(*ast.BasicLit)
				if !ok {
					return true
				}
				switch l.Kind {
				case token.CHAR:
					if s, err := strconv.Unquote(l.Value); err == nil {
						r, _ := utf8.DecodeRuneInString(s)
						litRunes = append(litRunes, r)
					}
				case token.INT:
					if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil && v >= 0 {
						if v <= 0x10FFFF && v >= 8 {
							litRunes = append(litRunes, rune(v), rune(v)-1, rune(v)+1)
						}
						if v >= 3 && v <= 6000 {
							litInts = append(litInts, int(v))
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 0 && len(s) < 40 && !strings.Contains(s, "%") {
						litStrs = append(litStrs, s)
						for _, r := range s {
							if r > 127 {
								litRunes = append(litRunes, r)
							}
						}
					}
				}
				return true
			})
		}
		return nil
	})
	if len(litRunes) == 0 {
		litRunes = []rune{'x'}
	}
	if len(litInts) == 0 {
		litInts = []int{4}
	}
	if len(litStrs) == 0 {
		litStrs = []string{"x"}
	}
}

var special = []rune{
	0, '\t', '\n', '\r', '\v', '\f', 0x1c, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xad, 0x1680, 0x2000, 0x2003, 0x200b, 0x200d, 0x2028, 0x202f, 0x205f, 0x3000, 0xfeff,
	'!', '-', '.', '\'', '$', '+', '<', '^', '`', '~', '_', '#', '%', 0xa1, 0xbf, 0x2014, 0x3001, 0xff01, 0x55e, 0x1f600, 0x1f1e6,
	0xdf, 0x130, 0x131, 0x17f, 0x23a, 0x2126, 0x212a, 0x1e9e, 0x1c5, 0x1f88, 0x10400, 0xe9, 0xc9, 0x3a3, 0x3c2, 0x251, 0x2c6d, 0xb5,
	0x300, 0x301, 0x308, 0x5b0, 0x93f, 0x20dd, 0xfe0f, 0x1d165, 0x903,
	0x33ff, 0x3400, 0x4dbf, 0x4dc0, 0x4dff, 0x4e00, 0x9fff, 0xa000, 0xac00, 0x3042, 0xf8ff, 0xf900, 0xfaff, 0xfb00, 0x1ffff, 0x20000, 0x2a6df, 0x2a6e0, 0x2a700, 0x2b73f, 0x2b740, 0x2b81f, 0x2b820, 0x2ceaf, 0x2ceb0, 0x2f800, 0x2fa1f, 0x2fa20, 0x30000,
	0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x2581, 0x7ff, 0x800, 'a', 'b', 'A', 'Z', '0', '9',
}

var badBytes = []string{"\xff", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xe0\x80\x80", "\xbf", "\xfe", "\xf8\x88\x80\x80\x80"}

// genRune draws one character.
func (t *T) genRune() rune {
	switch k := t.Intn(20); {
	case k < 7:
		return rune('a' + t.Intn(4))
	case k < 10:
		return ' '
	case k < 11:
		return rune(' ' + t.Intn(95))
	case k < 14:
		return special[t.Intn(len(special))]
	case k < 16:
		r := litRunes[t.Intn(len(litRunes))]
		if !utf8.ValidRune(r) {
			r = 'q'
		}
		return r
	case k < 18:
		return []rune{'é', 'ß', '中', '😀', '€', 'İ', 'K'}[t.Intn(7)]
	case k < 19:
		return rune(t.Intn(0x3000))
	default:
		r := rune(t.Intn(0x110000))
		if !utf8.ValidRune(r) {
			r = 0xfffd
		}
		return r
	}
}

// genLen draws a length, mostly small.
func (t *T) genLen() int {
	switch k := t.Intn(100); {
	case k < 70:
		return t.Intn(8)
	case k < 92:
		return t.Intn(24)
	case k < 97:
		return t.Intn(120)
	default:
		n := litInts[t.Intn(len(litInts))] + t.Intn(3) - 1
		if n > 400 && !t.pick(6) {
			n = t.Intn(400)
		}
		return n
	}
}

// genText draws a text; when valid is false it may hold malformed bytes.
func (t *T) genText(valid bool) string {
	if t.pick(40) {
		return ""
	}
	n := t.genLen()
	var sb strings.Builder
	uniform := t.pick(12)
	ur := t.genRune()
	bad := !valid && !t.pick(3)
	for i := 0; i < n; i++ {
		switch {
		case uniform && !t.pick(10):
			sb.WriteRune(ur)
		case bad && t.pick(4):
			sb.WriteString(badBytes[t.Intn(len(badBytes))])
		case t.pick(25):
			s := litStrs[t.Intn(len(litStrs))]
			if valid && !utf8.ValidString(s) {
				s = "v"
			}
			sb.WriteString(s)
		default:
			sb.WriteRune(t.genRune())
		}
	}
	return sb.String()
}

func (t *T) genShort(valid bool) string {
	n := t.Intn(4)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if !valid && t.pick(5) {
			sb.WriteString(badBytes[t.Intn(len(badBytes))])
		} else {
			sb.WriteRune(t.genRune())
		}
	}
	return sb.String()
}

// smallTexts enumerates all texts of at most n symbols over the alphabet.
func smallTexts(alpha []string, n int, fn func(string)) {
	var rec func(s string, k int)
	rec = func(s string, k int) {
		fn(s)
		if k == 0 {
			return
		}
		for _, a := range alpha {
			rec(s+a, k-1)
		}
	}
	rec("", n)
}

var alpha5 = []string{"a", " ", "é", "😀", "\xff"}

// runePred draws a predicate on characters.
func (t *T) genPred() (string, func(rune) bool) {
	switch t.Intn(6) {
	case 0:
		return "vowel-or-space", func(r rune) bool { return strings.ContainsRune("aeiou ", r) }
	case 1:
		return "non-ascii", func(r rune) bool { return r > 127 }
	case 2:
		return "none", func(r rune) bool { return false }
	case 3:
		return "all", func(r rune) bool { return true }
	case 4:
		return "odd", func(r rune) bool { return r%2 == 1 }
	default:
		x := t.genRune()
		y := t.genRune()
		return "not " + strconv.QuoteRune(x) + strconv.QuoteRune(y), func(r rune) bool { return r != x && r != y }
	}
}

func (t *T) genMap() (string, func(rune) rune) {
	switch t.Intn(5) {
	case 0:
		return "id", func(r rune) rune { return r }
	case 1:
		return "to 😀", func(r rune) rune { return '😀' }
	case 2:
		return "to x", func(r rune) rune { return 'x' }
	case 3:
		return "a<->€", func(r rune) rune {
			if r == 'a' {
				return '€'
			}
			if r == '€' {
				return 'a'
			}
			return r
		}
	default:
		return "invalid", func(r rune) rune {
			if r == 'a' || r == ' ' {
				return -1
			}
			if r == 'b' {
				return 0xd800
			}
			return r ^ 1
		}
	}
}

// long repeats a text up to about n bytes.
func (t *T) long(s string, n int) string {
	s += string(t.genRune())
	return strings.Repeat(s, n/len(s)+1+t.Intn(9))
}
