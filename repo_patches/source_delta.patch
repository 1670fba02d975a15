From cbdf7f3a31da2dc95652e60951940575397711a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 01/22] fix: count runes, not bytes, in
 BytesToRuneOffsetConverter

---
 strutils/strutils.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index df27192..57c412c 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -4,6 +4,8 @@
 
 package strutils
 
+import "unicode/utf8"
+
 // IsRuneBoundary checks that `index`-th byte is the first byte in a UTF-8 code
 // point sequence or the end of the string.
 //
@@ -46,14 +48,37 @@ type RuneOffsets struct {
 	End int
 }
 
+// RuneSizes returns the number of bytes of each rune of the given string.
+//
+// As in a range loop over the string, each byte which is not part of a valid
+// UTF-8 sequence counts as a rune of size 1.
+func RuneSizes(s string) []int {
+	sizes := make([]int, 0, len(s))
+	for len(s) > 0 {
+		_, size := utf8.DecodeRuneInString(s)
+		sizes = append(sizes, size)
+		s = s[size:]
+	}
+	return sizes
+}
+
+// SumSizes returns the total number of bytes, given the size of each rune.
+func SumSizes(sizes []int) int {
+	sum := 0
+	for _, size := range sizes {
+		sum += size
+	}
+	return sum
+}
+
 type BytesToRuneOffsetConverter struct {
 	mapping []int
 }
 
 func NewBytesToRuneOffsetConverter(sequence string) *BytesToRuneOffsetConverter {
 	mapping := make([]int, 0, len(sequence))
-	for runeIndex, r := range sequence {
-		for range []byte(string(r)) {
+	for runeIndex, size := range RuneSizes(sequence) {
+		for i := 0; i < size; i++ {
 			mapping = append(mapping, runeIndex)
 		}
 	}
-- 
2.43.0


From 1624e59c09e576c449e75d0d6db0e6e3a448aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 02/22] fix: convert empty byte offsets at the end of the
 string without panicking

---
 strutils/strutils.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index 57c412c..7a6b7b3 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -90,7 +90,12 @@ func (b *BytesToRuneOffsetConverter) Convert(offsets ByteOffsets) RuneOffsets {
 		return RuneOffsets{Start: 0, End: 0}
 	}
 
-	start := b.mapping[offsets.Start]
+	var start int
+	if offsets.Start == len(b.mapping) {
+		start = b.mapping[offsets.Start-1] + 1
+	} else {
+		start = b.mapping[offsets.Start]
+	}
 
 	var end int
 	if offsets.End == len(b.mapping) {
-- 
2.43.0


From f3f687a234e5c6c0d3ad4450c6e3b0576e427aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 03/22] fix: cover the whole string when matching an empty
 StringSplitPattern

---
 splitpattern/string.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/splitpattern/string.go b/splitpattern/string.go
index 808db8e..3a1be98 100644
--- a/splitpattern/string.go
+++ b/splitpattern/string.go
@@ -28,8 +28,7 @@ func (sp *StringSplitPattern) FindMatches(s string) ([]Capture, error) {
 	if sp.r == nil {
 		// If we try to find the matches with an empty string, just don't match anything
 		return []Capture{{
-			// FIXME: is len of runes (and not bytes) correct?
-			Offsets: strutils.ByteOffsets{Start: 0, End: len([]rune(s))},
+			Offsets: strutils.ByteOffsets{Start: 0, End: len(s)},
 			IsMatch: false,
 		}}, nil
 	}
-- 
2.43.0


From 32383397558a9f620a104724b55f769c223b221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 04/22] fix: keep FuncSplitPattern captures in bounds on
 invalid UTF-8

---
 splitpattern/func.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/splitpattern/func.go b/splitpattern/func.go
index 6a836cf..be09ebe 100644
--- a/splitpattern/func.go
+++ b/splitpattern/func.go
@@ -4,7 +4,10 @@
 
 package splitpattern
 
-import "github.com/nlpodyssey/gotokenizers/strutils"
+import (
+	"github.com/nlpodyssey/gotokenizers/strutils"
+	"unicode/utf8"
+)
 
 type FuncSplitPattern struct {
 	f func(rune) bool
@@ -30,7 +33,7 @@ func (sp *FuncSplitPattern) FindMatches(s string) ([]Capture, error) {
 	splits := make([]Capture, 0, len(s))
 
 	for i, r := range s {
-		runeBytesLen := len(string(r))
+		_, runeBytesLen := utf8.DecodeRuneInString(s[i:])
 		lastSeen = i + runeBytesLen
 
 		if !sp.f(r) {
-- 
2.43.0


From ecd73bf092c506ab3203f024bc23b4aa429b8297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 05/22] fix: keep Regexp2SplitPattern captures in bounds on
 invalid UTF-8

---
 splitpattern/regexp2.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index 909fa3f..583c8d8 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -27,7 +27,7 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 		}}, nil
 	}
 
-	runes := []rune(s)
+	sizes := strutils.RuneSizes(s)
 	prev := 0
 	splits := make([]Capture, 0, len(s))
 
@@ -37,8 +37,8 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 	}
 
 	for match != nil {
-		startByte := len(string(runes[:match.Index]))
-		endByte := startByte + len(match.String())
+		startByte := strutils.SumSizes(sizes[:match.Index])
+		endByte := startByte + strutils.SumSizes(sizes[match.Index:match.Index+match.Length])
 
 		if prev != startByte {
 			splits = append(splits, Capture{
-- 
2.43.0


From b52d006cc943bdbaacc7accfc570b1b748e3a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 06/22] fix: align each byte of invalid UTF-8 strings

---
 normalizedstring/normalizedstring.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index fb82a95..9586f06 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -10,6 +10,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 // NormalizedString takes care of processing an "original" string to modify
@@ -74,9 +75,8 @@ func FromString(s string) *NormalizedString {
 func alignmentsFromString(s string) []AlignmentRange {
 	alignments := make([]AlignmentRange, 0, len(s))
 
-	for runeIndex, r := range s {
-		strRune := string(r)
-		bytesLen := len(strRune)
+	for runeIndex := range s {
+		_, bytesLen := utf8.DecodeRuneInString(s[runeIndex:])
 		for byteIndex := 0; byteIndex < bytesLen; byteIndex++ {
 			alignments = append(alignments, AlignmentRange{
 				start: runeIndex,
-- 
2.43.0


From 663a44b06ef1127fcea9151775d061195fe8913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 07/22] fix: treat the initial offset of TransformRange as a
 number of runes

---
 normalizedstring/normalizedstring.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 9586f06..821ca30 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -163,8 +163,9 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	initialRemoved := len(replacedNormalizedString[:initialOffset])
-	replacedNormalizedRunes := []rune(replacedNormalizedString[initialOffset:])
+	replacedRuneSizes := strutils.RuneSizes(replacedNormalizedString)
+	initialRemoved := strutils.SumSizes(replacedRuneSizes[:initialOffset])
+	replacedRuneSizes = replacedRuneSizes[initialOffset:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
@@ -190,16 +191,15 @@ func (ns *NormalizedString) TransformRange(
 		// If we are replacing a character, find it and compute the change in size
 		replacedRuneSize := 0
 		if runeChange.Change <= 0 {
-			replacedRune := replacedNormalizedRunes[0]
-			replacedNormalizedRunes = replacedNormalizedRunes[1:]
-			replacedRuneSize = len(string(replacedRune))
+			replacedRuneSize = replacedRuneSizes[0]
+			replacedRuneSizes = replacedRuneSizes[1:]
 		}
 
 		// If we are removing some characters, find them too
 		totalBytesToRemove := 0
 		if runeChange.Change <= -1 {
-			totalBytesToRemove = len(string(replacedNormalizedRunes[:-runeChange.Change]))
-			replacedNormalizedRunes = replacedNormalizedRunes[-runeChange.Change:]
+			totalBytesToRemove = strutils.SumSizes(replacedRuneSizes[:-runeChange.Change])
+			replacedRuneSizes = replacedRuneSizes[-runeChange.Change:]
 		}
 
 		// Keep track of the changes for next offsets
-- 
2.43.0


From fd99da811055bdcaa458f3c6cecc7fe548be0ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 08/22] fix: append after the last rune of multi-byte
 normalized strings

---
 normalizedstring/normalizedstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 821ca30..939dd57 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -471,8 +471,8 @@ func (ns *NormalizedString) Append(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	// FIXME: it's probably wrong to pass the rune index, instead of byte index
-	ns.TransformRange(NewNormalizedRange(lastRuneIndex, ns.Len()), transformations, 0)
+	lastRuneStart := ns.Len() - strutils.RuneSizes(ns.normalized)[lastRuneIndex]
+	ns.TransformRange(NewNormalizedRange(lastRuneStart, ns.Len()), transformations, 0)
 }
 
 // SplitDelimiterBehavior is used by NormalizedString.Split to define the
-- 
2.43.0


From 7ba3301c58c6ba3630bb810500c1520f71188966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 09/22] fix: keep the alignments when prepending an empty
 string or to invalid UTF-8

---
 normalizedstring/normalizedstring.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 939dd57..57e7f5f 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -430,7 +430,7 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 //
 // FIXME: Prepend does nothing if the normalized string is empty
 func (ns *NormalizedString) Prepend(s string) {
-	if len(ns.normalized) == 0 {
+	if len(ns.normalized) == 0 || len(s) == 0 {
 		return
 	}
 
@@ -444,8 +444,7 @@ func (ns *NormalizedString) Prepend(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: change})
 	}
 
-	firstRune := []rune(ns.normalized)[0]
-	firstRuneBytesLen := len(string(firstRune))
+	firstRune, firstRuneBytesLen := utf8.DecodeRuneInString(ns.normalized)
 	transformations = append(transformations, RuneChange{Rune: firstRune, Change: 1})
 
 	ns.TransformRange(NewNormalizedRange(0, firstRuneBytesLen), transformations, 0)
-- 
2.43.0


From 7d14f9812f0348e84f45c4440f4ad2522542ff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 10/22] fix: report failure, instead of panicking, on out of
 range targets

---
 normalizedstring/normalizedstring.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 57e7f5f..48d73b5 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -318,7 +318,7 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 // whether the operation is successful or not.
 func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 	nr, ok := ns.CoerceRangeToNormalized(rng)
-	if !ok {
+	if !ok || nr.Start() < 0 || nr.Start() > nr.End() || nr.End() > len(ns.normalized) {
 		return "", false
 	}
 	return ns.normalized[nr.Start():nr.End()], true
@@ -328,7 +328,7 @@ func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 // reports whether the operation is successful or not.
 func (ns *NormalizedString) GetOriginalRange(rng Range) (string, bool) {
 	or, ok := ns.CoerceRangeToOriginal(rng)
-	if !ok {
+	if !ok || or.Start() < 0 || or.Start() > or.End() || or.End() > len(ns.original) {
 		return "", false
 	}
 	return ns.original[or.Start():or.End()], true
@@ -420,6 +420,11 @@ func (ns *NormalizedString) CoerceRangeToOriginal(r Range) (OriginalRange, bool)
 		return NewOriginalRange(0, ns.OriginalLen()), true
 	}
 
+	// If the target is out of range, return invalid status
+	if r.Start() < 0 || r.End() > len(ns.alignments) {
+		return NewOriginalRange(0, 0), false
+	}
+
 	alignments := ns.alignments[r.Start():r.End()]
 
 	// Expand alignments, returning the range covered by this slice
@@ -652,8 +657,14 @@ func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
 
 	nShift := originalRange.Start()
 
-	original, _ := ns.GetOriginalRange(rng)
-	normalized, _ := ns.GetRange(rng)
+	original, orOk := ns.GetOriginalRange(rng)
+	if !orOk {
+		return nil, false
+	}
+	normalized, nrOk := ns.GetRange(rng)
+	if !nrOk {
+		return nil, false
+	}
 
 	alignments := make([]AlignmentRange, normalizedRange.Len())
 
-- 
2.43.0


From 6b4a3f47f01753ef895e45e21c69429a93820394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:24 +0000
Subject: [PATCH 11/22] fix: compute OriginalAlignments of empty normalized
 strings

---
 normalizedstring/normalizedstring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 48d73b5..fb9763c 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -242,6 +242,11 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 	// (offset, length) are in originalAlignments
 	originalAlignments := make([]AlignmentRange, 0, len(ns.original))
 
+	if len(ns.alignments) == 0 {
+		// There are no groups: everything has been removed
+		return make([]AlignmentRange, len(ns.original))
+	}
+
 	// Eventual gap before first group
 
 	if start := ns.alignments[0].start; start > 0 {
-- 
2.43.0


From 538f11c7e2fa5597347e06e66f46f7f10ca423b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 12/22] fix: step back by whole runes in WordPiece longest
 match search

---
 models/wordpiecemodel/wordpiecemodel.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/models/wordpiecemodel/wordpiecemodel.go b/models/wordpiecemodel/wordpiecemodel.go
index acda3c2..fcada5d 100644
--- a/models/wordpiecemodel/wordpiecemodel.go
+++ b/models/wordpiecemodel/wordpiecemodel.go
@@ -91,9 +91,8 @@ func (m *WordPieceModel) Tokenize(sequence string) ([]models.Token, error) {
 				break
 			}
 
-			if len(subStr) > 0 {
-				end -= len(string(subStr[len(subStr)-1]))
-			} else {
+			end--
+			for !strutils.IsRuneBoundary(sequence, end) {
 				end--
 			}
 		}
-- 
2.43.0


From 233e404df0c9f81e241c3e91f4cc5a62478e61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 13/22] fix: add the BPE continuing subword prefix to non
 initial characters

---
 models/bpemodel/bpemodel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index 308f9fd..be9225b 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -139,7 +139,7 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 		s := string(r)
 		byteLen := len(s)
 
-		if i == 0 && m.hasContinuingSubwordPrefix() {
+		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
 		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
-- 
2.43.0


From bf35482097358659631f7a15163370062efda3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 14/22] fix: compute BPE token offsets from actual bytes on
 invalid UTF-8

---
 models/bpemodel/bpemodel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index be9225b..d8e5bd2 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -134,10 +134,11 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 
 	runes := []rune(w)
 	lastRuneIndex := len(runes) - 1
+	runeSizes := strutils.RuneSizes(w)
 
 	for i, r := range runes {
 		s := string(r)
-		byteLen := len(s)
+		byteLen := runeSizes[i]
 
 		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
-- 
2.43.0


From cd912f57de97e08eb87c0d95204953fe43d174c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 15/22] fix: reject merges whose second term is shorter than
 the prefix

---
 models/bpemodel/mergemap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index 498caf6..7dba962 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -59,7 +59,7 @@ func MergeMapFromFile(
 			continue
 		}
 		terms := strings.Split(line, " ")
-		if len(terms) != 2 {
+		if len(terms) != 2 || len(terms[1]) < prefixLength {
 			return nil, fmt.Errorf("line %d: malformed merges", lineCount)
 		}
 
-- 
2.43.0


From 3471b28e19741ae4535a598b92cb5c42e1228380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 16/22] fix: allow adding terms to a vocabulary loaded from
 JSON null

---
 vocabulary/vocabulary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 4a8eaee..57cc17c 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -36,6 +36,10 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 		return nil, err
 	}
 
+	if termToID == nil { // the file content is JSON null
+		termToID = make(map[string]int)
+	}
+
 	idToTerm := make(map[int]string, len(termToID))
 	for term, id := range termToID {
 		idToTerm[id] = term
-- 
2.43.0


From 4f6e3a529bf787887f1edd74f18f3b0da0bbb935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 17/22] fix: byte-level encode invalid UTF-8 without going out
 of bounds

---
 pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
index c81f207..4b44c10 100644
--- a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
+++ b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/pretokenizers"
 	"github.com/nlpodyssey/gotokenizers/splitpattern"
 	"unicode"
+	"unicode/utf8"
 )
 
 // ByteLevelPreTokenizer allows the generation of pre-tokens suitable in the
@@ -88,8 +89,8 @@ func (b *ByteLevelPreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 		s := ns.Get()
 		transformations := make([]normalizedstring.RuneChange, 0, len(s))
 		i := 0
-		for _, r := range s {
-			size := len(string(r))
+		for i < len(s) {
+			_, size := utf8.DecodeRuneInString(s[i:])
 			bytes := []byte(s[i : i+size])
 			i += size
 
-- 
2.43.0


From e379d204bead673f35432f7b73b9bf33bf4c6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 18/22] fix: treat the whole CJK extension E block as chinese
 characters

---
 normalizers/bertnormalizer/bertnormalizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizers/bertnormalizer/bertnormalizer.go b/normalizers/bertnormalizer/bertnormalizer.go
index 3ff4501..60df23b 100644
--- a/normalizers/bertnormalizer/bertnormalizer.go
+++ b/normalizers/bertnormalizer/bertnormalizer.go
@@ -118,7 +118,7 @@ var chineseCharacters = &unicode.RangeTable{
 		{0x20000, 0x2a6df, 1},
 		{0x2a700, 0x2b73f, 1},
 		{0x2b740, 0x2b81f, 1},
-		{0x2b920, 0x2ceaf, 1},
+		{0x2b820, 0x2ceaf, 1},
 		{0x2f800, 0x2fa1f, 1},
 	},
 }
-- 
2.43.0


From d98fc9e70d7bdb87cda38f88edaeb79d7ebc4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 19/22] fix: do not prefix strings which start with whitespace
 in MetaSpacePreTokenizer

---
 .../metaspacepretokenizer/metaspacepretokenizer.go        | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go b/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
index de5ccb1..ab0375a 100644
--- a/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
+++ b/pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go
@@ -10,6 +10,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/pretokenizers"
 	"github.com/nlpodyssey/gotokenizers/splitpattern"
 	"strings"
+	"unicode"
 )
 
 // MetaSpacePreTokenizer allows the generation of pre-tokens by virtually
@@ -58,7 +59,8 @@ func (m *MetaSpacePreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 	splittingPattern := splitpattern.FromRune(m.replacement)
 	return pts.Split(
 		func(_ int, ns *normalizedstring.NormalizedString) ([]pretokenizedstring.Split, error) {
-			if m.prefixSpaceEnabled && !strings.HasPrefix(ns.Get(), m.strReplacement) {
+			if m.prefixSpaceEnabled && !strings.HasPrefix(ns.Get(), m.strReplacement) &&
+				!startsWithWhitespace(ns.Get()) {
 				ns.Prepend(m.strReplacement)
 			}
 			err := ns.Replace(splitpattern.FromRune(' '), m.strReplacement)
@@ -73,3 +75,7 @@ func (m *MetaSpacePreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 		},
 	)
 }
+
+func startsWithWhitespace(s string) bool {
+	return len(s) > 0 && unicode.In([]rune(s)[0], unicode.White_Space)
+}
-- 
2.43.0


From 86e8939ff018480d3c955623ebe22d9af140695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 20/22] fix: slice empty ranges of a normalized string longer
 than the original

Slicing an empty range positioned after the end of the original string
was refused, making Split fail on patterns with empty matches.
---
 normalizedstring/normalizedstring.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index fb9763c..20430aa 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -660,9 +660,14 @@ func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
 		return nil, false
 	}
 
+	if rng.Len() == 0 && originalRange.End() > ns.OriginalLen() {
+		// The normalized string can be longer than the original one
+		originalRange = NewOriginalRange(ns.OriginalLen(), ns.OriginalLen())
+	}
+
 	nShift := originalRange.Start()
 
-	original, orOk := ns.GetOriginalRange(rng)
+	original, orOk := ns.GetOriginalRange(originalRange)
 	if !orOk {
 		return nil, false
 	}
-- 
2.43.0


From 964e1eb422ef659fb3cf0e15e6e32d15383ed6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 21/22] fix: Replace used the wrong length for a content which
 is not valid UTF-8

---
 normalizedstring/normalizedstring.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 20430aa..2e40190 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -636,7 +636,8 @@ func (ns *NormalizedString) Replace(
 
 		ns.TransformRange(rng, changes, removedRunes)
 
-		newLen := len(content)
+		// Invalid UTF-8 bytes are written as replacement characters
+		newLen := len(string([]rune(content)))
 		oldLen := capture.Offsets.End - capture.Offsets.Start
 		offset += newLen - oldLen
 	}
-- 
2.43.0


From 4fccd35ad06db541bbdb2745b8e52a2d548701fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 22/22] fix: return the captures of right-to-left regexp2
 patterns in text order

---
 splitpattern/regexp2.go | 44 ++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index 583c8d8..dc12a2b 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -31,14 +31,14 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 	prev := 0
 	splits := make([]Capture, 0, len(s))
 
-	match, err := sp.r.FindStringMatch(s)
+	matches, err := sp.findAllMatches(s)
 	if err != nil {
 		return nil, err
 	}
 
-	for match != nil {
-		startByte := strutils.SumSizes(sizes[:match.Index])
-		endByte := startByte + strutils.SumSizes(sizes[match.Index:match.Index+match.Length])
+	for _, match := range matches {
+		startByte := strutils.SumSizes(sizes[:match.Start])
+		endByte := startByte + strutils.SumSizes(sizes[match.Start:match.End])
 
 		if prev != startByte {
 			splits = append(splits, Capture{
@@ -51,11 +51,6 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 			IsMatch: true,
 		})
 		prev = endByte
-
-		match, err = sp.r.FindNextMatch(match)
-		if err != nil {
-			return nil, err
-		}
 	}
 
 	if prev != len(s) {
@@ -67,3 +62,34 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 
 	return splits, nil
 }
+
+// findAllMatches returns the rune offsets of all matches, in text order.
+func (sp *Regexp2SplitPattern) findAllMatches(s string) ([]strutils.RuneOffsets, error) {
+	matches := make([]strutils.RuneOffsets, 0)
+
+	match, err := sp.r.FindStringMatch(s)
+	if err != nil {
+		return nil, err
+	}
+
+	for match != nil {
+		matches = append(matches, strutils.RuneOffsets{
+			Start: match.Index,
+			End:   match.Index + match.Length,
+		})
+
+		match, err = sp.r.FindNextMatch(match)
+		if err != nil {
+			return nil, err
+		}
+	}
+
+	if sp.r.RightToLeft() {
+		// The engine returns the last match of the text first
+		for i, j := 0, len(matches)-1; i < j; i, j = i+1, j-1 {
+			matches[i], matches[j] = matches[j], matches[i]
+		}
+	}
+
+	return matches, nil
+}
-- 
2.43.0

