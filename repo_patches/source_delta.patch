From a7a46a679e9e2aa15ac895d042707cdf23a9fbb9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 01/13] fix: provide runesio.AsRunesWriter, required by package
 linebreak to build

---
 terminal/runes/runesio/writer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/terminal/runes/runesio/writer.go b/terminal/runes/runesio/writer.go
index d44ac3a..0f64a44 100644
--- a/terminal/runes/runesio/writer.go
+++ b/terminal/runes/runesio/writer.go
@@ -27,6 +27,17 @@ func NewWriter(w io.Writer) Writer {
 	}
 }
 
+// AsRunesWriter extends an io.Writer with the capability to write runes.
+//
+// If the io.Writer already knows how to write runes, it is returned unchanged.
+func AsRunesWriter(w io.Writer) Writer {
+	if rw, ok := w.(Writer); ok {
+		return rw
+	}
+
+	return NewWriter(w)
+}
+
 func (rw *runesWriter) WriteRune(r rune) (int, error) {
 	return rw.writeRune(r)
 }
-- 
2.43.0


From 3f84bed004148f981b3397cbcdb38b317f933fe4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 02/13] fix: Widths no longer panics on invalid runes and
 counts the three-em dash like Width

---
 terminal/runes/width.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/terminal/runes/width.go b/terminal/runes/width.go
index 9d1632d..7d551c0 100644
--- a/terminal/runes/width.go
+++ b/terminal/runes/width.go
@@ -50,7 +50,15 @@ func Widths(runes []rune, opts ...Option) (width int) {
 
 	buildLookupOnce.Do(initLookupTable) // builds the cache once
 	for _, r := range runes {
-		width += int((lookupTable[r>>2] >> ((r % 4) * 2)) & 3)
+		switch {
+		case !utf8.ValidRune(r):
+			// the lookup table only covers valid code points
+		case r == 0x2E3B:
+			// special case with code point with a width that overflow our lookup table
+			width += 4
+		default:
+			width += int((lookupTable[r>>2] >> ((r % 4) * 2)) & 3)
+		}
 	}
 
 	return width
-- 
2.43.0


From d98558c9dd295119992949fc6a26c49f3e3c5b25 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 03/13] fix: ANSI sequences with 3-digit parameters are fully
 scanned

---
 terminal/ansi/ansi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 33de825..91e5ec7 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -239,13 +239,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 	nextStart, _ = rdr.Seek(0, io.SeekCurrent)
 
 	hasZeroArg := true
-	for i := 0; i < maxDigits; i++ {
+	for i := 0; i <= maxDigits; i++ { // up to maxDigits digits, plus the rune that follows
 		r, _, err = rdr.ReadRune()
 		if err != nil {
 			break
 		}
 
-		if !unicode.IsDigit(r) {
+		if i == maxDigits || !unicode.IsDigit(r) {
 			break
 		}
 
@@ -261,13 +261,13 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 		runeCount++
 		nextStart++
 
-		for i := 0; i < maxDigits; i++ {
+		for i := 0; i <= maxDigits; i++ {
 			r, _, err = rdr.ReadRune()
 			if err != nil {
 				break
 			}
 
-			if !unicode.IsDigit(r) {
+			if i == maxDigits || !unicode.IsDigit(r) {
 				break
 			}
 
-- 
2.43.0


From d9847cb6efdfee0357fce45314970a104e8c541e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 04/13] fix: an escape that precedes an ANSI sequence no longer
 hides this sequence

---
 terminal/ansi/ansi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 91e5ec7..a6df8f9 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -328,7 +328,8 @@ func decodeText(rdr *runesio.SliceReader) []rune {
 				return rdr.Slice(int(current), int(current)+runeCount)
 			}
 
-			runeCount++
+			// this rune might be another escape: scan it again
+			_, _ = rdr.Seek(-1, io.SeekCurrent)
 		}
 
 		runeCount++
-- 
2.43.0


From 74482bc0b5395ed26e6b5371bce04fde3798ec63 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 05/13] fix: stripping ANSI sequences does not write in the
 input slice

---
 terminal/ansi/ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index a6df8f9..d3c966c 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -134,7 +134,7 @@ func StripANSIFromRunes(rns []rune) StrippedToken {
 				groups[1] = endANSI // should normally never end up here
 			} else {
 				// indulge into one allocation
-				groups[1] = append(groups[1], endANSI...)
+				groups[1] = append(groups[1][:len(groups[1]):len(groups[1])], endANSI...)
 			}
 
 		case sequenceKind == otherSequence && len(groups[2]) > 0:
-- 
2.43.0


From ae3e05f2a3f6f0b1ef9d28495fdffbda63979970 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 06/13] fix: hyphenation exceptions apply regardless of letter
 case

---
 wordbreak/hyphenator/hyphenator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index d17b20b..5aa84aa 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -84,7 +84,12 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 }
 
 func (h *Hyphenator) isException(word []rune) ([]int, bool) {
-	val := h.exceptions.Get(word)
+	lowered := make([]rune, len(word)) // like patterns, exceptions are stored in lower case
+	for i, r := range word {
+		lowered[i] = unicode.ToLower(r)
+	}
+
+	val := h.exceptions.Get(lowered)
 	if val != nil {
 		return val.([]int), true
 	}
-- 
2.43.0


From 6817a86d91873013f98e4046a982074880e08f8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 07/13] fix: hyphenation patterns that apply at the very end of
 a word are no longer ignored

---
 wordbreak/hyphenator/hyphenator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index 5aa84aa..27be12c 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -62,21 +62,19 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 	positions := make([]int, 30) // the resulting hyphenation positions. A reasonable size is preallocated.
 	fragmentBuffer := make([]rune, 0, wordLength+2)
 
-	for i := 0; i < wordLength; i++ { // ".word.", "ord.", "rd.", "d."
+	for i := 0; i <= wordLength; i++ { // ".word.", "word.", "ord.", "rd.", "d."
 		allBreakPoints, hasPatterns = h.isPattern(i, word, fragmentBuffer, allBreakPoints)
 		if hasPatterns {
 			positions = mergeBreakPoints(positions, allBreakPoints, i)
 		}
 	}
 
-	positions = positions[1 : len(positions)-1]
+	positions = positions[1:]
 
 	// ensure provided positions are consistent
 	// ex: [0 1 2 0 0 0 3 0 0 1]
-	switch {
-	case positions[0] > 0: // sometimes hyphen before first letter is "allowed"
-		positions[0] = 0
-	case len(positions) > wordLength && positions[wordLength] > 0:
+	positions[0] = 0 // sometimes hyphen before first letter is "allowed"
+	if len(positions) > wordLength {
 		positions[wordLength] = 0 // sometimes hyphen after last letter is "allowed"
 	}
 
-- 
2.43.0


From 4862d61b2cd9c01cd09f68e15acda8f43bb402ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 08/13] fix: regional variants of a language use the patterns
 of this language

---
 wordbreak/hyphenator/languages.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/languages.go b/wordbreak/hyphenator/languages.go
index 59e8c74..fd14db8 100644
--- a/wordbreak/hyphenator/languages.go
+++ b/wordbreak/hyphenator/languages.go
@@ -21,9 +21,10 @@ var (
 )
 
 func langToPattern(tag language.Tag) string {
-	matched, _, _ := langMatcher.Match(tag)
+	// NOTE: the matched tag may carry extra extensions (e.g. the original region), hence the use of the index
+	_, matched, _ := langMatcher.Match(tag)
 
-	switch matched {
+	switch supportedLanguages[matched] {
 	case language.BritishEnglish, language.English:
 		return "hyph-en-gb.tex"
 	case language.Spanish, language.EuropeanSpanish, language.LatinAmericanSpanish:
-- 
2.43.0


From f9dbf9ab795c5a0498610e3b45dde95e93b9fd19 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 09/13] fix: the last hyphenation exception of a section may be
 followed by the closing brace

---
 wordbreak/hyphenator/dictionary.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 4312adb..a44c6d1 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -116,7 +116,14 @@ func LoadPatterns(patternfile string) (*Dictionary, error) {
 			// decode the exceptions section
 			for scanner.Scan() {
 				line = scanner.Text()
-				dict.exceptions.Put(dict.readException(line))
+				if word := strings.TrimSuffix(line, "}"); !isTeXComment(word) {
+					dict.exceptions.Put(dict.readException(word))
+				}
+
+				if strings.HasSuffix(line, "}") {
+					// end of the section
+					break
+				}
 			}
 
 		case isTeXComment(line):
-- 
2.43.0


From 1aa89aad4ce305ca2d38627b17991d1117583577 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 10/13] fix: attributes of a previous paragraph no longer leak
 when reusing a line breaker

---
 linebreak/linebreaker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 6a34641..7ac9e72 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -78,6 +78,8 @@ func New(opts ...Option) *LineBreaker {
 //
 // TODO: move to [][]rune -> []rune
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
+	l.attrList = attributes.NewState() // forget about the attributes of any previous paragraph
+
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
 	l.nodes = l.leftAlignedNodes(tokens)
 
-- 
2.43.0


From a7c69c3b2bfd6b8a65bf93341e7f8a080849511d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 11/13] fix: line breaks no longer depend on the iteration
 order of a map

---
 linebreak/knuth_plass.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 5180c8b..1309545 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -233,7 +233,8 @@ func (l *LineBreaker) mainLoop(index int) {
 func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
 	sum := l.sumFromNode(index)
 
-	for class, candidate := range candidates {
+	for class := fitnessClassZero; class <= fitnessClassThree; class++ {
+		candidate := candidates[class]
 		if candidate.totalDemerits >= maxDemerit || candidate.totalDemerits > lowestDemerits+l.demerits.fitness {
 			// skip default candidate
 			continue
-- 
2.43.0


From 5e07c2b787b6963464792c3c204438c4574eba32 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 12/13] fix: render a hyphen at hyphenation points only

Soft hyphens were recognized by their penalty, so that a hyphen was also
rendered between words or after explicit hyphens when the hyphen penalty
was set to the penalty of these (e.g. 0 or 200).
---
 linebreak/knuth_plass_types.go | 10 ++++++++++
 linebreak/linebreaker.go       |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/linebreak/knuth_plass_types.go b/linebreak/knuth_plass_types.go
index ee38301..a01fa21 100644
--- a/linebreak/knuth_plass_types.go
+++ b/linebreak/knuth_plass_types.go
@@ -14,6 +14,8 @@ type (
 		value     []rune
 		attribute attributes.Renderer // attributes such as color, italic, bold ...
 
+		softHyphen bool // for penalties, a hyphenation point: breaking a line here may require a hyphen to be rendered
+
 		sums
 	}
 
@@ -129,6 +131,14 @@ func newPenalty(width float64, penalty float64, flagged bool) nodeT {
 	}
 }
 
+// newSoftHyphen builds the flagged penalty for breaking a word at a hyphenation point.
+func newSoftHyphen(width float64, penalty float64) nodeT {
+	node := newPenalty(width, penalty, flaggedPenalty)
+	node.softHyphen = true
+
+	return node
+}
+
 // newFitnessClass establish a coarse fitness classification according to the cost ratio.
 func newFitnessClass(ratio float64) fitnessClass {
 	switch {
diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 7ac9e72..4845c0a 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -179,7 +179,7 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-				if l.renderHyphens && node.penalty == l.hyphenPenalty && index == len(line.nodes)-1 {
+				if l.renderHyphens && node.softHyphen && index == len(line.nodes)-1 {
 					// render a soft hyphen node
 					_, _ = runesWriter.WriteRunes(hyphen)
 				}
@@ -298,14 +298,14 @@ func (l *LineBreaker) pushHyphen() []nodeT {
 			// ragged right:
 			newPenalty(noWidth, infinity, unflaggedPenalty),
 			newGlue(noWidth, l.glueStretch, noShrink),
-			newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+			newSoftHyphen(l.hyphenWidth, l.hyphenPenalty),
 			newGlue(noWidth, -l.glueStretch, noShrink),
 		}
 	}
 
 	return []nodeT{
 		// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
-		newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty),
+		newSoftHyphen(noWidth, l.hyphenPenalty),
 	}
 }
 
-- 
2.43.0


From 8d5885278a26fe7174b54dfd32fb6ceb18cd7b6b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 13/13] fix: do not round up the requested line width

With a fractional width, lines could be wider than requested.
---
 linebreak/linebreaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 4845c0a..35e0614 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -101,7 +101,7 @@ func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]str
 func (l *LineBreaker) buildUniformLengths(width float64) []float64 {
 	lengths := make([]float64, 1)
 	for i := range lengths {
-		lengths[i] = l.scale(width)
+		lengths[i] = math.Floor(width * l.scaleFactor) // a constraint is never rounded up
 	}
 
 	return lengths
-- 
2.43.0

