package main

import (
	"unicode"

	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

func init() {
	props["F01"] = f01
	props["P01"] = p01
	props["H04"] = h04
}

func fields(in []rune, sep func(rune) bool) [][2]int {
	var out [][2]int
	start := -1
	for i := 0; i <= len(in); i++ {
		if i == len(in) || sep(in[i]) {
			if start >= 0 {
				out = append(out, [2]int{start, i})
			}
			start = -1
		} else if start < 0 {
			start = i
		}
	}
	return out
}

var blanks = []rune{' ', ' ', '\t', '\n', 'a', 'b', 'c', 0x85, 0xa0, 0x2003, 0x3000, 0x200b, 'é', '世'}

func f01(c *C) {
	if c.I == 0 { // every rune
		for r := rune(-2); r < 0x110002; r++ {
			c.Input("text=[%U a %U]", r, r)
			got := tokenizer.New().BreakWord([]rune{r, 'a', r})
			ok := len(got) == 1 && len(got[0]) == 3
			if unicode.IsSpace(r) {
				ok = len(got) == 1 && len(got[0]) == 1
			}
			c.Check(ok, "tokens %s", Strs(got))
		}
	}
	in, modified := Guarded(c.Runes(1+c.I%14, blanks))
	isSep := unicode.IsSpace
	kind := c.Intn(3)
	switch kind {
	case 0:
		isSep = func(r rune) bool { return r == 'a' || r == ' ' }
	case 1:
		isSep = func(r rune) bool { return r%2 == 0 }
	}
	c.Input("runes=%U predicate=%d (0: 'a' or blank, 1: even, 2: IsSpace)", in, kind)
	check := func(got [][]rune, sub bool, what string) {
		want := fields(in, isSep)
		c.Check(len(got) == len(want), "%s: %s: %d tokens, expected %d", what, Strs(got), len(got), len(want))
		for i, w := range want {
			c.Check(Eq(got[i], in[w[0]:w[1]]), "%s: token %d is %U, expected %U", what, i, got[i], in[w[0]:w[1]])
			if sub {
				c.Check(&got[i][0] == &in[w[0]], "%s: token %d is not the sub-slice of the input", what, i)
			}
		}
	}
	check(runes.FieldsFunc(in, isSep), true, "FieldsFunc")
	isSep = unicode.IsSpace
	check(tokenizer.New().BreakWord(in), true, "BreakWord")
	c.Check(!modified(), "the input was modified")
	s := string(in)
	in = []rune(s)
	check(tokenizer.New().BreakWordString(s), false, "BreakWordString")
}

var puncts = []rune{',', '.', '|', '-', ':', 'a', 'b', ' ', '_', '\\', '$', '+', '<', 0x2010, 0x2011, 0xad, 0x058a, 0x2014, 0x2013, '«', '»', '!', 0x2e17, 0x30fb, 0xfe63, 0xff0d, 0xff65, 0x1806, 'é', '1'}

func isHyphenRune(r rune) bool {
	switch r {
	case 0x2d, 0xad, 0x58a, 0x1806, 0x2010, 0x2011, 0x2e17, 0x30fb, 0xfe63, 0xff0d, 0xff65:
		return true
	}
	return false
}

func checkSplit(c *C, in []rune, got [][]rune, mark func(rune) bool, what string) {
	var want [][]rune
	prev := 0
	for i, r := range in {
		if mark(r) {
			if prev < i {
				want = append(want, in[prev:i])
			}
			want = append(want, in[i:i+1])
			prev = i + 1
		}
	}
	if prev < len(in) {
		want = append(want, in[prev:])
	}
	c.Check(EqAll(got, want), "%s: %s, expected %s", what, Strs(got), Strs(want))
}

func isMark(r rune) bool {
	return r == '|' || (unicode.Is(unicode.P, r) && !isHyphenRune(r))
}

func p01(c *C) {
	if c.I == 0 { // every rune
		for r := rune(-2); r < 0x110002; r++ {
			c.Input("word=[%U]", r)
			c.Check(punctuator.IsPunctuation([]rune{r}) == isMark(r), "IsPunctuation(%U) = %v", r, !isMark(r))
		}
	}
	in, modified := Guarded(c.Runes(1+c.I%12, puncts))
	c.Input("word=%U", in)
	got := punctuator.New().BreakWord(in)
	checkSplit(c, in, got, isMark, "BreakWord")
	for _, p := range append(got, in, nil, []rune{}) {
		c.Check(punctuator.IsPunctuation(p) == (len(p) == 1 && isMark(p[0])), "IsPunctuation(%U) = %v", p, punctuator.IsPunctuation(p))
	}
	c.Check(!modified(), "the input was modified")
	s := string(in)
	checkSplit(c, []rune(s), punctuator.New().BreakWordString(s), isMark, "BreakWordString")
}

func h04(c *C) {
	if c.I == 0 { // every rune
		for r := rune(-2); r < 0x110002; r++ {
			c.Input("word=[%U]", r)
			c.Check(hyphenator.IsHyphen([]rune{r}) == isHyphenRune(r), "IsHyphen(%U) = %v", r, !isHyphenRune(r))
		}
	}
	in, modified := Guarded(c.Runes(1+c.I%12, puncts))
	c.Input("word=%U", in)
	got := hyphenator.SplitWord(in)
	checkSplit(c, in, got, isHyphenRune, "SplitWord")
	for _, p := range append(got, in, nil, []rune{}) {
		c.Check(hyphenator.IsHyphen(p) == (len(p) == 1 && isHyphenRune(p[0])), "IsHyphen(%U) = %v", p, hyphenator.IsHyphen(p))
	}
	c.Check(!modified(), "the input was modified")
}
