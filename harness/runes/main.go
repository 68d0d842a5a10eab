package main

import (
	"sort"
	"unicode/utf8"

	"github.com/fredbi/go-typeset/terminal/runes"
)

func init() {
	props["W01"] = w01
	props["W02"] = w02
	props["W03"] = w03
	props["W04"] = w04
}

func in(set string, r rune) bool {
	t := unicodeSets[set]
	i := sort.Search(len(t), func(i int) bool { return t[i][1] >= r })
	return i < len(t) && t[i][0] <= r
}

func refWidth(r rune, ea, sk bool, amb int) int {
	switch {
	case !utf8.ValidRune(r) || r == 0xFFFD || r < 32 || r >= 127 && r <= 159 || r == 173 || in("u_format", r) || in("u_combining", r):
		return 0
	case r == 0x2E3A:
		return 3
	case r == 0x2E3B:
		return 4
	case in("u_wide", r):
		return 2
	case !ea:
		return 1
	case in("u_ambiguous", r):
		return amb
	case sk && in("u_pictograph", r):
		return 2
	}
	return 1
}

type setting struct {
	ea, sk bool
	amb    int
}

// options draws a list of options and the settings it stands for.
func (c *C) options() ([]runes.Option, setting) {
	s := setting{amb: 2}
	var out []runes.Option
	for n := c.Intn(5); n > 0; n-- {
		switch c.Intn(3) {
		case 0:
			s.ea = c.Intn(4) > 0
			out = append(out, runes.WithEastAsian(s.ea))
		case 1:
			s.sk = c.Intn(3) > 0
			out = append(out, runes.WithSkipStrictEmojiNeutral(s.sk))
		default:
			s.amb = c.Intn(7) - 1
			if c.Intn(8) == 0 {
				s.amb = c.Intn(2000) - 1000
			}
			out = append(out, runes.WithEastAsianAmbiguousWidth(s.amb))
		}
	}
	return out, s
}

var special = []rune{0x2E3A, 0x2E3B, 0x2E3C, 0xFFFD, 0xAD, 0xA1, 0x2122, 0x1F600, 0x4E00, 'a', 'é', '\n', 0x300, 0x200B, 0xFE0F, 0xA9, 0x20, 0x7F}

func everyRune(f func(r rune)) {
	for r := rune(-3); r < 0x110010; r++ {
		f(r)
	}
	for _, r := range []rune{0x7fffffff, -0x80000000, -0x7fffffff, 0x200000, 0x110000 * 2} {
		f(r)
	}
}

func w01(c *C) {
	if c.I < 3 { // every rune, alone and between others
		opts := [][]runes.Option{nil, {runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(3)}, {runes.WithEastAsian(true), runes.WithSkipStrictEmojiNeutral(true)}}[c.I]
		wa := runes.Width('a', opts...)
		everyRune(func(r rune) {
			c.Input("runes=[%U], options #%d", r, c.I)
			w := runes.Width(r, opts...)
			c.Check(runes.Widths([]rune{r}, opts...) == w, "Widths of the single rune is %d, Width is %d", runes.Widths([]rune{r}, opts...), w)
			c.Check(runes.Widths([]rune{'a', r, 'a'}, opts...) == w+2*wa, "Widths of a, rune, a is %d, Width is %d and that of a is %d", runes.Widths([]rune{'a', r, 'a'}, opts...), w, wa)
		})
		return
	}
	rs, modified := Guarded(c.Runes(20, special))
	opts, s := c.options()
	c.Input("runes=%U settings=%+v (%d options)", rs, s, len(opts))
	sum := 0
	for _, r := range rs {
		sum += runes.Width(r, opts...)
	}
	got := runes.Widths(rs, opts...)
	c.Check(got == sum, "Widths is %d, sum of Width is %d", got, sum)
	c.Check(!modified(), "the input was modified")
	str := string(rs)
	sum = 0
	for _, r := range str {
		sum += runes.Width(r, opts...)
	}
	got = runes.StringWidth(str, opts...)
	c.Check(got == sum, "StringWidth of %q is %d, sum of Width is %d", str, got, sum)
	// a string that is not valid UTF-8
	b := make([]byte, c.Intn(12))
	for i := range b {
		b[i] = byte(c.Intn(256))
	}
	c.Input("string=%q settings=%+v", b, s)
	sum = 0
	for _, r := range string(b) {
		sum += runes.Width(r, opts...)
	}
	got = runes.StringWidth(string(b), opts...)
	c.Check(got == sum, "StringWidth is %d, sum of Width is %d", got, sum)
}

func w02(c *C) {
	if c.I == 0 {
		everyRune(func(r rune) {
			c.Input("rune=%U", r)
			w := refWidth(r, false, false, 2)
			c.Check(runes.Width(r) == w, "Width is %d, expected %d", runes.Width(r), w)
			c.Check(runes.Widths([]rune{r}) == w, "Widths is %d, expected %d", runes.Widths([]rune{r}), w)
			w1 := runes.Width(r, runes.WithEastAsian(false), runes.WithSkipStrictEmojiNeutral(true), runes.WithEastAsianAmbiguousWidth(5))
			c.Check(w1 == w, "Width without East-Asian mode but with its other options is %d, expected %d", w1, w)
		})
		return
	}
	r := c.Rune(special)
	c.Input("rune=%U", r)
	c.Check(runes.Width(r) == refWidth(r, false, false, 2), "Width is %d, expected %d", runes.Width(r), refWidth(r, false, false, 2))
}

var probe = []rune{'a', 0xA1, 0x2388, 0x2122, 0x1F321, 0x4E00, 0x300, 0x2E3B, 0xA9, 0x3041}

func w03(c *C) {
	// a sequence of calls; each result only depends on the options of that call
	type use struct {
		s setting
		n int
	}
	var hist []use
	var kept []runes.Option
	var keptS setting
	for n := 2 + c.Intn(8); n > 0; n-- {
		opts, s := c.options()
		if kept != nil && c.Intn(3) == 0 { // option values used again
			opts, s = kept, keptS
		}
		if kept == nil && len(opts) > 0 {
			kept, keptS = opts, s
		}
		if c.Intn(4) == 0 {
			opts, s = nil, setting{amb: 2}
		}
		hist = append(hist, use{s, len(opts)})
		c.Input("calls with settings %+v, runes %U", hist, probe)
		sum := 0
		for _, r := range probe {
			want := refWidth(r, s.ea, s.sk, s.amb)
			sum += want
			if c.Intn(2) == 0 {
				got := runes.Width(r, opts...)
				c.Check(got == want, "Width(%U) is %d in the last call, expected %d", r, got, want)
			}
		}
		if got := runes.Widths(probe, opts...); got != sum {
			c.Fail("Widths is %d in the last call, expected %d", got, sum)
		}
	}
}

func w04(c *C) {
	if c.I < 6 {
		sk := c.I%2 == 1
		amb := []int{2, 1, 5}[c.I/2]
		opts := []runes.Option{runes.WithEastAsian(true), runes.WithSkipStrictEmojiNeutral(sk)}
		if c.I >= 2 {
			opts = append(opts, runes.WithEastAsianAmbiguousWidth(amb))
		}
		everyRune(func(r rune) {
			c.Input("rune=%U EastAsian SkipStrictEmojiNeutral=%v ambiguous width=%d", r, sk, amb)
			w := refWidth(r, true, sk, amb)
			c.Check(runes.Width(r, opts...) == w, "Width is %d, expected %d", runes.Width(r, opts...), w)
			c.Check(runes.IsAmbiguous(r) == in("u_ambiguous", r), "IsAmbiguous is %v", runes.IsAmbiguous(r))
			if c.I == 0 {
				w := refWidth(r, false, false, 2)
				g := runes.Width(r, runes.WithSkipStrictEmojiNeutral(true), runes.WithEastAsianAmbiguousWidth(7))
				c.Check(g == w, "Width with both other options but without East-Asian mode is %d, expected %d", g, w)
			}
		})
		return
	}
	rs := c.Runes(12, special)
	opts, s := c.options()
	c.Input("runes=%U settings=%+v", rs, s)
	sum := 0
	for _, r := range rs {
		w := refWidth(r, s.ea, s.sk, s.amb)
		c.Check(runes.Width(r, opts...) == w, "Width(%U) is %d, expected %d", r, runes.Width(r, opts...), w)
		sum += w
	}
	c.Check(runes.Widths(rs, opts...) == sum, "Widths is %d, expected %d", runes.Widths(rs, opts...), sum)
}
