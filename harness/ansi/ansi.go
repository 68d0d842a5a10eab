package main

import (
	"unicode"

	"github.com/fredbi/go-typeset/terminal/ansi"
)

func init() {
	props["A01"] = func(c *C) { c.strip(a01) }
	props["A02"] = func(c *C) { c.strip(a02) }
	props["A03"] = func(c *C) { c.strip(a03) }
	props["A04"] = func(c *C) { c.strip(a04) }
}

// sequence reads a control sequence at the start of in by the grammar:
// ESC [ params key, params = group {(;|:) group}, group = up to three digits.
// Its kind is 's'tart, 'e'nd, 'o'ther, 'i'ncomplete or 0 (none), with its length.
func sequence(in []rune) (byte, int) {
	if len(in) < 2 || in[0] != 27 || in[1] != '[' {
		return 0, 0
	}
	i := 2
	zero, first := true, true
	for {
		for d := 0; d < 3 && i < len(in) && unicode.IsDigit(in[i]); d++ {
			if first && in[i] != '0' {
				zero = false
			}
			i++
		}
		first = false
		if i < len(in) && (in[i] == ';' || in[i] == ':') {
			i++
			continue
		}
		break
	}
	if i == len(in) {
		return 'i', i
	}
	k := byte('o')
	switch in[i] {
	case 's', 'h':
		k = 's'
	case 'u', 'l':
		k = 'e'
	case 'm':
		k = 's'
		if zero {
			k = 'e'
		}
	}
	return k, i + 1
}

var ansiAlphabet = []rune{27, 27, '[', '[', '0', '0', '1', '3', '9', ';', ':', 'm', 'm', 'h', 'l', 's', 'u', 'K', 'a', ' ', 0x0663, 0x0660, 'é', '世'}

var pieces = []string{"\x1b[", "\x1b[m", "\x1b[0m", "\x1b[00m", "\x1b[000m", "\x1b[1m", "\x1b[31m", "\x1b[38;5;200m", "\x1b[0;1m", "\x1b[;1m", "\x1b[2K", "\x1b[K", "\x1b[?25h", "\x1b[1234m", "\x1b[s", "\x1b[u", "\x1b[7h", "\x1b[7l", "\x1b", "\x1b\x1b", "[", "abc", "x", "m", "0", "\x1b[1:2:3m", "\x1b[1;1111m", "\x1b[12;"}

func (c *C) token() []rune {
	if c.Intn(3) == 0 {
		return c.Runes(1+c.I%24, ansiAlphabet)
	}
	var out []rune
	for n := c.Intn(2 + c.I%6); n >= 0; n-- {
		out = append(out, []rune(pieces[c.Intn(len(pieces))])...)
		if c.Intn(3) == 0 {
			out = append(out, c.Rune(ansiAlphabet))
		}
	}
	return out
}

func (c *C) strip(f func(c *C, in []rune, one ansi.StrippedToken, all []ansi.StrippedToken)) {
	in, modified := Guarded(c.token())
	c.Input("token=%q", string(in))
	if c.Intn(4) == 0 { // nothing can be appended in place
		in = in[:len(in):len(in)]
	}
	one := ansi.StripANSIFromRunes(in)
	m1 := modified()
	all := ansi.StripToken(in)
	written = m1 || modified()
	f(c, in, one, all)
}

var written bool

func a01(c *C, in []rune, one ansi.StrippedToken, all []ansi.StrippedToken) {
	got := Cat([][]rune{one.StartSequence, one.Text, one.StopSequence, one.Remainder})
	c.Check(Eq(got, in), "scanning once gives start=%q text=%q stop=%q remainder=%q", string(one.StartSequence), string(one.Text), string(one.StopSequence), string(one.Remainder))
	got = nil
	for _, t := range all {
		got = append(got, Cat([][]rune{t.StartSequence, t.Text, t.StopSequence})...)
	}
	c.Check(Eq(got, in), "complete scanning gives %q", string(got))
}

func a02(c *C, in []rune, one ansi.StrippedToken, all []ansi.StrippedToken) {
	for _, t := range append(all, one) {
		k, n := sequence(t.StartSequence)
		c.Check(len(t.StartSequence) == 0 || k == 's' && n == len(t.StartSequence), "start sequence %q is not one complete start sequence", string(t.StartSequence))
		k, n = sequence(t.StopSequence)
		c.Check(len(t.StopSequence) == 0 || k == 'e' && n == len(t.StopSequence), "stop sequence %q is not one complete stop sequence", string(t.StopSequence))
	}
}

func a03(c *C, in []rune, _ ansi.StrippedToken, all []ansi.StrippedToken) {
	for _, t := range all {
		for i := 0; i < len(t.Text); {
			k, n := sequence(t.Text[i:])
			c.Check(k != 's' && k != 'e', "text %q contains the sequence %q", string(t.Text), string(t.Text[i:i+n]))
			if n == 0 {
				n = 1
			}
			i += n
		}
	}
}

func a04(c *C, in []rune, one ansi.StrippedToken, all []ansi.StrippedToken) {
	c.Check(!written, "the memory behind the token was modified")
	c.Check(len(in) == 0 || len(one.Remainder) < len(in), "no progress: remainder %q", string(one.Remainder))
	c.Check(len(all) <= len(in)+1, "%d tokens", len(all))
}
