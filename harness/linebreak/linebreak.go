package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"unicode"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
)

func init() {
	props["L01"] = l01
	props["L02"] = l02
	props["L03"] = l03
	props["L04"] = l04
	if os.Getenv("VERIF_CHILD") != "" {
		fmt.Print(child(os.Getenv("VERIF_CHILD")))
		os.Exit(0)
	}
}

var vocabulary = strings.Fields(`a I of the and Lorem ipsum dolor sit amet consectetuer adipiscing elit university universities hyphenation
 associate declination obligatory Honorificabilitudinitatibus often-times twenty-four, either/or end. (yes) "quoted" semi;colon a|b x-y-z --
 - ... !? 1,234.56 日本語 中文 한국어 é é naïve Straße mother-in-law's self‐evident snake_case_name path/to/file e.g. i.e., foo::bar
 extraordinarily incomprehensibilities counter-revolutionaries`)

func (c *C) token() string {
	switch c.Intn(6) {
	case 0:
		for {
			if t := plain(c.Runes(8, []rune("abcdefgh-,./|日é"))); len(t) > 0 {
				return string(t)
			}
		}
	case 1:
		return strings.Repeat("abcdefgh"[:1+c.Intn(8)], 1+c.Intn(3))
	default:
		return vocabulary[c.Intn(len(vocabulary))]
	}
}

// plain keeps the runes a plain token is made of: valid ones, no blanks, no control.
func plain(rs []rune) []rune {
	var out []rune
	for _, r := range rs {
		if r >= 0 && r <= 0x10ffff && !(r >= 0xd800 && r <= 0xdfff) && !unicode.IsSpace(r) && !unicode.IsControl(r) {
			out = append(out, r)
		}
	}
	return out
}

func (c *C) tokens() []string {
	n := 1 + c.Intn(12)
	if c.Intn(8) == 0 {
		n = 1 + c.Intn(60)
	}
	ts := make([]string, n)
	for i := range ts {
		ts[i] = c.token()
	}
	return ts
}

type setting struct {
	desc string
	opts []linebreak.Option
}

func (c *C) setting() setting {
	var s setting
	add := func(d string, o linebreak.Option) {
		s.desc += " " + d
		s.opts = append(s.opts, o)
	}
	if c.Intn(3) == 0 {
		return setting{desc: " default"}
	}
	if c.Intn(3) == 0 {
		t := []float64{1, 2, 5, 20, 1000}[c.Intn(5)]
		add(fmt.Sprintf("tolerance %v", t), linebreak.WithTolerance(t))
	}
	if c.Intn(3) == 0 {
		b := c.Intn(2) == 0
		add(fmt.Sprintf("wordbreak %t", b), linebreak.WithWordBreak(b))
	}
	if c.Intn(3) == 0 {
		b := c.Intn(2) == 0
		add(fmt.Sprintf("renderhyphens %t", b), linebreak.WithRenderHyphens(b))
	}
	if c.Intn(3) == 0 {
		p := []float64{0, 10, 50, 200, 1000, 9999}[c.Intn(6)]
		add(fmt.Sprintf("hyphenpenalty %v", p), linebreak.WithHyphenPenalty(p))
	}
	if c.Intn(3) == 0 {
		f := []float64{1, 2, 3, 10}[c.Intn(4)]
		add(fmt.Sprintf("scale %v", f), linebreak.WithScaleFactor(f))
	}
	if c.Intn(4) == 0 {
		h := hyphenator.New(hyphenator.WithMinLeft(1), hyphenator.WithMinRight(1), hyphenator.WithMinLength(2))
		add("hyphenator(1,1,2)", linebreak.WithHyphenator(h.BreakWord))
	}
	return s
}

func (c *C) width() float64 {
	w := float64(1 + c.Intn(6+c.Intn(60)))
	if c.Intn(4) == 0 {
		w += float64(c.Intn(8)) / 8
	}
	return w
}

// match tells whether the lines spell the tokens: blanks between tokens on a
// line, nothing at the ends, an inserted hyphen only within a token at a line end.
func match(lines []string, tokens []string) string {
	var text []rune
	for i, t := range tokens {
		if i > 0 {
			text = append(text, ' ')
		}
		text = append(text, []rune(t)...)
	}
	at := map[int]bool{0: true}
	for n, l := range lines {
		rs := []rune(l)
		next := map[int]bool{}
		for p := range at {
			ends := func(k int, hy bool) {
				if k > len(text) || string(text[p:k]) != string(rs[:len(rs)-b2i(hy)]) {
					return
				}
				switch {
				case k == len(text):
					if n == len(lines)-1 && !hy {
						next[k] = true
					}
				case n == len(lines)-1:
				case text[k] == ' ':
					if !hy {
						next[k+1] = true
					}
				default:
					next[k] = true
				}
			}
			ends(p+len(rs), false)
			if len(rs) > 0 && rs[len(rs)-1] == '-' {
				ends(p+len(rs)-1, true)
			}
		}
		if len(next) == 0 {
			return fmt.Sprintf("line %d, %q, does not follow", n+1, l)
		}
		at = next
	}
	if !at[len(text)] {
		return "text is missing at the end"
	}
	return ""
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func l01(c *C) {
	s, ts, w := c.setting(), c.tokens(), c.width()
	c.Input("LeftAlignUniform(%q, %v), options:%s", ts, w, s.desc)
	lines, err := linebreak.New(s.opts...).LeftAlignUniform(append([]string{}, ts...), w)
	if err != nil {
		c.Check(lines == nil, "lines along with an error")
		return
	}
	if d := match(lines, ts); d != "" {
		c.Fail("%s; lines %q", d, lines)
	}
}

func l02(c *C) {
	s, ts, w := c.setting(), c.tokens(), c.width()
	c.Input("LeftAlignUniform(%q, %v), options:%s", ts, w, s.desc)
	lines, err := linebreak.New(s.opts...).LeftAlignUniform(append([]string{}, ts...), w)
	c.Check(err == nil || lines == nil, "lines along with an error")
	for i, l := range lines {
		c.Check(float64(runes.Widths([]rune(l))) <= w, "line %d, %q, is %d wide; lines %q", i+1, l, runes.Widths([]rune(l)), lines)
	}
}

// wrapping with attributes
func (c *C) styled() []string {
	ts := c.tokens()
	styles := []string{"\x1b[1m", "\x1b[31m", "\x1b[4;32m", "\x1b[7m"}
	open := 0
	for i := range ts {
		if c.Intn(3) == 0 {
			ts[i] = styles[c.Intn(len(styles))] + ts[i]
			open++
		}
		if open > 0 && c.Intn(2) == 0 {
			ts[i] += "\x1b[0m"
			open--
		}
	}
	return ts
}

func wrap(l *linebreak.LineBreaker, ts []string, w float64) string {
	lines, err := l.LeftAlignUniform(append([]string{}, ts...), w)
	return fmt.Sprintf("%q %v", lines, err)
}

func child(spec string) string {
	var out strings.Builder
	for k := 0; k < 40; k++ {
		c := caseOf(spec, k)
		s, ts, w := c.setting(), c.styled(), c.width()
		fmt.Fprintln(&out, wrap(linebreak.New(s.opts...), ts, w))
	}
	return out.String()
}

// l03: the same paragraph again, by another line breaker, concurrently, and in another process.
func l03(c *C) {
	if c.I%400 == 0 {
		spec := fmt.Sprint(c.Int63())
		var outs [2]string
		for k := range outs {
			cmd := exec.Command(os.Args[0])
			cmd.Env = append(os.Environ(), "VERIF_CHILD="+spec)
			b, err := cmd.Output()
			if err != nil {
				c.Fail("wrapping in a process: %v", err)
			}
			outs[k] = string(b)
		}
		a, b, h := strings.Split(outs[0], "\n"), strings.Split(outs[1], "\n"), strings.Split(child(spec), "\n")
		for k := range h {
			d := caseOf(spec, k)
			s, ts, w := d.setting(), d.styled(), d.width()
			c.Input("LeftAlignUniform(%q, %v), options:%s, in several processes", ts, w, s.desc)
			c.Check(k < len(a) && k < len(b) && a[k] == b[k] && a[k] == h[k], "results differ: %s, %s, %s", a[k], b[k], h[k])
		}
		return
	}
	s, ts, w := c.setting(), c.styled(), c.width()
	c.Input("LeftAlignUniform(%q, %v), options:%s, repeated", ts, w, s.desc)
	first := wrap(linebreak.New(s.opts...), ts, w)
	for k := 0; k < 6; k++ {
		got := wrap(linebreak.New(s.opts...), ts, w)
		c.Check(got == first, "result %d: %s, first result: %s", k+2, got, first)
	}
	if c.Intn(8) == 0 {
		var wg sync.WaitGroup
		var res [4]string
		for g := range res {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						res[g] = fmt.Sprint("panic: ", r)
					}
				}()
				res[g] = wrap(linebreak.New(s.opts...), ts, w)
			}(g)
		}
		wg.Wait()
		for _, got := range res {
			c.Check(got == first, "concurrent result: %s, first result: %s", got, first)
		}
	}
}

// l04: a line breaker with a history against a new one.
func l04(c *C) {
	s := c.setting()
	l := linebreak.New(s.opts...)
	var hist []string
	for k := 1 + c.Intn(4); k > 0; k-- {
		ts, w := c.styled(), c.width()
		got := wrap(l, ts, w)
		c.Input("one line breaker, options:%s: %s; then LeftAlignUniform(%q, %v)", s.desc, strings.Join(hist, "; "), ts, w)
		want := wrap(linebreak.New(s.opts...), ts, w)
		c.Check(got == want, "result %s, from a new line breaker: %s", got, want)
		hist = append(hist, fmt.Sprintf("LeftAlignUniform(%q, %v)", ts, w))
	}
}

