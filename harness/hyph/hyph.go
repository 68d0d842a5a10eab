package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"unicode"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"golang.org/x/text/language"
)

func init() {
	props["H01"] = h01
	props["H02"] = h02
	props["H03"] = h03
	props["H05"] = h05
	props["H06"] = h06
	props["H07"] = h07
}

// The oracle: the pattern files read and applied independently of the code under test.

type dict struct {
	file  string
	tag   language.Tag
	pats  map[string][]int
	exc   map[string][]int
	list  []string // patterns as written
	elist []string // exceptions as written
	max   int
}

var (
	dicts = []*dict{
		{file: "ushyphmax.tex", tag: language.AmericanEnglish},
		{file: "hyph-en-gb.tex", tag: language.BritishEnglish},
		{file: "hyph-fr.tex", tag: language.French},
		{file: "hyph-de-1996.tex", tag: language.German},
		{file: "hyph-es.tex", tag: language.Spanish},
	}
	once sync.Once
)

func lower(w []rune) []rune {
	out := make([]rune, len(w))
	for i, r := range w {
		out[i] = unicode.ToLower(r)
	}
	return out
}

func load() {
	once.Do(func() {
		for _, d := range dicts {
			d.pats, d.exc = map[string][]int{}, map[string][]int{}
			b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO"), "wordbreak", "hyphenator", "languages", d.file))
			if err != nil {
				panic(err)
			}
			section := ""
			for _, l := range strings.Split(string(b), "\n") {
				if i := strings.IndexByte(l, '%'); i >= 0 {
					l = l[:i]
				}
				if i := strings.IndexByte(l, '\\'); i >= 0 {
					section = ""
					if j := strings.IndexByte(l, '{'); j > i {
						section = l[i+1 : j]
						l = l[j+1:]
					} else {
						l = ""
					}
				}
				end := strings.HasSuffix(strings.TrimSpace(l), "}")
				l = strings.ReplaceAll(l, "}", " ")
				for _, f := range strings.Fields(l) {
					switch section {
					case "patterns":
						d.list = append(d.list, f)
						k, v := pattern(f)
						d.pats[k] = v
						if n := len([]rune(k)); n > d.max {
							d.max = n
						}
					case "hyphenation":
						d.elist = append(d.elist, f)
						k, v := exception(f)
						d.exc[k] = v
					}
				}
				if end {
					section = ""
				}
			}
			if len(d.list) < 100 {
				panic("pattern file not understood: " + d.file)
			}
		}
	})
}

// pattern yields the letters of a pattern and the digit of each of the gaps
// (before each letter, and after the last).
func pattern(s string) (string, []int) {
	var k []rune
	v := []int{0}
	for _, r := range s {
		if r >= '0' && r <= '9' {
			v[len(v)-1] = int(r - '0')
			continue
		}
		k = append(k, unicode.ToLower(r))
		v = append(v, 0)
	}
	return string(k), v
}

func exception(s string) (string, []int) {
	var k []rune
	v := []int{0}
	for _, r := range s {
		if r == '-' {
			v[len(v)-1] = 1
			continue
		}
		k = append(k, unicode.ToLower(r))
		v = append(v, 0)
	}
	return string(k), v
}

func isHyphen(r rune) bool { return unicode.Is(unicode.Hyphen, r) }

type limits struct{ min, left, right int }

func (l limits) String() string { return fmt.Sprintf("min %d, left %d, right %d", l.min, l.left, l.right) }

// levels yields the digit of each gap of the word.
func (d *dict) levels(w []rune) []int {
	out := make([]int, len(w)+1)
	lw := lower(w)
	if v, ok := d.exc[string(lw)]; ok && valid(lw) {
		copy(out, v)
		return out
	}
	dot := append(append([]rune{'.'}, lw...), '.')
	lev := make([]int, len(dot)+1)
	for i := range dot {
		for j := i + 1; j <= len(dot) && j-i <= d.max; j++ {
			if !valid(dot[i:j]) {
				break
			}
			for q, x := range d.pats[string(dot[i:j])] {
				if x > lev[i+q] {
					lev[i+q] = x
				}
			}
		}
	}
	for j := 1; j < len(w); j++ {
		out[j] = lev[j+1]
	}
	return out
}

// valid: no rune that a string conversion would replace
func valid(w []rune) bool {
	for _, r := range w {
		if r < 0 || r > 0x10ffff || (r >= 0xd800 && r <= 0xdfff) {
			return false
		}
	}
	return true
}

func (d *dict) expected(w []rune, l limits) [][]rune {
	for _, r := range w {
		if isHyphen(r) {
			return [][]rune{w}
		}
	}
	if len(w) < l.min {
		return [][]rune{w}
	}
	var parts [][]rune
	prev := 0
	for j, x := range d.levels(w) {
		if x%2 == 1 && j-prev >= l.left && len(w)-j >= l.right {
			parts = append(parts, w[prev:j])
			prev = j
		}
	}
	return append(parts, w[prev:])
}

func mk(d *dict, l limits) *hyphenator.Hyphenator {
	return hyphenator.New(hyphenator.WithLanguageTag(d.tag), hyphenator.WithMinLength(l.min), hyphenator.WithMinLeft(l.left), hyphenator.WithMinRight(l.right))
}

var wordlist = strings.Fields(`hyphenation associate associates table project declination obligatory philanthropic present presents reciprocity recognizance reformation retribution oneself something anything university Ausnahme Universitätsstadt Donaudampfschiff connectivité translatores İstanbul STRASSE Straße éÉtéÀ ǅungla Σίσυφος K`)

func (c *C) word(d *dict) []rune {
	var w []rune
	switch c.Intn(8) {
	case 0:
		w = []rune(wordlist[c.Intn(len(wordlist))])
	case 1:
		if len(d.elist) > 0 {
			k, _ := exception(d.elist[c.Intn(len(d.elist))])
			w = []rune(k)
			break
		}
		fallthrough
	case 2:
		w = c.Runes(14, []rune("abcdefghijklmnopqrstuvwxyzéüß."))
	case 3:
		w = c.Runes(8, []rune("aeiouAEIOU-tnrs"))
	default:
		for n := 1 + c.Intn(4); n > 0; n-- {
			k, _ := pattern(d.list[c.Intn(len(d.list))])
			if c.Intn(4) > 0 {
				k = strings.ReplaceAll(k, ".", "")
			}
			w = append(w, []rune(k)...)
		}
	}
	if c.Intn(12) == 0 && len(w) > 0 {
		w[c.Intn(len(w))] = c.AnyRune()
	}
	if c.Intn(12) == 0 && len(w) > 0 {
		w[c.Intn(len(w))] = []rune("-\u00ad\u2010\u2011\u058a")[c.Intn(5)]
	}
	switch c.Intn(4) {
	case 0:
		w = recase(c, w)
	case 1:
		if len(w) > 0 {
			w[0] = unicode.ToUpper(w[0])
		}
	}
	return w
}

// recase draws another word that is equal once lower-cased rune by rune.
func recase(c *C, w []rune) []rune {
	out := append([]rune{}, w...)
	for i, r := range out {
		if c.Intn(2) == 0 {
			for _, f := range []rune{unicode.ToUpper(r), unicode.ToTitle(r), unicode.ToLower(r), unicode.SimpleFold(r)} {
				if unicode.ToLower(f) == unicode.ToLower(r) && c.Intn(2) == 0 {
					out[i] = f
				}
			}
		}
	}
	return out
}

func (c *C) limits() limits {
	switch c.Intn(3) {
	case 0:
		return limits{4, 2, 2}
	case 1:
		return limits{c.Intn(7), 1 + c.Intn(4), 1 + c.Intn(4)}
	}
	return limits{c.Intn(3), c.Intn(3), c.Intn(3)}
}

func (c *C) dict() *dict {
	load()
	return dicts[c.Intn(len(dicts))]
}

// both entry points
func (c *C) brk(h *hyphenator.Hyphenator, w []rune) [][]rune {
	if valid(w) && c.Intn(3) == 0 {
		return h.BreakWordString(string(w))
	}
	return h.BreakWord(w)
}

func h01(c *C) {
	d, l := c.dict(), c.limits()
	h := mk(d, l)
	for k := 0; k < 20; k++ {
		w := c.word(d)
		ref := append([]rune{}, w...)
		c.Input("%s, %s, word %q %U", d.file, l, string(w), w)
		got := c.brk(h, w)
		c.Check(Eq(Cat(got), ref), "parts %s do not make up the word", Strs(got))
		c.Check(len(got) > 0, "no part")
		has := false
		for _, r := range ref {
			has = has || isHyphen(r)
		}
		c.Check(!(has || len(ref) < l.min) || len(got) == 1, "word with a hyphen or too short is broken: %s", Strs(got))
		at := 0
		for i, p := range got {
			at += len(p)
			if i < len(got)-1 && l.left >= 1 && l.right >= 1 {
				c.Check(len(p) >= l.left, "part %d shorter than %d: %s", i, l.left, Strs(got))
				c.Check(len(ref)-at >= l.right, "less than %d runes after break %d: %s", l.right, i, Strs(got))
			}
		}
	}
}

func h02(c *C) {
	d, l := c.dict(), c.limits()
	h := mk(d, l)
	for k := 0; k < 20; k++ {
		w := c.word(d)
		want := d.expected(append([]rune{}, w...), l)
		c.Input("%s, %s, word %q %U", d.file, l, string(w), w)
		got := c.brk(h, w)
		c.Check(EqAll(got, want), "broken as %s, expected %s", Strs(got), Strs(want))
	}
}

func cuts(parts [][]rune) string {
	s := ""
	for _, p := range parts {
		s += fmt.Sprint(len(p), " ")
	}
	return s
}

func h03(c *C) {
	d, l := c.dict(), c.limits()
	if c.I == 0 {
		// the fact of Unicode the argument rests on
		for r := rune(0); r <= 0x10ffff; r++ {
			c.Input("rune %U", r)
			c.Check(isHyphen(unicode.ToLower(r)) == isHyphen(r), "only one of the cases is a hyphen")
		}
	}
	h := mk(d, l)
	for k := 0; k < 20; k++ {
		w := c.word(d)
		x := recase(c, w)
		c.Input("%s, %s, words %q %U and %q %U", d.file, l, string(w), w, string(x), x)
		a, b := h.BreakWord(w), h.BreakWord(x)
		c.Check(cuts(a) == cuts(b), "part lengths differ: %sand %s", cuts(a), cuts(b))
	}
}

// h05 breaks each pattern and exception as a word, alone and within other
// letters, without limits on lengths.
func h05(c *C) {
	load()
	i := c.I * 50
	for k := i; k < i+50; k++ {
		j := k
		for _, d := range dicts {
			n := len(d.list) + len(d.elist)
			if j >= n {
				j -= n
				continue
			}
			h := mk(d, limits{0, 0, 0})
			var s string
			if j < len(d.elist) {
				s, _ = exception(d.elist[j])
			} else {
				s, _ = pattern(d.list[j-len(d.elist)])
				s = strings.ReplaceAll(s, ".", "")
			}
			for _, w := range []string{s, "x" + s, s + "x", strings.ToUpper(s)} {
				want := d.expected([]rune(w), limits{})
				c.Input("%s, no limits, word %q", d.file, w)
				got := h.BreakWord([]rune(w))
				c.Check(EqAll(got, want), "broken as %s, expected %s from the pattern file", Strs(got), Strs(want))
			}
			j = -1
			break
		}
		if j >= 0 { // all done: random words
			h02(c)
			return
		}
	}
}

var ids = map[string]string{}

func h06(c *C) {
	load()
	regions := map[string][]string{
		"fr": {"", "FR", "CA", "BE", "CH", "LU", "CI", "SN"}, "de": {"", "DE", "AT", "CH", "LU", "LI"},
		"es": {"", "ES", "MX", "AR", "CO", "CL", "PE", "US", "419"}, "en": {"", "GB", "US", "AU", "NZ", "IE", "IN", "ZA", "CA"},
	}
	langs := []string{"fr", "de", "es", "en"}
	exts := []string{"", "-u-co-phonebk", "-u-nu-latn", "-x-private", "-u-ca-gregory-hc-h23"}
	id := func(file string) string {
		if s, ok := ids[file]; ok {
			return s
		}
		d, err := hyphenator.LoadPatterns(file)
		c.Check(err == nil, "%s does not load: %v", file, err)
		ids[file] = d.String()
		return ids[file]
	}
	try := func(s string, want ...string) {
		c.Input("language %q", s)
		tag, err := language.Parse(s)
		if err != nil {
			c.Fail("bad tag: %v", err)
		}
		for k, h := range []*hyphenator.Hyphenator{hyphenator.New(hyphenator.WithLanguage(s)), hyphenator.New(hyphenator.WithLanguageTag(tag))} {
			ok := false
			for _, f := range want {
				ok = ok || h.String() == id(f)
			}
			c.Check(ok, "%s: patterns %q, expected those of %v", []string{"WithLanguage", "WithLanguageTag"}[k], h.String(), want)
			// the patterns, not only the name
			d := dicts[0]
			for _, x := range dicts {
				if id(x.file) == h.String() {
					d = x
				}
			}
			for n := 0; n < 3; n++ {
				w := c.word(d)
				want := d.expected(append([]rune{}, w...), limits{4, 2, 2})
				got := h.BreakWord(w)
				c.Check(EqAll(got, want), "word %q broken as %s, expected %s from %s", string(w), Strs(got), Strs(want), d.file)
			}
		}
	}
	l := langs[c.Intn(4)]
	r := regions[l][c.Intn(len(regions[l]))]
	s := l
	if c.Intn(6) == 0 {
		s += "-Latn"
	}
	if r != "" {
		s += "-" + r
	}
	s += exts[c.Intn(len(exts))]
	us, gb := "ushyphmax.tex", "hyph-en-gb.tex"
	switch {
	case l == "fr":
		try(s, "hyph-fr.tex")
	case l == "de":
		try(s, "hyph-de-1996.tex")
	case l == "es":
		try(s, "hyph-es.tex")
	case r == "GB":
		try(s, gb)
	case r == "US":
		try(s, us)
	case r == "":
		try(s, us, gb)
	case r == "AU" || r == "NZ" || r == "IE" || r == "IN" || r == "ZA":
		try(s, gb)
	default:
		try(s, us, gb)
	}
	u := []string{"uk", "ja", "zh", "ar", "ko", "vi", "hi", "th", "ru-RU"}[c.Intn(9)]
	try(u, us)
}

// h07 hyphenates a history of words with several hyphenators, concurrently,
// and compares with the results of each word alone.
func h07(c *C) {
	d := c.dict()
	n := 1 + c.Intn(30)
	type job struct {
		h    *hyphenator.Hyphenator
		w    []rune
		want [][]rune
		mod  func() bool
	}
	var jobs []job
	seen := map[string]bool{}
	for k := 0; k < n; k++ {
		l := c.limits()
		w, mod := Guarded(c.word(d))
		jobs = append(jobs, job{mk(d, l), w, d.expected(append([]rune{}, w...), l), mod})
		seen[string(w)] = true
	}
	in := func(j job) { c.Input("%s, after/with %d other words, word %q %U", d.file, n-1, string(j.w), j.w) }
	for round := 0; round < 2; round++ {
		for _, j := range jobs {
			in(j)
			got := j.h.BreakWord(j.w)
			c.Check(EqAll(got, j.want), "broken as %s, expected %s", Strs(got), Strs(j.want))
			c.Check(!j.mod(), "the word was modified")
			_ = append(got, []rune("x"))
		}
	}
	if c.Intn(4) > 0 {
		return
	}
	var wg sync.WaitGroup
	bad := make([]string, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad[g] = fmt.Sprintf("panic: %v", r)
				}
			}()
			for k := range jobs {
				j := jobs[(k+g)%len(jobs)]
				if got := j.h.BreakWord(j.w); !EqAll(got, j.want) && bad[g] == "" {
					bad[g] = fmt.Sprintf("word %q broken concurrently as %s, expected %s", string(j.w), Strs(got), Strs(j.want))
				}
			}
		}(g)
	}
	wg.Wait()
	for _, b := range bad {
		c.Check(b == "", "%s", b)
	}
	for _, j := range jobs {
		in(j)
		c.Check(!j.mod(), "the word was modified")
	}
}
