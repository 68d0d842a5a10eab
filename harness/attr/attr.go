package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
)

func init() {
	props["S01"] = s01
	props["S02"] = s02
}

// rec records what is written.
type rec struct{ got [][]rune }

func (r *rec) WriteRunes(rs []rune) (int, error) {
	r.got = append(r.got, append([]rune{}, rs...))
	return len(rs), nil
}
func (r *rec) WriteRune(x rune) (int, error) {
	r.got = append(r.got, []rune{x})
	return 1, nil
}
func (r *rec) WriteString(s string) (int, error) {
	r.got = append(r.got, []rune(s))
	return len(s), nil
}
func (r *rec) Write(b []byte) (int, error) {
	r.got = append(r.got, []rune(string(b)))
	return len(b), nil
}

var _ runesio.Writer = (*rec)(nil)

// other is a renderer of another type, which tells what is asked from it.
type other struct {
	name        string
	level       int
	start, stop bool
	w           *[]string
}

func (o *other) Start(runesio.Writer)  { *o.w = append(*o.w, "start "+o.name) }
func (o *other) Stop(runesio.Writer)   { *o.w = append(*o.w, "stop "+o.name) }
func (o *other) Render(runesio.Writer) { *o.w = append(*o.w, "render "+o.name) }
func (o *other) Runes() []rune         { return []rune(o.name) }
func (o *other) Level() int            { return o.level }
func (o *other) SetLevel(n int)        { o.level = n }
func (o *other) HasStart() bool        { return o.start }
func (o *other) HasStop() bool         { return o.stop }
func (o *other) SetStop([]rune)        {}

func (c *C) seq() []rune {
	switch c.Intn(4) {
	case 0:
		return nil
	case 1:
		return []rune{}
	}
	return c.Runes(4, []rune("ab\x1b[0m"))
}

func s01(c *C) {
	st := attributes.NewState()
	var all []attributes.Renderer
	var desc []string
	var log []string
	level, hadStop := 0, false
	n := c.Intn(10)
	if c.Intn(20) == 0 {
		n = 200
	}
	walk := func() {
		for _, first := range []bool{false, true} {
			it := st.Iterator()
			if first {
				it = st.First()
				if len(all) == 0 {
					c.Check(it.Item() == nil, "an item in an empty state")
				} else {
					c.Check(it.Item() == all[0], "First is not the first renderer pushed")
				}
			}
			k := 0
			if first && len(all) > 0 {
				k = 1
			}
			for ; it.Next(); k++ {
				c.Check(k < len(all), "more items than the %d pushed", len(all))
				c.Check(it.Item() == all[k], "item %d is not the renderer pushed in this place", k)
			}
			c.Check(k == len(all), "%d items, %d were pushed", k, len(all))
			c.Check(!it.Next() && it.Item() == nil, "iterating goes on after the end")
		}
	}
	walk()
	for i := 0; i < n; i++ {
		if c.Intn(6) == 0 {
			desc = append(desc, "nil")
			c.Input("pushes: %s", strings.Join(desc, " "))
			st.Push(nil)
			walk()
			continue
		}
		start, stop := c.seq(), c.seq()
		var r attributes.Renderer
		before := c.Intn(5) - 2
		if c.Intn(3) == 0 {
			r = &other{name: fmt.Sprint(i), start: len(start) > 0, stop: len(stop) > 0, w: &log, level: before}
		} else {
			a := attributes.New(c.seq(), start, stop)
			a.NestingLevel = before
			r = a
		}
		d := "+"
		want := level
		if hadStop {
			want--
		}
		if len(start) > 0 {
			want++
			d += "s"
		}
		if len(stop) > 0 {
			d += "e"
		}
		desc = append(desc, d)
		c.Input("pushes (s: start, e: stop): %s", strings.Join(desc, " "))
		st.Push(r)
		all = append(all, r)
		c.Check(r.Level() == want, "level of renderer %d is %d, expected %d", i, r.Level(), want)
		if a, ok := r.(*attributes.Attribute); ok {
			c.Check(a.NestingLevel == want && Eq(a.StartSequence, start) && Eq(a.StopSequence, stop), "pushing changed the renderer")
		}
		level, hadStop = want, len(stop) > 0
		if n < 100 {
			walk()
		}
	}
	walk()
	lv := 0
	for i, r := range all {
		if i > 0 && all[i-1].HasStop() {
			lv--
		}
		if r.HasStart() {
			lv++
		}
		c.Check(r.Level() == lv, "the level of renderer %d ends up as %d, expected %d", i, r.Level(), lv)
	}
}

func s02(c *C) {
	n := c.Intn(6)
	var rs attributes.Renderers
	var log, wlog []string
	var want [3][][]rune
	var desc []string
	for i := 0; i < n; i++ {
		switch c.Intn(5) {
		case 0:
			rs = append(rs, nil)
			desc = append(desc, "nil")
			continue
		case 1:
			name := fmt.Sprint(i)
			rs = append(rs, &other{name: name, w: &log, start: c.Intn(2) == 0, stop: c.Intn(2) == 0})
			wlog = append(wlog, name)
			desc = append(desc, "other")
			continue
		}
		text, start, stop := c.seq(), c.seq(), c.seq()
		a := attributes.New(text, start, stop)
		if c.Intn(3) == 0 {
			a = attributes.New(text, start, c.seq())
			a.SetStop(stop)
		}
		a.SetLevel(c.Intn(3))
		c.Check(Eq(a.Runes(), text), "Runes is not the text")
		desc = append(desc, fmt.Sprintf("%q/%q/%q", string(start), string(text), string(stop)))
		c.Input("%s", strings.Join(desc, " "))
		add := func(k int, p []rune) {
			if len(p) > 0 {
				want[k] = append(want[k], p)
			}
		}
		var alone [3][][]rune
		for k, ps := range [3][][]rune{{start}, {stop}, {start, text, stop}} {
			for _, p := range ps {
				add(k, p)
				if len(p) > 0 {
					alone[k] = append(alone[k], p)
				}
			}
		}
		for k, f := range []func(runesio.Writer){a.Start, a.Stop, a.Render} {
			w := &rec{}
			f(w)
			c.Check(Eq(Cat(w.got), Cat(alone[k])), "%s wrote %q, expected %q", [3]string{"Start", "Stop", "Render"}[k], string(Cat(w.got)), string(Cat(alone[k])))
		}
		rs = append(rs, a)
	}
	c.Input("%s", strings.Join(desc, " "))
	for k, f := range []func(runesio.Writer){rs.Start, rs.Stop, rs.Render} {
		name := [3]string{"start", "stop", "render"}[k]
		w := &rec{}
		log = nil
		f(w)
		c.Check(Eq(Cat(w.got), Cat(want[k])), "%s of the collection wrote %q, expected %q", name, string(Cat(w.got)), string(Cat(want[k])))
		var exp []string
		for _, x := range wlog {
			exp = append(exp, name+" "+x)
		}
		c.Check(strings.Join(log, ",") == strings.Join(exp, ","), "%s of the collection: %v, expected %v", name, log, exp)
	}
}
