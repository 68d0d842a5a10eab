package main

import (
	"bytes"
	"errors"
	"io"
	"unicode/utf8"

	"github.com/fredbi/go-typeset/terminal/runes/runesio"
)

func init() {
	props["R01"] = r01
	props["R02"] = r02
	props["R03"] = r03
}

func r01(c *C) {
	in, modified := Guarded(c.Runes(1+c.I%9, nil))
	n := len(in)
	rd := runesio.NewSliceReader(in)
	pos := 0
	trace := ""
	note := func(s string) { trace += s + "; "; c.Input("runes=%U ops: %s", in, trace) }
	note("start")
	peek := func() {
		rest := rd.Runes()
		c.Check(Eq(rest, in[pos:]), "unread runes %U, expected %U", rest, in[pos:])
	}
	peek()
	for k := 0; k < 2+c.Intn(12); k++ {
		switch c.Intn(6) {
		case 0, 1:
			note("ReadRune")
			r, size, err := rd.ReadRune()
			if pos < n {
				c.Check(err == nil && r == in[pos] && size == utf8.RuneLen(in[pos]), "ReadRune at %d returned %U, %d, %v", pos, r, size, err)
				pos++
			} else {
				c.Check(err != nil && size == 0, "ReadRune at the end returned %U, %d, %v", r, size, err)
				c.Check(errors.Is(err, io.EOF), "ReadRune at the end returned error %v", err)
			}
		case 2, 3, 4:
			wh := c.Intn(3)
			off := int64(c.Intn(2*n+5) - n - 2)
			switch c.Intn(8) {
			case 0:
				off = int64(c.Uint64()) >> 2
			case 1:
				off = 0
			case 4:
				off = int64(c.Intn(2*n+3)-n-1) + (int64(c.Intn(9)-4) << uint(16*(1+c.Intn(3))))
			case 2:
				off = int64(n)
			case 3:
				off = -int64(n)
			}
			want := off
			switch wh {
			case io.SeekCurrent:
				want += int64(pos)
			case io.SeekEnd:
				want += int64(n)
			}
			note("Seek(" + itoa(off) + "," + itoa(int64(wh)) + ")")
			got, err := rd.Seek(off, wh)
			if want >= 0 && want <= int64(n) {
				c.Check(err == nil && got == want, "Seek to %d returned %d, %v", want, got, err)
				pos = int(want)
			} else {
				c.Check(err != nil, "Seek to %d in %d runes returned %d and no error", want, n, got)
			}
		case 5:
			a := c.Intn(n + 1)
			b := a + c.Intn(n-a+1)
			note("Slice(" + itoa(int64(a)) + "," + itoa(int64(b)) + ")")
			s := rd.Slice(a, b)
			c.Check(Eq(s, in[a:b]), "Slice(%d,%d) = %U", a, b, s)
			var offs []int
			var want [][]rune
			for q := c.Intn(4); q > 0; q-- {
				a := c.Intn(n + 1)
				b := a + c.Intn(n-a+1)
				offs = append(offs, a, b)
				want = append(want, in[a:b])
			}
			ss := rd.Slices(offs)
			c.Check(EqAll(ss, want), "Slices(%v) = %s", offs, Strs(ss))
		}
		peek()
	}
	c.Check(!modified(), "the runes were modified")
}

func itoa(i int64) string {
	neg := i < 0
	if neg {
		i = -i
	}
	s := ""
	for {
		s = string(rune('0'+i%10)) + s
		i /= 10
		if i == 0 {
			break
		}
	}
	if neg {
		s = "-" + s
	}
	return s
}

var mixed = []rune{'a', 'b', ' ', 'é', 'ß', '—', '世', '界', '😀', 0x10ffff, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0xfffd}

func r02(c *C) {
	max := 1 + c.I%12
	rs := make([]rune, c.Intn(max+1))
	for i := range rs {
		rs[i] = c.ValidRune(mixed)
	}
	in, modified := Guarded(rs)
	bounds := []int{0}
	for _, r := range in {
		bounds = append(bounds, bounds[len(bounds)-1]+utf8.RuneLen(r))
	}
	var offs []int
	var want [][]rune
	for q := c.Intn(4); q >= 0; q-- {
		a := c.Intn(len(bounds))
		b := a + c.Intn(len(bounds)-a)
		offs = append(offs, bounds[a], bounds[b])
		want = append(want, in[a:b])
	}
	given := append([]int(nil), offs...)
	rd := runesio.NewSliceReader(in)
	p := c.Intn(len(in) + 1)
	_, _ = rd.Seek(int64(p), io.SeekStart)
	c.Input("runes=%q offsets=%v position=%d", string(in), offs, p)
	got := rd.SliceFromByteOffsets(offs)
	c.Check(EqAll(got, want), "SliceFromByteOffsets = %s, expected %s", Strs(got), Strs(want))
	for i := range offs {
		c.Check(offs[i] == given[i], "the offsets were modified")
	}
	c.Check(Eq(rd.Runes(), in[p:]), "the reader position changed")
	c.Check(!modified(), "the runes were modified")
}

type recorder struct {
	writes [][]byte
	n      int
	err    error
}

func (r *recorder) Write(p []byte) (int, error) {
	r.writes = append(r.writes, append([]byte(nil), p...))
	return r.n, r.err
}

func r03(c *C) {
	rec := &recorder{n: c.Intn(100)}
	if c.Intn(3) == 0 {
		rec.err = errors.New("some error")
	}
	w := runesio.NewWriter(rec)
	if c.Intn(2) == 0 {
		r := c.Rune(mixed)
		c.Input("WriteRune(%d) underlying=(%d,%v)", r, rec.n, rec.err)
		n, err := w.WriteRune(r)
		c.Check(len(rec.writes) == 1, "%d writes", len(rec.writes))
		c.Check(string(rec.writes[0]) == string([]rune{r}), "wrote % x, expected % x", rec.writes[0], string([]rune{r}))
		c.Check(n == rec.n && err == rec.err, "returned %d, %v", n, err)
		return
	}
	max := 1 + c.I%40
	if c.I%500 == 77 {
		max = 20000
	}
	in, modified := Guarded(c.Runes(max, mixed))
	c.Input("WriteRunes(%d) underlying=(%d,%v)", in, rec.n, rec.err)
	n, err := w.WriteRunes(in)
	c.Check(len(rec.writes) == 1, "%d writes", len(rec.writes))
	want := []byte(string(in))
	c.Check(bytes.Equal(rec.writes[0], want), "wrote % x, expected % x", rec.writes[0], want)
	c.Check(n == rec.n && err == rec.err, "returned %d, %v", n, err)
	c.Check(!modified(), "the runes were modified")
}
