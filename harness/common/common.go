// Concrete search for a failing input, run against the real code. It is
// compiled as a package of the module under test through an overlay.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
)

// C is the context of one case.
type C struct {
	*rand.Rand
	I     int // case number
	input string
}

type failure struct{ msg string }

// Input records the input of the case, in a form that can be replayed by hand.
func (c *C) Input(format string, args ...interface{}) { c.input = fmt.Sprintf(format, args...) }

// Fail reports a violation.
func (c *C) Fail(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

func (c *C) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		c.Fail(format, args...)
	}
}

var props = map[string]func(c *C){}

type report struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Case     int    `json:"case"`
	Input    string `json:"input"`
	Detail   string `json:"detail"`
}

func main() {
	id := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100000, "number of cases")
	limit := flag.Duration("time", 20*time.Second, "time limit")
	one := flag.Int("case", -1, "run this case only")
	trace := flag.Bool("trace", false, "print each input first")
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	f := props[*id]
	if f == nil {
		fmt.Println("unknown property", *id)
		os.Exit(3)
	}
	t0 := time.Now()
	var cur atomic.Pointer[C]
	var started atomic.Int64
	emit := func(c *C, detail string) {
		b, _ := json.Marshal(report{*id, *seed, c.I, c.input, detail})
		fmt.Printf("FAIL %s\n", b)
		os.Exit(1)
	}
	go func() {
		for {
			time.Sleep(50 * time.Millisecond)
			c := cur.Load()
			if c == nil {
				continue
			}
			if time.Now().UnixNano()-started.Load() > int64(20*time.Second) {
				emit(c, "does not terminate: no result within 20 s")
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				emit(c, "memory grows without bound (over 3 GB)")
			}
		}
	}()
	distinct := map[uint64]bool{}
	run := func(i int) {
		c := &C{Rand: rand.New(rand.NewSource(*seed*1000003 + int64(i))), I: i}
		started.Store(time.Now().UnixNano())
		cur.Store(c)
		if *trace {
			fmt.Fprintf(os.Stderr, "case %d\n", i)
		}
		defer func() {
			if r := recover(); r != nil {
				if fl, ok := r.(failure); ok {
					emit(c, fl.msg)
				}
				emit(c, fmt.Sprintf("panic: %v", r))
			}
		}()
		f(c)
		if c.input != "" && len(distinct) < 1<<22 {
			h := fnv.New64a()
			h.Write([]byte(c.input))
			distinct[h.Sum64()] = true
			if i < 3 {
				b, _ := json.Marshal(c.input)
				fmt.Printf("SAMPLE %s\n", b)
			}
		}
	}
	if *one >= 0 {
		run(*one)
		fmt.Printf("OK cases=1\n")
		return
	}
	i := 0
	for ; i < *n && time.Since(t0) < *limit; i++ {
		run(i)
	}
	fmt.Printf("OK cases=%d distinct=%d\n", i, len(distinct))
}

// generators ---------------------------------------------------------------------------

// Runes draws up to max runes from an alphabet, mixed with random ones.
func (c *C) Runes(max int, alphabet []rune) []rune {
	n := c.Intn(max + 1)
	out := make([]rune, n)
	for i := range out {
		out[i] = c.Rune(alphabet)
	}
	return out
}

func (c *C) Rune(alphabet []rune) rune {
	if len(alphabet) > 0 && c.Intn(10) < 8 {
		return alphabet[c.Intn(len(alphabet))]
	}
	return c.AnyRune()
}

// AnyRune draws a rune of any class, valid or not.
func (c *C) AnyRune() rune {
	switch c.Intn(12) {
	case 0:
		return rune(c.Intn(0x80))
	case 1:
		return rune(c.Intn(0x800))
	case 2:
		return rune(c.Intn(0x10000))
	case 3:
		return rune(c.Intn(0x110000))
	case 4:
		return rune(0xD7F0 + c.Intn(0x840))
	case 5:
		return rune(c.Uint32())
	case 6:
		return []rune{-1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, -0x80000000, 0x7fffffff}[c.Intn(17)]
	case 7:
		return rune(0x2000 + c.Intn(0x100))
	case 8:
		return rune(0x300 + c.Intn(0x80))
	case 9:
		return rune(0x1F000 + c.Intn(0x1000))
	default:
		return rune(0x20 + c.Intn(0x5f))
	}
}

// ValidRune draws a valid code point.
func (c *C) ValidRune(alphabet []rune) rune {
	for {
		r := c.Rune(alphabet)
		if r >= 0 && r <= 0x10ffff && !(r >= 0xd800 && r <= 0xdfff) {
			return r
		}
	}
}

// Guarded returns a copy of rs inside a larger array, and a function telling
// whether anything of the array was modified.
func Guarded(rs []rune) ([]rune, func() bool) {
	buf := make([]rune, len(rs)+16)
	for i := range buf {
		buf[i] = rune(0xE000 + i)
	}
	copy(buf[4:], rs)
	ref := append([]rune(nil), buf...)
	return buf[4 : 4+len(rs)], func() bool {
		for i := range buf {
			if buf[i] != ref[i] {
				return true
			}
		}
		return false
	}
}

func Eq(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func EqAll(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func Cat(parts [][]rune) []rune {
	var out []rune
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func Strs(parts [][]rune) string {
	s := "["
	for i, p := range parts {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%U", p)
	}
	return s + "]"
}

// caseOf is the context of case k of a run described by a seed.
func caseOf(spec string, k int) *C {
	var seed int64
	fmt.Sscan(spec, &seed)
	return &C{Rand: rand.New(rand.NewSource(seed + int64(k)*7919)), I: k}
}
