package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
)

// Relevance slicing: a goal which no solver proves from all facts is tried
// again with the facts that share symbols with it. Leaving out facts is sound.

var symRe = regexp.MustCompile(`\|[^|]*\||[^\s()]+`)

func topLevel(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			i += j + 1
		case '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				return out
			}
			i += j + 1
		case '(':
			if d == 0 {
				st = i
			}
			d++
		case ')':
			d--
			if d == 0 {
				out = append(out, s[st:i+1])
			}
		}
	}
	return out
}

var sliceShapes = []struct {
	depth int
	tol   float64
	light int // 1: without redundant quantified facts, 2: nor those about updated arrays
}{{2, 4, 0}, {99, 1e9, 2}, {99, 1e9, 1}, {3, 3, 2}, {3, 2, 0}, {2, 10, 0}, {3, 3, 0}, {1, 1e9, 0}}

// stripRedundant leaves out of a goal the quantified conjuncts that restate
// another conjunct over a shifted index (relForall).
func stripRedundant(g *Term) *Term {
	switch g.Op {
	case "and":
		var k []*Term
		for _, a := range g.Args {
			if a.Op == "forall" && redundant(a) {
				continue
			}
			k = append(k, stripRedundant(a))
		}
		if len(k) == 0 {
			return g
		}
		return And(k...)
	case "or":
		var k []*Term
		for _, a := range g.Args {
			k = append(k, stripRedundant(a))
		}
		return Or(k...)
	}
	return g
}

func redundant(f *Term) bool {
	for _, v := range f.Vars {
		if strings.HasSuffix(v.Name, "~") {
			return true
		}
	}
	return false
}

func stripAll(gs []*Term) []*Term {
	out := make([]*Term, len(gs))
	for i, g := range gs {
		out[i] = stripRedundant(g)
	}
	return out
}

func conjuncts(g *Term) []*Term {
	if g = stripRedundant(g); g.Op == "and" {
		return g.Args
	}
	return []*Term{g}
}

// provesSliced proves all goals, each from a slice of script s.
func provesSliced(s string, goals []string, each time.Duration) bool {
	for _, g := range goals {
		if !provesSliced1(s, g, each) {
			return false
		}
	}
	return true
}

func heavy(c string, light int) bool {
	if !strings.HasPrefix(c, "(assert (forall") {
		return false
	}
	return strings.Contains(c, "~ Int)") || light > 1 && strings.Contains(c, "(select (store ")
}

func provesSliced1(s, goal string, each time.Duration) bool {
	cmds := topLevel(s)
	names := map[string]bool{}
	var asserts []int
	for i, c := range cmds {
		if strings.HasPrefix(c, "(assert") {
			asserts = append(asserts, i)
			continue
		}
		if strings.HasPrefix(c, "(declare-fun") || strings.HasPrefix(c, "(declare-const") || strings.HasPrefix(c, "(define-fun") {
			w := symRe.FindAllString(c, 2)
			if len(w) == 2 {
				names[w[1]] = true
			}
		}
	}
	symsOf := func(t string) map[string]bool {
		m := map[string]bool{}
		for _, w := range symRe.FindAllString(t, -1) {
			if names[w] {
				m[w] = true
			}
		}
		return m
	}
	occ := map[string]int{}
	syms := make([]map[string]bool, len(asserts))
	for i, a := range asserts {
		syms[i] = symsOf(cmds[a])
		for x := range syms[i] {
			occ[x]++
		}
	}
	gs := symsOf(goal)
	tried := map[string]bool{}
	for _, sh := range sliceShapes {
		cur := map[string]bool{}
		for x := range gs {
			cur[x] = true
		}
		in := make([]bool, len(asserts))
		n := 0
		for r := 0; r < sh.depth; r++ {
			add := map[string]bool{}
			for i, sy := range syms {
				if in[i] {
					continue
				}
				if len(sy) == 0 {
					in[i] = true
					n++
					continue
				}
				m := 1 << 30
				for x := range sy {
					if occ[x] < m {
						m = occ[x]
					}
				}
				for x := range sy {
					if cur[x] && float64(occ[x]) <= sh.tol*float64(m) {
						in[i] = true
						break
					}
				}
				if in[i] {
					n++
					for x := range sy {
						add[x] = true
					}
				}
			}
			for x := range add {
				cur[x] = true
			}
		}
		if sh.light > 0 {
			for i, a := range asserts {
				if in[i] && heavy(cmds[a], sh.light) {
					in[i] = false
					n--
				}
			}
		}
		if n == len(asserts) {
			continue
		}
		drop := map[int]bool{}
		var key strings.Builder
		for i, a := range asserts {
			if !in[i] {
				drop[a] = true
			} else {
				key.WriteByte(byte(i))
				key.WriteByte(byte(i >> 8))
			}
		}
		if tried[key.String()] {
			continue
		}
		tried[key.String()] = true
		var sb strings.Builder
		for i, c := range cmds {
			if !drop[i] {
				sb.WriteString(c)
				sb.WriteByte('\n')
			}
		}
		if proveScript(sb.String(), []string{goal}, candRlimit*int(1+each/time.Second), each)[0] == "unsat" {
			return true
		}
	}
	return false
}

// proven lists the queries proved while the invariants of a function were looked
// for: the pass that follows asks them again, up to a renaming of symbols.
var proven []provenQ

type provenQ struct {
	facts []*Term
	goal  *Term
}

func provenBefore() func(facts []*Term, goal *Term) bool {
	var known map[[32]byte]bool
	return func(facts []*Term, goal *Term) bool {
		if known == nil {
			known = map[[32]byte]bool{}
			for _, p := range proven {
				known[canonical(p.facts, p.goal)] = true
			}
		}
		return known[canonical(facts, goal)]
	}
}

var numbered = regexp.MustCompile(`[A-Za-z_.:][A-Za-z0-9_.:~]*![0-9]+|\bd[0-9]+\b`)

func canonical(facts []*Term, goal *Term) [32]byte {
	s, g := script(facts, []*Term{goal})
	names := map[string]string{}
	var order []string
	rename := func(t string) string {
		return numbered.ReplaceAllStringFunc(t, func(t string) string {
			n, ok := names[t]
			if !ok {
				n = fmt.Sprintf("#%d", len(names))
				names[t] = n
				order = append(order, t)
			}
			return n
		})
	}
	// declarations and definitions come in the order of the names: they follow the
	// asserts, in the order of use
	var decl, out []string
	defs := map[string]string{}
	for _, l := range topLevel(s + "\n" + g[0]) {
		switch {
		case strings.HasPrefix(l, "(declare-"):
			decl = append(decl, l)
		case strings.HasPrefix(l, "(define-fun "):
			defs[strings.Fields(l)[1]] = l
		default:
			out = append(out, rename(l))
		}
	}
	for i := 0; i < len(order); i++ {
		if l, ok := defs[order[i]]; ok {
			out = append(out, rename(l))
			delete(defs, order[i])
		}
	}
	for _, l := range defs { // never used, or named otherwise
		decl = append(decl, l)
	}
	sort.Strings(decl)
	for i := range decl {
		decl[i] = rename(decl[i])
	}
	sort.Strings(decl)
	c := strings.Join(out, "\n") + "\n" + strings.Join(decl, "\n")
	if d := os.Getenv("GOVC_CANON"); d != "" {
		_ = os.WriteFile(fmt.Sprintf("%s/canon%d", d, whyN.Add(1)), []byte(c), 0o644)
	}
	return sha256.Sum256([]byte(c))
}
