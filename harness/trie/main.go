package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie"
)

func init() { props["T01"] = t01 }

// t01 runs a history of operations against a map.
func t01(c *C) {
	alpha := []rune{'a', 'b', 'c', 0, -1, 0x10ffff, 'é'}[:1+c.Intn(7)]
	if len(alpha) > 3 && c.Intn(2) == 0 {
		alpha = alpha[:2]
	}
	key := func() []rune {
		k := make([]rune, c.Intn(6))
		for i := range k {
			k[i] = alpha[c.Intn(len(alpha))]
		}
		return k
	}
	var hist []string
	tr := trie.NewRuneTrie()
	m := map[string]interface{}{}
	str := func(k []rune) string { return fmt.Sprintf("%x;", k) }
	seen := [][]rune{{}}
	pick := func() []rune {
		if c.Intn(2) == 0 {
			return seen[c.Intn(len(seen))]
		}
		k := key()
		seen = append(seen, k)
		return k
	}
	get := func(k []rune) {
		g := tr.Get(k)
		c.Input("history: %s; then Get(%v)", strings.Join(hist, "; "), k)
		c.Check(g == m[str(k)], "found %v, expected %v", g, m[str(k)])
	}
	n := 1 + c.Intn(14)
	for i := 0; i < n; i++ {
		k := pick()
		cp := append([]rune{}, k...)
		had := m[str(k)] != nil // storing nil is allowed: nil is then found
		if c.Intn(3) < 2 {
			var v interface{} = i
			if c.Intn(6) == 0 {
				v = nil
			}
			hist = append(hist, fmt.Sprintf("Put(%v, %v)", k, v))
			c.Input("history: %s", strings.Join(hist, "; "))
			isNew := tr.Put(cp, v)
			c.Check(isNew == !had, "Put returned %t, expected %t", isNew, !had)
			m[str(k)] = v
		} else {
			hist = append(hist, fmt.Sprintf("Delete(%v)", k))
			c.Input("history: %s", strings.Join(hist, "; "))
			ok := tr.Delete(cp)
			c.Check(ok || !had, "Delete of a stored key returned false")
			delete(m, str(k))
		}
		for j := range cp {
			c.Check(cp[j] == k[j], "the key was modified")
			cp[j] = 'z' // keys are not retained
		}
		for _, q := range seen {
			get(q)
		}
		get(append(append([]rune{}, k...), alpha[0]))
	}
}
