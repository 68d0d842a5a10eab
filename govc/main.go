package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	Name        string
	Contract    *Contract
	Obls        []*Obligation
	Err         string
	Inlined     []string
	Called      []string
	Assumed     []string
	Loops, Term int
	Secs        float64
	Paths       int
}

func (r *FuncResult) ok() bool {
	if r.Err != "" || len(r.Obls) == 0 {
		return false
	}
	for _, o := range r.Obls {
		if o.Result != "unsat" {
			return false
		}
	}
	return true
}

// verify generates and discharges the obligations of one function.
func verify(p *Program, cs *Contracts, c *Contract, force map[string]bool, limit time.Duration) (res *FuncResult) {
	t0 := time.Now()
	res = &FuncResult{Name: c.Name, Contract: c}
	e := &Exec{p: p, cs: cs, target: c, fn: c.fn, q: newQuick(), inlined: map[string]bool{}, called: map[string]bool{},
		assumed: map[string]bool{}, wfDone: map[*Term]bool{}, loopMemo: map[string]map[string]bool{},
		initGlobals: map[*ssa.Global]Val{}, forceInline: force}
	e.deadline = func() bool { return time.Since(t0) > limit }
	defer e.q.close()
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(Unsupported)
			if !ok {
				if debug {
					panic(r)
				}
				u = Unsupported(fmt.Sprint("internal: ", r))
			}
			res.Err = u.Error()
		}
		res.Secs = time.Since(t0).Seconds()
		for k := range e.inlined {
			res.Inlined = append(res.Inlined, k)
		}
		for k := range e.called {
			res.Called = append(res.Called, k)
		}
		for k := range e.assumed {
			res.Assumed = append(res.Assumed, k)
		}
		sort.Strings(res.Inlined)
		sort.Strings(res.Called)
		sort.Strings(res.Assumed)
	}()
	foldOrder = activeFolds(cs, c)
	var earlier []*Term
	for _, u := range c.Uses {
		if cs.lemma(u) == nil {
			res.Err = "unknown lemma " + u
			return res
		}
		for _, o := range cs.lemma(u).obligations() { // proved with the lemmas used before it
			o.Assume = append(append([]*Term{}, earlier...), o.Assume...)
			e.obls = append(e.obls, o)
		}
		earlier = append(earlier, cs.lemma(u).fact)
	}
	e.obls = append(e.obls, monotonic(foldOrder)...)
	opaque = map[string]bool{}
	discharge(e.obls)
	for _, o := range c.Opaque {
		opaque["fold:"+o] = true
	}
	revealed = c.Reveal
	if c.fn == nil {
		res.Err = "function not found: " + c.Name
		return res
	}
	st := &State{heaps: map[string]*Term{}, cells: map[int]Val{}, ctype: map[int]types.Type{}, promo: map[int]*Term{}}
	st.next = e.entryNext()
	st.assume(Le(One, st.next))
	f := &Frame{fn: c.fn, env: map[ssa.Value]Val{}, unroll: map[*ssa.BasicBlock]int{}, blk: c.fn.Blocks[0]}
	for i, prm := range c.fn.Params {
		n := fmt.Sprintf("arg%d", i)
		if i < len(c.Params) {
			n = c.Params[i]
		}
		t := Const("arg:"+n, sortOf(prm.Type()))
		st.assume(typeFact(t, prm.Type(), st.next))
		f.env[prm] = e.wrap(t, prm.Type())
		if sl, ok := prm.Type().Underlying().(*types.Slice); ok {
			e.heap(st, elemHeapInfo(sl.Elem()))
		}
	}
	st.frames = []*Frame{f}
	env := map[string]SV{}
	for i, prm := range c.fn.Params {
		if i < len(c.Params) {
			env[c.Params[i]] = SV{f.env[prm], prm.Type()}
		}
	}
	e.assumeFrozen(st)
	for _, u := range c.Uses {
		st.assume(cs.lemma(u).fact)
	}
	if len(e.frozenErr) > 0 && c.usesFrozen() {
		res.Err = strings.Join(e.frozenErr, "; ")
		return res
	}
	e.entry = st
	ev := &evalCtx{e: e, st: st, old: st, env: env, con: c, pkg: c.pkg}
	for _, r := range c.Requires {
		t, err := ev.boolean(r.Expr)
		if err != nil {
			res.Err = "requires " + r.Name + ": " + err.Error()
			return res
		}
		st.assume(t)
	}
	// pre-touch the heaps mentioned by the postconditions in the entry state
	e.entry = st.clone()
	// reachability of the precondition: False must not be provable
	reach := &Obligation{Name: "precondition-reachable", Assume: st.facts(), Goal: False}
	npath := 0
	var pathFacts [][]*Term
	f.onRet = func(s *State, rv []Val) {
		npath++
		pathFacts = append(pathFacts, s.facts())
		s.frames = s.frames[:1]
		renv := map[string]SV{}
		for k, v := range env {
			renv[k] = v
		}
		rs := c.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if a, ok := rv[i].(*AddrV); ok && a.kind == "cell" {
				rv[i] = e.term(s, a, rs.At(i).Type()) // escapes to the caller
			}
			renv[fmt.Sprintf("result%d", i)] = SV{rv[i], rs.At(i).Type()}
			if i == 0 {
				renv["result"] = SV{rv[i], rs.At(i).Type()}
			}
		}
		for _, en := range c.Ensures {
			cl := s.clone()
			v := &evalCtx{e: e, st: cl, old: e.entry, env: renv, con: c, pkg: c.pkg}
			t, err := v.boolean(en.Expr)
			if err != nil {
				panic(Unsupported("ensures " + en.Name + ": " + err.Error()))
			}
			if t == True {
				e.obls = append(e.obls, &Obligation{Name: "ensures:" + en.Name, Goal: t, Result: "unsat", By: "simplifier", Where: fmt.Sprintf("%s path %d", c.fn.Name(), npath)})
				continue
			}
			e.obls = append(e.obls, &Obligation{Name: "ensures:" + en.Name, Assume: cl.facts(), Goal: t, Where: fmt.Sprintf("%s path %d", c.fn.Name(), npath)})
		}
	}
	e.run(st)
	res.Paths = npath
	res.Loops, res.Term = e.loopsSeen, e.loopsTerm
	if npath == 0 && c.mayPanic == nil {
		res.Err = "no path returns"
		return res
	}
	discharge(e.obls)
	res.Obls = e.obls
	// vacuity
	r, _ := proveOne(reach.Assume, False, false)
	if r == "unsat" {
		res.Err = "precondition is contradictory"
	}
	if npath > 0 {
		live := false
		for i := 0; i < len(pathFacts) && !live; i++ {
			live = !e.batch(pathFacts[i], []*Term{Const("vacuity!probe", SBool)})[0]
		}
		if !live {
			res.Err = "vacuous: no returning path is consistent"
		}
	}
	return res
}

func activeFolds(cs *Contracts, c *Contract) []string {
	// folds mentioned by any contract of the same file set: cheap and stable
	var out []string
	txt := ""
	var seen = map[string]bool{}
	var addTxt func(s string)
	addTxt = func(s string) {
		txt += " " + s
		for n, m := range cs.macros {
			if !seen[n] && strings.Contains(s, n+"(") {
				seen[n] = true
				addTxt(types.ExprString(m.Expr))
			}
		}
	}
	for _, cl := range append(append([]Clause{}, c.Requires...), c.Ensures...) {
		addTxt(cl.Text)
	}
	for _, l := range c.Loops {
		addTxt(l.Text)
	}
	for _, u := range c.Uses {
		if l := cs.lemma(u); l != nil {
			addTxt(l.text)
		}
	}
	for _, n := range allFolds {
		if strings.Contains(txt, n+"(") {
			out = append(out, n)
		}
	}
	return out
}

// discharge proves obligations: batches per assumption set first, then one by one.
func discharge(obls []*Obligation) {
	type grp struct {
		facts []*Term
		os    []*Obligation
	}
	var groups []*grp
	idx := map[string]*grp{}
	for _, o := range obls {
		if o.Result != "" {
			continue
		}
		key := fmt.Sprint(len(o.Assume))
		if n := len(o.Assume); n > 0 {
			key += fmt.Sprintf("/%d/%d", o.Assume[n-1].id, o.Assume[0].id)
			if n > 2 {
				key += fmt.Sprintf("/%d", o.Assume[n/2].id)
			}
		}
		g := idx[key]
		if g != nil && !sameFacts(g.facts, o.Assume) {
			g = nil
		}
		if g == nil || len(g.os) >= 16 {
			g = &grp{facts: o.Assume}
			groups = append(groups, g)
			idx[key] = g
		}
		g.os = append(g.os, o)
	}
	var wg sync.WaitGroup
	for _, g := range groups {
		var gs []*Term
		for _, o := range g.os {
			gs = append(gs, o.Goal)
		}
		s, gt := script(g.facts, gs)
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			t0 := time.Now()
			r := proveScript(s, gt, 6000000, 60*time.Second)
			for i, o := range g.os {
				if r[i] == "unsat" {
					o.Result, o.By = "unsat", "z3-new"
					o.Secs = time.Since(t0).Seconds() / float64(len(g.os))
				}
			}
		}()
	}
	wg.Wait()
	defer func() { proven = nil }()
	left := 0
	before := provenBefore()
	for _, o := range obls {
		if o.Result == "" {
			left++
			if left > 16 {
				o.Result = "unknown (not retried: many obligations of the function fail)"
				continue
			}
			o := o
			if strings.HasPrefix(o.Name, "inv-preserved") {
				ok := before(o.Assume, o.Goal)
				if debug {
					fmt.Fprintln(os.Stderr, "      remembered", o.Name, ok)
				}
				if ok {
					o.Result, o.By = "unsat", "z3-new"
					continue
				}
			}
			s, gs := script(o.Assume, []*Term{o.Goal})
			q := s + "(assert (not " + gs[0] + "))\n(check-sat)\n"
			fs, gs2, elim := elimEqs(o.Assume, []*Term{o.Goal})
			var s2 string
			var gt2 []string
			if elim {
				s2, gt2 = script(fs, gs2)
			}
			sp, gp := script(o.Assume, conjuncts(o.Goal))
			wg.Add(1)
			go func() {
				defer wg.Done()
				t0 := time.Now()
				if provesSliced(sp, gp, 4*time.Second) {
					o.Result, o.By = "unsat", "z3-new"
				} else if elim && proveScript(s2, gt2, 20000000, 20*time.Second)[0] == "unsat" {
					o.Result, o.By = "unsat", "z3-new"
				} else {
					o.Result, o.By = portfolio(q)
					if o.Result != "unsat" && o.Result != "sat" && provesSliced(sp, gp, 12*time.Second) {
						o.Result, o.By = "unsat", "z3-new"
					}
				}
				o.Secs = time.Since(t0).Seconds()
			}()
		}
	}
	wg.Wait()
}

func sameFacts(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	only := flag.String("func", "", "verify functions whose name contains this")
	prop := flag.String("prop", "", "property")
	out := flag.String("out", "", "json output")
	check := flag.String("check", "", "check this property (proof, concrete search, evidence)")
	verif := flag.String("verif", "/verif", "directory of the checks")
	one := flag.Int("case", -1, "replay this case of the concrete search")
	tierF := flag.String("tier", "", "quick or thorough")
	seedF := flag.Int64("seed", -1, "seed")
	flag.Parse()
	if *check != "" {
		tier, seed := os.Getenv("VERIF_TIER"), int64(1)
		if *tierF != "" {
			tier = *tierF
		}
		if tier != "thorough" {
			tier = "quick"
		}
		if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
			seed = v
		}
		if *seedF >= 0 {
			seed = *seedF
		}
		if *one >= 0 {
			os.Exit(replay(*repo, *verif, *check, seed, *one))
		}
		os.Exit(runCheck(*repo, *verif, *check, tier, seed))
	}
	t0 := time.Now()
	p, err := loadProgram(*repo, []string{"./..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cs, err := loadContracts(p, *dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(t0).Seconds())
	var results []*FuncResult
	for _, c := range cs.list {
		if *only != "" && !strings.Contains(c.Name, *only) {
			continue
		}
		if *prop != "" && !contains(c.Props, *prop) {
			continue
		}
		r := verify(p, cs, c, nil, 300*time.Second)
		results = append(results, r)
		n := 0
		for _, o := range r.Obls {
			if o.Result == "unsat" {
				n++
			} else {
				fmt.Printf("   FAILED %s %s (%s)\n", o.Name, o.Where, o.Result)
				if os.Getenv("GOVC_DUMP") != "" {
					if strings.HasPrefix(o.Name, "lemma:") {
						opaque = map[string]bool{}
					}
					s, gs := script(o.Assume, []*Term{o.Goal})
					_ = os.WriteFile("/tmp/w/fail"+strings.NewReplacer(":", "_", " ", "_").Replace(o.Name)+".smt2", []byte(s+"(assert (not "+gs[0]+"))\n(check-sat)\n"), 0o644)
				}
			}
		}
		fmt.Printf("%-60s %d/%d paths=%d loops=%d/%d %.1fs %s\n", shortName(r.Name), n, len(r.Obls), r.Paths, r.Term, r.Loops, r.Secs, r.Err)
	}
	if *out != "" {
		b, _ := json.Marshal(results)
		_ = os.WriteFile(*out, b, 0o644)
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}
