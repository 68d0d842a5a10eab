package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopMods struct {
	cells map[int]bool
	heaps map[string]bool
	next  bool
	prom  map[int]bool
	phis  map[int]bool
}

type loopVar struct {
	name string
	typ  types.Type
	sym  *Term
	ent  *Term
}

type cand struct {
	name string
	t    *Term
}

// loopSyms are the symbols standing for the loop-carried components.
type loopSyms struct {
	vars  []loopVar // phis, cells
	subst func(e *Exec, x *State) map[*Term]*Term
	nextS *Term
	lens  []*Term // lengths of slices that do not change
}

func (e *Exec) handleLoop(st *State, from, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	f := st.top()
	if from != nil { // nil: set at a join
		e.setPhis(st, from, h)
	}
	f.prev, f.blk = from, h
	// first-class values for pointer phis
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch v := f.env[phi].(type) {
		case *AddrV, *IfaceV:
			if a, isA := v.(*AddrV); isA && a.kind == "elem" {
				continue
			}
			f.env[phi] = e.term(st, v, phi.Type())
		}
	}
	mods := &loopMods{map[int]bool{}, map[string]bool{}, false, map[int]bool{}, map[int]bool{}}
	for round := 0; ; round++ {
		if round > 8 {
			e.fail(st, "loop modification analysis")
		}
		if !e.discover(st, h, body, mods) {
			break
		}
		again := false
		for c := range mods.prom {
			if _, ok := st.promo[c]; !ok {
				if _, ok := st.cells[c]; ok {
					e.promote(st, &AddrV{kind: "cell", cell: c, typ: st.ctype[c]})
					delete(mods.cells, c)
					again = true
				}
			}
		}
		_ = again
	}
	if e.dry > 0 {
		S, _ := e.havocLoop(st, h, mods)
		j := e.joinFor(S, exits(body))
		if j != nil {
			S.joins = append(S.joins, j)
		}
		S.loops = append(S.loops, &ActiveLoop{header: h, blocks: body, depth: len(S.frames), onBack: func(*State) {}})
		e.run(S)
		if j != nil {
			e.resume(j)
		}
		return
	}
	S, syms := e.havocLoop(st, h, mods)
	key := e.loopKey(st, h)
	cands := e.candidates(st, S, h, body, mods, syms)
	if memo := e.loopMemo[key]; memo != nil && e.houdini > 0 {
		var k []cand
		for _, c := range cands {
			if memo[c.name] {
				k = append(k, c)
			}
		}
		cands = k
	}
	// entry filter
	ent := syms.subst(e, st)
	var goals []*Term
	for _, c := range cands {
		goals = append(goals, Subst(c.t, ent))
	}
	res := e.batch(st.facts(), goals)
	var k []cand
	for i, c := range cands {
		if res[i] {
			k = append(k, c)
		} else if debug && strings.HasPrefix(c.name, "T") {
			fmt.Fprintf(os.Stderr, "    [%s] entry b%d drops %s\n", h.Parent().Name(), h.Index, c.name)
			if p := os.Getenv("GOVC_WHYE"); p != "" && strings.HasPrefix(c.name, p) {
				fmt.Fprintf(os.Stderr, "  GOAL %s\n", goals[i])
				s, gs := script(st.facts(), []*Term{goals[i]})
				_ = os.WriteFile(fmt.Sprintf("/tmp/w/why%d.smt2", whyN.Add(1)), []byte(s+"(assert (not "+gs[0]+"))\n(check-sat)\n"), 0o644)
			}
		}
	}
	cands = k
	// Houdini
	e.houdini++
	for round := 0; ; round++ {
		if round > 30 {
			e.fail(st, "houdini rounds")
		}
		var backs []*State
		X := S.clone()
		for _, c := range cands {
			X.assume(c.t)
		}
		X.loops = append(X.loops, &ActiveLoop{header: h, blocks: body, depth: len(X.frames), discard: true,
			onBack: func(b *State) { backs = append(backs, b) }})
		e.quiet++
		e.run(X)
		e.quiet--
		keep := make([]bool, len(cands))
		for i := range keep {
			keep[i] = true
		}
		type job struct {
			facts []*Term
			goals []*Term
			idx   []int
			res   []bool
		}
		var jobs []*job
		for _, b := range backs {
			m := syms.subst(e, b)
			j := &job{facts: b.facts()}
			for i, c := range cands {
				g := Subst(c.t, m)
				if g == True {
					continue
				}
				j.goals = append(j.goals, g)
				j.idx = append(j.idx, i)
			}
			jobs = append(jobs, j)
		}
		e.batchJobs(len(jobs), func(i int) ([]*Term, []*Term) { return jobs[i].facts, jobs[i].goals }, func(i int, r []bool) { jobs[i].res = r })
		tA := time.Now()
		// a second, longer attempt for the contract's own candidates
		var again [][2]int
		for bi, j := range jobs {
			for q, i := range j.idx {
				if !j.res[q] && strings.HasPrefix(cands[i].name, "T") && j.goals[q] != False {
					again = append(again, [2]int{bi, q})
				}
			}
		}
		if len(again) > 0 && len(again) <= 24 {
			var wg sync.WaitGroup
			tm := 1
			if len(again) <= 3 {
				tm = 3
			}
			each := time.Duration(tm) * time.Second
			for _, a := range again {
				j, q := jobs[a[0]], a[1]
				fs, gs, elim := elimEqs(j.facts, j.goals[q:q+1])
				s, gt := script(fs, gs)
				var s0 string
				var gt0 []string
				if elim {
					s0, gt0 = script(j.facts, j.goals[q:q+1])
				}
				sp, gp := script(j.facts, conjuncts(j.goals[q]))
				wg.Add(1)
				go func() {
					defer wg.Done()
					j.res[q] = proveScript(s, gt, 4*candRlimit, 4*time.Second)[0] == "unsat" || provesSliced(sp, gp, 3*each) ||
						proveScript(s, gt, 8*tm*candRlimit, 10*each)[0] == "unsat"
					if !j.res[q] && elim {
						j.res[q] = proveScript(s0, gt0, 8*tm*candRlimit, 10*each)[0] == "unsat"
					}
				}()
			}
			wg.Wait()
			var rest [][2]int
			for _, a := range again {
				if !jobs[a[0]].res[a[1]] {
					rest = append(rest, a)
				}
			}
			if len(rest) <= 8 {
				limit := 6
				if len(rest) <= 3 {
					limit = 25
				}
				for _, a := range rest {
					j, q := jobs[a[0]], a[1]
					s, gt := script(j.facts, j.goals[q:q+1])
					wg.Add(1)
					go func() {
						defer wg.Done()
						j.res[q] = cvc5Proves(s+"(assert (not "+gt[0]+"))\n(check-sat)\n", limit)
					}()
				}
				wg.Wait()
			}
		}
		if debug && len(again) > 0 {
			fmt.Fprintf(os.Stderr, "      again %d %.1fs\n", len(again), time.Since(tA).Seconds())
		}
		dropped := 0
		for bi, j := range jobs {
			for q, i := range j.idx {
				if !j.res[q] && keep[i] {
					keep[i] = false
					dropped++
					if debug && (strings.HasPrefix(cands[i].name, "T") || os.Getenv("GOVC_DEBUG") == "2") {
						fmt.Fprintf(os.Stderr, "    [%s] round %d path %d b%d drops %s\n", h.Parent().Name(), round, bi, h.Index, cands[i].name)
						if p := os.Getenv("GOVC_WHY"); p != "" && strings.HasPrefix(cands[i].name, p) {
							fmt.Fprintf(os.Stderr, "  GOAL %s\n", j.goals[q])
							s, gs := script(j.facts, []*Term{j.goals[q]})
							_ = os.WriteFile(fmt.Sprintf("/tmp/w/why%d.smt2", whyN.Add(1)), []byte(s+"(assert (not "+gs[0]+"))\n(check-sat)\n"), 0o644)
						}
					}
				}
			}
		}
		if dropped == 0 {
			for _, j := range jobs {
				for q, i := range j.idx {
					if strings.HasPrefix(cands[i].name, "T") {
						proven = append(proven, provenQ{j.facts, j.goals[q]})
					}
				}
			}
			break
		}
		var nk []cand
		for i, c := range cands {
			if keep[i] {
				nk = append(nk, c)
			}
		}
		cands = nk
	}
	e.houdini--
	memo := map[string]bool{}
	for _, c := range cands {
		memo[c.name] = true
	}
	if e.loopMemo[key] == nil || e.houdini > 0 {
		e.loopMemo[key] = memo
	}
	if debug && e.houdini == 0 {
		fmt.Fprintf(os.Stderr, "  loop %s block %d: %d invariants\n", h.Parent().Name(), h.Index, len(cands))
		if os.Getenv("GOVC_DEBUG") == "2" {
			for _, c := range cands {
				fmt.Fprintf(os.Stderr, "      %s   %s\n", c.name, c.t)
			}
		}
	}
	if e.quiet == 0 {
		e.loopsSeen++
		for i, c := range cands {
			e.obls = append(e.obls, &Obligation{Name: "inv-init:" + c.name, Assume: st.facts(), Goal: goals2(c, ent), Where: e.where(firstPos(h))})
			_ = i
		}
	}
	for _, c := range cands {
		S.assume(c.t)
	}
	hs := S.clone()
	var backs []*State
	quiet := e.quiet > 0
	j := e.joinFor(S, exits(body))
	if j != nil {
		S.joins = append(S.joins, j)
	}
	S.loops = append(S.loops, &ActiveLoop{header: h, blocks: body, depth: len(S.frames), onBack: func(b *State) {
		if quiet {
			return
		}
		backs = append(backs, b)
		m := syms.subst(e, b)
		for _, c := range cands {
			g := Subst(c.t, m)
			if g == True {
				e.obls = append(e.obls, &Obligation{Name: "inv-preserved:" + c.name, Goal: g, Where: e.where(firstPos(h)), Result: "unsat", By: "simplifier"})
				continue
			}
			e.obls = append(e.obls, &Obligation{Name: "inv-preserved:" + c.name, Assume: b.facts(), Goal: g, Where: e.where(firstPos(h))})
		}
	}})
	e.run(S)
	if !quiet {
		e.termination(st, hs, h, body, syms, backs)
	}
	if j != nil {
		e.resume(j)
	}
}

var whyN atomic.Int32

func goals2(c cand, ent map[*Term]*Term) *Term { return Subst(c.t, ent) }

func firstPos(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in
			}
		}
	}
	return b.Instrs[0]
}

func (e *Exec) loopKey(st *State, h *ssa.BasicBlock) string {
	var sb strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&sb, "%p.%d/", f.fn, f.blk.Index)
	}
	fmt.Fprintf(&sb, "%d", h.Index)
	return sb.String()
}

// discover grows mods; reports whether anything was added.
func (e *Exec) discover(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, mods *loopMods) bool {
	S, _ := e.havocLoop(st, h, mods)
	base := S.clone()
	grown := false
	S.loops = append(S.loops, &ActiveLoop{header: h, blocks: body, depth: len(S.frames), discard: true, onBack: func(b *State) {
		for c, v := range base.cells {
			if nv, ok := b.cells[c]; ok && nv != v {
				if !mods.cells[c] {
					mods.cells[c] = true
					grown = true
				}
			}
			if _, ok := b.promo[c]; ok && !mods.prom[c] {
				mods.prom[c] = true
				grown = true
			}
		}
		for k, v := range b.heaps {
			o, ok := base.heaps[k]
			if !ok {
				o = Const("h0:"+k, v.Sort)
			}
			if o != v && !mods.heaps[k] {
				mods.heaps[k] = true
				grown = true
			}
		}
		if b.next != base.next && !mods.next {
			mods.next = true
			grown = true
		}
		bf := b.top()
		i := 0
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if bf.env[phi] != base.top().env[phi] && !mods.phis[i] {
				// non-term values must be loop invariant
				mods.phis[i] = true
				grown = true
			}
			i++
		}
	}})
	e.quiet++
	e.dry++
	e.run(S)
	e.dry--
	e.quiet--
	return grown
}

func (e *Exec) havocLoop(st *State, h *ssa.BasicBlock, mods *loopMods) (*State, *loopSyms) {
	S := st.clone()
	syms := &loopSyms{}
	f := S.top()
	if mods.next {
		n := Fresh("next", SInt)
		S.assume(Le(st.next, n))
		S.next = n
		syms.nextS = n
	}
	type getter struct {
		sym *Term
		get func(x *State) *Term
	}
	var gets []getter
	if syms.nextS != nil {
		gets = append(gets, getter{syms.nextS, func(x *State) *Term { return x.next }})
	}
	depth := len(S.frames) - 1
	i := 0
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pi := i
		i++
		cur := f.env[phi]
		if !mods.phis[pi] {
			if t, ok := cur.(*Term); ok {
				_ = t
			}
			continue
		}
		if a, ok := cur.(*AddrV); ok {
			e.fail(st, "loop-carried pointer into %s", a.kind)
		}
		ent := e.term(st, cur, phi.Type())
		s := Fresh("phi."+phi.Name(), ent.Sort)
		S.assume(typeFact(s, phi.Type(), S.next))
		f.env[phi] = e.wrap(s, phi.Type())
		syms.vars = append(syms.vars, loopVar{fmt.Sprintf("p%d", pi), phi.Type(), s, ent})
		p := phi
		gets = append(gets, getter{s, func(x *State) *Term { return e.term(x, x.frames[depth].env[p], p.Type()) }})
	}
	var cs []int
	for c := range mods.cells {
		if _, ok := S.cells[c]; ok {
			cs = append(cs, c)
		}
	}
	sort.Ints(cs)
	for n, c := range cs {
		c := c
		typ := S.ctype[c]
		ent := e.term(st, st.cells[c], typ)
		s := Fresh("cell", ent.Sort)
		S.assume(typeFact(s, typ, S.next))
		S.cells[c] = e.wrap(s, typ)
		syms.vars = append(syms.vars, loopVar{fmt.Sprintf("c%d", n), typ, s, ent})
		gets = append(gets, getter{s, func(x *State) *Term { return e.term(x, x.cells[c], typ) }})
		if stt, ok := typ.Underlying().(*types.Struct); ok && datatypes[s.Sort] != nil {
			for i := 0; i < stt.NumFields(); i++ {
				syms.vars = append(syms.vars, loopVar{fmt.Sprintf("c%d.%s", n, stt.Field(i).Name()), stt.Field(i).Type(), SelD(s, i), SelD(ent, i)})
			}
		}
	}
	var hk []string
	for k := range mods.heaps {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	for _, k := range hk {
		k := k
		hi := heapInfos[k]
		e.heap(st, hi)
		s := Fresh("H."+k, hi.sort)
		S.heaps[k] = s
		e.wfHeap(S, hi, s, S.next)
		gets = append(gets, getter{s, func(x *State) *Term { return e.heap(x, hi) }})
	}
	syms.subst = func(e *Exec, x *State) map[*Term]*Term {
		m := map[*Term]*Term{}
		for _, g := range gets {
			m[g.sym] = g.get(x)
		}
		return m
	}
	return S, syms
}

// batch proves goals under facts with a modest resource limit.
func (e *Exec) batch(facts []*Term, goals []*Term) []bool {
	var out []bool
	e.batchJobs(1, func(int) ([]*Term, []*Term) { return facts, goals }, func(_ int, r []bool) { out = r })
	return out
}

var candRlimit = 3000000

func (e *Exec) batchJobs(n int, get func(i int) ([]*Term, []*Term), put func(i int, r []bool)) {
	var wg sync.WaitGroup
	if debug {
		t0 := time.Now()
		tot := 0
		defer func() {
			fmt.Fprintf(os.Stderr, "      batch %d jobs %d goals %.1fs\n", n, tot, time.Since(t0).Seconds())
		}()
		for i := 0; i < n; i++ {
			_, g := get(i)
			tot += len(g)
		}
	}
	for i := 0; i < n; i++ {
		facts, goals := get(i)
		res := make([]bool, len(goals))
		var idx []int
		var gs []*Term
		for k, g := range goals {
			if g == True {
				res[k] = true
				continue
			}
			if g == False {
				continue
			}
			idx = append(idx, k)
			gs = append(gs, g)
		}
		// chunks in parallel
		chunk := (len(gs) + 15) / 16
		if chunk < 6 {
			chunk = 6
		}
		for a := 0; a < len(gs); a += chunk {
			b := a + chunk
			if b > len(gs) {
				b = len(gs)
			}
			s, gt := script(facts, gs[a:b])
			ids := idx[a:b]
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := proveScript(s, gt, candRlimit, 60*time.Second)
				for q, v := range r {
					res[ids[q]] = v == "unsat"
				}
			}()
		}
		i := i
		defer func() { put(i, res) }()
	}
	wg.Wait()
}

// candidates ------------------------------------------------------------------------

func (e *Exec) candidates(st, S *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, mods *loopMods, syms *loopSyms) []cand {
	var out []cand
	seen := map[*Term]bool{}
	add := func(name string, t *Term) {
		if t == True || t == False || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, cand{name, t})
	}
	f := S.top()
	// values used in the loop and defined outside of it
	type used struct {
		name string
		typ  types.Type
		t    *Term
	}
	var inv []used
	useen := map[ssa.Value]bool{}
	var blocks []*ssa.BasicBlock
	for b := range body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	tseen := map[*Term]bool{}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || useen[v] {
					continue
				}
				useen[v] = true
				switch v.(type) {
				case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
					continue
				}
				if iv, ok := v.(ssa.Instruction); ok && body[iv.Block()] {
					continue
				}
				val, ok := f.env[v]
				if !ok {
					continue
				}
				t, ok := val.(*Term)
				if !ok {
					if a, isA := val.(*AddrV); isA && a.kind == "cell" {
						if cv, ok := S.cells[a.cell].(*Term); ok && !mods.cells[a.cell] {
							t = cv
							if !tseen[t] {
								tseen[t] = true
								inv = append(inv, used{"u:" + v.Name(), a.typ, t})
							}
						}
					}
					continue
				}
				if !tseen[t] {
					tseen[t] = true
					inv = append(inv, used{"u:" + v.Name(), v.Type(), t})
				}
			}
		}
	}
	// entry parameters of the target
	if e.entry != nil {
		b0 := e.entry.frames[0]
		for i, p := range b0.fn.Params {
			if t, ok := b0.env[p].(*Term); ok && !tseen[t] {
				tseen[t] = true
				inv = append(inv, used{fmt.Sprintf("arg%d", i), p.Type(), t})
			}
		}
	}
	// local variables that do not change in the loop
	var cls []int
	for c := range S.cells {
		if !mods.cells[c] {
			cls = append(cls, c)
		}
	}
	sort.Ints(cls)
	for _, c := range cls {
		t, ok := S.cells[c].(*Term)
		if ok && !tseen[t] && t.Op != "int" && (t.Sort == SSlc || t.Sort == SInt) && !isZero(t) {
			tseen[t] = true
			inv = append(inv, used{fmt.Sprintf("v%d", c), S.ctype[c], t})
		}
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	isSl := func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
	var lens []used
	// fields of structures reached through pointers that do not change in the loop
	for _, u := range append([]used{}, inv...) {
		pt, ok := u.typ.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		stt, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < stt.NumFields(); i++ {
			hi := fieldHeapInfo(pt.Elem(), i)
			ft := stt.Field(i).Type()
			if !isInt(ft) && !isSl(ft) {
				continue
			}
			cur := Select(e.heap(S, hi), u.t)
			if mods.heaps[hi.key] {
				syms.vars = append(syms.vars, loopVar{u.name + "." + stt.Field(i).Name(), ft, cur, Select(e.heap(st, hi), u.t)})
			} else if !tseen[cur] {
				tseen[cur] = true
				inv = append(inv, used{u.name + "." + stt.Field(i).Name(), ft, cur})
			}
		}
	}
	for _, u := range inv {
		if isSl(u.typ) {
			syms.lens = append(syms.lens, SLen(u.t))
			lens = append(lens, used{"len(" + u.name + ")", nil, SLen(u.t)})
		} else if b, ok := u.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			lens = append(lens, used{"len(" + u.name + ")", nil, e.strlen(S.clone(), u.t)}, used{"nrunes(" + u.name + ")", nil, e.nrunes(S.clone(), u.t)})
		} else if isInt(u.typ) {
			lens = append(lens, used{u.name, nil, u.t})
		}
	}
	for _, v := range syms.vars {
		if isSl(v.typ) {
			lens = append(lens, used{"len(" + v.name + ")", nil, SLen(v.sym)})
		}
	}
	for i, v := range syms.vars {
		switch {
		case isInt(v.typ):
			add(v.name+">=entry", Le(v.ent, v.sym))
			add(v.name+"<=entry", Le(v.sym, v.ent))
			add(v.name+">=0", Le(Zero, v.sym))
			add(v.name+">=-1", Le(Int(-1), v.sym))
			for _, l := range lens {
				add(v.name+"<="+l.name, Le(v.sym, l.t))
				add(v.name+"<"+l.name, Lt(v.sym, l.t))
				add(v.name+">="+l.name, Le(l.t, v.sym))
			}
			for j, w := range syms.vars {
				if i == j || !isInt(w.typ) {
					continue
				}
				add(v.name+"<="+w.name, Le(v.sym, w.sym))
				add(v.name+"<="+w.name+"+1", Le(v.sym, Add(w.sym, One)))
				if i < j {
					add(v.name+"-"+w.name, Eq(Sub(v.sym, w.sym), Sub(v.ent, w.ent)))
					add(v.name+"+"+w.name, Eq(Add(v.sym, w.sym), Add(v.ent, w.ent)))
				}
			}
		case isSl(v.typ):
			add(v.name+".ref=", Eq(SRef(v.sym), SRef(v.ent)))
			add(v.name+".ref=|fresh", Or(Eq(SRef(v.sym), SRef(v.ent)), Le(st.next, SRef(v.sym))))
			add(v.name+".ref>=next0|nil", Or(Le(e.entryNext(), SRef(v.sym)), Eq(SCap(v.sym), Zero)))
			add(v.name+".ref>=next0", Le(e.entryNext(), SRef(v.sym)))
			add(v.name+".off=", Eq(SOff(v.sym), SOff(v.ent)))
			add(v.name+".off=0", Eq(SOff(v.sym), Zero))
			add(v.name+".len>=", Le(SLen(v.ent), SLen(v.sym)))
			add(v.name+".len=", Eq(SLen(v.sym), SLen(v.ent)))
			add(v.name+".cap=", Eq(SCap(v.sym), SCap(v.ent)))
			add(v.name+".end=", Eq(Add(SOff(v.sym), SLen(v.sym)), Add(SOff(v.ent), SLen(v.ent))))
			for _, w := range syms.vars {
				if isInt(w.typ) {
					for d := int64(0); d <= 1; d++ {
						add(fmt.Sprintf("%s.len<=%s+%d", v.name, w.name, d), Le(SLen(v.sym), Add(w.sym, Int(d))))
						add(fmt.Sprintf("%s.len-%s=%d", v.name, w.name, d), Eq(Sub(SLen(v.sym), w.sym), Add(Sub(SLen(v.ent), w.ent))))
					}
				}
			}
			for _, u := range inv {
				if isSl(u.typ) && elemHeapInfo(u.typ.Underlying().(*types.Slice).Elem()) == elemHeapInfo(v.typ.Underlying().(*types.Slice).Elem()) {
					add(v.name+".ref!="+u.name, Or(Not(Eq(SRef(v.sym), SRef(u.t))), Eq(SRef(v.sym), Zero)))
				}
			}
			for j, w := range syms.vars {
				if j > i && isSl(w.typ) && elemHeapInfo(w.typ.Underlying().(*types.Slice).Elem()) == elemHeapInfo(v.typ.Underlying().(*types.Slice).Elem()) {
					add(v.name+".ref!="+w.name, Or(Not(Eq(SRef(v.sym), SRef(w.sym))), Eq(SRef(v.sym), Zero)))
				}
			}
		default:
			if v.sym.Sort == SBool || v.sym.Sort == SInt || v.sym.Sort == SIfc {
				add(v.name+"=entry", Eq(v.sym, v.ent))
			}
			if _, ok := v.typ.Underlying().(*types.Pointer); ok {
				add(v.name+"!=nil", Not(Eq(v.sym, Zero)))
				add(v.name+">=next0", Le(e.entryNext(), v.sym))
			}
		}
	}
	// harvested comparisons
	for _, b := range blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				continue
			}
			x, y := e.headerTerm(S, bo.X, h, body, 3), e.headerTerm(S, bo.Y, h, body, 3)
			if x == nil || y == nil || x.Sort != SInt || y.Sort != SInt {
				continue
			}
			n := fmt.Sprintf("cmp%d.%s", b.Index, bo.Name())
			add(n+"<=", Le(x, y))
			add(n+"<=+1", Le(x, Add(y, One)))
			add(n+">=", Le(y, x))
			add(n+">=-1", Le(y, Add(x, One)))
			add(n+"<", Lt(x, y))
			add(n+">", Lt(y, x))
		}
	}
	if syms.nextS != nil {
		add("next", Le(st.next, S.next))
	}
	// heap frames
	var hk []string
	for k := range mods.heaps {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	for _, k := range hk {
		hi := heapInfos[k]
		if hi.kind == "ghost" || hi.kind == "glob" {
			if hi.kind == "glob" {
				add("frame="+k, Eq(S.heaps[k], st.heaps[k]))
			}
			continue
		}
		r := BV("r!l", SInt)
		sel := Select(S.heaps[k], r)
		same := Eq(sel, Select(st.heaps[k], r))
		pat := []*Term{sel}
		add("frame-all:"+k, Forall([]*Term{r}, Imp(And(Le(Zero, r), Lt(r, st.next)), same), pat))
		var ex []*Term
		for _, v := range syms.vars {
			if sl, ok := v.typ.Underlying().(*types.Slice); ok && hi.kind == "elem" && elemHeapInfo(sl.Elem()) == hi {
				ex = append(ex, Eq(r, SRef(v.ent)))
			}
		}
		if len(ex) > 0 {
			add("frame-own:"+k, Forall([]*Term{r}, Or(append(ex, Not(And(Le(Zero, r), Lt(r, st.next))), same)...), pat))
		}
		ex = nil
		for _, u := range inv {
			if sl, ok := u.typ.Underlying().(*types.Slice); ok && hi.kind == "elem" && elemHeapInfo(sl.Elem()) == hi {
				ex = append(ex, Eq(r, SRef(u.t)))
			}
			if _, ok := u.typ.Underlying().(*types.Map); ok && strings.HasPrefix(hi.kind, "map") {
				ex = append(ex, Eq(r, u.t))
			}
			if _, ok := u.typ.Underlying().(*types.Pointer); ok && (hi.kind == "field" || hi.kind == "box") {
				ex = append(ex, Eq(r, u.t))
			}
		}
		if len(ex) > 0 && len(ex) < 6 {
			add("frame-used:"+k, Forall([]*Term{r}, Or(append(ex, Not(And(Le(Zero, r), Lt(r, st.next))), same)...), pat))
		}
		ex = nil
		if e.target != nil && e.entry != nil {
			for _, x := range e.target.modifiesRefs(e, S, hi) {
				ex = append(ex, Eq(r, x))
			}
		}
		h0 := Const("h0:"+k, hi.sort)
		add("frame-0:"+k, Forall([]*Term{r}, Or(append(ex, Not(And(Le(Zero, r), Lt(r, e.entryNext()))), Eq(sel, Select(h0, r)))...), pat))
	}
	// contract templates
	if e.target != nil && e.entry != nil {
		var pool []tmplVal
		for _, v := range syms.vars {
			pool = append(pool, tmplVal{v.name, v.typ, v.sym, true})
		}
		for _, u := range inv {
			pool = append(pool, tmplVal{u.name, u.typ, u.t, false})
		}
		for _, u := range liveAfter(f, h, body) {
			if t, ok := f.env[u].(*Term); ok && !tseen[t] && t.Op != "int" && t != True && t != False {
				tseen[t] = true
				pool = append(pool, tmplVal{"a:" + u.Name(), u.Type(), t, false})
			}
		}
		if os.Getenv("GOVC_DEBUG") == "3" {
			for _, p := range pool {
				fmt.Fprintf(os.Stderr, "  pool b%d %s %v %s\n", h.Index, p.name, p.typ, p.t)
			}
		}
		for li, lt := range e.target.Loops {
			e.instTemplate(S, li, lt, pool, mods.heaps, add)
		}
	}
	return out
}

type tmplVal struct {
	name string
	typ  types.Type
	t    *Term
	phi  bool
}

func (e *Exec) instTemplate(S *State, li int, lt *LoopTmpl, pool []tmplVal, mod map[string]bool, add func(string, *Term)) {
	n := 0
	var rec func(i int, env map[string]SV, name string, anyPhi bool)
	rec = func(i int, env map[string]SV, name string, anyPhi bool) {
		if n > 300 {
			return
		}
		if i == len(lt.Vars) {
			if !anyPhi && len(lt.Vars) > 0 {
				ptr := false
				for _, v := range lt.Vars {
					if _, ok := v.typ.Underlying().(*types.Pointer); ok {
						ptr = true
					}
					if sl, ok := v.typ.Underlying().(*types.Slice); ok {
						for k := range mod { // elements written by the loop
							if heapInfos[k] == elemHeapInfo(sl.Elem()) {
								ptr = true
							}
						}
					}
				}
				if !ptr {
					return
				}
			}
			n++
			c := S.clone()
			ev := &evalCtx{e: e, st: c, old: e.entry, env: env, con: e.target, pkg: e.target.pkg}
			t, err := ev.boolean(lt.Expr)
			if err != nil {
				panic(Unsupported("loop template " + lt.Text + ": " + err.Error()))
			}
			add(fmt.Sprintf("T%d(%s)", li, name), t)
			return
		}
		mv := lt.Vars[i]
		for _, p := range pool {
			if !types.Identical(p.typ, mv.typ) && !types.Identical(p.typ.Underlying(), mv.typ.Underlying()) {
				continue
			}
			if mv.phi && !p.phi {
				continue
			}
			vals := []struct {
				s string
				t *Term
			}{{p.name, p.t}}
			if p.t.Sort == SInt && p.phi && mv.plus1 {
				vals = append(vals, struct {
					s string
					t *Term
				}{p.name + "+1", Add(p.t, One)})
			}
			for _, v := range vals {
				env2 := map[string]SV{}
				for k, x := range env {
					env2[k] = x
				}
				env2[mv.name] = SV{v: e.wrap(v.t, p.typ), typ: p.typ}
				rec(i+1, env2, name+" "+v.s, anyPhi || p.phi)
			}
		}
		for _, k := range mv.consts {
			env2 := map[string]SV{}
			for kk, x := range env {
				env2[kk] = x
			}
			env2[mv.name] = SV{v: Int(k), typ: mv.typ}
			rec(i+1, env2, fmt.Sprintf("%s %d", name, k), anyPhi)
		}
	}
	base := e.target.paramEnv(e, e.entry)
	rec(0, base, "", false)
}

// headerTerm expresses an SSA value in terms available at the loop header.
func (e *Exec) headerTerm(S *State, v ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, depth int) *Term {
	f := S.top()
	switch x := v.(type) {
	case *ssa.Const:
		if t, ok := e.constVal(x).(*Term); ok {
			return t
		}
		return nil
	}
	in, isIn := v.(ssa.Instruction)
	if !isIn || !body[in.Block()] {
		if t, ok := f.env[v].(*Term); ok {
			return t
		}
		return nil
	}
	if depth == 0 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == h {
			t, _ := f.env[x].(*Term)
			return t
		}
	case *ssa.BinOp:
		a, b := e.headerTerm(S, x.X, h, body, depth-1), e.headerTerm(S, x.Y, h, body, depth-1)
		if a == nil || b == nil || a.Sort != SInt || b.Sort != SInt {
			return nil
		}
		switch x.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			if a.Op == "int" || b.Op == "int" {
				return Mul(a, b)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := e.headerTerm(S, x.Call.Args[0], h, body, depth-1)
			if a != nil && a.Sort == SSlc {
				return SLen(a)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := f.env[x.X].(*AddrV); ok && a.kind == "cell" {
				t, _ := S.cells[a.cell].(*Term)
				return t
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if a, ok := f.env[fa.X].(*AddrV); ok {
					c := S.clone()
					if t, ok := e.load(c, e.fieldAddr(c, a, fa.Field), x).(*Term); ok {
						return t
					}
				}
				if r, ok := f.env[fa.X].(*Term); ok {
					c := S.clone()
					pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
					if t, ok := e.load(c, e.fieldAddr(c, e.refAddr(c, pt, r), fa.Field), x).(*Term); ok {
						return t
					}
				}
			}
		}
	}
	return nil
}

// goesOn gives the condition under which control, at the header of the loop, enters its body again;
// nil when the header does not decide it.
func (e *Exec) goesOn(hs *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) *Term {
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || body[h.Succs[0]] == body[h.Succs[1]] {
		return nil
	}
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Call:
			if _, ok := in.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok {
				return nil
			}
		default:
			return nil
		}
	}
	var cond func(v ssa.Value) *Term
	cond = func(v ssa.Value) *Term {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op == token.NOT && x.Block() == h {
				if c := cond(x.X); c != nil {
					return Not(c)
				}
			}
			return nil
		case *ssa.BinOp:
			if x.Block() != h {
				break
			}
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				return nil
			}
			val := func(v ssa.Value) Val {
				if c, ok := v.(*ssa.Const); ok {
					return e.constVal(c)
				}
				if t := e.headerTerm(hs, v, h, body, 3); t != nil {
					return t
				}
				return nil
			}
			a, b := val(x.X), val(x.Y)
			if a == nil || b == nil {
				return nil
			}
			t, _ := e.binop(hs.clone(), x.Op, a, b, x.X.Type(), x.Type(), x).(*Term)
			return t
		}
		t := e.headerTerm(hs, v, h, body, 3)
		if t != nil && t.Sort == SBool {
			return t
		}
		return nil
	}
	c := cond(br.Cond)
	if c != nil && !body[h.Succs[0]] {
		c = Not(c)
	}
	return c
}

// termination looks for a measure that decreases on every iteration.
func (e *Exec) termination(st, hs *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, syms *loopSyms, backs []*State) {
	if len(backs) == 0 {
		e.loopsTerm++
		return
	}
	// range over a string or map, and loops over finite library structures
	var meas []cand
	add := func(n string, t *Term) {
		if t != nil && t.Sort == SInt && t.Op != "int" {
			meas = append(meas, cand{n, t})
		}
	}
	for _, v := range syms.vars {
		b, ok := v.typ.Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 {
			add(v.name, v.sym)
		}
		if v.sym.Sort == SSlc {
			add("len "+v.name, SLen(v.sym))
		}
	}
	for _, v := range syms.vars {
		if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			for _, l := range syms.lens {
				add(v.name+" to length", Sub(l, v.sym))
			}
		}
	}
	for _, b := range h.Parent().Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				default:
					continue
				}
				x, y := e.headerTerm(hs, bo.X, h, body, 3), e.headerTerm(hs, bo.Y, h, body, 3)
				if x == nil || y == nil || x.Sort != SInt || y.Sort != SInt {
					continue
				}
				add("cmp "+bo.Name(), Sub(y, x))
				add("cmp' "+bo.Name(), Sub(x, y))
			}
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := hs.top().env[nx.Iter].(*IterV); ok {
					if it.kind == "map" {
						e.loopsTerm++
						return // a map has finitely many keys, each is met once
					}
					if c, ok := hs.cells[it.cell].(*Term); ok {
						add("string iteration", Sub(e.nrunes(hs.clone(), it.str), c))
					}
				}
			}
		}
	}
	if e.target != nil && e.entry != nil {
		for _, d := range e.target.Decreases {
			var pool []tmplVal
			for _, v := range syms.vars {
				pool = append(pool, tmplVal{v.name, v.typ, v.sym, true})
			}
			_ = pool
			ev := &evalCtx{e: e, st: hs.clone(), old: e.entry, env: e.target.paramEnv(e, e.entry), con: e.target, pkg: e.target.pkg}
			t, err := ev.integer(d.Expr)
			if err == nil {
				add("decreases "+d.Name, t)
			}
		}
	}
	// an iteration after which the loop ends need not decrease the measure
	cont := e.goesOn(hs, h, body)
	for _, m := range meas {
		ok := true
		var gs [][]*Term
		var fs [][]*Term
		for _, b := range backs {
			sub := syms.subst(e, b)
			g := And(Lt(Subst(m.t, sub), m.t), Le(Zero, m.t))
			if cont != nil {
				g = Imp(Subst(cont, sub), g)
			}
			gs = append(gs, []*Term{g})
			fs = append(fs, b.facts())
		}
		e.batchJobs(len(backs), func(i int) ([]*Term, []*Term) { return fs[i], gs[i] }, func(i int, r []bool) {
			if !r[0] {
				ok = false
			}
		})
		if ok {
			e.loopsTerm++
			for i := range backs {
				e.obls = append(e.obls, &Obligation{Name: "terminates:" + m.name, Assume: fs[i], Goal: gs[i][0], Where: e.where(firstPos(h))})
			}
			return
		}
	}
	if e.target != nil && e.target.Terminates {
		e.obls = append(e.obls, &Obligation{Name: "terminates", Goal: False, Assume: nil, Where: e.where(firstPos(h))})
	}
}

// liveAfter lists the values computed before the loop and used after it.
func liveAfter(f *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []ssa.Value {
	reach := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(h)
	var out []ssa.Value
	for v := range f.env {
		in, ok := v.(ssa.Instruction)
		if !ok || body[in.Block()] || v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if !body[r.Block()] && reach[r.Block()] {
				out = append(out, v)
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// isZero: the zero value of a slice type
func isZero(t *Term) bool {
	if t.Op != "mk" {
		return false
	}
	for _, a := range t.Args {
		if a != Zero {
			return false
		}
	}
	return true
}
