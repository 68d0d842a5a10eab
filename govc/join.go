package main

import (
	"reflect"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Joins: with the keyword "merge" in a contract, paths that split at a branch
// or leave a loop are brought together again where control flow meets. The
// merged state is a disjunction: fresh selectors imply the facts and values
// of each path, and at least one selector holds.

type Join struct {
	block  *ssa.BasicBlock
	depth  int
	base   *pcNode
	states []*State
}

var rpos = map[*ssa.Function][]int{}

// rpo numbers the blocks of a function in reverse postorder.
func rpo(fn *ssa.Function) []int {
	if r, ok := rpos[fn]; ok {
		return r
	}
	num := make([]int, len(fn.Blocks))
	seen := make([]bool, len(fn.Blocks))
	n := len(fn.Blocks)
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				visit(s)
			}
		}
		n--
		num[b.Index] = n
	}
	visit(fn.Blocks[0])
	rpos[fn] = num
	return num
}

// meeting is the first block that at least two of the given starts lead to, without passing avoid.
func meeting(starts []*ssa.BasicBlock, allowed func(*ssa.BasicBlock) bool) *ssa.BasicBlock {
	if len(starts) < 2 {
		return nil
	}
	num := rpo(starts[0].Parent())
	cnt := map[*ssa.BasicBlock]int{}
	for _, s := range starts {
		seen := map[*ssa.BasicBlock]bool{}
		var visit func(b *ssa.BasicBlock)
		visit = func(b *ssa.BasicBlock) {
			if seen[b] || !allowed(b) {
				return
			}
			seen[b] = true
			cnt[b]++
			for _, x := range b.Succs {
				if num[x.Index] > num[b.Index] { // forward edges only
					visit(x)
				}
			}
		}
		visit(s)
	}
	var best *ssa.BasicBlock
	for b, n := range cnt {
		if n >= 2 && (best == nil || num[b.Index] < num[best.Index]) {
			best = b
		}
	}
	return best
}

func (e *Exec) merging() bool { return e.target != nil && e.target.Merge }

// joinFor gives the block where the paths from the given starts meet again, if usable.
func (e *Exec) joinFor(st *State, starts []*ssa.BasicBlock) *Join {
	if !e.merging() || st.top().unrolling() {
		return nil
	}
	d := len(st.frames)
	var l *ActiveLoop
	if n := len(st.loops); n > 0 && st.loops[n-1].depth == d {
		l = st.loops[n-1]
	}
	j := meeting(starts, func(b *ssa.BasicBlock) bool { return l == nil || (b != l.header && l.blocks[b]) })
	if j == nil {
		return nil
	}
	return &Join{block: j, depth: d, base: st.pc}
}

// exits lists the targets of the edges that leave a loop.
func exits(body map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range body {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	var out []*ssa.BasicBlock
	for _, b := range bs {
		for _, s := range b.Succs {
			if !body[s] {
				out = append(out, s)
			}
		}
	}
	return out
}

func (f *Frame) unrolling() bool { return len(f.unroll) > 0 }

// atJoin parks the state when it reaches its innermost join point.
func (e *Exec) atJoin(st *State, from, to *ssa.BasicBlock) bool {
	for n := len(st.joins); n > 0; n-- {
		j := st.joins[n-1]
		if j.depth == len(st.frames) && j.block == to {
			if from != nil {
				e.setPhis(st, from, to)
			}
			st.joins = st.joins[:n-1]
			j.states = append(j.states, st)
			return true
		}
	}
	return false
}

// resume continues the states collected at a join.
func (e *Exec) resume(j *Join) {
	if len(j.states) == 0 {
		return
	}
	out := j.states
	if len(j.states) > 1 {
		if m := e.mergeStates(j); m != nil {
			out = []*State{m}
		}
	}
	for _, st := range out {
		f := st.top()
		if e.atJoin(st, nil, j.block) {
			continue
		}
		f.prev, f.blk = nil, j.block
		if body, ok := loopInfo(f.fn)[j.block]; ok {
			e.handleLoop(st, nil, j.block, body)
			continue
		}
		e.run(st)
	}
}

func sameVal(a, b Val) bool {
	if _, ok := a.(TupleV); !ok {
		if _, ok := b.(TupleV); ok {
			return false
		}
		if a == b {
			return true
		}
	}
	switch x := a.(type) {
	case *AddrV:
		if y, ok := b.(*AddrV); ok {
			return reflect.DeepEqual(*x, *y)
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			return *x == *y
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && x.fn == y.fn && len(x.bind) == len(y.bind) {
			for i := range x.bind {
				if !sameVal(x.bind[i], y.bind[i]) {
					return false
				}
			}
			return true
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			return x.t == y.t && sameVal(x.v, y.v)
		}
	case *SymFunc:
		if y, ok := b.(*SymFunc); ok {
			return x.t == y.t
		}
	case *IterV:
		if y, ok := b.(*IterV); ok {
			return *x == *y
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			for i := range x {
				if !sameVal(x[i], y[i]) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func (e *Exec) mergeStates(j *Join) (res *State) {
	sts := j.states
	k := len(sts)
	m := sts[0].clone()
	f0 := sts[0].top()
	for _, s := range sts[1:] {
		f := s.top()
		if len(s.frames) != len(m.frames) || len(f.defers) != len(f0.defers) || len(f.unroll) != len(f0.unroll) || len(s.loops) != len(m.loops) || len(s.events) != len(m.events) {
			return nil
		}
		for i := range s.loops {
			if s.loops[i] != m.loops[i] {
				return nil
			}
		}
		for i := range f.defers {
			if f.defers[i].call != f0.defers[i].call {
				return nil
			}
		}
	}
	// the facts added since the split
	suf := make([][]*Term, k)
	sels := make([]*Term, k)
	collect := func() bool {
		for i, s := range sts {
			suf[i] = nil
			n := s.pc
			for ; n != nil && n != j.base; n = n.parent {
				suf[i] = append(suf[i], n.t)
			}
			if n != j.base {
				return false
			}
			for a, b := 0, len(suf[i])-1; a < b; a, b = a+1, b-1 {
				suf[i][a], suf[i][b] = suf[i][b], suf[i][a]
			}
		}
		return true
	}
	for i := range sels {
		sels[i] = Fresh("sel", SBool)
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	// cells promoted on some path only are promoted on all
	prom := map[int]bool{}
	for _, s := range sts {
		for c := range s.promo {
			prom[c] = true
		}
	}
	var pcs []int
	for c := range prom {
		pcs = append(pcs, c)
	}
	sort.Ints(pcs)
	for _, c := range pcs {
		for _, s := range sts {
			if _, ok := s.promo[c]; !ok {
				if _, ok := s.cells[c]; ok {
					e.promote(s, &AddrV{kind: "cell", cell: c, typ: s.ctype[c]})
				}
			}
		}
	}
	var defs []*Term
	mix := func(name string, ts []*Term) *Term {
		same := true
		for _, t := range ts[1:] {
			if t != ts[0] {
				same = false
			}
			if t.Sort != ts[0].Sort {
				panic(Unsupported("merge of different sorts"))
			}
		}
		if same {
			return ts[0]
		}
		v := Fresh(name, ts[0].Sort)
		for i, t := range ts {
			defs = append(defs, Imp(sels[i], Eq(v, t)))
		}
		return v
	}
	// values
	env := map[ssa.Value]Val{}
	var keys []ssa.Value
	for v := range f0.env {
		if in, ok := v.(ssa.Instruction); ok && in.Block() != j.block && !in.Block().Dominates(j.block) {
			continue
		}
		keys = append(keys, v)
	}
	sort.Slice(keys, func(a, b int) bool { return keys[a].Name() < keys[b].Name() })
	for _, v := range keys {
		var vs []Val
		same := true
		for _, s := range sts {
			x, ok := s.top().env[v]
			if !ok {
				break
			}
			vs = append(vs, x)
			if !sameVal(x, vs[0]) {
				same = false
			}
		}
		if len(vs) < k {
			continue
		}
		if same {
			env[v] = vs[0]
			continue
		}
		var ts []*Term
		for i, x := range vs {
			ts = append(ts, e.term(sts[i], x, v.Type()))
		}
		t := mix("join."+v.Name(), ts)
		m.assume(True)
		env[v] = e.wrap(t, v.Type())
	}
	// local variables
	cells := map[int]Val{}
	var cids []int
	for c := range sts[0].cells {
		cids = append(cids, c)
	}
	sort.Ints(cids)
	for _, c := range cids {
		var vs []Val
		same := true
		for _, s := range sts {
			x, ok := s.cells[c]
			if !ok {
				break
			}
			vs = append(vs, x)
			if !sameVal(x, vs[0]) {
				same = false
			}
		}
		if len(vs) < k {
			continue
		}
		if same {
			cells[c] = vs[0]
			continue
		}
		typ := m.ctype[c]
		var ts []*Term
		for i, x := range vs {
			ts = append(ts, e.term(sts[i], x, typ))
		}
		cells[c] = e.wrap(mix("joinc", ts), typ)
	}
	promo := map[int]*Term{}
	for _, c := range pcs {
		var ts []*Term
		for _, s := range sts {
			if t, ok := s.promo[c]; ok {
				ts = append(ts, t)
			}
		}
		if len(ts) == k {
			promo[c] = mix("joinp", ts)
		}
	}
	// the heap
	hk := map[string]bool{}
	for _, s := range sts {
		for h := range s.heaps {
			hk[h] = true
		}
	}
	var hks []string
	for h := range hk {
		hks = append(hks, h)
	}
	sort.Strings(hks)
	heaps := map[string]*Term{}
	for _, h := range hks {
		var ts []*Term
		for _, s := range sts {
			if t, ok := s.heaps[h]; ok {
				ts = append(ts, t)
			} else if hi := heapInfos[h]; hi != nil {
				ts = append(ts, e.heap(s, hi))
			} else {
				ts = append(ts, Const("h0:"+h, sts[0].heaps[h].Sort))
			}
		}
		heaps[h] = mix("H."+h, ts)
	}
	var nx []*Term
	for _, s := range sts {
		nx = append(nx, s.next)
	}
	next := mix("next", nx)
	if !collect() {
		return nil
	}
	m.pc = j.base
	m.assume(Or(sels...))
	// facts common to all paths need no selector
	cnt := map[*Term]int{}
	for i := range suf {
		seen := map[*Term]bool{}
		for _, t := range suf[i] {
			if !seen[t] {
				seen[t] = true
				cnt[t]++
			}
		}
	}
	done := map[*Term]bool{}
	for i := range suf {
		for _, t := range suf[i] {
			if cnt[t] == k {
				if !done[t] {
					done[t] = true
					m.assume(t)
				}
				continue
			}
			m.assume(impUnder(sels[i], t))
		}
	}
	for _, d := range defs {
		m.assume(d)
	}
	m.heaps, m.cells, m.promo, m.next = heaps, cells, promo, next
	m.top().env = env
	return m
}

// impUnder puts a condition in front of a fact, below its quantifiers.
func impUnder(c, t *Term) *Term { return Imp(c, t) }
