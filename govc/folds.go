package main

import "go/types"

// Folds are recursively defined specification functions over a segment
// [lo, hi) of the content of a slice:
//   f(A, lo, lo, x...) = init
//   f(A, lo, hi+1, x...) = step(f(A, lo, hi, x...), A[hi], x...)

type Fold struct {
	name   string
	elemT  string   // Go element type (distinguishes rune, byte and int)
	elemS  string   // element sort
	extra  []string // sorts of extra arguments
	ret    string
	init   func(extra []*Term) *Term
	step   func(acc, el *Term, extra []*Term) *Term
	rty    types.Type
	nonneg bool // step is monotonic: acc <= step (sum of non-negative terms)
	back   bool // also unfold from the end
	seed   bool // the first extra argument is the initial value: segments compose
	sum    bool // step adds a value that only depends on el and extras
}

// unfolding axioms, left out for folds that the contract treats as opaque
var unfoldAx = map[string][]*Term{}
var opaque = map[string]bool{}

var folds = map[string]*Fold{}

func (f *Fold) sym() string { return "fold:" + f.name }
func (f *Fold) app(arr, lo, hi *Term, extra []*Term) *Term {
	return App(f.sym(), f.ret, append([]*Term{arr, lo, hi}, extra...)...)
}

func declFold(f *Fold) {
	if _, ok := folds[f.name]; ok {
		return
	}
	folds[f.name] = f
	as := arrSort(f.elemS)
	declFunc(f.sym(), f.ret, append([]string{as, SInt, SInt}, f.extra...)...)
	A, lo, hi, mi := BV("A!f", as), BV("lo!f", SInt), BV("hi!f", SInt), BV("mid!f", SInt)
	vars := []*Term{A, lo, hi}
	var ex []*Term
	for i, s := range f.extra {
		b := BV(string(rune('x'+i))+"!f", s)
		ex = append(ex, b)
		vars = append(vars, b)
	}
	app := f.app(A, lo, hi, ex)
	ax := []*Term{
		Forall(vars, Imp(Le(hi, lo), Eq(app, f.init(ex))), []*Term{app}),
	}
	un := []*Term{
		Forall(vars, Imp(Le(lo, hi), Eq(f.app(A, lo, Add(hi, One), ex), f.step(app, Select(A, hi), ex))),
			[]*Term{app, Select(A, hi)}),
	}
	if f.back {
		k := BV("k!f", SInt)
		un = append(un, Forall(append(append([]*Term{}, vars...), k), Imp(And(Eq(hi, Add(k, One)), Le(lo, k)), Eq(app, f.step(f.app(A, lo, k, ex), Select(A, k), ex))),
			[]*Term{app, Select(A, k)}))
	}
	if f.seed {
		// f(A, lo, hi, s) = f(A, mid, hi, f(A, lo, mid, s))  (induction on hi)
		a1 := f.app(A, lo, mi, ex)
		a2 := f.app(A, mi, hi, append([]*Term{a1}, ex[1:]...))
		ax = append(ax, Forall(append(append([]*Term{}, vars...), mi), Imp(And(Le(lo, mi), Le(mi, hi)), Eq(app, a2)), []*Term{app, a1}))
		ax = append(ax, Forall(append(append([]*Term{}, vars...), mi), Imp(And(Le(lo, mi), Le(mi, hi)), Eq(app, a2)), []*Term{a2}))
	}
	// unfolding at hi-1 when the bound is written as a sum
	// stores beyond the segment do not matter (induction on hi)
	j, v := BV("j!f", SInt), BV("v!f", f.elemS)
	st := f.app(Store(A, j, v), lo, hi, ex)
	ax = append(ax, Forall(append(append([]*Term{}, vars...), j, v), Imp(Or(Lt(j, lo), Le(hi, j)), Eq(st, app)), []*Term{st}))
	if f.nonneg {
		// monotonic in hi (induction)
		app2 := f.app(A, lo, mi, ex)
		ax = append(ax, Forall(append(append([]*Term{}, vars...), mi), Imp(And(Le(lo, hi), Le(hi, mi)), Le(app, app2)), []*Term{app, app2}))
		ax = append(ax, Forall(vars, Le(f.init(ex), app), []*Term{app}))
	}
	ufAxioms[f.sym()] = ax
	unfoldAx[f.sym()] = un
}

// foldFrame: A2 agrees with A on [lo, hi), hence so do all folds on it.
func foldFrame(st *State, h *heapInfo, A2, A, lo, hi *Term) {
	for _, f := range foldsOf(h, elemSort(A.Sort)) {
		l, k := BV("l!f", SInt), BV("k!f", SInt)
		vars := []*Term{l, k}
		var ex []*Term
		for i, s := range f.extra {
			b := BV(string(rune('x'+i))+"!f", s)
			ex = append(ex, b)
			vars = append(vars, b)
		}
		a2, a := f.app(A2, l, k, ex), f.app(A, l, k, ex)
		st.assume(Forall(vars, Imp(And(Le(lo, l), Le(k, hi)), Eq(a2, a)), []*Term{a2}))
	}
}

// foldShift: A2[d+i] = A[s+i] for i < n, hence so do folds.
func foldShift(st *State, h *heapInfo, A2, d, A, s, n *Term) {
	for _, f := range foldsOf(h, elemSort(A.Sort)) {
		l, k := BV("l!f", SInt), BV("k!f", SInt)
		vars := []*Term{l, k}
		var ex []*Term
		for i, sx := range f.extra {
			b := BV(string(rune('x'+i))+"!f", sx)
			ex = append(ex, b)
			vars = append(vars, b)
		}
		a2 := f.app(A2, l, k, ex)
		a := f.app(A, Add(l, Sub(s, d)), Add(k, Sub(s, d)), ex)
		st.assume(Forall(vars, Imp(And(Le(d, l), Le(k, Add(d, n))), Eq(a2, a)), []*Term{a2}))
	}
}

// foldSeed states the unfolding of the folds on A at lo..hi+1.
func foldSeed(st *State, h *heapInfo, A, lo, hi *Term) {
	for _, f := range foldsOf(h, elemSort(A.Sort)) {
		if opaque[f.sym()] {
			continue
		}
		var ex, vars []*Term
		for i, s := range f.extra {
			b := BV(string(rune('x'+i))+"!f", s)
			ex = append(ex, b)
			vars = append(vars, b)
		}
		a, a1 := f.app(A, lo, hi, ex), f.app(A, lo, Add(hi, One), ex)
		g := Imp(Le(lo, hi), Eq(a1, f.step(a, Select(A, hi), ex)))
		if len(vars) == 0 {
			st.assume(g)
		} else {
			st.assume(Forall(vars, g, []*Term{a1}))
		}
	}
}

func foldsOf(h *heapInfo, elem string) []*Fold {
	var out []*Fold
	for _, n := range foldOrder {
		if f := folds[n]; f != nil && f.elemS == elem && (f.elemT == "" || h == nil || h.key == "H:"+f.elemT) {
			out = append(out, f)
		}
	}
	return out
}

var foldOrder []string

type foldInst struct{}

func (e *Exec) storeEvent(st *State, h *heapInfo, na, idx, off *Term) {
	if off != nil {
		foldSeed(st, h, na, off, idx)
	}
}
