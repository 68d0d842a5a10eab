package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debug = os.Getenv("GOVC_DEBUG") != ""

type Obligation struct {
	Name   string
	Assume []*Term
	Goal   *Term
	Where  string
	Result string // unsat => discharged
	By     string
	Secs   float64
}

// Exec verifies one function.
type Exec struct {
	p           *Program
	cs          *Contracts
	target      *Contract
	fn          *ssa.Function
	q           *quick
	obls        []*Obligation
	quiet       int // >0: do not record obligations
	cellN       int
	steps       int
	paths       int
	inlined     map[string]bool
	called      map[string]bool // contracts used at call sites
	assumed     map[string]bool // trusted contracts / assumptions used
	foldInst    map[string][]foldInst
	wfDone      map[*Term]bool
	loopMemo    map[string]map[string]bool // surviving candidate names (union over arrivals in the latest houdini round)
	houdini     int                        // depth of houdini/dry nesting
	dry         int
	invs        int // invariants established
	deadline    func() bool
	frozenErr   []string
	initGlobals map[*ssa.Global]Val
	forceInline map[string]bool
	entry       *State
	loopsSeen   int
	loopsTerm   int
}

type pathEnd struct{}

func (e *Exec) fail(st *State, format string, a ...interface{}) {
	panic(Unsupported(fmt.Sprintf(format, a...)))
}

func (e *Exec) oblige(st *State, name string, goal *Term, where string) {
	if goal == True {
		if e.quiet == 0 {
			e.obls = append(e.obls, &Obligation{Name: name, Goal: goal, Where: where, Result: "unsat", By: "simplifier"})
		}
		return
	}
	if e.quiet == 0 {
		e.obls = append(e.obls, &Obligation{Name: name, Assume: st.facts(), Goal: goal, Where: where})
	}
	// afterwards the checked condition may be assumed
	st.assume(goal)
}

func (e *Exec) where(in ssa.Instruction) string {
	if in == nil {
		return ""
	}
	p := e.p.prog.Fset.Position(in.Pos())
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	s := ""
	if in.Parent() != nil {
		s = in.Parent().Name()
	}
	if p.IsValid() {
		return fmt.Sprintf("%s@%s:%d", s, f, p.Line)
	}
	return s
}

// heaps -------------------------------------------------------------------------

func (e *Exec) heap(st *State, h *heapInfo) *Term {
	if t, ok := st.heaps[h.key]; ok {
		return t
	}
	// the initial heap symbol must be the same on every path
	t := Const("h0:"+h.key, h.sort)
	st.heaps[h.key] = t
	e.wfHeap(st, h, t, e.entryNext())
	if h == evN() {
		st.assume(Le(Zero, t))
	}
	return t
}

func (e *Exec) entryNext() *Term { return Const("next0", SInt) }

// typeFact states that a value is well formed for its Go type, all references
// being below next.
func typeFact(t *Term, typ types.Type, next *Term) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if lo, hi, _, _, ok := intRange(typ); ok {
			return And(Le(lo, t), Le(t, hi))
		}
		return True
	case *types.Pointer:
		if n := objSize(u.Elem()); n > 1 {
			return And(Le(Zero, t), Lt(t, next), Or(Eq(t, Zero), Lt(Add(t, Int(n-1)), next)))
		}
		return And(Le(Zero, t), Lt(t, next))
	case *types.Map, *types.Chan:
		return And(Le(Zero, t), Lt(t, next))
	case *types.Slice:
		_ = u
		return And(Le(Zero, SRef(t)), Lt(SRef(t), next), Le(Zero, SOff(t)), Le(Zero, SLen(t)), Le(SLen(t), SCap(t)),
			Le(Add(SOff(t), SCap(t)), pow2(40, false)),
			Or(Lt(Zero, SRef(t)), And(Eq(SCap(t), Zero), Eq(SOff(t), Zero))))
	case *types.Interface:
		return Le(Zero, SelD(t, 0))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, typeFact(SelD(t, i), u.Field(i).Type(), next))
		}
		return And(cs...)
	}
	return True
}

func hasRefs(typ types.Type) bool {
	switch u := typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// wfHeap assumes the language invariant that stored references are allocated
// and stored values lie within their type.
func (e *Exec) wfHeap(st *State, h *heapInfo, t *Term, next *Term) {
	switch h.kind {
	case "elem":
		r, j := BV("r!w", SInt), BV("j!w", SInt)
		sel := Select(Select(t, r), j)
		st.assume(Forall([]*Term{r, j}, typeFact(sel, h.typ, next), []*Term{sel}))
	case "field", "box":
		r := BV("r!w", SInt)
		sel := Select(t, r)
		st.assume(Forall([]*Term{r}, typeFact(sel, h.typ, next), []*Term{sel}))
	case "glob":
		st.assume(typeFact(t, h.typ, next))
	case "mapval":
		r := BV("r!w", SInt)
		inner := elemSort(h.sort)
		ks := keySort(inner)
		k := BV("k!w", ks)
		sel := Select(Select(t, r), k)
		st.assume(Forall([]*Term{r, k}, typeFact(sel, h.typ, next), []*Term{sel}))
	case "maplen":
		r := BV("r!w", SInt)
		sel := Select(t, r)
		st.assume(Forall([]*Term{r}, Le(Zero, sel), []*Term{sel}))
	}
}

func keySort(arr string) string {
	s := strings.TrimPrefix(arr, "(Array ")
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[:i]
			}
		}
	}
	panic("keySort")
}

// Forall with `and` bodies distributes and loses explicit patterns: recompute.

// alloc returns a fresh reference.
func (e *Exec) alloc(st *State) *Term { return e.allocN(st, 1) }

func (e *Exec) allocN(st *State, k int64) *Term {
	r := Fresh("ref", SInt)
	st.assume(Eq(r, st.next))
	n := Fresh("next", SInt)
	st.assume(Eq(n, Add(r, Int(k))))
	st.next = n
	return r
}

// splitField tells the fields of library structures whose address is kept:
// the field is an object of its own, at the next reference after the structure.
func splitField(owner types.Type, f int) bool {
	n, ok := owner.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "container/list" || n.Obj().Name() != "List" {
		return false
	}
	return n.Underlying().(*types.Struct).Field(f).Name() == "root"
}

// objSize is the number of references taken by an object.
func objSize(t types.Type) int64 {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if splitField(t, i) {
				return 2
			}
		}
	}
	return 1
}

// sel reads heap array at ref, looking through stores to provably different refs.
func (e *Exec) selHeap(st *State, h, ref *Term) *Term {
	for {
		r := Select(h, ref)
		if r.Op != "select" || r.Args[0].Op != "store" || r.Args[1] != ref {
			return r
		}
		s := r.Args[0]
		if s.Args[1].Sort == SInt && e.q.prove(st.pc, Not(Eq(s.Args[1], ref))) {
			h = s.Args[0]
			continue
		}
		if s.Args[1].Sort == SInt && e.q.prove(st.pc, Eq(s.Args[1], ref)) {
			return s.Args[2]
		}
		return r
	}
}

func (e *Exec) elems(st *State, el types.Type, ref *Term) *Term {
	h := elemHeapInfo(el)
	return e.selHeap(st, e.heap(st, h), ref)
}

func (e *Exec) setHeap(st *State, h *heapInfo, ref, v *Term) {
	e.frameCheck(st, h, ref)
	st.heaps[h.key] = Store(e.heap(st, h), ref, v)
}

// addresses ----------------------------------------------------------------------

func (e *Exec) load(st *State, a *AddrV, in ssa.Instruction) Val {
	switch a.kind {
	case "cell":
		if r, ok := st.promo[a.cell]; ok {
			return e.load(st, e.refAddr(st, a.typ, r), in)
		}
		return st.cells[a.cell]
	case "glob":
		return e.loadGlobal(st, a.glob)
	case "hfield":
		h := fieldHeapInfo(a.owner, a.field)
		v := e.selHeap(st, e.heap(st, h), a.ref)
		e.factOnLoad(st, v, a.typ)
		return e.wrap(v, a.typ)
	case "box":
		h := boxHeapInfo(a.typ)
		v := e.selHeap(st, e.heap(st, h), a.ref)
		e.factOnLoad(st, v, a.typ)
		return e.wrap(v, a.typ)
	case "elem":
		arr := e.elems(st, a.typ, a.ref)
		v := e.selIdx(st, arr, a.idx)
		e.factOnLoad(st, v, a.typ)
		return e.wrap(v, a.typ)
	case "sub":
		b := e.load(st, a.base, in)
		bt := e.term(st, b, a.base.typ)
		v := SelD(bt, a.field)
		e.factOnLoad(st, v, a.typ)
		return e.wrap(v, a.typ)
	case "struct": // whole struct behind a heap pointer
		s := a.typ.Underlying().(*types.Struct)
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			if splitField(a.typ, i) {
				fs = append(fs, e.term(st, e.load(st, e.fieldAddr(st, a, i), in), s.Field(i).Type()))
				continue
			}
			h := fieldHeapInfo(a.typ, i)
			v := e.selHeap(st, e.heap(st, h), a.ref)
			e.factOnLoad(st, v, s.Field(i).Type())
			fs = append(fs, v)
		}
		name := sortOf(a.typ)
		if len(fs) == 0 {
			fs = []*Term{Zero}
		}
		return MkD(name, fs...)
	case "array":
		at := a.typ.Underlying().(*types.Array)
		return &ArrV{arr: e.elems(st, at.Elem(), a.ref), off: Zero, n: at.Len()}
	}
	e.fail(st, "load %s", a.kind)
	return nil
}

// wrap turns a loaded term into the Val representation for its type.
func (e *Exec) wrap(v *Term, typ types.Type) Val {
	if sg, ok := typ.Underlying().(*types.Signature); ok {
		return &SymFunc{v, sg}
	}
	return v
}

func (e *Exec) selIdx(st *State, arr, idx *Term) *Term {
	for {
		r := Select(arr, idx)
		if r.Op != "select" || r.Args[0].Op != "store" || r.Args[1] != idx {
			return r
		}
		s := r.Args[0]
		if e.q.prove(st.pc, Not(Eq(s.Args[1], idx))) {
			arr = s.Args[0]
			continue
		}
		if e.q.prove(st.pc, Eq(s.Args[1], idx)) {
			return s.Args[2]
		}
		return r
	}
}

func (e *Exec) factOnLoad(st *State, v *Term, typ types.Type) {
	if v.Op == "int" || v.Op == "true" || v.Op == "false" || v.hasB {
		return
	}
	f := typeFact(v, typ, st.next)
	if f == True {
		return
	}
	key := v
	if e.wfDone[key] {
		// facts about a given symbol only need to be stated once per path; the
		// pc is persistent, so check cheaply whether it is already there
		for n, k := st.pc, 0; n != nil && k < 400; n, k = n.parent, k+1 {
			if n.t == f {
				return
			}
			if f.Op == "and" && n.t == f.Args[0] {
				return
			}
		}
	}
	e.wfDone[key] = true
	st.assume(f)
}

func (e *Exec) store(st *State, a *AddrV, v Val, in ssa.Instruction) {
	switch a.kind {
	case "cell":
		if r, ok := st.promo[a.cell]; ok {
			e.store(st, e.refAddr(st, a.typ, r), v, in)
			return
		}
		st.cells[a.cell] = v
	case "glob":
		h := globHeapInfo(a.glob)
		e.frameCheckGlob(st, a.glob)
		st.heaps[h.key] = e.term(st, v, a.typ)
	case "hfield":
		e.setHeap(st, fieldHeapInfo(a.owner, a.field), a.ref, e.term(st, v, a.typ))
	case "box":
		e.setHeap(st, boxHeapInfo(a.typ), a.ref, e.term(st, v, a.typ))
	case "elem":
		h := elemHeapInfo(a.typ)
		arr := e.selHeap(st, e.heap(st, h), a.ref)
		na := Store(arr, a.idx, e.term(st, v, a.typ))
		e.setHeap(st, h, a.ref, na)
		e.storeEvent(st, h, na, a.idx, a.off)
	case "sub":
		b := e.term(st, e.load(st, a.base, in), a.base.typ)
		d := datatypes[b.Sort]
		args := make([]*Term, len(d.Fields))
		for i := range args {
			if i == a.field {
				args[i] = e.term(st, v, a.typ)
			} else {
				args[i] = SelD(b, i)
			}
		}
		e.store(st, a.base, MkD(b.Sort, args...), in)
	case "struct":
		s := a.typ.Underlying().(*types.Struct)
		t := e.term(st, v, a.typ)
		for i := 0; i < s.NumFields(); i++ {
			if splitField(a.typ, i) {
				e.store(st, e.fieldAddr(st, a, i), SelD(t, i), in)
				continue
			}
			e.setHeap(st, fieldHeapInfo(a.typ, i), a.ref, SelD(t, i))
		}
	case "array":
		at := a.typ.Underlying().(*types.Array)
		av, ok := v.(*ArrV)
		if !ok {
			av = &ArrV{arr: e.term(st, v, a.typ), off: Zero, n: at.Len()}
		}
		if av.off != Zero {
			e.fail(st, "array store with offset")
		}
		e.setHeap(st, elemHeapInfo(at.Elem()), a.ref, av.arr)
	default:
		e.fail(st, "store %s", a.kind)
	}
}

// refAddr gives the address designated by a pointer value (heap reference).
func (e *Exec) refAddr(st *State, pointee types.Type, ref *Term) *AddrV {
	switch pointee.Underlying().(type) {
	case *types.Struct:
		return &AddrV{kind: "struct", typ: pointee, ref: ref}
	case *types.Array:
		return &AddrV{kind: "array", typ: pointee, ref: ref}
	}
	return &AddrV{kind: "box", typ: pointee, ref: ref}
}

// addr converts a pointer Val to an address; nil dereference is an obligation.
func (e *Exec) addr(st *State, v Val, ptr types.Type, in ssa.Instruction) *AddrV {
	switch x := v.(type) {
	case *AddrV:
		if x.kind == "cell" {
			if r, ok := st.promo[x.cell]; ok {
				return e.refAddr(st, x.typ, r)
			}
		}
		return x
	case *Term:
		pt := ptr.Underlying().(*types.Pointer).Elem()
		e.oblige(st, "nil-dereference", Not(Eq(x, Zero)), e.where(in))
		return e.refAddr(st, pt, x)
	}
	e.fail(st, "address from %T", v)
	return nil
}

func (e *Exec) fieldAddr(st *State, a *AddrV, f int) *AddrV {
	s := a.typ.Underlying().(*types.Struct)
	ft := s.Field(f).Type()
	if a.kind == "struct" {
		if splitField(a.typ, f) {
			return e.refAddr(st, ft, Add(a.ref, One))
		}
		return &AddrV{kind: "hfield", typ: ft, owner: a.typ, field: f, ref: a.ref}
	}
	return &AddrV{kind: "sub", typ: ft, base: a, field: f}
}

// promote moves a local cell to the heap because its address escapes.
func (e *Exec) promote(st *State, a *AddrV) *Term {
	if r, ok := st.promo[a.cell]; ok {
		return r
	}
	r := e.allocN(st, objSize(a.typ))
	v := st.cells[a.cell]
	st.promo[a.cell] = r
	delete(st.cells, a.cell)
	e.store(st, e.refAddr(st, a.typ, r), v, nil)
	return r
}

// term gives the first-class SMT value of v.
func (e *Exec) term(st *State, v Val, typ types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *AddrV:
		switch x.kind {
		case "cell":
			return e.promote(st, x)
		case "struct", "box", "array":
			return x.ref
		case "glob":
			// address of a global: a fixed positive reference
			t := Const("&"+x.glob.String(), SInt)
			st.assume(And(Lt(Zero, t), Lt(t, e.entryNext())))
			return t
		}
		e.fail(st, "interior pointer (%s) used as a value", x.kind)
	case *SymFunc:
		return x.t
	case *FuncV:
		if len(x.bind) == 0 {
			return Const("fn:"+x.fn.String(), SInt)
		}
		t := Fresh("closure:"+x.fn.Name(), SInt)
		e.closures()[t] = x
		st.assume(Lt(Zero, t))
		return t
	case *IfaceV:
		tag := typeTag(x.t)
		pt := e.term(st, x.v, x.t)
		return MkD("Ifc", tag, e.box(st, pt, x.t))
	case *ArrV:
		return x.arr
	}
	panic(Unsupported(fmt.Sprintf("value %T as term (type %v)", v, typ)))
}

var closureTab = map[*Term]*FuncV{}

func (e *Exec) closures() map[*Term]*FuncV { return closureTab }

var typeTags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	if n, ok := typeTags[k]; ok {
		return Int(n)
	}
	n := int64(len(typeTags) + 1)
	typeTags[k] = n
	tagTypes[n] = t
	return Int(n)
}

func boxFn(s string) (string, string) { return "box<" + s + ">", "unbox<" + s + ">" }

func (e *Exec) box(st *State, t *Term, typ types.Type) *Term {
	b, u := boxFn(t.Sort)
	declFunc(b, SBox, t.Sort)
	declFunc(u, t.Sort, SBox)
	bt := App(b, SBox, t)
	st.assume(Eq(App(u, t.Sort, bt), t))
	return bt
}
func (e *Exec) unbox(bt *Term, typ types.Type) *Term {
	s := sortOf(typ)
	b, u := boxFn(s)
	declFunc(b, SBox, s)
	declFunc(u, s, SBox)
	if bt.Op == "app" && bt.Name == b {
		return bt.Args[0]
	}
	return App(u, s, bt)
}

// zero value -----------------------------------------------------------------------

func (e *Exec) zero(t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Array:
		a := t.Underlying().(*types.Array)
		z := e.zeroTerm(a.Elem())
		return &ArrV{arr: ConstArr(arrSort(z.Sort), z), off: Zero, n: a.Len()}
	}
	return e.zeroTerm(t)
}
func (e *Exec) zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return NilSlc
	case *types.Interface:
		return MkD("Ifc", Zero, Const("nilbox", SBox))
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.zeroTerm(u.Field(i).Type()))
		}
		if len(fs) == 0 {
			fs = []*Term{Zero}
		}
		return MkD(sortOf(t), fs...)
	case *types.Array:
		z := e.zeroTerm(u.Elem())
		return ConstArr(arrSort(z.Sort), z)
	}
	switch sortOf(t) {
	case SInt:
		return Zero
	case SBool:
		return False
	case SReal:
		return RatLit(new(big.Rat))
	case SStr:
		return strLit("")
	}
	panic(Unsupported("zero of " + t.String()))
}

var strLits = map[string]*Term{}
var litOf = map[*Term]string{}

func strLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	t := mk(&Term{Op: "strlit", Name: fmt.Sprintf("str%q", s), Sort: SStr})
	strLits[s] = t
	litOf[t] = s
	return t
}

func (e *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch sortOf(c.Type()) {
	case SBool:
		return Bool(constant.BoolVal(c.Value))
	case SStr:
		return strLit(constant.StringVal(c.Value))
	case SReal:
		f := constant.ToFloat(c.Value)
		r, ok := new(big.Rat).SetString(f.ExactString())
		if !ok {
			panic(Unsupported("float const"))
		}
		return RatLit(r)
	case SInt:
		v := constant.ToInt(c.Value)
		k, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			panic(Unsupported("int const " + c.String()))
		}
		return IntB(k)
	}
	panic(Unsupported("const " + c.String()))
}

func (e *Exec) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Global:
		return &AddrV{kind: "glob", typ: x.Type().Underlying().(*types.Pointer).Elem(), glob: x}
	case *ssa.Builtin:
		return x
	}
	r, ok := st.top().env[v]
	if !ok {
		e.fail(st, "no value for %s in %s", v.Name(), st.top().fn)
	}
	return r
}

func (e *Exec) tval(st *State, v ssa.Value) *Term {
	return e.term(st, e.val(st, v), v.Type())
}

// globals ---------------------------------------------------------------------------

func (e *Exec) loadGlobal(st *State, g *ssa.Global) Val {
	h := globHeapInfo(g)
	if t, ok := st.heaps[h.key]; ok {
		return e.wrap(t, h.typ)
	}
	if v, ok := e.initGlobals[g]; ok {
		return v
	}
	if len(e.p.storesTo[g]) == 0 && e.p.initN[g] == 1 && !e.p.addrTaken[g] {
		if t := e.frozenTable(st, g); t != nil {
			return e.wrap(t, h.typ)
		}
	}
	t := e.heap(st, h)
	if len(e.p.storesTo[g]) == 0 && e.p.initN[g] == 1 && !e.p.addrTaken[g] {
		if f := e.globInit(st, g, t); f != nil {
			st.assume(f)
		}
	}
	return e.wrap(t, h.typ)
}

// globInit states what is known of a package variable that is only set by its
// initialiser.
func (e *Exec) globInit(st *State, g *ssa.Global, t *Term) *Term {
	v := e.p.initOf[g]
	if v == nil {
		return nil
	}
	switch x := v.Val.(type) {
	case *ssa.Const:
		if x.Value != nil {
			if k, ok := e.constVal(x).(*Term); ok {
				return Eq(t, k)
			}
		}
	case *ssa.Call:
		if f, ok := x.Call.Value.(*ssa.Function); ok && (fnName(f) == "errors.New" || fnName(f) == "fmt.Errorf") {
			return Lt(Zero, SelD(t, 0))
		}
		if f, ok := x.Call.Value.(*ssa.Function); ok && fnName(f) == "golang.org/x/text/runes.In" {
			if u, ok := x.Call.Args[0].(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					if s := setIn(g.String()); s != nil {
						return Eq(t, s)
					}
				}
			}
		}
	}
	return nil
}

// frame conditions --------------------------------------------------------------------

// frameCheck: writes must go to memory allocated during the call, unless the
// contract lists the location under `modifies`.
func (e *Exec) frameCheck(st *State, h *heapInfo, ref *Term) {
	if e.entry == nil { // evaluating package initialisers
		return
	}
	if e.target != nil && e.target.modifiesHeap(e, st, h, ref) {
		return
	}
	goal := Ge(ref, e.entryNext())
	if e.target != nil {
		for _, r := range e.target.modifiesRefs(e, st, h) {
			goal = Or(goal, Eq(ref, r))
		}
	}
	e.oblige(st, "frame:"+h.key, goal, "write to memory that existed before the call")
}
func (e *Exec) frameCheckGlob(st *State, g *ssa.Global) {
	if e.entry == nil || e.target == nil {
		return
	}
	if e.target.modGlobals[g.Name()] || onceGlobs[g] && e.fn.Name() != "init" {
		return
	}
	e.oblige(st, "frame:global "+g.Name(), False, "write to a package variable")
}

// running -------------------------------------------------------------------------------

func (e *Exec) newCell(st *State, typ types.Type, v Val) *AddrV {
	e.cellN++
	st.cells[e.cellN] = v
	st.ctype[e.cellN] = typ
	return &AddrV{kind: "cell", cell: e.cellN, typ: typ}
}

func (e *Exec) pushFrame(st *State, fn *ssa.Function, args []Val, bind []Val, call ssa.Value) {
	if fn.Blocks == nil {
		e.fail(st, "no body for %s", fn)
	}
	if len(st.frames) > 24 {
		e.fail(st, "call depth")
	}
	for _, f := range st.frames {
		if f.fn == fn {
			n := 0
			for _, g := range st.frames {
				if g.fn == fn {
					n++
				}
			}
			if n > 2 {
				e.fail(st, "recursion in %s", fn)
			}
		}
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, call: call, unroll: map[*ssa.BasicBlock]int{}, loopLen: len(st.loops)}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		f.env[fv] = bind[i]
	}
	f.blk = fn.Blocks[0]
	st.frames = append(st.frames, f)
}

func (e *Exec) run(st *State) {
	for {
		e.steps++
		if e.steps > 400000 {
			e.fail(st, "step limit")
		}
		if e.steps%64 == 0 && e.deadline != nil && e.deadline() {
			e.fail(st, "time limit")
		}
		f := st.top()
		if f.idx >= len(f.blk.Instrs) {
			e.fail(st, "end of block")
		}
		in := f.blk.Instrs[f.idx]
		f.idx++
		if !e.step(st, in) {
			return
		}
	}
}

// jump moves to block `to`; returns false when the path ends here.
func (e *Exec) jump(st *State, to *ssa.BasicBlock) bool {
	f := st.top()
	from := f.blk
	depth := len(st.frames)
	for len(st.loops) > 0 {
		l := st.loops[len(st.loops)-1]
		if l.depth != depth {
			break
		}
		if to == l.header {
			e.setPhis(st, from, to)
			f.prev, f.blk = from, to
			l.onBack(st)
			return false
		}
		if !l.blocks[to] {
			if l.discard {
				return false
			}
			st.loops = st.loops[:len(st.loops)-1]
			continue
		}
		break
	}
	if e.atJoin(st, from, to) {
		return false
	}
	li := loopInfo(f.fn)
	// leaving unrolled loops resets their counters
	for h := range f.unroll {
		if !li[h][to] {
			delete(f.unroll, h)
		}
	}
	if body, isHeader := li[to]; isHeader {
		if f.unroll[to] > 0 && body[from] {
			f.unroll[to]++
			if f.unroll[to] > 64 {
				e.fail(st, "unroll limit")
			}
		} else {
			if n := e.tripCount(st, from, to, body); n >= 0 && n <= 20 && (e.target == nil || !e.target.NoUnroll) {
				f.unroll[to] = 1
			} else {
				e.handleLoop(st, from, to, body)
				return false
			}
		}
	}
	e.setPhis(st, from, to)
	f.prev, f.blk = from, to
	return true
}

func (e *Exec) setPhis(st *State, from, to *ssa.BasicBlock) {
	f := st.top()
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var vals []Val
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(st, phi.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		f.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	f.idx = n
}

var loopInfos = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

// loopInfo computes natural loops (header -> set of blocks).
func loopInfo(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if r, ok := loopInfos[fn]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := r[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					r[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	loopInfos[fn] = r
	return r
}

// tripCount returns the constant trip count of a counting loop, or -1.
func (e *Exec) tripCount(st *State, from, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) int64 {
	f := st.top()
	if len(h.Instrs) == 0 {
		return -1
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	k := -1
	for i, p := range h.Preds {
		if p == from {
			k = i
		}
	}
	constOf := func(v ssa.Value) *Term {
		switch v.(type) {
		case *ssa.Const:
		default:
			if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
				// len(x) of a loop-invariant x computed in the header
				if c, ok := v.(*ssa.Call); ok {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						a := c.Call.Args[0]
						if ai, ok := a.(ssa.Instruction); ok && body[ai.Block()] {
							return nil
						}
						if t, ok := f.env[a].(*Term); ok && t.Sort == SSlc && isInt(SLen(t)) {
							return SLen(t)
						}
					}
				}
				return nil
			}
		}
		if _, isC := v.(*ssa.Const); !isC {
			if _, ok := f.env[v]; !ok {
				return nil
			}
		}
		t, ok := e.val(st, v).(*Term)
		if !ok || !isInt(t) {
			return nil
		}
		return t
	}
	// strip i+1
	strip := func(v ssa.Value) (*ssa.Phi, int64) {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			return p, 0
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if p, ok := b.X.(*ssa.Phi); ok && p.Block() == h {
				if c, ok := b.Y.(*ssa.Const); ok {
					if b.Op == token.SUB {
						return p, -c.Int64()
					}
					return p, c.Int64()
				}
			}
		}
		return nil, 0
	}
	phi, d := strip(cond.X)
	if phi == nil {
		return -1
	}
	bound := constOf(cond.Y)
	if bound == nil {
		return -1
	}
	init := constOf(phi.Edges[k])
	if init == nil {
		return -1
	}
	step := int64(0)
	for i, ed := range phi.Edges {
		if i == k {
			continue
		}
		if !body[h.Preds[i]] {
			continue
		}
		p2, s := strip(ed)
		if p2 != phi || s == 0 || (step != 0 && s != step) {
			return -1
		}
		step = s
	}
	if step == 0 || !init.K.IsInt64() || !bound.K.IsInt64() {
		return -1
	}
	n := int64(0)
	i := init.i64()
	for n <= 64 {
		x := i + d
		var c bool
		switch cond.Op {
		case token.LSS:
			c = x < bound.i64()
		case token.LEQ:
			c = x <= bound.i64()
		case token.GTR:
			c = x > bound.i64()
		case token.GEQ:
			c = x >= bound.i64()
		case token.NEQ:
			c = x != bound.i64()
		default:
			return -1
		}
		if !body[h.Succs[0]] {
			c = !c
		}
		if !c {
			return n
		}
		n++
		i += step
	}
	return 1000
}

// feasible prunes paths whose condition is contradictory.
func (e *Exec) feasible(st *State) bool { return !e.q.prove(st.pc, False) }

func (e *Exec) branch(st *State, c *Term, t, f *ssa.BasicBlock) bool {
	if c == True {
		return e.jump(st, t)
	}
	if c == False {
		return e.jump(st, f)
	}
	if e.q.prove(st.pc, c) {
		st.assume(c)
		return e.jump(st, t)
	}
	if e.q.prove(st.pc, Not(c)) {
		st.assume(Not(c))
		return e.jump(st, f)
	}
	j := e.joinFor(st, []*ssa.BasicBlock{t, f})
	if j != nil {
		st.joins = append(st.joins, j)
	}
	s2 := st.clone()
	s2.assume(Not(c))
	s1 := st.clone()
	s1.assume(c)
	if e.jump(s1, t) {
		e.run(s1)
	}
	if e.jump(s2, f) {
		e.run(s2)
	}
	if j != nil {
		e.resume(j)
	}
	return false
}

// fork explores several continuations of the current instruction.
func (e *Exec) setVal(st *State, v ssa.Value, x Val) {
	if v != nil {
		st.top().env[v] = x
	}
}

func (e *Exec) doReturn(st *State, res []Val) bool {
	f := st.top()
	// leaving loops of this frame
	for len(st.loops) > f.loopLen {
		if st.loops[len(st.loops)-1].discard {
			return false
		}
		st.loops = st.loops[:len(st.loops)-1]
	}
	if f.onRet != nil {
		f.onRet(st, res)
		return false
	}
	st.frames = st.frames[:len(st.frames)-1]
	for n := len(st.joins); n > 0 && st.joins[n-1].depth > len(st.frames); n-- {
		st.joins = st.joins[:n-1]
	}
	if f.call != nil {
		var v Val
		if len(res) == 1 {
			v = res[0]
		} else {
			v = TupleV(res)
		}
		st.top().env[f.call] = v
	}
	return true
}

func (e *Exec) step(st *State, in ssa.Instruction) bool {
	f := st.top()
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok {
			if constIndexed(x, at) {
				var cs []int
				for i := int64(0); i < at.Len(); i++ {
					cs = append(cs, e.newCell(st, at.Elem(), e.zero(at.Elem())).cell)
				}
				f.env[x] = &AddrV{kind: "cells", typ: t, cells: cs}
				return true
			}
			r := e.alloc(st)
			z := e.zeroTerm(at.Elem())
			h := elemHeapInfo(at.Elem())
			st.heaps[h.key] = Store(e.heap(st, h), r, ConstArr(arrSort(z.Sort), z))
			f.env[x] = &AddrV{kind: "array", typ: t, ref: r}
			return true
		}
		f.env[x] = e.newCell(st, t, e.zero(t))
		if objSize(t) > 1 {
			f.env[x] = e.promote(st, f.env[x].(*AddrV))
		}
	case *ssa.Store:
		a := e.addr(st, e.val(st, x.Addr), x.Addr.Type(), in)
		v := e.val(st, x.Val)
		e.store(st, a, v, in)
	case *ssa.UnOp:
		return e.unop(st, x)
	case *ssa.BinOp:
		f.env[x] = e.binop(st, x.Op, e.val(st, x.X), e.val(st, x.Y), x.X.Type(), x.Type(), in)
	case *ssa.FieldAddr:
		a := e.addr(st, e.val(st, x.X), x.X.Type(), in)
		f.env[x] = e.fieldAddr(st, a, x.Field)
	case *ssa.Field:
		t := e.tval(st, x.X)
		v := SelD(t, x.Field)
		e.factOnLoad(st, v, x.Type())
		f.env[x] = e.wrap(v, x.Type())
	case *ssa.IndexAddr:
		i := e.tval(st, x.Index)
		switch xt := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := e.tval(st, x.X)
			e.oblige(st, "index-in-range", And(Le(Zero, i), Lt(i, SLen(s))), e.where(in))
			f.env[x] = &AddrV{kind: "elem", typ: xt.Elem(), ref: SRef(s), idx: Add(SOff(s), i), off: SOff(s)}
		case *types.Pointer:
			at := xt.Elem().Underlying().(*types.Array)
			a := e.addr(st, e.val(st, x.X), x.X.Type(), in)
			e.oblige(st, "index-in-range", And(Le(Zero, i), Lt(i, Int(at.Len()))), e.where(in))
			if a.kind == "cells" {
				f.env[x] = &AddrV{kind: "cell", cell: a.cells[x.Index.(*ssa.Const).Int64()], typ: at.Elem()}
				return true
			}
			if a.kind != "array" {
				e.fail(st, "index address into %s", a.kind)
			}
			f.env[x] = &AddrV{kind: "elem", typ: at.Elem(), ref: a.ref, idx: i, off: Zero}
		default:
			e.fail(st, "IndexAddr %s", x.X.Type())
		}
	case *ssa.Index:
		i := e.tval(st, x.Index)
		switch xt := x.X.Type().Underlying().(type) {
		case *types.Array:
			e.oblige(st, "index-in-range", And(Le(Zero, i), Lt(i, Int(xt.Len()))), e.where(in))
			v := e.val(st, x.X)
			if av, ok := v.(*ArrV); ok {
				f.env[x] = e.wrap(e.selIdx(st, av.arr, Add(av.off, i)), x.Type())
			} else {
				f.env[x] = e.wrap(Select(v.(*Term), i), x.Type())
			}
		default: // string
			s := e.tval(st, x.X)
			declFunc("strlen", SInt, SStr)
			declFunc("strat", SInt, SStr, SInt)
			e.oblige(st, "index-in-range", And(Le(Zero, i), Lt(i, e.strlen(st, s))), e.where(in))
			v := App("strat", SInt, s, i)
			st.assume(And(Le(Zero, v), Le(v, Int(255))))
			f.env[x] = v
		}
	case *ssa.Slice:
		f.env[x] = e.sliceOp(st, x)
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		tv, ok := t.(TupleV)
		if !ok {
			e.fail(st, "extract from %T", t)
		}
		f.env[x] = tv[x.Index]
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, e.val(st, b))
		}
		f.env[x] = fv
	case *ssa.MakeInterface:
		v := e.val(st, x.X)
		f.env[x] = &IfaceV{x.X.Type(), v}
	case *ssa.ChangeInterface:
		f.env[x] = e.val(st, x.X)
	case *ssa.ChangeType:
		f.env[x] = e.changeType(st, e.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.Convert:
		f.env[x] = e.convert(st, e.val(st, x.X), x.X.Type(), x.Type(), in)
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		n, c := e.tval(st, x.Len), e.tval(st, x.Cap)
		e.oblige(st, "makeslice-size", And(Le(Zero, n), Le(n, c), Le(c, pow2(44, false))), e.where(in))
		st.assume(Le(c, pow2(40, false))) // memory exhaustion is not modelled
		r := e.alloc(st)
		z := e.zeroTerm(el)
		h := elemHeapInfo(el)
		st.heaps[h.key] = Store(e.heap(st, h), r, ConstArr(arrSort(z.Sort), z))
		f.env[x] = MkSlc(r, Zero, n, c)
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		r := e.alloc(st)
		d, v, l := mapInfos(m)
		ks := keySort(elemSort(d.sort))
		st.heaps[d.key] = Store(e.heap(st, d), r, ConstArr("(Array "+ks+" Bool)", False))
		z := e.zeroTerm(m.Elem())
		st.heaps[v.key] = Store(e.heap(st, v), r, ConstArr("(Array "+ks+" "+z.Sort+")", z))
		st.heaps[l.key] = Store(e.heap(st, l), r, Zero)
		f.env[x] = r
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		r := e.tval(st, x.Map)
		e.oblige(st, "nil-map-write", Not(Eq(r, Zero)), e.where(in))
		e.mapUpdate(st, m, r, e.tval(st, x.Key), e.tval(st, x.Value))
	case *ssa.Lookup:
		e.lookup(st, x)
	case *ssa.Range:
		e.rangeStart(st, x)
	case *ssa.Next:
		return e.next(st, x)
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.Call:
		return e.call(st, &x.Call, x, in)
	case *ssa.Defer:
		fv, args := e.callee(st, &x.Call)
		f.defers = append(f.defers, deferred{fv, args, x})
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.idx-- // come back here
			return e.apply(st, &d.call.Call, d.fn, d.args, nil, in)
		}
	case *ssa.Jump:
		return e.jump(st, f.blk.Succs[0])
	case *ssa.If:
		return e.branch(st, e.tval(st, x.Cond), f.blk.Succs[0], f.blk.Succs[1])
	case *ssa.Return:
		var res []Val
		for _, r := range x.Results {
			res = append(res, e.val(st, r))
		}
		return e.doReturn(st, res)
	case *ssa.Panic:
		if e.target != nil && e.target.mayPanic != nil && len(st.frames) == 1 {
			e.oblige(st, "panic-only-when-documented", e.target.evalOld(e, e.target.mayPanic), e.where(in))
			return false
		}
		e.oblige(st, "no-panic", False, e.where(in))
		return false
	default:
		e.fail(st, "instruction %T", in)
	}
	return true
}

func (e *Exec) changeType(st *State, v Val, from, to types.Type) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		return e.wrap(t, to)
	}
	// structurally identical named structs
	d := datatypes[fs]
	var args []*Term
	for i := range d.Fields {
		args = append(args, SelD(t, i))
	}
	return MkD(ts, args...)
}

func (e *Exec) unop(st *State, x *ssa.UnOp) bool {
	f := st.top()
	switch x.Op {
	case token.MUL:
		a := e.addr(st, e.val(st, x.X), x.X.Type(), x)
		f.env[x] = e.load(st, a, x)
	case token.NOT:
		f.env[x] = Not(e.tval(st, x.X))
	case token.SUB:
		t := e.tval(st, x.X)
		if t.Sort == SReal {
			f.env[x] = mk(&Term{Op: "op", Name: "-", Sort: SReal, Args: []*Term{t}})
		} else {
			f.env[x] = e.norm(st, Neg(t), x.Type())
		}
	case token.XOR:
		t := e.tval(st, x.X)
		_, hi, _, signed, _ := intRange(x.Type())
		if signed {
			f.env[x] = Sub(Int(-1), t)
		} else {
			f.env[x] = Sub(hi, t)
		}
	default:
		e.fail(st, "unop %s", x.Op)
	}
	return true
}

// norm wraps an exact integer result to the range of its type. When the path
// condition already implies the range, the exact term is kept.
func (e *Exec) norm(st *State, t *Term, typ types.Type) *Term {
	lo, hi, bits, signed, ok := intRange(typ)
	if !ok {
		return t
	}
	if isInt(t) {
		m := new(big.Int).Mod(t.K, new(big.Int).Lsh(b1, uint(bits)))
		if signed && m.Cmp(hi.K) > 0 {
			m.Sub(m, new(big.Int).Lsh(b1, uint(bits)))
		}
		return IntB(m)
	}
	if e.q.prove(st.pc, And(Le(lo, t), Le(t, hi))) {
		return t
	}
	w := Fresh("wrap", SInt)
	size := pow2(bits, false)
	inr := And(Le(lo, t), Le(t, hi))
	st.assume(Imp(inr, Eq(w, t)))
	if e.q.prove(st.pc, And(Le(Sub(lo, size), t), Le(t, Add(hi, size)))) {
		st.assume(Imp(Lt(hi, t), Eq(w, Sub(t, size))))
		st.assume(Imp(Lt(t, lo), Eq(w, Add(t, size))))
	} else if signed {
		half := pow2(bits-1, false)
		st.assume(Eq(w, Sub(ModF(Add(t, half), size), half)))
	} else {
		st.assume(Eq(w, ModF(t, size)))
	}
	st.assume(And(Le(lo, w), Le(w, hi)))
	return w
}

func pow2(n int, neg bool) *Term {
	k := new(big.Int).Lsh(b1, uint(n))
	if neg {
		k.Neg(k)
	}
	return IntB(k)
}

func isPow2(k *big.Int) (uint, bool) {
	if k.Sign() <= 0 {
		return 0, false
	}
	n := uint(k.BitLen() - 1)
	return n, new(big.Int).Lsh(b1, n).Cmp(k) == 0
}

func (e *Exec) binop(st *State, op token.Token, xv, yv Val, xt, rt types.Type, in ssa.Instruction) Val {
	switch op {
	case token.EQL, token.NEQ:
		r := e.equal(st, xv, yv, xt)
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	x, y := e.term(st, xv, xt), e.term(st, yv, xt)
	if x.Sort == SReal {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			n := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "/"}[op]
			if op == token.QUO {
				// division by zero yields Inf/NaN in Go: outside the real-number model
				e.assumed["floating point treated as real numbers"] = true
			}
			e.assumed["floating point treated as real numbers"] = true
			return mk(&Term{Op: "op", Name: n, Sort: SReal, Args: []*Term{x, y}})
		case token.LSS:
			return Not(Le(y, x))
		case token.LEQ:
			return Le(x, y)
		case token.GTR:
			return Not(Le(x, y))
		case token.GEQ:
			return Le(y, x)
		}
	}
	if x.Sort == SStr {
		switch op {
		case token.ADD:
			declFunc("strcat", SStr, SStr, SStr)
			return App("strcat", SStr, x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			declFunc("strlt", SBool, SStr, SStr)
			switch op {
			case token.LSS:
				return App("strlt", SBool, x, y)
			case token.GTR:
				return App("strlt", SBool, y, x)
			case token.LEQ:
				return Not(App("strlt", SBool, y, x))
			default:
				return Not(App("strlt", SBool, x, y))
			}
		}
	}
	switch op {
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	case token.ADD:
		return e.norm(st, Add(x, y), rt)
	case token.SUB:
		return e.norm(st, Sub(x, y), rt)
	case token.MUL:
		return e.norm(st, Mul(x, y), rt)
	case token.QUO, token.REM:
		e.oblige(st, "division-by-zero", Not(Eq(y, Zero)), e.where(in))
		if isInt(y) && y.K.Sign() > 0 {
			var q *Term
			if e.q.prove(st.pc, Le(Zero, x)) {
				q = DivF(x, y)
			} else {
				q = Ite(Le(Zero, x), DivF(x, y), Neg(DivF(Neg(x), y)))
			}
			if op == token.QUO {
				return q
			}
			if e.q.prove(st.pc, Le(Zero, x)) {
				return ModF(x, y)
			}
			return Ite(Le(Zero, x), ModF(x, y), Neg(ModF(Neg(x), y)))
		}
		n := "quo"
		if op == token.REM {
			n = "rem"
		}
		declFunc("go."+n, SInt, SInt, SInt)
		r := App("go."+n, SInt, x, y)
		return e.norm(st, r, rt)
	case token.SHL:
		e.oblige(st, "shift-count", Le(Zero, y), e.where(in))
		if isInt(y) && y.K.IsInt64() && y.i64() < 64 {
			return e.norm(st, MulB(new(big.Int).Lsh(b1, uint(y.i64())), x), rt)
		}
		_, _, bits, _, _ := intRange(rt)
		r := Zero
		for k := bits - 1; k >= 0; k-- {
			r = Ite(Eq(y, Int(int64(k))), MulB(new(big.Int).Lsh(b1, uint(k)), x), r)
		}
		return e.norm(st, r, rt)
	case token.SHR:
		e.oblige(st, "shift-count", Le(Zero, y), e.where(in))
		if isInt(y) && y.K.IsInt64() && y.i64() < 64 {
			return DivF(x, pow2(int(y.i64()), false))
		}
		_, _, bits, _, _ := intRange(rt)
		r := Ite(Le(Zero, x), Zero, Int(-1))
		for k := bits - 1; k >= 0; k-- {
			if e.q.prove(st.pc, Not(Eq(y, Int(int64(k))))) {
				continue
			}
			r = Ite(Eq(y, Int(int64(k))), DivF(x, pow2(k, false)), r)
		}
		return r
	case token.AND:
		return e.bitAnd(st, x, y, rt)
	case token.OR:
		return e.bitOr(st, x, y, rt)
	case token.XOR:
		return e.bitBV(st, "bvxor", x, y, rt)
	case token.AND_NOT:
		if isInt(y) {
			return Sub(x, e.bitAnd(st, x, y, rt))
		}
	}
	e.fail(st, "binop %s on %s", op, xt)
	return nil
}

func (e *Exec) bitAnd(st *State, x, y *Term, rt types.Type) *Term {
	if isInt(x) {
		x, y = y, x
	}
	if isInt(y) {
		if y.K.Sign() == 0 {
			return Zero
		}
		if _, ok := isPow2(new(big.Int).Add(y.K, b1)); ok && y.K.Sign() > 0 { // mask 2^n-1
			m := IntB(new(big.Int).Add(y.K, b1))
			if e.q.prove(st.pc, And(Le(Zero, x), Lt(x, m))) {
				return x
			}
			return ModF(x, m)
		}
		// general constant mask: sum of bits
		if y.K.Sign() > 0 {
			// contiguous mask: (x div 2^lo mod 2^w) * 2^lo
			lo := uint(0)
			for new(big.Int).Rsh(y.K, lo).Bit(0) == 0 {
				lo++
			}
			top := new(big.Int).Rsh(y.K, lo)
			if _, ok := isPow2(new(big.Int).Add(top, b1)); ok {
				return MulB(new(big.Int).Lsh(b1, lo), ModF(DivF(x, IntB(new(big.Int).Lsh(b1, lo))), IntB(new(big.Int).Add(top, b1))))
			}
		}
	}
	return e.bitBV(st, "bvand", x, y, rt)
}

func (e *Exec) bitOr(st *State, x, y *Term, rt types.Type) *Term {
	if isInt(x) && x.K.Sign() == 0 {
		return y
	}
	if isInt(y) && y.K.Sign() == 0 {
		return x
	}
	// disjoint bits: one operand a multiple of 2^k, the other below 2^k
	for _, p := range [][2]*Term{{x, y}, {y, x}} {
		for k := 1; k < 32; k++ {
			m := pow2(k, false)
			if e.q.prove(st.pc, And(Eq(ModF(p[0], m), Zero), Le(Zero, p[0]))) {
				if e.q.prove(st.pc, And(Le(Zero, p[1]), Lt(p[1], m))) {
					return Add(x, y)
				}
			} else {
				break
			}
		}
	}
	r := e.bitBV(st, "bvor", x, y, rt)
	if _, _, bits, _, ok := intRange(rt); ok && bits == 8 && r.Op == "app" {
		for k := 1; k < 8; k++ {
			m := pow2(k, false)
			for _, p := range [][2]*Term{{x, y}, {y, x}} {
				st.assume(Imp(And(Eq(ModF(p[0], m), Zero), Le(Zero, p[0]), Le(Zero, p[1]), Lt(p[1], m)), Eq(r, Add(x, y))))
			}
		}
	}
	return r
}

func (e *Exec) bitBV(st *State, op string, x, y *Term, rt types.Type) *Term {
	_, _, bits, signed, ok := intRange(rt)
	if !ok {
		e.fail(st, "bit operation on %s", rt)
	}
	n := fmt.Sprintf("go.%s%d", op, bits)
	declFunc(n, SInt, SInt, SInt)
	r := App(n, SInt, x, y)
	lo, hi, _, _, _ := intRange(rt)
	st.assume(And(Le(lo, r), Le(r, hi)))
	_ = signed
	if isInt(x) && isInt(y) && x.K.Sign() >= 0 && y.K.Sign() >= 0 {
		z := new(big.Int)
		switch op {
		case "bvand":
			z.And(x.K, y.K)
		case "bvor":
			z.Or(x.K, y.K)
		case "bvxor":
			z.Xor(x.K, y.K)
		}
		return IntB(z)
	}
	return r
}

// equal implements Go's == on values.
func (e *Exec) equal(st *State, xv, yv Val, t types.Type) *Term {
	isNilTerm := func(v Val) bool {
		tt, ok := v.(*Term)
		if !ok {
			return false
		}
		switch tt.Sort {
		case SSlc:
			return tt == NilSlc
		case SIfc:
			return tt.Op == "mk" && tt.Args[0] == Zero
		case SInt:
			return tt == Zero
		}
		return false
	}
	switch t.Underlying().(type) {
	case *types.Interface:
		xi, xok := xv.(*IfaceV)
		yi, yok := yv.(*IfaceV)
		if xok && isNilTerm(yv) || yok && isNilTerm(xv) {
			return False
		}
		if xok && yok {
			if !types.Identical(xi.t, yi.t) {
				return False
			}
			return e.equal(st, xi.v, yi.v, xi.t)
		}
		if isNilTerm(yv) {
			return Eq(SelD(e.term(st, xv, t), 0), Zero)
		}
		if isNilTerm(xv) {
			return Eq(SelD(e.term(st, yv, t), 0), Zero)
		}
		if !xok && !yok {
			return Eq(xv.(*Term), yv.(*Term))
		}
		if yok {
			xv, yv = yv, xv
			xi = yi
		}
		yt := yv.(*Term)
		return And(Eq(SelD(yt, 0), typeTag(xi.t)), Eq(e.unbox(SelD(yt, 1), xi.t), e.term(st, xi.v, xi.t)))
	case *types.Slice:
		if isNilTerm(yv) {
			return Eq(SRef(xv.(*Term)), Zero)
		}
		return Eq(SRef(yv.(*Term)), Zero)
	case *types.Signature:
		if _, ok := xv.(*FuncV); ok {
			return False
		}
		if _, ok := yv.(*FuncV); ok {
			return False
		}
	case *types.Pointer:
		ax, xok := xv.(*AddrV)
		ay, yok := yv.(*AddrV)
		if xok && isNilTerm(yv) || yok && isNilTerm(xv) {
			return False
		}
		if xok && yok && ax.kind == "cell" && ay.kind == "cell" {
			return Bool(ax.cell == ay.cell)
		}
		if xok && yok && ax.kind == "glob" && ay.kind == "glob" {
			return Bool(ax.glob == ay.glob)
		}
	}
	return Eq(e.term(st, xv, t), e.term(st, yv, t))
}

func (e *Exec) convert(st *State, v Val, from, to types.Type, in ssa.Instruction) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if fb != nil && tb != nil {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return e.norm(st, v.(*Term), to)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			e.assumed["floating point treated as real numbers"] = true
			return mk(&Term{Op: "op", Name: "to_real", Sort: SReal, Args: []*Term{v.(*Term)}})
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			e.assumed["floating point treated as real numbers"] = true
			x := v.(*Term)
			floor := func(x *Term) *Term { return mk(&Term{Op: "op", Name: "to_int", Sort: SInt, Args: []*Term{x}}) }
			neg := mk(&Term{Op: "op", Name: "-", Sort: SReal, Args: []*Term{x}})
			r := Ite(Le(RatLit(new(big.Rat)), x), floor(x), Sub(Zero, floor(neg))) // truncation towards zero
			return e.norm(st, r, to)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return v
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			s := v.(*Term)
			b, _ := sl.Elem().Underlying().(*types.Basic)
			r := e.alloc(st)
			h := elemHeapInfo(sl.Elem())
			if b.Kind() == types.Int32 {
				n := e.nrunes(st, s)
				arr := e.runesArr(st, s)
				st.heaps[h.key] = Store(e.heap(st, h), r, arr)
				c := Fresh("cap", SInt)
				st.assume(And(Le(n, c), Le(c, pow2(40, false))))
				return MkSlc(r, Zero, n, c)
			}
			arr := Fresh("bytes", arrSort(SInt))
			n := e.strlen(st, s)
			st.heaps[h.key] = Store(e.heap(st, h), r, arr)
			c := Fresh("cap", SInt)
			st.assume(And(Le(n, c), Le(c, pow2(40, false))))
			return MkSlc(r, Zero, n, c)
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			s := v.(*Term)
			arr := e.elems(st, sl.Elem(), SRef(s))
			b, _ := sl.Elem().Underlying().(*types.Basic)
			n := "str_of_runes"
			if b.Kind() != types.Int32 {
				n = "str_of_bytes"
			}
			declFunc(n, SStr, arrSort(SInt), SInt, SInt)
			return App(n, SStr, arr, SOff(s), SLen(s))
		}
		declFunc("str_of_rune", SStr, SInt)
		return App("str_of_rune", SStr, v.(*Term))
	}
	if _, ok := v.(*Term); ok && sortOf(from) == sortOf(to) {
		return v
	}
	e.fail(st, "convert %s to %s", from, to)
	return nil
}

func (e *Exec) strlen(st *State, s *Term) *Term {
	if l, ok := litOf[s]; ok {
		return Int(int64(len(l)))
	}
	declFunc("strlen", SInt, SStr)
	t := App("strlen", SInt, s)
	st.assume(And(Le(Zero, t), Le(t, pow2(40, false))))
	return t
}
func (e *Exec) nrunes(st *State, s *Term) *Term {
	declFunc("nrunes", SInt, SStr)
	if l, ok := litOf[s]; ok {
		return Int(int64(len([]rune(l))))
	}
	t := App("nrunes", SInt, s)
	st.assume(And(Le(Zero, t), Le(t, pow2(40, false)), Le(t, e.strlen(st, s))))
	return t
}

// runesArr is the array of runes of a string.
func (e *Exec) runesArr(st *State, s *Term) *Term {
	declFunc("runes_of", arrSort(SInt), SStr)
	if l, ok := litOf[s]; ok {
		a := ConstArr(arrSort(SInt), Zero)
		for i, r := range []rune(l) {
			a = Store(a, Int(int64(i)), Int(int64(r)))
		}
		return a
	}
	return App("runes_of", arrSort(SInt), s)
}

func (e *Exec) sliceOp(st *State, x *ssa.Slice) Val {
	var lo, hi, max *Term
	if x.Low != nil {
		lo = e.tval(st, x.Low)
	} else {
		lo = Zero
	}
	if x.High != nil {
		hi = e.tval(st, x.High)
	}
	if x.Max != nil {
		max = e.tval(st, x.Max)
	}
	w := e.where(x)
	switch xt := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := e.tval(st, x.X)
		if hi == nil {
			hi = SLen(s)
		}
		cp := SCap(s)
		if max != nil {
			e.oblige(st, "slice-in-range", And(Le(hi, max), Le(max, cp)), w)
			cp = max
		}
		e.oblige(st, "slice-in-range", And(Le(Zero, lo), Le(lo, hi), Le(hi, cp)), w)
		ref := SRef(s)
		off := Add(SOff(s), lo)
		return MkSlc(ref, off, Sub(hi, lo), Sub(cp, lo))
	case *types.Pointer:
		at := xt.Elem().Underlying().(*types.Array)
		a := e.addr(st, e.val(st, x.X), x.X.Type(), x)
		if a.kind != "array" {
			e.fail(st, "slicing %s", a.kind)
		}
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		cp := n
		if max != nil {
			e.oblige(st, "slice-in-range", And(Le(hi, max), Le(max, cp)), w)
			cp = max
		}
		e.oblige(st, "slice-in-range", And(Le(Zero, lo), Le(lo, hi), Le(hi, cp)), w)
		return MkSlc(a.ref, lo, Sub(hi, lo), Sub(cp, lo))
	case *types.Basic:
		s := e.tval(st, x.X)
		if hi == nil {
			hi = e.strlen(st, s)
		}
		e.oblige(st, "slice-in-range", And(Le(Zero, lo), Le(lo, hi), Le(hi, e.strlen(st, s))), w)
		declFunc("substr", SStr, SStr, SInt, SInt)
		return App("substr", SStr, s, lo, hi)
	}
	e.fail(st, "slice of %s", x.X.Type())
	return nil
}

func (e *Exec) mapUpdate(st *State, m *types.Map, r, k, v *Term) {
	d, vv, l := mapInfos(m)
	dom := e.selHeap(st, e.heap(st, d), r)
	ln := e.selHeap(st, e.heap(st, l), r)
	had := Select(dom, k)
	e.setHeap(st, vv, r, Store(e.selHeap(st, e.heap(st, vv), r), k, v))
	e.setHeap(st, d, r, Store(dom, k, True))
	nl := Add(ln, Ite(had, Zero, One))
	e.setHeap(st, l, r, nl)
}

func (e *Exec) mapGet(st *State, m *types.Map, r, k *Term) (*Term, *Term) {
	d, vv, _ := mapInfos(m)
	has := And(Not(Eq(r, Zero)), Select(e.selHeap(st, e.heap(st, d), r), k))
	v := Select(e.selHeap(st, e.heap(st, vv), r), k)
	return Ite(has, v, e.zeroTerm(m.Elem())), has
}

func (e *Exec) lookup(st *State, x *ssa.Lookup) {
	f := st.top()
	m, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		s := e.tval(st, x.X)
		i := e.tval(st, x.Index)
		declFunc("strat", SInt, SStr, SInt)
		e.oblige(st, "index-in-range", And(Le(Zero, i), Lt(i, e.strlen(st, s))), e.where(x))
		v := App("strat", SInt, s, i)
		st.assume(And(Le(Zero, v), Le(v, Int(255))))
		f.env[x] = v
		return
	}
	r := e.tval(st, x.X)
	k := e.tval(st, x.Index)
	v, has := e.mapGet(st, m, r, k)
	// name the value: keeps ite out of later terms
	nv := v
	if v.Op == "ite" {
		nv = Fresh("mapval", v.Sort)
		st.assume(Imp(has, Eq(nv, v.Args[1])))
		st.assume(Imp(Not(has), Eq(nv, v.Args[2])))
		st.assume(typeFact(nv, m.Elem(), st.next))
	}
	if x.CommaOk {
		f.env[x] = TupleV{e.wrap(nv, m.Elem()), has}
	} else {
		f.env[x] = e.wrap(nv, m.Elem())
	}
}

func (e *Exec) rangeStart(st *State, x *ssa.Range) {
	f := st.top()
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := e.tval(st, x.X)
		c := e.newCell(st, types.Typ[types.Int], Zero)
		f.env[x] = &IterV{kind: "string", str: s, cell: c.cell}
	case *types.Map:
		e.assumed["map iteration order (arbitrary order modelled)"] = true
		f.env[x] = &IterV{kind: "map", m: e.tval(st, x.X), mt: t}
	}
}

func (e *Exec) next(st *State, x *ssa.Next) bool {
	f := st.top()
	it := e.val(st, x.Iter).(*IterV)
	if it.kind == "string" {
		k := st.cells[it.cell].(*Term)
		n := e.nrunes(st, it.str)
		ok := Lt(k, n)
		arr := e.runesArr(st, it.str)
		r := Select(arr, k)
		st.assume(typeFact(r, types.Typ[types.Int32], st.next))
		declFunc("byteoff", SInt, SStr, SInt)
		bo := App("byteoff", SInt, it.str, k)
		st.assume(And(Le(Zero, bo), Le(k, bo), Le(bo, e.strlen(st, it.str))))
		st.cells[it.cell] = Ite(ok, Add(k, One), k)
		// split eagerly to keep the counter simple
		if e.q.prove(st.pc, ok) {
			st.cells[it.cell] = Add(k, One)
			f.env[x] = TupleV{True, bo, r}
			return true
		}
		s2 := st.clone()
		s2.assume(Not(ok))
		s2.cells[it.cell] = k
		s2.top().env[x] = TupleV{False, Zero, Zero}
		st.assume(ok)
		st.cells[it.cell] = Add(k, One)
		f.env[x] = TupleV{True, bo, r}
		e.run(st)
		if e.feasible(s2) {
			e.run(s2)
		}
		return false
	}
	ok := Fresh("rangeok", SBool)
	k := Fresh("rangekey", sortOf(it.mt.Key()))
	v, has := e.mapGet(st, it.mt, it.m, k)
	st.assume(Imp(ok, has))
	st.assume(typeFact(k, it.mt.Key(), st.next))
	f.env[x] = TupleV{ok, e.wrap(k, it.mt.Key()), e.wrap(v, it.mt.Elem())}
	return true
}

func (e *Exec) typeAssert(st *State, x *ssa.TypeAssert) bool {
	f := st.top()
	v := e.val(st, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	if iv, ok := v.(*IfaceV); ok {
		var match bool
		if toIface {
			match = types.Implements(iv.t, x.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(iv.t, x.AssertedType)
		}
		var r Val = iv.v
		if toIface {
			r = iv
		}
		if !match {
			r = e.zero(x.AssertedType)
		}
		if x.CommaOk {
			f.env[x] = TupleV{r, Bool(match)}
			return true
		}
		if !match {
			e.oblige(st, "type-assertion", False, e.where(x))
			return false
		}
		f.env[x] = r
		return true
	}
	t := v.(*Term)
	if toIface {
		// unknown dynamic type: may or may not implement the interface
		ok := Fresh("implements", SBool)
		st.assume(Imp(Eq(SelD(t, 0), Zero), Not(ok)))
		if x.CommaOk {
			s2 := st.clone()
			s2.assume(Not(ok))
			s2.top().env[x] = TupleV{e.zero(x.AssertedType), False}
			st.assume(ok)
			f.env[x] = TupleV{t, True}
			e.run(st)
			e.run(s2)
			return false
		}
		e.oblige(st, "type-assertion", Not(Eq(SelD(t, 0), Zero)), e.where(x))
		e.assumed["a value asserted to be a "+typeKey(x.AssertedType)+" is one, unless nil"] = true
		f.env[x] = t
		return true
	}
	match := Eq(SelD(t, 0), typeTag(x.AssertedType))
	u := e.unbox(SelD(t, 1), x.AssertedType)
	if x.CommaOk {
		s2 := st.clone()
		s2.assume(Not(match))
		s2.top().env[x] = TupleV{e.zero(x.AssertedType), False}
		st.assume(match)
		e.factOnLoad(st, u, x.AssertedType)
		f.env[x] = TupleV{e.wrap(u, x.AssertedType), True}
		if e.feasible(s2) {
			e.run(s2)
		}
		if e.feasible(st) {
			e.run(st)
		}
		return false
	}
	e.oblige(st, "type-assertion", match, e.where(x))
	e.factOnLoad(st, u, x.AssertedType)
	f.env[x] = e.wrap(u, x.AssertedType)
	return true
}

// constIndexed: a small local array whose elements are only read and written at
// constant indices, so that each element can be treated as a variable.
func constIndexed(x *ssa.Alloc, at *types.Array) bool {
	if x.Heap || at.Len() > 16 {
		return false
	}
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			c, ok := u.Index.(*ssa.Const)
			if !ok || c.Int64() < 0 || c.Int64() >= at.Len() {
				return false
			}
			for _, q := range *u.Referrers() {
				switch w := q.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
				case *ssa.Store:
					if w.Addr != u {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
