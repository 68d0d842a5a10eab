package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// InvokeV is a method of an interface value of unknown dynamic type.
type InvokeV struct {
	recv *Term
	m    *types.Func
	typ  types.Type
}

func (e *Exec) callee(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	if !c.IsInvoke() {
		return e.val(st, c.Value), args
	}
	recv := e.val(st, c.Value)
	if iv, ok := recv.(*IfaceV); ok {
		fn := e.p.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			e.fail(st, "no method %s on %s", c.Method.Name(), iv.t)
		}
		return &FuncV{fn: fn}, append([]Val{iv.v}, args...)
	}
	t, ok := recv.(*Term)
	if !ok {
		e.fail(st, "invoke on %T", recv)
	}
	if d := e.p.soleImpl(c.Value.Type()); d != nil {
		e.assumed["closed world: every "+typeKey(c.Value.Type())+" is a "+typeKey(d)+" (the only type converted to it in the module; the interface is internal)"] = true
		e.oblige(st, "nil-dereference", Not(Eq(SelD(t, 0), Zero)), "call of "+c.Method.Name())
		st.assume(Eq(SelD(t, 0), typeTag(d)))
		u := e.unbox(SelD(t, 1), d)
		e.factOnLoad(st, u, d)
		if fn := e.p.prog.LookupMethod(d, c.Method.Pkg(), c.Method.Name()); fn != nil {
			return &FuncV{fn: fn}, append([]Val{e.wrap(u, d)}, args...)
		}
	}
	return &InvokeV{t, c.Method, c.Value.Type()}, args
}

func (e *Exec) call(st *State, c *ssa.CallCommon, dst ssa.Value, in ssa.Instruction) bool {
	fv, args := e.callee(st, c)
	return e.apply(st, c, fv, args, dst, in)
}

func (e *Exec) apply(st *State, c *ssa.CallCommon, fv Val, args []Val, dst ssa.Value, in ssa.Instruction) bool {
	switch f := fv.(type) {
	case *ssa.Builtin:
		return e.builtin(st, f, c, args, dst, in)
	case *FuncV:
		return e.callFunc(st, f, args, dst, in)
	case *SymFunc:
		return e.callSym(st, f, args, dst, in)
	case *InvokeV:
		return e.invoke(st, f, args, dst, in)
	case *Term:
		if cl, ok := e.closures()[f]; ok {
			return e.callFunc(st, cl, args, dst, in)
		}
	}
	e.fail(st, "call of %T", fv)
	return false
}

// callSym calls an unknown function value: deterministic, without side
// effects other than through a pointer to a struct handed to it.
func (e *Exec) callSym(st *State, f *SymFunc, args []Val, dst ssa.Value, in ssa.Instruction) bool {
	if cl, ok := e.closures()[f.t]; ok {
		return e.callFunc(st, cl, args, dst, in)
	}
	e.oblige(st, "nil-function", Not(Eq(f.t, Zero)), e.where(in))
	if f.sig.Results().Len() == 0 && f.sig.Params().Len() == 1 {
		if pt, ok := f.sig.Params().At(0).Type().Underlying().(*types.Pointer); ok {
			// option: transforms the struct it is given
			e.assumed["function values of type "+typeKey(f.sig)+" only write through their argument"] = true
			a := e.addr(st, args[0], f.sig.Params().At(0).Type(), in)
			old := e.term(st, e.load(st, a, in), pt.Elem())
			nv := applyOpt(f.t, old)
			e.store(st, a, nv, in)
			return true
		}
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, e.term(st, a, f.sig.Params().At(i).Type()))
	}
	e.assumed["function values of type "+typeKey(f.sig)+" are deterministic and free of side effects"] = true
	var res []Val
	for i := 0; i < f.sig.Results().Len(); i++ {
		rt := f.sig.Results().At(i).Type()
		t := symApp(f.t, f.sig, i, ts)
		st.assume(typeFact(t, rt, st.next))
		res = append(res, e.wrap(t, rt))
	}
	e.ret(st, dst, res)
	return true
}

func applyOpt(f, old *Term) *Term {
	n := "applyopt<" + old.Sort + ">"
	declFunc(n, old.Sort, SInt, old.Sort)
	return App(n, old.Sort, f, old)
}

func symApp(f *Term, sig *types.Signature, i int, ts []*Term) *Term {
	n := fmt.Sprintf("call%d<%s>", i, typeKey(sig))
	s := sortOf(sig.Results().At(i).Type())
	as := []string{SInt}
	for _, t := range ts {
		as = append(as, t.Sort)
	}
	declFunc(n, s, as...)
	return App(n, s, append([]*Term{f}, ts...)...)
}

func (e *Exec) ret(st *State, dst ssa.Value, res []Val) {
	if dst == nil {
		return
	}
	if len(res) == 1 {
		e.setVal(st, dst, res[0])
	} else {
		e.setVal(st, dst, TupleV(res))
	}
}

func fnName(f *ssa.Function) string {
	if f.Origin() != nil {
		return f.Origin().String()
	}
	return f.String()
}

func (e *Exec) callFunc(st *State, f *FuncV, args []Val, dst ssa.Value, in ssa.Instruction) bool {
	fn := f.fn
	name := fnName(fn)
	if h, ok := externs[name]; ok {
		return h(e, st, fn, args, dst, in)
	}
	if con := e.cs.get(fn); con != nil && !e.forceInline[con.Name] && !con.Inline {
		return e.applyContract(st, con, fn, args, dst, in)
	}
	if up, ok := pureUnicode[name]; ok {
		_ = up
		x := e.term(st, args[0], types.Typ[types.Int32])
		e.ret(st, dst, []Val{unicodeApp(st, name, x)})
		return true
	}
	if fn.Blocks != nil && (e.p.inRepo(fn.Pkg) || inlineStd(fn)) {
		if e.quiet == 0 {
			e.inlined[name] = true
		}
		e.pushFrame(st, fn, args, f.bind, dst)
		return true
	}
	return e.pureExtern(st, fn, args, dst, in)
}

func inlineStd(fn *ssa.Function) bool {
	p := ""
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		p = fn.Object().Pkg().Path()
	} else if fn.Synthetic != "" {
		return true // wrappers, thunks, bound methods
	}
	switch p {
	case "unicode/utf8", "container/list", "errors":
		return true
	}
	return fn.Synthetic != "" && strings.HasPrefix(p, "github.com/fredbi")
}

// pureExtern models a library function on scalars and strings as an unknown
// function of its arguments.
func (e *Exec) pureExtern(st *State, fn *ssa.Function, args []Val, dst ssa.Value, in ssa.Instruction) bool {
	name := fnName(fn)
	if !pureExterns[name] {
		e.fail(st, "external function %s", name)
	}
	e.assumed["external function "+name+" is deterministic and free of side effects"] = true
	var ts []*Term
	var as []string
	for i, a := range args {
		t := e.term(st, a, fn.Params[i].Type())
		ts = append(ts, t)
		as = append(as, t.Sort)
	}
	var res []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rt := fn.Signature.Results().At(i).Type()
		s := sortOf(rt)
		n := fmt.Sprintf("ext%d:%s", i, name)
		declFunc(n, s, as...)
		t := App(n, s, ts...)
		st.assume(typeFact(t, rt, st.next))
		res = append(res, e.wrap(t, rt))
	}
	e.ret(st, dst, res)
	return true
}

var pureExterns = map[string]bool{
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.TrimSpace": true, "strings.Contains": true,
	"strings.TrimSuffix": true, "strings.TrimPrefix": true, "strings.ToLower": true, "strings.ReplaceAll": true,
	"strings.Index": true, "strings.EqualFold": true,
	"(golang.org/x/text/language.Tag).String": true,
	"math.Abs": true, "math.Pow": true, "math.Inf": true, "math.IsInf": true, "math.Floor": true, "math.Min": true, "math.Max": true,
}

type uniPred struct {
	b func(rune) bool
	r func(rune) rune
}

var pureUnicode = map[string]uniPred{
	"unicode.IsSpace":   {b: unicode.IsSpace},
	"unicode.IsPunct":   {b: unicode.IsPunct},
	"unicode.IsLetter":  {b: unicode.IsLetter},
	"unicode.IsDigit":   {b: unicode.IsDigit},
	"unicode.IsUpper":   {b: unicode.IsUpper},
	"unicode.IsLower":   {b: unicode.IsLower},
	"unicode.IsControl": {b: unicode.IsControl},
	"unicode.IsPrint":   {b: unicode.IsPrint},
	"unicode.IsGraphic": {b: unicode.IsGraphic},
	"unicode.IsNumber":  {b: unicode.IsNumber},
	"unicode.IsSymbol":  {b: unicode.IsSymbol},
	"unicode.IsMark":    {b: unicode.IsMark},
	"unicode.ToLower":   {r: unicode.ToLower},
	"unicode.ToUpper":   {r: unicode.ToUpper},
}

// unicodeApp is the (deterministic) library function; on literals it is
// evaluated with the library itself.
func unicodeApp(st *State, name string, x *Term) *Term {
	u := pureUnicode[name]
	if isInt(x) && x.K.IsInt64() {
		if u.b != nil {
			return Bool(u.b(rune(x.i64())))
		}
		return Int(int64(u.r(rune(x.i64()))))
	}
	if u.b != nil {
		declFunc(name, SBool, SInt)
		if ufAxioms[name] == nil {
			// facts on ASCII, read off the library
			var fs []*Term
			for r := rune(0); r < 128; r++ {
				t := App(name, SBool, Int(int64(r)))
				if u.b(r) {
					fs = append(fs, t)
				} else {
					fs = append(fs, Not(t))
				}
			}
			ufAxioms[name] = []*Term{And(fs...)}
		}
		return App(name, SBool, x)
	}
	declFunc(name, SInt, SInt)
	if ufAxioms[name] == nil {
		b := BV("r!u", SInt)
		t := App(name, SInt, b)
		lo, hi, _, _, _ := intRange(types.Typ[types.Int32])
		ax := []*Term{Forall([]*Term{b}, And(Le(lo, t), Le(t, hi)), []*Term{t})}
		ufAxioms[name] = ax
		for _, r := range []rune{'.', '-'} {
			ufAxioms[name] = append(ufAxioms[name], Eq(App(name, SInt, Int(int64(r))), Int(int64(u.r(r)))))
		}
	}
	return App(name, SInt, x)
}

// builtins ------------------------------------------------------------------------

func (e *Exec) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, dst ssa.Value, in ssa.Instruction) bool {
	at := func(i int) types.Type { return c.Args[i].Type() }
	switch b.Name() {
	case "len", "cap":
		e.setVal(st, dst, e.lenOf(st, args[0], at(0), b.Name() == "cap"))
	case "append":
		e.setVal(st, dst, e.appendOp(st, args, at(0), at(1)))
	case "copy":
		e.copyOp(st, args, at(0), at(1), dst)
	case "delete":
		m := at(0).Underlying().(*types.Map)
		r := e.term(st, args[0], at(0))
		k := e.term(st, args[1], at(1))
		e.mapDelete(st, m, r, k)
	case "min", "max":
		r := e.term(st, args[0], at(0))
		for i := 1; i < len(args); i++ {
			y := e.term(st, args[i], at(i))
			le := Le(r, y)
			if b.Name() == "max" {
				le = Le(y, r)
			}
			r = Ite(le, r, y)
		}
		e.setVal(st, dst, r)
	case "print", "println":
	case "ssa:wrapnilchk":
		e.setVal(st, dst, args[0])
	case "clear":
		m, ok := at(0).Underlying().(*types.Map)
		if !ok {
			e.fail(st, "clear of %s", at(0))
		}
		r := e.term(st, args[0], at(0))
		d, _, l := mapInfos(m)
		ks := keySort(elemSort(d.sort))
		e.setHeap(st, d, r, ConstArr("(Array "+ks+" Bool)", False))
		e.setHeap(st, l, r, Zero)
	default:
		e.fail(st, "builtin %s", b.Name())
	}
	return true
}

func (e *Exec) lenOf(st *State, v Val, t types.Type, capacity bool) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := e.term(st, v, t)
		if capacity {
			return SCap(s)
		}
		return SLen(s)
	case *types.Array:
		return Int(u.Len())
	case *types.Pointer:
		return Int(u.Elem().Underlying().(*types.Array).Len())
	case *types.Basic:
		return e.strlen(st, e.term(st, v, t))
	case *types.Map:
		d, _, l := mapInfos(u)
		r := e.term(st, v, t)
		n := e.selHeap(st, e.heap(st, l), r)
		st.assume(Le(Zero, n))
		// the length is the number of keys: no keys when it is zero
		dom := e.selHeap(st, e.heap(st, d), r)
		k := BV("k!m", keySort(dom.Sort))
		has := Select(dom, k)
		st.assume(Imp(Eq(n, Zero), Forall([]*Term{k}, Not(has), []*Term{has})))
		return Ite(Eq(r, Zero), Zero, n)
	}
	e.fail(st, "len of %s", t)
	return nil
}

func (e *Exec) mapDelete(st *State, m *types.Map, r, k *Term) {
	d, _, l := mapInfos(m)
	dom := e.selHeap(st, e.heap(st, d), r)
	ln := e.selHeap(st, e.heap(st, l), r)
	had := And(Not(Eq(r, Zero)), Select(dom, k))
	e.setHeap(st, d, r, Store(dom, k, False))
	e.setHeap(st, l, r, Sub(ln, Ite(had, One, Zero)))
	st.assume(Imp(had, Le(One, ln)))
}

// appendOp models append(s, src...). The new content is a fresh array; the
// reference is either the old one (capacity suffices) or a fresh one.
func (e *Exec) appendOp(st *State, args []Val, stp, srct types.Type) Val {
	el := stp.Underlying().(*types.Slice).Elem()
	h := elemHeapInfo(el)
	s := e.term(st, args[0], stp)
	var n *Term
	srcAt := func(j *Term) *Term { return nil }
	if b, ok := srct.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		str := e.term(st, args[1], srct)
		n = e.strlen(st, str)
		declFunc("strat", SInt, SStr, SInt)
		srcAt = func(j *Term) *Term { return App("strat", SInt, str, j) }
	} else {
		src := e.term(st, args[1], srct)
		n = SLen(src)
		sarr := e.selHeap(st, e.heap(st, h), SRef(src))
		soff := SOff(src)
		srcAt = func(j *Term) *Term { return e.selIdx(st, sarr, Add(soff, j)) }
	}
	if n == Zero {
		return s
	}
	off, ln := SOff(s), SLen(s)
	old := e.selHeap(st, e.heap(st, h), SRef(s))
	fits := Le(Add(ln, n), SCap(s))
	fresh := e.alloc(st)
	var ref *Term
	fitK := 0
	if e.q.prove(st.pc, fits) {
		fitK = 1
		ref = SRef(s)
	} else if e.q.prove(st.pc, Not(fits)) {
		fitK = 2
		ref = fresh
	} else {
		ref = Fresh("apref", SInt)
		st.assume(Imp(fits, Eq(ref, SRef(s))))
		st.assume(Imp(Not(fits), Eq(ref, fresh)))
		st.assume(Or(Eq(ref, SRef(s)), Eq(ref, fresh)))
	}
	// new content
	var na *Term
	if isInt(n) && n.K.IsInt64() && n.i64() <= 4 {
		na = Fresh("app", h.typArr())
		base := old
		if fitK != 1 {
			// a fresh array agrees with the old one on [off, off+len)
			base = Fresh("apb", h.typArr())
			j := BV("j!a", SInt)
			g := And(Le(off, j), Lt(j, Add(off, ln)))
			if fitK == 0 {
				g = Or(g, fits)
			}
			st.assume(Forall([]*Term{j}, Imp(g, Eq(Select(base, j), Select(old, j))), []*Term{Select(base, j)}))
			if fitK == 0 {
				st.assume(Imp(fits, Eq(base, old)))
			}
			foldFrame(st, h, base, old, off, Add(off, ln))
		}
		x := base
		for i := int64(0); i < n.i64(); i++ {
			x = Store(x, Add(off, ln, Int(i)), srcAt(Int(i)))
		}
		st.assume(Eq(na, x))
		for i := int64(0); i < n.i64(); i++ {
			st.assume(Eq(Select(na, Add(off, ln, Int(i))), srcAt(Int(i))))
		}
		foldFrame(st, h, na, old, off, Add(off, ln))
		for i := int64(0); i < n.i64(); i++ {
			foldSeed(st, h, na, off, Add(off, ln, Int(i)))
		}
	} else {
		na = Fresh("app", h.typArr())
		j := BV("j!a", SInt)
		g := And(Le(off, j), Lt(j, Add(off, ln)))
		st.assume(Forall([]*Term{j}, Imp(g, Eq(Select(na, j), Select(old, j))), []*Term{Select(na, j)}))
		src := srcAt(Sub(j, Add(off, ln)))
		st.assume(Forall([]*Term{j}, Imp(And(Le(Add(off, ln), j), Lt(j, Add(off, ln, n))), Eq(Select(na, j), src)), []*Term{Select(na, j)}))
		if fitK != 2 {
			out := Or(Lt(j, off), Le(Add(off, ln, n), j))
			st.assume(Forall([]*Term{j}, Imp(And(fits, out), Eq(Select(na, j), Select(old, j))), []*Term{Select(na, j)}))
		}
		foldFrame(st, h, na, old, off, Add(off, ln))
		if t := srcAt(Zero); t.Op == "select" {
			if sl, ok := args[1].(*Term); ok && sl.Sort == SSlc {
				foldShift(st, h, na, Add(off, ln), t.Args[0], SOff(sl), n)
			}
		}
	}
	if e.entry != nil && !(e.target != nil && e.target.modifiesHeap(e, st, h, ref)) {
		goal := Ge(ref, e.entryNext())
		if e.target != nil {
			for _, r := range e.target.modifiesRefs(e, st, h) {
				goal = Or(goal, Eq(ref, r))
			}
		}
		e.oblige(st, "frame:"+h.key, goal, "append writes to memory that existed before the call")
	}
	st.heaps[h.key] = Store(e.heap(st, h), ref, na)
	nl := Add(ln, n)
	var cp *Term
	if fitK == 1 {
		cp = SCap(s)
	} else {
		cp = Fresh("cap", SInt)
		st.assume(Imp(fits, Eq(cp, SCap(s))))
		st.assume(And(Le(nl, cp), Le(Add(cp, off), pow2(40, false))))
		e.assumed["slices never grow beyond 2^48 elements"] = true
	}
	return MkSlc(ref, off, nl, cp)
}

func (h *heapInfo) typArr() string { return elemSort(h.sort) }

func (e *Exec) copyOp(st *State, args []Val, dt, srct types.Type, dst ssa.Value) {
	el := dt.Underlying().(*types.Slice).Elem()
	h := elemHeapInfo(el)
	d := e.term(st, args[0], dt)
	if _, ok := srct.Underlying().(*types.Slice); !ok {
		e.fail(st, "copy from %s", srct)
	}
	s := e.term(st, args[1], srct)
	n := Fresh("copied", SInt)
	le := Le(SLen(d), SLen(s))
	st.assume(Imp(le, Eq(n, SLen(d))))
	st.assume(Imp(Not(le), Eq(n, SLen(s))))
	old := e.selHeap(st, e.heap(st, h), SRef(d))
	sarr := e.selHeap(st, e.heap(st, h), SRef(s))
	na := Fresh("cpy", h.typArr())
	j := BV("j!a", SInt)
	st.assume(Forall([]*Term{j}, Imp(And(Le(SOff(d), j), Lt(j, Add(SOff(d), n))),
		Eq(Select(na, j), Select(sarr, Add(SOff(s), Sub(j, SOff(d)))))), []*Term{Select(na, j)}))
	st.assume(Forall([]*Term{j}, Imp(Or(Lt(j, SOff(d)), Le(Add(SOff(d), n), j)), Eq(Select(na, j), Select(old, j))), []*Term{Select(na, j)}))
	foldShift(st, h, na, SOff(d), sarr, SOff(s), n)
	if e.q.prove(st.pc, Eq(n, Zero)) {
		e.setVal(st, dst, n)
		return
	}
	e.setHeap(st, h, SRef(d), na)
	e.setVal(st, dst, n)
}

// interface invocations -----------------------------------------------------------

func (e *Exec) invoke(st *State, f *InvokeV, args []Val, dst ssa.Value, in ssa.Instruction) bool {
	e.oblige(st, "nil-interface", Not(Eq(SelD(f.recv, 0), Zero)), e.where(in))
	sig := f.m.Type().(*types.Signature)
	key := f.m.Name()
	if isWriterMethod(f.m) {
		// ghost event: the argument as seen by the callee
		e.writeEvent(st, key, f.recv, args, sig)
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			t := Fresh("wr."+key, sortOf(rt))
			st.assume(typeFact(t, rt, st.next))
			res = append(res, e.wrap(t, rt))
		}
		if len(res) == 2 {
			e.ghostRes(st, res[0].(*Term), res[1].(*Term))
		}
		e.assumed["writers do not modify the data handed to them nor anything reachable by the function"] = true
		e.ret(st, dst, res)
		return true
	}
	mkey := typeKey(f.typ) + "." + key
	if k, ok := e.cs.eventMethods[mkey]; ok {
		e.methodEvent(st, k, f.recv, args, sig)
		e.assumed["interface method "+mkey+" has no effect but that on its argument (one event per call)"] = true
		e.ret(st, dst, nil)
		return true
	}
	if g, ok := e.cs.stateMethods[mkey]; ok {
		h := methodState(g, sig)
		e.assumed["interface methods that read or set "+g+" behave as a variable of the receiver, and do nothing else"] = true
		if len(args) == 1 { // setter
			st.heaps[h.key] = Store(e.heap(st, h), f.recv, e.term(st, args[0], sig.Params().At(0).Type()))
			e.ret(st, dst, nil)
			return true
		}
		t := Select(e.heap(st, h), f.recv)
		st.assume(typeFact(t, sig.Results().At(0).Type(), st.next))
		e.ret(st, dst, []Val{t})
		return true
	}
	if n, ok := f.typ.(*types.Named); ok && n.Obj().Name() == "Set" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "golang.org/x/text/runes" && key == "Contains" {
		e.assumed["runes.Set.Contains is a pure membership test; runes.In(t) contains the runes of t"] = true
		e.ret(st, dst, []Val{setContains(f.recv, e.term(st, args[0], types.Typ[types.Int32]))})
		return true
	}
	var ts []*Term
	as := []string{SIfc}
	ts = append(ts, f.recv)
	for i, a := range args {
		t := e.term(st, a, sig.Params().At(i).Type())
		ts = append(ts, t)
		as = append(as, t.Sort)
	}
	if !e.cs.pureMethods[typeKey(f.typ)+"."+key] && !(key == "Error") {
		e.fail(st, "invoke %s.%s", typeKey(f.typ), key)
	}
	e.assumed["interface method "+typeKey(f.typ)+"."+key+" is deterministic and free of side effects"] = true
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		s := sortOf(rt)
		n := invName(f.typ, key, i)
		declFunc(n, s, as...)
		t := App(n, s, ts...)
		st.assume(typeFact(t, rt, e.entryNext()))
		res = append(res, e.wrap(t, rt))
	}
	e.ret(st, dst, res)
	return true
}

func invName(t types.Type, m string, i int) string {
	return fmt.Sprintf("inv%d:%s.%s", i, typeKey(t), m)
}

// methodState is the ghost variable read and set by methods of an interface,
// one value for each receiver.
func methodState(name string, sig *types.Signature) *heapInfo {
	v := sig.Params()
	if sig.Results().Len() == 1 {
		v = sig.Results()
	}
	return ghostInfo("GM:"+name, "(Array "+SIfc+" "+sortOf(v.At(0).Type())+")")
}

// methodEvent records a call of a method whose effects are not modelled.
func (e *Exec) methodEvent(st *State, kind int64, recv *Term, args []Val, sig *types.Signature) {
	n := e.heap(st, evN())
	put := func(h *heapInfo, v *Term) { st.heaps[h.key] = Store(e.heap(st, h), n, v) }
	put(evKind(), Int(kind))
	put(evRecv(), recv)
	if len(args) > 0 {
		if a := e.term(st, args[0], sig.Params().At(0).Type()); a.Sort == SIfc {
			put(evArg(), a)
		}
	}
	st.heaps[evN().key] = Add(n, One)
}

// ghostKeys are the ghost variables a call of an interface method may change.
func (e *Exec) ghostKeys(c *ssa.CallCommon) []*heapInfo {
	if isWriterMethod(c.Method) {
		return []*heapInfo{evN(), evKind(), evRecv(), evArr(), evOff(), evLen(), evRn(), evRe()}
	}
	mkey := typeKey(c.Value.Type()) + "." + c.Method.Name()
	if _, ok := e.cs.eventMethods[mkey]; ok {
		return []*heapInfo{evN(), evKind(), evRecv(), evArg()}
	}
	sig := c.Method.Type().(*types.Signature)
	if g, ok := e.cs.stateMethods[mkey]; ok && sig.Params().Len() == 1 {
		return []*heapInfo{methodState(g, sig)}
	}
	return nil
}

func isWriterMethod(m *types.Func) bool {
	switch m.Name() {
	case "Write", "WriteRunes", "WriteRune", "WriteString":
		return true
	}
	return false
}

func ghostInfo(key, sort string) *heapInfo {
	if h, ok := heapInfos[key]; ok {
		return h
	}
	h := &heapInfo{key: key, sort: sort, kind: "ghost"}
	heapInfos[key] = h
	return h
}

var (
	evN    = func() *heapInfo { return ghostInfo("EV:n", SInt) }
	evKind = func() *heapInfo { return ghostInfo("EV:kind", arrSort(SInt)) }
	evRecv = func() *heapInfo { return ghostInfo("EV:recv", arrSort(SIfc)) }
	evArr  = func() *heapInfo { return ghostInfo("EV:arr", arrSort(arrSort(SInt))) }
	evOff  = func() *heapInfo { return ghostInfo("EV:off", arrSort(SInt)) }
	evLen  = func() *heapInfo { return ghostInfo("EV:len", arrSort(SInt)) }
	evRn   = func() *heapInfo { return ghostInfo("EV:resn", arrSort(SInt)) }
	evArg  = func() *heapInfo { return ghostInfo("EV:arg", arrSort(SIfc)) }
	evRe   = func() *heapInfo { return ghostInfo("EV:rese", arrSort(SIfc)) }
)
var evKinds = map[string]int64{"Write": 1, "WriteRunes": 2, "WriteRune": 3, "WriteString": 4}

func (e *Exec) writeEvent(st *State, kind string, recv *Term, args []Val, sig *types.Signature) {
	n := e.heap(st, evN())
	put := func(h *heapInfo, v *Term) { st.heaps[h.key] = Store(e.heap(st, h), n, v) }
	put(evKind(), Int(evKinds[kind]))
	put(evRecv(), recv)
	pt := sig.Params().At(0).Type()
	a := e.term(st, args[0], pt)
	if sl, ok := pt.Underlying().(*types.Slice); ok {
		arr := e.elems(st, sl.Elem(), SRef(a))
		put(evArr(), arr)
		if n := SLen(a); isInt(n) && n.K.IsInt64() && n.i64() <= 8 {
			for i := int64(0); i < n.i64(); i++ {
				foldSeed(st, elemHeapInfo(sl.Elem()), arr, SOff(a), Add(SOff(a), Int(i)))
			}
		}
		put(evOff(), SOff(a))
		put(evLen(), SLen(a))
	} else if a.Sort == SInt {
		put(evArr(), ConstArr(arrSort(SInt), a))
		put(evOff(), Zero)
		put(evLen(), One)
	} else {
		e.fail(st, "write event with %s", pt)
	}
	st.heaps[evN().key] = Add(n, One)
}
func (e *Exec) ghostRes(st *State, n, err *Term) {
	k := Sub(e.heap(st, evN()), One)
	st.heaps[evRn().key] = Store(e.heap(st, evRn()), k, n)
	st.heaps[evRe().key] = Store(e.heap(st, evRe()), k, err)
}

// externs ----------------------------------------------------------------------------

type externFn func(e *Exec, st *State, fn *ssa.Function, args []Val, dst ssa.Value, in ssa.Instruction) bool

var externs map[string]externFn

func init() {
	nop := func(e *Exec, st *State, fn *ssa.Function, args []Val, dst ssa.Value, in ssa.Instruction) bool {
		e.assumed["locks: "+fnName(fn)+" has no effect on the data (sequential reasoning)"] = true
		return true
	}
	setc := func(e *Exec, st *State, fn *ssa.Function, args []Val, dst ssa.Value, in ssa.Instruction) bool {
		// golang.org/x/text/runes.Set: membership, identified by the set value
		set, ok := args[0].(*Term)
		if !ok {
			e.fail(st, "runes.Set %T", args[0])
		}
		x := e.term(st, args[1], types.Typ[types.Int32])
		e.assumed["runes.Set.Contains is a pure membership test"] = true
		e.ret(st, dst, []Val{setContains(set, x)})
		return true
	}
	uniIs := func(e *Exec, st *State, fn *ssa.Function, args []Val, dst ssa.Value, in ssa.Instruction) bool {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if u, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					if s := setIn(g.String()); s != nil {
						e.ret(st, dst, []Val{setContains(s, e.term(st, args[1], types.Typ[types.Int32]))})
						return true
					}
				}
			}
		}
		e.fail(st, "unicode.Is on an unknown table")
		return false
	}
	newErr := func(e *Exec, st *State, fn *ssa.Function, args []Val, dst ssa.Value, in ssa.Instruction) bool {
		t := Fresh("err", SIfc)
		st.assume(Lt(Zero, SelD(t, 0)))
		e.ret(st, dst, []Val{t})
		return true
	}
	rop := func(n string, xs ...*Term) *Term { return mk(&Term{Op: "op", Name: n, Sort: SReal, Args: xs}) }
	floor := func(x *Term) *Term {
		return toReal(mk(&Term{Op: "op", Name: "to_int", Sort: SInt, Args: []*Term{x}}))
	}
	zero, half := RatLit(new(big.Rat)), RatLit(big.NewRat(1, 2))
	mathFn := func(f func(xs []*Term) *Term) externFn {
		return func(e *Exec, st *State, fn *ssa.Function, args []Val, dst ssa.Value, in ssa.Instruction) bool {
			e.assumed["floating point treated as real numbers"] = true
			var xs []*Term
			for i, a := range args {
				xs = append(xs, e.term(st, a, fn.Signature.Params().At(i).Type()))
			}
			e.ret(st, dst, []Val{f(xs)})
			return true
		}
	}
	externs = map[string]externFn{
		"math.Floor": mathFn(func(x []*Term) *Term { return floor(x[0]) }),
		"math.Ceil":  mathFn(func(x []*Term) *Term { return rop("-", floor(rop("-", x[0]))) }),
		"math.Trunc": mathFn(func(x []*Term) *Term {
			return Ite(Le(zero, x[0]), floor(x[0]), rop("-", floor(rop("-", x[0]))))
		}),
		"math.Round": mathFn(func(x []*Term) *Term {
			return Ite(Le(zero, x[0]), floor(rop("+", x[0], half)), rop("-", floor(rop("+", rop("-", x[0]), half))))
		}),
		"math.Abs": mathFn(func(x []*Term) *Term { return Ite(Le(zero, x[0]), x[0], rop("-", x[0])) }),
		"math.Max": mathFn(func(x []*Term) *Term { return Ite(Le(x[0], x[1]), x[1], x[0]) }),
		"math.Min": mathFn(func(x []*Term) *Term { return Ite(Le(x[0], x[1]), x[0], x[1]) }),
		"math.Pow": mathFn(func(x []*Term) *Term {
			declFunc("math.Pow", SReal, SReal, SReal)
			return App("math.Pow", SReal, x...)
		}),
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop,
		"(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(golang.org/x/text/runes.Set).Contains": setc,
		"unicode.Is":                             uniIs,
		"(*sync.Once).Do":                        onceDo,
		"errors.New":                             newErr, "fmt.Errorf": newErr,
	}
}

// setIn is the set of the runes of a table of package unicode; membership is
// read off the library's table.
func setIn(table string) *Term {
	if !strings.HasPrefix(table, "unicode.") {
		return nil
	}
	n := strings.TrimPrefix(table, "unicode.")
	rt := unicode.Properties[n]
	if rt == nil {
		rt = unicode.Categories[n]
	}
	if rt == nil {
		rt = unicode.Scripts[n]
	}
	if rt == nil {
		return nil
	}
	var rs [][3]int64
	for _, r := range rt.R16 {
		rs = append(rs, [3]int64{int64(r.Lo), int64(r.Hi), int64(r.Stride)})
	}
	for _, r := range rt.R32 {
		rs = append(rs, [3]int64{int64(r.Lo), int64(r.Hi), int64(r.Stride)})
	}
	if len(rs) > 80 {
		return nil
	}
	x := BV("r!s", SInt)
	var or []*Term
	for _, r := range rs {
		c := And(Le(Int(r[0]), x), Le(x, Int(r[1])))
		if r[2] > 1 && r[0] != r[1] {
			c = And(c, Eq(ModF(Sub(x, Int(r[0])), Int(r[2])), Zero))
		}
		or = append(or, c)
	}
	fn := "setIn:" + n
	declFunc(fn, SIfc)
	c := App(fn, SIfc)
	app := setContains(c, x)
	ufAxioms[fn] = []*Term{Forall([]*Term{x}, Eq(app, Or(or...)), []*Term{app}), Lt(Zero, SelD(c, 0))}
	return c
}

func setContains(set, x *Term) *Term {
	n := "runes.Set.Contains<" + set.Sort + ">"
	declFunc(n, SBool, set.Sort, SInt)
	return App(n, SBool, set, x)
}
