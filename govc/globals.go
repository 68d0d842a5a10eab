package main

// What is known of package variables: tables set once by their initialiser,
// pointers to structs that nobody may write, and variables built under a sync.Once.

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constArrs holds the content of frozen tables, by array term.
var constArrs = map[*Term][]*Term{}

// litStruct evaluates the composite literal built in place at addr (an Alloc or
// IndexAddr) by constant stores within one function.
func (e *Exec) litAt(addr ssa.Value, t types.Type, depth int) *Term {
	refs := addr.Referrers()
	if refs == nil || depth > 3 {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.FieldAddr:
				if fs[x.Field] != nil {
					return nil
				}
				fs[x.Field] = e.litAt(x, u.Field(x.Field).Type(), depth+1)
				if fs[x.Field] == nil {
					return nil
				}
			case *ssa.DebugRef, *ssa.UnOp:
			case *ssa.Store:
				if x.Val == addr && depth == 0 {
					break
				}
				// the value of another literal
				u, ok := x.Val.(*ssa.UnOp)
				if !ok || x.Addr != addr || len(*refs) != 1 {
					return nil
				}
				al, ok := u.X.(*ssa.Alloc)
				if !ok || u.Block() != al.Block() {
					return nil
				}
				return e.litAt(al, t, depth+1)
			default:
				return nil
			}
		}
		for i := range fs {
			if fs[i] == nil {
				fs[i] = e.zeroTerm(u.Field(i).Type())
			}
		}
		name := sortOf(t)
		return MkD(name, fs...)
	default:
		var out *Term
		for _, r := range *refs {
			st, ok := r.(*ssa.Store)
			if !ok || st.Addr != addr || out != nil {
				return nil
			}
			c, ok := st.Val.(*ssa.Const)
			if !ok {
				return nil
			}
			v, ok := e.constVal(c).(*Term)
			if !ok {
				return nil
			}
			out = v
		}
		return out
	}
}

// tableLit is the list of elements of a slice literal stored in a package
// variable by its initialiser.
func (e *Exec) tableLit(v ssa.Value) ([]*Term, types.Type) {
	if c, ok := v.(*ssa.ChangeType); ok {
		v = c.X
	}
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil || sl.Max != nil {
		return nil, nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 4096 {
		return nil, nil
	}
	out := make([]*Term, at.Len())
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.IndexAddr:
			c, ok := x.Index.(*ssa.Const)
			if !ok {
				return nil, nil
			}
			i := c.Int64()
			if i < 0 || i >= at.Len() || out[i] != nil {
				return nil, nil
			}
			out[i] = e.litAt(x, at.Elem(), 0)
			if out[i] == nil {
				return nil, nil
			}
		case *ssa.Slice:
			if x != sl {
				return nil, nil
			}
		case *ssa.DebugRef:
		default:
			return nil, nil
		}
	}
	for i := range out {
		if out[i] == nil {
			out[i] = e.zeroTerm(at.Elem())
		}
	}
	return out, at.Elem()
}

// elemsFrozen: no function of the program other than package initialisers
// writes an element of a slice or array of t (t a struct type of the module).
func (e *Exec) elemsFrozen(t types.Type) bool {
	if _, ok := t.(*types.Named); !ok {
		return false
	}
	k := elemHeapInfo(t).key
	if r, ok := frozenMemo[k]; ok {
		return r
	}
	r := true
	for f := range e.p.all {
		if f.Pkg == nil || !e.p.inRepo(f.Pkg) || (f.Name() == "init" && f.Synthetic != "") {
			continue
		}
		s := &effectSet{map[string]bool{}, false, map[*ssa.Global]bool{}}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					e.effAddr(x.Addr, s)
					// a field of an element
					a := x.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						break
					}
					e.effAddr(a, s)
					if pt, ok := x.Addr.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
						s.keys[k] = true
					}
				case *ssa.FieldAddr:
					// a pointer to an element of this type that is used for writing
					if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), t) {
						for _, rf := range *x.Referrers() {
							if st, ok := rf.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
								s.keys[k] = true
							}
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy" || bi.Name() == "clear") {
						if sl, ok := x.Common().Args[0].Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), t) {
							s.keys[k] = true
						}
					}
				}
			}
		}
		if s.keys[k] {
			r = false
		}
	}
	frozenMemo[k] = r
	return r
}

var frozenMemo = map[string]bool{}

// frozenTable is the value of a package variable holding a table that nobody writes.
func (e *Exec) frozenTable(st *State, g *ssa.Global) *Term {
	v := e.p.initOf[g]
	if v == nil {
		return nil
	}
	els, et := e.tableLit(v.Val)
	if et == nil || !e.elemsFrozen(et) {
		return nil
	}
	h := elemHeapInfo(et)
	H := e.heap(st, h)
	// distinct small negative numbers cannot clash with allocated references
	ref := Const("tab:"+g.String(), SInt)
	st.assume(And(Lt(Zero, ref), Lt(ref, e.entryNext())))
	constArrs[Select(H, ref)] = els
	n := Int(int64(len(els)))
	return MkSlc(ref, Zero, n, n)
}

// frozenPtr: the struct a package variable points to, as built by the package
// initialiser, when only functions handed a pointer explicitly write such structs.
func (e *Exec) frozenPtr(g *ssa.Global) ([]*Term, types.Type, error) {
	pt, ok := globHeapInfo(g).typ.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil, fmt.Errorf("%s is not a pointer", g.Name())
	}
	if len(e.p.storesTo[g]) != 0 || e.p.initN[g] != 1 || e.p.addrTaken[g] {
		return nil, nil, fmt.Errorf("%s is assigned after its initialisation", g.Name())
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, nil, fmt.Errorf("%s does not point to a struct", g.Name())
	}
	v := e.p.initOf[g]
	if v == nil {
		return nil, nil, fmt.Errorf("no initialiser of %s", g.Name())
	}
	al, ok := v.Val.(*ssa.Alloc)
	if !ok {
		return nil, nil, fmt.Errorf("initialiser of %s is not a literal", g.Name())
	}
	l := e.litAt(al, pt.Elem(), 0)
	if l == nil {
		return nil, nil, fmt.Errorf("initialiser of %s is not a literal", g.Name())
	}
	var fs []*Term
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, SelD(l, i))
	}
	// writers
	for f := range e.p.all {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				var base ssa.Value
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					base = fa.X
				} else {
					base = x.Addr
				}
				bp, ok := base.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(bp.Elem(), pt.Elem()) {
					continue
				}
				switch y := base.(type) {
				case *ssa.Parameter, *ssa.Alloc:
				case *ssa.UnOp:
					// a variable captured by reference or spilled: not understood
					if _, ok := y.X.(*ssa.Global); ok {
						return nil, nil, fmt.Errorf("%s is written by %s", g.Name(), f)
					}
					return nil, nil, fmt.Errorf("%s may be written by %s", g.Name(), f)
				default:
					return nil, nil, fmt.Errorf("%s may be written by %s", g.Name(), f)
				}
			}
		}
	}
	return fs, pt.Elem(), nil
}

// assumeFrozen states the content of the structs declared frozen by the contract files.
func (e *Exec) assumeFrozen(st *State) {
	for _, n := range e.cs.frozen {
		pkg, name := splitQual(n)
		if e.fn == nil || e.fn.Pkg == nil || e.fn.Pkg.Pkg.Path() != pkg {
			continue
		}
		g := e.p.global(pkg, name)
		if g == nil {
			e.frozenErr = append(e.frozenErr, "package variable "+n+" not found")
			continue
		}
		fs, t, err := e.frozenPtr(g)
		if err != nil {
			e.frozenErr = append(e.frozenErr, err.Error())
			continue
		}
		p := e.heap(st, globHeapInfo(g))
		st.assume(And(Lt(Zero, p), Lt(p, e.entryNext())))
		for i, f := range fs {
			st.assume(Eq(Select(e.heap(st, fieldHeapInfo(t, i)), p), f))
		}
	}
}

func splitQual(n string) (string, string) {
	i := strings.LastIndex(n, ".")
	return n[:i], n[i+1:]
}

func (p *Program) global(pkg, name string) *ssa.Global {
	for _, sp := range p.prog.AllPackages() {
		if sp.Pkg.Path() == pkg {
			g, _ := sp.Members[name].(*ssa.Global)
			return g
		}
	}
	return nil
}

// onceDo: (*sync.Once).Do(f) with f under contract. f has run before Do returns,
// now or earlier; since only f writes the variables it sets and nobody else
// writes what they refer to, its postcondition holds.
func onceDo(e *Exec, st *State, fn *ssa.Function, args []Val, dst ssa.Value, in ssa.Instruction) bool {
	a, ok := args[0].(*AddrV)
	if !ok || a.kind != "glob" {
		e.fail(st, "sync.Once that is not a package variable")
	}
	f, ok := args[1].(*FuncV)
	if !ok || len(f.bind) > 0 {
		e.fail(st, "sync.Once with an unknown function")
	}
	c := e.cs.get(f.fn)
	if c == nil {
		e.fail(st, "no contract for %s", f.fn)
	}
	if err := e.onceOK(a.glob, f.fn, c); err != nil {
		e.fail(st, "%v", err)
	}
	e.assumed["sync.Once.Do has run its function exactly once when it returns"] = true
	return e.applyContract(st, c, f.fn, nil, nil, in)
}

var onceMemo = map[*ssa.Function]error{}
var onceGlobs = map[*ssa.Global]bool{}

func (e *Exec) onceOK(o *ssa.Global, f *ssa.Function, c *Contract) error {
	if r, ok := onceMemo[f]; ok {
		return r
	}
	r := e.onceOK1(o, f, c)
	onceMemo[f] = r
	return r
}
func (e *Exec) onceOK1(o *ssa.Global, f *ssa.Function, c *Contract) error {
	for fn := range e.p.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						if x == f && !isOnceDo(in, o) {
							return fmt.Errorf("%s is used outside of %s.Do", f.Name(), o.Name())
						}
					case *ssa.Global:
						if x == o && !isOnceDo(in, o) {
							return fmt.Errorf("%s is used other than by Do", o.Name())
						}
						if c.modGlobals[x.Name()] && x.Pkg == f.Pkg {
							switch y := in.(type) {
							case *ssa.UnOp:
								if fn == f {
									break
								}
								for _, r := range *y.Referrers() {
									switch z := r.(type) {
									case *ssa.IndexAddr:
										for _, rr := range *z.Referrers() {
											switch rr.(type) {
											case *ssa.UnOp, *ssa.DebugRef:
											default:
												return fmt.Errorf("elements of %s are not only read", x.Name())
											}
										}
									case *ssa.DebugRef:
									case *ssa.Call:
										if bi, ok := z.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
											return fmt.Errorf("%s escapes", x.Name())
										}
									default:
										return fmt.Errorf("%s escapes", x.Name())
									}
								}
							case *ssa.Store:
								if fn != f || y.Addr != ssa.Value(x) {
									return fmt.Errorf("%s is written by %s", x.Name(), fn)
								}
								if _, ok := y.Val.(*ssa.Call); !ok {
									if _, ok := y.Val.(*ssa.MakeSlice); !ok {
										return fmt.Errorf("value of %s is shared", x.Name())
									}
								}
							case *ssa.DebugRef:
							default:
								return fmt.Errorf("%s is used by %s", x.Name(), fn)
							}
							onceGlobs[x] = true
						}
					}
				}
			}
		}
	}
	return nil
}

func isOnceDo(in ssa.Instruction, o *ssa.Global) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f, ok := ci.Common().Value.(*ssa.Function)
	return ok && fnName(f) == "(*sync.Once).Do" && ci.Common().Args[0] == ssa.Value(o)
}

// optEffect runs the function value (a closure made by the function under
// verification) on an arbitrary struct and obliges: the listed field takes the
// value given, the other fields keep theirs.
func (e *Exec) optEffect(ev *evalCtx, fv Val, field string, val *Term) (*Term, error) {
	f, ok := fv.(*FuncV)
	if !ok {
		if s, ok2 := fv.(*SymFunc); ok2 {
			if g, ok3 := e.closures()[s.t]; ok3 {
				f, ok = g, true
			}
		}
	}
	if !ok {
		return nil, fmt.Errorf("not a known function value")
	}
	sg := f.fn.Signature
	if sg.Params().Len() != 1 || sg.Results().Len() != 0 {
		return nil, fmt.Errorf("not an option function")
	}
	pt, ok := sg.Params().At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, fmt.Errorf("not an option function")
	}
	s := pt.Elem().Underlying().(*types.Struct)
	st := ev.st.clone()
	st.frames = st.frames[:1]
	st.loops = nil
	name := sortOf(pt.Elem())
	old := Fresh("opt", name)
	cell := e.newCell(st, pt.Elem(), old)
	base := st.pc
	_ = base
	var goals []*Term
	args := []Val{cell}
	e.pushFrame(st, f.fn, args, f.bind, nil)
	k := len(e.obls)
	entryFacts := len(ev.st.facts())
	st.top().onRet = func(s2 *State, rv []Val) {
		nv := e.term(s2, e.load(s2, cell, nil), pt.Elem())
		var eqs []*Term
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == field {
				found = true
				eqs = append(eqs, Eq(SelD(nv, i), val))
			} else {
				eqs = append(eqs, Eq(SelD(nv, i), SelD(old, i)))
			}
		}
		if !found {
			eqs = append(eqs, False)
		}
		fs := s2.facts()
		goals = append(goals, Imp(And(fs[entryFacts:]...), And(eqs...)))
	}
	e.run(st)
	_ = k
	if len(goals) == 0 {
		return False, nil
	}
	return And(goals...), nil
}

// parseSet: set name = lo-hi ...  (hexadecimal)
func parseSet(rest string) error {
	nm, body, ok := strings.Cut(rest, "=")
	if !ok {
		return fmt.Errorf("set needs =")
	}
	nm = strings.TrimSpace(nm)
	x := BV("r!s", SInt)
	var or []*Term
	var rs [][2]int64
	for _, w := range strings.Fields(body) {
		a, b, ok := strings.Cut(w, "-")
		if !ok {
			b = a
		}
		var lo, hi int64
		if _, err := fmt.Sscanf(a, "%x", &lo); err != nil {
			return err
		}
		if _, err := fmt.Sscanf(b, "%x", &hi); err != nil {
			return err
		}
		or = append(or, And(Le(Int(lo), x), Le(x, Int(hi))))
		rs = append(rs, [2]int64{lo, hi})
	}
	fn := "set:" + nm
	declFunc(fn, SBool, SInt)
	app := App(fn, SBool, x)
	ufAxioms[fn] = []*Term{Forall([]*Term{x}, Eq(app, Or(or...)), []*Term{app})}
	specSets[nm] = rs
	return nil
}

var specSets = map[string][][2]int64{}

func setApp(nm string, x *Term) *Term {
	if isInt(x) {
		for _, r := range specSets[nm] {
			if r[0] <= x.i64() && x.i64() <= r[1] {
				return True
			}
		}
		return False
	}
	return App("set:"+nm, SBool, x)
}

// expandQ unfolds a quantifier over a literal range.
func (ev *evalCtx) expandQ(id string, lo, hi *Term, body ast.Expr, all bool) (*Term, error) {
	var ts []*Term
	for i := lo.i64(); i < hi.i64(); i++ {
		t, err := ev.with(id, SV{Int(i), tInt}).boolean(body)
		if err != nil {
			return nil, err
		}
		if all && t == False || !all && t == True {
			return t, nil
		}
		ts = append(ts, t)
	}
	if all {
		return And(ts...), nil
	}
	return Or(ts...), nil
}
