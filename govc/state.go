package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type AddrV struct {
	kind  string // cell hfield elem sub glob box
	typ   types.Type
	cell  int
	ref   *Term
	idx   *Term // absolute index
	off   *Term // slice offset used to compute idx (for fold events)
	owner types.Type
	base  *AddrV
	field int
	glob  *ssa.Global
	cells []int // one per element, for small arrays only indexed by constants
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
}

// SymFunc is an unknown function value.
type SymFunc struct {
	t   *Term // sort Int
	sig *types.Signature
}
type IfaceV struct {
	t types.Type
	v Val
}
type TupleV []Val
type ArrV struct {
	arr *Term
	off *Term
	n   int64
}
type IterV struct {
	kind string // string | map
	str  *Term
	cell int // counter cell
	m    *Term
	mt   *types.Map
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.Defer
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	// return handling
	call    ssa.Value                  // where to store the result in the caller, nil for deferred calls
	onRet   func(st *State, res []Val) // base frame continuation
	unroll  map[*ssa.BasicBlock]int
	loopLen int // number of active loops at entry
}

type ActiveLoop struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	depth   int // frame depth
	onBack  func(st *State)
	discard bool
}

type Event struct {
	kind string
	recv Val
	args []*Term
	arrs []*Term // content arrays of slice args
	res  []*Term
}

type State struct {
	heaps  map[string]*Term
	cells  map[int]Val
	ctype  map[int]types.Type
	promo  map[int]*Term
	next   *Term
	pc     *pcNode
	frames []*Frame
	loops  []*ActiveLoop
	joins  []*Join
	events []Event
	trace  []string
	old    *State // entry state, for specs
}

func (s *State) clone() *State {
	n := *s
	n.heaps = make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.cells = make(map[int]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.promo = make(map[int]*Term, len(s.promo))
	for k, v := range s.promo {
		n.promo[k] = v
	}
	n.ctype = s.ctype // shared, append only
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		n.frames[i] = &g
	}
	n.loops = append([]*ActiveLoop(nil), s.loops...)
	n.joins = append([]*Join(nil), s.joins...)
	n.events = append([]Event(nil), s.events...)
	n.trace = append([]string(nil), s.trace...)
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

var pcIDs int

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	d := 0
	if s.pc != nil {
		d = s.pc.depth + 1
	}
	pcIDs++
	s.pc = &pcNode{id: pcIDs, parent: s.pc, t: t, depth: d}
}

func (s *State) facts() []*Term {
	var out []*Term
	for n := s.pc; n != nil; n = n.parent {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// sorts and types -----------------------------------------------------------------

var structDT = map[string]types.Type{}

func sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Kind() == types.UnsafePointer:
			return SInt
		case u.Kind() == types.UntypedNil:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlc
	case *types.Interface:
		return SIfc
	case *types.Array:
		return arrSort(sortOf(u.Elem()))
	case *types.Struct:
		name := "T_" + typeKey(t)
		if _, ok := structDT[name]; !ok {
			structDT[name] = t
			d := &Datatype{Name: name}
			for i := 0; i < u.NumFields(); i++ {
				d.Fields = append(d.Fields, fmt.Sprintf("%s.%s", name, u.Field(i).Name()))
				d.Sorts = append(d.Sorts, sortOf(u.Field(i).Type()))
			}
			if len(d.Fields) == 0 {
				d.Fields = []string{name + ".dummy"}
				d.Sorts = []string{SInt}
			}
			declDatatype(d)
		}
		return name
	}
	panic(Unsupported("sort of type " + t.String()))
}

type Unsupported string

func (u Unsupported) Error() string { return "unsupported: " + string(u) }

func intRange(t types.Type) (lo, hi *Term, bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0, false, false
	}
	bits = 64
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.UntypedRune:
		bits = 32
	}
	signed = b.Info()&types.IsUnsigned == 0
	if signed {
		lo, hi = pow2(bits-1, true), pow2(bits-1, false)
		hi = Sub(hi, One)
	} else {
		lo, hi = Zero, Sub(pow2(bits, false), One)
	}
	return lo, hi, bits, signed, true
}

func heapElem(t types.Type) string { return "H:" + typeKey(t.Underlying()) + structSuffix(t) }

// named struct element types keep their name (distinct types never alias).
func structSuffix(t types.Type) string {
	if _, ok := t.(*types.Named); ok {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return "@" + typeKey(t)
		}
	}
	return ""
}
func heapField(owner types.Type, i int) string {
	s := owner.Underlying().(*types.Struct)
	return "F:" + typeKey(owner) + "." + s.Field(i).Name()
}
func heapBox(t types.Type) string { return "B:" + typeKey(t) }

// heapSort records the sort and Go type of each heap key.
type heapInfo struct {
	key  string
	sort string     // sort of the whole heap
	typ  types.Type // value type stored (element type for H:)
	kind string     // elem field box glob mapdom mapval maplen
}

var heapInfos = map[string]*heapInfo{}

func elemHeapInfo(el types.Type) *heapInfo {
	k := heapElem(el)
	if h, ok := heapInfos[k]; ok {
		return h
	}
	h := &heapInfo{k, arrSort(arrSort(sortOf(el))), el, "elem"}
	heapInfos[k] = h
	return h
}
func fieldHeapInfo(owner types.Type, i int) *heapInfo {
	k := heapField(owner, i)
	if h, ok := heapInfos[k]; ok {
		return h
	}
	ft := owner.Underlying().(*types.Struct).Field(i).Type()
	h := &heapInfo{k, arrSort(sortOf(ft)), ft, "field"}
	heapInfos[k] = h
	return h
}
func boxHeapInfo(t types.Type) *heapInfo {
	k := heapBox(t)
	if h, ok := heapInfos[k]; ok {
		return h
	}
	h := &heapInfo{k, arrSort(sortOf(t)), t, "box"}
	heapInfos[k] = h
	return h
}
func globHeapInfo(g *ssa.Global) *heapInfo {
	k := "G:" + g.String()
	if h, ok := heapInfos[k]; ok {
		return h
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	h := &heapInfo{k, sortOf(t), t, "glob"}
	heapInfos[k] = h
	return h
}
func mapInfos(m *types.Map) (dom, val, ln *heapInfo) {
	ks, vs := sortOf(m.Key()), sortOf(m.Elem())
	k := typeKey(m)
	get := func(p, s, kind string) *heapInfo {
		if h, ok := heapInfos[p+k]; ok {
			return h
		}
		h := &heapInfo{p + k, s, m.Elem(), kind}
		heapInfos[p+k] = h
		return h
	}
	return get("MD:", arrSort("(Array "+ks+" Bool)"), "mapdom"),
		get("MV:", arrSort("(Array "+ks+" "+vs+")"), "mapval"),
		get("ML:", arrSort(SInt), "maplen")
}
