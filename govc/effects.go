package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type effectSet struct {
	keys   map[string]bool
	allocs bool
	globs  map[*ssa.Global]bool
}

var effMemo = map[*ssa.Function]*effectSet{}

// effects over-approximates the heaps a function may write (including memory
// it allocates itself), by a scan of its code and of all it may call.
func (e *Exec) effects(fn *ssa.Function) (map[string]bool, bool, map[*ssa.Global]bool) {
	if s, ok := effMemo[fn]; ok {
		return s.keys, s.allocs, s.globs
	}
	s := &effectSet{map[string]bool{}, false, map[*ssa.Global]bool{}}
	e.scanEffects(fn, s, map[*ssa.Function]bool{})
	effMemo[fn] = s
	return s.keys, s.allocs, s.globs
}

func (e *Exec) allFields(t types.Type, s *effectSet) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if splitField(t, i) {
				e.allFields(u.Field(i).Type(), s)
				continue
			}
			s.keys[fieldHeapInfo(t, i).key] = true
		}
	case *types.Array:
		s.keys[elemHeapInfo(u.Elem()).key] = true
	default:
		s.keys[boxHeapInfo(t).key] = true
	}
}

func (e *Exec) scanEffects(fn *ssa.Function, s *effectSet, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	name := fnName(fn)
	if _, ok := externs[name]; ok { // a function handed to sync.Once.Do is scanned as an argument
		return
	}
	if _, ok := pureUnicode[name]; ok {
		return
	}
	if pureExterns[name] {
		return
	}
	if fn.Blocks == nil {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				e.effAddr(x.Addr, s)
			case *ssa.Alloc:
				t := x.Type().Underlying().(*types.Pointer).Elem()
				if x.Heap {
					s.allocs = true
					e.allFields(t, s)
				}
				if _, ok := t.Underlying().(*types.Array); ok {
					s.allocs = true
					e.allFields(t, s)
				}
			case *ssa.MakeSlice:
				s.allocs = true
				s.keys[elemHeapInfo(x.Type().Underlying().(*types.Slice).Elem()).key] = true
			case *ssa.MakeMap:
				s.allocs = true
				d, v, l := mapInfos(x.Type().Underlying().(*types.Map))
				s.keys[d.key], s.keys[v.key], s.keys[l.key] = true, true, true
			case *ssa.MapUpdate:
				d, v, l := mapInfos(x.Map.Type().Underlying().(*types.Map))
				s.keys[d.key], s.keys[v.key], s.keys[l.key] = true, true, true
			case *ssa.Convert:
				if sl, ok := x.Type().Underlying().(*types.Slice); ok {
					s.allocs = true
					s.keys[elemHeapInfo(sl.Elem()).key] = true
				}
			case *ssa.MakeClosure:
				e.scanEffects(x.Fn.(*ssa.Function), s, seen)
			case ssa.CallInstruction:
				c := x.Common()
				for _, a := range c.Args {
					if f, ok := a.(*ssa.Function); ok {
						e.scanEffects(f, s, seen)
					}
				}
				if c.IsInvoke() {
					for _, h := range e.ghostKeys(c) {
						s.keys[h.key] = true
					}
					continue
				}
				switch f := c.Value.(type) {
				case *ssa.Builtin:
					switch f.Name() {
					case "append":
						s.allocs = true
						s.keys[elemHeapInfo(c.Args[0].Type().Underlying().(*types.Slice).Elem()).key] = true
					case "copy":
						s.keys[elemHeapInfo(c.Args[0].Type().Underlying().(*types.Slice).Elem()).key] = true
					case "delete", "clear":
						if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
							d, v, l := mapInfos(m)
							s.keys[d.key], s.keys[v.key], s.keys[l.key] = true, true, true
						}
					}
				case *ssa.Function:
					e.scanEffects(f, s, seen)
				case *ssa.MakeClosure:
					e.scanEffects(f.Fn.(*ssa.Function), s, seen)
				default:
					// unknown function value: struct transformer or pure
					sg, ok := c.Value.Type().Underlying().(*types.Signature)
					if ok && sg.Params().Len() == 1 {
						if pt, ok := sg.Params().At(0).Type().Underlying().(*types.Pointer); ok {
							e.allFields(pt.Elem(), s)
						}
					}
				}
			}
		}
	}
}

func (e *Exec) effAddr(a ssa.Value, s *effectSet) {
	switch x := a.(type) {
	case *ssa.Global:
		s.globs[x] = true
	case *ssa.FieldAddr:
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		if splitField(pt, x.Field) {
			e.allFields(x.Type().Underlying().(*types.Pointer).Elem(), s)
			return
		}
		s.keys[fieldHeapInfo(pt, x.Field).key] = true
		// nested: the base may be an element or a field
		switch x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			e.effAddr(x.X, s)
		}
	case *ssa.IndexAddr:
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s.keys[elemHeapInfo(t.Elem()).key] = true
		case *types.Pointer:
			s.keys[elemHeapInfo(t.Elem().Underlying().(*types.Array).Elem()).key] = true
			switch x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
				e.effAddr(x.X, s)
			}
		}
	default:
		pt := a.Type().Underlying().(*types.Pointer).Elem()
		e.allFields(pt, s)
	}
}
