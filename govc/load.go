package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog  *ssa.Program
	pkgs  []*packages.Package // root packages (of /repo)
	spkgs []*ssa.Package
	all   map[*ssa.Function]bool
	repo  string
	mod   string

	storesTo  map[*ssa.Global][]*ssa.Store // outside init
	initOf    map[*ssa.Global]*ssa.Store
	initN     map[*ssa.Global]int
	addrTaken map[*ssa.Global]bool        // address used other than for direct loads and stores
	soles     map[*types.Named]types.Type // interface -> only implementation
	fieldW    map[string][]*ssa.Function  // "Type.field" -> functions storing to it
}

func loadProgram(repo string, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: pkgs, spkgs: spkgs, repo: repo, mod: "github.com/fredbi/go-typeset"}
	p.scan()
	return p, nil
}

func (p *Program) inRepo(pkg *ssa.Package) bool {
	return pkg != nil && pkg.Pkg != nil && strings.HasPrefix(pkg.Pkg.Path(), p.mod)
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (p *Program) scan() {
	p.all = ssautil.AllFunctions(p.prog)
	p.storesTo = map[*ssa.Global][]*ssa.Store{}
	p.initOf = map[*ssa.Global]*ssa.Store{}
	p.initN = map[*ssa.Global]int{}
	p.addrTaken = map[*ssa.Global]bool{}
	p.fieldW = map[string][]*ssa.Function{}
	for f := range p.all {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch y := in.(type) {
						case *ssa.UnOp:
						case *ssa.FieldAddr, *ssa.IndexAddr:
						case *ssa.Store:
							if y.Val == ssa.Value(g) {
								p.addrTaken[g] = true
							}
						case *ssa.DebugRef:
						default:
							p.addrTaken[g] = true
						}
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if g := rootGlobal(st.Addr); g != nil {
					if isInit {
						p.initN[g]++
						if _, direct := st.Addr.(*ssa.Global); direct {
							p.initOf[g] = st
						}
					} else {
						p.storesTo[g] = append(p.storesTo[g], st)
					}
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					pt, _ := fa.X.Type().Underlying().(*types.Pointer)
					if pt != nil {
						if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
							k := typeKey(pt.Elem()) + "." + s.Field(fa.Field).Name()
							p.fieldW[k] = append(p.fieldW[k], f)
						}
					}
				}
			}
		}
	}
	for k := range p.fieldW {
		sort.Slice(p.fieldW[k], func(i, j int) bool { return p.fieldW[k][i].String() < p.fieldW[k][j].String() })
	}
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = aliasRx.ReplaceAllStringFunc(s, func(m string) string {
		switch m {
		case "rune":
			return "int32"
		case "byte":
			return "uint8"
		case "interface{}", "interface {}":
			return "any"
		}
		return m
	})
	return s
}

var aliasRx = regexp.MustCompile(`[\w.]+|interface ?\{\}`)

// findFunc resolves "pkgpath.Func", "(*pkgpath.T).M", "(pkgpath.T).M".
func (p *Program) findFunc(name string) *ssa.Function {
	for f := range p.all {
		if f.String() == name && f.Synthetic == "" {
			return f
		}
	}
	return nil
}

// findSimilar finds a function of the same package and name whose receiver was
// renamed (or that gained or lost one); it must be unique.
func (p *Program) findSimilar(name string) *ssa.Function {
	base := baseName(name)
	pkg := strings.TrimLeft(strings.TrimSuffix(name, "."+base), "(*")
	pkg = strings.TrimSuffix(pkg, ")")
	var found *ssa.Function
	for f := range p.all {
		if f.Synthetic != "" || f.Name() != base || f.Pkg == nil || f.Parent() != nil {
			continue
		}
		pp := f.Pkg.Pkg.Path()
		if pkg != pp && !strings.HasPrefix(pkg, pp+".") {
			continue
		}
		if found != nil {
			return nil
		}
		found = f
	}
	return found
}

// soleImpl is the only type ever converted to an interface declared in an
// internal package of the module, nil if there are several (or it may be
// implemented elsewhere).
func (p *Program) soleImpl(t types.Type) types.Type {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path()+"/", "/internal/") {
		return nil
	}
	if d, ok := p.soles[n]; ok {
		return d
	}
	if p.soles == nil {
		p.soles = map[*types.Named]types.Type{}
	}
	var d types.Type
	for f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeInterface:
					if types.Identical(x.Type(), t) {
						if d != nil && !types.Identical(d, x.X.Type()) {
							p.soles[n] = nil
							return nil
						}
						d = x.X.Type()
					}
				case *ssa.ChangeInterface:
					if types.Identical(x.Type(), t) {
						p.soles[n] = nil
						return nil
					}
				case *ssa.TypeAssert:
					if types.Identical(x.AssertedType, t) {
						p.soles[n] = nil
						return nil
					}
				}
			}
		}
	}
	p.soles[n] = d
	return d
}
