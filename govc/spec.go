package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Name string
	Text string
	Expr ast.Expr
	Prop []string // properties this clause belongs to (empty: all of the contract)
}

type metaVar struct {
	name   string
	typ    types.Type
	phi    bool
	plus1  bool
	consts []int64
	ttext  string
}

type LoopTmpl struct {
	Vars []metaVar
	Expr ast.Expr
	Text string
}

type Contract struct {
	Name       string
	fn         *ssa.Function
	pkg        *types.Package
	Params     []string
	Props      []string
	Requires   []Clause
	Ensures    []Clause
	Loops      []*LoopTmpl
	Modifies   []Clause
	Decreases  []Clause
	Panics     *Clause
	mayPanic   *Clause
	modGlobals map[string]bool
	Aux        bool // internal function: may disappear in a refactoring
	Trusted    bool
	Inline     bool // verified on its own, but callers use its body
	Terminates bool
	Merge      bool // join paths where control flow meets
	NoUnroll   bool // treat loops of constant trip count like the others
	PureFn     bool // callers know result = UF(args) (after verification of determinism by construction)
	Reveal     map[string]bool
	Opaque     []string // folds whose step is not unfolded
	Uses       []string // lemmas assumed (and proved) with the contract
	File       string
	failed     bool
}

type Macro struct {
	Name   string
	Params []string
	Expr   ast.Expr
	pkgp   string
}

type RecFn struct {
	Name   string
	Params []string
	Sorts  []string
	Ret    string
}

type Contracts struct {
	p            *Program
	byFn         map[string]*Contract
	list         []*Contract
	byReal       map[*ssa.Function]*Contract
	macros       map[string]*Macro
	pureMethods  map[string]bool
	eventMethods map[string]int64  // methods recorded as events, by kind
	stateMethods map[string]string // getters and setters of a ghost variable
	frozen       []string
	lemmas       map[string]*Lemma
	builtin      map[string]func(ev *evalCtx, args []SV) (SV, error)
}

func (cs *Contracts) get(fn *ssa.Function) *Contract {
	c := cs.byFn[fnName(fn)]
	if c == nil {
		c = cs.byReal[fn]
	}
	if c == nil || c.failed {
		return nil
	}
	return c
}

// file format ---------------------------------------------------------------------

func loadContracts(p *Program, dir string) (*Contracts, error) {
	cs := &Contracts{p: p, byFn: map[string]*Contract{}, byReal: map[*ssa.Function]*Contract{}, macros: map[string]*Macro{}, pureMethods: map[string]bool{}, eventMethods: map[string]int64{}, stateMethods: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := cs.parseFile(f); err != nil {
			return nil, err
		}
	}
	return cs, nil
}

func (cs *Contracts) parseFile(path string) error {
	fh, err := os.Open(path)
	if err != nil {
		return err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	var lines []string
	var nums []int
	n := 0
	for sc.Scan() {
		n++
		l := strings.TrimRight(sc.Text(), " \t")
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if strings.HasPrefix(l, "    ") && len(lines) > 0 { // continuation
			lines[len(lines)-1] += " " + t
			continue
		}
		lines = append(lines, t)
		nums = append(nums, n)
	}
	var cur *Contract
	for i, l := range lines {
		kw, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		bad := func(e error) error {
			err := fmt.Errorf("%s:%d: %v", path, nums[i], e)
			if cur != nil && kw == "loop" { // a type that no longer exists
				fmt.Fprintln(os.Stderr, err)
				return nil
			}
			return err
		}
		clause := func() (Clause, error) {
			c := Clause{}
			r := rest
			if j := strings.Index(r, ":"); j > 0 && !strings.ContainsAny(r[:j], " (\"[") {
				c.Name = r[:j]
				r = strings.TrimSpace(r[j+1:])
			}
			if j := strings.Index(c.Name, "@"); j >= 0 {
				c.Prop = strings.Split(c.Name[j+1:], ",")
				c.Name = c.Name[:j]
			}
			x, err := parser.ParseExpr(r)
			if err != nil {
				return c, fmt.Errorf("%v in %q", err, r)
			}
			c.Text, c.Expr = r, x
			return c, nil
		}
		switch kw {
		case "func":
			cur = &Contract{Name: rest, modGlobals: map[string]bool{}, Reveal: map[string]bool{}, File: path}
			cur.Terminates = true
			cur.fn = cs.p.findFunc(rest)
			if cur.fn == nil {
				cur.fn = cs.p.findSimilar(rest)
			}
			if cur.fn != nil && cur.fn.Pkg != nil {
				cur.pkg = cur.fn.Pkg.Pkg
			}
			cs.byFn[rest] = cur
			if cur.fn != nil {
				cs.byReal[cur.fn] = cur
			}
			cs.list = append(cs.list, cur)
		case "params":
			cur.Params = strings.Fields(rest)
		case "property":
			cur.Props = strings.Fields(rest)
		case "requires", "ensures", "modifies", "decreases", "panics":
			c, err := clause()
			if err != nil {
				return bad(err)
			}
			switch kw {
			case "requires":
				if c.Name == "" {
					c.Name = fmt.Sprintf("pre%d", len(cur.Requires)+1)
				}
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				if c.Name == "" {
					c.Name = fmt.Sprintf("post%d", len(cur.Ensures)+1)
				}
				cur.Ensures = append(cur.Ensures, c)
			case "modifies":
				cur.Modifies = append(cur.Modifies, c)
			case "decreases":
				cur.Decreases = append(cur.Decreases, c)
			case "panics":
				cur.mayPanic = &c
			}
		case "aux":
			cur.Aux = true
		case "inline":
			cur.Inline = true
		case "opaque":
			cur.Opaque = append(cur.Opaque, strings.Fields(rest)...)
		case "use":
			cur.Uses = append(cur.Uses, strings.Fields(rest)...)
		case "lemma":
			if err := cs.parseLemma(rest); err != nil {
				return bad(err)
			}
		case "trusted":
			cur.Trusted = true
		case "merge":
			cur.Merge = true
		case "nounroll":
			cur.NoUnroll = true
		case "noterminates":
			cur.Terminates = false
		case "reveal":
			for _, r := range strings.Fields(rest) {
				cur.Reveal[r] = true
			}
		case "modglobal":
			for _, g := range strings.Fields(rest) {
				cur.modGlobals[g] = true
			}
		case "eventmethod": // eventmethod KIND pkg.Type.Method
			fs := strings.Fields(rest)
			k, err := strconv.Atoi(fs[0])
			if err != nil {
				return bad(err)
			}
			for _, g := range fs[1:] {
				cs.eventMethods[g] = int64(k)
			}
		case "statemethod": // statemethod NAME pkg.Type.Getter pkg.Type.Setter
			fs := strings.Fields(rest)
			for _, g := range fs[1:] {
				cs.stateMethods[g] = fs[0]
			}
		case "puremethod":
			for _, g := range strings.Fields(rest) {
				cs.pureMethods[g] = true
			}
		case "loop":
			// loop [k:int+ s:[][]rune!] expr
			if !strings.HasPrefix(rest, "[") {
				return bad(fmt.Errorf("loop needs [vars]"))
			}
			depth, j := 0, 0
			for j = 0; j < len(rest); j++ {
				if rest[j] == '[' {
					depth++
				}
				if rest[j] == ']' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			lt := &LoopTmpl{Text: strings.TrimSpace(rest[j+1:])}
			for _, v := range strings.Fields(rest[1:j]) {
				nm, ty, _ := strings.Cut(v, ":")
				mv := metaVar{name: nm}
				for {
					switch {
					case strings.HasSuffix(ty, "+"):
						mv.plus1 = true
					case strings.HasSuffix(ty, "!"):
						mv.phi = true
					case strings.HasSuffix(ty, "0"):
						mv.consts = append(mv.consts, 0)
					default:
						goto done
					}
					ty = ty[:len(ty)-1]
				}
			done:
				mv.ttext = ty
				if cur.pkg != nil {
					t, err := cs.parseType(ty, cur.pkg)
					if err != nil {
						if err := bad(err); err != nil {
							return err
						}
						lt = nil
						break
					}
					mv.typ = t
				}
				lt.Vars = append(lt.Vars, mv)
			}
			if lt == nil {
				continue
			}
			x, err := parser.ParseExpr(lt.Text)
			if err != nil {
				return bad(err)
			}
			lt.Expr = x
			cur.Loops = append(cur.Loops, lt)
		case "define":
			// define name(a, b) = expr
			eq := strings.Index(rest, "=")
			head, body := strings.TrimSpace(rest[:eq]), strings.TrimSpace(rest[eq+1:])
			op := strings.Index(head, "(")
			m := &Macro{Name: head[:op]}
			for _, a := range strings.Split(strings.TrimSuffix(head[op+1:], ")"), ",") {
				if a = strings.TrimSpace(a); a != "" {
					m.Params = append(m.Params, a)
				}
			}
			x, err := parser.ParseExpr(body)
			if err != nil {
				return bad(fmt.Errorf("%v in %q", err, body))
			}
			m.Expr = x
			cs.macros[m.Name] = m
		case "fold":
			if err := cs.parseFold(rest); err != nil {
				return bad(err)
			}
		case "set":
			if err := parseSet(rest); err != nil {
				return bad(err)
			}
		case "frozen":
			cs.frozen = append(cs.frozen, rest)
		case "sort":
			userSorts = append(userSorts, rest)
		case "rec":
			// rec name(sort,...) sort   : uninterpreted specification function
			op, cl := strings.Index(rest, "("), strings.LastIndex(rest, ")")
			var as []string
			for _, a := range strings.Split(rest[op+1:cl], ",") {
				if a = strings.TrimSpace(a); a != "" {
					as = append(as, specSort(a))
				}
			}
			nm := rest[:op]
			ret := specSort(strings.TrimSpace(rest[cl+1:]))
			declFunc("spec:"+nm, ret, as...)
			recFns[nm] = &RecFn{Name: nm, Sorts: as, Ret: ret}
		case "axiom", "hidden":
			// hidden: only for contracts that reveal the function
			// axiom name,name: forallT(...)   definitional axiom attached to spec functions
			j := strings.Index(rest, ":")
			x, err := parser.ParseExpr(strings.TrimSpace(rest[j+1:]))
			if err != nil {
				return bad(err)
			}
			ev := &evalCtx{e: nil, env: map[string]SV{}, cs: cs}
			t, err := ev.boolean(x)
			if err != nil {
				return bad(err)
			}
			for _, nm := range strings.Split(rest[:j], ",") {
				k := "spec:" + strings.TrimSpace(nm)
				if _, ok := funcDecls[k]; !ok {
					k = strings.TrimSpace(nm)
				}
				if kw == "hidden" {
					hiddenAx[k] = append(hiddenAx[k], t)
					continue
				}
				ufAxioms[k] = append(ufAxioms[k], t)
			}
			axiomTexts = append(axiomTexts, rest)
		default:
			return bad(fmt.Errorf("unknown keyword %q", kw))
		}
	}
	return nil
}

var axiomTexts []string
var hiddenAx = map[string][]*Term{}
var revealed map[string]bool
var recFns = map[string]*RecFn{}

func specSort(s string) string {
	switch s {
	case "int", "rune", "byte":
		return SInt
	case "bool":
		return SBool
	case "string":
		return SStr
	case "slice":
		return SSlc
	case "[]int", "arr":
		return arrSort(SInt)
	case "[]slice":
		return arrSort(SSlc)
	case "[]iface":
		return arrSort(SIfc)
	case "arr2":
		return arrSort(arrSort(SInt))
	case "arr2b":
		return arrSort(arrSort(SBool))
	case "[]bool":
		return arrSort(SBool)
	case "key":
		return "Key"
	case "any":
		return "Any"
	case "iface":
		return SIfc
	}
	return s
}

// parseFold: name(e rune, x int) int [sum] = init ; expr over acc, e, extras
func (cs *Contracts) parseFold(rest string) error {
	eq := strings.Index(rest, "=")
	head, body := strings.TrimSpace(rest[:eq]), rest[eq+1:]
	op, cl := strings.Index(head, "("), strings.LastIndex(head, ")")
	f := &Fold{name: head[:op]}
	var names []string
	var tys []types.Type
	for i, a := range strings.Split(head[op+1:cl], ",") {
		fs := strings.Fields(a)
		names = append(names, fs[0])
		s, ty := cs.foldSort(fs[1])
		tys = append(tys, ty)
		if i == 0 {
			f.elemS = s
			f.elemT = map[string]string{"rune": "int32", "byte": "uint8", "int": "int"}[fs[1]]
		} else {
			f.extra = append(f.extra, s)
		}
	}
	tail := strings.Fields(head[cl+1:])
	var rty types.Type
	f.ret, rty = cs.foldSort(tail[0])
	f.rty = rty
	for _, t := range tail[1:] {
		switch t {
		case "nonneg":
			f.nonneg = true
		case "sum":
			f.sum = true
		case "back":
			f.back = true
		case "seed":
			f.seed = true
		}
	}
	ini, stp, _ := strings.Cut(body, ";")
	xi, err := parser.ParseExpr(strings.TrimSpace(ini))
	if err != nil {
		return err
	}
	xs, err := parser.ParseExpr(strings.TrimSpace(stp))
	if err != nil {
		return err
	}
	f.init = func(extra []*Term) *Term {
		ev := &evalCtx{env: map[string]SV{}, cs: cs}
		for i, x := range extra {
			ev.env[names[i+1]] = SV{x, tys[i+1]}
		}
		sv, err := ev.eval(xi)
		if err != nil {
			panic(err)
		}
		return sv.v.(*Term)
	}
	f.step = func(acc, el *Term, extra []*Term) *Term {
		ev := &evalCtx{env: map[string]SV{"acc": {v: acc, typ: rty}, names[0]: {v: el, typ: tys[0]}}, cs: cs}
		for i, x := range extra {
			ev.env[names[i+1]] = SV{v: x, typ: tys[i+1]}
		}
		sv, err := ev.eval(xs)
		if err != nil {
			panic(err)
		}
		return sv.v.(*Term)
	}
	declFold(f)
	allFolds = append(allFolds, f.name)
	return nil
}

// foldSort also knows the struct types of the module, as package.Type
func (cs *Contracts) foldSort(s string) (string, types.Type) {
	if p, n, ok := strings.Cut(s, "."); ok {
		for _, sp := range cs.p.prog.AllPackages() {
			if sp.Pkg.Name() == p && (cs.p.inRepo(sp) || sp.Pkg.Path() == "container/list") {
				if o, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
					return sortOf(o.Type()), o.Type()
				}
			}
		}
	}
	return specSort(s), nil
}

var allFolds []string

// types in specs
func (cs *Contracts) parseType(s string, pkg *types.Package) (types.Type, error) {
	s = strings.TrimSpace(s)
	switch {
	case strings.HasPrefix(s, "[]"):
		t, err := cs.parseType(s[2:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(t), nil
	case strings.HasPrefix(s, "*"):
		t, err := cs.parseType(s[1:], pkg)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(t), nil
	}
	if s == "rune" {
		return types.Universe.Lookup("rune").Type(), nil
	}
	if s == "byte" {
		return types.Universe.Lookup("byte").Type(), nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type(), nil
		}
	}
	p, n, ok := strings.Cut(s, ".")
	if ok {
		for _, im := range pkg.Imports() {
			if im.Name() == p {
				if o, ok := im.Scope().Lookup(n).(*types.TypeName); ok {
					return o.Type(), nil
				}
			}
		}
		return nil, fmt.Errorf("type %s not found", s)
	}
	if o, ok := pkg.Scope().Lookup(s).(*types.TypeName); ok {
		return o.Type(), nil
	}
	return nil, fmt.Errorf("type %s not found", s)
}

// evaluation ----------------------------------------------------------------------------

type SV struct {
	v   Val
	typ types.Type
}

type evalCtx struct {
	e     *Exec
	cs    *Contracts
	st    *State
	old   *State
	env   map[string]SV
	con   *Contract
	pkg   *types.Package
	depth int
}

func (ev *evalCtx) contracts() *Contracts {
	if ev.cs != nil {
		return ev.cs
	}
	return ev.e.cs
}

var (
	tInt  = types.Typ[types.Int]
	tBool = types.Typ[types.Bool]
)

func (ev *evalCtx) boolean(x ast.Expr) (*Term, error) {
	sv, err := ev.eval(x)
	if err != nil {
		return nil, err
	}
	t, ok := sv.v.(*Term)
	if !ok || t.Sort != SBool {
		return nil, fmt.Errorf("not a boolean: %s", exprStr(x))
	}
	return t, nil
}
func (ev *evalCtx) integer(x ast.Expr) (*Term, error) {
	t, err := ev.term(x)
	if err != nil {
		return nil, err
	}
	if t.Sort != SInt {
		return nil, fmt.Errorf("not an integer: %s", exprStr(x))
	}
	return t, nil
}
func (ev *evalCtx) term(x ast.Expr) (*Term, error) {
	sv, err := ev.eval(x)
	if err != nil {
		return nil, err
	}
	return ev.tm(sv)
}
func (ev *evalCtx) tm(sv SV) (*Term, error) {
	if t, ok := sv.v.(*Term); ok {
		return t, nil
	}
	if ev.e == nil {
		return nil, fmt.Errorf("no term for %T", sv.v)
	}
	return ev.e.term(ev.st, sv.v, sv.typ), nil
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func (ev *evalCtx) with(name string, sv SV) *evalCtx {
	n := *ev
	n.env = make(map[string]SV, len(ev.env)+1)
	for k, v := range ev.env {
		n.env[k] = v
	}
	n.env[name] = sv
	n.depth++
	return &n
}

func (ev *evalCtx) eval(x ast.Expr) (SV, error) {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return ev.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			k, ok := new(big.Int).SetString(n.Value, 0)
			if !ok {
				return SV{}, fmt.Errorf("bad int %s", n.Value)
			}
			return SV{IntB(k), tInt}, nil
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\'')
			if err != nil {
				return SV{}, err
			}
			return SV{Int(int64(r)), tInt}, nil
		case token.STRING:
			s, err := strconv.Unquote(n.Value)
			if err != nil {
				return SV{}, err
			}
			return SV{strLit(s), types.Typ[types.String]}, nil
		}
	case *ast.Ident:
		if sv, ok := ev.env[n.Name]; ok {
			return sv, nil
		}
		switch n.Name {
		case "true":
			return SV{True, tBool}, nil
		case "false":
			return SV{False, tBool}, nil
		case "nil":
			return SV{nil, types.Typ[types.UntypedNil]}, nil
		}
		if ev.pkg != nil {
			switch o := ev.pkg.Scope().Lookup(n.Name).(type) {
			case *types.Const:
				v := constant.ToInt(o.Val())
				if v.Kind() == constant.Int {
					k, _ := new(big.Int).SetString(v.ExactString(), 10)
					return SV{IntB(k), tInt}, nil
				}
			case *types.Var:
				for _, sp := range ev.e.p.prog.AllPackages() {
					if sp.Pkg == ev.pkg {
						if g, ok := sp.Members[n.Name].(*ssa.Global); ok {
							return SV{ev.e.loadGlobal(ev.st, g), o.Type()}, nil
						}
					}
				}
			}
		}
		return SV{}, fmt.Errorf("unknown name %s", n.Name)
	case *ast.UnaryExpr:
		sv, err := ev.eval(n.X)
		if err != nil {
			return SV{}, err
		}
		t, err := ev.tm(sv)
		if err != nil {
			return SV{}, err
		}
		switch n.Op {
		case token.NOT:
			return SV{Not(t), tBool}, nil
		case token.SUB:
			return SV{Neg(t), tInt}, nil
		}
	case *ast.BinaryExpr:
		return ev.binary(n)
	case *ast.SelectorExpr:
		return ev.selector(n)
	case *ast.StarExpr:
		sv, err := ev.eval(n.X)
		if err != nil {
			return SV{}, err
		}
		pt, ok := sv.typ.Underlying().(*types.Pointer)
		if !ok {
			return SV{}, fmt.Errorf("not a pointer: %s", exprStr(n.X))
		}
		if a, ok := sv.v.(*AddrV); ok {
			return SV{ev.e.load(ev.st, a, nil), pt.Elem()}, nil
		}
		t, err := ev.tm(sv)
		if err != nil {
			return SV{}, err
		}
		return SV{ev.e.load(ev.st, ev.e.refAddr(ev.st, pt.Elem(), t), nil), pt.Elem()}, nil
	case *ast.IndexExpr:
		b, err := ev.eval(n.X)
		if err != nil {
			return SV{}, err
		}
		i, err := ev.eval(n.Index)
		if err != nil {
			return SV{}, err
		}
		return ev.index(b, i, exprStr(n))
	case *ast.SliceExpr:
		b, err := ev.eval(n.X)
		if err != nil {
			return SV{}, err
		}
		s, err := ev.tm(b)
		if err != nil {
			return SV{}, err
		}
		lo, hi := Zero, SLen(s)
		if n.Low != nil {
			if lo, err = ev.integer(n.Low); err != nil {
				return SV{}, err
			}
		}
		if n.High != nil {
			if hi, err = ev.integer(n.High); err != nil {
				return SV{}, err
			}
		}
		return SV{MkSlc(SRef(s), Add(SOff(s), lo), Sub(hi, lo), Sub(SCap(s), lo)), b.typ}, nil
	case *ast.CallExpr:
		return ev.call(n)
	}
	return SV{}, fmt.Errorf("cannot evaluate %s (%T)", exprStr(x), x)
}

func (ev *evalCtx) index(b, i SV, what string) (SV, error) {
	it, err := ev.tm(i)
	if err != nil {
		return SV{}, err
	}
	if a, ok := b.v.(*ArrV); ok {
		el := b.typ.Underlying().(*types.Array).Elem()
		return SV{Select(a.arr, Add(a.off, it)), el}, nil
	}
	bt, err := ev.tm(b)
	if err != nil {
		return SV{}, err
	}
	if b.typ == nil {
		if strings.HasPrefix(bt.Sort, "(Array") {
			return SV{Select(bt, it), nil}, nil
		}
		return SV{}, fmt.Errorf("cannot index %s", what)
	}
	switch u := b.typ.Underlying().(type) {
	case *types.Slice:
		h := elemHeapInfo(u.Elem())
		arr := ev.sel(ev.e.heap(ev.st, h), SRef(bt))
		return SV{ev.e.wrap(Select(arr, Add(SOff(bt), it)), u.Elem()), u.Elem()}, nil
	case *types.Map:
		v, _ := ev.e.mapGet(ev.st, u, bt, it)
		return SV{ev.e.wrap(v, u.Elem()), u.Elem()}, nil
	case *types.Basic:
		declFunc("strat", SInt, SStr, SInt)
		return SV{App("strat", SInt, bt, it), tInt}, nil
	case *types.Array:
		return SV{Select(bt, it), u.Elem()}, nil
	}
	return SV{}, fmt.Errorf("cannot index %s", what)
}

// sel avoids consulting the path solver inside quantifiers.
func (ev *evalCtx) sel(h, ref *Term) *Term {
	if ref.hasB {
		return Select(h, ref)
	}
	return ev.e.selHeap(ev.st, h, ref)
}

func (ev *evalCtx) selector(n *ast.SelectorExpr) (SV, error) {
	b, err := ev.eval(n.X)
	if err != nil {
		return SV{}, err
	}
	return ev.field(b, n.Sel.Name)
}

func (ev *evalCtx) field(b SV, name string) (SV, error) {
	if b.typ == nil {
		return SV{}, fmt.Errorf("field %s of untyped value", name)
	}
	t := b.typ
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return SV{}, fmt.Errorf("no field %s in %s", name, t)
	}
	idx := fieldIndex(s, name)
	if idx < 0 { // promoted field
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Embedded() {
				continue
			}
			if _, p, _ := types.LookupFieldOrMethod(f.Type(), true, f.Pkg(), name); len(p) > 0 {
				in, err := ev.field(b, f.Name())
				if err != nil {
					return SV{}, err
				}
				return ev.field(in, name)
			}
		}
		return SV{}, fmt.Errorf("no field %s in %s", name, t)
	}
	ft := s.Field(idx).Type()
	if ptr {
		if x, ok := b.v.(*Term); ok && splitField(t, idx) { // the address of the object
			return SV{Add(x, One), types.NewPointer(ft)}, nil
		}
		var a *AddrV
		switch x := b.v.(type) {
		case *AddrV:
			a = ev.e.fieldAddr(ev.st, x, idx)
			if x.kind == "cell" {
				if r, ok := ev.st.promo[x.cell]; ok {
					a = ev.e.fieldAddr(ev.st, ev.e.refAddr(ev.st, x.typ, r), idx)
				}
			}
		case *Term:
			h := fieldHeapInfo(t, idx)
			v := ev.sel(ev.e.heap(ev.st, h), x)
			return SV{ev.e.wrap(v, ft), ft}, nil
		default:
			return SV{}, fmt.Errorf("field of %T", b.v)
		}
		return SV{ev.e.load(ev.st, a, nil), ft}, nil
	}
	bt, err := ev.tm(b)
	if err != nil {
		return SV{}, err
	}
	return SV{ev.e.wrap(SelD(bt, idx), ft), ft}, nil
}

// fieldIndex resolves a field; "name|type" falls back on the only field of that type.
func fieldIndex(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	if t, ok := fieldFallback[name]; ok {
		k := -1
		for i := 0; i < s.NumFields(); i++ {
			if typeKey(s.Field(i).Type()) == t {
				if k >= 0 {
					return -1
				}
				k = i
			}
		}
		return k
	}
	return -1
}

var fieldFallback = map[string]string{"offset": "int", "runes": "[]int32"}

func (ev *evalCtx) binary(n *ast.BinaryExpr) (SV, error) {
	a, err := ev.eval(n.X)
	if err != nil {
		return SV{}, err
	}
	b, err := ev.eval(n.Y)
	if err != nil {
		return SV{}, err
	}
	if n.Op == token.EQL || n.Op == token.NEQ {
		var r *Term
		isNil := func(s SV) bool { bt, ok := s.typ.(*types.Basic); return ok && bt.Kind() == types.UntypedNil }
		switch {
		case isNil(b):
			r, err = ev.isNil(a)
		case isNil(a):
			r, err = ev.isNil(b)
		default:
			x, e1 := ev.tm(a)
			y, e2 := ev.tm(b)
			if e1 != nil {
				return SV{}, e1
			}
			if e2 != nil {
				return SV{}, e2
			}
			x, y = coerceReal(x, y)
			if x.Sort != y.Sort {
				return SV{}, fmt.Errorf("comparing %s with %s in %s", x.Sort, y.Sort, exprStr(n))
			}
			r = Eq(x, y)
		}
		if err != nil {
			return SV{}, err
		}
		if n.Op == token.NEQ {
			r = Not(r)
		}
		return SV{r, tBool}, nil
	}
	x, err := ev.tm(a)
	if err != nil {
		return SV{}, err
	}
	y, err := ev.tm(b)
	if err != nil {
		return SV{}, err
	}
	if x, y = coerceReal(x, y); x.Sort == SReal {
		if o := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "/"}[n.Op]; o != "" {
			return SV{mk(&Term{Op: "op", Name: o, Sort: SReal, Args: []*Term{x, y}}), types.Typ[types.Float64]}, nil
		}
	}
	switch n.Op {
	case token.LAND:
		return SV{And(x, y), tBool}, nil
	case token.LOR:
		return SV{Or(x, y), tBool}, nil
	case token.ADD:
		return SV{Add(x, y), tInt}, nil
	case token.SUB:
		return SV{Sub(x, y), tInt}, nil
	case token.MUL:
		return SV{Mul(x, y), tInt}, nil
	case token.QUO:
		return SV{DivF(x, y), tInt}, nil
	case token.REM:
		return SV{ModF(x, y), tInt}, nil
	case token.LSS:
		return SV{Lt(x, y), tBool}, nil
	case token.LEQ:
		return SV{Le(x, y), tBool}, nil
	case token.GTR:
		return SV{Lt(y, x), tBool}, nil
	case token.GEQ:
		return SV{Le(y, x), tBool}, nil
	}
	return SV{}, fmt.Errorf("operator %s", n.Op)
}

// coerceReal reads an integer operand next to a real one as a real number.
func coerceReal(x, y *Term) (*Term, *Term) {
	switch {
	case x.Sort == SReal && y.Sort == SInt:
		return x, toReal(y)
	case x.Sort == SInt && y.Sort == SReal:
		return toReal(x), y
	}
	return x, y
}

func toReal(x *Term) *Term {
	if isInt(x) {
		return RatLit(new(big.Rat).SetInt(x.K))
	}
	return mk(&Term{Op: "op", Name: "to_real", Sort: SReal, Args: []*Term{x}})
}

func (ev *evalCtx) isNil(a SV) (*Term, error) {
	switch v := a.v.(type) {
	case *IfaceV, *FuncV:
		return False, nil
	case *AddrV:
		return False, nil
	case *SymFunc:
		return Eq(v.t, Zero), nil
	case *Term:
		switch v.Sort {
		case SSlc:
			return Eq(SRef(v), Zero), nil
		case SIfc:
			return Eq(SelD(v, 0), Zero), nil
		case SInt:
			return Eq(v, Zero), nil
		}
	}
	return nil, fmt.Errorf("nil comparison of %T", a.v)
}

func (ev *evalCtx) call(n *ast.CallExpr) (SV, error) {
	name := exprStr(n.Fun)
	args := n.Args
	need := func(k int) error {
		if len(args) != k {
			return fmt.Errorf("%s needs %d arguments", name, k)
		}
		return nil
	}
	switch name {
	case "len", "cap":
		sv, err := ev.eval(args[0])
		if err != nil {
			return SV{}, err
		}
		if sv.typ == nil {
			t, err := ev.tm(sv)
			if err != nil {
				return SV{}, err
			}
			if t.Sort == SSlc {
				return SV{SLen(t), tInt}, nil
			}
			return SV{}, fmt.Errorf("len of %s", t.Sort)
		}
		return SV{ev.e.lenOf(ev.st, sv.v, sv.typ, name == "cap"), tInt}, nil
	case "old":
		c := *ev
		c.st = ev.old
		return c.eval(args[0])
	case "imp", "iff", "same":
		if err := need(2); err != nil {
			return SV{}, err
		}
		a, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		b, err := ev.term(args[1])
		if err != nil {
			return SV{}, err
		}
		if name == "imp" {
			return SV{Imp(a, b), tBool}, nil
		}
		return SV{Eq(a, b), tBool}, nil
	case "ite":
		c, err := ev.boolean(args[0])
		if err != nil {
			return SV{}, err
		}
		a, err := ev.eval(args[1])
		if err != nil {
			return SV{}, err
		}
		b, err := ev.eval(args[2])
		if err != nil {
			return SV{}, err
		}
		at, _ := ev.tm(a)
		bt, _ := ev.tm(b)
		at, bt = coerceReal(at, bt)
		if at.Sort == SReal {
			a.typ = types.Typ[types.Float64]
		}
		return SV{Ite(c, at, bt), a.typ}, nil
	case "forall", "exists":
		// forall(i, lo, hi, body)
		id := args[0].(*ast.Ident).Name
		lo, err := ev.integer(args[1])
		if err != nil {
			return SV{}, err
		}
		hi, err := ev.integer(args[2])
		if err != nil {
			return SV{}, err
		}
		if isInt(lo) && isInt(hi) && lo.K.IsInt64() && hi.K.IsInt64() && hi.i64()-lo.i64() <= 512 {
			t, err := ev.expandQ(id, lo, hi, args[3], name == "forall")
			return SV{t, tBool}, err
		}
		b := BV(fmt.Sprintf("%s!%d", id, ev.depth), SInt)
		body, err := ev.with(id, SV{b, tInt}).boolean(args[3])
		if err != nil {
			return SV{}, err
		}
		g := And(Le(lo, b), Lt(b, hi))
		if name == "exists" {
			return SV{Not(relForall(b, Imp(g, Not(body)))), tBool}, nil
		}
		return SV{relForall(b, Imp(g, body)), tBool}, nil
	case "forallT", "existsT":
		// forallT(x, sort, body[, pattern...])
		id := args[0].(*ast.Ident).Name
		srt, typ := ev.contracts().foldSort(exprStr(args[1]))
		b := BV(fmt.Sprintf("%s!%d", id, ev.depth), srt)
		if srt == SInt {
			typ = tInt
		}
		c := ev.with(id, SV{b, typ})
		body, err := c.boolean(args[2])
		if err != nil {
			return SV{}, err
		}
		var pat []*Term
		for _, p := range args[3:] {
			pt, err := c.term(p)
			if err != nil {
				return SV{}, err
			}
			pat = append(pat, pt)
		}
		if name == "existsT" {
			return SV{Not(mergeForall(b, Not(body), pat)), tBool}, nil
		}
		return SV{mergeForall(b, body, pat), tBool}, nil
	case "fresh":
		t, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		if t.Sort == SSlc {
			t = SRef(t)
		}
		return SV{Le(ev.old.next, t), tBool}, nil
	case "ref", "off":
		t, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		if name == "ref" {
			return SV{SRef(t), tInt}, nil
		}
		return SV{SOff(t), tInt}, nil
	case "arr": // content array of a slice
		sv, err := ev.eval(args[0])
		if err != nil {
			return SV{}, err
		}
		t, err := ev.tm(sv)
		if err != nil {
			return SV{}, err
		}
		el := sv.typ.Underlying().(*types.Slice).Elem()
		return SV{ev.sel(ev.e.heap(ev.st, elemHeapInfo(el)), SRef(t)), nil}, nil
	case "hf", "hd", "hv": // hf(pkg.Type.field): heap of a field; hd, hv: domains and values of the maps of that type
		t, i, err := ev.contracts().fieldPath(exprStr(args[0]))
		if err != nil {
			return SV{}, err
		}
		if name == "hf" {
			return SV{ev.e.heap(ev.st, fieldHeapInfo(t, i)), nil}, nil
		}
		m, ok := t.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Map)
		if !ok {
			return SV{}, fmt.Errorf("%s is not a map", exprStr(args[0]))
		}
		d, v, _ := mapInfos(m)
		if name == "hd" {
			return SV{ev.e.heap(ev.st, d), nil}, nil
		}
		return SV{ev.e.heap(ev.st, v), nil}, nil
	case "dyn", "isdyn": // dyn(x, "T"): the value of type T held by interface value x
		x, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		lit, ok := args[1].(*ast.BasicLit)
		if !ok || x.Sort != SIfc {
			return SV{}, fmt.Errorf("%s of %s", name, exprStr(n))
		}
		t, err := ev.contracts().parseType(strings.Trim(lit.Value, "\""), ev.pkg)
		if err != nil {
			return SV{}, err
		}
		if name == "isdyn" {
			return SV{Eq(SelD(x, 0), typeTag(t)), tBool}, nil
		}
		return SV{ev.e.unbox(SelD(x, 1), t), t}, nil
	case "as": // as(x, "T"): the term x read as a value of type T
		x, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		lit, ok := args[1].(*ast.BasicLit)
		if !ok {
			return SV{}, fmt.Errorf("%s of %s", name, exprStr(n))
		}
		t, err := ev.contracts().parseType(strings.Trim(lit.Value, "\""), ev.pkg)
		if err != nil {
			return SV{}, err
		}
		if sortOf(t) != x.Sort {
			return SV{}, fmt.Errorf("%s as %s", exprStr(args[0]), t)
		}
		return SV{x, t}, nil
	case "helem": // helem("T"): contents of all slices of T
		lit, ok := args[0].(*ast.BasicLit)
		if !ok {
			return SV{}, fmt.Errorf("helem")
		}
		t, err := ev.contracts().parseType(strings.Trim(lit.Value, "\""), ev.pkg)
		if err != nil {
			return SV{}, err
		}
		return SV{ev.e.heap(ev.st, elemHeapInfo(t)), nil}, nil
	case "has":
		m, err := ev.eval(args[0])
		if err != nil {
			return SV{}, err
		}
		k, err := ev.term(args[1])
		if err != nil {
			return SV{}, err
		}
		mt := m.typ.Underlying().(*types.Map)
		_, has := ev.e.mapGet(ev.st, mt, m.v.(*Term), k)
		return SV{has, tBool}, nil
	case "runesof": // array of the runes of a string
		t, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		return SV{ev.e.runesArr(ev.st, t), nil}, nil
	case "nrunes":
		t, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		return SV{ev.e.nrunes(ev.st, t), tInt}, nil
	case "call": // call(fn, args...)
		f, err := ev.eval(args[0])
		if err != nil {
			return SV{}, err
		}
		var ts []*Term
		for _, a := range args[1:] {
			t, err := ev.term(a)
			if err != nil {
				return SV{}, err
			}
			ts = append(ts, t)
		}
		switch fv := f.v.(type) {
		case *SymFunc:
			return SV{symApp(fv.t, fv.sig, 0, ts), fv.sig.Results().At(0).Type()}, nil
		}
		return SV{}, fmt.Errorf("call of %T", f.v)
	case "method": // method(recv, Name, args...) on an interface value
		r, err := ev.eval(args[0])
		if err != nil {
			return SV{}, err
		}
		rt, err := ev.tm(r)
		if err != nil {
			return SV{}, err
		}
		mn := exprStr(args[1])
		if len(args) == 3 { // method(recv, Name, "T"): recv as a T
			lit, ok := args[2].(*ast.BasicLit)
			if !ok {
				return SV{}, fmt.Errorf("%s of %s", name, exprStr(n))
			}
			if r.typ, err = ev.contracts().parseType(strings.Trim(lit.Value, "\""), ev.pkg); err != nil {
				return SV{}, err
			}
		}
		obj, _, _ := types.LookupFieldOrMethod(r.typ, true, ev.pkg, mn)
		m, ok := obj.(*types.Func)
		if !ok {
			return SV{}, fmt.Errorf("no method %s", mn)
		}
		sig := m.Type().(*types.Signature)
		rty := sig.Results().At(0).Type()
		if g, ok := ev.contracts().stateMethods[typeKey(r.typ)+"."+mn]; ok {
			return SV{Select(ev.e.heap(ev.st, methodState(g, sig)), rt), rty}, nil
		}
		nm := invName(r.typ, mn, 0)
		declFunc(nm, sortOf(rty), SIfc)
		return SV{App(nm, sortOf(rty), rt), rty}, nil
	case "applyopt": // applyopt(fn, struct): what an option makes of a struct
		f, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		s, err := ev.eval(args[1])
		if err != nil {
			return SV{}, err
		}
		t, err := ev.tm(s)
		if err != nil {
			return SV{}, err
		}
		return SV{applyOpt(f, t), s.typ}, nil
	case "optsets": // optsets(fn, Field, value)
		f, err := ev.eval(args[0])
		if err != nil {
			return SV{}, err
		}
		v, err := ev.term(args[2])
		if err != nil {
			return SV{}, err
		}
		t, err := ev.e.optEffect(ev, f.v, exprStr(args[1]), v)
		return SV{t, tBool}, err
	case "bound": // every reference in use is below bound()
		return SV{ev.st.next, tInt}, nil
	case "nev":
		return SV{ev.e.heap(ev.st, evN()), tInt}, nil
	case "evkind", "evarr", "evoff", "evlen", "evrecv", "evresn", "evrese", "evarg":
		i, err := ev.integer(args[0])
		if err != nil {
			return SV{}, err
		}
		h := map[string]*heapInfo{"evkind": evKind(), "evarr": evArr(), "evoff": evOff(), "evlen": evLen(), "evrecv": evRecv(), "evresn": evRn(), "evarg": evArg(), "evrese": evRe()}[name]
		t := Select(ev.e.heap(ev.st, h), i)
		if t.Sort == SInt {
			return SV{t, tInt}, nil
		}
		return SV{t, nil}, nil
	}
	// fold over a slice or over array bounds
	if f, ok := folds[name]; ok {
		if len(args) == 1+len(f.extra) {
			sv, err := ev.eval(args[0])
			if err != nil {
				return SV{}, err
			}
			s, err := ev.tm(sv)
			if err != nil {
				return SV{}, err
			}
			el := sv.typ.Underlying().(*types.Slice).Elem()
			arr := ev.sel(ev.e.heap(ev.st, elemHeapInfo(el)), SRef(s))
			var ex []*Term
			for _, a := range args[1:] {
				t, err := ev.term(a)
				if err != nil {
					return SV{}, err
				}
				ex = append(ex, t)
			}
			return ev.typedF(f, f.app(arr, SOff(s), Add(SOff(s), SLen(s)), ex)), nil
		}
		var ts []*Term
		for _, a := range args {
			t, err := ev.term(a)
			if err != nil {
				return SV{}, err
			}
			ts = append(ts, t)
		}
		return ev.typedF(f, f.app(ts[0], ts[1], ts[2], ts[3:])), nil
	}
	if m, ok := ev.contracts().macros[name]; ok {
		if len(m.Params) != len(args) {
			return SV{}, fmt.Errorf("%s needs %d arguments", name, len(m.Params))
		}
		c := *ev
		c.env = map[string]SV{}
		c.depth = ev.depth + 10
		for i, a := range args {
			sv, err := ev.eval(a)
			if err != nil {
				return SV{}, err
			}
			c.env[m.Params[i]] = sv
		}
		return c.eval(m.Expr)
	}
	if r, ok := recFns[name]; ok {
		var ts []*Term
		for _, a := range args {
			t, err := ev.term(a)
			if err != nil {
				return SV{}, err
			}
			ts = append(ts, t)
		}
		if len(ts) != len(r.Sorts) {
			return SV{}, fmt.Errorf("%s needs %d arguments", name, len(r.Sorts))
		}
		for i := range ts {
			if ts[i].Sort != r.Sorts[i] {
				return SV{}, fmt.Errorf("%s: argument %d has sort %s, wants %s", name, i, ts[i].Sort, r.Sorts[i])
			}
		}
		return ev.typed(App("spec:"+name, r.Ret, ts...)), nil
	}
	if _, ok := specSets[name]; ok {
		t, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		return SV{setApp(name, t), tBool}, nil
	}
	if _, ok := pureUnicode[name]; ok {
		t, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		return ev.typed(unicodeApp(nil, name, t)), nil
	}
	if name == "inset" { // inset(set, r)
		s, err := ev.term(args[0])
		if err != nil {
			return SV{}, err
		}
		t, err := ev.term(args[1])
		if err != nil {
			return SV{}, err
		}
		return SV{setContains(s, t), tBool}, nil
	}
	if h, ok := ev.contracts().builtin[name]; ok {
		var svs []SV
		for _, a := range args {
			sv, err := ev.eval(a)
			if err != nil {
				return SV{}, err
			}
			svs = append(svs, sv)
		}
		return h(ev, svs)
	}
	return SV{}, fmt.Errorf("unknown function %s", name)
}

func (ev *evalCtx) typed(t *Term) SV {
	switch t.Sort {
	case SInt:
		return SV{t, tInt}
	case SBool:
		return SV{t, tBool}
	case SStr:
		return SV{t, types.Typ[types.String]}
	}
	return SV{t, nil}
}

// mergeForall merges directly nested universal quantifiers.
func mergeForall(b *Term, body *Term, pat []*Term) *Term {
	if body.Op == "and" {
		var cs []*Term
		for _, a := range body.Args {
			cs = append(cs, mergeForall(b, a, pat))
		}
		return And(cs...)
	}
	vars := []*Term{b}
	inner := func(f *Term) {
		if len(pat) == 0 && explicitPats[f] {
			pat = f.Pats[0]
		}
	}
	if body.Op == "forall" {
		vars = append(vars, body.Vars...)
		inner(body)
		body = body.Args[0]
	} else if body.Op == "or" {
		var fa *Term
		for _, a := range body.Args {
			if a.Op == "forall" {
				if fa != nil {
					fa = nil
					break
				}
				fa = a
			}
			if a.Op == "and" {
				// distribute when it contains quantifiers
				hasF := false
				for _, x := range a.Args {
					if x.Op == "forall" {
						hasF = true
					}
				}
				if hasF {
					var rest []*Term
					for _, x := range body.Args {
						if x != a {
							rest = append(rest, x)
						}
					}
					var cs []*Term
					for _, x := range a.Args {
						cs = append(cs, mergeForall(b, Or(append(append([]*Term{}, rest...), x)...), pat))
					}
					return And(cs...)
				}
			}
		}
		if fa != nil {
			var xs []*Term
			for _, a := range body.Args {
				if a != fa {
					xs = append(xs, a)
				}
			}
			vars = append(vars, fa.Vars...)
			inner(fa)
			body = Or(append(xs, fa.Args[0])...)
		}
	}
	if len(pat) > 0 {
		r := Forall(vars, body, pat)
		if r.Op == "forall" {
			explicitPats[r] = true
		}
		return r
	}
	return Forall(vars, body)
}

var explicitPats = map[*Term]bool{} // quantifiers whose trigger was given in the contract

// relForall quantifies over an index; occurrences select(a, off+i) are
// re-expressed over the absolute index so that triggers are plain variables.
func relForall(b *Term, body *Term) *Term {
	if body.Op == "and" {
		var cs []*Term
		for _, a := range body.Args {
			cs = append(cs, relForall(b, a))
		}
		return And(cs...)
	}
	inner := map[*Term]bool{}
	walk(body, map[*Term]bool{}, func(t *Term) {
		if t.Op == "forall" {
			for _, v := range t.Vars {
				inner[v] = true
			}
		}
	})
	var shifts []*Term
	plain := false
	seenS := map[*Term]bool{}
	var visit func(t *Term, seen map[*Term]bool)
	visit = func(t *Term, seen map[*Term]bool) {
		if !t.hasB || seen[t] {
			return
		}
		seen[t] = true
		idx := func(i *Term) {
			if i == b {
				plain = true
			} else if i.Op == "lin" {
			idxl:
				for k, a := range i.Args {
					if a == b && i.C[k].Cmp(b1) == 0 {
						sh := Sub(i, b)
						fv := map[*Term]bool{}
						freeBV(sh, fv, map[*Term]bool{})
						for v := range fv {
							if inner[v] {
								continue idxl
							}
						}
						if !seenS[sh] {
							seenS[sh] = true
							shifts = append(shifts, sh)
						}
					}
				}
			}
		}
		if t.Op == "select" {
			idx(t.Args[1])
		}
		if t.Op == "app" {
			for _, a := range t.Args {
				if a.Sort == SInt {
					if a == b {
						plain = true
					}
				}
			}
		}
		for _, a := range t.Args {
			visit(a, seen)
		}
	}
	visit(body, map[*Term]bool{})
	if len(shifts) == 0 {
		return mergeForall(b, body, nil)
	}
	sort.SliceStable(shifts, func(i, j int) bool { return shifts[i].size < shifts[j].size })
	var out []*Term
	if plain {
		out = append(out, mergeForall(b, body, nil))
	}
	for i, sh := range shifts {
		if i >= 3 {
			break
		}
		v := b
		if len(out) > 0 {
			v = BV(b.Name+"~", b.Sort) // a redundant form, see slice.go
		}
		out = append(out, mergeForall(v, Subst(body, map[*Term]*Term{b: Sub(v, sh)}), nil))
	}
	return And(out...)
}

// contract helpers -------------------------------------------------------------------------

func (c *Contract) paramEnv(e *Exec, entry *State) map[string]SV {
	env := map[string]SV{}
	if entry == nil || len(entry.frames) == 0 {
		return env
	}
	f := entry.frames[0]
	for i, p := range f.fn.Params {
		if i < len(c.Params) {
			env[c.Params[i]] = SV{f.env[p], p.Type()}
		}
	}
	return env
}

// modifiesHeap: `modifies any(pkg.Type.field)` (the field of every object of the
// type) and `modifies anymap(pkg.Type.field)` (every map of the field's type).
func (c *Contract) modifiesHeap(e *Exec, st *State, h *heapInfo, ref *Term) bool {
	for _, m := range c.Modifies {
		x, ok := m.Expr.(*ast.CallExpr)
		if !ok {
			continue
		}
		n := exprStr(x.Fun)
		if n != "any" && n != "anymap" {
			continue
		}
		t, i, err := e.cs.fieldPath(exprStr(x.Args[0]))
		if err != nil {
			panic(Unsupported("modifies " + m.Text + ": " + err.Error()))
		}
		if n == "any" {
			if fieldHeapInfo(t, i) == h {
				return true
			}
			continue
		}
		if mt, ok := t.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Map); ok {
			if d, v, l := mapInfos(mt); h == d || h == v || h == l {
				return true
			}
		}
	}
	return false
}

// fieldPath resolves pkg.Type.field to a struct type of the module and a field.
func (cs *Contracts) fieldPath(s string) (types.Type, int, error) {
	j := strings.LastIndex(s, ".")
	if j < 0 {
		return nil, 0, fmt.Errorf("bad field path %s", s)
	}
	_, t := cs.foldSort(s[:j])
	if t == nil {
		return nil, 0, fmt.Errorf("type %s not found", s[:j])
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, 0, fmt.Errorf("%s is not a struct", s[:j])
	}
	i := fieldIndex(st, s[j+1:])
	if i < 0 {
		return nil, 0, fmt.Errorf("no field %s", s)
	}
	return t, i, nil
}

// modifiesRefs lists the references the contract allows to be written in heap h.
func (c *Contract) modifiesRefs(e *Exec, st *State, h *heapInfo) []*Term {
	if len(c.Modifies) == 0 || e.entry == nil {
		return nil
	}
	return c.modRefs(e, e.entry, c.paramEnv(e, e.entry), c.pkg, h)
}

func (c *Contract) modRefs(e *Exec, entry *State, env map[string]SV, pkg *types.Package, h *heapInfo) []*Term {
	var out []*Term
	ev := &evalCtx{e: e, st: entry.clone(), old: entry, env: env, con: c, pkg: pkg}
	for _, m := range c.Modifies {
		switch x := m.Expr.(type) {
		case *ast.SelectorExpr: // p.f
			b, err := ev.eval(x.X)
			if err != nil {
				panic(Unsupported("modifies " + m.Text + ": " + err.Error()))
			}
			pt, ok := b.typ.Underlying().(*types.Pointer)
			if !ok {
				panic(Unsupported("modifies " + m.Text))
			}
			s := pt.Elem().Underlying().(*types.Struct)
			i := fieldIndex(s, x.Sel.Name)
			if x.Sel.Name == "all" {
				for k := 0; k < s.NumFields(); k++ {
					if fieldHeapInfo(pt.Elem(), k) == h {
						i = k
					}
				}
			}
			if i >= 0 && fieldHeapInfo(pt.Elem(), i) == h {
				t, err := ev.tm(b)
				if err != nil {
					panic(Unsupported(err.Error()))
				}
				out = append(out, t)
			}
		case *ast.CallExpr: // elems(s), map(m)
			if n := exprStr(x.Fun); n == "any" || n == "anymap" {
				continue
			}
			b, err := ev.eval(x.Args[0])
			if err != nil {
				panic(Unsupported("modifies " + m.Text + ": " + err.Error()))
			}
			t, err := ev.tm(b)
			if err != nil {
				panic(Unsupported(err.Error()))
			}
			switch u := b.typ.Underlying().(type) {
			case *types.Slice:
				if elemHeapInfo(u.Elem()) == h {
					out = append(out, SRef(t))
				}
			case *types.Map:
				d, v, l := mapInfos(u)
				if h == d || h == v || h == l {
					out = append(out, t)
				}
			case *types.Pointer:
				if boxHeapInfo(u.Elem()) == h {
					out = append(out, t)
				}
			}
		}
	}
	return out
}

func (c *Contract) evalOld(e *Exec, cl *Clause) *Term {
	ev := &evalCtx{e: e, st: e.entry.clone(), old: e.entry, env: c.paramEnv(e, e.entry), con: c, pkg: c.pkg}
	t, err := ev.boolean(cl.Expr)
	if err != nil {
		panic(Unsupported(cl.Text + ": " + err.Error()))
	}
	return t
}

// applyContract replaces a call by the callee's contract.
func (e *Exec) applyContract(st *State, c *Contract, fn *ssa.Function, args []Val, dst ssa.Value, in ssa.Instruction) bool {
	if e.quiet == 0 {
		e.called[c.Name] = true
		if c.Trusted {
			for _, en := range c.Ensures {
				e.assumed["assumed contract of "+c.Name+": "+en.Text] = true
			}
		}
	}
	env := map[string]SV{}
	for i, p := range fn.Params {
		v := args[i]
		switch x := v.(type) {
		case *AddrV:
			if x.kind == "cell" {
				v = e.term(st, x, p.Type()) // escapes
			}
		case *FuncV:
			if t := e.term(st, x, p.Type()); t != nil {
				v = &SymFunc{t, p.Type().Underlying().(*types.Signature)}
				if len(x.bind) == 0 {
					e.closures()[t] = x
				}
				st.assume(Lt(Zero, t))
				e.symDef(st, v.(*SymFunc), x)
			}
		}
		if i < len(c.Params) {
			env[c.Params[i]] = SV{v, p.Type()}
		}
	}
	e.nameHeaps(st)
	pre := st.clone()
	ev := &evalCtx{e: e, st: st, old: pre, env: env, con: c, pkg: c.pkg}
	for _, r := range c.Requires {
		t, err := ev.boolean(r.Expr)
		if err != nil {
			e.fail(st, "requires %s of %s: %v", r.Name, c.Name, err)
		}
		e.oblige(st, "pre:"+shortName(c.Name)+"."+r.Name, t, e.where(in))
	}
	// effects
	keys, allocs, globs := e.effects(fn)
	pre = st.clone()
	if allocs {
		n := Fresh("next", SInt)
		st.assume(Le(st.next, n))
		st.next = n
	}
	var hs []string
	for k := range keys {
		hs = append(hs, k)
	}
	sort.Strings(hs)
	for _, k := range hs {
		h := heapInfos[k]
		o := e.heap(st, h)
		nh := Fresh("H."+k, h.sort)
		if h.kind == "ghost" {
			st.heaps[k] = nh
			continue
		}
		st.heaps[k] = nh
		e.wfHeap(st, h, nh, st.next)
		if c.modifiesHeap(e, st, h, nil) {
			if e.target != nil && !e.target.modifiesHeap(e, st, h, nil) && e.entry != nil {
				e.oblige(st, "frame:"+h.key, False, e.where(in))
			}
			continue
		}
		mr := c.modRefs(e, pre, env, c.pkg, h)
		for _, r := range mr {
			// the caller's own frame
			e.frameCheck(st, h, r)
		}
		r := BV("r!c", SInt)
		var ex []*Term
		for _, m := range mr {
			ex = append(ex, Eq(r, m))
		}
		sel := Select(nh, r)
		st.assume(Forall([]*Term{r}, Or(append(ex, Not(Lt(r, pre.next)), Eq(sel, Select(o, r)))...), []*Term{sel}))
	}
	for g := range globs {
		if !c.modGlobals[g.Name()] && !onceGlobs[g] {
			continue // shown unchanged when the callee was verified
		}
		e.frameCheckGlob(st, g)
		h := globHeapInfo(g)
		e.heap(st, h)
		nh := Fresh("G."+g.Name(), h.sort)
		st.heaps[h.key] = nh
		e.wfHeap(st, h, nh, st.next)
	}
	var res []Val
	ev = &evalCtx{e: e, st: st, old: pre, env: env, con: c, pkg: c.pkg}
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		t := Fresh("res."+fn.Name(), sortOf(rt))
		st.assume(typeFact(t, rt, st.next))
		v := e.wrap(t, rt)
		res = append(res, v)
		env[fmt.Sprintf("result%d", i)] = SV{v, rt}
		if i == 0 {
			env["result"] = SV{v, rt}
		}
	}
	for _, p := range c.Ensures {
		t, err := ev.boolean(p.Expr)
		if err != nil {
			e.fail(st, "ensures %s of %s: %v", p.Name, c.Name, err)
		}
		st.assume(t)
	}
	e.ret(st, dst, res)
	return true
}

func shortName(n string) string {
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return strings.TrimSuffix(strings.ReplaceAll(n, ")", ""), "(")
}

// nameHeaps introduces constants for compound heap terms: quantified facts
// stated afterwards have simple triggers.
func (e *Exec) nameHeaps(st *State) {
	var ks []string
	for k := range st.heaps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := st.heaps[k]
		h := heapInfos[k]
		if t.Op == "store" && h.kind != "ghost" {
			// keep stores on fresh references visible: name only deep chains
			d := 0
			for x := t; x.Op == "store"; x = x.Args[0] {
				d++
			}
			_ = d
			c := Fresh("N."+k, h.sort)
			nameDefs[c] = t
			st.assume(Eq(c, t))
			// make individual cells available
			for x := t; x.Op == "store"; x = x.Args[0] {
				st.assume(Eq(Select(c, x.Args[1]), Select(t, x.Args[1])))
			}
			st.heaps[k] = c
		}
	}
}

// symDef states what a known function computes, for use by contracts that
// mention it as an unknown function.
func (e *Exec) symDef(st *State, s *SymFunc, f *FuncV) {
	if len(f.bind) > 0 || s.sig.Params().Len() != 1 || s.sig.Results().Len() != 1 {
		return
	}
	if sortOf(s.sig.Params().At(0).Type()) != SInt {
		return
	}
	name := fnName(f.fn)
	b := BV("x!d", SInt)
	app := symApp(s.t, s.sig, 0, []*Term{b})
	if _, ok := pureUnicode[name]; ok {
		st.assume(Forall([]*Term{b}, Eq(app, unicodeApp(nil, name, b)), []*Term{app}))
		return
	}
	con := e.cs.get(f.fn)
	if con == nil || e.forceInline[con.Name] || con.Inline {
		e.symBody(st, s, f, b, app)
		return
	}
	{
		c := st.clone()
		ev := &evalCtx{e: e, st: c, old: c, env: map[string]SV{}, con: con, pkg: con.pkg}
		if len(con.Params) > 0 {
			ev.env[con.Params[0]] = SV{b, s.sig.Params().At(0).Type()}
		}
		ev.env["result"] = SV{app, s.sig.Results().At(0).Type()}
		if len(con.Requires) > 0 {
			return
		}
		e.called[con.Name] = true
		for _, p := range con.Ensures {
			t, err := ev.boolean(p.Expr)
			if err != nil {
				e.fail(st, "ensures of %s: %v", con.Name, err)
			}
			lo, hi, _, _, ok := intRange(s.sig.Params().At(0).Type())
			if ok {
				t = Imp(And(Le(lo, b), Le(b, hi)), t)
			}
			st.assume(Forall([]*Term{b}, t, []*Term{app}))
		}
	}
}

// symBody states what a known function without a contract computes, when its body
// is free of loops and of memory: one fact for each path through it.
func (e *Exec) symBody(st *State, s *SymFunc, f *FuncV, b, app *Term) {
	if f.fn.Blocks == nil || !e.p.inRepo(f.fn.Pkg) || hasLoop(f.fn) {
		return
	}
	pt := s.sig.Params().At(0).Type()
	x := Fresh("arg", sortOf(pt))
	c := st.clone()
	c.frames = c.frames[:1]
	c.loops, c.joins = nil, nil
	c.assume(typeFact(x, pt, c.next))
	base := len(c.facts())
	next := c.next
	type res struct{ cond, val *Term }
	var all []res
	good := true
	e.pushFrame(c, f.fn, []Val{e.wrap(x, pt)}, nil, nil)
	c.top().onRet = func(s2 *State, rv []Val) {
		if s2.next != next || len(rv) != 1 || len(s2.events) != len(st.events) {
			good = false
			return
		}
		for k, h := range s2.heaps {
			if g, ok := st.heaps[k]; ok && g != h {
				good = false
			}
		}
		r := res{And(s2.facts()[base:]...), e.term(s2, rv[0], s.sig.Results().At(0).Type())}
		seen := map[*Term]bool{}
		for _, t := range []*Term{r.cond, r.val} {
			walk(t, seen, func(t *Term) {
				if t.Op == "select" || t.Op == "const" && t != x {
					good = false
				}
			})
		}
		all = append(all, r)
	}
	e.run(c)
	if debug {
		fmt.Fprintln(os.Stderr, "symBody", f.fn, good, len(all))
		for _, r := range all {
			fmt.Fprintln(os.Stderr, r.cond, r.val)
		}
	}
	if !good {
		return
	}
	e.inlined[fnName(f.fn)] = true
	// the paths exclude each other, so this says nothing more than a definition even out of the range of the type
	for _, r := range all {
		t := Imp(r.cond, Eq(app, r.val))
		st.assume(Forall([]*Term{b}, Subst(t, map[*Term]*Term{x: b}), []*Term{app}))
	}
}

// usesFrozen: the contract's package has variables declared frozen.
func (c *Contract) usesFrozen() bool { return true }

func (ev *evalCtx) typedF(f *Fold, t *Term) SV {
	if f.rty != nil {
		return SV{t, f.rty}
	}
	return ev.typed(t)
}

// hasLoop: the function has a back edge.
func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}
