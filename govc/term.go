package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // "int","true","false","const","app","lin","ite","and","or","not","=","<=0"...
	Name string // constant / function / selector name, bound variable name
	Sort string
	Args []*Term
	K    *big.Int   // int literal, or constant part of lin
	C    []*big.Int // lin coefficients
	// quantifiers
	Vars []*Term
	Pats [][]*Term
	id   int
	hasB bool // contains bound variables
	size int
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(t.Sort)
	if t.K != nil {
		sb.WriteByte('#')
		sb.WriteString(t.K.String())
	}
	for i, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if t.C != nil {
			sb.WriteByte('*')
			sb.WriteString(t.C[i].String())
		}
	}
	for _, v := range t.Vars {
		fmt.Fprintf(&sb, ";%d", v.id)
	}
	for _, p := range t.Pats {
		sb.WriteByte('!')
		for _, x := range p {
			fmt.Fprintf(&sb, "%d ", x.id)
		}
	}
	key := sb.String()
	if o, ok := termTab[key]; ok {
		return o
	}
	t.id = len(termList)
	t.size = 1
	if t.Op == "bv" {
		t.hasB = true
	}
	for _, a := range t.Args {
		t.size += a.size
		if a.hasB {
			t.hasB = true
		}
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	if t.Op == "forall" || t.Op == "exists" {
		// closed if all bound vars are its own
		fv := map[*Term]bool{}
		freeBV(t.Args[0], fv, map[*Term]bool{})
		for _, v := range t.Vars {
			delete(fv, v)
		}
		t.hasB = len(fv) > 0
	}
	termTab[key] = t
	termList = append(termList, t)
	return t
}

func freeBV(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.hasB || seen[t] {
		return
	}
	seen[t] = true
	if t.Op == "bv" {
		out[t] = true
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		in := map[*Term]bool{}
		freeBV(t.Args[0], in, map[*Term]bool{})
		for _, v := range t.Vars {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.Args {
		freeBV(a, out, seen)
	}
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SReal = "Real"
	SStr  = "Str"
	SSlc  = "Slc"
	SIfc  = "Ifc"
	SBox  = "Box"
)

func arrSort(el string) string { return "(Array Int " + el + ")" }

func elemSort(arr string) string {
	// (Array K V)
	s := strings.TrimSuffix(strings.TrimPrefix(arr, "(Array "), ")")
	// skip key sort
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[i+1:]
			}
		}
	}
	panic("elemSort " + arr)
}

var (
	True  = mk(&Term{Op: "true", Sort: SBool})
	False = mk(&Term{Op: "false", Sort: SBool})
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntB(k *big.Int) *Term { return mk(&Term{Op: "int", Sort: SInt, K: k}) }
func Int(k int64) *Term     { return IntB(big.NewInt(k)) }
func RealLit(s string) *Term {
	return mk(&Term{Op: "real", Sort: SReal, Name: s})
}

// RatLit is a real number, always written in the same way.
func RatLit(r *big.Rat) *Term {
	a := new(big.Rat).Abs(r)
	s := fmt.Sprintf("(/ %s.0 %s.0)", a.Num(), a.Denom())
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return RealLit(s)
}

var Zero, One = Int(0), Int(1)

func Const(name, sort string) *Term { return mk(&Term{Op: "const", Name: name, Sort: sort}) }
func BV(name, sort string) *Term    { return mk(&Term{Op: "bv", Name: name, Sort: sort}) }

var freshN = map[string]int{}

func Fresh(name, sort string) *Term {
	freshN[name]++
	return Const(fmt.Sprintf("%s!%d", name, freshN[name]), sort)
}

// App is an uninterpreted (or prelude-defined) function application.
func App(name, sort string, args ...*Term) *Term {
	return mk(&Term{Op: "app", Name: name, Sort: sort, Args: args})
}

func isInt(t *Term) bool { return t.Op == "int" }
func (t *Term) i64() int64 {
	return t.K.Int64()
}

// linear arithmetic ---------------------------------------------------------

type linAcc struct {
	m map[int]*big.Int
	t map[int]*Term
	k *big.Int
}

func newAcc() *linAcc { return &linAcc{map[int]*big.Int{}, map[int]*Term{}, new(big.Int)} }
func (l *linAcc) add(t *Term, c *big.Int) {
	switch t.Op {
	case "int":
		l.k.Add(l.k, new(big.Int).Mul(c, t.K))
	case "lin":
		for i, a := range t.Args {
			l.add(a, new(big.Int).Mul(c, t.C[i]))
		}
		l.k.Add(l.k, new(big.Int).Mul(c, t.K))
	default:
		if o, ok := l.m[t.id]; ok {
			l.m[t.id] = new(big.Int).Add(o, c)
		} else {
			l.m[t.id] = new(big.Int).Set(c)
			l.t[t.id] = t
		}
	}
}
func (l *linAcc) term() *Term {
	var ids []int
	for id, c := range l.m {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return IntB(l.k)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.k.Sign() == 0 && l.m[ids[0]].Cmp(big.NewInt(1)) == 0 {
		return l.t[ids[0]]
	}
	t := &Term{Op: "lin", Sort: SInt, K: l.k}
	for _, id := range ids {
		t.Args = append(t.Args, l.t[id])
		t.C = append(t.C, l.m[id])
	}
	return mk(t)
}

var b1, bm1 = big.NewInt(1), big.NewInt(-1)

func Add(ts ...*Term) *Term {
	a := newAcc()
	for _, t := range ts {
		a.add(t, b1)
	}
	return a.term()
}
func Sub(x, y *Term) *Term {
	a := newAcc()
	a.add(x, b1)
	a.add(y, bm1)
	return a.term()
}
func MulC(c int64, x *Term) *Term { return MulB(big.NewInt(c), x) }
func MulB(c *big.Int, x *Term) *Term {
	a := newAcc()
	a.add(x, c)
	return a.term()
}
func Neg(x *Term) *Term { return MulC(-1, x) }
func Mul(x, y *Term) *Term {
	if isInt(x) {
		return MulB(x.K, y)
	}
	if isInt(y) {
		return MulB(y.K, x)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mk(&Term{Op: "op", Name: "*", Sort: SInt, Args: []*Term{x, y}})
}

// DivF: floor division by positive constant (SMT div); ModF likewise.
func DivF(x, y *Term) *Term {
	if isInt(x) && isInt(y) && y.K.Sign() > 0 {
		q, m := new(big.Int).DivMod(x.K, y.K, new(big.Int))
		_ = m
		return IntB(q)
	}
	if isInt(y) && y.K.Cmp(b1) == 0 {
		return x
	}
	return mk(&Term{Op: "op", Name: "div", Sort: SInt, Args: []*Term{x, y}})
}
func ModF(x, y *Term) *Term {
	if isInt(x) && isInt(y) && y.K.Sign() > 0 {
		return IntB(new(big.Int).Mod(x.K, y.K))
	}
	if isInt(y) && y.K.Cmp(b1) == 0 {
		return Zero
	}
	return mk(&Term{Op: "op", Name: "mod", Sort: SInt, Args: []*Term{x, y}})
}

func Le(x, y *Term) *Term {
	if x.Sort == SReal {
		return mk(&Term{Op: "op", Name: "<=", Sort: SBool, Args: []*Term{x, y}})
	}
	d := Sub(y, x)
	if isInt(d) {
		return Bool(d.K.Sign() >= 0)
	}
	// normalise: leading coefficient positive form is not needed; keep 0 <= d
	return mk(&Term{Op: "ge0", Sort: SBool, Args: []*Term{d}})
}
func Lt(x, y *Term) *Term {
	if x.Sort == SReal {
		return Not(Le(y, x))
	}
	return Le(Add(x, One), y)
}
func Ge(x, y *Term) *Term { return Le(y, x) }
func Gt(x, y *Term) *Term { return Lt(y, x) }

func Eq(x, y *Term) *Term {
	if x == y {
		return True
	}
	if x.Sort != y.Sort {
		panic(fmt.Sprintf("Eq sorts %s vs %s: %s = %s", x.Sort, y.Sort, x, y))
	}
	if x.Sort == SInt {
		d := Sub(x, y)
		if isInt(d) {
			return Bool(d.K.Sign() == 0)
		}
	}
	if x.Sort == SBool {
		if x == True {
			return y
		}
		if y == True {
			return x
		}
		if x == False {
			return Not(y)
		}
		if y == False {
			return Not(x)
		}
	}
	if x.Op == "mk" && y.Op == "mk" && x.Name == y.Name {
		var cs []*Term
		for i := range x.Args {
			cs = append(cs, Eq(x.Args[i], y.Args[i]))
		}
		return And(cs...)
	}
	if x.Op == "strlit" && y.Op == "strlit" {
		return False
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mk(&Term{Op: "op", Name: "=", Sort: SBool, Args: []*Term{x, y}})
}
func Not(x *Term) *Term {
	switch x.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return x.Args[0]
	case "ge0": // not (d>=0)  <=> -d-1 >= 0
		return mk(&Term{Op: "ge0", Sort: SBool, Args: []*Term{Sub(Int(-1), x.Args[0])}})
	}
	return mk(&Term{Op: "not", Sort: SBool, Args: []*Term{x}})
}
func And(xs ...*Term) *Term { return nary("and", True, False, xs) }
func Or(xs ...*Term) *Term  { return nary("or", False, True, xs) }
func nary(op string, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.Op == op {
			for _, a := range x.Args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !rec(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return mk(&Term{Op: op, Sort: SBool, Args: out})
}
func Imp(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Ite sorts %s vs %s", a.Sort, b.Sort))
	}
	if a.Sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == "mk" && b.Op == "mk" && a.Name == b.Name {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = Ite(c, a.Args[i], b.Args[i])
		}
		return mk(&Term{Op: "mk", Name: a.Name, Sort: a.Sort, Args: args})
	}
	return mk(&Term{Op: "ite", Sort: a.Sort, Args: []*Term{c, a, b}})
}

// arrays ---------------------------------------------------------------------

// nameDefs: definitions of heap names introduced by nameHeaps.
var nameDefs = map[*Term]*Term{}

func Select(a, i *Term) *Term {
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if i.Sort == SInt {
			d := Sub(a.Args[1], i)
			if isInt(d) {
				if d.K.Sign() == 0 {
					return a.Args[2]
				}
				a = a.Args[0]
				continue
			}
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if d, ok := nameDefs[a]; ok && i.Sort == SInt {
		for d.Op == "store" {
			k := Sub(d.Args[1], i)
			if !isInt(k) {
				break
			}
			if k.K.Sign() == 0 {
				return d.Args[2]
			}
			d = d.Args[0]
		}
		if d.Op == "const" && d != a {
			if _, again := nameDefs[d]; again {
				return Select(d, i)
			}
		}
	}
	if isInt(i) && a.Op == "select" {
		if els, ok := constArrs[a]; ok && i.K.IsInt64() && i.i64() >= 0 && i.i64() < int64(len(els)) {
			return els[i.i64()]
		}
	}
	return mk(&Term{Op: "select", Sort: elemSort(a.Sort), Args: []*Term{a, i}})
}
func Store(a, i, v *Term) *Term {
	if elemSort(a.Sort) != v.Sort {
		panic(fmt.Sprintf("store sort %s <- %s", a.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	return mk(&Term{Op: "store", Sort: a.Sort, Args: []*Term{a, i, v}})
}
func ConstArr(sort string, v *Term) *Term {
	return mk(&Term{Op: "constarr", Sort: sort, Args: []*Term{v}})
}

// datatypes -------------------------------------------------------------------

type Datatype struct {
	Name   string
	Fields []string // selector names
	Sorts  []string
}

var datatypes = map[string]*Datatype{}
var datatypeOrder []string

func declDatatype(d *Datatype) {
	if _, ok := datatypes[d.Name]; ok {
		return
	}
	datatypes[d.Name] = d
	datatypeOrder = append(datatypeOrder, d.Name)
}

func init() {
	declDatatype(&Datatype{"Slc", []string{"sref", "soff", "slen", "scap"}, []string{SInt, SInt, SInt, SInt}})
	NilSlc = MkSlc(Zero, Zero, Zero, Zero)
	declDatatype(&Datatype{"Ifc", []string{"itag", "ibox"}, []string{SInt, SBox}})
}

func MkD(name string, args ...*Term) *Term {
	d := datatypes[name]
	// eta: mk(sel0 x, sel1 x, ...) => x
	if len(args) > 0 && args[0].Op == "sel" && args[0].Name == d.Fields[0] {
		x := args[0].Args[0]
		same := true
		for i, a := range args {
			if !(a.Op == "sel" && a.Name == d.Fields[i] && a.Args[0] == x) {
				same = false
			}
		}
		if same {
			return x
		}
	}
	for i, a := range args {
		if a.Sort != d.Sorts[i] {
			panic(fmt.Sprintf("MkD %s field %s: %s vs %s", name, d.Fields[i], a.Sort, d.Sorts[i]))
		}
	}
	return mk(&Term{Op: "mk", Name: name, Sort: name, Args: args})
}
func SelD(x *Term, i int) *Term {
	d := datatypes[x.Sort]
	if d == nil {
		panic("SelD on sort " + x.Sort + " term " + x.String())
	}
	if x.Op == "mk" {
		return x.Args[i]
	}
	if x.Op == "ite" {
		return Ite(x.Args[0], SelD(x.Args[1], i), SelD(x.Args[2], i))
	}
	return mk(&Term{Op: "sel", Name: d.Fields[i], Sort: d.Sorts[i], Args: []*Term{x}})
}
func MkSlc(ref, off, ln, cp *Term) *Term { return MkD("Slc", ref, off, ln, cp) }
func SRef(s *Term) *Term                 { return SelD(s, 0) }
func SOff(s *Term) *Term                 { return SelD(s, 1) }
func SLen(s *Term) *Term                 { return SelD(s, 2) }
func SCap(s *Term) *Term                 { return SelD(s, 3) }

var NilSlc *Term

// quantifiers -----------------------------------------------------------------

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if body.Op == "and" {
		// distribute: keeps triggers small
		var cs []*Term
		for _, a := range body.Args {
			cs = append(cs, Forall(vars, a, pats...))
		}
		return And(cs...)
	}
	fv := map[*Term]bool{}
	freeBV(body, fv, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if fv[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	// a trigger must mention exactly the variables of the quantifier
	var keep [][]*Term
	for _, p := range pats {
		pv := map[*Term]bool{}
		for _, t := range p {
			freeBV(t, pv, map[*Term]bool{})
		}
		ok := true
		for _, v := range vs {
			ok = ok && pv[v]
			delete(pv, v)
		}
		for _, v := range vars {
			ok = ok && !pv[v]
		}
		if ok {
			keep = append(keep, p)
		}
	}
	pats = keep
	if len(pats) == 0 {
		pats = autoPatterns(vs, body)
	}
	return mk(&Term{Op: "forall", Sort: SBool, Vars: vs, Args: []*Term{body}, Pats: pats})
}

// autoPatterns picks E-matching triggers: select/uninterpreted applications
// whose bound variables are not under arithmetic.
func autoPatterns(vars []*Term, body *Term) [][]*Term {
	isVar := map[*Term]bool{}
	for _, v := range vars {
		isVar[v] = true
	}
	type cand struct {
		t  *Term
		vs map[*Term]bool
	}
	var cands []cand
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if !t.hasB || t.Op == "bv" {
			return true
		}
		switch t.Op {
		case "select", "app", "sel", "mk":
		default:
			return false
		}
		for _, a := range t.Args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	var visit func(t *Term, seen map[*Term]bool)
	visit = func(t *Term, seen map[*Term]bool) {
		if !t.hasB || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			// terms inside nested quantifiers that only use our variables are fine
			visit(t.Args[0], seen)
			return
		}
		for _, a := range t.Args {
			visit(a, seen)
		}
		if (t.Op == "select" || t.Op == "app") && ok(t) {
			fv := map[*Term]bool{}
			freeBV(t, fv, map[*Term]bool{})
			vs := map[*Term]bool{}
			for v := range fv {
				if !isVar[v] {
					return
				}
				vs[v] = true
			}
			cands = append(cands, cand{t, vs})
		}
	}
	visit(body, map[*Term]bool{})
	sort.SliceStable(cands, func(i, j int) bool { return cands[i].t.size < cands[j].t.size })
	var pats [][]*Term
	for _, c := range cands {
		if len(c.vs) == len(vars) {
			// skip if it contains an already chosen pattern
			cont := false
			for _, p := range pats {
				in := false
				walk(c.t, map[*Term]bool{}, func(x *Term) {
					if x == p[0] {
						in = true
					}
				})
				if in {
					cont = true
				}
			}
			if !cont {
				pats = append(pats, []*Term{c.t})
			}
			if len(pats) >= 4 {
				break
			}
		}
	}
	if len(pats) > 0 {
		return pats
	}
	// greedy multi-pattern
	need := map[*Term]bool{}
	for _, v := range vars {
		need[v] = true
	}
	var multi []*Term
	for len(need) > 0 {
		best := -1
		bn := 0
		for i, c := range cands {
			n := 0
			for v := range c.vs {
				if need[v] {
					n++
				}
			}
			if n > bn {
				best, bn = i, n
			}
		}
		if best < 0 {
			return nil
		}
		multi = append(multi, cands[best].t)
		for v := range cands[best].vs {
			delete(need, v)
		}
	}
	return [][]*Term{multi}
}
func Exists(vars []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	fv := map[*Term]bool{}
	freeBV(body, fv, map[*Term]bool{})
	var vs []*Term
	for _, v := range vars {
		if fv[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	return mk(&Term{Op: "exists", Sort: SBool, Vars: vs, Args: []*Term{body}})
}

// Subst replaces constants/bound variables.
func Subst(t *Term, m map[*Term]*Term) *Term {
	return substM(t, m, map[*Term]*Term{})
}
func substM(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substM(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args, func(p *Term) *Term { return substM(p, m, memo) })
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term, f func(*Term) *Term) *Term {
	switch t.Op {
	case "lin":
		a := newAcc()
		a.k.Set(t.K)
		for i, x := range args {
			a.add(x, t.C[i])
		}
		return a.term()
	case "op":
		switch t.Name {
		case "*":
			return Mul(args[0], args[1])
		case "div":
			return DivF(args[0], args[1])
		case "mod":
			return ModF(args[0], args[1])
		case "=":
			return Eq(args[0], args[1])
		}
		return mk(&Term{Op: "op", Name: t.Name, Sort: t.Sort, Args: args})
	case "ge0":
		return Le(Zero, args[0])
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "mk":
		return MkD(t.Name, args...)
	case "sel":
		d := datatypes[args[0].Sort]
		for i, n := range d.Fields {
			if n == t.Name {
				return SelD(args[0], i)
			}
		}
		panic("sel")
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, f(x))
			}
			pats = append(pats, q)
		}
		if t.Op == "forall" {
			return Forall(t.Vars, args[0], pats...)
		}
		return Exists(t.Vars, args[0])
	}
	n := *t
	n.Args = args
	n.id = 0
	n.hasB = false
	return mk(&n)
}

// printing ----------------------------------------------------------------------

func sym(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$@%&*+-<>=/?^~", c)) {
			ok = false
			break
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
}

func intStr(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

type printer struct {
	names map[*Term]string
	sb    *strings.Builder
}

func (p *printer) w(t *Term) {
	if n, ok := p.names[t]; ok {
		p.sb.WriteString(n)
		return
	}
	p.raw(t)
}
func (p *printer) list(op string, args []*Term) {
	p.sb.WriteByte('(')
	p.sb.WriteString(op)
	for _, a := range args {
		p.sb.WriteByte(' ')
		p.w(a)
	}
	p.sb.WriteByte(')')
}
func (p *printer) raw(t *Term) {
	switch t.Op {
	case "int":
		p.sb.WriteString(intStr(t.K))
	case "true", "false":
		p.sb.WriteString(t.Op)
	case "const", "bv", "strlit":
		p.sb.WriteString(sym(t.Name))
	case "real":
		p.sb.WriteString(t.Name)
	case "app":
		if len(t.Args) == 0 {
			p.sb.WriteString(sym(t.Name))
		} else {
			p.list(sym(t.Name), t.Args)
		}
	case "lin":
		n := len(t.Args)
		if t.K.Sign() != 0 {
			n++
		}
		if n > 1 {
			p.sb.WriteString("(+")
		}
		for i, a := range t.Args {
			if n > 1 {
				p.sb.WriteByte(' ')
			}
			if t.C[i].Cmp(b1) == 0 {
				p.w(a)
			} else {
				p.sb.WriteString("(* ")
				p.sb.WriteString(intStr(t.C[i]))
				p.sb.WriteByte(' ')
				p.w(a)
				p.sb.WriteByte(')')
			}
		}
		if t.K.Sign() != 0 {
			p.sb.WriteByte(' ')
			p.sb.WriteString(intStr(t.K))
		}
		if n > 1 {
			p.sb.WriteByte(')')
		}
	case "ge0":
		// split positive and negative parts for readability
		d := t.Args[0]
		if d.Op == "lin" {
			l, r := newAcc(), newAcc()
			for i, a := range d.Args {
				if d.C[i].Sign() > 0 {
					r.add(a, d.C[i])
				} else {
					l.add(a, new(big.Int).Neg(d.C[i]))
				}
			}
			if d.K.Sign() > 0 {
				r.k.Add(r.k, d.K)
			} else {
				l.k.Sub(l.k, d.K)
			}
			p.list("<=", []*Term{l.term(), r.term()})
			return
		}
		p.list("<=", []*Term{Zero, d})
	case "op":
		p.list(t.Name, t.Args)
	case "not", "and", "or", "ite", "select", "store":
		p.list(t.Op, t.Args)
	case "constarr":
		p.sb.WriteString("((as const " + t.Sort + ") ")
		p.w(t.Args[0])
		p.sb.WriteByte(')')
	case "mk":
		if len(t.Args) == 0 {
			p.sb.WriteString("mk" + sym(t.Name))
		} else {
			p.list(sym("mk"+t.Name), t.Args)
		}
	case "sel":
		p.list(sym(t.Name), t.Args)
	case "forall", "exists":
		p.sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			fmt.Fprintf(p.sb, "(%s %s)", sym(v.Name), v.Sort)
		}
		p.sb.WriteString(") ")
		if len(t.Pats) > 0 {
			p.sb.WriteString("(! ")
		}
		p.w(t.Args[0])
		for _, pt := range t.Pats {
			p.sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					p.sb.WriteByte(' ')
				}
				p.w(x)
			}
			p.sb.WriteByte(')')
		}
		if len(t.Pats) > 0 {
			p.sb.WriteByte(')')
		}
		p.sb.WriteByte(')')
	default:
		panic("print " + t.Op)
	}
}

func (t *Term) String() string {
	var sb strings.Builder
	p := &printer{map[*Term]string{}, &sb}
	if t.size > 4000 {
		return fmt.Sprintf("<term %d size %d>", t.id, t.size)
	}
	p.w(t)
	return sb.String()
}

// walk visits every distinct subterm once (including patterns).
func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		walk(a, seen, f)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			walk(x, seen, f)
		}
	}
	f(t)
}
