package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"strings"
)

// A Lemma is a universally quantified fact about specification functions,
// proved by induction on its last variable:
//   lemma name(A arr, o int, k int) from o by f(A, o, k): body
// Base: body at k = from. Step: body at k >= from implies body at k+1.
// Without "from" the body is proved directly. "with q=E" after from: the
// body is proved for every q at each k, the hypothesis of the step being
// taken at q = E.

type Lemma struct {
	name, text string
	fact       *Term
	base, step *Obligation
}

func (cs *Contracts) parseLemma(rest string) error {
	if cs.lemmas == nil {
		cs.lemmas = map[string]*Lemma{}
	}
	op, cl := strings.Index(rest, "("), strings.Index(rest, ")")
	l := &Lemma{name: rest[:op], text: rest}
	var names, sorts []string
	for _, a := range strings.Split(rest[op+1:cl], ",") {
		fs := strings.Fields(a)
		names = append(names, fs[0])
		s, _ := cs.foldSort(fs[1])
		sorts = append(sorts, s)
	}
	head, body, ok := strings.Cut(rest[cl+1:], ": ")
	if !ok {
		return fmt.Errorf("lemma without body")
	}
	if h, rest, ok := strings.Cut(head, "over "); ok { // over K Key by pattern(K): induction on keys
		return cs.parseKeyLemma(l, names, sorts, h+" "+rest, body)
	}
	head, by, _ := strings.Cut(head, "by ")
	head, with, _ := strings.Cut(head, "with ") // with q=E: the hypothesis at k is taken at q = E
	_, from, _ := strings.Cut(head, "from ")
	bx, err := parser.ParseExpr(body)
	if err != nil {
		return err
	}
	mk := func(prefix string) *evalCtx {
		ev := &evalCtx{env: map[string]SV{}, cs: cs}
		for i, n := range names {
			var t *Term
			if prefix == "" {
				t = BV(n+"!l", sorts[i])
			} else {
				t = Const(prefix+n, sorts[i])
			}
			ev.env[n] = ev.typed(t)
		}
		return ev
	}
	k := names[len(names)-1]
	g := mk("")
	var vars []*Term
	for _, n := range names {
		vars = append(vars, g.env[n].v.(*Term))
	}
	t, err := g.boolean(bx)
	if err != nil {
		return err
	}
	var pats []*Term
	if strings.TrimSpace(by) != "" {
		px, err := parser.ParseExpr("f(" + by + ")")
		if err != nil {
			return err
		}
		for _, a := range px.(*ast.CallExpr).Args {
			p, err := g.term(a)
			if err != nil {
				return err
			}
			pats = append(pats, p)
		}
	}
	c := mk("lemma:")
	hc := c
	if v, x, ok := strings.Cut(with, "="); ok {
		wx, err := parser.ParseExpr(strings.TrimSpace(x))
		if err != nil {
			return err
		}
		w, err := c.integer(wx)
		if err != nil {
			return err
		}
		hc = c.with(strings.TrimSpace(v), SV{w, tInt})
	}
	at := func(v *Term) (*Term, error) {
		return c.with(k, SV{v, tInt}).boolean(bx)
	}
	kv := c.env[k].v.(*Term)
	if from = strings.TrimSpace(from); from != "" {
		fx, err := parser.ParseExpr(from)
		if err != nil {
			return err
		}
		gf, err := g.integer(fx)
		if err != nil {
			return err
		}
		t = Imp(Le(gf, vars[len(vars)-1]), t)
		cf, err := c.integer(fx)
		if err != nil {
			return err
		}
		b, err := at(cf)
		if err != nil {
			return err
		}
		h, err := hc.with(k, SV{kv, tInt}).boolean(bx)
		if err != nil {
			return err
		}
		n, _ := at(Add(kv, One))
		l.base = &Obligation{Name: "lemma:" + l.name + ":base", Goal: b, Where: "contracts"}
		as := []*Term{Le(cf, kv), h}
		for i, n := range names { // makes the element at k known to the triggers
			if strings.HasPrefix(sorts[i], "(Array") {
				el := Select(c.env[n].v.(*Term), kv)
				as = append(as, Eq(el, Const("lemma:el:"+n, el.Sort)))
			}
		}
		l.step = &Obligation{Name: "lemma:" + l.name + ":step", Assume: as, Goal: n, Where: "contracts"}
	} else {
		b, err := at(kv)
		if err != nil {
			return err
		}
		l.base = &Obligation{Name: "lemma:" + l.name, Goal: b, Where: "contracts"}
	}
	if len(pats) > 0 {
		l.fact = Forall(vars, t, pats)
	} else {
		l.fact = Forall(vars, t)
	}
	cs.lemmas[l.name] = l
	return nil
}

// lemma by name; ext(f) is the extensionality of fold f: equal segments have
// equal folds (induction on the length).
func (cs *Contracts) lemma(name string) *Lemma {
	if l := cs.lemmas[name]; l != nil {
		return l
	}
	if strings.HasPrefix(name, "ext(") {
		f := folds[strings.TrimSuffix(name[4:], ")")]
		if f == nil {
			return nil
		}
		as := arrSort(f.elemS)
		declFunc("diff:"+f.elemS, SInt, as, SInt, as, SInt, SInt)
		A, lo, hi := BV("A!x", as), BV("lo!x", SInt), BV("hi!x", SInt)
		B, lo2, hi2 := BV("B!x", as), BV("lo2!x", SInt), BV("hi2!x", SInt)
		vars := []*Term{A, lo, hi, B, lo2, hi2}
		var ex []*Term
		for i, s := range f.extra {
			b := BV(string(rune('x'+i))+"!x", s)
			ex = append(ex, b)
			vars = append(vars, b)
		}
		a, b := f.app(A, lo, hi, ex), f.app(B, lo2, hi2, ex)
		n := Sub(hi, lo)
		d := App("diff:"+f.elemS, SInt, A, lo, B, lo2, n)
		ne := And(Le(Zero, d), Lt(d, n), Not(Eq(Select(A, Add(lo, d)), Select(B, Add(lo2, d)))))
		return &Lemma{name: name, text: f.name + "()", fact: Forall(vars, Or(Not(Eq(n, Sub(hi2, lo2))), Eq(a, b), ne), []*Term{a, b})}
	}
	return nil
}

func (l *Lemma) obligations() []*Obligation {
	var out []*Obligation
	for _, o := range []*Obligation{l.base, l.step} {
		if o != nil {
			c := *o
			out = append(out, &c)
		}
	}
	return out
}

// monotonic: folds declared nonneg never decrease.
func monotonic(names []string) []*Obligation {
	var out []*Obligation
	for _, n := range names {
		f := folds[n]
		if f == nil || !f.nonneg {
			continue
		}
		acc, el := Const("mono:acc", f.ret), Const("mono:el", f.elemS)
		var ex []*Term
		for i, s := range f.extra {
			ex = append(ex, Const(fmt.Sprintf("mono:x%d", i), s))
		}
		out = append(out, &Obligation{Name: "lemma:" + n + ":monotonic", Goal: Le(acc, f.step(acc, el, ex)), Where: "contracts"})
	}
	return out
}

// parseKeyLemma: lemma name(vars) by TRIG over K by PAT: HYP ==> BODY
// is a fact  forall vars {TRIG}. HYP -> forall K {PAT}. BODY, the inner
// quantifier over keys, proved by induction on the key (empty, snoc).
func (cs *Contracts) parseKeyLemma(l *Lemma, names, sorts []string, head, body string) error {
	f := strings.SplitN(head, "by ", 3)
	flat := len(f) == 2 // over K by TRIG, the trigger mentioning K
	if flat {
		f = []string{f[0], " " + strings.TrimSpace(f[0]), f[1]}
	}
	fs := strings.Fields(f[1])
	kn := fs[len(fs)-1]
	trig := strings.TrimSuffix(strings.TrimSpace(f[1]), " "+kn)
	hyp, concl, ok := strings.Cut(body, "==>")
	if !ok {
		hyp, concl = "true", body
	}
	parse := func(s string) (ast.Expr, error) { return parser.ParseExpr(strings.TrimSpace(s)) }
	hx, err := parse(hyp)
	if err != nil {
		return err
	}
	cx, err := parse(concl)
	if err != nil {
		return err
	}
	mk := func(prefix string) (*evalCtx, []*Term) {
		ev := &evalCtx{env: map[string]SV{}, cs: cs}
		var vs []*Term
		for i, n := range names {
			t := Const(prefix+n, sorts[i])
			if prefix == "" {
				t = BV(n+"!l", sorts[i])
			}
			ev.env[n] = ev.typed(t)
			vs = append(vs, t)
		}
		return ev, vs
	}
	pats := func(ev *evalCtx, s string) ([]*Term, error) {
		px, err := parser.ParseExpr("f(" + s + ")")
		if err != nil {
			return nil, err
		}
		var out []*Term
		for _, a := range px.(*ast.CallExpr).Args {
			p, err := ev.term(a)
			if err != nil {
				return nil, err
			}
			out = append(out, p)
		}
		return out, nil
	}
	g, vars := mk("")
	K := BV("K!l", "Key")
	gk := g.with(kn, g.typed(K))
	h, err := g.boolean(hx)
	if err != nil {
		return err
	}
	b, err := gk.boolean(cx)
	if err != nil {
		return err
	}
	var p1 []*Term
	if !flat {
		if p1, err = pats(g, trig); err != nil {
			return err
		}
	}
	p2, err := pats(gk, f[2])
	if err != nil {
		return err
	}
	if flat {
		l.fact = Forall(append(vars, K), Imp(h, b), p2)
	} else {
		l.fact = Forall(vars, Imp(h, Forall([]*Term{K}, b, p2)), p1)
	}
	c, _ := mk("lemma:")
	ch, err := c.boolean(hx)
	if err != nil {
		return err
	}
	at := func(k *Term) *Term {
		t, err := c.with(kn, c.typed(k)).boolean(cx)
		if err != nil {
			panic(err)
		}
		return t
	}
	k0, x0 := Const("lemma:K", "Key"), Const("lemma:x", SInt)
	emp, snoc := App("spec:kempty", "Key"), App("spec:ksnoc", "Key", k0, x0)
	l.base = &Obligation{Name: "lemma:" + l.name + ":base", Assume: []*Term{ch}, Goal: at(emp), Where: "contracts"}
	l.step = &Obligation{Name: "lemma:" + l.name + ":step", Assume: []*Term{ch, at(k0)}, Goal: at(snoc), Where: "contracts"}
	cs.lemmas[l.name] = l
	return nil
}
