package main

// Elimination of integer constants fixed by the facts: when 0 <= d and
// 0 <= -d are both facts and d contains a plain constant with coefficient
// 1 or -1, the constant is replaced by what it is equal to. Dropping the two
// facts can only weaken the assumptions. It makes terms that are equal by
// arithmetic (o+i and o+n after a loop) the same term, which the matching of
// quantified facts needs.

import "math/big"

func elimEqs(facts, goals []*Term) ([]*Term, []*Term, bool) {
	changed := false
	for round := 0; round < 4; round++ {
		have := map[*Term]bool{}
		for _, f := range facts {
			if f.Op == "ge0" {
				have[f.Args[0]] = true
			}
		}
		var v, by *Term
		for _, f := range facts {
			if f.Op != "ge0" || !have[Neg(f.Args[0])] {
				continue
			}
			v, by = solveFor(f.Args[0])
			if v != nil {
				break
			}
		}
		if v == nil {
			break
		}
		changed = true
		m := map[*Term]*Term{v: by}
		memo := map[*Term]*Term{}
		f2 := make([]*Term, 0, len(facts))
		for _, f := range facts {
			if t := substM(f, m, memo); t != True {
				f2 = append(f2, t)
			}
		}
		g2 := make([]*Term, len(goals))
		for i, g := range goals {
			g2[i] = substM(g, m, memo)
		}
		facts, goals = f2, g2
	}
	return facts, goals, changed
}

// solveFor: d = 0 solved for a constant, preferring loop variables
func solveFor(d *Term) (*Term, *Term) {
	args, cs, k := []*Term{d}, []*big.Int{big.NewInt(1)}, new(big.Int)
	if d.Op == "lin" {
		args, cs, k = d.Args, d.C, d.K
	}
	best := -1
	for i, a := range args {
		if a.Op != "const" || cs[i].CmpAbs(big.NewInt(1)) != 0 {
			continue
		}
		occ := false
		for j, b := range args {
			if j != i {
				walk(b, map[*Term]bool{}, func(t *Term) { occ = occ || t == a })
			}
		}
		if occ {
			continue
		}
		if best < 0 || len(a.Name) > 4 && a.Name[:4] == "phi." {
			best = i
		}
	}
	if best < 0 {
		return nil, nil
	}
	acc := newAcc()
	for j, b := range args {
		if j != best {
			acc.add(b, cs[j])
		}
	}
	acc.k.Add(acc.k, k)
	r := acc.term()
	if cs[best].Sign() > 0 {
		r = Neg(r)
	}
	return args[best], r
}
