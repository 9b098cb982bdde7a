package core

import (
	"math"
	"testing"

	"verif/hx"
	"verif/model"

	"pgregory.net/rapid"
)

func TestC06(t *testing.T) {
	hx.Run(t, "chance", 1200, func(t *rapid.T, c *hx.C) {
		o := model.Std()
		o.MaxUtil, o.Total = 2, 50
		o.MaxStates = 30000
		o.MaxChance = 9
		n := model.GenNet(t, o)
		isoCase(t, c, n, model.GenIso(t, n, false), false)
	})
	hx.Run(t, "decisions", 1500, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.Exact, o.DecOut = true, 2
		n := model.GenNet(t, o)
		isoCase(t, c, n, model.GenIso(t, n, true), true)
	})
}

func isoCase(t *rapid.T, c *hx.C, n *model.Net, iso *model.Iso, decisions bool) {
	m := iso.Net
	a, b := build(t, n), build(t, m)
	c.Case(n.String()+m.String(), edges(n) > 0)
	if decisions {
		step := model.Pct(t, "stepwise", 50)
		pa := solvePolicies(t, n, a, step)
		pb := solvePolicies(t, m, b, step)
		// map b's policies back: compare as functions of all parents
		for d := range pa {
			if _, ok := pb[iso.VMap[d]]; !ok {
				t.Fatalf("policy of %q missing in the other description\n%s%s", n.Vars[d].Name, n, m)
			}
			vs := append(append([]int{}, n.Vars[d].Parents...), d)
			x := make([]int, len(n.Vars))
			y := make([]int, len(n.Vars))
			for {
				for _, v := range vs {
					y[iso.VMap[v]] = iso.OMap[v][x[v]]
				}
				if va, vb := at(n, pa[d], x), at(m, pb[iso.VMap[d]], y); !model.Close(va, vb, 1) {
					t.Fatalf("policy of %q differs between descriptions: %v and %v\n%s%s", n.Vars[d].Name, pa[d], pb[iso.VMap[d]], n, m)
				}
				k := 0
				for ; k < len(vs); k++ {
					x[vs[k]]++
					if x[vs[k]] < n.Card(vs[k]) {
						break
					}
					x[vs[k]] = 0
				}
				if k == len(vs) {
					break
				}
			}
		}
	}
	non := n.NonUtility()
	for r := model.Intn(t, "rounds", 1, 2); r > 0; r-- {
		ev := model.GenEvidence(t, n, non, 3)
		q := model.Subset(t, "q", model.Without(non, ev), 1, 3)
		ev2, q2 := iso.Ev(ev), iso.Vars(q)
		ignore := model.Pct(t, "ignore", 30)
		ra, _, err1 := a.SolveQuery(n.Evidence(ev), n.Names(q), ignore)
		rb, _, err2 := b.SolveQuery(m.Evidence(ev2), m.Names(q2), ignore)
		if err1 != nil || err2 != nil {
			t.Fatalf("errors %v, %v\n%s%s", err1, err2, n, m)
		}
		for _, i := range q {
			ma, mb := ra[n.Vars[i].Name], rb[m.Vars[iso.VMap[i]].Name]
			if len(ma) != n.Card(i) || len(mb) != n.Card(i) {
				t.Fatalf("marginals of %q: %v and %v\n%s%s", n.Vars[i].Name, ma, mb, n, m)
			}
			for o := range ma {
				if !model.Close(ma[o], mb[iso.OMap[i][o]], 0) {
					t.Fatalf("evidence %s: marginals of %q differ between descriptions: %v and %v\n%s%s", n.EvString(ev), n.Vars[i].Name, ma, mb, n, m)
				}
			}
		}
		if us := n.Of(model.Utility); len(us) > 0 {
			k := model.Intn(t, "u", -1, len(us)-1)
			u1, u2 := "", ""
			if k >= 0 {
				u1, u2 = n.Vars[us[k]].Name, m.Vars[iso.VMap[us[k]]].Name
			}
			fa, err1 := a.SolveUtility(n.Evidence(ev), nil, u1, ignore)
			fb, err2 := b.SolveUtility(m.Evidence(ev2), nil, u2, ignore)
			if err1 != nil || err2 != nil || len(fa.Data()) != 1 || len(fb.Data()) != 1 {
				t.Fatalf("utility %v %v, errors %v, %v\n%s%s", fa, fb, err1, err2, n, m)
			}
			scale := 0.0
			for _, u := range us {
				if u != n.Total {
					for _, x := range n.Vars[u].Table {
						scale = math.Max(scale, math.Abs(x)*math.Max(1, math.Abs(n.Weight(u))))
					}
				}
			}
			if !model.Close(fa.Data()[0], fb.Data()[0], scale*float64(len(us))) {
				t.Fatalf("evidence %s: utilities differ between descriptions: %v and %v\n%s%s", n.EvString(ev), fa.Data(), fb.Data(), n, m)
			}
		}
	}
}
