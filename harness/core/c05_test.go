package core

import (
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"pgregory.net/rapid"
)

func TestC05(t *testing.T) {
	hx.Run(t, "policies-in-queries", 2500, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.Exact = model.Pct(t, "exact", 50)
		o.MaxUtil = 2
		o.NoObs = 15
		o.DecOut = 3
		n := model.GenNet(t, o)
		net := build(t, n)
		pol := solvePolicies(t, n, net, model.Pct(t, "stepwise", 50))
		non := n.NonUtility()
		for r := model.Intn(t, "rounds", 1, 4); r > 0; r-- {
			ev := model.GenEvidence(t, n, non, 3)
			ignore := model.Pct(t, "ignore", 60)
			eff := map[int]model.Policy{}
			decEv := 0
			for d, p := range pol {
				if _, ok := ev[d]; ok {
					decEv++
					if ignore {
						continue
					}
				}
				eff[d] = p
			}
			sem := model.NewSem(n, eff)
			q := model.Subset(t, "q", model.Without(non, ev), 0, 3)
			ctx := "solved, evidence " + n.EvString(ev)
			if ignore {
				ctx += " ignoring policies"
			}
			c.Case(describe(n, ev, q, ctx), decEv > 0)
			if decEv > 0 && decEv < len(pol) && ignore {
				c.Label("partly overridden")
			}
			res, f, err := net.SolveQuery(n.Evidence(ev), n.Names(q), ignore)
			if err != nil {
				t.Fatalf("%s: error %v\n%s", ctx, err, n)
			}
			j := sem.Joint(ev, q)
			checkMarginals(t, n, j, res, ctx)
			checkFactor(t, n, net, f, j, ctx)
			u := -1
			name := ""
			if us := n.Of(model.Utility); model.Pct(t, "one", 50) {
				u = us[model.Intn(t, "u", 0, len(us)-1)]
				name = n.Vars[u].Name
			}
			uf, err := net.SolveUtility(n.Evidence(ev), n.Names(q), name, ignore)
			if err != nil {
				t.Fatalf("%s: error %v\n%s", ctx, err, n)
			}
			checkFactor(t, n, net, uf, sem.Utility(ev, q, u), ctx+" utility "+name, 1)
		}
	})
	hx.Run(t, "solve-changed", 500, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.Exact = true
		o.DecOut = 2
		n := model.GenNet(t, o)
		net := build(t, n)
		solvePolicies(t, n, net, model.Pct(t, "stepwise", 60))
		for r := model.Intn(t, "rounds", 1, 2); r > 0; r-- {
			changeTables(t, n, net)
			c.Case(n.String(), edges(n) > 1)
			step := model.Pct(t, "stepwise", 60)
			want := solvePolicies(t, n, build(t, n), step)
			got := solvePolicies(t, n, net, step)
			samePolicies(t, n, want, got, "solving after changes of tables")
			ev := model.GenEvidence(t, n, n.NonUtility(), 2)
			q := model.Subset(t, "q", model.Without(n.NonUtility(), ev), 0, 2)
			res, f, err := net.SolveQuery(n.Evidence(ev), n.Names(q), false)
			if err != nil {
				t.Fatalf("error %v\n%s", err, n)
			}
			j := model.NewSem(n, got).Joint(ev, q)
			checkMarginals(t, n, j, res, "after changes of tables")
			checkFactor(t, n, net, f, j, "after changes of tables")
		}
	})
	hx.Run(t, "solve-again", 800, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.Exact = true
		o.DecOut = 2
		n := model.GenNet(t, o)
		net := build(t, n)
		c.Case(n.String(), len(n.Decisions()) > 1)
		first := solvePolicies(t, n, net, true)
		for r := model.Intn(t, "rounds", 1, 3); r > 0; r-- {
			ev := model.GenEvidence(t, n, n.NonUtility(), 2)
			if _, _, err := net.SolveQuery(n.Evidence(ev), nil, model.Pct(t, "ignore", 50)); err != nil {
				t.Fatalf("error %v\n%s", err, n)
			}
			again := solvePolicies(t, n, net, model.Pct(t, "stepwise", 50))
			samePolicies(t, n, first, again, "solving again")
		}
	})
}

// changeTables changes values in the tables of a network (which its variables refer to) and of the model.
func changeTables(t *rapid.T, n *model.Net, net *bbn.Network) {
	for _, i := range append(n.Of(model.Utility), n.Of(model.Chance)...) {
		v := &n.Vars[i]
		if !model.Pct(t, "change", 50) {
			continue
		}
		if v.Kind == model.Utility {
			for k := range v.Table {
				v.Table[k] = float64(model.Intn(t, "u", -8, 8))
			}
		} else {
			c := n.Card(i)
			for k := 0; k < len(v.Table); k += c {
				o := model.Intn(t, "det", 0, c-1)
				for j := 0; j < c; j++ {
					v.Table[k+j] = 0
				}
				v.Table[k+o] = 1
			}
		}
		copy(net.Variables()[i].Factor.Table, v.Table)
	}
}

// samePolicies compares policies as functions of all parents.
func samePolicies(t *rapid.T, n *model.Net, a, b map[int]model.Policy, ctx string) {
	if len(a) != len(b) {
		t.Fatalf("%s: different policies %v and %v\n%s", ctx, a, b, n)
	}
	for d, p := range a {
		x := make([]int, len(n.Vars))
		vs := append(append([]int{}, n.Vars[d].Parents...), d)
		for {
			va, vb := at(n, p, x), at(n, b[d], x)
			if !model.Close(va, vb, 1) {
				t.Fatalf("%s: policy of %q differs: %v and %v\n%s", ctx, n.Vars[d].Name, p, b[d], n)
			}
			k := 0
			for ; k < len(vs); k++ {
				x[vs[k]]++
				if x[vs[k]] < n.Card(vs[k]) {
					break
				}
				x[vs[k]] = 0
			}
			if k == len(vs) {
				break
			}
		}
	}
}

func at(n *model.Net, p model.Policy, x []int) float64 {
	row := 0
	for _, g := range p.Given {
		row = row*n.Card(g) + x[g]
	}
	return p.Table[row*n.Card(p.For)+x[p.For]]
}
