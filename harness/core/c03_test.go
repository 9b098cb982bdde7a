package core

import (
	"math"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"pgregory.net/rapid"
)

func decOpt() model.Opt {
	return model.Opt{MinChance: 1, MaxChance: 5, MinDec: 1, MaxDec: 3, MinUtil: 1, MaxUtil: 3, Total: 40, MaxOut: 4, MaxParents: 3, MaxStates: 1500, Weird: true}
}

// policies converts found policies to the model's form.
func policies(t *rapid.T, n *model.Net, ps map[string]bbn.Factor) map[int]model.Policy {
	r := map[int]model.Policy{}
	for name, f := range ps {
		d := n.Index(name)
		if d < 0 || n.Vars[d].Kind != model.Decision {
			t.Fatalf("policy for %q, which is no decision\n%s", name, n)
		}
		if f.For != name {
			t.Fatalf("policy of %q is for %q\n%s", name, f.For, n)
		}
		p := model.Policy{For: d}
		size := n.Card(d)
		seen := map[int]bool{d: true}
		for _, g := range f.Given {
			i := n.Index(g)
			if i < 0 || seen[i] || n.Vars[i].Kind == model.Utility {
				t.Fatalf("policy of %q depends on %q\n%s", name, f.Given, n)
			}
			seen[i] = true
			p.Given = append(p.Given, i)
			size *= n.Card(i)
		}
		if len(f.Table) != size {
			t.Fatalf("policy of %q given %q has %d values, want %d\n%s", name, f.Given, len(f.Table), size, n)
		}
		p.Table = append([]float64{}, f.Table...)
		r[d] = p
	}
	return r
}

func TestC03(t *testing.T) {
	hx.Run(t, "no-decisions", 1200, func(t *rapid.T, c *hx.C) {
		o := model.Std()
		o.MaxChance, o.MinUtil, o.MaxUtil, o.Total, o.MaxStates = 5, 1, 4, 50, 1000
		n := model.GenNet(t, o)
		utilityCase(t, c, n, build(t, n), nil, nil)
	})
	hx.Run(t, "solved", 1000, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.NoObs = 20
		n := model.GenNet(t, o)
		net := build(t, n)
		ps, err := net.SolvePolicies(model.Pct(t, "stepwise", 60))
		if err != nil {
			t.Fatalf("SolvePolicies: %v\n%s", err, n)
		}
		utilityCase(t, c, n, net, policies(t, n, ps), nil)
	})
	hx.Run(t, "unsolved", 1000, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.NoObs = 20
		n := model.GenNet(t, o)
		net := build(t, n)
		must := []int{}
		seen := map[int]bool{}
		for _, d := range n.Decisions() {
			for _, i := range append([]int{d}, n.Vars[d].Parents...) {
				if !seen[i] {
					seen[i] = true
					must = append(must, i)
				}
			}
		}
		utilityCase(t, c, n, net, nil, must)
	})
}

// utilityCase checks utilities; the variables in must are given as evidence or queried.
func utilityCase(t *rapid.T, c *hx.C, n *model.Net, net *bbn.Network, pol map[int]model.Policy, must []int) {
	sem := model.NewSem(n, pol)
	non := n.NonUtility()
	for r := model.Intn(t, "rounds", 1, 2); r > 0; r-- {
		ev := map[int]int{}
		q := []int{}
		inMust := map[int]int{}
		for _, i := range must {
			inMust[i] = 0
			if len(q) < 3 && model.Pct(t, "asquery", 25) {
				q = append(q, i)
			} else {
				ev[i] = model.Intn(t, "evo", 0, n.Card(i)-1)
			}
		}
		rest := model.Without(non, inMust)
		for i, o := range model.GenEvidence(t, n, rest, 2) {
			ev[i] = o
		}
		q = append(q, model.Subset(t, "q", model.Without(rest, ev), 0, 3-len(q))...)
		u := -1
		us := n.Of(model.Utility)
		name := ""
		if model.Pct(t, "one", 50) {
			u = us[model.Intn(t, "u", 0, len(us)-1)]
			name = n.Vars[u].Name
		}
		ctx := "utility \"" + name + "\" evidence " + n.EvString(ev)
		c.Case(describe(n, ev, q, "utility "+name), len(ev)+len(q) > 0)
		if n.Total >= 0 && u < 0 {
			c.Label("weighted total")
		}
		ignore := false
		if pol == nil {
			ignore = model.Pct(t, "ignore", 50)
		}
		f, err := net.SolveUtility(n.Evidence(ev), n.Names(q), name, ignore)
		if err != nil {
			t.Fatalf("%s: error %v\n%s", ctx, err, n)
		}
		want := sem.Utility(ev, q, u)
		checkFactor(t, n, net, f, want, ctx, 1)

		// conditional expected utility
		_, p, err := net.SolveQuery(n.Evidence(ev), n.Names(q), ignore)
		if err != nil {
			t.Fatalf("%s: error %v\n%s", ctx, err, n)
		}
		f2, err := net.SolveUtility(n.Evidence(ev), n.Names(q), name, ignore)
		if err != nil {
			t.Fatalf("%s: error %v\n%s", ctx, err, n)
		}
		f2d, pd := append([]float64{}, f2.Data()...), append([]float64{}, p.Data()...)
		cond := net.NormalizeUtility(f2, p)
		if !eqFloats(f2d, f2.Data()) || !eqFloats(pd, p.Data()) {
			t.Fatalf("%s: dividing utilities by probabilities changes them\n%s", ctx, n)
		}
		j := sem.Joint(ev, q)
		w := *want
		w.Val = append([]float64{}, want.Val...)
		w.Abs = append([]float64{}, want.Abs...)
		for k := range w.Val {
			w.Val[k] /= j.Val[k]
			w.Abs[k] /= j.Val[k]
			if j.Val[k] == 0 {
				w.Val[k] = math.NaN()
				c.Label("impossible")
			}
		}
		checkFactor(t, n, net, &cond, &w, ctx+" conditional", 1)
	}
}
