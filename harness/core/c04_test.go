package core

import (
	"math"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"pgregory.net/rapid"
)

func TestC04(t *testing.T) {
	hx.Run(t, "perfect-recall", 2500, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.Exact = model.Pct(t, "exact", 60)
		o.ZeroRows = false
		if model.Pct(t, "manyout", 10) {
			o.MaxOut, o.MaxChance, o.MaxDec = 13, 2, 1
		}
		o.MinUtil = 1
		if model.Pct(t, "noutil", 3) {
			o.MinUtil, o.MaxUtil = 0, 0
		}
		n := model.GenNet(t, o)
		policyCase(t, c, n, o.Exact)
	})
	hx.Run(t, "no-observation", 700, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.MinDec, o.NoObs = 2, 100
		o.Exact = model.Pct(t, "exact", 50)
		n := model.GenNet(t, o)
		noObsCase(t, c, n)
	})
}

func solvePolicies(t *rapid.T, n *model.Net, net *bbn.Network, stepwise bool) map[int]model.Policy {
	ps, err := net.SolvePolicies(stepwise)
	if err != nil {
		t.Fatalf("SolvePolicies(%v): %v\n%s", stepwise, err, n)
	}
	pol := policies(t, n, ps)
	for _, d := range n.Decisions() {
		p, ok := pol[d]
		if !ok {
			t.Fatalf("SolvePolicies(%v): no policy for %q\n%s", stepwise, n.Vars[d].Name, n)
		}
		card := n.Card(d)
		for r := 0; r < len(p.Table); r += card {
			s := 0.0
			for _, v := range p.Table[r : r+card] {
				if !(v >= 0 && v <= 1) {
					t.Fatalf("SolvePolicies(%v): policy of %q given %q is %v\n%s", stepwise, n.Vars[d].Name, n.Names(p.Given), p.Table, n)
				}
				s += v
			}
			if !model.Close(s, 1, 1) {
				t.Fatalf("SolvePolicies(%v): policy of %q given %q is %v\n%s", stepwise, n.Vars[d].Name, n.Names(p.Given), p.Table, n)
			}
		}
	}
	return pol
}

func policyCase(t *rapid.T, c *hx.C, n *model.Net, exact bool) {
	c.Case(n.String(), len(n.Decisions()) > 0 && edges(n) > 1)
	c.Label("%d decisions", len(n.Decisions()))
	meu, _ := n.MEU()
	if n.Strategies(200) <= 200 {
		c.Label("confirmed by enumerating strategies")
		if b := n.MEUBrute(); !model.Close(b, meu, 1000) {
			t.Fatalf("model inconsistent: backward induction %v, enumeration %v\n%s", meu, b, n)
		}
	}
	for _, stepwise := range []bool{true, false} {
		net := build(t, n)
		pol := solvePolicies(t, n, net, stepwise)
		eu := model.NewSem(n, pol).Utility(nil, nil, -1)
		if !model.Close(eu.Val[0], meu, eu.Abs[0]+1) {
			t.Fatalf("SolvePolicies(%v): expected utility of policies is %v, optimum is %v\npolicies %v\n%s", stepwise, eu.Val[0], meu, pol, n)
		}
		ds := n.Decisions()
		later := map[int]model.Policy{}
		for k := len(ds) - 1; k >= 0; k-- {
			d := ds[k]
			p := pol[d]
			// conditioned on observable variables only
			for _, g := range p.Given {
				ok := false
				for _, q := range n.Vars[d].Parents {
					ok = ok || q == g
				}
				if !ok {
					t.Fatalf("SolvePolicies(%v): policy of %q depends on %q, it observes %q\n%s", stepwise, n.Vars[d].Name, n.Names(p.Given), n.Names(n.Vars[d].Parents), n)
				}
			}
			checkSupport(t, c, n, d, p, later, exact, stepwise)
			later[d] = p
		}
	}
}

// checkSupport: for every observation, weight only on maximisers; exact ties are split evenly.
func checkSupport(t *rapid.T, c *hx.C, n *model.Net, d int, p model.Policy, later map[int]model.Policy, exact, stepwise bool) {
	card := n.Card(d)
	par := n.Vars[d].Parents
	q := n.Q(d, par, later)
	// exactness of the arithmetic needs exact later policies
	for _, lp := range later {
		for _, v := range lp.Table {
			if v != 0 && v != 1 && v != 0.5 && v != 0.25 {
				exact = false
			}
		}
	}
	x := make([]int, len(n.Vars))
	for r := 0; r*card < len(q.Val); r++ {
		k := r
		for b := len(par) - 1; b >= 0; b-- {
			x[par[b]] = k % n.Card(par[b])
			k /= n.Card(par[b])
		}
		row := 0
		for _, g := range p.Given {
			row = row*n.Card(g) + x[g]
		}
		got := p.Table[row*card : (row+1)*card]
		best, abs := math.Inf(-1), 0.0
		for o := 0; o < card; o++ {
			best = math.Max(best, q.Val[r*card+o])
			abs = math.Max(abs, q.Abs[r*card+o])
		}
		ties := 0
		for o := 0; o < card; o++ {
			if q.Val[r*card+o] == best {
				ties++
			}
		}
		// impossible observation: every distribution is fine
		if abs == 0 && zeroContext(n, par, x, later) {
			c.Label("impossible observation")
			continue
		}
		for o := 0; o < card; o++ {
			v := q.Val[r*card+o]
			if got[o] > 0 && !model.Close(v, best, abs) {
				t.Fatalf("SolvePolicies(%v): policy of %q given %q: row %v of %v has weight on outcome %d with utility %v, best is %v\n%s", stepwise, n.Vars[d].Name, n.Names(p.Given), got, p.Table, o, v, best, n)
			}
			if !exact {
				continue
			}
			want := 0.0
			if v == best {
				want = 1 / float64(ties)
			}
			if !model.Close(got[o], want, 1) {
				t.Fatalf("SolvePolicies(%v): policy of %q given %q: row %v for observation %v, utilities %v: want weight %v on outcome %d\n%s", stepwise, n.Vars[d].Name, n.Names(p.Given), got, obs(par, x), q.Val[r*card:(r+1)*card], want, o, n)
			}
		}
		if ties > 1 {
			c.Label("tie")
		}
	}
}

func obs(par, x []int) []int {
	r := []int{}
	for _, p := range par {
		r = append(r, x[p])
	}
	return r
}

// zeroContext tells whether an observation has probability zero whatever the decisions.
func zeroContext(n *model.Net, par, x []int, later map[int]model.Policy) bool {
	ev := map[int]int{}
	for _, p := range par {
		ev[p] = x[p]
	}
	zero := true
	model.NewSem(n, nil).Each(ev, func([]int, float64) { zero = false })
	return zero
}

func noObsCase(t *rapid.T, c *hx.C, n *model.Net) {
	c.Case(n.String(), len(n.Decisions()) > 1)
	best := n.MEUBrute()
	for _, stepwise := range []bool{true, false} {
		net := build(t, n)
		pol := solvePolicies(t, n, net, stepwise)
		// enumerate all decision combinations in the support of the policies
		sup := supportUtilities(t, n, pol)
		for _, s := range sup {
			if !model.Close(s[0], best, s[1]+1) {
				t.Fatalf("SolvePolicies(%v): policies %v allow expected utility %v, optimum is %v\n%s", stepwise, pol, s[0], best, n)
			}
		}
		if len(sup) == 0 {
			t.Fatalf("SolvePolicies(%v): policies %v allow nothing\n%s", stepwise, pol, n)
		}
	}
}

// supportUtilities gives [EU, scale] of every decision combination the policies (which may depend on
// each other only) allow.
func supportUtilities(t *rapid.T, n *model.Net, pol map[int]model.Policy) [][2]float64 {
	ds := n.Decisions()
	x := make([]int, len(n.Vars))
	res := [][2]float64{}
	sem := model.NewSem(n, nil)
	var rec func(k int)
	rec = func(k int) {
		if k == len(ds) {
			for _, d := range ds {
				p := pol[d]
				row := 0
				for _, g := range p.Given {
					if n.Vars[g].Kind != model.Decision {
						t.Fatalf("policy of %q depends on %q, which it does not observe\n%s", n.Vars[d].Name, n.Vars[g].Name, n)
					}
					row = row*n.Card(g) + x[g]
				}
				if p.Table[row*n.Card(d)+x[d]] == 0 {
					return
				}
			}
			ev := map[int]int{}
			for _, d := range ds {
				ev[d] = x[d]
			}
			u := sem.Utility(ev, nil, -1)
			res = append(res, [2]float64{u.Val[0], u.Abs[0]})
			return
		}
		for o := 0; o < n.Card(ds[k]); o++ {
			x[ds[k]] = o
			rec(k + 1)
		}
		x[ds[k]] = 0
	}
	rec(0)
	return res
}
