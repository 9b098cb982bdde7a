package core

import (
	"math"
	"testing"

	"verif/hx"
	"verif/model"

	"pgregory.net/rapid"
)

func TestC01(t *testing.T) {
	hx.Run(t, "enumeration", 1500, func(t *rapid.T, c *hx.C) {
		o := model.Std()
		o.MinChance = model.Intn(t, "min", 1, 4)
		if model.Pct(t, "wide", 15) {
			o.MaxOut = 13
			o.MaxChance = 4
		}
		n := model.GenNet(t, o)
		queryCase(t, c, n)
	})
	hx.Run(t, "collider", 400, func(t *rapid.T, c *hx.C) {
		// many parents of one child
		o := model.Std()
		o.MinChance, o.MaxChance, o.MaxParents, o.MaxOut = 4, 9, 8, 3
		n := model.GenNet(t, o)
		queryCase(t, c, n)
	})
	hx.Run(t, "with-utilities", 400, func(t *rapid.T, c *hx.C) {
		// utility variables do not influence probabilities
		o := model.Std()
		o.MinUtil, o.MaxUtil, o.Total = 1, 3, 50
		n := model.GenNet(t, o)
		queryCase(t, c, n)
	})
	hx.Run(t, "large-trees", 120, largeTree)
	hx.Run(t, "many-outcomes", 60, manyOutcomes)
}

func queryCase(t *rapid.T, c *hx.C, n *model.Net) {
	net := build(t, n)
	sem := model.NewSem(n, nil)
	non := n.NonUtility()
	c.Label("%d variables", len(non))
	rounds := model.Intn(t, "rounds", 1, 3)
	for r := 0; r < rounds; r++ {
		ev := model.GenEvidence(t, n, non, 4)
		q := model.Subset(t, "q", model.Without(non, ev), 0, querySize(t))
		if len(q) == 0 && len(non) > 1 && model.Pct(t, "again", 80) {
			q = model.Subset(t, "q", model.Without(non, ev), 1, 3)
		}
		ctx := describe(n, ev, q, "")
		j := sem.Joint(ev, q)
		res, _, err := net.SolveQuery(n.Evidence(ev), n.Names(q), model.Pct(t, "ignore", 20))
		c.Case(ctx, len(ev) > 0 && len(q) > 0 && edges(n) > 0)
		if j.Total() == 0 {
			c.Label("impossible evidence")
		}
		if err != nil {
			t.Fatalf("evidence %s query %q: error %v\n%s", n.EvString(ev), n.Names(q), err, n)
		}
		checkMarginals(t, n, j, res, "evidence "+n.EvString(ev))
		// each variable alone, as the applications do
		if model.Pct(t, "single", 30) {
			single := model.Without(non, ev)
			if len(single) > 14 {
				single = model.Subset(t, "singles", single, 14, 14)
			}
			for _, i := range single {
				j := sem.Joint(ev, []int{i})
				res, _, err := net.SolveQuery(n.Evidence(ev), n.Names([]int{i}), false)
				if err != nil {
					t.Fatalf("query %q: error %v\n%s", n.Vars[i].Name, err, n)
				}
				checkMarginals(t, n, j, res, "evidence "+n.EvString(ev))
			}
		}
	}
}

// largeTree checks polytrees too large for enumeration against message passing.
func largeTree(t *rapid.T, c *hx.C) {
	size := model.Intn(t, "size", 10, 90)
	if model.Pct(t, "larger", 10) {
		size = model.Intn(t, "size+", 90, 400)
	}
	deg := model.Intn(t, "deg", 1, 2)
	star := model.Pct(t, "star", 15)
	if star {
		c.Label("star")
	}
	decl := model.Perm(t, "decl", size)
	n := &model.Net{Name: "tree", Total: -1, Vars: make([]model.Var, size), Topo: decl}
	kids := make([]int, size)
	for k := 0; k < size; k++ {
		i := decl[k]
		v := &n.Vars[i]
		v.Name = "N" + itoa(k)
		cards := model.Intn(t, "card", 2, 3)
		for o := 0; o < cards; o++ {
			v.Outcomes = append(v.Outcomes, "s"+itoa(o))
		}
		if k > 0 && star {
			v.Parents = []int{decl[0]}
		} else if k > 0 {
			lo := k - 6
			if lo < 0 {
				lo = 0
			}
			p := model.Intn(t, "parent", lo, k-1)
			for kids[p] >= deg {
				p = k - 1
				if kids[p] >= deg {
					break
				}
			}
			if kids[p] < deg {
				kids[p]++
				v.Parents = []int{decl[p]}
			}
		}
		for r := 0; r < n.Rows(i); r++ {
			for o := 0; o < cards; o++ {
				v.Table = append(v.Table, float64(model.Intn(t, "p", 1, 9)))
			}
		}
	}
	net := build(t, n)
	ev := model.GenEvidence(t, n, n.NonUtility(), 6)
	if star && model.Pct(t, "centre", 50) {
		ev[decl[0]] = 0
	}
	q := model.Subset(t, "q", model.Without(n.NonUtility(), ev), 1, 2)
	c.Case(describe(n, ev, q, ""), len(ev) > 0)
	for _, i := range q {
		want := treeMarginal(n, ev, i)
		res, _, err := net.SolveQuery(n.Evidence(ev), n.Names([]int{i}), false)
		if err != nil {
			t.Fatalf("error %v\n%s", err, n)
		}
		got := res[n.Vars[i].Name]
		if len(got) != len(want) {
			t.Fatalf("marginal %v, want %v\n%s", got, want, n)
		}
		for o := range want {
			if !model.Close(got[o], want[o], 0) {
				t.Fatalf("evidence %s: marginal of %q is %v, want %v\n%s", n.EvString(ev), n.Vars[i].Name, got, want, n)
			}
		}
	}
}

// treeMarginal computes P(i | ev) in a forest (each variable has at most one parent).
func treeMarginal(n *model.Net, ev map[int]int, i int) []float64 {
	children := make([][]int, len(n.Vars))
	cpt := make([][]float64, len(n.Vars))
	for k := range n.Vars {
		for _, p := range n.Vars[k].Parents {
			children[p] = append(children[p], k)
		}
		card := n.Card(k)
		cpt[k] = append([]float64{}, n.Vars[k].Table...)
		for r := 0; r < len(cpt[k]); r += card {
			s := 0.0
			for o := 0; o < card; o++ {
				s += cpt[k][r+o]
			}
			for o := 0; o < card; o++ {
				cpt[k][r+o] /= s
			}
		}
	}
	ind := func(k, o int) float64 {
		if e, ok := ev[k]; ok && e != o {
			return 0
		}
		return 1
	}
	// lambda[k][o] = P(evidence below and at k | k=o)
	var lambda func(k int) []float64
	up := func(k int) []float64 { // message of k to its parent, per parent outcome
		l := lambda(k)
		card := n.Card(k)
		r := make([]float64, len(cpt[k])/card)
		for a := range r {
			for o := 0; o < card; o++ {
				r[a] += cpt[k][a*card+o] * l[o]
			}
		}
		return r
	}
	lambda = func(k int) []float64 {
		r := make([]float64, n.Card(k))
		for o := range r {
			r[o] = ind(k, o)
		}
		for _, ch := range children[k] {
			m := up(ch)
			for o := range r {
				r[o] *= m[o]
			}
		}
		return r
	}
	// pi[k][o] = P(k=o, evidence not below k)
	var pi func(k int) []float64
	pi = func(k int) []float64 {
		if len(n.Vars[k].Parents) == 0 {
			return cpt[k]
		}
		p := n.Vars[k].Parents[0]
		pp := append([]float64{}, pi(p)...)
		for o := range pp {
			pp[o] *= ind(p, o)
		}
		for _, s := range children[p] {
			if s != k {
				m := up(s)
				for o := range pp {
					pp[o] *= m[o]
				}
			}
		}
		card := n.Card(k)
		r := make([]float64, card)
		for a := range pp {
			for o := 0; o < card; o++ {
				r[o] += pp[a] * cpt[k][a*card+o]
			}
		}
		return r
	}
	r := append([]float64{}, pi(i)...)
	l := lambda(i)
	s := 0.0
	for o := range r {
		r[o] *= l[o]
		s += r[o]
	}
	if s == 0 {
		for o := range r {
			r[o] = math.NaN()
		}
		return r
	}
	for o := range r {
		r[o] /= s
	}
	return r
}

// manyOutcomes: a two-variable network with hundreds of outcomes.
func manyOutcomes(t *rapid.T, c *hx.C) {
	a := model.Intn(t, "a", 200, 700)
	b := model.Intn(t, "b", 2, 5)
	if model.Pct(t, "swap", 50) {
		a, b = b, a
	}
	n := &model.Net{Name: "wide", Total: -1, Topo: []int{0, 1}, Vars: []model.Var{{Name: "A"}, {Name: "B", Parents: []int{0}}}}
	for o := 0; o < a; o++ {
		n.Vars[0].Outcomes = append(n.Vars[0].Outcomes, "a"+itoa(o))
		n.Vars[0].Table = append(n.Vars[0].Table, float64(1+(o*7)%13))
	}
	for o := 0; o < b; o++ {
		n.Vars[1].Outcomes = append(n.Vars[1].Outcomes, "b"+itoa(o))
	}
	m := model.Intn(t, "m", 3, 31)
	for o := 0; o < a*b; o++ {
		n.Vars[1].Table = append(n.Vars[1].Table, float64(1+(o*5)%m))
	}
	net := build(t, n)
	ev := model.GenEvidence(t, n, []int{0, 1}, 1)
	q := model.Without([]int{0, 1}, ev)
	c.Case("outcomes "+itoa(a)+"x"+itoa(b)+" table pattern "+itoa(m)+" evidence "+n.EvString(ev), len(ev) > 0)
	res, _, err := net.SolveQuery(n.Evidence(ev), n.Names(q), false)
	if err != nil {
		t.Fatalf("error %v for %dx%d outcomes", err, a, b)
	}
	checkMarginals(t, n, model.NewSem(n, nil).Joint(ev, q), res, "evidence "+n.EvString(ev))
}
