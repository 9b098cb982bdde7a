package core

import (
	"math"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
	"pgregory.net/rapid"
)

func TestC02(t *testing.T) {
	hx.Run(t, "joint", 1500, func(t *rapid.T, c *hx.C) {
		o := model.Std()
		o.MinChance = model.Intn(t, "min", 1, 5)
		o.MaxUtil = 1
		o.MaxStates = 2000
		n := model.GenNet(t, o)
		net := build(t, n)
		sem := model.NewSem(n, nil)
		non := n.NonUtility()
		for r := model.Intn(t, "rounds", 1, 2); r > 0; r-- {
			ev := model.GenEvidence(t, n, non, 3)
			q := model.Subset(t, "q", model.Without(non, ev), 0, 5)
			if len(q) < 2 && len(non) > 1 && model.Pct(t, "again", 70) {
				q = model.Subset(t, "q", model.Without(non, ev), 2, 5)
			}
			if len(non) > 6 && model.Pct(t, "everything", 25) {
				q = model.Subset(t, "q", model.Without(non, ev), len(non)-2, len(non))
			}
			ctx := "evidence " + n.EvString(ev)
			c.Case(describe(n, ev, q, ""), len(q) >= 2 && edges(n) > 0)
			res, f, err := net.SolveQuery(n.Evidence(ev), n.Names(q), false)
			if err != nil {
				t.Fatalf("%s: error %v\n%s", ctx, err, n)
			}
			j := sem.Joint(ev, q)
			checkFactor(t, n, net, f, j, ctx)
			checkMarginals(t, n, j, res, ctx)
			checkDerived(t, n, net, f, j, q, ctx)
		}
	})
}

// checkDerived checks Marginal, Normalize and partial Rearrange of a joint factor.
func checkDerived(t *rapid.T, n *model.Net, net *bbn.Network, f *ve.Factor, j *model.Flat, q []int, ctx string) {
	before := append([]float64{}, f.Data()...)
	total := j.Total()
	norm := net.Normalize(f)
	jn := *j
	jn.Val = append([]float64{}, j.Val...)
	for k := range jn.Val {
		jn.Val[k] /= total
	}
	jn.Abs = make([]float64, len(jn.Val))
	checkFactor(t, n, net, &norm, &jn, ctx+" normalised")
	for k, i := range q {
		m := net.Marginal(f, n.Vars[i].Name)
		want := j.Marginal(k)
		if len(m.Data()) != len(want) || len(m.Variables()) != 1 {
			t.Fatalf("%s: marginal of %q has %d values\n%s", ctx, n.Vars[i].Name, len(m.Data()), n)
		}
		for o := range want {
			w := want[o] * total
			if total == 0 {
				w = 0
			}
			if !model.Close(m.Data()[o], w, 0) {
				t.Fatalf("%s: marginal of %q is %v, want %v\n%s", ctx, n.Vars[i].Name, m.Data(), w, n)
			}
		}
	}
	if len(q) > 0 {
		names := n.Names(model.Subset(t, "names", q, 1, len(q)))
		g := net.Rearrange(f, names)
		gv := g.Variables()
		if len(gv) != len(q) || len(g.Data()) != len(f.Data()) {
			t.Fatalf("%s: reordering %q changes the size\n%s", ctx, names, n)
		}
		// positions: named ones first (in order), the last named one last
		for k, name := range names {
			pos := k
			if k == len(names)-1 {
				pos = len(gv) - 1
			}
			one := net.Marginal(f, name)
			v := one.Variables()[0]
			if gv[pos].Id() != v.Id() {
				t.Fatalf("%s: reordering by %q puts %q elsewhere than position %d\n%s", ctx, names, name, pos, n)
			}
		}
		checkFactor(t, n, net, &g, j, ctx+" reordered")
	}
	for k := range before {
		if math.Float64bits(before[k]) != math.Float64bits(f.Data()[k]) {
			t.Fatalf("%s: deriving from a factor changed it\n%s", ctx, n)
		}
	}
}
