package core

import (
	"bytes"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"pgregory.net/rapid"
)

func TestC11(t *testing.T) {
	hx.Run(t, "round-trip", 1500, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.MinChance, o.MaxChance = 1, 5
		o.MinDec, o.MaxDec = 0, 2
		o.MinUtil, o.MaxUtil = 0, 2
		o.MaxStates = 400
		o.Weird, o.Deco, o.OddColors = true, true, true
		n := model.GenNet(t, o)
		if model.Pct(t, "empty", 1) {
			n = &model.Net{Name: n.Name, Info: n.Info, Total: -1}
		}
		model.ExtremeFloats(t, n)
		freeText(t, n)
		if model.Pct(t, "decision tables", 10) {
			// decisions need no table, but can have one
			for _, d := range n.Of(model.Decision) {
				v := &n.Vars[d]
				n.OmitFactor[d] = false
				v.Table = make([]float64, n.Rows(d)*len(v.Outcomes))
				for k := range v.Table {
					v.Table[k] = float64(model.Intn(t, "dt", 0, 4)) / 4
				}
				c.Label("decision with a table")
			}
		}
		incomplete := false
		if model.Pct(t, "incomplete", 15) {
			for i := range n.Vars {
				if n.Vars[i].Kind != model.Decision && i != n.Total && model.Pct(t, "drop", 40) {
					n.Vars[i].Table = nil
					incomplete = true
				}
			}
		}
		c.Case(n.String(), len(n.Vars) >= 2 && edges(n) > 0)
		net := build(t, n)
		before := ""
		if !incomplete && model.Pct(t, "solve", 30) {
			before = "solved: "
			c.Label("after solving")
			if _, err := net.SolvePolicies(false); err != nil {
				t.Fatalf("solving fails: %v\n%s", err, n)
			}
		}
		y := toYAML(t, n, net)
		unchanged(t, n, net, before+"serialising")
		orig := append([]byte{}, y...)
		net2, err := bbn.FromYAML(y)
		if err != nil {
			t.Fatalf("%sloading what was written fails: %v\n%s\n%s", before, err, y, n)
		}
		if !bytes.Equal(orig, y) {
			t.Fatalf("loading changes its input")
		}
		unchanged(t, n, net2, before+"round trip of\n"+string(y))
		if net2.TotalUtilityIndex() != n.Total {
			t.Fatalf("total utility index %d, want %d\n%s", net2.TotalUtilityIndex(), n.Total, n)
		}
		if y2 := toYAML(t, n, net2); !bytes.Equal(y, y2) {
			t.Fatalf("%ssecond serialisation differs:\n%s\n---\n%s", before, y, y2)
		}
		if model.Pct(t, "another", 20) {
			// what was written stays, whatever is written next
			m := &model.Net{Name: "another " + n.Name, Info: n.Info, Total: -1}
			m.Vars = []model.Var{{Name: "x", Outcomes: []string{"a", "b"}, Table: []float64{0.25, 0.75}}}
			m.Topo = []int{0}
			toYAML(t, m, build(t, m))
			if !bytes.Equal(orig, y) {
				t.Fatalf("serialising another network changes the text written before:\n%s\n---\n%s", orig, y)
			}
		}
		if y3 := toYAML(t, n, net); !bytes.Equal(y, y3) {
			t.Fatalf("%sserialising the original again differs:\n%s\n---\n%s", before, y, y3)
		}
		if incomplete {
			c.Label("incomplete")
			return
		}
		sameAnswers(t, n, net, net2, "round trip")
	})
	hx.Run(t, "large tables", 12, func(t *rapid.T, c *hx.C) {
		n := model.LargeTable(t, model.Intn(t, "cells", 1000, 9000))
		c.Case(n.String(), true)
		y := toYAML(t, n, build(t, n))
		net, err := bbn.FromYAML(y)
		if err != nil {
			t.Fatalf("loading what was written fails: %v", err)
		}
		unchanged(t, n, net, "round trip")
		if y2 := toYAML(t, n, net); !bytes.Equal(y, y2) {
			t.Fatalf("second serialisation differs")
		}
	})
	hx.Run(t, "answers", 500, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.MinDec, o.MaxDec = 0, 2
		o.MaxStates = 200
		o.Weird, o.Deco, o.OddColors = true, true, true
		n := model.GenNet(t, o)
		c.Case(n.String(), edges(n) > 0)
		net, err := bbn.FromYAML(toYAML(t, n, build(t, n)))
		if err != nil {
			t.Fatalf("loading what was written fails: %v\n%s", err, n)
		}
		eff := policies(t, n, solve(t, n, net))
		non := n.NonUtility()
		ev := model.GenEvidence(t, n, non, 2)
		q := model.Subset(t, "q", model.Without(non, ev), 0, 3)
		res, f, err := net.SolveQuery(n.Evidence(ev), n.Names(q), false)
		if err != nil {
			t.Fatalf("query fails: %v\n%s", err, n)
		}
		j := model.NewSem(n, eff).Joint(ev, q)
		checkMarginals(t, n, j, res, "reloaded")
		checkFactor(t, n, net, f, j, "reloaded")
	})
}

func solve(t *rapid.T, n *model.Net, net *bbn.Network) map[string]bbn.Factor {
	ps, err := net.SolvePolicies(false)
	if err != nil {
		t.Fatalf("solving fails: %v\n%s", err, n)
	}
	return ps
}

// freeText replaces some names by arbitrary text.
func freeText(t *rapid.T, n *model.Net) {
	if !model.Pct(t, "freetext", 40) {
		return
	}
	text := rapid.StringOfN(rapid.RuneFrom([]rune("ab 1:#-'\"\\[]{}&*!|>%@`,?=<~.\n\té中🙂\u00a0\u2028\u0085\u2029\r\ufeff")), 0, 12, -1)
	used := map[string]bool{}
	for i := range n.Vars {
		used[n.Vars[i].Name] = true
	}
	for i := range n.Vars {
		if model.Pct(t, "name?", 30) {
			s := text.Draw(t, "freename")
			if !used[s] && s != "" {
				used[s] = true
				n.Vars[i].Name = s
			}
		}
		us := map[string]bool{}
		for _, o := range n.Vars[i].Outcomes {
			us[o] = true
		}
		for k := range n.Vars[i].Outcomes {
			if model.Pct(t, "outcome?", 10) {
				s := text.Draw(t, "freeoutcome")
				if !us[s] {
					us[s] = true
					n.Vars[i].Outcomes[k] = s
				}
			}
		}
	}
	n.Name = text.Draw(t, "freenet")
	n.Info = text.Draw(t, "freeinfo")
}

func toYAML(t *rapid.T, n *model.Net, net *bbn.Network) []byte {
	y, err := bbn.ToYAML(net)
	if err != nil {
		t.Fatalf("ToYAML fails: %v\n%s", err, n)
	}
	return y
}

// sameAnswers compares two networks that must be equal, number by number.
func sameAnswers(t *rapid.T, n *model.Net, a, b *bbn.Network, ctx string) {
	pa, pb := solve(t, n, a), solve(t, n, b)
	if len(pa) != len(pb) {
		t.Fatalf("%s: %d and %d policies\n%s", ctx, len(pa), len(pb), n)
	}
	non := n.NonUtility()
	ev := model.GenEvidence(t, n, non, 2)
	q := model.Subset(t, "q", model.Without(non, ev), 0, 2)
	ra, _, err1 := a.SolveQuery(n.Evidence(ev), n.Names(q), false)
	rb, _, err2 := b.SolveQuery(n.Evidence(ev), n.Names(q), false)
	if err1 != nil || err2 != nil {
		t.Fatalf("%s: query fails: %v, %v\n%s", ctx, err1, err2, n)
	}
	for name, x := range ra {
		y := rb[name]
		if len(x) != len(y) {
			t.Fatalf("%s: marginals of %q differ: %v, %v\n%s", ctx, name, x, y, n)
		}
	}
}
