package core

import (
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"pgregory.net/rapid"
)

func trainOpt() model.Opt {
	o := decOpt()
	o.MinChance, o.MaxChance = 1, 4
	o.MinDec, o.MaxDec = 0, 2
	o.MinUtil, o.MaxUtil = 0, 2
	o.MaxOut = 4
	o.MaxParents = 3
	o.MaxStates = 100
	o.Total = 40
	return o
}

// checkTrained compares the tables of a network with the trained ones of the model.
func checkTrained(t *rapid.T, want *model.Net, net *bbn.Network, samples []model.Sample, ctx string) {
	vs := net.Variables()
	if len(vs) != len(want.Vars) {
		t.Fatalf("%s: %d variables, want %d", ctx, len(vs), len(want.Vars))
	}
	for i, v := range vs {
		m := &want.Vars[i]
		if v.Name != m.Name || int(v.NodeType) != int(m.Kind) || !eqStrings(v.Outcomes, m.Outcomes) || !eqStrings(v.Factor.Given, want.Names(m.Parents)) {
			t.Fatalf("%s: training changed variable %q: %+v\n%s", ctx, m.Name, v, want)
		}
		scale := 0.0
		if m.Kind == model.Utility && i != want.Total {
			for _, s := range samples {
				if u := s.Util[i]; u > scale {
					scale = u
				} else if -u > scale {
					scale = -u
				}
			}
		}
		if len(v.Factor.Table) != len(m.Table) {
			t.Fatalf("%s: table of %q has %d values, want %d\n%s", ctx, m.Name, len(v.Factor.Table), len(m.Table), want)
		}
		for k, x := range v.Factor.Table {
			if !model.Close(x, m.Table[k], scale) {
				t.Fatalf("%s: trained table of %q is %v, want %v\nsamples\n%swant %s", ctx, m.Name, v.Factor.Table, m.Table, model.SamplesString(samples), want)
			}
		}
	}
}

func addSample(t *rapid.T, tr *bbn.Trainer, n *model.Net, s model.Sample) {
	out := append([]int{}, s.Out...)
	util := append([]float64{}, s.Util...)
	for i := range out {
		if n.Vars[i].Kind == model.Utility { // not looked at
			out[i] = model.Intn(t, "junk", -1, 7)
		} else {
			util[i] = float64(model.Intn(t, "junku", -1, 7))
		}
	}
	if n.Total >= 0 {
		util[n.Total] = float64(model.Intn(t, "junkt", -1, 7))
	}
	if len(n.Of(model.Utility)) == 0 && model.Pct(t, "nil", 70) {
		util = nil
	}
	tr.AddSample(out, util)
	for i := range out {
		out[i] = 0
	}
	for i := range util {
		util[i] = -99
	}
}

// checkAnswers compares answers of a network with the model, after solving policies. It is false if the
// policies could be decided by rounding.
func checkAnswers(t *rapid.T, n *model.Net, net *bbn.Network, exact bool, ctx string) bool {
	pol, sure := n.Solved(exact)
	if !sure {
		return false
	}
	if _, err := net.SolvePolicies(len(n.Decisions()) > 1 || model.Pct(t, "stepwise", 70)); err != nil {
		t.Fatalf("%s: solving policies fails: %v\n%s", ctx, err, n)
	}
	sem := model.NewSem(n, pol)
	non := n.NonUtility()
	ev := model.GenEvidence(t, n, non, 2)
	q := model.Subset(t, "q", model.Without(non, ev), 0, 2)
	j := sem.Joint(ev, q)
	res, f, err := net.SolveQuery(n.Evidence(ev), n.Names(q), false)
	if err != nil {
		t.Fatalf("%s: query fails: %v\n%s", ctx, err, n)
	}
	checkMarginals(t, n, j, res, ctx+", evidence "+n.EvString(ev))
	checkFactor(t, n, net, f, j, ctx)
	us := n.Of(model.Utility)
	if len(us) > 0 {
		u, name := -1, ""
		if k := model.Intn(t, "u", -1, len(us)-1); k >= 0 && us[k] != n.Total {
			u, name = us[k], n.Vars[us[k]].Name
		}
		g, err := net.SolveUtility(n.Evidence(ev), n.Names(q), name, false)
		if err != nil {
			t.Fatalf("%s: utility fails: %v\n%s", ctx, err, n)
		}
		checkFactor(t, n, net, g, sem.Utility(ev, q, u), ctx+" utility "+name, 1)
	}
	return true
}

func TestC17(t *testing.T) {
	hx.Run(t, "training", 2500, func(t *rapid.T, c *hx.C) {
		o := trainOpt()
		if model.Pct(t, "many outcomes", 1) {
			o.MaxChance, o.MaxDec, o.MaxUtil, o.MaxOut, o.MaxStates, o.Wide = 2, 0, 1, 150, 300, true
			c.Label("many outcomes")
		}
		n := model.GenNet(t, o)
		if model.Pct(t, "decision tables", 20) { // tables of decisions are not trained
			n.OmitFactor = nil
			for _, d := range n.Decisions() {
				n.Vars[d].Table = make([]float64, n.Rows(d)*n.Card(d))
				for k := range n.Vars[d].Table {
					n.Vars[d].Table[k] = float64(k % 3)
				}
			}
		}
		net := build(t, n)
		samples := model.GenSamples(t, n, 85)
		used := 0
		if model.Pct(t, "used before", 40) {
			checkAnswers(t, n, net, false, "before training")
			c.Label("used before training")
		}
		if model.Pct(t, "many", 2) {
			k := model.Intn(t, "copies", 2, 400)
			for i, x := range samples {
				for j := 1; j < k>>(i%3); j++ {
					samples = append(samples, x)
				}
			}
			c.Label("many samples")
		}
		tr := bbn.NewTrainer(net)
		var other *bbn.Trainer
		if len(samples) > 0 && model.Pct(t, "another trainer", 20) {
			// a second trainer that gets samples in between, of the same or of an equal network
			net2 := net
			if model.Pct(t, "equal network", 40) {
				net2 = build(t, n)
			}
			tr2 := bbn.NewTrainer(net2)
			other = &tr2
			c.Label("another trainer")
		}
		rounds := model.Intn(t, "rounds", 1, 2)
		for round := 0; round < rounds; round++ {
			end := len(samples)
			if round < rounds-1 {
				end = model.Intn(t, "part", 0, len(samples))
			}
			for ; used < end; used++ {
				addSample(t, &tr, n, samples[used])
				if other != nil && model.Pct(t, "to the other", 40) {
					addSample(t, other, n, samples[model.Intn(t, "other sample", 0, len(samples)-1)])
				}
			}
			want, ok := n.Train(samples[:used])
			c.Case(n.String()+model.SamplesString(samples[:used]), ok && edges(n) > 0)
			got, err := tr.UpdateNetwork()
			if !ok {
				c.Label("row without samples")
				if err == nil || got != nil {
					t.Fatalf("a table row without samples gives %v, %v\n%s%s", got, err, n, model.SamplesString(samples[:used]))
				}
				continue
			}
			if err != nil {
				t.Fatalf("training fails: %v\n%s%s", err, n, model.SamplesString(samples[:used]))
			}
			c.Label("trained")
			if got != net {
				checkTrained(t, want, got, samples[:used], "returned network")
			}
			checkTrained(t, want, net, samples[:used], "training")
			if checkAnswers(t, want, net, false, "after training") {
				c.Label("answers after training")
			}
		}
		if model.Pct(t, "train again", 25) {
			// a new trainer starts from nothing
			part := samples[:model.Intn(t, "again", 0, len(samples))]
			tr := bbn.NewTrainer(net)
			for _, x := range part {
				addSample(t, &tr, n, x)
			}
			want, ok := n.Train(part)
			_, err := tr.UpdateNetwork()
			if ok != (err == nil) {
				t.Fatalf("training again with %s: %v\n%s", model.SamplesString(part), err, n)
			}
			if ok {
				checkTrained(t, want, net, part, "training again")
				c.Label("trained again")
			}
		}
	})
	hx.Run(t, "order", 400, func(t *rapid.T, c *hx.C) {
		n := model.GenNet(t, trainOpt())
		samples := model.GenSamples(t, n, 90)
		c.Case(n.String()+model.SamplesString(samples), len(samples) > 1)
		var tabs [2][][]float64
		var errs [2]error
		for k := range tabs {
			net := build(t, n)
			tr := bbn.NewTrainer(net)
			for _, j := range model.Perm(t, "order", len(samples)) {
				addSample(t, &tr, n, samples[j])
			}
			_, errs[k] = tr.UpdateNetwork()
			for _, v := range net.Variables() {
				tabs[k] = append(tabs[k], v.Factor.Table)
			}
		}
		if (errs[0] == nil) != (errs[1] == nil) {
			t.Fatalf("order of samples matters: %v, %v\n%s%s", errs[0], errs[1], n, model.SamplesString(samples))
		}
		if errs[0] != nil {
			return
		}
		for i := range tabs[0] {
			for k := range tabs[0][i] {
				if !model.Close(tabs[0][i][k], tabs[1][i][k], 1000) {
					t.Fatalf("order of samples matters for %q: %v, %v\n%s%s", n.Vars[i].Name, tabs[0][i], tabs[1][i], n, model.SamplesString(samples))
				}
			}
		}
	})
}
