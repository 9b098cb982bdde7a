package core

import (
	"fmt"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
	"pgregory.net/rapid"
)

func TestC14(t *testing.T) {
	hx.Run(t, "requests", 1500, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.MinChance, o.MaxChance = 1, 4
		o.MinDec, o.MaxDec = 0, 2
		o.MinUtil, o.MaxUtil = 0, 3
		o.Total = 50
		o.Exact, o.DecOut = true, 2
		o.MaxStates = 200
		o.Weird = true
		n := model.GenNet(t, o)
		net := build(t, n)
		var eff map[int]model.Policy
		solved := len(n.Decisions()) == 0
		if !solved && model.Pct(t, "solve", 60) {
			eff = policies(t, n, solve(t, n, net))
			solved = true
		}
		for k := model.Intn(t, "requests", 1, 4); k > 0; k-- {
			invalidRequest(t, c, n, net)
		}
		// valid requests are answered as before
		non := n.NonUtility()
		ev := model.GenEvidence(t, n, non, 2)
		q := model.Subset(t, "q", model.Without(non, ev), 0, 2)
		if !solved {
			ev, q = completeRequest(t, n, ev, q)
		}
		res, f, err := net.SolveQuery(n.Evidence(ev), n.Names(q), false)
		if err != nil {
			t.Fatalf("valid query fails after invalid ones: %v\n%s", err, describe(n, ev, q, ""))
		}
		j := model.NewSem(n, eff).Joint(ev, q)
		checkMarginals(t, n, j, res, "after invalid requests")
		checkFactor(t, n, net, f, j, "after invalid requests")
		if len(n.Of(model.Utility)) > 0 {
			u, err := net.SolveUtility(n.Evidence(ev), n.Names(q), "", false)
			if err != nil {
				t.Fatalf("valid request fails after invalid ones: %v\n%s", err, describe(n, ev, q, ""))
			}
			checkFactor(t, n, net, u, model.NewSem(n, eff).Utility(ev, q, -1), "after invalid requests", 1)
		}
		unchanged(t, n, net, "after invalid requests")
	})
	hx.Run(t, "to-evidence", 800, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.MinDec, o.MinUtil = 0, 0
		o.MaxStates = 200
		o.Weird = true
		if model.Pct(t, "wide", 8) {
			// variables with many outcomes
			o.MaxChance, o.MaxDec, o.MaxUtil, o.MaxParents = 2, 0, 0, 1
			o.Wide, o.MaxOut, o.MaxStates = true, model.Intn(t, "width", 12, 300), 20000
			c.Label("many outcomes")
		}
		n := model.GenNet(t, o)
		net := build(t, n)
		when := model.Intn(t, "when", 0, 2)
		switch when {
		case 1:
			solve(t, n, net)
		case 2:
			if _, _, err := net.SolveQuery(map[string]string{"nobody": "x"}, nil, false); err == nil {
				t.Fatalf("unknown variable accepted")
			}
		}
		c.Label("when %d", when)
		c.Case(fmt.Sprint(when)+n.String(), len(n.Vars) > 1)
		for _, i := range n.NonUtility() {
			v := &n.Vars[i]
			for o, name := range v.Outcomes {
				e, err := net.ToEvidence(v.Name, name)
				if err != nil {
					t.Fatalf("ToEvidence(%q, %q) fails: %v\n%s", v.Name, name, err, n)
				}
				if len(e) != len(v.Outcomes) {
					t.Fatalf("ToEvidence(%q, %q) gives %v\n%s", v.Name, name, e, n)
				}
				for k, x := range e {
					if k == o && x != 1 || k != o && x != 0 {
						t.Fatalf("ToEvidence(%q, %q) gives %v\n%s", v.Name, name, e, n)
					}
				}
			}
			if e, err := net.ToEvidence(v.Name, missing(t, v.Outcomes)); err == nil || e != nil {
				t.Fatalf("ToEvidence accepts an unknown outcome of %q: %v\n%s", v.Name, e, n)
			}
		}
		if e, err := net.ToEvidence(missing(t, n.Names(allVars(n))), "o0"); err == nil || e != nil {
			t.Fatalf("ToEvidence accepts an unknown variable: %v\n%s", e, n)
		}
	})
}

// missing draws a name that is not in the list, but similar to one of them.
func missing(t *rapid.T, names []string) string {
	s := rapid.SampledFrom([]string{"nobody", "", " ", "0", "x"}).Draw(t, "missing")
	if len(names) > 0 && model.Pct(t, "similar", 70) {
		s = names[model.Intn(t, "similarto", 0, len(names)-1)]
		switch model.Intn(t, "how", 0, 3) {
		case 0:
			s += " "
		case 1:
			s = " " + s
		case 2:
			if len(s) > 0 {
				s = s[:len(s)-1]
			}
		default:
			b := []byte(s)
			for i := range b {
				switch {
				case b[i] >= 'a' && b[i] <= 'z':
					b[i] -= 32
				case b[i] >= 'A' && b[i] <= 'Z':
					b[i] += 32
				}
			}
			s = string(b)
		}
	}
	for {
		found := false
		for _, x := range names {
			found = found || x == s
		}
		if !found {
			return s
		}
		s += "?"
	}
}

func invalidRequest(t *rapid.T, c *hx.C, n *model.Net, net *bbn.Network) {
	non := n.NonUtility()
	us := n.Of(model.Utility)
	allU := append([]int{}, us...)
	if n.Total >= 0 {
		allU = append(allU, n.Total)
	}
	ev := n.Evidence(model.GenEvidence(t, n, non, 2))
	rest := []int{}
	for _, i := range non {
		if _, ok := ev[n.Vars[i].Name]; !ok {
			rest = append(rest, i)
		}
	}
	q := n.Names(model.Subset(t, "badq", rest, 0, 2))
	u := ""
	if len(us) > 0 && model.Pct(t, "named", 50) {
		u = n.Vars[us[model.Intn(t, "u", 0, len(us)-1)]].Name
	}
	ignore := model.Pct(t, "badignore", 40)
	at := func(x string) { // put x into the query at some place
		k := model.Intn(t, "place", 0, len(q))
		q = append(append(append([]string{}, q[:k]...), x), q[k:]...)
	}
	kinds := []string{"evidence variable", "evidence outcome", "query variable", "query is evidence"}
	kinds = append(kinds, "utility name", "utility is no utility")
	if len(allU) > 0 {
		kinds = append(kinds, "utility evidence", "utility query")
	}
	kind := rapid.SampledFrom(kinds).Draw(t, "bad")
	utility := false
	both := len(us) > 0
	names := n.Names(allVars(n))
	switch kind {
	case "evidence variable":
		ev[missing(t, names)] = "o0"
	case "evidence outcome":
		i := non[model.Intn(t, "i", 0, len(non)-1)]
		ev[n.Vars[i].Name] = missing(t, n.Vars[i].Outcomes)
		q = without(q, n.Vars[i].Name)
	case "query variable":
		at(missing(t, names))
	case "query is evidence":
		i := non[model.Intn(t, "i", 0, len(non)-1)]
		ev[n.Vars[i].Name] = n.Vars[i].Outcomes[model.Intn(t, "o", 0, n.Card(i)-1)]
		q = without(q, n.Vars[i].Name)
		at(n.Vars[i].Name)
	case "utility evidence":
		i := allU[model.Intn(t, "i", 0, len(allU)-1)]
		ev[n.Vars[i].Name] = n.Vars[i].Outcomes[0]
	case "utility query":
		at(n.Vars[allU[model.Intn(t, "i", 0, len(allU)-1)]].Name)
	case "utility name":
		u = missing(t, append(names, ""))
		utility = true
	case "utility is no utility":
		i := non[model.Intn(t, "i", 0, len(non)-1)]
		u = n.Vars[i].Name
		if u == "" {
			return
		}
		utility = true
	}
	c.Label("%s", kind)
	desc := fmt.Sprintf("%s: evidence %q query %q utility %q ignore %v", kind, ev, q, u, ignore)
	c.Case(desc+"\n"+n.String(), true)
	if !utility {
		res, f, err := net.SolveQuery(ev, q, ignore)
		if err == nil || res != nil || f != nil {
			t.Fatalf("SolveQuery gives %v, %v, error %v for invalid request %s\n%s", res, f, err, desc, n)
		}
		if err.Error() == "" {
			t.Fatalf("empty error message for %s", desc)
		}
	}
	if both || utility {
		var f *ve.Factor
		f, err := net.SolveUtility(ev, q, u, ignore)
		if err == nil || f != nil {
			t.Fatalf("SolveUtility gives %v, error %v for invalid request %s\n%s", f, err, desc, n)
		}
	}
}

func without(xs []string, x string) []string {
	r := []string{}
	for _, y := range xs {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}
