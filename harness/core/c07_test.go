package core

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
	"pgregory.net/rapid"
)

func TestC07(t *testing.T) {
	hx.Run(t, "histories", 900, func(t *rapid.T, c *hx.C) {
		o := decOpt()
		o.MinDec, o.MaxDec = 0, 2
		o.Exact, o.DecOut = true, 2
		o.MaxStates = 300
		o.MaxChance = 4
		if model.Pct(t, "no decisions", 30) {
			o.MaxDec, o.Exact = 0, false
		}
		n := model.GenNet(t, o)
		net := build(t, n)
		fresh := build(t, n)
		want := solvePolicies(t, n, fresh, true)
		solved := len(n.Decisions()) == 0
		var eff map[int]model.Policy
		non := n.NonUtility()
		us := n.Of(model.Utility)
		log := []string{}
		kinds := map[string]bool{}
		note := func(kind, format string, args ...any) {
			kinds[kind] = true
			log = append(log, kind+" "+fmt.Sprintf(format, args...))
		}
		scribble := func(data []float64) {
			if model.Pct(t, "scribble", 50) {
				note("scribble", "")
				for i := range data {
					data[i] = -7
				}
			}
		}
		steps := model.Intn(t, "steps", 2, 14)
		if model.Pct(t, "long", 8) {
			steps = model.Intn(t, "long steps", 15, 80)
			c.Label("long history")
		}
		// like takes an earlier request instead of a new one, as it was or with a small difference
		var evs []map[int]int
		var qs [][]int
		like := func(ev map[int]int, q []int) (map[int]int, []int) {
			if len(evs) == 0 || !model.Pct(t, "again", 40) {
				return ev, q
			}
			k := model.Intn(t, "which", 0, len(evs)-1)
			ev, q = map[int]int{}, append([]int{}, qs[k]...)
			for _, i := range non {
				if o, ok := evs[k][i]; ok {
					ev[i] = o
					if model.Pct(t, "other outcome", 15) {
						ev[i] = model.Intn(t, "evo", 0, n.Card(i)-1)
					}
				}
			}
			if model.Pct(t, "other order", 30) {
				p := model.Perm(t, "order", len(q))
				for a, b := range p {
					q[a] = qs[k][b]
				}
			}
			if len(q) > 0 && model.Pct(t, "fewer", 15) {
				q = q[1:]
			}
			c.Label("request like an earlier one")
			return ev, q
		}
		// spoil modifies a factor that was returned, in all ways its interface allows
		spoil := func(f *ve.Factor) {
			scribble(f.Data())
			if vs := f.Variables(); len(vs) > 0 && model.Pct(t, "spoil variables", 20) {
				note("scribble", "variables")
				for i := range vs {
					vs[i] = ve.Variable{}
				}
			}
		}
		// results that are kept must stay as they were
		type keptResult struct {
			at         int
			data, copy []float64
			vars       []ve.Variable
			f          *ve.Factor
		}
		var kept []keptResult
		keep := func(f *ve.Factor, data ...[]float64) {
			if f != nil {
				kept = append(kept, keptResult{len(log), f.Data(), append([]float64{}, f.Data()...), append([]ve.Variable{}, f.Variables()...), f})
			}
			for _, d := range data {
				kept = append(kept, keptResult{at: len(log), data: d, copy: append([]float64{}, d...)})
			}
		}
		// factors that are kept can be used later
		type keptFactor struct {
			f       *ve.Factor
			want    *model.Flat
			q       []int
			utility bool
		}
		var factors []keptFactor
		useKept := func(ctx string) {
			k := factors[model.Intn(t, "kept", 0, len(factors)-1)]
			extra := 0
			if k.utility {
				extra = 1
			}
			checkFactor(t, n, net, k.f, k.want, ctx, extra)
			if k.utility {
				return
			}
			res := map[string][]float64{}
			for _, i := range k.q {
				m := net.Marginal(k.f, n.Vars[i].Name)
				m = net.Normalize(&m)
				res[n.Vars[i].Name] = m.Data()
			}
			checkMarginals(t, n, k.want, res, ctx)
		}
		for s := 0; s < steps; s++ {
			if len(factors) > 0 && model.Pct(t, "use kept", 20) {
				note("use kept", "")
				useKept("a factor kept from an earlier request, after " + strings.Join(log, "; "))
			}
			ctx := strings.Join(log, "; ")
			switch model.Intn(t, "op", 0, 9) {
			case 0, 1, 2: // query
				ev := model.GenEvidence(t, n, non, 3)
				q := model.Subset(t, "q", model.Without(non, ev), 0, 3)
				ev, q = like(ev, q)
				ignore := model.Pct(t, "ignore", 40)
				if !solved {
					// unsolved decisions and what they observe must be given or queried
					ev, q = completeRequest(t, n, ev, q)
				}
				note("query", "%s %q %v", n.EvString(ev), n.Names(q), ignore)
				p := effective(eff, ev, ignore)
				evs, qs = append(evs, ev), append(qs, q)
				evArg, qArg := n.Evidence(ev), n.Names(q)
				res, f, err := net.SolveQuery(evArg, qArg, ignore)
				if err != nil {
					t.Fatalf("after %s: error %v\n%s", ctx, err, n)
				}
				if !reflect.DeepEqual(evArg, n.Evidence(ev)) || !eqStrings(qArg, n.Names(q)) {
					t.Fatalf("after %s: the request changed its arguments to %q %q\n%s", strings.Join(log, "; "), evArg, qArg, n)
				}
				clear(evArg)
				clear(qArg)
				j := model.NewSem(n, p).Joint(ev, q)
				checkMarginals(t, n, j, res, "after "+ctx)
				checkFactor(t, n, net, f, j, "after "+ctx)
				if model.Pct(t, "keep", 30) {
					note("keep", "")
					keep(f)
					factors = append(factors, keptFactor{f, j, q, false})
					for _, i := range q {
						keep(nil, res[n.Vars[i].Name])
					}
					if len(q) > 0 {
						g, m, h := net.Rearrange(f, n.Names(q)), net.Marginal(f, n.Vars[q[0]].Name), net.Normalize(f)
						keep(&g)
						keep(&m)
						keep(&h)
					}
					break
				}
				for _, i := range q {
					scribble(res[n.Vars[i].Name])
				}
				if len(q) > 0 && model.Pct(t, "derive", 30) {
					note("rearrange", "")
					g := net.Rearrange(f, n.Names(q))
					scribble(g.Data())
					m := net.Marginal(f, n.Vars[q[0]].Name)
					scribble(m.Data())
					g = net.Normalize(f)
					scribble(g.Data())
				}
				spoil(f)
			case 3, 4: // utility
				if len(us) == 0 {
					continue
				}
				ev := model.GenEvidence(t, n, non, 3)
				q := model.Subset(t, "q", model.Without(non, ev), 0, 2)
				ev, q = like(ev, q)
				ignore := model.Pct(t, "ignore", 40)
				if !solved {
					ev, q = completeRequest(t, n, ev, q)
				}
				k := model.Intn(t, "u", -1, len(us)-1)
				u, name := -1, ""
				if k >= 0 {
					u, name = us[k], n.Vars[us[k]].Name
				}
				note("utility", "%q %s %q %v", name, n.EvString(ev), n.Names(q), ignore)
				evs, qs = append(evs, ev), append(qs, q)
				evArg, qArg := n.Evidence(ev), n.Names(q)
				f, err := net.SolveUtility(evArg, qArg, name, ignore)
				if err != nil {
					t.Fatalf("after %s: error %v\n%s", ctx, err, n)
				}
				if !reflect.DeepEqual(evArg, n.Evidence(ev)) || !eqStrings(qArg, n.Names(q)) {
					t.Fatalf("after %s: the request changed its arguments to %q %q\n%s", strings.Join(log, "; "), evArg, qArg, n)
				}
				clear(evArg)
				clear(qArg)
				uj := model.NewSem(n, effective(eff, ev, ignore)).Utility(ev, q, u)
				checkFactor(t, n, net, f, uj, "after "+ctx+" utility "+name, 1)
				if model.Pct(t, "keep", 30) {
					note("keep", "")
					keep(f)
					factors = append(factors, keptFactor{f, uj, q, true})
					break
				}
				spoil(f)
			case 5, 6: // policies
				step := model.Pct(t, "stepwise", 50)
				note("policies", "%v", step)
				ps, err := net.SolvePolicies(step)
				if err != nil {
					t.Fatalf("after %s: error %v\n%s", ctx, err, n)
				}
				got := policies(t, n, ps)
				samePolicies(t, n, want, got, "after "+ctx)
				eff, solved = got, true
				if model.Pct(t, "keep", 30) {
					note("keep", "")
					for _, d := range n.Decisions() {
						keep(nil, ps[n.Vars[d].Name].Table)
					}
					break
				}
				for _, d := range n.Decisions() {
					p := ps[n.Vars[d].Name]
					scribble(p.Table)
					if model.Pct(t, "spoil given", 20) {
						note("scribble", "given")
						clear(p.Given)
					}
				}
			case 7: // failing requests
				bad := map[string]string{"no such variable": "x"}
				note("failing", "")
				if _, _, err := net.SolveQuery(bad, nil, false); err == nil {
					t.Fatalf("unknown evidence variable accepted\n%s", n)
				}
				if _, err := net.SolveUtility(nil, []string{"no such variable"}, "", true); err == nil {
					t.Fatalf("unknown query variable accepted\n%s", n)
				}
				if _, _, err := net.SolveQuery(map[string]string{n.Vars[non[0]].Name: "no such outcome"}, nil, true); err == nil {
					t.Fatalf("unknown outcome accepted\n%s", n)
				}
			case 8: // serialise
				note("serialise", "")
				y, err := bbn.ToYAML(net)
				if err != nil {
					t.Fatalf("after %s: ToYAML: %v\n%s", ctx, err, n)
				}
				for i := range y {
					y[i] = ' '
				}
			case 9: // evidence conversion
				i := non[model.Intn(t, "i", 0, len(non)-1)]
				o := model.Intn(t, "o", 0, n.Card(i)-1)
				note("evidence", "%d %d", i, o)
				e, err := net.ToEvidence(n.Vars[i].Name, n.Vars[i].Outcomes[o])
				if err != nil {
					t.Fatalf("after %s: ToEvidence: %v\n%s", ctx, err, n)
				}
				for k := range e {
					if (e[k] == 1) != (k == o) || (e[k] == 0) != (k != o) {
						t.Fatalf("after %s: ToEvidence gives %v for outcome %d\n%s", ctx, e, o, n)
					}
				}
				scribble(e)
			}
			unchanged(t, n, net, "after "+strings.Join(log, "; "))
		}
		for _, k := range kept {
			if !eqFloats(k.data, k.copy) || k.f != nil && (!eqFloats(k.f.Data(), k.copy) || !reflect.DeepEqual(k.f.Variables(), k.vars)) {
				t.Fatalf("the result of step %d changed later: %v became %v\nsteps %q\n%s", k.at, k.copy, k.data, log, n)
			}
		}
		c.Case(n.String()+strings.Join(log, "; "), len(kinds) >= 3)
		if kinds["scribble"] {
			c.Label("results modified")
		}
		if kinds["policies"] {
			c.Label("policies solved within history")
		}
	})
}

// effective policies for a request.
func effective(eff map[int]model.Policy, ev map[int]int, ignore bool) map[int]model.Policy {
	r := map[int]model.Policy{}
	for d, p := range eff {
		if _, ok := ev[d]; ok && ignore {
			continue
		}
		r[d] = p
	}
	return r
}

// completeRequest adds all decisions and what they observe to the evidence, unless queried.
func completeRequest(t *rapid.T, n *model.Net, ev map[int]int, q []int) (map[int]int, []int) {
	inq := map[int]bool{}
	for _, i := range q {
		inq[i] = true
	}
	for _, d := range n.Decisions() {
		for _, i := range append([]int{d}, n.Vars[d].Parents...) {
			if _, ok := ev[i]; !ok && !inq[i] {
				ev[i] = model.Intn(t, "evo", 0, n.Card(i)-1)
			}
		}
	}
	return ev, q
}

// unchanged checks that the network's description is still the original one.
func unchanged(t *rapid.T, n *model.Net, net *bbn.Network, ctx string) {
	vs := net.Variables()
	if len(vs) != len(n.Vars) || net.Name() != n.Name || net.Info() != n.Info {
		t.Fatalf("%s: network changed\n%s", ctx, n)
	}
	for i, v := range vs {
		m := &n.Vars[i]
		if v.Name != m.Name || int(v.NodeType) != int(m.Kind) || !eqStrings(v.Outcomes, m.Outcomes) || v.Position != m.Pos || v.Color != m.Color {
			t.Fatalf("%s: variable %q changed: %+v\n%s", ctx, m.Name, v, n)
		}
		if v.Factor == nil {
			if m.Table != nil || len(m.Parents) > 0 {
				t.Fatalf("%s: variable %q lost its factor\n%s", ctx, m.Name, n)
			}
			continue
		}
		if !eqStrings(v.Factor.Given, n.Names(m.Parents)) || !eqFloats(v.Factor.Table, m.Table) {
			t.Fatalf("%s: factor of %q changed: given %q table %v\n%s", ctx, m.Name, v.Factor.Given, v.Factor.Table, n)
		}
	}
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}
