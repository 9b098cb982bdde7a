package core

import (
	"fmt"
	"math"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn/ve"
	"pgregory.net/rapid"
)

type lfac struct {
	scope []int
	data  []float64
}

func TestC10(t *testing.T) {
	hx.Run(t, "queries", 2500, lowQueries)
	hx.Run(t, "policies", 1200, lowPolicies)
	hx.Run(t, "identifiers", 100, func(t *rapid.T, c *hx.C) {
		vs := ve.NewVariables()
		used := map[int]bool{}
		ids := []int{}
		for k := model.Intn(t, "n", 2, 12); k > 0; k-- {
			id := model.Intn(t, "id", -3, 12)
			kind := ve.NodeType(model.Intn(t, "kind", 0, 2))
			ids = append(ids, id)
			refused := func() (r bool) {
				defer func() { r = recover() != nil }()
				v := vs.AddVariable(id, kind, uint16(model.Intn(t, "card", 1, 4)))
				if v.Id() != id || v.NodeType() != kind {
					t.Fatalf("variable %d has identifier %d, kind %d", id, v.Id(), v.NodeType())
				}
				return false
			}()
			if refused != used[id] {
				t.Fatalf("identifiers %v: the last one is refused: %v", ids, refused)
			}
			used[id] = true
		}
		c.Case(fmt.Sprint(ids), len(used) < len(ids))
	})
}

// lowQueries: arbitrary factors over variables with arbitrary identifiers.
func lowQueries(t *rapid.T, c *hx.C) {
	s := genSpace(t, model.Intn(t, "least", 1, 4), 6, 3, false)
	if model.Pct(t, "wide", 10) {
		s = genSpace(t, 1, 3, 12, false)
	}
	nv := len(s.v)
	for s.size(all(nv)) > 2000 {
		nv--
	}
	// utility variables, anywhere in the order of declaration
	s2 := &space{vs: ve.NewVariables()}
	type item struct{ i, u int }
	items := []item{}
	nu := model.Intn(t, "utilities", 0, 3)
	if model.Pct(t, "many utilities", 6) {
		nu = model.Intn(t, "utilities+", 4, 7)
	}
	for i := 0; i < nv; i++ {
		items = append(items, item{i, -1})
	}
	for u := 0; u < nu; u++ {
		items = append(items, item{-1, u})
	}
	// identifiers of utilities are arbitrary, too
	used := map[int]bool{}
	for i := 0; i < nv; i++ {
		used[s.id[i]] = true
	}
	uid := make([]int, nu)
	for u := range uid {
		id := genID(t, 400)
		for used[id] {
			id++
		}
		used[id] = true
		uid[u] = id
	}
	s2.v, s2.id, s2.card = make([]ve.Variable, nv), s.id[:nv], s.card[:nv]
	uv := make([]ve.Variable, nu)
	udecl := []int{} // utilities in the order of declaration, which is the order of weights
	for _, k := range model.Perm(t, "order", len(items)) {
		if it := items[k]; it.u >= 0 {
			udecl = append(udecl, it.u)
			uv[it.u] = s2.vs.AddVariable(uid[it.u], ve.UtilityNode, 1)
		} else {
			s2.v[it.i] = s2.vs.AddVariable(s.id[it.i], ve.ChanceNode, uint16(s.card[it.i]))
		}
	}
	s = s2

	facs := []lfac{}
	covered := map[int]bool{}
	for k := model.Intn(t, "factors", 1, 5); k > 0; k-- {
		scope := model.Subset(t, "scope", all(nv), 0, 3)
		for _, i := range scope {
			covered[i] = true
		}
		facs = append(facs, lfac{scope, lowData(t, s.size(scope), false)})
	}
	for i := 0; i < nv; i++ {
		if !covered[i] {
			scope := append(model.Subset(t, "more", all(i), 0, 1), i)
			facs = append(facs, lfac{scope, lowData(t, s.size(scope), false)})
		}
	}
	utils := make([]lfac, nu)
	for u := range utils {
		scope := model.Subset(t, "uscope", all(nv), 0, 3)
		utils[u] = lfac{scope, lowData(t, s.size(scope), true)}
	}

	ev := map[int]int{}
	evl := []ve.Evidence{}
	maxEv := min(3, nv-1)
	if model.Pct(t, "much evidence", 12) {
		maxEv = nv
	}
	for _, i := range model.Subset(t, "ev", all(nv), 0, maxEv) {
		ev[i] = model.Intn(t, "evo", 0, s.card[i]-1)
		evl = append(evl, ve.Evidence{Variable: s.v[i], Value: ev[i]})
	}
	q := model.Subset(t, "q", model.Without(all(nv), ev), 0, 3)

	mode := model.Intn(t, "mode", 0, 2) // 0 query, 1 total, 2 single utility
	if nu == 0 {
		mode = 0
	}
	one := 0
	if mode == 2 {
		one = model.Intn(t, "one", 0, nu-1)
	}
	var weights []float64
	wOf := make([]float64, nu)
	for u := range wOf {
		wOf[u] = 1
	}
	if model.Pct(t, "weights", 50) && nu > 0 {
		for u := range wOf {
			wOf[u] = float64(model.Intn(t, "w", -4, 12)) / 4
		}
		weights = []float64{}
		for _, u := range udecl {
			weights = append(weights, wOf[u])
		}
	}

	// real
	order := model.Perm(t, "forder", len(facs)+nu)
	fs := make([]ve.Factor, len(order))
	for k, o := range order {
		if o < len(facs) {
			fs[k] = s.vs.CreateFactor(s.vars(facs[o].scope), append([]float64{}, facs[o].data...))
			continue
		}
		u := o - len(facs)
		vars := s.vars(utils[u].scope)
		at := model.Intn(t, "upos", 0, len(vars))
		vars = append(vars[:at:at], append([]ve.Variable{uv[u]}, vars[at:]...)...)
		fs[k] = s.vs.CreateFactor(vars, append([]float64{}, utils[u].data...))
	}
	desc := fmt.Sprintf("variables %s utilities %v factors %v utility factors %v weights %v evidence %v query %v mode %d of %d", s, uid, facs, utils, weights, ev, q, mode, one)
	c.Case(desc, len(facs) > 1 && len(q)+len(ev) < nv)
	c.Label("mode %d", mode)
	solver := ve.New(s.vs, fs, nil, weights)
	var res *ve.Factor
	switch mode {
	case 0:
		res = solver.SolveQuery(evl, s.vars(q))
	case 1:
		res = solver.SolveUtility(evl, s.vars(q), nil)
	default:
		v := uv[one]
		res = solver.SolveUtility(evl, s.vars(q), &v)
	}

	// brute force
	size := s.size(q)
	val, abs := make([]float64, size), make([]float64, size)
	s.each(all(nv), func(_ int, x []int) {
		for i, o := range ev {
			if x[i] != o {
				return
			}
		}
		p := 1.0
		for _, f := range facs {
			p *= f.data[s.at(f.scope, x)]
		}
		k := s.at(q, x)
		if mode == 0 {
			val[k] += p
			abs[k] += p
			return
		}
		for u := range utils {
			w := p * utils[u].data[s.at(utils[u].scope, x)] * wOf[u]
			if mode == 2 {
				if u != one {
					continue
				}
				w = p * utils[u].data[s.at(utils[u].scope, x)]
			}
			val[k] += w
			abs[k] += math.Abs(w)
		}
	})
	// compare
	got := []int{}
	for _, v := range res.Variables() {
		if i := s.pos(v.Id()); i >= 0 {
			got = append(got, i)
		} else if !(mode == 2 && v.Id() == uid[one]) {
			t.Fatalf("%s: result over unexpected variable %d", desc, v.Id())
		}
	}
	if len(got) != len(q) || len(res.Data()) != size {
		t.Fatalf("%s: result over %d variables with %d entries", desc, len(got), len(res.Data()))
	}
	for j, i := range got {
		if !contains(q, i) || contains(got[:j], i) {
			t.Fatalf("%s: result over wrong variables %v", desc, got)
		}
	}
	s.each(got, func(k int, x []int) {
		w := s.at(q, x)
		if !model.Close(res.Data()[k], val[w], abs[w]) {
			t.Fatalf("%s: value %v at %v is wrong, want %v", desc, res.Data(), x, val[w])
		}
	})
}

func lowData(t *rapid.T, n int, util bool) []float64 {
	d := make([]float64, n)
	for i := range d {
		if util {
			d[i] = float64(model.Intn(t, "u", -50, 90))
		} else {
			d[i] = float64(model.Intn(t, "f", 0, 12)) / 4
		}
	}
	return d
}

// lowPolicies: decision problems posed to the solver directly.
func lowPolicies(t *rapid.T, c *hx.C) {
	o := decOpt()
	o.Exact, o.Unit, o.MinUtil = true, true, 1
	n := model.GenNet(t, o)
	ids := map[int]int{} // model variable -> identifier
	used := map[int]bool{}
	order := model.Perm(t, "declare", len(n.Vars))
	// solved one by one, decisions are ordered by their dependencies only
	vs := ve.NewVariables()
	v := make([]ve.Variable, len(n.Vars))
	weights := []float64{}
	for _, i := range order {
		if i == n.Total {
			continue
		}
		id := genID(t, 300)
		for used[id] {
			id++
		}
		used[id] = true
		ids[id] = i
		v[i] = vs.AddVariable(id, ve.NodeType(n.Vars[i].Kind), uint16(n.Card(i)))
		if n.Vars[i].Kind == model.Utility {
			weights = append(weights, n.Weight(i))
		}
	}
	if n.Total < 0 {
		weights = nil
	}
	fs := []ve.Factor{}
	deps := map[ve.Variable][]ve.Variable{}
	for _, i := range model.Perm(t, "factors", len(n.Vars)) {
		if i == n.Total {
			continue
		}
		sc := []ve.Variable{}
		for _, p := range n.Vars[i].Parents {
			sc = append(sc, v[p])
		}
		if n.Vars[i].Kind == model.Decision {
			deps[v[i]] = sc
			continue
		}
		fs = append(fs, vs.CreateFactor(append(sc, v[i]), append([]float64{}, n.Vars[i].Table...)))
	}
	single := model.Pct(t, "single", 50)
	c.Case(fmt.Sprintf("single %v order %v %s", single, order, n), len(n.Decisions()) > 0)
	pol := ve.New(vs, fs, deps, weights).SolvePolicies(single)
	ds := n.Decisions()
	got := map[int]model.Policy{}
	for dv, p := range pol {
		d, ok := ids[dv.Id()]
		if !ok || n.Vars[d].Kind != model.Decision || p[1] == nil {
			t.Fatalf("policy for %d, which is no decision\n%s", dv.Id(), n)
		}
		mp := model.Policy{For: d}
		sc := []int{}
		for _, x := range p[1].Variables() {
			i, ok := ids[x.Id()]
			if !ok {
				t.Fatalf("policy over unknown variable %d\n%s", x.Id(), n)
			}
			sc = append(sc, i)
		}
		if len(sc) == 0 || sc[len(sc)-1] != d {
			t.Fatalf("policy of %q over %v does not end with the decision\n%s", n.Vars[d].Name, n.Names(sc), n)
		}
		mp.Given = sc[:len(sc)-1]
		mp.Table = append([]float64{}, p[1].Data()...)
		got[d] = mp
	}
	want := len(ds)
	if single && want > 1 {
		want = 1
	}
	if len(got) != want {
		t.Fatalf("single %v: %d policies for %d decisions\n%s", single, len(got), len(ds), n)
	}
	later := map[int]model.Policy{}
	for k := len(ds) - 1; k >= len(ds)-want; k-- {
		d := ds[k]
		p, ok := got[d]
		if !ok {
			t.Fatalf("single %v: no policy for %q\n%s", single, n.Vars[d].Name, n)
		}
		for _, g := range p.Given {
			if !contains(n.Vars[d].Parents, g) {
				t.Fatalf("policy of %q depends on %q, it observes %q\n%s", n.Vars[d].Name, n.Names(p.Given), n.Names(n.Vars[d].Parents), n)
			}
		}
		checkSupport(t, c, n, d, p, later, true, single)
		later[d] = p
	}
}
