package core

import (
	"fmt"
	"testing"

	"verif/hx"
	"verif/model"

	"pgregory.net/rapid"
)

// misuseAlgebra: operations that are not defined for their operands are refused.
func misuseAlgebra(t *testing.T) {
	hx.Run(t, "misuse", 300, func(t *rapid.T, c *hx.C) {
		s := genSpace(t, 2, 5, 4, model.Pct(t, "kinds", 50))
		scope := model.Subset(t, "scope", all(len(s.v)), 0, len(s.v)-1)
		absent := -1
		for i := range s.v {
			found := false
			for _, j := range scope {
				found = found || i == j
			}
			if !found && (absent < 0 || model.Pct(t, "other absent", 50)) {
				absent = i
			}
		}
		f := s.vs.CreateFactor(s.vars(scope), nil)
		for k := range f.Data() {
			f.Data()[k] = float64(model.Intn(t, "value", 0, 5))
		}
		data := append([]float64{}, f.Data()...)
		v := s.v[absent]
		kinds := []string{"restrict", "sum out", "marginal", "normalize for", "policy", "rearrange: absent", "rearrange: number", "observation", "data"}
		kind := rapid.SampledFrom(kinds).Draw(t, "kind")
		ctx := fmt.Sprintf("%s: %v scope %v, absent %d", kind, s, scope, absent)
		var do func()
		switch kind {
		case "restrict":
			o := model.Intn(t, "o", 0, s.card[absent]-1)
			do = func() { s.vs.Restrict(&f, v, o) }
		case "sum out":
			do = func() { s.vs.SumOut(&f, v) }
		case "marginal":
			do = func() { s.vs.Marginal(&f, v) }
		case "normalize for":
			do = func() { s.vs.NormalizeFor(&f, v) }
		case "policy":
			do = func() { s.vs.Policy(&f, v) }
		case "rearrange: absent":
			if len(scope) == 0 {
				return
			}
			to := append([]int{}, scope...)
			to[model.Intn(t, "place", 0, len(to)-1)] = absent
			do = func() { s.vs.Rearrange(&f, s.vars(to)) }
		case "rearrange: number":
			to := append(append([]int{}, scope...), absent)
			if len(scope) > 0 && model.Pct(t, "fewer", 50) {
				to = scope[1:]
			}
			do = func() { s.vs.Rearrange(&f, s.vars(to)) }
		case "observation":
			if len(scope) == 0 {
				return
			}
			i := scope[model.Intn(t, "var", 0, len(scope)-1)]
			o := rapid.SampledFrom([]int{-1, s.card[i], s.card[i] + 1, -s.card[i], 1 << 16, 1 << 32}).Draw(t, "observation")
			ctx += fmt.Sprintf(" variable %d observation %d", i, o)
			do = func() { s.vs.Restrict(&f, s.v[i], o) }
		case "data":
			n := s.size(scope)
			m := rapid.SampledFrom([]int{n - 1, n + 1, 2 * n, n + 7}).Draw(t, "length")
			ctx += fmt.Sprintf(" length %d", m)
			do = func() { s.vs.CreateFactor(s.vars(scope), make([]float64, m)) }
			if m == n || m == 0 {
				return
			}
		}
		c.Case(ctx, len(scope) > 0)
		c.Label("%s", kind)
		if !panics(do) {
			t.Fatalf("an operation that is not defined is not refused: %s", ctx)
		}
		if !eqFloats(f.Data(), data) || len(f.Variables()) != len(scope) {
			t.Fatalf("a refused operation changes its operand: %s", ctx)
		}
	})
}

// misuseAddressing: addressing with the wrong number of indices is refused.
func misuseAddressing(t *testing.T) {
	hx.Run(t, "misuse", 300, func(t *rapid.T, c *hx.C) {
		s := genSpace(t, 1, 5, 4, false)
		scope := model.Subset(t, "scope", all(len(s.v)), 0, 5)
		f := s.vs.CreateFactor(s.vars(scope), nil)
		data := append([]float64{}, f.Data()...)
		kind := rapid.SampledFrom([]string{"index", "no data", "outcomes", "row", "row index", "get", "set"}).Draw(t, "kind")
		n := len(scope)
		if kind == "row" || kind == "row index" {
			n--
		}
		m := model.Intn(t, "indices", 0, 7)
		if m == n {
			return
		}
		idx := make([]int, m)
		if kind == "no data" && m > 0 && model.Pct(t, "missing", 30) {
			idx[model.Intn(t, "which", 0, m-1)] = -1
		}
		do := map[string]func(){
			"index":     func() { f.Index(idx) },
			"no data":   func() { f.IndexWithNoData(idx) },
			"outcomes":  func() { f.Outcomes(0, idx) },
			"row":       func() { f.Row(idx) },
			"row index": func() { f.RowIndex(idx) },
			"get":       func() { f.Get(idx) },
			"set":       func() { f.Set(idx, 7) },
		}[kind]
		ctx := fmt.Sprintf("%s of %v scope %v with %d indices", kind, s, scope, m)
		c.Case(ctx, len(scope) > 0 && m > 0)
		c.Label("%s", kind)
		if !panics(do) {
			t.Fatalf("%s is not refused", ctx)
		}
		if !eqFloats(f.Data(), data) {
			t.Fatalf("%s changes the factor", ctx)
		}
	})
	hx.Run(t, "misuse network", 150, func(t *rapid.T, c *hx.C) {
		o := inferOpt()
		o.MaxStates = 100
		n := model.GenNet(t, o)
		net := build(t, n)
		i := model.Intn(t, "variable", 0, len(n.Vars)-1)
		m := model.Intn(t, "indices", 0, 6)
		if m == len(n.Vars[i].Parents) || i == n.Total {
			return
		}
		c.Case(fmt.Sprintf("%d indices for %q in %s", m, n.Vars[i].Name, n), len(n.Vars[i].Parents) > 0)
		if !panics(func() { net.Variables()[i].Factor.Row(make([]int, m)) }) {
			t.Fatalf("a row of %q with %d parents is given for %d indices\n%s", n.Vars[i].Name, len(n.Vars[i].Parents), m, n)
		}
	})
}
