package core

import (
	"fmt"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"pgregory.net/rapid"
)

func TestC09(t *testing.T) {
	misuseAddressing(t)
	hx.Run(t, "factors", 1500, func(t *rapid.T, c *hx.C) {
		hi := 5
		if model.Pct(t, "wide", 15) {
			hi = rapid.SampledFrom([]int{17, 130, 260, 700}).Draw(t, "max")
		}
		s := genSpace(t, 1, 5, hi, false)
		scope := model.Subset(t, "scope", all(len(s.v)), 0, 5)
		if len(scope) < 2 && model.Pct(t, "again", 85) {
			s = genSpace(t, 2, 5, hi, false)
			scope = model.Subset(t, "scope", all(len(s.v)), 2, 5)
		}
		for len(scope) > 0 && s.size(scope) > 4000 {
			scope = scope[1:]
		}
		size := s.size(scope)
		f := s.vs.CreateFactor(s.vars(scope), nil)
		if len(f.Data()) != size {
			t.Fatalf("factor over %v has %d entries", s, len(f.Data()))
		}
		for k := range f.Data() {
			f.Data()[k] = float64(k)
		}
		c.Case(fmt.Sprintf("%v scope %v", s, scope), len(scope) >= 2)
		idx := make([]int, len(scope))
		back := make([]int, len(scope))
		s.each(scope, func(k int, x []int) {
			for b, i := range scope {
				idx[b] = x[i]
			}
			if got := f.Index(idx); got != k {
				t.Fatalf("cards %v scope %v: index of %v is %d, want %d", s, scope, idx, got, k)
			}
			if got, ok := f.IndexWithNoData(idx); !ok || got != k {
				t.Fatalf("cards %v scope %v: index (no-data) of %v is %d %v, want %d", s, scope, idx, got, ok, k)
			}
			for b := range back {
				back[b] = -9
			}
			f.Outcomes(k, back)
			for b := range back {
				if back[b] != idx[b] {
					t.Fatalf("cards %v scope %v: outcomes of %d are %v, want %v", s, scope, k, back, idx)
				}
			}
			if f.Get(idx) != float64(k) {
				t.Fatalf("cards %v scope %v: value at %v is %v, want %d", s, scope, idx, f.Get(idx), k)
			}
			if len(scope) > 0 {
				last := s.card[scope[len(scope)-1]]
				row := f.Row(idx[:len(idx)-1])
				start, ln := f.RowIndex(idx[:len(idx)-1])
				if len(row) != last || ln != last || start != k-idx[len(idx)-1] || &row[idx[len(idx)-1]] != &f.Data()[k] {
					t.Fatalf("cards %v scope %v: row of %v starts at %d with length %d (%d)", s, scope, idx, start, ln, len(row))
				}
			}
		})
		// set changes exactly the addressed cell
		for r := model.Intn(t, "sets", 0, 4); r > 0; r-- {
			k := model.Intn(t, "cell", 0, size-1)
			f.Outcomes(k, idx)
			v := float64(-1 - model.Intn(t, "value", 0, 100))
			before := append([]float64{}, f.Data()...)
			f.Set(idx, v)
			before[k] = v
			if !eqFloats(before, f.Data()) {
				t.Fatalf("cards %v scope %v: setting %v gives %v", s, scope, idx, f.Data())
			}
		}
		// missing data
		if len(scope) > 0 {
			f.Outcomes(model.Intn(t, "cell", 0, size-1), idx)
			for _, b := range model.Subset(t, "missing", all(len(scope)), 1, len(scope)) {
				idx[b] = -1
			}
			if got, ok := f.IndexWithNoData(idx); ok {
				t.Fatalf("cards %v scope %v: index of missing data %v is %d", s, scope, idx, got)
			}
		}
	})
	hx.Run(t, "large", 10, func(t *rapid.T, c *hx.C) {
		// too many cells to address all of them
		s := genLarge(t)
		scope := model.Perm(t, "scope", 3)
		f := s.vs.CreateFactor(s.vars(scope), nil)
		for k := range f.Data() {
			f.Data()[k] = float64(k)
		}
		c.Case(fmt.Sprintf("%v scope %v", s, scope), true)
		idx, back := make([]int, 3), make([]int, 3)
		for r := 0; r < 40; r++ {
			k := 0
			for b, i := range scope {
				idx[b] = model.Intn(t, "idx", 0, 10000) % s.card[i]
				if model.Pct(t, "end", 20) {
					idx[b] = s.card[i] - 1
				}
				k = k*s.card[i] + idx[b]
			}
			f.Outcomes(k, back)
			i2, ok := f.IndexWithNoData(idx)
			start, ln := f.RowIndex(idx[:2])
			row := f.Row(idx[:2])
			last := s.card[scope[2]]
			if f.Index(idx) != k || !ok || i2 != k || fmt.Sprint(back) != fmt.Sprint(idx) || f.Get(idx) != float64(k) ||
				start != k-idx[2] || ln != last || len(row) != last || &row[idx[2]] != &f.Data()[k] {
				t.Fatalf("cards %v scope %v: cell %v: index %d (%d %v), outcomes %v, value %v, row at %d with %d; want index %d",
					s, scope, idx, f.Index(idx), i2, ok, back, f.Get(idx), start, ln, k)
			}
			f.Set(idx, float64(k)+0.5)
			if f.Data()[k] != float64(k)+0.5 {
				t.Fatalf("cards %v scope %v: setting %v does not set %d", s, scope, idx, k)
			}
			f.Data()[k] = float64(k)
		}
	})
	hx.Run(t, "large-rows", 3, func(t *rapid.T, c *hx.C) {
		cards := []int{model.Intn(t, "card", 150, 300), model.Intn(t, "card", 150, 300), model.Intn(t, "card", 2, 5)}
		vars := make([]bbn.Variable, 3)
		facs := make([]bbn.Factor, 3)
		for i := range vars {
			vars[i].Name = "V" + itoa(i)
			for o := 0; o < cards[i]; o++ {
				vars[i].Outcomes = append(vars[i].Outcomes, "o"+itoa(o))
			}
			facs[i] = bbn.Factor{For: vars[i].Name, Table: make([]float64, cards[i])}
		}
		facs[2].Given = []string{"V0", "V1"}
		facs[2].Table = make([]float64, cards[0]*cards[1]*cards[2])
		for i := range facs {
			for k := range facs[i].Table {
				facs[i].Table[k] = float64(k%97 + 1)
			}
		}
		c.Case(fmt.Sprintf("rows of %v", cards), true)
		net, err := bbn.New("n", "", vars, facs)
		if err != nil {
			t.Fatalf("error %v", err)
		}
		f := net.Variables()[2].Factor
		for r := 0; r < 40; r++ {
			a, b := model.Intn(t, "a", 0, 10000)%cards[0], model.Intn(t, "b", 0, 10000)%cards[1]
			row, ok := f.Row([]int{a, b})
			if !ok || len(row) != cards[2] || &row[0] != &f.Table[(a*cards[1]+b)*cards[2]] {
				t.Fatalf("outcomes %v: row of [%d %d] is %v %v", cards, a, b, row, ok)
			}
		}
	})
	hx.Run(t, "rows", 1500, func(t *rapid.T, c *hx.C) {
		o := model.Std()
		o.MinChance, o.MaxUtil, o.Total, o.MaxDec, o.MaxOut = 2, 2, 40, 1, 5
		n := model.GenNet(t, o)
		net := build(t, n)
		c.Case(n.String(), edges(n) > 0)
		if len(n.Decisions()) == 0 && model.Pct(t, "used before", 30) {
			checkAnswers(t, n, net, false, "before writing rows")
		}
		for i, v := range net.Variables() {
			m := &n.Vars[i]
			if m.Table == nil || i == n.Total {
				continue
			}
			checkRows(t, n, i, v.Factor)
			// missing parents
			if len(m.Parents) > 0 {
				idx := make([]int, len(m.Parents))
				for b := range idx {
					idx[b] = model.Intn(t, "idx", 0, n.Card(m.Parents[b])-1)
				}
				for _, b := range model.Subset(t, "missing", all(len(idx)), 1, len(idx)) {
					idx[b] = -1
				}
				if row, ok := v.Factor.Row(idx); ok {
					t.Fatalf("row of %q for missing data %v is %v\n%s", m.Name, idx, row, n)
				}
			}
		}
		// what was written through rows counts
		if len(n.Decisions()) == 0 && model.Pct(t, "answers", 30) {
			for i := range n.Vars {
				if f := net.Variables()[i].Factor; f != nil && n.Vars[i].Table != nil {
					n.Vars[i].Table = append([]float64{}, f.Table...)
				}
			}
			checkAnswers(t, n, net, false, "after writing rows")
			c.Label("answers after writing rows")
		}
	})
}

func checkRows(t *rapid.T, n *model.Net, i int, f *bbn.Factor) {
	m := &n.Vars[i]
	card := n.Card(i)
	idx := make([]int, len(m.Parents))
	for r := 0; r < n.Rows(i); r++ {
		k := r
		for b := len(idx) - 1; b >= 0; b-- {
			idx[b] = k % n.Card(m.Parents[b])
			k /= n.Card(m.Parents[b])
		}
		row, ok := f.Row(idx)
		if !ok || len(row) != card {
			t.Fatalf("row of %q for %v: %v %v\n%s", m.Name, idx, row, ok, n)
		}
		for o := range row {
			if &row[o] != &f.Table[r*card+o] || row[o] != m.Table[r*card+o] {
				t.Fatalf("row of %q for %v is %v, want %v\n%s", m.Name, idx, row, m.Table[r*card:(r+1)*card], n)
			}
		}
	}
	// writing through a row changes the table
	r := model.Intn(t, "row", 0, n.Rows(i)-1)
	k := r
	for b := len(idx) - 1; b >= 0; b-- {
		idx[b] = k % n.Card(m.Parents[b])
		k /= n.Card(m.Parents[b])
	}
	row, _ := f.Row(idx)
	want := append([]float64{}, m.Table...)
	for o := range row {
		row[o] = float64(o + 1)
		want[r*card+o] = float64(o + 1)
	}
	if !eqFloats(want, f.Table) {
		t.Fatalf("writing row %v of %q gives %v, want %v\n%s", idx, m.Name, f.Table, want, n)
	}
}
