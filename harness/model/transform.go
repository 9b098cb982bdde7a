package model

import (
	"fmt"

	"pgregory.net/rapid"
)

// Iso is a re-description of a network: Net is equivalent to the original one.
type Iso struct {
	Net  *Net
	VMap []int   // original variable -> variable of Net
	OMap [][]int // original variable, original outcome -> outcome
}

// GenIso draws an equivalent description: permuted declarations, parents and outcomes, scaled rows, new names.
func GenIso(t *rapid.T, n *Net, pow2 bool) *Iso {
	size := len(n.Vars)
	vm := Perm(t, "vmap", size)
	// keep the relative order of decisions
	dec := n.Of(Decision)
	slots := []int{}
	for i := 0; i < size; i++ {
		for _, d := range dec {
			if vm[d] == i {
				slots = append(slots, i)
			}
		}
	}
	for k, d := range dec {
		vm[d] = slots[k]
	}
	iso := &Iso{VMap: vm, OMap: make([][]int, size)}
	rename := Pct(t, "rename", 60)
	m := &Net{Name: "iso", Total: -1, Vars: make([]Var, size)}
	for i := range n.Vars {
		iso.OMap[i] = Perm(t, "omap", n.Card(i))
	}
	if n.Total >= 0 {
		m.Total = vm[n.Total]
	}
	for _, i := range n.Topo {
		m.Topo = append(m.Topo, vm[i])
	}
	for i := range n.Vars {
		v := &n.Vars[i]
		w := &m.Vars[vm[i]]
		w.Kind = v.Kind
		w.Name = v.Name
		if rename {
			w.Name = fmt.Sprintf("R%d", (i*7+3)%size*100+i)
		}
		pp := Perm(t, "pperm", len(v.Parents)) // new position -> old position
		if i == n.Total {
			// outcomes belong to the parents
			iso.OMap[i] = make([]int, len(pp))
			w.Outcomes = make([]string, len(pp))
			for a, b := range pp {
				iso.OMap[i][b] = a
				w.Parents = append(w.Parents, vm[v.Parents[b]])
				w.Outcomes[a] = v.Outcomes[b]
				w.Table = append(w.Table, v.Table[b])
			}
			continue
		}
		w.Outcomes = make([]string, len(v.Outcomes))
		for o, name := range v.Outcomes {
			if rename {
				name = fmt.Sprintf("q%d", o)
			}
			w.Outcomes[iso.OMap[i][o]] = name
		}
		for _, b := range pp {
			w.Parents = append(w.Parents, vm[v.Parents[b]])
		}
		if v.Table == nil {
			continue
		}
		w.Table = make([]float64, len(v.Table))
		card := n.Card(i)
		x := make([]int, len(v.Parents)) // old parent outcomes
		for r := 0; r < n.Rows(i); r++ {
			k := r
			for b := len(x) - 1; b >= 0; b-- {
				x[b] = k % n.Card(v.Parents[b])
				k /= n.Card(v.Parents[b])
			}
			row := 0
			for _, b := range pp {
				p := v.Parents[b]
				row = row*n.Card(p) + iso.OMap[p][x[b]]
			}
			scale := 1.0
			if v.Kind == Chance && Pct(t, "scale", 30) {
				if pow2 {
					scale = float64(int(1) << Intn(t, "pow", 1, 6))
				} else {
					scale = float64(Intn(t, "by", 2, 700)) / 100
				}
			}
			for o := 0; o < card; o++ {
				w.Table[row*card+iso.OMap[i][o]] = v.Table[r*card+o] * scale
			}
		}
	}
	m.FactorPerm = Perm(t, "fperm", size)
	iso.Net = m
	return iso
}

// Ev maps evidence.
func (s *Iso) Ev(ev map[int]int) map[int]int {
	r := map[int]int{}
	for i, o := range ev {
		r[s.VMap[i]] = s.OMap[i][o]
	}
	return r
}

// Vars maps variables.
func (s *Iso) Vars(q []int) []int {
	r := make([]int, len(q))
	for k, i := range q {
		r[k] = s.VMap[i]
	}
	return r
}
