package model

import "math"

// Decisions in topological order.
func (n *Net) Decisions() []int {
	r := []int{}
	for _, i := range n.Topo {
		if n.Vars[i].Kind == Decision {
			r = append(r, i)
		}
	}
	return r
}

// Q computes, for decision d (given policies of later decisions), the unnormalised expected
// utility for each combination of given variables and the decision, and its scale.
func (n *Net) Q(d int, given []int, later map[int]Policy) *Flat {
	q := append(append([]int{}, given...), d)
	return NewSem(n, later).Utility(nil, q, -1)
}

// ArgMax gives for each row of a table with `cols` columns the set of exact maximisers.
func ArgMax(val []float64, cols int) [][]bool {
	r := [][]bool{}
	for k := 0; k+cols <= len(val); k += cols {
		m := math.Inf(-1)
		for c := 0; c < cols; c++ {
			m = math.Max(m, val[k+c])
		}
		b := make([]bool, cols)
		for c := 0; c < cols; c++ {
			b[c] = val[k+c] == m
		}
		r = append(r, b)
	}
	return r
}

// MEU is the maximal expected (weighted total) utility by backward induction: decisions are taken in
// topological order, each with knowledge of its parents. It requires perfect recall.
func (n *Net) MEU() (float64, map[int]Policy) {
	pol := map[int]Policy{}
	ds := n.Decisions()
	for k := len(ds) - 1; k >= 0; k-- {
		d := ds[k]
		given := n.Vars[d].Parents
		q := n.Q(d, given, pol)
		c := n.Card(d)
		am := ArgMax(q.Val, c)
		tab := make([]float64, len(q.Val))
		for r := range am {
			for o := 0; o < c; o++ {
				if am[r][o] {
					tab[r*c+o] = 1
					break
				}
			}
		}
		pol[d] = Policy{For: d, Given: given, Table: tab}
	}
	u := NewSem(n, pol).Utility(nil, nil, -1)
	return u.Val[0], pol
}

// Strategies counts the deterministic strategies (capped).
func (n *Net) Strategies(limit float64) float64 {
	s := 1.0
	for _, d := range n.Decisions() {
		s *= math.Pow(float64(n.Card(d)), float64(n.Rows(d)))
		if s > limit {
			return math.Inf(1)
		}
	}
	return s
}

// MEUBrute is the maximal expected utility over all deterministic strategies, by enumeration.
func (n *Net) MEUBrute() float64 {
	ds := n.Decisions()
	best := math.Inf(-1)
	pol := map[int]Policy{}
	var rec func(k int)
	rec = func(k int) {
		if k == len(ds) {
			best = math.Max(best, NewSem(n, pol).Utility(nil, nil, -1).Val[0])
			return
		}
		d := ds[k]
		c := n.Card(d)
		rows := n.Rows(d)
		choice := make([]int, rows)
		for {
			tab := make([]float64, rows*c)
			for r, o := range choice {
				tab[r*c+o] = 1
			}
			pol[d] = Policy{For: d, Given: n.Vars[d].Parents, Table: tab}
			rec(k + 1)
			j := 0
			for ; j < rows; j++ {
				choice[j]++
				if choice[j] < c {
					break
				}
				choice[j] = 0
			}
			if j == rows {
				break
			}
		}
	}
	rec(0)
	return best
}

// Solved is the policies by backward induction in which exact ties are split evenly. With exact arithmetic
// it is what solving has to give, except where the observations are impossible. It is not sure if rounding
// could decide a tie.
func (n *Net) Solved(exact bool) (pol map[int]Policy, sure bool) {
	pol = map[int]Policy{}
	ds := n.Decisions()
	sure = true
	for k := len(ds) - 1; k >= 0; k-- {
		d := ds[k]
		given := n.Vars[d].Parents
		q := n.Q(d, given, pol)
		c := n.Card(d)
		reach := n.reachesUtility(d)
		tab := make([]float64, len(q.Val))
		for r, best := range ArgMax(q.Val, c) {
			num := 0
			m := math.Inf(-1)
			for o, b := range best {
				if b {
					num++
					m = q.Val[r*c+o]
				}
			}
			near := 0
			for o := range best {
				if math.Abs(q.Val[r*c+o]-m) <= 1e-9*(1+q.Abs[r*c+o]) {
					near++
				}
			}
			if (near != num || near > 1 && !exact) && !(reach && n.allZero(q, r*c, c)) {
				sure = false
			}
			for o, b := range best {
				if b {
					tab[r*c+o] = 1 / float64(num)
				}
			}
		}
		for _, x := range tab {
			if x != 0 && x != 1 && x != 0.5 && x != 0.25 {
				exact = false
			}
		}
		pol[d] = Policy{For: d, Given: given, Table: tab}
	}
	return pol, sure
}

// reachesUtility tells whether a utility depends on the variable.
func (n *Net) reachesUtility(d int) bool {
	from := map[int]bool{d: true}
	for _, i := range n.Topo {
		for _, p := range n.Vars[i].Parents {
			if from[p] && n.Vars[i].Kind != Decision { // policies may ignore what is observed
				from[i] = true
			}
		}
		if from[i] && n.Vars[i].Kind == Utility && i != n.Total {
			return true
		}
	}
	return false
}

// allZero tells whether nothing but zeros was added up. Without utilities the solver adds up probabilities instead.
func (n *Net) allZero(q *Flat, at, c int) bool {
	if len(n.Of(Utility)) == 0 {
		return false
	}
	for _, a := range q.Abs[at : at+c] {
		if a != 0 {
			return false
		}
	}
	return true
}
