// Package model is the reference model: an explicit description of a network and a
// brute-force semantics by enumeration of all assignments. It does not use the code
// under test, except for the conversion to its input types.
package model

import (
	"fmt"
	"math"
	"strings"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
)

// Kind of a variable.
type Kind int

// Kinds.
const (
	Chance Kind = iota
	Decision
	Utility
)

func (k Kind) String() string { return [...]string{"nature", "decision", "utility"}[k] }

// Var is a variable.
type Var struct {
	Name     string
	Kind     Kind
	Outcomes []string
	Pos      [2]int
	Color    string
	Parents  []int     // indices into Net.Vars
	Table    []float64 // row-major, first parent slowest; nil for decisions
}

// Net is a network; the order of Vars is the declaration order.
type Net struct {
	Name, Info string
	Vars       []Var
	Total      int   // index of the total-utility variable or -1
	Topo       []int // a topological order of all variables
	FactorPerm []int // order in which factors are declared (indices of Vars)
	OmitFactor []bool
}

// Clone makes a deep copy.
func (n *Net) Clone() *Net {
	c := *n
	c.Vars = make([]Var, len(n.Vars))
	for i, v := range n.Vars {
		v.Outcomes = append([]string{}, v.Outcomes...)
		v.Parents = append([]int{}, v.Parents...)
		if v.Table != nil {
			v.Table = append([]float64{}, v.Table...)
		}
		c.Vars[i] = v
	}
	c.Topo = append([]int{}, n.Topo...)
	c.FactorPerm = append([]int{}, n.FactorPerm...)
	c.OmitFactor = append([]bool{}, n.OmitFactor...)
	return &c
}

// Card is the number of outcomes of variable i.
func (n *Net) Card(i int) int { return len(n.Vars[i].Outcomes) }

// Index finds a variable by name.
func (n *Net) Index(name string) int {
	for i := range n.Vars {
		if n.Vars[i].Name == name {
			return i
		}
	}
	return -1
}

// Of lists the variables of a kind, in declaration order. The total-utility variable is left out.
func (n *Net) Of(k Kind) []int {
	r := []int{}
	for i := range n.Vars {
		if n.Vars[i].Kind == k && i != n.Total {
			r = append(r, i)
		}
	}
	return r
}

// NonUtility lists chance and decision variables.
func (n *Net) NonUtility() []int {
	r := []int{}
	for i := range n.Vars {
		if n.Vars[i].Kind != Utility {
			r = append(r, i)
		}
	}
	return r
}

// Names of variables.
func (n *Net) Names(idx []int) []string {
	r := make([]string, len(idx))
	for i, j := range idx {
		r[i] = n.Vars[j].Name
	}
	return r
}

// Rows is the number of parent combinations of variable i.
func (n *Net) Rows(i int) int {
	r := 1
	for _, p := range n.Vars[i].Parents {
		r *= n.Card(p)
	}
	return r
}

// BBN converts to the input types of the code under test (fresh slices on each call).
func (n *Net) BBN() ([]bbn.Variable, []bbn.Factor) {
	vars := make([]bbn.Variable, len(n.Vars))
	for i, v := range n.Vars {
		vars[i] = bbn.Variable{
			Name: v.Name, NodeType: ve.NodeType(v.Kind), Outcomes: append([]string{}, v.Outcomes...),
			Position: v.Pos, Color: v.Color,
		}
	}
	perm := n.FactorPerm
	if len(perm) != len(n.Vars) {
		perm = make([]int, len(n.Vars))
		for i := range perm {
			perm[i] = i
		}
	}
	factors := []bbn.Factor{}
	for _, i := range perm {
		v := n.Vars[i]
		if v.Kind == Decision && len(v.Parents) == 0 && i < len(n.OmitFactor) && n.OmitFactor[i] {
			continue
		}
		f := bbn.Factor{For: v.Name, Given: n.Names(v.Parents)}
		if v.Table != nil {
			f.Table = append([]float64{}, v.Table...)
		}
		factors = append(factors, f)
	}
	return vars, factors
}

// Build constructs the network with the code under test.
func (n *Net) Build() (*bbn.Network, error) {
	v, f := n.BBN()
	return bbn.New(n.Name, n.Info, v, f)
}

// String renders the network for reports.
func (n *Net) String() string {
	b := strings.Builder{}
	fmt.Fprintf(&b, "network %q", n.Name)
	if n.Info != "" {
		fmt.Fprintf(&b, " info %q", n.Info)
	}
	b.WriteString("\n")
	for i, v := range n.Vars {
		k := v.Kind.String()
		if i == n.Total {
			k = "total-utility"
		}
		fmt.Fprintf(&b, "  %s %q outcomes %q given %q", k, v.Name, v.Outcomes, n.Names(v.Parents))
		if v.Pos != [2]int{} {
			fmt.Fprintf(&b, " pos %v", v.Pos)
		}
		if v.Color != "" {
			fmt.Fprintf(&b, " color %q", v.Color)
		}
		fmt.Fprintf(&b, " table %v\n", v.Table)
	}
	return b.String()
}

// ---------------------------------------------------------------- semantics

// Policy is a decision rule: a table over Given (indices of variables), row-major, decision last.
type Policy struct {
	For   int
	Given []int
	Table []float64
}

// CPT gives row-normalised entries. A zero row stays zero.
func (n *Net) normRow(i, row int) []float64 {
	v := &n.Vars[i]
	c := len(v.Outcomes)
	r := append([]float64{}, v.Table[row*c:(row+1)*c]...)
	s := 0.0
	for _, x := range r {
		s += x
	}
	if s != 0 {
		for j := range r {
			r[j] /= s
		}
	}
	return r
}

// Sem is a prepared enumeration of the joint distribution.
type Sem struct {
	N     *Net
	order []int // non-utility variables in topological order (policies considered)
	cpt   map[int][]float64
	pars  map[int][]int
	free  map[int]bool // variables without a factor (unsolved or intervened decisions)
}

// NewSem prepares the semantics with given policies; decisions without one are free (factor 1).
func NewSem(n *Net, policies map[int]Policy) *Sem {
	s := &Sem{N: n, cpt: map[int][]float64{}, pars: map[int][]int{}, free: map[int]bool{}}
	for _, i := range n.Topo {
		v := &n.Vars[i]
		switch v.Kind {
		case Chance:
			t := make([]float64, 0, len(v.Table))
			for r := 0; r < n.Rows(i); r++ {
				t = append(t, n.normRow(i, r)...)
			}
			s.cpt[i] = t
			s.pars[i] = v.Parents
		case Decision:
			if p, ok := policies[i]; ok {
				s.cpt[i] = p.Table
				s.pars[i] = p.Given
			} else {
				s.free[i] = true
			}
		}
	}
	// topological order with respect to the conditions in use
	done := map[int]bool{}
	var visit func(i, depth int)
	visit = func(i, depth int) {
		if done[i] || depth > len(n.Vars) {
			return
		}
		for _, p := range s.pars[i] {
			visit(p, depth+1)
		}
		if !done[i] {
			done[i] = true
			s.order = append(s.order, i)
		}
	}
	for _, i := range n.Topo {
		if n.Vars[i].Kind != Utility {
			visit(i, 0)
		}
	}
	return s
}

// Each enumerates all assignments with non-zero probability consistent with ev
// (ev[i] = outcome or absent), giving the product of all conditional probabilities.
func (s *Sem) Each(ev map[int]int, f func(x []int, p float64)) {
	x := make([]int, len(s.N.Vars))
	s.rec(0, 1, x, ev, f)
}

func (s *Sem) rec(k int, p float64, x []int, ev map[int]int, f func(x []int, p float64)) {
	if k == len(s.order) {
		f(x, p)
		return
	}
	i := s.order[k]
	lo, hi := 0, s.N.Card(i)
	if e, ok := ev[i]; ok {
		lo, hi = e, e+1
	}
	row := 0
	if !s.free[i] {
		for _, q := range s.pars[i] {
			row = row*s.N.Card(q) + x[q]
		}
	}
	for o := lo; o < hi; o++ {
		pp := p
		if !s.free[i] {
			pp *= s.cpt[i][row*s.N.Card(i)+o]
			if pp == 0 {
				continue
			}
		}
		x[i] = o
		s.rec(k+1, pp, x, ev, f)
	}
	x[i] = 0
}

// Util is the value of utility variable u at assignment x.
func (n *Net) Util(u int, x []int) float64 {
	row := 0
	for _, q := range n.Vars[u].Parents {
		row = row*n.Card(q) + x[q]
	}
	v := &n.Vars[u]
	s := 0.0
	for c := 0; c < len(v.Outcomes); c++ {
		s += v.Table[row*len(v.Outcomes)+c]
	}
	return s
}

// Weight of utility variable u in the total.
func (n *Net) Weight(u int) float64 {
	if n.Total < 0 {
		return 1
	}
	for k, p := range n.Vars[n.Total].Parents {
		if p == u {
			return n.Vars[n.Total].Table[k]
		}
	}
	return math.NaN()
}

// Flat is a joint table over variables, row-major, first slowest.
type Flat struct {
	Vars []int
	Card []int
	Val  []float64
	Abs  []float64 // sum of absolute terms (scale for tolerances)
}

func (n *Net) newFlat(q []int) *Flat {
	f := &Flat{Vars: q}
	size := 1
	for _, i := range q {
		f.Card = append(f.Card, n.Card(i))
		size *= n.Card(i)
	}
	f.Val = make([]float64, size)
	f.Abs = make([]float64, size)
	return f
}

// Pos is the position of assignment x (indexed by variable) in the table.
func (f *Flat) Pos(x []int) int {
	k := 0
	for j, i := range f.Vars {
		k = k*f.Card[j] + x[i]
	}
	return k
}

// Joint computes P(q, ev).
func (s *Sem) Joint(ev map[int]int, q []int) *Flat {
	f := s.N.newFlat(q)
	s.Each(ev, func(x []int, p float64) {
		k := f.Pos(x)
		f.Val[k] += p
		f.Abs[k] += p
	})
	return f
}

// Utility computes sum P(x, ev) * U(x) per assignment of q. u < 0 means (weighted) total.
func (s *Sem) Utility(ev map[int]int, q []int, u int) *Flat {
	f := s.N.newFlat(q)
	us := s.N.Of(Utility)
	s.Each(ev, func(x []int, p float64) {
		k := f.Pos(x)
		if u >= 0 {
			w := p * s.N.Util(u, x)
			f.Val[k] += w
			f.Abs[k] += math.Abs(w)
			return
		}
		for _, uu := range us {
			w := p * s.N.Util(uu, x) * s.N.Weight(uu)
			f.Val[k] += w
			f.Abs[k] += math.Abs(w)
		}
	})
	return f
}

// Marginal is the normalised marginal of position j of the table.
func (f *Flat) Marginal(j int) []float64 {
	r := make([]float64, f.Card[j])
	stride := 1
	for k := j + 1; k < len(f.Card); k++ {
		stride *= f.Card[k]
	}
	tot := 0.0
	for k, v := range f.Val {
		r[(k/stride)%f.Card[j]] += v
		tot += v
	}
	for k := range r {
		r[k] /= tot
	}
	return r
}

// Total of all entries.
func (f *Flat) Total() float64 {
	s := 0.0
	for _, v := range f.Val {
		s += v
	}
	return s
}

// Evidence as names.
func (n *Net) Evidence(ev map[int]int) map[string]string {
	r := make(map[string]string, len(ev))
	for i, o := range ev {
		r[n.Vars[i].Name] = n.Vars[i].Outcomes[o]
	}
	return r
}

// EvString renders evidence deterministically.
func (n *Net) EvString(ev map[int]int) string {
	parts := []string{}
	for i := range n.Vars {
		if o, ok := ev[i]; ok {
			parts = append(parts, fmt.Sprintf("%q=%q", n.Vars[i].Name, n.Vars[i].Outcomes[o]))
		}
	}
	return "{" + strings.Join(parts, ", ") + "}"
}

// Tol is the relative tolerance used for all floating-point comparisons.
const Tol = 1e-9

// Close compares with a tolerance relative to scale (and to the values); NaN equals NaN.
func Close(got, want, scale float64) bool {
	if math.IsNaN(want) || math.IsNaN(got) {
		return math.IsNaN(want) && math.IsNaN(got)
	}
	if got == want {
		return true
	}
	if math.IsInf(want, 0) || math.IsInf(got, 0) {
		return false
	}
	m := math.Max(math.Abs(want), math.Abs(scale))
	return math.Abs(got-want) <= Tol*m
}
