package core

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn/ve"
	"pgregory.net/rapid"
)

// space is a set of low-level variables with a description the model uses.
type space struct {
	vs   *ve.Variables
	v    []ve.Variable
	id   []int
	card []int
	kind []ve.NodeType
}

func genSpace(t *rapid.T, lo, hi, maxCard int, kinds bool) *space {
	s := &space{vs: ve.NewVariables()}
	n := model.Intn(t, "vars", lo, hi)
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		id := i
		if model.Pct(t, "sparse", 60) {
			id = genID(t, 400)
		}
		for used[id] {
			id++
		}
		used[id] = true
		c := model.Intn(t, "card", 1, maxCard)
		k := ve.ChanceNode
		if kinds {
			k = ve.NodeType(model.Intn(t, "kind", 0, 2))
		}
		s.v = append(s.v, s.vs.AddVariable(id, k, uint16(c)))
		s.id = append(s.id, id)
		s.card = append(s.card, c)
		s.kind = append(s.kind, k)
	}
	return s
}

// genID draws an identifier of a variable. Some differ by powers of two only, some are negative or large.
func genID(t *rapid.T, max int) int {
	id := model.Intn(t, "id", 0, max)
	if model.Pct(t, "odd id", 12) {
		id %= 4
		id += rapid.SampledFrom([]int{64, 256, 512, 65536, 1 << 31, 1 << 32, -1, -64, -256}).Draw(t, "id+")
	}
	return id
}

func (s *space) pos(id int) int {
	for i, x := range s.id {
		if x == id {
			return i
		}
	}
	return -1
}

// scope of a factor as positions of variables; -1 entries are unknown variables.
func (s *space) scope(f *ve.Factor) []int {
	r := []int{}
	for _, v := range f.Variables() {
		r = append(r, s.pos(v.Id()))
	}
	return r
}

func (s *space) size(scope []int) int {
	r := 1
	for _, i := range scope {
		r *= s.card[i]
	}
	return r
}

// each enumerates the assignments of a scope in row-major order.
func (s *space) each(scope []int, f func(k int, x []int)) {
	x := make([]int, len(s.v))
	n := s.size(scope)
	for k := 0; k < n; k++ {
		r := k
		for b := len(scope) - 1; b >= 0; b-- {
			x[scope[b]] = r % s.card[scope[b]]
			r /= s.card[scope[b]]
		}
		f(k, x)
	}
}

func (s *space) at(scope []int, x []int) int {
	k := 0
	for _, i := range scope {
		k = k*s.card[i] + x[i]
	}
	return k
}

func (s *space) vars(idx []int) []ve.Variable {
	r := make([]ve.Variable, len(idx))
	for k, i := range idx {
		r[k] = s.v[i]
	}
	return r
}

func (s *space) String() string {
	p := []string{}
	for i := range s.v {
		p = append(p, fmt.Sprintf("%d:%d", s.id[i], s.card[i]))
	}
	return strings.Join(p, " ")
}

func (s *space) show(f *ve.Factor) string {
	ids := []int{}
	for _, v := range f.Variables() {
		ids = append(ids, v.Id())
	}
	return fmt.Sprintf("%v%v", ids, f.Data())
}

func all(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// term is an expected value with its scale.
type term struct{ v, abs float64 }

func TestC08(t *testing.T) {
	misuseAlgebra(t)
	hx.Run(t, "algebra", 1500, func(t *rapid.T, c *hx.C) {
		s := genSpace(t, 1, 5, 4, true)
		if model.Pct(t, "wide", 10) {
			s = genSpace(t, 1, 3, 12, true)
		}
		widest := 4
		if model.Pct(t, "many", 8) {
			s, widest = genSpace(t, 6, 9, 2, true), 9
		}
		type entry struct {
			f    ve.Factor
			copy []float64
			vars []int
		}
		pool := []*entry{}
		ids := map[int]bool{}
		log := []string{}
		add := func(f ve.Factor, what string) *entry {
			if ids[f.Id()] {
				t.Fatalf("%s: identity %d used twice", what, f.Id())
			}
			ids[f.Id()] = true
			e := &entry{f: f, copy: append([]float64{}, f.Data()...), vars: s.scope(&f)}
			pool = append(pool, e)
			return e
		}
		steps := model.Intn(t, "steps", 3, 16)
		kinds := map[string]bool{}
		for k := 0; k < steps; k++ {
			op := "create"
			if len(pool) > 0 {
				op = rapid.SampledFrom([]string{"create", "restrict", "sumout", "product", "product", "sum", "marginal", "normalize", "normalizefor", "invert", "rearrange", "policy"}).Draw(t, "op")
			}
			pick := func(nonScalar bool) *entry {
				if nonScalar {
					var c []*entry
					for _, e := range pool {
						if len(e.vars) > 0 {
							c = append(c, e)
						}
					}
					if len(c) == 0 {
						return nil
					}
					return c[model.Intn(t, "operand", 0, len(c)-1)]
				}
				return pool[model.Intn(t, "operand", 0, len(pool)-1)]
			}
			if op == "create" {
				scope := model.Subset(t, "scope", all(len(s.v)), 0, min(widest, len(s.v)))
				data := make([]float64, s.size(scope))
				style := model.Intn(t, "style", 0, 2)
				unit := 1.0
				if model.Pct(t, "scaled", 15) {
					unit = rapid.SampledFrom([]float64{1e-30, 1e-18, 1e-9, 1e9, 1e18, 1e30, -1}).Draw(t, "unit")
				}
				for i := range data {
					switch style {
					case 0:
						data[i] = float64(model.Intn(t, "x", 0, 9)) / 4
					case 1:
						data[i] = float64(model.Intn(t, "x", -6, 9))
					default:
						data[i] = float64(model.Intn(t, "x", 1, 1000)) / 100
					}
					data[i] *= unit
				}
				var f ve.Factor
				if model.Pct(t, "nil", 10) {
					f = s.vs.CreateFactor(s.vars(scope), nil)
					data = make([]float64, len(data))
				} else {
					f = s.vs.CreateFactor(s.vars(scope), append([]float64{}, data...))
				}
				log = append(log, "create "+s.show(&f))
				if fmt.Sprint(s.scope(&f)) != fmt.Sprint(scope) || !eqFloats(f.Data(), data) {
					t.Fatalf("created %s, want %v %v", s.show(&f), scope, data)
				}
				add(f, "create")
				continue
			}
			var ops []*entry
			var res ve.Factor
			var scope []int  // expected variables
			ordered := false // and order
			lastVar := -1    // expected last variable
			var want func(x []int) term
			name := op
			val := func(e *entry, x []int) float64 { return e.copy[s.at(e.vars, x)] }
			without := func(vs []int, i int) []int {
				r := []int{}
				for _, v := range vs {
					if v != i {
						r = append(r, v)
					}
				}
				return r
			}
			switch op {
			case "restrict":
				e := pick(true)
				if e == nil {
					continue
				}
				i := e.vars[model.Intn(t, "var", 0, len(e.vars)-1)]
				o := model.Intn(t, "obs", 0, s.card[i]-1)
				ops = []*entry{e}
				res = s.vs.Restrict(&e.f, s.v[i], o)
				scope = without(e.vars, i)
				want = func(x []int) term {
					y := append([]int{}, x...)
					y[i] = o
					v := val(e, y)
					return term{v, math.Abs(v)}
				}
				name = fmt.Sprintf("restrict %s to %d=%d", s.show(&e.f), s.id[i], o)
			case "sumout", "marginal":
				e := pick(true)
				if e == nil {
					continue
				}
				i := e.vars[model.Intn(t, "var", 0, len(e.vars)-1)]
				ops = []*entry{e}
				var over []int
				if op == "sumout" {
					res = s.vs.SumOut(&e.f, s.v[i])
					scope, over = without(e.vars, i), []int{i}
				} else {
					res = s.vs.Marginal(&e.f, s.v[i])
					scope, over = []int{i}, without(e.vars, i)
				}
				want = func(x []int) term {
					y := append([]int{}, x...)
					r := term{}
					s.each(over, func(_ int, z []int) {
						for _, j := range over {
							y[j] = z[j]
						}
						v := val(e, y)
						r.v += v
						r.abs += math.Abs(v)
					})
					return r
				}
				name = fmt.Sprintf("%s %d of %s", op, s.id[i], s.show(&e.f))
			case "product", "sum":
				n := model.Intn(t, "operands", 0, 3)
				if model.Pct(t, "many operands", 8) {
					n = model.Intn(t, "operands+", 4, 9)
				}
				union := []int{}
				ptrs := []*ve.Factor{}
				names := []string{}
				for j := 0; j < n; j++ {
					e := pick(false)
					u := append([]int{}, union...)
					for _, v := range e.vars {
						if !contains(u, v) {
							u = append(u, v)
						}
					}
					if s.size(u) > 3000 {
						continue
					}
					union = u
					ops = append(ops, e)
					ptrs = append(ptrs, &e.f)
					names = append(names, s.show(&e.f))
				}
				if op == "product" {
					res = s.vs.Product(ptrs...)
				} else {
					res = s.vs.Sum(ptrs...)
				}
				scope = union
				want = func(x []int) term {
					r := term{}
					if op == "product" {
						r = term{1, 1}
					}
					for _, e := range ops {
						if op == "product" {
							r.v *= val(e, x)
							r.abs = math.Abs(r.v)
						} else {
							r.v += val(e, x)
							r.abs += math.Abs(val(e, x))
						}
					}
					return r
				}
				name = op + " of " + strings.Join(names, ", ")
			case "normalize", "normalizefor":
				e := pick(op == "normalizefor")
				if e == nil {
					continue
				}
				inf, neg, pos, sum := false, false, false, term{}
				for _, v := range e.copy {
					inf, neg, pos = inf || math.IsInf(v, 0), neg || v < 0, pos || v > 0
					sum.v, sum.abs = sum.v+v, sum.abs+math.Abs(v)
				}
				if inf || neg && pos && (op == "normalizefor" || math.Abs(sum.v) < 0.2*sum.abs) { // differences of large numbers: no meaningful tolerance
					continue
				}
				ops = []*entry{e}
				scope = e.vars
				if op == "normalize" {
					res = s.vs.Normalize(&e.f)
					sum := 0.0
					for _, v := range e.copy {
						sum += v
					}
					want = func(x []int) term { return term{val(e, x) / sum, 1} }
					name = "normalize " + s.show(&e.f)
					break
				}
				i := e.vars[model.Intn(t, "var", 0, len(e.vars)-1)]
				lastVar = i
				res = s.vs.NormalizeFor(&e.f, s.v[i])
				want = func(x []int) term {
					y := append([]int{}, x...)
					sum := 0.0
					for o := 0; o < s.card[i]; o++ {
						y[i] = o
						sum += val(e, y)
					}
					if sum == 0 {
						return term{0, 0}
					}
					return term{val(e, x) / sum, 1}
				}
				name = fmt.Sprintf("normalize %s for %d", s.show(&e.f), s.id[i])
			case "invert":
				e := pick(false)
				ops = []*entry{e}
				scope = e.vars
				res = s.vs.Invert(&e.f)
				want = func(x []int) term {
					if v := val(e, x); v != 0 {
						return term{1 / v, 0}
					}
					return term{math.Inf(1), -1} // not compared
				}
				name = "invert " + s.show(&e.f)
			case "rearrange":
				e := pick(false)
				ops = []*entry{e}
				for _, j := range model.Perm(t, "perm", len(e.vars)) {
					scope = append(scope, e.vars[j])
				}
				ordered = true
				res = s.vs.Rearrange(&e.f, s.vars(scope))
				want = func(x []int) term { return term{val(e, x), 0} }
				name = fmt.Sprintf("rearrange %s to positions %v", s.show(&e.f), scope)
			case "policy":
				e := pick(true)
				if e == nil {
					continue
				}
				bad := false
				for _, v := range e.copy {
					bad = bad || math.IsNaN(v) || math.IsInf(v, 0)
				}
				if bad {
					continue
				}
				i := e.vars[model.Intn(t, "var", 0, len(e.vars)-1)]
				ops = []*entry{e}
				scope, lastVar = e.vars, i
				res = s.vs.Policy(&e.f, s.v[i])
				want = func(x []int) term {
					y := append([]int{}, x...)
					best, ties := math.Inf(-1), 0
					for o := 0; o < s.card[i]; o++ {
						y[i] = o
						if v := val(e, y); v > best {
							best, ties = v, 1
						} else if v == best {
							ties++
						}
					}
					if val(e, x) == best {
						return term{1 / float64(ties), 1}
					}
					return term{0, 0}
				}
				name = fmt.Sprintf("policy of %s for %d", s.show(&e.f), s.id[i])
			}
			kinds[op] = true
			log = append(log, name)
			got := s.scope(&res)
			if len(got) != len(scope) || len(res.Data()) != s.size(scope) {
				t.Fatalf("%s (variables %s) gives %s", name, s, s.show(&res))
			}
			for j, v := range got {
				if !contains(scope, v) || contains(got[:j], v) || ordered && scope[j] != v {
					t.Fatalf("%s (variables %s) gives %s: wrong variables", name, s, s.show(&res))
				}
			}
			if lastVar >= 0 && got[len(got)-1] != lastVar {
				t.Fatalf("%s (variables %s) gives %s: the variable is not the last one", name, s, s.show(&res))
			}
			s.each(got, func(k int, x []int) {
				w := want(x)
				if w.abs >= 0 && !model.Close(res.Data()[k], w.v, w.abs) {
					t.Fatalf("%s (variables %s) gives %s: value %d should be %v", name, s, s.show(&res), k, w.v)
				}
			})
			check := func(what string) {
				for _, e := range pool {
					if !eqFloats(e.f.Data(), e.copy) || fmt.Sprint(s.scope(&e.f)) != fmt.Sprint(e.vars) {
						t.Fatalf("%s (variables %s) %s operand or other factor: now %s, was %v%v", name, s, what, s.show(&e.f), e.vars, e.copy)
					}
				}
			}
			check("changes an")
			keep := append([]float64{}, res.Data()...)
			for j := range res.Data() {
				res.Data()[j] = -77
			}
			check("gives a result that shares storage with an")
			copy(res.Data(), keep)
			// and the other way round
			for _, e := range ops {
				for j := range e.f.Data() {
					e.f.Data()[j] = -78
				}
			}
			if !eqFloats(res.Data(), keep) {
				t.Fatalf("%s (variables %s): the result shares storage with an operand", name, s)
			}
			for _, e := range ops {
				copy(e.f.Data(), e.copy)
			}
			finite := true
			for _, v := range keep {
				finite = finite && !math.IsNaN(v) && !math.IsInf(v, 0) && math.Abs(v) < 1e12 && (v == 0 || math.Abs(v) > 1e-12)
			}
			if finite {
				add(res, name)
			} else if ids[res.Id()] {
				t.Fatalf("%s: identity %d used twice", name, res.Id())
			}
		}
		for k := range kinds {
			c.Label("%s", k)
		}
		c.Case(s.String()+"; "+strings.Join(log, "; "), len(kinds) >= 2)
	})
	hx.Run(t, "large", 3, largeAlgebra)
}

// genLarge gives three variables with hundreds of outcomes, in an order drawn, with more than 65536 assignments.
func genLarge(t *rapid.T) *space {
	s := &space{vs: ve.NewVariables()}
	cards := []int{model.Intn(t, "card", 250, 370), model.Intn(t, "card", 263, 370), model.Intn(t, "card", 1, 4)}
	for _, i := range model.Perm(t, "order", 3) {
		s.v = append(s.v, s.vs.AddVariable(len(s.v)*3, ve.ChanceNode, uint16(cards[i])))
		s.id = append(s.id, len(s.id)*3)
		s.card = append(s.card, cards[i])
	}
	return s
}

// largeAlgebra: operations on factors with up to half a million cells.
func largeAlgebra(t *rapid.T, c *hx.C) {
	s := genLarge(t)
	val := func(x []int) float64 { return float64((x[0]*31+x[1]*17+x[2]*7)%61 + 1) }
	order := model.Perm(t, "scope", 3)
	f := s.vs.CreateFactor(s.vars(order), nil)
	s.each(order, func(k int, x []int) { f.Data()[k] = val(x) })
	i := model.Intn(t, "var", 0, 2)
	j := (i + 1 + model.Intn(t, "other", 0, 1)) % 3
	o := model.Intn(t, "obs", 0, s.card[i]-1)
	c.Case(fmt.Sprintf("%v scope %v variables %d %d=%d", s, order, j, i, o), true)
	check := func(what string, g ve.Factor, vars []int, want func(x []int) float64) {
		got := s.scope(&g)
		if len(got) != len(vars) || len(g.Data()) != s.size(vars) {
			t.Fatalf("%s: variables %v, want %v; %d values", what, got, vars, len(g.Data()))
		}
		for _, v := range vars {
			if !contains(got, v) {
				t.Fatalf("%s: variables %v, want %v", what, got, vars)
			}
		}
		s.each(got, func(k int, x []int) {
			if w := want(x); !model.Close(g.Data()[k], w, w) {
				t.Fatalf("%s of a factor over %v (outcomes %v): value at %v is %v, want %v", what, order, s.card, x, g.Data()[k], w)
			}
		})
	}
	rest := []int{}
	for _, v := range order {
		if v != i {
			rest = append(rest, v)
		}
	}
	sums := make([]float64, s.size(rest)) // over i
	marg := make([]float64, s.card[i])
	best := make([]float64, s.size(rest))
	ties := make([]float64, s.size(rest))
	total := 0.0
	s.each(order, func(_ int, x []int) {
		v, k := val(x), s.at(rest, x)
		sums[k] += v
		marg[x[i]] += v
		total += v
		if v > best[k] {
			best[k], ties[k] = v, 1
		} else if v == best[k] {
			ties[k]++
		}
	})
	switch model.Intn(t, "op", 0, 7) {
	case 0:
		check("restrict", s.vs.Restrict(&f, s.v[i], o), rest, func(x []int) float64 {
			y := append([]int{}, x...)
			y[i] = o
			return val(y)
		})
	case 1:
		check("sumout", s.vs.SumOut(&f, s.v[i]), rest, func(x []int) float64 { return sums[s.at(rest, x)] })
	case 2:
		check("marginal", s.vs.Marginal(&f, s.v[i]), []int{i}, func(x []int) float64 { return marg[x[i]] })
	case 3:
		check("normalize", s.vs.Normalize(&f), order, func(x []int) float64 { return val(x) / total })
	case 4:
		check("normalizefor", s.vs.NormalizeFor(&f, s.v[i]), order, func(x []int) float64 { return val(x) / sums[s.at(rest, x)] })
	case 5:
		p := model.Perm(t, "perm", 3)
		check("rearrange", s.vs.Rearrange(&f, s.vars(p)), p, val)
	case 6:
		check("policy", s.vs.Policy(&f, s.v[i]), order, func(x []int) float64 {
			if k := s.at(rest, x); val(x) == best[k] {
				return 1 / ties[k]
			}
			return 0
		})
	default:
		g := s.vs.CreateFactor([]ve.Variable{s.v[i]}, nil)
		for k := range g.Data() {
			g.Data()[k] = float64(k + 1)
		}
		h := s.vs.CreateFactor([]ve.Variable{s.v[j], s.v[i]}, nil)
		s.each([]int{j, i}, func(k int, x []int) { h.Data()[k] = float64(x[i]%5 + x[j]%3) })
		if model.Pct(t, "sum", 50) {
			check("sum", s.vs.Sum(&g, &f, &h), order, func(x []int) float64 { return float64(x[i]+1) + val(x) + float64(x[i]%5+x[j]%3) })
		} else {
			check("product", s.vs.Product(&g, &f, &h), order, func(x []int) float64 { return float64(x[i]+1) * val(x) * float64(x[i]%5+x[j]%3) })
		}
	}
}

func contains(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}
