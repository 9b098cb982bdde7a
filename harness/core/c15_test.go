package core

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/logic"
	"pgregory.net/rapid"
)

var constructors = map[string]func(a []int) logic.Factor{
	"not": func([]int) logic.Factor { return logic.Not() }, "and": func([]int) logic.Factor { return logic.And() },
	"not-and": func([]int) logic.Factor { return logic.NotAnd() }, "and-not": func([]int) logic.Factor { return logic.AndNot() },
	"not-and-not": func([]int) logic.Factor { return logic.NotAndNot() }, "or": func([]int) logic.Factor { return logic.Or() },
	"not-or": func([]int) logic.Factor { return logic.NotOr() }, "or-not": func([]int) logic.Factor { return logic.OrNot() },
	"not-or-not": func([]int) logic.Factor { return logic.NotOrNot() }, "xor": func([]int) logic.Factor { return logic.XOr() },
	"cond": func([]int) logic.Factor { return logic.Cond() }, "not-cond": func([]int) logic.Factor { return logic.NotCond() },
	"cond-not": func([]int) logic.Factor { return logic.CondNot() }, "not-cond-not": func([]int) logic.Factor { return logic.NotCondNot() },
	"bicond": func([]int) logic.Factor { return logic.BiCond() }, "if-then": func([]int) logic.Factor { return logic.IfThen() },
	"if-not-then": func([]int) logic.Factor { return logic.IfNotThen() }, "if-then-not": func([]int) logic.Factor { return logic.IfThenNot() },
	"if-not-then-not": func([]int) logic.Factor { return logic.IfNotThenNot() }, "equals": func([]int) logic.Factor { return logic.Equals() },
	"equals-not": func([]int) logic.Factor { return logic.EqualsNot() }, "count-true": func([]int) logic.Factor { return logic.CountTrue() },
	"count-false": func([]int) logic.Factor { return logic.CountFalse() }, "bits": func([]int) logic.Factor { return logic.Bits() },
	"count-is": func(a []int) logic.Factor { return logic.CountIs(a[0]) }, "count-less": func(a []int) logic.Factor { return logic.CountLess(a[0]) },
	"count-greater": func(a []int) logic.Factor { return logic.CountGreater(a[0]) }, "given": func(a []int) logic.Factor { return logic.Given(a[0]) },
	"given-not": func(a []int) logic.Factor { return logic.GivenNot(a[0]) }, "given-excl": func(a []int) logic.Factor { return logic.GivenExcl(a[0]) },
	"outcome-is": func(a []int) logic.Factor { return logic.OutcomeIs(a[0], a[1]) }, "outcome-is-not": func(a []int) logic.Factor { return logic.OutcomeIsNot(a[0], a[1]) },
	"outcome-either": func(a []int) logic.Factor { return logic.OutcomeEither(a[:len(a)-1], a[len(a)-1]) },
	"outcome-less":   func(a []int) logic.Factor { return logic.OutcomeLess(a[0], a[1]) }, "outcome-greater": func(a []int) logic.Factor { return logic.OutcomeGreater(a[0], a[1]) },
}

func isKnown(key string) bool {
	return strings.Contains(","+os.Getenv("VX_KNOWN"), ","+key+",")
}

// tableOf gives the table the code has to produce. A listed known finding replaces the documented one:
// 'outcome-greater' holds at the given index, too.
func tableOf(o model.Op, given int) []float64 {
	tab := o.Table(given)
	if o.Name == "outcome-greater" && isKnown("outcome-greater-or-equal") && o.Args[0] < o.Args[1] {
		tab[2*o.Args[0]], tab[2*o.Args[0]+1] = 1, 0
	}
	return tab
}

// sameTable compares a table with the documented one; differing is true for a hit of the known finding.
func sameTable(t *rapid.T, o model.Op, given int, got []float64, ctx string) {
	want := o.Table(given)
	if eqFloats(got, want) {
		return
	}
	if o.Name == "outcome-greater" && isKnown("outcome-greater-or-equal") && eqFloats(got, tableOf(o, given)) {
		hx.Known("outcome-greater-or-equal")
		return
	}
	if len(got) == len(want) && len(want) > 4096 {
		for i := range want {
			if got[i] != want[i] {
				t.Fatalf("%s: '%s' with %d parents gives %v at position %d, want %v", ctx, o, given, got[i], i, want[i])
			}
		}
	}
	if len(got)+len(want) > 8192 {
		t.Fatalf("%s: '%s' with %d parents gives %d values, want %d", ctx, o, given, len(got), len(want))
	}
	t.Fatalf("%s: '%s' with %d parents gives\n%v, want\n%v", ctx, o, given, got, want)
}

func TestC15(t *testing.T) {
	tables := func(t *rapid.T, c *hx.C, o model.Op, given int) {
		c.Case(fmt.Sprintf("%s with %d parents", o, given), given > 0)
		c.Label("%s", o.Name)
		must := o.Valid(given) == 1
		f, ok := logic.Get(o.Name)
		if !ok {
			t.Fatalf("operator '%s' not found", o.Name)
		}
		err := f.SetArgs(o.Args...)
		if err != nil && must {
			t.Fatalf("'%s': setting arguments fails: %v", o, err)
		}
		if err == nil {
			tab, err := f.Table(given)
			if err != nil && must {
				t.Fatalf("'%s' with %d parents fails: %v", o, given, err)
			}
			if err == nil {
				sameTable(t, o, given, tab, "by name")
			}
		}
		tab, err := constructors[o.Name](append([]int{}, o.Args...)).Table(given)
		if err != nil && must {
			t.Fatalf("'%s' with %d parents fails: %v", o, given, err)
		}
		if err == nil {
			sameTable(t, o, given, tab, "constructor")
		}
	}
	hx.Run(t, "tables", 3000, func(t *rapid.T, c *hx.C) {
		o, given := model.GenOp(t, 11)
		tables(t, c, o, given)
	})
	hx.Run(t, "large tables", 30, func(t *rapid.T, c *hx.C) {
		o, given := model.GenLargeOp(t)
		tables(t, c, o, given)
	})
	hx.Run(t, "networks", 1500, func(t *rapid.T, c *hx.C) {
		n, lg := genLogicNet(t)
		doc := model.GenYAMLWith(t, n, lg)
		c.Case(string(doc), len(lg) > 0)
		net, err := bbn.FromYAML(doc)
		if err != nil {
			t.Fatalf("loading fails: %v\n%s", err, doc)
		}
		unchanged(t, n, net, string(doc))
		for k := 0; k < 3; k++ {
			// all parents of one logic variable as evidence
			ev := map[int]int{}
			var q []int
			for i := range n.Vars {
				if _, ok := lg[i]; ok && (len(q) == 0 || model.Pct(t, "this", 40)) {
					q = []int{i}
				}
			}
			for _, p := range n.Vars[q[0]].Parents {
				ev[p] = model.Intn(t, "pev", 0, n.Card(p)-1)
			}
			row := 0
			for _, p := range n.Vars[q[0]].Parents {
				row = row*n.Card(p) + ev[p]
			}
			j := model.NewSem(n, nil).Joint(ev, q)
			res, _, err := net.SolveQuery(n.Evidence(ev), n.Names(q), false)
			if err != nil {
				t.Fatalf("query fails: %v\n%s", err, doc)
			}
			checkMarginals(t, n, j, res, "logic variable given parents")
			if j.Total() > 0 {
				cols := n.Card(q[0])
				want := n.Vars[q[0]].Table[row*cols : (row+1)*cols]
				got := res[n.Vars[q[0]].Name]
				for o := range want {
					if !model.Close(got[o], want[o], 1) {
						t.Fatalf("'%s' given %s is %v, want %v\n%s", lg[q[0]], n.EvString(ev), got, want, doc)
					}
				}
			}
			// reasoning backwards
			ev = model.GenEvidence(t, n, n.NonUtility(), 2)
			q = model.Subset(t, "q", model.Without(n.NonUtility(), ev), 1, 3)
			j = model.NewSem(n, nil).Joint(ev, q)
			res, _, err = net.SolveQuery(n.Evidence(ev), n.Names(q), false)
			if err != nil {
				t.Fatalf("query fails: %v\n%s", err, doc)
			}
			checkMarginals(t, n, j, res, "logic network")
		}
	})
}

// genLogicNet draws a network with logic variables on top of chance variables and of each other.
func genLogicNet(t *rapid.T) (*model.Net, map[int]string) {
	n := &model.Net{Name: "logic", Total: -1}
	nb := model.Intn(t, "binary", 1, 4)
	nm := model.Intn(t, "multi", 0, 2)
	nl := model.Intn(t, "logics", 1, 4)
	decl := model.Perm(t, "decl", nb+nm+nl)
	n.Vars = make([]model.Var, nb+nm+nl)
	n.Topo = decl
	lg := map[int]string{}
	binary, multi := []int{}, []int{}
	states := 1
	for k := 0; k < nb+nm; k++ {
		i := decl[k]
		v := &n.Vars[i]
		v.Name = fmt.Sprintf("V%d", k)
		card := 2
		if k >= nb {
			card = model.Intn(t, "card", 2, 5)
			if model.Pct(t, "many outcomes", 4) {
				card = model.Intn(t, "card+", 120, 300)
			}
		}
		states *= card
		for o := 0; o < card; o++ {
			v.Outcomes = append(v.Outcomes, fmt.Sprintf("o%d", o))
		}
		rows := 1
		if k > 0 && model.Pct(t, "edge", 30) {
			p := decl[model.Intn(t, "p", 0, k-1)]
			v.Parents = []int{p}
			rows = n.Card(p)
		}
		for r := 0; r < rows*card; r++ {
			v.Table = append(v.Table, float64(model.Intn(t, "prob", 1, 7)))
		}
		if card == 2 {
			binary = append(binary, i)
		}
		multi = append(multi, i)
	}
	same := ""
	for k := nb + nm; k < nb+nm+nl; k++ {
		i := decl[k]
		v := &n.Vars[i]
		v.Name = fmt.Sprintf("L%d", k)
		var o model.Op
		for try := 0; ; try++ {
			o = model.Op{Name: rapid.SampledFrom(model.OpNames).Draw(t, "op")}
			if same != "" && model.Pct(t, "same", 30) {
				o.Name = same
			}
			given := o.Arity()
			pool := binary
			if strings.HasPrefix(o.Name, "outcome-") {
				pool = multi
			}
			if given < 0 {
				given = model.Intn(t, "given", 1, 3)
			}
			if given > len(pool) {
				given = len(pool)
			}
			v.Parents = model.Subset(t, "par", pool, given, given)
			if o.Arity() >= 0 && o.Arity() != given {
				o = model.Op{Name: "equals"}
				v.Parents = v.Parents[:1]
				given = 1
			}
			model.GenArgs(t, &o, given)
			if strings.HasPrefix(o.Name, "outcome-") {
				l := n.Card(v.Parents[0])
				for a := range o.Args {
					o.Args[a] = model.Intn(t, "outcome", 0, l-1)
				}
				o.Args[len(o.Args)-1] = l
			}
			if strings.HasPrefix(o.Name, "count-") && len(o.Args) == 1 && (o.Args[0] < 0 || o.Args[0] > given) {
				o.Args[0] = given
			}
			break
		}
		same = o.Name
		given := len(v.Parents)
		for c := 0; c < o.Cols(given); c++ {
			v.Outcomes = append(v.Outcomes, fmt.Sprintf("o%d", c))
		}
		v.Table = tableOf(o, given)
		lg[i] = o.String()
		if model.Pct(t, "upper case", 10) {
			lg[i] = strings.ToUpper(lg[i])
		} else if model.Pct(t, "capital", 5) {
			lg[i] = strings.ToUpper(lg[i][:1]) + lg[i][1:]
		}
		if len(v.Outcomes) == 2 {
			binary = append(binary, i)
		}
		if len(v.Outcomes) > 1 {
			multi = append(multi, i)
		}
	}
	return n, lg
}
