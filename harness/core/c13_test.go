package core

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
	"pgregory.net/rapid"
)

func TestC13(t *testing.T) {
	hx.Run(t, "definitions", 8000, rawDefinitions)
	hx.Run(t, "malformed", 2000, malformed)
	hx.Run(t, "many-outcomes", 30, outcomeLimit)
	hx.Run(t, "mutated-yaml", 1500, func(t *rapid.T, c *hx.C) {
		n := model.GenNet(t, formatOpt())
		doc := string(model.GenYAMLWith(t, n, junkLogic(t, n)))
		doc, log := mutate(t, doc, yamlTokens)
		desc := strings.Join(log, "; ") + "\n" + doc
		c.Case(desc, len(log) > 0)
		net, err := bbn.FromYAML([]byte(doc))
		accepted(t, c, net, err, desc)
	})
	hx.Run(t, "mutated-xml", 1500, func(t *rapid.T, c *hx.C) {
		n := model.GenNet(t, formatOpt())
		doc, log := mutate(t, string(model.GenXML(t, n).Text), xmlTokens)
		desc := strings.Join(log, "; ") + "\n" + doc
		c.Case(desc, len(log) > 0)
		net, err := bbn.FromBIFXML([]byte(doc))
		accepted(t, c, net, err, desc)
	})
	hx.Run(t, "numbers", 700, extremeNumbers)
	hx.Run(t, "bytes", 500, func(t *rapid.T, c *hx.C) {
		b := []byte{}
		for k := model.Intn(t, "pieces", 0, 12); k > 0; k-- {
			if model.Pct(t, "token", 70) {
				b = append(b, rapid.SampledFrom(append(append([]string{}, yamlTokens...), xmlTokens...)).Draw(t, "piece")...)
			} else {
				b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "bytes")...)
			}
		}
		desc := fmt.Sprintf("%q", b)
		c.Case(desc, len(b) > 3)
		net, err := bbn.FromYAML(append([]byte{}, b...))
		accepted(t, c, net, err, "yaml "+desc)
		net, err = bbn.FromBIFXML(append([]byte{}, b...))
		accepted(t, c, net, err, "xml "+desc)
	})
}

// extremeNumbers gives valid networks values that are no probabilities or usual utilities.
func extremeNumbers(t *rapid.T, c *hx.C) {
	o := formatOpt()
	o.MinDec, o.MinUtil = 1, 1
	n := model.GenNet(t, o)
	n.OmitFactor = nil
	vals := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), -1, 1e308, -1e308, math.MaxFloat64, 5e-324, 1e-300}
	whole := model.Pct(t, "whole tables", 30)
	changed := 0
	for i := range n.Vars {
		if !model.Pct(t, "change", 50) {
			continue
		}
		x := rapid.SampledFrom(vals).Draw(t, "value")
		for k := range n.Vars[i].Table {
			if whole || model.Pct(t, "here", 40) {
				if !whole {
					x = rapid.SampledFrom(vals).Draw(t, "value")
				}
				n.Vars[i].Table[k] = x
				changed++
			}
		}
	}
	vs, fs := n.BBN()
	desc := n.String()
	c.Case(desc, changed > 0)
	var net *bbn.Network
	var err error
	switch rapid.SampledFrom([]string{"new", "yaml", "xml"}).Draw(t, "source") {
	case "new":
		net, err = bbn.New(n.Name, n.Info, vs, fs)
	case "yaml":
		net, err = bbn.FromYAML([]byte(plainYAML(vs, fs)))
	default:
		net, err = bbn.FromBIFXML([]byte(plainXML(vs, fs)))
	}
	accepted(t, c, net, err, desc)
}

// outcomeLimit: numbers of outcomes around the limit of the internal representation are handled or rejected.
func outcomeLimit(t *rapid.T, c *hx.C) {
	k := []int{65534, 65535, 65536, 65537, 65538, 131072}[model.Intn(t, "outcomes", 0, 5)]
	v := bbn.Variable{Name: "a", Outcomes: make([]string, k)}
	f := bbn.Factor{For: "a", Table: make([]float64, k)}
	for i := range v.Outcomes {
		v.Outcomes[i] = itoa(i)
		f.Table[i] = 1
	}
	c.Case(itoa(k), true)
	net, err := bbn.New("x", "", []bbn.Variable{v}, []bbn.Factor{f})
	if err != nil {
		if net != nil {
			t.Fatalf("network and error")
		}
		c.Label("rejected")
		return
	}
	c.Label("accepted")
	res, _, err := net.SolveQuery(nil, []string{"a"}, false)
	if err != nil || len(res["a"]) != k {
		t.Fatalf("%d outcomes are accepted, but the query gives %d (%v)", k, len(res["a"]), err)
	}
	for i := range res["a"] {
		if !model.Close(res["a"][i], 1/float64(k), 0) {
			t.Fatalf("%d outcomes: probability %v of outcome %d", k, res["a"][i], i)
		}
	}
}

type failer interface{ Fatalf(string, ...any) }

// accepted checks that a load either failed with an error, or gave a usable network.
func accepted(t failer, c *hx.C, net *bbn.Network, err error, desc string) {
	if err != nil {
		if net != nil {
			t.Fatalf("error %v together with a network for\n%s", err, desc)
		}
		if err.Error() == "" {
			t.Fatalf("empty error message for\n%s", desc)
		}
		c.Label("rejected")
		return
	}
	if net == nil {
		t.Fatalf("no network and no error for\n%s", desc)
	}
	c.Label("accepted")
	usable(t, c, net, desc)
}

// usable uses a network in all ways.
func usable(t failer, c *hx.C, net *bbn.Network, desc string) {
	usableUpTo(t, c, net, desc, 1e5)
}

func usableUpTo(t failer, c *hx.C, net *bbn.Network, desc string, limit float64) {
	fail := func(what string, err error) {
		if err != nil {
			t.Fatalf("%s fails with %v for accepted network\n%s", what, err, desc)
		}
	}
	y, err := bbn.ToYAML(net)
	fail("serialising", err)
	net2, err := bbn.FromYAML(y)
	if err != nil {
		t.Fatalf("re-loading fails with %v:\n%s\nfor\n%s", err, y, desc)
	}
	if len(net2.Variables()) != len(net.Variables()) {
		t.Fatalf("re-loading gives %d of %d variables\n%s", len(net2.Variables()), len(net.Variables()), desc)
	}
	bbn.NewTrainer(net)
	vs := net.Variables()
	card := map[string]int{}
	states := 1.0
	for _, v := range vs {
		card[v.Name] = len(v.Outcomes)
		if v.NodeType != ve.UtilityNode {
			states *= float64(len(v.Outcomes))
		}
	}
	for i, v := range vs {
		size := len(v.Outcomes)
		if i != net.TotalUtilityIndex() {
			for _, g := range v.Factor.Given {
				size *= card[g]
			}
		}
		if v.NodeType != ve.DecisionNode && len(v.Factor.Table) == 0 {
			c.Label("accepted, incomplete")
			return
		}
		if v.NodeType != ve.DecisionNode && len(v.Factor.Table) != size {
			t.Fatalf("table of %q has %d values, want %d, in accepted network\n%s", v.Name, len(v.Factor.Table), size, desc)
		}
	}
	if states > limit {
		return
	}
	all := func(ev map[string]string, ignore bool) {
		_, f, err := net.SolveQuery(ev, nil, ignore)
		fail("query", err)
		us := []string{""}
		utilities := 0
		for i, v := range vs {
			if v.NodeType == ve.UtilityNode {
				utilities++
				if i != net.TotalUtilityIndex() && v.Name != "" {
					us = append(us, v.Name)
				}
				continue
			}
			if _, ok := ev[v.Name]; ok {
				continue
			}
			res, _, err := net.SolveQuery(ev, []string{v.Name}, ignore)
			fail("query of "+v.Name, err)
			if len(res[v.Name]) != len(v.Outcomes) {
				t.Fatalf("marginal of %q is %v\n%s", v.Name, res[v.Name], desc)
			}
		}
		if utilities > 0 {
			for _, u := range us {
				g, err := net.SolveUtility(ev, nil, u, ignore)
				fail("utility "+u, err)
				net.NormalizeUtility(g, f)
			}
		}
	}
	// decisions and what they observe as evidence
	ev := map[string]string{}
	for _, v := range vs {
		if v.NodeType != ve.DecisionNode {
			continue
		}
		ev[v.Name] = v.Outcomes[0]
		for _, g := range v.Factor.Given {
			for _, w := range vs {
				if w.Name == g {
					ev[g] = w.Outcomes[len(w.Outcomes)-1]
				}
			}
		}
	}
	all(ev, true)
	for _, stepwise := range []bool{true, false} {
		ps, err := net.SolvePolicies(stepwise)
		fail("solving policies", err)
		for _, v := range vs {
			if v.NodeType != ve.DecisionNode {
				continue
			}
			if p, ok := ps[v.Name]; !ok || len(p.Table) == 0 {
				t.Fatalf("no policy for %q in accepted network\n%s", v.Name, desc)
			}
		}
		all(map[string]string{}, false)
		all(ev, false)
		all(ev, true)
	}
}

// ---------------------------------------------------------------- definitions given to the constructor

// rawDefinitions gives arbitrary small definitions to the constructor, which must accept exactly the valid ones.
func rawDefinitions(t *rapid.T, c *hx.C) {
	nv := []int{2, 3, 4, 5, 2, 3, 4, 5, 3, 4, 5, 1, 0}[model.Intn(t, "vars", 0, 12)]
	names := []string{"a", "b", "c", "d", "e"}
	vars := []bbn.Variable{}
	nU := 0
	if nv > 1 && model.Pct(t, "utils", 40) {
		nU = model.Intn(t, "nU", 1, nv-1)
	}
	for i := 0; i < nv; i++ {
		tp := ve.ChanceNode
		if i >= nv-nU {
			tp = ve.UtilityNode
		} else if model.Pct(t, "dec", 25) {
			tp = ve.DecisionNode
		}
		no := 1
		if tp != ve.UtilityNode || model.Pct(t, "mout", 15) {
			no = model.Intn(t, "outcomes", 1, 3)
		}
		if model.Pct(t, "noout", 3) {
			no = 0
		}
		name := names[i]
		if model.Pct(t, "dup", 3) {
			name = names[model.Intn(t, "dupname", 0, 4)]
		}
		vars = append(vars, bbn.Variable{Name: name, NodeType: tp, Outcomes: []string{"x", "y", "z"}[:no]})
	}
	card := map[string]int{}
	for _, v := range vars {
		card[v.Name] = len(v.Outcomes)
	}
	total, second := -1, -1
	if nU > 1 && model.Pct(t, "mktotal", 50) {
		total = nv - 1
		if nU > 2 && model.Pct(t, "second", 70) {
			second = nv - 2
		}
	}
	facs := []bbn.Factor{}
	for i := 0; i < nv; i++ {
		if model.Pct(t, "skip", 6) {
			continue
		}
		f := bbn.Factor{For: vars[i].Name}
		pool := []string{}
		for j := 0; j < nv; j++ {
			back := j < i
			switch {
			case i == total:
				back = vars[j].NodeType == ve.UtilityNode && j != i && j != second
			case i == second:
				back = vars[j].NodeType == ve.UtilityNode && j < i
			case vars[j].NodeType == ve.UtilityNode:
				back = false
			}
			if back || model.Pct(t, "odd", 3) {
				pool = append(pool, vars[j].Name)
			}
		}
		if model.Pct(t, "unknown", 2) {
			pool = append(pool, "nobody")
		}
		if model.Pct(t, "again", 3) && len(pool) > 0 {
			pool = append(pool, pool[0])
		}
		idx := make([]int, len(pool))
		for j := range idx {
			idx[j] = j
		}
		lo := 0
		if vars[i].NodeType == ve.UtilityNode {
			lo = 1
		}
		if i == total || i == second {
			lo = len(pool)
			if model.Pct(t, "lessparents", 15) {
				lo--
			}
		}
		for _, j := range model.Subset(t, "given", idx, lo, len(idx)) {
			f.Given = append(f.Given, pool[j])
		}
		size := card[f.For]
		if i == total || i == second {
			size = len(f.Given)
			if model.Pct(t, "outs", 85) {
				vars[i].Outcomes = []string{"x", "y", "z", "v", "w", "u"}[:size]
				card[vars[i].Name] = size
			}
		} else {
			for _, g := range f.Given {
				size *= card[g]
			}
		}
		if model.Pct(t, "size", 5) {
			size += model.Intn(t, "off", -3, 3)
		}
		if size < 0 || model.Pct(t, "notable", 5) || vars[i].NodeType == ve.DecisionNode && model.Pct(t, "dectable", 80) {
			size = 0
		}
		for k := 0; k < size; k++ {
			f.Table = append(f.Table, float64(model.Intn(t, "v", 0, 3)))
		}
		facs = append(facs, f)
		if model.Pct(t, "twice", 2) {
			facs = append(facs, f)
		}
	}
	if model.Pct(t, "foreign", 2) {
		facs = append(facs, bbn.Factor{For: "nobody", Table: []float64{1}})
	}
	sh := make([]bbn.Factor, len(facs))
	for i, j := range model.Perm(t, "order", len(facs)) {
		sh[i] = facs[j]
	}
	if model.Pct(t, "reorder", 60) {
		old := append([]bbn.Variable{}, vars...)
		for i, j := range model.Perm(t, "variable order", nv) {
			vars[i] = old[j]
		}
	}
	desc := strings.Builder{}
	for _, v := range vars {
		fmt.Fprintf(&desc, "variable %q type %d outcomes %q\n", v.Name, v.NodeType, v.Outcomes)
	}
	for _, f := range sh {
		fmt.Fprintf(&desc, "factor for %q given %q table %v\n", f.For, f.Given, f.Table)
	}
	why := invalid(vars, sh)
	net, err := bbn.New("x", "", vars, sh)
	c.Case(desc.String(), len(vars) > 1)
	if why != "" {
		c.Label("invalid: %s", why)
		if err == nil || net != nil {
			t.Fatalf("accepted, although %s:\n%s", why, desc.String())
		}
		return
	}
	if err != nil || net == nil {
		t.Fatalf("valid definition rejected: %v\n%s", err, desc.String())
	}
	c.Label("valid")
	usable(t, c, net, desc.String())
}

// invalid is the reference rule: why a definition does not describe a network ("" if it does).
func invalid(vars []bbn.Variable, facs []bbn.Factor) string {
	byName := map[string]*bbn.Variable{}
	given := map[string][]string{}
	for i := range vars {
		if byName[vars[i].Name] != nil {
			return "duplicate variable"
		}
		if len(vars[i].Outcomes) == 0 {
			return "no outcomes"
		}
		byName[vars[i].Name] = &vars[i]
	}
	seen := map[string]*bbn.Factor{}
	for i, f := range facs {
		if byName[f.For] == nil {
			return "factor of unknown variable"
		}
		if seen[f.For] != nil {
			return "two factors"
		}
		seen[f.For] = &facs[i]
		g := map[string]bool{}
		for _, p := range f.Given {
			if byName[p] == nil {
				return "unknown parent"
			}
			if g[p] {
				return "duplicate parent"
			}
			g[p] = true
		}
		given[f.For] = f.Given
	}
	// cycles: remove variables without remaining parents
	left := map[string]bool{}
	for n := range byName {
		left[n] = true
	}
	for {
		progress := false
		for n := range left {
			free := true
			for _, p := range given[n] {
				free = free && !left[p]
			}
			if free {
				delete(left, n)
				progress = true
			}
		}
		if !progress {
			break
		}
	}
	if len(left) > 0 {
		return "cycle"
	}
	totals := []string{}
	for _, v := range vars {
		u := 0
		for _, p := range given[v.Name] {
			if byName[p].NodeType == ve.UtilityNode {
				u++
			}
		}
		if v.NodeType != ve.UtilityNode {
			if u > 0 {
				return "utility parent of another node"
			}
			continue
		}
		if len(given[v.Name]) == 0 {
			return "utility without parents"
		}
		if u > 0 && u < len(given[v.Name]) {
			return "mixed parents"
		}
		if u > 0 {
			totals = append(totals, v.Name)
		}
	}
	if len(totals) > 1 {
		return "two total utilities"
	}
	for _, v := range vars {
		f := seen[v.Name]
		if len(totals) == 1 && v.Name == totals[0] {
			if len(v.Outcomes) != len(f.Given) {
				return "outcomes of total utility"
			}
			if len(f.Table) != len(f.Given) {
				return "weights of total utility"
			}
			for _, w := range vars {
				if w.NodeType == ve.UtilityNode && w.Name != v.Name {
					ok := false
					for _, p := range f.Given {
						ok = ok || p == w.Name
					}
					if !ok {
						return "utility missing in total utility"
					}
				}
			}
			continue
		}
		if f == nil || len(f.Table) == 0 {
			continue
		}
		size := len(v.Outcomes)
		for _, p := range f.Given {
			size *= len(byName[p].Outcomes)
		}
		if size != len(f.Table) {
			return "table size"
		}
	}
	return ""
}

// ---------------------------------------------------------------- one defect in a valid network, in all formats

func malformed(t *rapid.T, c *hx.C) {
	o := formatOpt()
	o.MinChance = 2
	o.Total = 50
	n := model.GenNet(t, o)
	m := n.Clone()
	m.OmitFactor = nil
	kinds := []string{"cycle", "self", "unknown parent", "duplicate name", "no outcomes", "short table", "long table", "outcome lost", "parent lost", "duplicate parent"}
	us := m.Of(model.Utility)
	chance := m.Of(model.Chance)
	if len(us) > 0 {
		kinds = append(kinds, "utility parent", "utility orphan", "mixed parents", "two totals")
	}
	if m.Total >= 0 {
		kinds = append(kinds, "total table", "total outcomes", "not in total", "utility parent of total's child")
	}
	kind := rapid.SampledFrom(kinds).Draw(t, "kind")
	pick := func(label string, xs []int) int { return xs[model.Intn(t, label, 0, len(xs)-1)] }
	rename := ""
	sizeWas := func(i int) bool { return len(m.Vars[i].Table) > 0 }
	switch kind {
	case "cycle":
		// the last of a chain of chance variables becomes parent of the first
		x := pick("first", chance)
		desc := []int{x}
		for _, i := range m.Topo {
			for _, d := range desc {
				for _, p := range m.Vars[i].Parents {
					if p == d && m.Vars[i].Kind != model.Utility {
						desc = append(desc, i)
						p = -1
					}
				}
			}
			if len(desc) > 50 {
				break
			}
		}
		y := pick("last", desc)
		if contains(m.Vars[x].Parents, y) {
			t.Skip("already a parent")
		}
		addParent(m, x, y)
	case "self":
		x := pick("x", m.NonUtility())
		addParent(m, x, x)
	case "unknown parent":
		x := pick("x", allVars(m))
		k := len(m.Vars)
		m.Vars = append(m.Vars, model.Var{Name: "nobody", Outcomes: []string{"x"}})
		m.Vars[x].Parents = append(m.Vars[x].Parents, k)
		rename = "nobody"
	case "duplicate name":
		x, y := pick("x", allVars(m)), pick("y", allVars(m))
		if x == y {
			t.Skip("same")
		}
		m.Vars[x].Name = m.Vars[y].Name
	case "no outcomes":
		m.Vars[pick("x", allVars(m))].Outcomes = nil
	case "short table":
		x := pick("x", chance)
		v := &m.Vars[x]
		cut := model.Intn(t, "cut", 1, len(v.Table))
		if cut == len(v.Table) {
			t.Skip("no table")
		}
		v.Table = v.Table[:len(v.Table)-cut]
	case "long table":
		v := &m.Vars[pick("x", append(chance, us...))]
		for k := model.Intn(t, "more", 1, 4); k > 0; k-- {
			v.Table = append(v.Table, 0.5)
		}
	case "outcome lost":
		x := pick("x", chance)
		v := &m.Vars[x]
		if len(v.Outcomes) < 2 {
			t.Skip("one outcome")
		}
		v.Outcomes = v.Outcomes[:len(v.Outcomes)-1]
	case "parent lost":
		x := pick("x", append(chance, us...))
		v := &m.Vars[x]
		if len(v.Parents) == 0 || m.Card(v.Parents[0]) == 1 || !sizeWas(x) {
			t.Skip("nothing lost")
		}
		v.Parents = v.Parents[1:]
	case "duplicate parent":
		x := pick("x", allVars(m))
		v := &m.Vars[x]
		if len(v.Parents) == 0 {
			t.Skip("no parents")
		}
		addParent(m, x, pick("p", v.Parents))
	case "utility parent":
		addParent(m, pick("x", m.NonUtility()), pick("u", us))
	case "utility orphan":
		u := pick("u", us)
		m.Vars[u].Parents = nil
		m.Vars[u].Table = []float64{1}
	case "mixed parents":
		u, w := pick("u", us), pick("w", us)
		if u == w {
			t.Skip("same")
		}
		addParent(m, u, w)
	case "two totals":
		for k := 0; k < 2; k++ {
			m.Vars = append(m.Vars, model.Var{Name: fmt.Sprintf("Total %d", k), Kind: model.Utility, Outcomes: make([]string, len(us)), Parents: us, Table: make([]float64, len(us))})
			for j := range us {
				m.Vars[len(m.Vars)-1].Outcomes[j] = fmt.Sprint("w", j)
			}
		}
	case "total table":
		v := &m.Vars[m.Total]
		if len(v.Table) > 1 && model.Pct(t, "less", 50) {
			v.Table = v.Table[:len(v.Table)-1]
		} else {
			v.Table = append(v.Table, make([]float64, len(v.Outcomes))...)
		}
	case "total outcomes":
		v := &m.Vars[m.Total]
		v.Outcomes = append(v.Outcomes, "one more")
		v.Table = append(v.Table, 1)
	case "not in total":
		v := &m.Vars[m.Total]
		if len(v.Parents) < 2 {
			t.Skip("only one")
		}
		v.Parents, v.Outcomes, v.Table = v.Parents[1:], v.Outcomes[1:], v.Table[1:]
	case "utility parent of total's child":
		addParent(m, pick("x", m.NonUtility()), m.Total)
	}
	m.FactorPerm = model.Perm(t, "mperm", len(m.Vars))
	vs, fs := m.BBN()
	if rename != "" { // the unknown variable is not declared
		vs = vs[:len(vs)-1]
		for i, f := range fs {
			if f.For == rename {
				fs = append(fs[:i], fs[i+1:]...)
				break
			}
		}
	}
	if invalid(vs, fs) == "" {
		t.Skip("still valid")
	}
	c.Label("%s", kind)
	desc := kind + ": " + m.String()
	c.Case(desc, true)
	if net, err := bbn.New(m.Name, m.Info, vs, fs); err == nil || net != nil {
		t.Fatalf("New accepts %s", desc)
	}
	y := plainYAML(vs, fs)
	if strings.Contains(kind, "table") && model.Pct(t, "one row", 30) { // rows of other lengths
		y = strings.Replace(y, "], [", ", ", model.Intn(t, "joined", 1, 9))
	}
	y = padYAML(t, y)
	if net, err := bbn.FromYAML([]byte(y)); err == nil || net != nil {
		t.Fatalf("FromYAML accepts %s\n%s", desc, y)
	}
	x := plainXML(vs, fs)
	if net, err := bbn.FromBIFXML([]byte(x)); err == nil || net != nil {
		t.Fatalf("FromBIFXML accepts %s\n%s", desc, x)
	}
	if !model.Pct(t, "documents", 12) {
		return
	}
	// defects of the document
	good := string(model.GenYAML(t, n))
	if net, err := bbn.FromYAML([]byte(good)); err != nil || net == nil {
		t.Fatalf("valid document rejected: %v\n%s", err, good)
	}
	type defect struct{ name, doc string }
	vs, fs = n.BBN()
	gy, gx := padYAML(t, plainYAML(vs, fs)), plainXML(vs, fs)
	once := func(s, old, new string) string { return strings.Replace(s, old, new, 1) }
	ds := []defect{
		{"unknown type", once(gy, "  outcomes:", "  type: "+rapid.SampledFrom([]string{"chance", "natur", "Utility", "0", "node", "utilities"}).Draw(t, "type")+"\n  outcomes:")},
		{"unknown variable field", once(gy, "  outcomes:", "  "+rapid.SampledFrom([]string{"outcome", "parents", "types", "Table", "colour", "x"}).Draw(t, "field")+": 1\n  outcomes:")},
		{"unknown field", gy + rapid.SampledFrom([]string{"nodes", "vars", "Name", "author"}).Draw(t, "topfield") + ": x\n"},
		{"unknown operator", once(gy, "  outcomes:", "  logic: "+rapid.SampledFrom([]string{"nand", "And2", "if", "-", "given-", "count", "outcome", "and,or"}).Draw(t, "op")+"\n  outcomes:")},
		{"broken flow", once(gy, "]\n", "\n")},
		{"not a number", once(gy, "table: [[", "table: [[abc, ")},
		{"not a list", once(gy, "outcomes: [", "outcomes: {a: b}\n  x: [")},
		{"long row", once(gy, "table: [[", "table: [[0.5, ")},
		{"long last row", reverse(once(reverse(gy), "]]", "]]5.0 ,"))},
		{"position", once(gy, "  outcomes:", "  position: [1, 2, 3]\n  outcomes:")},
	}
	for _, d := range ds {
		if d.doc == gy {
			continue
		}
		if net, err := bbn.FromYAML([]byte(d.doc)); err == nil || net != nil {
			t.Fatalf("FromYAML accepts document with %s\n%s", d.name, d.doc)
		}
		c.Label("yaml: %s", d.name)
	}
	xs := []defect{
		{"unknown type", once(gx, "<VARIABLE TYPE=\"", "<VARIABLE TYPE=\"x")},
		{"unclosed", once(gx, "</VARIABLE>", "")},
		{"truncated", gx[:model.Intn(t, "trunc", 0, len(gx)-len("</BIF>"))]},
		{"not a number", once(gx, "<TABLE>", "<TABLE>x")},
		{"definition of unknown variable", once(gx, "</NETWORK>", "<DEFINITION><FOR>nobody at all</FOR><TABLE>1</TABLE></DEFINITION></NETWORK>")},
		{"second definition", once(gx, "</NETWORK>", "<DEFINITION><FOR>"+xmlEscape(n.Vars[0].Name)+"</FOR></DEFINITION><DEFINITION><FOR>"+xmlEscape(n.Vars[0].Name)+"</FOR></DEFINITION></NETWORK>")},
		{"position", once(gx, "</NAME><OUTCOME>", "</NAME><PROPERTY>position = ("+rapid.SampledFrom([]string{"1", "a, 2", "1, b", "1, 2, 3", "", "1.5, 2", ","}).Draw(t, "badpos")+")</PROPERTY><OUTCOME>")},
	}
	for _, d := range xs {
		if d.doc == gx {
			continue
		}
		if net, err := bbn.FromBIFXML([]byte(d.doc)); err == nil || net != nil {
			t.Fatalf("FromBIFXML accepts document with %s\n%s", d.name, d.doc)
		}
		c.Label("xml: %s", d.name)
	}
	// table and logic
	for i := range n.Vars {
		if len(n.Vars[i].Table) > 0 {
			k := strings.Index(gy, "table: ")
			if k > 0 {
				doc := gy[:k] + "logic: not\n  " + gy[k:]
				if net, err := bbn.FromYAML([]byte(doc)); err == nil || net != nil {
					t.Fatalf("FromYAML accepts table together with logic\n%s", doc)
				}
			}
			break
		}
	}
}

// padYAML makes some documents long.
func padYAML(t *rapid.T, doc string) string {
	if !model.Pct(t, "pad", 10) {
		return doc
	}
	line := "# " + strings.Repeat("x", 98) + "\n"
	return strings.Repeat(line, rapid.SampledFrom([]int{1, 10, 50, 700, 3000}).Draw(t, "lines")) + doc
}

func reverse(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

func allVars(n *model.Net) []int {
	r := make([]int, len(n.Vars))
	for i := range r {
		r[i] = i
	}
	return r
}

// addParent adds a last parent, with a table of the right size.
func addParent(n *model.Net, i, p int) {
	v := &n.Vars[i]
	v.Parents = append(v.Parents, p)
	if v.Table == nil {
		return
	}
	c := len(v.Outcomes)
	tab := []float64{}
	for k := 0; k < len(v.Table); k += c {
		for j := 0; j < n.Card(p); j++ {
			tab = append(tab, v.Table[k:k+c]...)
		}
	}
	v.Table = tab
}

func quoteAll(xs []string) string {
	q := make([]string, len(xs))
	for i, x := range xs {
		q[i] = yq(x)
	}
	return "[" + strings.Join(q, ", ") + "]"
}

func yq(s string) string {
	r := strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\t", "\\t")
	return "\"" + r.Replace(s) + "\""
}

func factorOf(fs []bbn.Factor, name string) bbn.Factor {
	for _, f := range fs {
		if f.For == name {
			return f
		}
	}
	return bbn.Factor{For: name}
}

// plainYAML writes definitions, valid or not, in a fixed format.
func plainYAML(vs []bbn.Variable, fs []bbn.Factor) string {
	b := strings.Builder{}
	b.WriteString("name: test\nvariables:\n")
	seen := map[string]int{}
	for _, v := range vs {
		fmt.Fprintf(&b, "- variable: %s\n", yq(v.Name))
		if v.NodeType != ve.ChanceNode {
			fmt.Fprintf(&b, "  type: %s\n", model.Kind(v.NodeType))
		}
		f := factorOf(fs, v.Name)
		if seen[v.Name]++; seen[v.Name] > 1 {
			k := 0
			for _, g := range fs {
				if g.For == v.Name {
					if k++; k == seen[v.Name] {
						f = g
					}
				}
			}
		}
		if len(f.Given) > 0 {
			fmt.Fprintf(&b, "  given: %s\n", quoteAll(f.Given))
		}
		fmt.Fprintf(&b, "  outcomes: %s\n", quoteAll(v.Outcomes))
		if len(f.Table) > 0 {
			b.WriteString("  table: [")
			cols := len(v.Outcomes)
			if cols == 0 {
				cols = 1
			}
			for k := 0; k < len(f.Table); k += cols {
				e := k + cols
				if e > len(f.Table) {
					e = len(f.Table)
				}
				if k > 0 {
					b.WriteString(", ")
				}
				b.WriteString("[" + floats(f.Table[k:e], ", ") + "]")
			}
			b.WriteString("]\n")
		}
	}
	return b.String()
}

func floats(xs []float64, sep string) string {
	s := make([]string, len(xs))
	for i, x := range xs {
		s[i] = fmt.Sprint(x)
		if sep == ", " && math.IsNaN(x) {
			s[i] = ".nan"
		}
		if sep == ", " && math.IsInf(x, 0) {
			s[i] = strings.ToLower(strings.Replace(s[i], "Inf", ".inf", 1))
		}
	}
	return strings.Join(s, sep)
}

func xmlEscape(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\n", "&#10;", "\t", "&#9;").Replace(s)
}

// plainXML writes definitions, valid or not, in a fixed format.
func plainXML(vs []bbn.Variable, fs []bbn.Factor) string {
	b := strings.Builder{}
	b.WriteString("<BIF><NETWORK><NAME>test</NAME>\n")
	for _, v := range vs {
		fmt.Fprintf(&b, "<VARIABLE TYPE=\"%s\"><NAME>%s</NAME>", model.Kind(v.NodeType), xmlEscape(v.Name))
		for _, o := range v.Outcomes {
			fmt.Fprintf(&b, "<OUTCOME>%s</OUTCOME>", xmlEscape(o))
		}
		b.WriteString("</VARIABLE>\n")
	}
	for _, f := range fs {
		fmt.Fprintf(&b, "<DEFINITION><FOR>%s</FOR>", xmlEscape(f.For))
		for _, g := range f.Given {
			fmt.Fprintf(&b, "<GIVEN>%s</GIVEN>", xmlEscape(g))
		}
		if len(f.Table) > 0 {
			fmt.Fprintf(&b, "<TABLE>%s</TABLE>", floats(f.Table, " "))
		}
		b.WriteString("</DEFINITION>\n")
	}
	b.WriteString("</NETWORK></BIF>\n")
	return b.String()
}

// ---------------------------------------------------------------- mutations

var yamlTokens = []string{"name: ", "variables:", "- variable: ", "given: ", "outcomes: ", "type: ", "position: ", "table: ", "logic: ", "color: ", "info: ",
	"[", "]", "{", "}", ",", ":", "- ", "\n", "  ", "nature", "decision", "utility", "[[1, 0]]", "[[0.5, 0.5], [1, 0]]", "[]", "{}", "null", "~", "&a ", "*a", "<<: ", "!!binary ", "!!str ", "|", ">", "\"", "'", "#", "---\n", "...\n", "%YAML 1.1\n",
	"1e999", "-1", ".nan", ".inf", "-.inf", "0x10", "0", "1", "true", "C0", "D0", "U0", "o0", "logic: and\n", "logic: given 0\n", "logic: outcome-is 0 2\n", "\t", "\r", "\x00", "\xff", "é"}

var xmlTokens = []string{"<BIF>", "</BIF>", "<NETWORK>", "</NETWORK>", "<NAME>", "</NAME>", "<VARIABLE>", "<VARIABLE TYPE=\"utility\">", "</VARIABLE>", "<OUTCOME>", "</OUTCOME>", "<OUTCOME>o0</OUTCOME>", "<PROPERTY>", "</PROPERTY>", "<PROPERTY>position = (1, 2)</PROPERTY>", "<DEFINITION>", "</DEFINITION>", "<FOR>", "</FOR>", "<GIVEN>", "</GIVEN>", "<TABLE>", "</TABLE>",
	"<GIVEN>C0</GIVEN>", "<FOR>C0</FOR>", "<TABLE>1 0</TABLE>", "&lt;", "&x;", "&#0;", "<![CDATA[", "]]>", "<!--", "-->", "<?xml version=\"1.0\" encoding=\"latin1\"?>", "<!DOCTYPE x>", "nature", "decision", "utility", "NaN", "Inf", "-1", "1e999", "0x1p-2", " ", "\n", "\x00", "\xff", "é", "<", ">", "\"", "/"}

// mutate makes some changes to a document.
func mutate(t *rapid.T, doc string, tokens []string) (string, []string) {
	log := []string{}
	for k := model.Intn(t, "mutations", 0, 4); k > 0; k-- {
		lines := strings.SplitAfter(doc, "\n")
		line := func(l string) int { return model.Intn(t, l, 0, len(lines)-1) }
		pos := func(l string) int { return int(rapid.Uint32().Draw(t, l)) % (len(doc) + 1) }
		switch model.Intn(t, "kind", 0, 9) {
		case 0:
			i := line("del")
			log = append(log, fmt.Sprintf("delete line %d", i))
			doc = strings.Join(append(append([]string{}, lines[:i]...), lines[i+1:]...), "")
		case 1:
			i, j := line("from"), line("to")
			log = append(log, fmt.Sprintf("copy line %d to %d", i, j))
			doc = strings.Join(lines[:j], "") + lines[i] + strings.Join(lines[j:], "")
		case 2:
			i, j := line("a"), line("b")
			log = append(log, fmt.Sprintf("swap lines %d and %d", i, j))
			lines[i], lines[j] = lines[j], lines[i]
			doc = strings.Join(lines, "")
		case 3, 4:
			i := pos("at")
			s := rapid.SampledFrom(tokens).Draw(t, "tok")
			log = append(log, fmt.Sprintf("insert %q at %d", s, i))
			doc = doc[:i] + s + doc[i:]
		case 5:
			i := pos("at")
			e := i + model.Intn(t, "len", 1, 20)
			if e > len(doc) {
				e = len(doc)
			}
			log = append(log, fmt.Sprintf("delete %d..%d", i, e))
			doc = doc[:i] + doc[e:]
		case 6: // replace a word by another word of the document
			ws := strings.FieldsFunc(doc, func(r rune) bool { return strings.ContainsRune(" \n\t[],<>:\"'", r) })
			if len(ws) == 0 {
				continue
			}
			a, b := rapid.SampledFrom(ws).Draw(t, "w1"), rapid.SampledFrom(ws).Draw(t, "w2")
			n := strings.Count(doc, a)
			at := model.Intn(t, "occ", 0, n-1)
			i := 0
			for ; at >= 0; at-- {
				i += strings.Index(doc[i:], a)
				if at > 0 {
					i += len(a)
				}
			}
			log = append(log, fmt.Sprintf("replace %q by %q", a, b))
			doc = doc[:i] + b + doc[i+len(a):]
		case 7: // replace all occurrences of a word
			ws := strings.FieldsFunc(doc, func(r rune) bool { return strings.ContainsRune(" \n\t[],<>:\"'", r) })
			if len(ws) == 0 {
				continue
			}
			a := rapid.SampledFrom(ws).Draw(t, "w1")
			b := rapid.SampledFrom(tokens).Draw(t, "w2")
			if len(doc) > 20000 {
				continue
			}
			log = append(log, fmt.Sprintf("replace all %q by %q", a, b))
			doc = strings.ReplaceAll(doc, a, b)
		case 8:
			i := pos("at")
			if i == len(doc) {
				continue
			}
			b := rapid.Byte().Draw(t, "byte")
			log = append(log, fmt.Sprintf("byte %d at %d", b, i))
			doc = doc[:i] + string([]byte{b}) + doc[i+1:]
		case 9: // a number
			i := strings.IndexAny(doc[pos("at"):], "0123456789")
			if i < 0 {
				continue
			}
			s := rapid.SampledFrom([]string{"-1", "0", "1e308", ".nan", ".inf", "99999999999999999999", "x", "1.5", "", "[", "NaN"}).Draw(t, "num")
			log = append(log, fmt.Sprintf("number %d by %s", i, s))
			doc = doc[:i] + s + doc[i+1:]
		}
	}
	return doc, log
}

// junkLogic gives some variables logic expressions that may or may not fit.
func junkLogic(t *rapid.T, n *model.Net) map[int]string {
	r := map[int]string{}
	if !model.Pct(t, "logic", 50) {
		return r
	}
	for i := range n.Vars {
		if model.Pct(t, "logic?", 40) {
			s := rapid.SampledFrom([]string{"not", "and", "or", "xor", "if-then", "bicond", "equals", "count-true", "count-false", "count-is", "count-less", "given", "given-not", "given-excl", "outcome-is", "outcome-is-not", "outcome-either", "outcome-less", "outcome-greater", "bits", "AND", ""}).Draw(t, "op")
			for k := model.Intn(t, "args", 0, 3); k > 0; k-- {
				s += " " + rapid.SampledFrom([]string{"0", "1", "2", "3", "-1", "70000", "x", "", "9223372036854775807", "-9223372036854775808", "99999999999999999999", "65535"}).Draw(t, "arg")
			}
			r[i] = s
		}
	}
	return r
}
