package core

import (
	"fmt"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/ve"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { hx.Main(m) }

func build(t *rapid.T, n *model.Net) *bbn.Network {
	net, err := n.Build()
	if err != nil {
		t.Fatalf("building a valid network fails: %v\n%s", err, n)
	}
	return net
}

// checkMarginals compares the marginals of a query with the model.
func checkMarginals(t *rapid.T, n *model.Net, j *model.Flat, res map[string][]float64, ctx string) {
	if len(res) != len(j.Vars) {
		t.Fatalf("%s: %d marginals for %d query variables: %v\n%s", ctx, len(res), len(j.Vars), res, n)
	}
	for k, i := range j.Vars {
		want := j.Marginal(k)
		got, ok := res[n.Vars[i].Name]
		if !ok || len(got) != len(want) {
			t.Fatalf("%s: marginal of %q is %v, want %v\n%s", ctx, n.Vars[i].Name, got, want, n)
		}
		for o := range want {
			if !model.Close(got[o], want[o], 0) || got[o] < 0 {
				t.Fatalf("%s: marginal of %q is %v, want %v\n%s", ctx, n.Vars[i].Name, got, want, n)
			}
		}
	}
}

// checkFactor compares a result factor with a model table, cell by cell, addressed through the
// network's own reordering by name and through the factor's own variable order. The factor may have
// `extra` further dimensions (of size one: a named utility variable keeps its own).
func checkFactor(t *rapid.T, n *model.Net, net *bbn.Network, f *ve.Factor, want *model.Flat, ctx string, extra ...int) {
	if f == nil {
		t.Fatalf("%s: no factor\n%s", ctx, n)
	}
	maxVars := len(want.Vars)
	if len(extra) > 0 {
		maxVars += extra[0]
	}
	if nv := len(f.Variables()); nv < len(want.Vars) || nv > maxVars || len(f.Data()) != len(want.Val) {
		t.Fatalf("%s: factor over %d variables with %d values, want %d variables %q with %d values\n%s", ctx, len(f.Variables()), len(f.Data()), len(want.Vars), n.Names(want.Vars), len(want.Val), n)
	}
	if len(want.Vars) == 0 {
		if !model.Close(f.Data()[0], want.Val[0], want.Abs[0]) {
			t.Fatalf("%s: value %v, want %v\n%s", ctx, f.Data()[0], want.Val[0], n)
		}
		return
	}
	g := net.Rearrange(f, n.Names(want.Vars))
	if len(g.Data()) != len(want.Val) || len(g.Variables()) != len(f.Variables()) {
		t.Fatalf("%s: reordered factor has %d values, want %d\n%s", ctx, len(g.Data()), len(want.Val), n)
	}
	// order of f's variables in terms of want's
	fv, gv := f.Variables(), g.Variables()
	pos := func(b int) int { // position in want of position b of g
		switch {
		case b == len(gv)-1:
			return len(want.Vars) - 1
		case b < len(want.Vars)-1:
			return b
		}
		return -1
	}
	idx := make([]int, len(fv))
	for a := range fv {
		idx[a] = -2
		for b := range gv {
			if fv[a].Id() == gv[b].Id() {
				idx[a] = pos(b)
			}
		}
		if idx[a] == -2 {
			t.Fatalf("%s: reordering lost a variable\n%s", ctx, n)
		}
	}
	at := make([]int, len(want.Vars))
	fi := make([]int, len(fv))
	gi := make([]int, len(gv))
	for k := range want.Val {
		r := k
		for b := len(at) - 1; b >= 0; b-- {
			at[b] = r % want.Card[b]
			r /= want.Card[b]
		}
		for a := range fi {
			fi[a], gi[a] = 0, 0
			if idx[a] >= 0 {
				fi[a] = at[idx[a]]
			}
			if p := pos(a); p >= 0 {
				gi[a] = at[p]
			}
		}
		v1, v2, v3 := g.Data()[k], g.Get(gi), f.Get(fi)
		for _, v := range []float64{v1, v2, v3} {
			if !model.Close(v, want.Val[k], want.Abs[k]) {
				t.Fatalf("%s: value at %q = %v is %v (reordered), %v (get), %v (original), want %v\n%s", ctx, n.Names(want.Vars), at, v1, v2, v3, want.Val[k], n)
			}
		}
	}
}

func describe(n *model.Net, ev map[int]int, q []int, extra string) string {
	return fmt.Sprintf("%sevidence %s query %q %s", n, n.EvString(ev), n.Names(q), extra)
}

func edges(n *model.Net) int {
	e := 0
	for i := range n.Vars {
		e += len(n.Vars[i].Parents)
	}
	return e
}
