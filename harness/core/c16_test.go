package core

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn/logic"
	"pgregory.net/rapid"
)

func TestC16(t *testing.T) {
	hx.Run(t, "independence", 1500, func(t *rapid.T, c *hx.C) {
		type inst struct {
			f   logic.Factor
			op  model.Op
			set bool
		}
		insts := []*inst{}
		log := []string{}
		note := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
		fav := rapid.SampledFrom(model.OpNames[21:]).Draw(t, "favourite")
		buf := make([]int, 128) // arguments are passed in a buffer that is reused
		shared := 0
		for s := model.Intn(t, "steps", 3, 16); s > 0; s-- {
			ctx := strings.Join(log, "; ")
			if len(insts) == 0 || model.Pct(t, "new", 35) {
				name := fav
				if model.Pct(t, "other", 40) {
					name = rapid.SampledFrom(model.OpNames).Draw(t, "op")
				}
				in := &inst{op: model.Op{Name: name}}
				if model.Pct(t, "ctor", 25) {
					given := in.op.Arity()
					if given < 0 {
						given = 3
					}
					model.GenArgs(t, &in.op, given)
					a := buf[:copy(buf, in.op.Args)]
					in.f = constructors[name](a)
					in.set = true
					note("%d = constructor of '%s'", len(insts), in.op)
				} else {
					f, ok := logic.Get(name)
					if !ok {
						t.Fatalf("operator '%s' not found", name)
					}
					in.f = f
					in.set = in.op.NumArgs() == 0
					note("%d = get '%s'", len(insts), name)
				}
				for _, o := range insts {
					if o.op.Name == name {
						shared++
					}
				}
				insts = append(insts, in)
				continue
			}
			k := model.Intn(t, "which", 0, len(insts)-1)
			in := insts[k]
			switch model.Intn(t, "what", 0, 5) {
			case 0, 1: // arguments
				op := model.Op{Name: in.op.Name}
				given := op.Arity()
				if given < 0 {
					given = model.Intn(t, "for", 1, 4)
				}
				model.GenArgs(t, &op, given)
				if op.Valid(given) != 1 {
					continue
				}
				note("%d set %v", k, op.Args)
				a := buf[:copy(buf, op.Args)]
				if err := in.f.SetArgs(a...); err != nil {
					t.Fatalf("after %s: setting arguments %v of '%s' fails: %v", ctx, op.Args, op.Name, err)
				}
				in.op, in.set = op, true
			case 2: // wrong number of arguments: no effect
				want := in.op.NumArgs()
				num := model.Intn(t, "num", 0, 4)
				if want >= 0 && num == want || want == -2 && num >= 2 {
					continue
				}
				note("%d set %d arguments", k, num)
				if err := in.f.SetArgs(make([]int, num)...); err == nil {
					t.Fatalf("after %s: '%s' accepts %d arguments", ctx, in.op.Name, num)
				}
			default:
				if !in.set {
					continue
				}
				given := in.op.Arity()
				if given < 0 {
					given = model.Intn(t, "given", 0, 5)
				}
				tab, err := in.f.Table(given)
				note("%d table %d", k, given)
				switch in.op.Valid(given) {
				case 1:
					if err != nil {
						t.Fatalf("after %s: '%s' with %d parents fails: %v", ctx, in.op, given, err)
					}
				case 0:
					if err == nil {
						t.Fatalf("after %s: '%s' accepts %d parents", ctx, in.op, given)
					}
				}
				if err != nil {
					continue
				}
				if !eqFloats(tab, tableOf(in.op, given)) && !eqFloats(tab, greaterOrEqual(in.op, given)) {
					t.Fatalf("after %s: '%s' with %d parents gives %v, want %v", ctx, in.op, given, tab, tableOf(in.op, given))
				}
				if model.Pct(t, "scribble", 50) {
					note("scribble")
					for i := range tab {
						tab[i] = -3
					}
				}
			}
		}
		c.Case(strings.Join(log, "; "), shared > 0)
	})
	hx.Run(t, "validation", 4000, func(t *rapid.T, c *hx.C) {
		o := model.Op{Name: rapid.SampledFrom(model.OpNames).Draw(t, "op")}
		nums := []int{0, 1, 2, 3, 4, -1, -2, 9, 50, 64, 65535, 65536, 70000, math.MaxInt32, math.MinInt32, 1 << 60, math.MaxInt, math.MinInt, math.MaxInt - 1}
		na := o.NumArgs()
		if na < 0 {
			na = model.Intn(t, "either", 2, 4)
		}
		if model.Pct(t, "wrongnum", 20) {
			na = model.Intn(t, "numargs", 0, 5)
		}
		for k := 0; k < na; k++ {
			o.Args = append(o.Args, rapid.SampledFrom(nums).Draw(t, "arg"))
		}
		given := o.Arity()
		if given < 0 || model.Pct(t, "wronggiven", 30) {
			given = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, -1, -2, -64, 50, 61, 62, 63, 64, 65, 66, 128, 1 << 32, 1 << 60, math.MaxInt, math.MinInt}).Draw(t, "given")
		}
		valid := o.Valid(given)
		if given > 8 {
			valid = 0
		}
		c.Case(fmt.Sprintf("%s given %d", o, given), len(o.Args) > 0)
		c.Label("valid %d", valid)
		f, ok := logic.Get(o.Name)
		if !ok {
			t.Fatalf("operator '%s' not found", o.Name)
		}
		err := f.SetArgs(o.Args...)
		var tab []float64
		if err == nil {
			tab, err = f.Table(given)
		}
		check := func(tab []float64, err error, how string) {
			switch {
			case valid == 1 && err != nil:
				t.Fatalf("%s: '%s' with %d parents fails: %v", how, o, given, err)
			case valid == 0 && err == nil:
				t.Fatalf("%s: '%s' with %d parents is accepted: %d values", how, o, given, len(tab))
			case err != nil && tab != nil:
				t.Fatalf("%s: '%s' with %d parents gives a table and an error", how, o, given)
			case err != nil && err.Error() == "":
				t.Fatalf("%s: '%s' with %d parents gives an empty error", how, o, given)
			case err == nil && valid != 0 && len(tab) != rows(o, given)*o.Cols(given):
				t.Fatalf("%s: '%s' with %d parents gives %d values", how, o, given, len(tab))
			}
		}
		check(tab, err, "by name")
		if n := o.NumArgs(); n == len(o.Args) || n == -2 && len(o.Args) >= 2 {
			tab, err := constructors[o.Name](append([]int{}, o.Args...)).Table(given)
			check(tab, err, "constructor")
		}
	})
	hx.Run(t, "names", 100, func(t *rapid.T, c *hx.C) {
		name := missing(t, model.OpNames)
		c.Case(name, true)
		if _, ok := logic.Get(name); ok && name != strings.ToLower(name) {
			return // not specified
		} else if ok {
			t.Fatalf("operator %q exists", name)
		}
	})
}

func rows(o model.Op, given int) int {
	r := 1
	for i := 0; i < given; i++ {
		r *= o.ParentCard()
	}
	return r
}

// greaterOrEqual is what 'outcome-greater' actually does; whether it should is not decided here.
func greaterOrEqual(o model.Op, given int) []float64 {
	tab := o.Table(given)
	if o.Name == "outcome-greater" && o.Args[0] < o.Args[1] {
		tab[2*o.Args[0]], tab[2*o.Args[0]+1] = 1, 0
	}
	return tab
}
