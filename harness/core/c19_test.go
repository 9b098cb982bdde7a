package core

import (
	"bytes"
	"encoding/csv"
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"pgregory.net/rapid"
)

// shown is what the applications show for a variable: probabilities, or for a utility its own and the total one.
type shown struct {
	vals   []float64
	scales []float64
}

// display computes what has to be shown for each variable.
func display(n *model.Net, ev map[int]int, pol map[int]model.Policy) []shown {
	sem := model.NewSem(n, pol)
	p := sem.Joint(ev, nil).Val[0]
	r := make([]shown, len(n.Vars))
	own := make([]*model.Flat, len(n.Vars))
	tot := sem.Utility(ev, nil, -1)
	for i := range n.Vars {
		s := &r[i]
		switch {
		case i == n.Total:
		case n.Vars[i].Kind == model.Utility:
			own[i] = sem.Utility(ev, nil, i)
			s.vals = []float64{own[i].Val[0] / p, tot.Val[0] / p}
			s.scales = []float64{own[i].Abs[0] / p, tot.Abs[0] / p}
		default:
			if o, ok := ev[i]; ok {
				s.vals = make([]float64, n.Card(i))
				s.vals[o] = 1
			} else {
				s.vals = sem.Joint(ev, []int{i}).Marginal(0)
			}
			for range s.vals {
				s.scales = append(s.scales, 1)
			}
		}
	}
	if t := n.Total; t >= 0 {
		for k, u := range n.Vars[t].Parents {
			w := n.Vars[t].Table[k]
			r[t].vals = append(r[t].vals, own[u].Val[0]/p*w)
			r[t].scales = append(r[t].scales, math.Abs(own[u].Abs[0]/p*w))
		}
		r[t].vals = append(r[t].vals, tot.Val[0]/p)
		r[t].scales = append(r[t].scales, tot.Abs[0]/p)
	}
	return r
}

// sameNumber compares a number as shown, with three decimals, with the value it stands for.
func sameNumber(text string, want, scale float64) bool {
	if math.IsNaN(want) {
		return text == "NaN" || text == "???"
	}
	v, err := strconv.ParseFloat(text, 64)
	if err != nil || math.IsNaN(v) {
		return false
	}
	if dot := strings.Index(text, "."); dot < 0 || len(text)-dot-1 != 3 {
		return false
	}
	return math.Abs(v-want) <= 0.0005+1e-7+1e-9*math.Abs(scale)
}

func inferOpt() model.Opt {
	o := decOpt()
	o.MinChance, o.MaxChance = 1, 5
	o.MinDec, o.MaxDec = 0, 2
	o.MinUtil, o.MaxUtil = 0, 3
	o.MaxStates = 300
	o.Total = 50
	o.Deco = true
	o.Exact = true
	return o
}

// evArgs spells evidence as command line arguments.
func evArgs(t *rapid.T, n *model.Net, ev map[int]int) []string {
	var items []string
	for _, i := range model.Perm(t, "evorder", len(n.Vars)) {
		if o, ok := ev[i]; ok {
			items = append(items, n.Vars[i].Name+"="+n.Vars[i].Outcomes[o])
		}
	}
	var args []string
	for len(items) > 0 {
		k := model.Intn(t, "chunk", 1, len(items))
		b := &bytes.Buffer{}
		w := csv.NewWriter(b)
		if err := w.Write(items[:k]); err != nil {
			t.Fatalf("INFRA: %v", err)
		}
		w.Flush()
		text := strings.TrimSuffix(b.String(), "\n")
		switch model.Intn(t, "flagstyle", 0, 2) {
		case 0:
			args = append(args, "-e", text)
		case 1:
			args = append(args, "--evidence="+text)
		default:
			args = append(args, "--evidence", text)
		}
		items = items[k:]
	}
	return args
}

// usableInEvidence tells whether the pair can be spelled on the command line.
func usableInEvidence(v *model.Var) bool {
	bad := func(s string) bool { return strings.ContainsAny(s, "=\r\n") }
	for _, o := range v.Outcomes {
		if bad(o) {
			return false
		}
	}
	return !bad(v.Name)
}

// oneLine replaces names that do not fit into a line.
func oneLine(n *model.Net) {
	for i := range n.Vars {
		v := &n.Vars[i]
		v.Name = strings.ReplaceAll(v.Name, "\n", "/")
		for k := range v.Outcomes {
			v.Outcomes[k] = strings.ReplaceAll(v.Outcomes[k], "\n", "/")
		}
	}
}

func TestC19(t *testing.T) {
	needTool(t, "VX_BBN")
	hx.Run(t, "inference", 250, func(t *rapid.T, c *hx.C) {
		o := inferOpt()
		if model.Pct(t, "chance only", 30) {
			o.MaxDec = 0
			o.Exact = false
			o.ZeroRows = true
			o.MaxChance = 6
		}
		n := model.GenNet(t, o)
		oneLine(n)
		dir, done := scratch(t)
		defer done()
		name, text, stated := netFile(t, dir, n)
		var pool []int
		for _, i := range n.NonUtility() {
			if usableInEvidence(&n.Vars[i]) {
				pool = append(pool, i)
			}
		}
		ev := model.GenEvidence(t, stated, pool, 3)
		flags := evArgs(t, stated, ev)
		args := append([]string{"inference", name}, flags...)
		if model.Pct(t, "flags first", 40) {
			args = append(append([]string{"inference"}, flags...), name)
		}
		ctx := strings.Join(args, " ") + "\n" + string(text)
		c.Case(ctx, len(ev) > 0 && edges(n) > 0)
		so, se, code := runTool(t, dir, "VX_BBN", args...)
		sameFile(t, dir, name, text)
		if code != 0 {
			t.Fatalf("inference fails with exit code %d:\n%s\n%s\n%s", code, clip(so), clip(se), ctx)
		}
		pol, sure := stated.Solved(true)
		if !sure {
			c.Label("rounding could decide a tie: not compared")
			return
		}
		want := display(stated, ev, pol)
		lines := strings.Split(strings.TrimSuffix(so, "\n"), "\n")
		if len(lines) != 2*len(stated.Vars) {
			t.Fatalf("inference prints %d lines for %d variables:\n%s\n%s", len(lines), len(stated.Vars), clip(so), ctx)
		}
		impossible := false
		for i := range stated.Vars {
			v := &stated.Vars[i]
			head, body := lines[2*i], lines[2*i+1]
			wh := strings.Repeat(" ", 30)
			for _, o := range v.Outcomes {
				wh += fmt.Sprintf(" %10s", o)
			}
			if strings.TrimRight(head, " ") != strings.TrimRight(wh, " ") {
				t.Fatalf("inference prints header\n%q for %q, want\n%q\n%s", head, v.Name, wh, ctx)
			}
			label := fmt.Sprintf("%30s", v.Name)
			if !strings.HasPrefix(body, label) {
				t.Fatalf("inference prints\n%q for %q\n%s", body, v.Name, ctx)
			}
			fs := strings.Fields(body[len(label):])
			_, isEv := ev[i]
			if isEv != (len(fs) > 0 && fs[len(fs)-1] == "+") {
				t.Fatalf("wrong evidence mark for %q: %q\n%s", v.Name, body, ctx)
			}
			if isEv {
				fs = fs[:len(fs)-1]
			}
			if len(fs) != len(want[i].vals) {
				t.Fatalf("inference prints %d numbers for %q, want %d:\n%s\n%s", len(fs), v.Name, len(want[i].vals), clip(so), ctx)
			}
			for k, f := range fs {
				x := want[i].vals[k]
				impossible = impossible || math.IsNaN(x)
				if v.Kind != model.Utility {
					if !strings.HasSuffix(f, "%") {
						t.Fatalf("no percent sign for %q: %q\n%s", v.Name, body, ctx)
					}
					f = strings.TrimSuffix(f, "%")
					x *= 100
				}
				if !sameNumber(f, x, want[i].scales[k]) {
					t.Fatalf("inference prints\n%s\n%s\nwant %v (times 100 for probabilities)\n%s", head, body, want[i].vals, ctx)
				}
			}
		}
		if impossible {
			c.Label("impossible evidence")
		}
		if len(n.Decisions()) > 0 {
			c.Label("decisions")
		}
	})
	hx.Run(t, "errors", 100, func(t *rapid.T, c *hx.C) {
		n := model.GenNet(t, inferOpt())
		oneLine(n)
		dir, done := scratch(t)
		defer done()
		name, text, stated := netFile(t, dir, n)
		var pool []int
		for _, i := range n.NonUtility() {
			if usableInEvidence(&n.Vars[i]) {
				pool = append(pool, i)
			}
		}
		ev := model.GenEvidence(t, stated, pool, 2)
		args := append([]string{"inference", name}, evArgs(t, stated, ev)...)
		kind := rapid.SampledFrom([]string{"variable", "outcome", "utility", "syntax", "no file", "extension", "network", "arguments", "flag", "color"}).Draw(t, "kind")
		quote := func(s string) string {
			b := &bytes.Buffer{}
			w := csv.NewWriter(b)
			if w.Write([]string{s}) != nil {
				t.Fatalf("INFRA: csv")
			}
			w.Flush()
			return strings.TrimSuffix(b.String(), "\n")
		}
		switch kind {
		case "variable":
			x := rapid.SampledFrom([]string{"unknown", "X ", "c0", " C0", ""}).Draw(t, "x")
			if stated.Index(x) >= 0 {
				x = "no such variable"
			}
			args = append(args, "-e", quote(x+"=yes"))
		case "outcome":
			if len(pool) == 0 {
				return
			}
			i := pool[model.Intn(t, "i", 0, len(pool)-1)]
			o := rapid.SampledFrom([]string{"unknown", "0", "-1", "", stated.Vars[i].Outcomes[0] + " ", strings.ToUpper(stated.Vars[i].Outcomes[0]) + "_"}).Draw(t, "o")
			for _, x := range stated.Vars[i].Outcomes {
				if x == o {
					o = "no such outcome"
				}
			}
			args = append(args, "-e", quote(stated.Vars[i].Name+"="+o))
		case "utility":
			us := stated.Of(model.Utility)
			if len(us) == 0 {
				return
			}
			u := us[model.Intn(t, "u", 0, len(us)-1)]
			if !usableInEvidence(&stated.Vars[u]) {
				return
			}
			args = append(args, "-e", quote(stated.Vars[u].Name+"="+stated.Vars[u].Outcomes[0]))
		case "syntax":
			args = append(args, "-e", rapid.SampledFrom([]string{"abc", "a=b=c", "a=b,c", "=", "==", "\"", "a,=,b"}).Draw(t, "bad"))
		case "no file":
			args[1] = "missing-" + name
		case "extension":
			args[1] = "net.txt"
			write(t, dir, "net.txt", text)
		case "network":
			write(t, dir, name, []byte(rapid.SampledFrom([]string{"", "x", "<BIF>", "variables: [{variable: A}]", string(text[:len(text)/2]) + "\n\x00{[<"}).Draw(t, "broken")))
		case "arguments":
			args = rapid.SampledFrom([][]string{{"inference"}, {"inference", name, name}, {"infer", name}, {"inference", ""}}).Draw(t, "args")
		case "flag":
			args = append(args, rapid.SampledFrom([]string{"--unknown", "-x", "--evidences=1"}).Draw(t, "flag"))
		case "color":
			n.Vars[0].Color = rapid.SampledFrom([]string{"pink", "Red", "#ff0000", "1"}).Draw(t, "color")
			args[1] = "color.yml"
			write(t, dir, "color.yml", model.GenYAML(t, n))
		}
		ctx := kind + ": " + strings.Join(args, " ") + "\n" + string(text)
		c.Case(ctx, true)
		c.Label("%s", kind)
		so, se, code := runTool(t, dir, "VX_BBN", args...)
		refused(t, so, se, code, ctx)
	})
}
