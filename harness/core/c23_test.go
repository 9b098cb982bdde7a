package core

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"github.com/mlange-42/bbn/logic"
	"pgregory.net/rapid"
)

// request is one step of a job: a query, a utility request, solving, training, serialising, reloading, or a logic table.
type request struct {
	kind    string
	ev      map[string]string
	q       []string
	ignore  bool
	util    string
	samples []model.Sample
	op      model.Op
	given   int
}

// job is the life of one network.
type job struct {
	doc   []byte
	xml   bool
	n     *model.Net // to be built directly if there is no document
	steps []request
}

type outcome struct {
	text []string
	vals []float64
}

func (o *outcome) say(format string, a ...any) { o.text = append(o.text, fmt.Sprintf(format, a...)) }

func (o *outcome) tables(net *bbn.Network) {
	for _, v := range net.Variables() {
		o.say("%q %v %q %q", v.Name, v.NodeType, v.Outcomes, v.Factor.Given)
		o.vals = append(o.vals, v.Factor.Table...)
	}
}

// policy notes a policy for every assignment of all variables: the order of its conditions is not fixed.
func (o *outcome) policy(n *model.Net, name string, f bbn.Factor) {
	non := n.NonUtility()
	x := make([]int, len(n.Vars))
	var rec func(k int)
	rec = func(k int) {
		if k < len(non) {
			for x[non[k]] = 0; x[non[k]] < n.Card(non[k]); x[non[k]]++ {
				rec(k + 1)
			}
			return
		}
		pos := 0
		for _, g := range f.Given {
			i := n.Index(g)
			pos = pos*n.Card(i) + x[i]
		}
		d := n.Index(name)
		o.vals = append(o.vals, f.Table[pos*n.Card(d)+x[d]])
	}
	rec(0)
}

func (j *job) run() (o *outcome) {
	o = &outcome{}
	defer func() {
		if r := recover(); r != nil {
			o.say("panic: %v", r)
		}
	}()
	var net *bbn.Network
	var err error
	switch {
	case j.doc == nil:
		net, err = j.n.Build()
	case j.xml:
		net, err = bbn.FromBIFXML(append([]byte{}, j.doc...))
	default:
		net, err = bbn.FromYAML(append([]byte{}, j.doc...))
	}
	if err != nil {
		o.say("error: %v", err)
		return o
	}
	o.tables(net)
	for _, s := range j.steps {
		o.say("%s", s.kind)
		switch s.kind {
		case "query":
			res, f, err := net.SolveQuery(s.ev, s.q, s.ignore)
			o.say("%v %v", err != nil, f != nil)
			if err == nil {
				for _, q := range s.q {
					o.vals = append(o.vals, res[q]...)
				}
				r := *f
				if len(s.q) > 0 {
					r = net.Rearrange(f, s.q)
					m := net.Marginal(f, s.q[0])
					m = net.Normalize(&m)
					o.vals = append(o.vals, m.Data()...)
				}
				o.vals = append(o.vals, r.Data()...)
			}
		case "utility":
			f, err := net.SolveUtility(s.ev, s.q, s.util, s.ignore)
			o.say("%v %v", err != nil, f != nil)
			if err == nil {
				r := *f
				if len(s.q) > 0 {
					r = net.Rearrange(f, s.q)
				}
				o.vals = append(o.vals, r.Data()...)
			}
		case "solve", "solve stepwise":
			ps, err := net.SolvePolicies(s.kind != "solve")
			o.say("%v", err != nil)
			var names []string
			for name := range ps {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				p := ps[name]
				o.say("%q", name)
				o.policy(j.n, name, p)
			}
		case "train":
			tr := bbn.NewTrainer(net)
			for _, x := range s.samples {
				tr.AddSample(append([]int{}, x.Out...), append([]float64{}, x.Util...))
			}
			_, err := tr.UpdateNetwork()
			o.say("%v", err != nil)
			o.tables(net)
		case "serialise", "reload":
			y, err := bbn.ToYAML(net)
			o.say("%v %s", err != nil, y)
			if s.kind == "reload" && err == nil {
				net, err = bbn.FromYAML(y)
				if err != nil {
					o.say("%v", err)
					return o
				}
				o.tables(net)
			}
		case "evidence":
			var names []string
			for v := range s.ev {
				names = append(names, v)
			}
			sort.Strings(names)
			for _, v := range names {
				e, err := net.ToEvidence(v, s.ev[v])
				o.say("%v", err != nil)
				o.vals = append(o.vals, e...)
			}
		case "logic":
			f, ok := logic.Get(s.op.Name)
			if !ok {
				o.say("unknown operator")
				continue
			}
			err := f.SetArgs(s.op.Args...)
			if err != nil {
				o.say("arguments")
				continue
			}
			tab, err := f.Table(s.given)
			o.say("%v", err != nil)
			o.vals = append(o.vals, tab...)
		}
	}
	return o
}

func (j *job) String() string {
	b := &strings.Builder{}
	if j.doc != nil {
		b.Write(j.doc)
	} else {
		b.WriteString(j.n.String())
	}
	for _, s := range j.steps {
		fmt.Fprintf(b, "\n%s %v %q %v %q %s %d %s", s.kind, s.ev, s.q, s.ignore, s.util, s.op.String(), s.given, model.SamplesString(s.samples))
	}
	return b.String()
}

func genJob(t *rapid.T) *job {
	j := &job{}
	var n *model.Net
	logicNet := model.Pct(t, "logicnet", 40)
	if logicNet {
		var lg map[int]string
		n, lg = genLogicNet(t)
		j.doc = model.GenYAMLWith(t, n, lg)
	} else {
		o := decOpt()
		o.MaxChance = 4
		o.MinDec, o.MaxDec = 0, 2
		o.MinUtil, o.MaxUtil = 0, 2
		o.MaxStates = 60
		o.Exact, o.Deco = true, true
		n = model.GenNet(t, o)
		switch model.Intn(t, "source", 0, 2) {
		case 0:
			j.doc = model.GenYAML(t, n)
		case 1:
			x := model.GenXML(t, n)
			j.doc, j.xml = x.Text, true
		}
	}
	j.n = n
	if len(n.Decisions()) > 0 {
		j.steps = append(j.steps, request{kind: rapid.SampledFrom([]string{"solve", "solve stepwise"}).Draw(t, "solve")})
	}
	non := n.NonUtility()
	for k := model.Intn(t, "steps", 2, 6); k > 0; k-- {
		s := request{kind: rapid.SampledFrom([]string{"query", "query", "utility", "solve", "train", "serialise", "reload", "evidence", "logic", "logic"}).Draw(t, "kind")}
		ev := model.GenEvidence(t, n, non, 2)
		s.ev = n.Evidence(ev)
		s.q = n.Names(model.Subset(t, "q", model.Without(non, ev), 0, 2))
		switch s.kind {
		case "utility":
			us := n.Of(model.Utility)
			if len(us) == 0 {
				s.kind = "query"
			} else if u := us[model.Intn(t, "u", 0, len(us)-1)]; model.Pct(t, "named", 50) && u != n.Total {
				s.util = n.Vars[u].Name
			}
		case "train":
			s.samples = model.GenSamples(t, n, 85)
			if len(n.Decisions()) > 0 { // trained tables are not exact: ties between decisions are then arbitrary
				s.kind = "serialise"
			}
		case "reload":
			if len(n.Decisions()) > 0 {
				s.kind = "serialise"
			}
		case "logic":
			s.op, s.given = model.GenOp(t, 5)
		}
		j.steps = append(j.steps, s)
	}
	return j
}

func sameOutcome(a, b *outcome) string {
	if len(a.text) != len(b.text) {
		return fmt.Sprintf("%d and %d results:\n%s\n---\n%s", len(a.text), len(b.text), strings.Join(a.text, "\n"), strings.Join(b.text, "\n"))
	}
	for i := range a.text {
		if a.text[i] != b.text[i] {
			return fmt.Sprintf("%s\n---\n%s", a.text[i], b.text[i])
		}
	}
	if len(a.vals) != len(b.vals) {
		return fmt.Sprintf("%d and %d numbers", len(a.vals), len(b.vals))
	}
	for i := range a.vals {
		if !model.Close(b.vals[i], a.vals[i], math.Max(1, math.Abs(a.vals[i]))) {
			return fmt.Sprintf("number %d: %v and %v", i, a.vals[i], b.vals[i])
		}
	}
	return ""
}

func TestC23(t *testing.T) {
	hx.Run(t, "concurrent", 100, func(t *rapid.T, c *hx.C) {
		g := model.Intn(t, "goroutines", 2, 5)
		jobs := make([]*job, g)
		descs := make([]string, g)
		for k := range jobs {
			if k > 0 && model.Pct(t, "same", 35) { // the same document, loaded separately
				x := *jobs[model.Intn(t, "which", 0, k-1)]
				jobs[k] = &x
				if model.Pct(t, "turned", 50) {
					first := 0
					if len(x.n.Decisions()) > 0 {
						first = 1
					}
					steps := append([]request{}, x.steps...)
					if len(steps) > first+1 {
						steps = append(append(append([]request{}, steps[:first]...), steps[first+1:]...), steps[first])
					}
					for i := range steps {
						if steps[i].kind == "train" && i+1 < len(steps) {
							steps = append(append(append([]request{}, steps[:i]...), steps[i+1:]...), steps[i])
							break
						}
					}
					jobs[k].steps = steps
				}
			} else {
				jobs[k] = genJob(t)
			}
			descs[k] = jobs[k].String()
		}
		c.Case(strings.Join(descs, "\n=====\n"), true)
		c.Label("%d goroutines", g)
		alone := make([]*outcome, g)
		runAlone := func() {
			for k := range jobs {
				alone[k] = jobs[k].run()
				for _, s := range alone[k].text {
					if strings.HasPrefix(s, "panic") || strings.HasPrefix(s, "error") {
						t.Fatalf("job alone: %s\n%s", s, descs[k])
					}
				}
			}
		}
		// mostly together first: whatever is remembered between networks is then remembered concurrently
		aloneFirst := model.Pct(t, "alone first", 25)
		if aloneFirst {
			c.Label("alone first")
			runAlone()
		}
		var got [][]*outcome
		for rep := 0; rep < 4; rep++ {
			got = append(got, together(jobs))
		}
		if !aloneFirst {
			runAlone()
		}
		for rep := range got {
			for k := range jobs {
				if d := sameOutcome(alone[k], got[rep][k]); d != "" {
					t.Fatalf("used concurrently, network %d gives other results than alone: %s\n%s", k, d, strings.Join(descs, "\n=====\n"))
				}
			}
		}
	})
	// the first use of the package in a process
	hx.Run(t, "first use", 6, func(t *rapid.T, c *hx.C) {
		g := model.Intn(t, "goroutines", 2, 4)
		jobs := make([]*job, g)
		descs := make([]string, g)
		for k := range jobs {
			if k > 0 && model.Pct(t, "same", 50) {
				jobs[k] = jobs[0]
			} else {
				jobs[k] = genJob(t)
				if jobs[k].doc == nil {
					jobs[k].doc = model.GenYAML(t, jobs[k].n)
				}
			}
			descs[k] = jobs[k].String()
		}
		all := strings.Join(descs, "\n=====\n")
		c.Case(all, true)
		dir, done := scratch(t)
		defer done()
		in, err := json.Marshal(toPlain(jobs))
		if err != nil {
			t.Fatalf("INFRA: %v", err)
		}
		write(t, dir, "jobs.json", in)
		cmd := exec.Command(os.Args[0], "-test.run=^TestC23Child$", "-test.timeout=120s")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VX_CHILD="+filepath.Join(dir, "jobs.json"), "GORACE=halt_on_error=1 exitcode=66")
		out, err := cmd.CombinedOutput()
		if err != nil {
			if _, ok := err.(*exec.ExitError); !ok {
				t.Fatalf("INFRA: %v", err)
			}
			t.Fatalf("networks used concurrently in a new process: %v\n%s\n%s", err, clip(string(out)), all)
		}
		b, err := os.ReadFile(filepath.Join(dir, "jobs.json.out"))
		if err != nil {
			t.Fatalf("INFRA: %v\n%s", err, out)
		}
		var got []plainOutcome
		if err := json.Unmarshal(b, &got); err != nil || len(got) != g {
			t.Fatalf("INFRA: %v", err)
		}
		for k := range jobs {
			o := &outcome{text: got[k].Text}
			for _, v := range got[k].Vals {
				x, _ := strconv.ParseFloat(v, 64)
				o.vals = append(o.vals, x)
			}
			a := jobs[k].run()
			if d := sameOutcome(a, o); d != "" {
				t.Fatalf("used concurrently in a new process, network %d gives other results than alone: %s\n%s", k, d, all)
			}
		}
	})
}

// together runs jobs at the same time.
func together(jobs []*job) []*outcome {
	got := make([]*outcome, len(jobs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for k := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got[k] = jobs[k].run()
		}()
	}
	close(start)
	wg.Wait()
	return got
}

// plainJob is a job as it is passed to another process.
type plainJob struct {
	Doc   []byte
	XML   bool
	Net   *model.Net
	Steps []plainStep
}

type plainStep struct {
	Kind   string
	Ev     map[string]string
	Q      []string
	Ignore bool
	Util   string
	Out    [][]int
	Utils  [][]string
	Op     model.Op
	Given  int
}

type plainOutcome struct{ Text, Vals []string }

func toPlain(jobs []*job) []plainJob {
	var r []plainJob
	for _, j := range jobs {
		n := *j.n
		n.Vars = append([]model.Var{}, n.Vars...)
		for i := range n.Vars { // not needed; may hold numbers that JSON has not
			n.Vars[i].Table = nil
		}
		p := plainJob{Doc: j.doc, XML: j.xml, Net: &n}
		for _, s := range j.steps {
			q := plainStep{Kind: s.kind, Ev: s.ev, Q: s.q, Ignore: s.ignore, Util: s.util, Op: s.op, Given: s.given}
			for _, x := range s.samples {
				q.Out = append(q.Out, x.Out)
				var us []string
				for _, u := range x.Util {
					us = append(us, strconv.FormatFloat(u, 'g', -1, 64))
				}
				q.Utils = append(q.Utils, us)
			}
			p.Steps = append(p.Steps, q)
		}
		r = append(r, p)
	}
	return r
}

// TestC23Child runs jobs in a process of its own, without using anything of the package before.
func TestC23Child(t *testing.T) {
	file := os.Getenv("VX_CHILD")
	if file == "" {
		t.Skip("no jobs")
	}
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var plain []plainJob
	if err := json.Unmarshal(b, &plain); err != nil {
		t.Fatal(err)
	}
	var jobs []*job
	for _, p := range plain {
		j := &job{doc: p.Doc, xml: p.XML, n: p.Net}
		for _, s := range p.Steps {
			r := request{kind: s.Kind, ev: s.Ev, q: s.Q, ignore: s.Ignore, util: s.Util, op: s.Op, given: s.Given}
			for i := range s.Out {
				x := model.Sample{Out: s.Out[i]}
				for _, u := range s.Utils[i] {
					v, _ := strconv.ParseFloat(u, 64)
					x.Util = append(x.Util, v)
				}
				r.samples = append(r.samples, x)
			}
			j.steps = append(j.steps, r)
		}
		jobs = append(jobs, j)
	}
	var res []plainOutcome
	for _, o := range together(jobs) {
		p := plainOutcome{Text: o.text}
		for _, v := range o.vals {
			p.Vals = append(p.Vals, strconv.FormatFloat(v, 'g', -1, 64))
		}
		res = append(res, p)
	}
	b, err = json.Marshal(res)
	if err == nil {
		err = os.WriteFile(file+".out", b, 0o644)
	}
	if err != nil {
		t.Fatal(err)
	}
}
