package core

import (
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"pgregory.net/rapid"
)

// csvFile is a table of training data.
type csvFile struct {
	header []string
	rows   [][]string
}

// spell writes the table, quoting where necessary and sometimes where not.
func (f *csvFile) spell(t *rapid.T, delim rune) string {
	b := &strings.Builder{}
	eol := rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "eol")
	quoteAll := model.Pct(t, "quoteall", 15)
	plain := len(f.rows) > 200
	pct := func(label string, p int) bool { return !plain && model.Pct(t, label, p) }
	line := func(cells []string) {
		for i, c := range cells {
			if i > 0 {
				b.WriteRune(delim)
			}
			if quoteAll || strings.ContainsAny(c, "\"\r\n"+string(delim)) || len(cells) == 1 && c == "" || pct("quote", 3) {
				b.WriteString(`"` + strings.ReplaceAll(c, `"`, `""`) + `"`)
			} else {
				b.WriteString(c)
			}
		}
	}
	line(f.header)
	for _, r := range f.rows {
		b.WriteString(eol)
		if pct("blank line", 2) {
			b.WriteString(eol)
		}
		line(r)
	}
	if model.Pct(t, "last", 80) {
		b.WriteString(eol)
	}
	return b.String()
}

// genCSV spells samples with a column order, extra columns and a no-data value.
func genCSV(t *rapid.T, n *model.Net, samples []model.Sample, noData string) *csvFile {
	f := &csvFile{}
	cols := []int{}
	for i := range n.Vars {
		if i != n.Total {
			cols = append(cols, i)
		}
	}
	extra := model.Intn(t, "extra", 0, 2)
	for k := 0; k < extra; k++ {
		cols = append(cols, -1-k)
	}
	order := model.Perm(t, "columns", len(cols))
	used := map[string]bool{}
	for i := range n.Vars {
		used[n.Vars[i].Name] = true
	}
	names := map[int]string{}
	for k := 0; k < extra; k++ {
		x := "extra" + strconv.Itoa(k)
		if n.Total >= 0 && k == 0 && model.Pct(t, "totalcol", 50) {
			x = n.Vars[n.Total].Name
		} else {
			for used[x] {
				x += "_"
			}
		}
		names[-1-k] = x
	}
	for _, o := range order {
		if c := cols[o]; c < 0 {
			f.header = append(f.header, names[c])
		} else {
			f.header = append(f.header, n.Vars[c].Name)
		}
	}
	for _, s := range samples {
		var row []string
		for _, o := range order {
			c := cols[o]
			cell := noData
			switch {
			case c < 0:
				cell = rapid.SampledFrom([]string{"", "x", "1", "yes", noData, "a,b;c\td"}).Draw(t, "junk")
			case n.Vars[c].Kind == model.Utility:
				if !math.IsNaN(s.Util[c]) {
					cell = model.Number(t, s.Util[c])
					if cell == noData {
						cell += ".0"
					}
				}
			default:
				if s.Out[c] >= 0 {
					cell = n.Vars[c].Outcomes[s.Out[c]]
				}
			}
			row = append(row, cell)
		}
		f.rows = append(f.rows, row)
	}
	return f
}

func appNet(t *rapid.T) *model.Net {
	o := trainOpt()
	o.Weird, o.Deco, o.OddColors = true, true, true
	n := model.GenNet(t, o)
	if model.Pct(t, "untrained", 30) { // tables to be filled
		for i := range n.Vars {
			if i != n.Total {
				for k := range n.Vars[i].Table {
					n.Vars[i].Table[k] = 0
				}
			}
		}
	}
	return n
}

// genNoData draws a no-data value that is no outcome.
func genNoData(t *rapid.T, n *model.Net) string {
	pool := []string{"", "", "", "NA", "-", "?", "n/a", "missing", "-9999", " ", "NULL"}
	s := rapid.SampledFrom(pool).Draw(t, "nodata")
	for i := range n.Vars {
		for _, o := range n.Vars[i].Outcomes {
			if o == s {
				return "no data at all"
			}
		}
	}
	return s
}

var delims = []rune{',', ',', ';', '\t', '|', ' ', ':', '€', 'x'}

func trainArgs(t *rapid.T, net, data, noData string, delim rune) []string {
	a := []string{"train"}
	var flags [][]string
	switch {
	case noData == "" && model.Pct(t, "default nodata", 60):
	case model.Pct(t, "longn", 50):
		flags = append(flags, []string{"--no-data", noData})
	default:
		flags = append(flags, []string{"-n", noData})
	}
	switch {
	case delim == ',' && model.Pct(t, "default delim", 60):
	case model.Pct(t, "longd", 50):
		flags = append(flags, []string{"--delim=" + string(delim)})
	default:
		flags = append(flags, []string{"-d", string(delim)})
	}
	pos := []string{net, data}
	for len(flags)+len(pos) > 0 {
		if len(pos) == 0 || len(flags) > 0 && model.Pct(t, "flagfirst", 50) {
			a = append(a, flags[0]...)
			flags = flags[1:]
		} else {
			a = append(a, pos[0])
			pos = pos[1:]
		}
	}
	return a
}

// refused checks that a command ends with an error message.
var hintLine = regexp.MustCompile("(?i)^\\s*run .* for help")

func refused(t *rapid.T, so, se string, code int, ctx string) {
	if code != 1 {
		t.Fatalf("%s: exit code %d, want 1\n%s\n%s", ctx, code, clip(so), clip(se))
	}
	message := ""
	for _, l := range strings.Split(so+"\n"+se, "\n") {
		if !hintLine.MatchString(l) {
			message += strings.TrimSpace(l)
		}
	}
	if message == "" {
		t.Fatalf("%s: no error message\n%s\n%s", ctx, clip(so), clip(se))
	}
	if n, err := bbn.FromYAML([]byte(so)); err == nil && n != nil {
		t.Fatalf("%s: prints a network\n%s", ctx, clip(so))
	}
}

func TestC18(t *testing.T) {
	needTool(t, "VX_BBN")
	hx.Run(t, "train", 200, func(t *rapid.T, c *hx.C) {
		n := appNet(t)
		dir, done := scratch(t)
		defer done()
		name, text, stated := netFile(t, dir, n)
		samples := model.GenSamples(t, stated, 90)
		if len(samples) > 0 && model.Pct(t, "many", 8) {
			// long files
			c.Label("many rows")
			k, step := len(samples), model.Intn(t, "step", 1, 20)
			for m := model.Intn(t, "rows", 50, 1500); m > 0; m-- {
				samples = append(samples, samples[(m*m+m*step)%k])
			}
		}
		noData := genNoData(t, stated)
		delim := rapid.SampledFrom(delims).Draw(t, "delim")
		data := genCSV(t, stated, samples, noData).spell(t, delim)
		write(t, dir, "data.csv", []byte(data))
		args := trainArgs(t, name, "data.csv", noData, delim)
		want, ok := stated.Train(samples)
		ctx := strings.Join(args, " ") + "\n" + string(text) + "\n" + data
		c.Case(ctx, ok && edges(n) > 0)
		so, se, code := runTool(t, dir, "VX_BBN", args...)
		sameFile(t, dir, name, text)
		sameFile(t, dir, "data.csv", []byte(data))
		if es, err := os.ReadDir(dir); err != nil || len(es) != 2 {
			t.Fatalf("train leaves %d files, want 2 (%v)\n%s", len(es), err, ctx)
		}
		if !ok {
			c.Label("row without samples")
			refused(t, so, se, code, "a row without samples: "+ctx)
			return
		}
		if code != 0 {
			t.Fatalf("train fails with exit code %d\n%s\n%s\n%s", code, clip(so), clip(se), ctx)
		}
		got, err := bbn.FromYAML([]byte(so))
		if err != nil {
			t.Fatalf("what train prints can't be loaded: %v\n%s\n%s", err, clip(so), ctx)
		}
		c.Label("trained")
		checkTrained(t, want, got, samples, ctx)
		if got.Name() != stated.Name || got.Info() != stated.Info || got.TotalUtilityIndex() != stated.Total {
			t.Fatalf("train changes name %q, info %q or total utility\n%s", got.Name(), got.Info(), ctx)
		}
		for i, v := range got.Variables() {
			if m := &stated.Vars[i]; v.Position != m.Pos || v.Color != m.Color {
				t.Fatalf("train changes %q: position %v, color %q\n%s", v.Name, v.Position, v.Color, ctx)
			}
		}
	})
	hx.Run(t, "long files", 2, func(t *rapid.T, c *hx.C) {
		// the same rows again and again, then others: nothing is lost at the end
		n := appNet(t)
		dir, done := scratch(t)
		defer done()
		name, text, stated := netFile(t, dir, n)
		first, more := model.GenSamples(t, stated, 90), model.GenSamples(t, stated, 90)
		if len(first) == 0 || len(more) == 0 {
			return
		}
		times := []int{2500, 5000, 20000, 40000, 70000}[model.Intn(t, "rows", 0, 4)]/len(first) + 1
		spell := func(samples []model.Sample) (header, rows string) {
			b := &strings.Builder{}
			w := csv.NewWriter(b)
			h := []string{}
			for i := range stated.Vars {
				h = append(h, stated.Vars[i].Name)
			}
			if err := w.Write(h); err != nil {
				t.Fatalf("INFRA: %v", err)
			}
			w.Flush()
			at := b.Len()
			for _, s := range samples {
				r := []string{}
				for i := range stated.Vars {
					switch v := &stated.Vars[i]; {
					case v.Kind == model.Utility && !math.IsNaN(s.Util[i]):
						r = append(r, strconv.FormatFloat(s.Util[i], 'g', -1, 64))
					case v.Kind != model.Utility && s.Out[i] >= 0:
						r = append(r, v.Outcomes[s.Out[i]])
					default:
						r = append(r, "no data at all")
					}
				}
				if err := w.Write(r); err != nil {
					t.Fatalf("INFRA: %v", err)
				}
			}
			w.Flush()
			return b.String()[:at], b.String()[at:]
		}
		header, a := spell(first)
		_, b := spell(more)
		write(t, dir, "data.csv", []byte(header+strings.Repeat(a, times)+strings.Repeat(b, times)))
		samples := []model.Sample{}
		for k := 0; k < times; k++ {
			samples = append(samples, first...)
		}
		for k := 0; k < times; k++ {
			samples = append(samples, more...)
		}
		want, ok := stated.Train(samples)
		ctx := fmt.Sprintf("%d times\n%s\n%s\nthen\n%s", times, text, clip(a), clip(b))
		c.Case(ctx, ok)
		so, se, code := runTool(t, dir, "VX_BBN", "train", name, "data.csv", "-n", "no data at all")
		if !ok {
			refused(t, so, se, code, "a row without samples: "+ctx)
			return
		}
		if code != 0 {
			t.Fatalf("train fails with exit code %d\n%s\n%s\n%s", code, clip(so), clip(se), ctx)
		}
		got, err := bbn.FromYAML([]byte(so))
		if err != nil {
			t.Fatalf("what train prints can't be loaded: %v\n%s\n%s", err, clip(so), ctx)
		}
		checkTrained(t, want, got, samples, ctx)
	})
	hx.Run(t, "errors", 120, func(t *rapid.T, c *hx.C) {
		n := appNet(t)
		dir, done := scratch(t)
		defer done()
		name, text, stated := netFile(t, dir, n)
		kinds := []string{"no column", "unknown outcome", "utility", "no-data outcome", "no network", "no data file", "no header", "ragged", "delimiter", "arguments", "network", "flag", "data directory", "no rows", "empty value", "empty outcome", "quotes"}
		kind := rapid.SampledFrom(kinds).Draw(t, "kind")
		b := breakTraining(t, dir, kind, name, "data.csv", text, stated)
		if b == nil {
			return
		}
		write(t, dir, "data.csv", []byte(b.data))
		ctx := kind + ": " + strings.Join(b.args, " ") + "\n" + string(b.text) + "\n" + b.data
		if kind == "no rows" {
			if _, ok := stated.Train(nil); ok {
				return
			}
		}
		c.Case(ctx, true)
		c.Label("%s", kind)
		so, se, code := runTool(t, dir, "VX_BBN", b.args...)
		refused(t, so, se, code, ctx)
	})
}

// broken is a call that asks for training from something unusable.
type broken struct {
	args []string // of bbn
	data string   // of the training file
	text []byte   // of the network file
}

// breakTraining makes valid training data and a command line for it, and
// breaks one of them. The argument file stands for the training data.
func breakTraining(t *rapid.T, dir, kind, name, file string, text []byte, stated *model.Net) *broken {
	samples := model.GenSamples(t, stated, 100)
	if kind == "uncovered" {
		samples = samples[:model.Intn(t, "covered", 0, len(samples))]
		if _, ok := stated.Train(samples); ok {
			return nil
		}
	}
	noData := genNoData(t, stated)
	delim := rapid.SampledFrom(delims[:5]).Draw(t, "delim")
	f := genCSV(t, stated, samples, noData)
	args := trainArgs(t, name, file, noData, delim)
	data := ""
	pick := func(ks ...model.Kind) int {
		var xs []int
		for i := range stated.Vars {
			for _, k := range ks {
				if stated.Vars[i].Kind == k && i != stated.Total {
					xs = append(xs, i)
				}
			}
		}
		if len(xs) == 0 {
			return -1
		}
		return xs[model.Intn(t, "pick", 0, len(xs)-1)]
	}
	col := func(i int) int {
		for k, h := range f.header {
			if h == stated.Vars[i].Name {
				return k
			}
		}
		t.Fatalf("INFRA: no column")
		return -1
	}
	row := func() []string { return f.rows[model.Intn(t, "row", 0, len(f.rows)-1)] }
	switch kind {
	case "no column":
		i := pick(model.Chance, model.Decision, model.Utility)
		x := stated.Vars[i].Name
		to := rapid.SampledFrom([]string{"missing column", x + " ", strings.ToUpper(x) + "_", x + "x"}).Draw(t, "renamed")
		if stated.Index(to) >= 0 {
			to = "missing column"
		}
		f.header[col(i)] = to
	case "unknown outcome":
		i := pick(model.Chance, model.Decision)
		o := stated.Vars[i].Outcomes[0]
		to := rapid.SampledFrom([]string{"unknown", o + " ", o + "x", strings.ToUpper(o) + "?", "0", "-1", " "}).Draw(t, "to")
		for _, o := range stated.Vars[i].Outcomes {
			if o == to {
				to = "unknown outcome"
			}
		}
		if to == noData {
			to = "unknown outcome"
		}
		if len(f.rows) == 0 {
			return nil
		}
		row()[col(i)] = to
	case "utility":
		i := pick(model.Utility)
		if i < 0 || len(f.rows) == 0 {
			return nil
		}
		to := rapid.SampledFrom([]string{"abc", "1,5", "1 2", "--1", "1.2.3", "e", "5€", " 1", "yes"}).Draw(t, "to")
		if to == noData {
			to = "abc"
		}
		row()[col(i)] = to
	case "no-data outcome":
		i := pick(model.Chance)
		os := stated.Vars[i].Outcomes
		noData = os[model.Intn(t, "outcome", 0, len(os)-1)]
		args = []string{"train", name, file, "--no-data=" + noData, "--delim=" + string(delim)}
	case "empty value": // is not the no-data value
		i := pick(model.Chance, model.Decision, model.Utility)
		if noData == "" || len(f.rows) == 0 || len(f.header) < 2 || slices.Contains(stated.Vars[i].Outcomes, "") {
			return nil
		}
		row()[col(i)] = ""
	case "empty outcome": // is the default no-data value
		i := pick(model.Chance, model.Decision)
		if slices.Contains(stated.Vars[i].Outcomes, "") {
			return nil
		}
		os := append([]string{}, stated.Vars[i].Outcomes...)
		os[model.Intn(t, "outcome", 0, len(os)-1)] = ""
		stated.Vars[i].Outcomes = os
		text = model.GenYAML(t, stated)
		name = "empty.yml"
		write(t, dir, name, text)
		args = []string{"train", name, file, "--delim=" + string(delim)}
	case "no network":
		args = []string{"train", "other" + name, file, "-d", string(delim), "-n", noData}
	case "no data file":
		args = []string{"train", name, "other.csv", "-d", string(delim), "-n", noData}
	case "no header":
		f.header, f.rows = nil, nil
	case "ragged":
		if len(f.rows) == 0 {
			return nil
		}
		k := model.Intn(t, "row", 0, len(f.rows)-1)
		if len(f.rows[k]) > 1 && model.Pct(t, "short", 50) {
			f.rows[k] = f.rows[k][:len(f.rows[k])-1]
		} else {
			f.rows[k] = append(append([]string{}, f.rows[k]...), "x")
		}
	case "delimiter":
		args = []string{"train", name, file, "-n", noData, "--delim=" + rapid.SampledFrom([]string{"", ",,", "ab", "\n", "\""}).Draw(t, "bad delim")}
	case "arguments":
		args = rapid.SampledFrom([][]string{{"train"}, {"train", name}, {"train", name, file, file}, {"train", "", ""}, {"trian", name, file}}).Draw(t, "args")
	case "network":
		write(t, dir, name, []byte(rapid.SampledFrom([]string{"", "x", "<BIF>", "variables: [{variable: A}]", string(text[:len(text)/2]) + "\n\x00{[<"}).Draw(t, "broken")))
	case "flag":
		args = append(args, rapid.SampledFrom([]string{"--unknown", "-x", "--no-datum=1"}).Draw(t, "flag"))
	case "data directory":
		args = []string{"train", name, ".", "-d", string(delim), "-n", noData}
	case "no rows":
		f.rows = nil
	}
	if f.header != nil || kind != "no header" {
		data = f.spell(t, delim)
	}
	if kind == "quotes" {
		data = strings.TrimRight(data, "\r\n") + rapid.SampledFrom([]string{"\"", "x\"y\"", " \"\""}).Draw(t, "quote") + "\n"
	}
	return &broken{args, data, text}
}
