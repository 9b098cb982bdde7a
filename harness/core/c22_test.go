package core

import (
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"github.com/mlange-42/bbn"
	"pgregory.net/rapid"
)

func TestC22(t *testing.T) {
	needTool(t, "VX_BBNI")
	// moving and saving
	hx.Run(t, "move-save", 60, func(t *rapid.T, c *hx.C) {
		kinds := strings.Fields("move move move move move move save save tab tab backtab left left right scroll enter policies policies help other")
		n := tuiNet(t)
		if model.Pct(t, "negative", 10) {
			for i := range n.Vars {
				if model.Pct(t, "negative?", 40) {
					n.Vars[i].Pos[model.Intn(t, "axis", 0, 1)] = -model.Intn(t, "minus", 1, 20)
				}
			}
		}
		dir, done := scratch(t)
		defer done()
		name, text, stated := netFile(t, dir, n)
		args := []string{name}
		files := map[string][]byte{name: text}
		exact := true
		if model.Pct(t, "train", 40) {
			samples := model.GenSamples(t, stated, 100)
			noData := genNoData(t, stated)
			delim := rapid.SampledFrom(delims).Draw(t, "delim")
			if trained, ok := stated.Train(samples); ok {
				files["data.csv"] = []byte(genCSV(t, stated, samples, noData).spell(t, delim))
				write(t, dir, "data.csv", files["data.csv"])
				args = trainArgs(t, name, "-tdata.csv", noData, delim)[1:]
				stated, exact = trained, false
				c.Label("trained")
			}
		}
		w, h := screenSize(t, n)
		ev := map[int]int{}
		if model.Pct(t, "initial", 30) {
			ev = model.GenEvidence(t, stated, evidencePool(stated), 2)
			args = append(args, evArgs(t, stated, ev)...)
		}
		ctx := strings.Join(args, " ") + "\n" + string(text) + "\n" + string(files["data.csv"])
		m := newTUIModel(stated, ev, exact)
		if !m.sure {
			c.Label("rounding could decide a tie: not compared")
			return
		}
		for i := range m.pos { // what is beyond the border is shown at the border
			for k := range m.pos[i] {
				if m.pos[i][k] < 0 {
					c.Label("negative position")
					m.pos[i][k] = 0
				}
			}
		}
		moved := make([]bool, len(m.pos))
		s := startTUI(t, dir, w, h, args...)
		defer s.kill()
		steps := model.Intn(t, "steps", 3, 25)
		saves, moves := 0, 0
		saved := strings.TrimSuffix(name, filepath.Ext(name)) + "-save.yml"
		if model.Pct(t, "saved before", 25) { // is overwritten
			files[saved] = []byte(strings.Repeat("# saved before\n", model.Intn(t, "lines", 0, 500)))
			write(t, dir, saved, files[saved])
		}
		for k := 0; k <= steps; k++ {
			kind := ""
			if k > 0 {
				before := m.pos[m.sel]
				kind = m.step(t, s, kinds)
				if kind == "move" && m.pos[m.sel] != before {
					moved[m.sel] = true
					moves++
				}
			}
			p := s.picture()
			if p == nil {
				t.Fatalf("the application ends with exit code %d after %v:\n%s\n%s\n%s", s.code, s.events, s.stdout.String(), s.stderr.String(), ctx)
			}
			if err := m.check(s, p); err != nil {
				t.Fatalf("%v\nafter %v, evidence %v:\n%s\n%s", err, s.events, m.ev, p, ctx)
			}
			if kind == "save" {
				saves++
				b, err := os.ReadFile(filepath.Join(dir, saved))
				if err != nil {
					t.Fatalf("no file is saved: %v\n%s", err, ctx)
				}
				checkSaved(t, m, moved, b, s.events, ctx)
				files[saved] = b
			}
		}
		c.Case(strings.Join(s.events, " ")+"\n"+ctx, moves > 0 && saves > 0)
		if m.open != noDialog {
			s.key(keyEsc, 0)
		}
		s.key(keyEsc, 0)
		if p := s.picture(); p != nil || s.code != 0 {
			t.Fatalf("the application does not quit properly, exit code %d, after %v\n%s\n%s", s.code, s.events, s.stderr.String(), ctx)
		}
		var es []string
		err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				es = append(es, p)
			}
			return err
		})
		if err != nil || len(es) != len(files) {
			t.Fatalf("%v files are left (%v), want %d\n%s", es, err, len(files), ctx)
		}
		for f, b := range files {
			sameFile(t, dir, f, b)
		}
	})
	// any keys and clicks
	hx.Run(t, "crash", 40, func(t *rapid.T, c *hx.C) {
		n := tuiNet(t)
		if model.Pct(t, "weird", 40) {
			o := inferOpt()
			o.MaxStates = 120
			n = model.GenNet(t, o)
		}
		dir, done := scratch(t)
		defer done()
		name, text, _ := netFile(t, dir, n)
		w, h := model.Intn(t, "w", 1, 120), model.Intn(t, "h", 1, 60)
		s := startTUI(t, dir, w, h, name)
		defer s.kill()
		steps := model.Intn(t, "steps", 1, 60)
		quit := false
		for k := 0; k < steps; k++ {
			switch model.Intn(t, "kind", 0, 9) {
			case 0, 1, 2, 3:
				s.key(keyRune, rapid.SampledFrom([]rune("0123456789 htipwasdjklgGx٣१²é中🙂\x00")).Draw(t, "rune"))
			case 4, 5, 6:
				s.key(rapid.SampledFrom([]int{keyUp, keyDown, keyRight, keyLeft, keyPgUp, keyPgDn, keyHome, keyEnd, keyBacktab, keyTab, keyEnter, keyCtrlS}).Draw(t, "key"), 0)
			case 7:
				if model.Pct(t, "esc", 25) {
					s.key(keyEsc, 0) // may quit
					quit = true
				}
			default:
				s.click(model.Intn(t, "x", 0, w-1), model.Intn(t, "y", 0, h-1), rapid.SampledFrom([]int{buttonLeft, buttonLeft, buttonRight, 4, 256, 512, 1024, 3}).Draw(t, "button"))
			}
		}
		p := s.picture()
		if p == nil && (!quit || s.code != 0) {
			t.Fatalf("the application ends with exit code %d after %v:\n%s\n%s\n%s", s.code, s.events, s.stdout.String(), s.stderr.String(), text)
		}
		sameFile(t, dir, name, text)
		c.Case(strings.Join(s.events, " ")+"\n"+string(text), steps >= 10)
		if p == nil {
			c.Label("quits")
		}
	})
	// what can't be shown is refused
	hx.Run(t, "refused", 60, func(t *rapid.T, c *hx.C) {
		n := tuiNet(t)
		dir, done := scratch(t)
		defer done()
		name := "net.yml"
		kind := rapid.SampledFrom([]string{"color", "no variables", "evidence", "no file", "syntax", "training file", "training data", "training data", "training data", "training data", "delimiter", "arguments"}).Draw(t, "kind")
		args, extra := []string{name}, ""
		text := model.GenYAML(t, n)
		switch kind {
		case "color":
			n.Vars[0].Color = rapid.SampledFrom([]string{"pink", "Red", "#ff0000", "1"}).Draw(t, "color")
			text = model.GenYAML(t, n)
		case "no variables":
			text = []byte(rapid.SampledFrom([]string{"name: x\nvariables: []\n", "name: x\n"}).Draw(t, "empty"))
		case "evidence":
			args = append(args, "-e", rapid.SampledFrom([]string{"nothing=yes", "a=b=c", "x", n.Vars[n.NonUtility()[0]].Name + "=none such"}).Draw(t, "evidence"))
		case "no file":
			args[0] = "other.yml"
		case "syntax":
			text = append([]byte("{[\n"), text...)
		case "training file":
			args = append(args, "-t", "other.csv")
		case "training data":
			write(t, dir, name, text)
			what := rapid.SampledFrom([]string{"no column", "unknown outcome", "utility", "no-data outcome", "no header", "ragged", "delimiter", "no rows", "empty value", "empty outcome", "quotes", "flag", "uncovered"}).Draw(t, "what")
			b := breakTraining(t, dir, what, name, "-tdata.csv", text, n)
			if b == nil {
				return
			}
			if _, ok := n.Train(nil); ok && what == "no rows" {
				return
			}
			write(t, dir, "data.csv", []byte(b.data))
			args, text = b.args[1:], b.text
			c.Label("training data: %s", what)
			extra = "\n" + b.data
		case "delimiter":
			args = append(args, "--delim="+rapid.SampledFrom([]string{"", ",,"}).Draw(t, "bad delim"))
		case "arguments":
			args = rapid.SampledFrom([][]string{{}, {name, name}, {name, "--unknown"}}).Draw(t, "args")
		}
		write(t, dir, name, text)
		ctx := kind + ": " + strings.Join(args, " ") + "\n" + string(text) + extra
		c.Case(ctx, true)
		c.Label("%s", kind)
		s := startTUI(t, dir, 80, 25, args...)
		defer s.kill()
		if p := s.picture(); p != nil {
			t.Fatalf("the application starts, want an error: %s\n%s", ctx, p)
		}
		refused(t, s.stdout.String(), s.stderr.String(), s.code, ctx)
	})
}

// checkSaved compares a saved file with the network and the positions of the session.
func checkSaved(t *rapid.T, m *tuiModel, moved []bool, file []byte, events []string, ctx string) {
	got, err := bbn.FromYAML(file)
	if err != nil {
		t.Fatalf("the saved file can't be loaded: %v\nafter %v\n%s\n%s", err, events, clip(string(file)), ctx)
	}
	checkTrained(t, m.n, got, nil, ctx)
	if got.Name() != m.n.Name || got.Info() != m.n.Info || got.TotalUtilityIndex() != m.n.Total {
		t.Fatalf("name %q, info %q or total utility is saved\n%s", got.Name(), got.Info(), ctx)
	}
	for i, v := range got.Variables() {
		pos := m.n.Vars[i].Pos
		ok := v.Position == m.pos[i] || !moved[i] && (v.Position == pos || pos[0] < 0 || pos[1] < 0)
		if !ok || v.Color != m.n.Vars[i].Color {
			t.Fatalf("node %q is saved with position %v and color %q, want %v and %q\nafter %v\n%s", v.Name, v.Position, v.Color, m.pos[i], m.n.Vars[i].Color, events, ctx)
		}
	}
}
