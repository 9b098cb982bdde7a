package core

import (
	"fmt"
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"pgregory.net/rapid"
)

func TestC21(t *testing.T) {
	needTool(t, "VX_BBNI")
	kinds := strings.Fields("table table table table right right right enter left space tab tab tab backtab policies move help")
	hx.Run(t, "tables", 100, func(t *rapid.T, c *hx.C) {
		n := tableNet(t)
		dir, done := scratch(t)
		defer done()
		name, text, stated := netFile(t, dir, n)
		lines := 0
		for i := range stated.Vars {
			lines = max(lines, stated.Rows(i))
		}
		w, h := screenSize(t, n)
		h = max(h, lines+10)
		args := []string{name}
		exact := true
		data := ""
		if model.Pct(t, "train", 25) {
			samples := model.GenSamples(t, stated, 100)
			noData := genNoData(t, stated)
			trained, ok := stated.Train(samples)
			if ok {
				data = genCSV(t, stated, samples, noData).spell(t, ';')
				write(t, dir, "data.csv", []byte(data))
				args = append(args, "-t", "data.csv", "-n", noData, "-d", ";")
				stated, exact = trained, false
				c.Label("trained")
			}
		}
		m := newTUIModel(stated, nil, exact)
		if !m.sure {
			c.Label("rounding could decide a tie: not compared")
			return
		}
		s := startTUI(t, dir, w, h, args...)
		defer s.kill()
		steps := model.Intn(t, "steps", 8, 28)
		tables := map[int]bool{}
		for k := 0; k <= steps; k++ {
			if k > 0 {
				m.step(t, s, kinds)
			}
			p := s.picture()
			if p == nil {
				t.Fatalf("the application ends with exit code %d after %v:\n%s\n%s\n%s", s.code, s.events, s.stdout.String(), s.stderr.String(), text)
			}
			if err := m.check(s, p); err != nil {
				t.Fatalf("%v\nafter %v, evidence %v:\n%s\n%s", err, s.events, m.ev, p, text)
			}
			if m.open != tableDialog {
				continue
			}
			if err := m.checkTable(s); err != nil {
				t.Fatalf("%v\nafter %v:\n%s\n%s\n%s", err, s.events, s.last, text, data)
			}
			tables[m.sel] = true
			s.key(keyEsc, 0)
			m.open = noDialog
		}
		c.Case(strings.Join(s.events, " ")+"\n"+string(text)+"\n"+data, len(tables) >= 2)
		for i := range tables {
			switch {
			case i == stated.Total:
				c.Label("table of total utility")
			default:
				c.Label("table of %v with %d parents", stated.Vars[i].Kind, len(stated.Vars[i].Parents))
			}
		}
	})
}

// tableNet is a network for table views: names of variables are no outcomes, as that would make headers ambiguous.
func tableNet(t *rapid.T) *model.Net {
	n := tuiNetWith(t, 25)
	for i := range n.Vars {
		if len(n.Vars[i].Name) > 20 {
			n.Vars[i].Name = fmt.Sprintf("long name %d", i)
		}
	}
	for i := range n.Vars {
		v := &n.Vars[i]
		for k, o := range v.Outcomes {
			if n.Index(o) >= 0 {
				v.Outcomes[k] = o + "."
			}
		}
		seen := map[string]bool{}
		for k, o := range v.Outcomes {
			for seen[o] {
				o += "_"
			}
			seen[o] = true
			v.Outcomes[k] = o
		}
	}
	return n
}
