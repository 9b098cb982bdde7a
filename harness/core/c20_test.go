package core

import (
	"strings"
	"testing"

	"verif/hx"
	"verif/model"

	"pgregory.net/rapid"
)

func TestC20(t *testing.T) {
	needTool(t, "VX_BBNI")
	kinds := strings.Fields("enter enter enter left left left left space space digit digit tab tab backtab policies policies right table help info scroll scroll scroll move other")
	scrolling := strings.Fields("scroll scroll scroll scroll left left left left left left right tab enter table")
	session := func(t *rapid.T, c *hx.C, large bool) {
		n := tuiNet(t)
		kinds := kinds
		if large {
			kinds = scrolling
			mx, my := 120, 40
			if model.Pct(t, "larger", 40) {
				mx, my = 240, 90
			}
			for i := range n.Vars {
				n.Vars[i].Pos = [2]int{model.Intn(t, "x", 0, mx), model.Intn(t, "y", 0, my)}
			}
		}
		dir, done := scratch(t)
		defer done()
		name, text, stated := netFile(t, dir, n)
		ev := map[int]int{}
		if model.Pct(t, "initial", 40) {
			ev = model.GenEvidence(t, stated, evidencePool(stated), 2)
		}
		w, h := screenSize(t, n)
		if large {
			w, h = 80, 25
		}
		s := startTUI(t, dir, w, h, append([]string{name}, evArgs(t, stated, ev)...)...)
		defer s.kill()
		m := newTUIModel(stated, ev, true)
		if !m.sure {
			return
		}
		seen := map[string]bool{}
		steps := model.Intn(t, "steps", 1, 25)
		for k := 0; k <= steps; k++ {
			if k > 0 {
				kind := m.step(t, s, kinds)
				if !seen[kind] {
					seen[kind] = true
					c.Label("%s", kind)
				}
			}
			p := s.picture()
			if p == nil {
				t.Fatalf("the application ends with exit code %d after %v:\n%s\n%s\n%s", s.code, s.events, s.stdout.String(), s.stderr.String(), text)
			}
			if err := m.check(s, p); err != nil {
				t.Fatalf("%v\nafter %v, evidence %v:\n%s\n%s", err, s.events, m.ev, p, text)
			}
			if m.open == noDialog && len(m.ev) > 0 {
				if len(n.Decisions()) > 0 {
					seen["decisions"] = true
				}
			}
		}
		c.Case(strings.Join(s.events, " ")+"\n"+string(text), len(seen) >= 3)
		seen["click while scrolled"] = m.clicked
		for _, l := range []string{"decisions", "click while scrolled"} {
			if seen[l] {
				c.Label("%s", l)
			}
		}
	}
	hx.Run(t, "sessions", 80, func(t *rapid.T, c *hx.C) { session(t, c, false) })
	hx.Run(t, "scrolled", 25, func(t *rapid.T, c *hx.C) { session(t, c, true) })
}
