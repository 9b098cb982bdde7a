package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"verif/model"

	"pgregory.net/rapid"
)

// keys of the terminal library
const (
	keyRune    = 256
	keyUp      = 257
	keyDown    = 258
	keyRight   = 259
	keyLeft    = 260
	keyPgUp    = 266
	keyPgDn    = 267
	keyHome    = 268
	keyEnd     = 269
	keyBacktab = 278
	keyTab     = 9
	keyEnter   = 13
	keyCtrlS   = 19
	keyEsc     = 27

	buttonLeft  = 1
	buttonRight = 2
)

// picture is the screen after an event.
type picture struct {
	rows   [][]rune
	colors [][]byte
}

func (p *picture) String() string {
	b := &strings.Builder{}
	for _, r := range p.rows {
		b.WriteString(strings.TrimRight(string(r), " "))
		b.WriteByte('\n')
	}
	return b.String()
}

func (p *picture) has(s string) bool { return strings.Contains(p.String(), s) }

// session is a running bbni with a screen in memory.
type session struct {
	t      *rapid.T
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	outF   *os.File
	stdout bytes.Buffer
	stderr bytes.Buffer
	timer  *time.Timer
	w, h   int
	ended  bool
	code   int
	events []string
	last   *picture
}

// startTUI starts the application. The caller has to call kill.
func startTUI(t *rapid.T, dir string, w, h int, args ...string) *session {
	bin := os.Getenv("VX_BBNI")
	if bin == "" {
		t.Fatalf("INFRA: VX_BBNI is not set")
	}
	s := &session{t: t, w: w, h: h}
	s.cmd = exec.Command(bin, args...)
	s.cmd.Dir = dir
	s.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	s.cmd.Stdout, s.cmd.Stderr = &s.stdout, &s.stderr
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	r, wr, err := os.Pipe()
	if err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	s.outF = r
	s.cmd.ExtraFiles = []*os.File{wr}
	if err = s.cmd.Start(); err != nil {
		t.Fatalf("INFRA: %v", err)
	}
	wr.Close()
	s.timer = time.AfterFunc(240*time.Second, func() { s.cmd.Process.Kill() })
	s.out = bufio.NewReaderSize(r, 1<<18)
	s.send(map[string]any{"t": "size", "w": w, "h": h})
	return s
}

func (s *session) send(m map[string]any) {
	b, err := json.Marshal(m)
	if err != nil {
		s.t.Fatalf("INFRA: %v", err)
	}
	s.in.Write(append(b, '\n')) // fails if the process has ended; that is noticed when the picture is asked for
}

func (s *session) key(k int, r rune) {
	if k == keyRune {
		s.events = append(s.events, fmt.Sprintf("%q", r))
	} else {
		s.events = append(s.events, map[int]string{keyUp: "Up", keyDown: "Down", keyRight: "Right", keyLeft: "Left", keyPgUp: "PgUp", keyPgDn: "PgDn", keyHome: "Home", keyEnd: "End", keyBacktab: "Backtab", keyTab: "Tab", keyEnter: "Enter", keyCtrlS: "Ctrl+S", keyEsc: "Esc"}[k])
		r = 0
	}
	s.send(map[string]any{"t": "key", "k": k, "r": r})
}

func (s *session) click(x, y, button int) {
	s.events = append(s.events, fmt.Sprintf("click%d(%d,%d)", button, x, y))
	s.send(map[string]any{"t": "mouse", "x": x, "y": y, "b": button})
	s.send(map[string]any{"t": "mouse", "x": x, "y": y, "b": 0})
}

// picture waits until all events are handled and gives the screen; nil if the application has ended.
func (s *session) picture() *picture {
	s.send(map[string]any{"t": "snap"})
	line, err := s.out.ReadBytes('\n')
	if err != nil {
		s.wait()
		return nil
	}
	var m struct{ Rows, Colors []string }
	if json.Unmarshal(line, &m) != nil || len(m.Rows) != s.h || len(m.Colors) != s.h {
		s.t.Fatalf("INFRA: bad picture %q", clip(string(line)))
	}
	p := &picture{}
	for i := range m.Rows {
		p.rows = append(p.rows, []rune(m.Rows[i]))
		p.colors = append(p.colors, []byte(m.Colors[i]))
		if len(p.rows[i]) != s.w || len(p.colors[i]) != s.w {
			s.t.Fatalf("INFRA: bad picture line %q", m.Rows[i])
		}
	}
	s.last = p
	return p
}

// wait waits for the end and notes the exit code. Anything but 0 and 1 is a crash.
func (s *session) wait() {
	if s.ended {
		return
	}
	s.ended = true
	s.in.Close()
	err := s.cmd.Wait()
	if !s.timer.Stop() {
		s.t.Fatalf("the application hangs after %v", s.events)
	}
	var ee *exec.ExitError
	switch {
	case errors.As(err, &ee):
		s.code = ee.ExitCode()
	case err != nil:
		s.t.Fatalf("INFRA: %v", err)
	}
	if s.code == 77 {
		s.t.Fatalf("INFRA: the bridge fails: %s", clip(s.stderr.String()))
	}
	if s.code != 0 && s.code != 1 {
		s.t.Fatalf("the application crashes with exit code %d after %v:\n%s\n%s", s.code, s.events, clip(s.stdout.String()), clip(s.stderr.String()))
	}
}

// kill ends the session and frees what it holds.
func (s *session) kill() {
	s.timer.Stop()
	if !s.ended {
		s.ended = true
		s.cmd.Process.Kill()
		s.in.Close()
		s.cmd.Wait()
	}
	s.outF.Close()
}

// ---------------------------------------------------------------- the model of a session

type dialog int

const (
	noDialog dialog = iota
	tableDialog
	helpDialog
	infoDialog
)

// tuiModel is what the session has to show.
type tuiModel struct {
	n        *model.Net
	pol      map[int]model.Policy
	ev       map[int]int
	sel      int
	state    int
	ignore   bool
	pos      [][2]int
	open     dialog
	offX     int
	offY     int
	offOK    bool // the scroll position is known for sure
	maxW     int  // largest extent so far
	maxH     int
	scrolled bool // some table was scrolled
	clicked  bool // there was a click at a scrolled position
	want     []shown
	dirty    bool
	sure     bool // the policies are certain
}

func newTUIModel(n *model.Net, ev map[int]int, exact bool) *tuiModel {
	pol, sure := n.Solved(exact)
	m := &tuiModel{n: n, pol: pol, sure: sure, ev: map[int]int{}, offOK: true, dirty: true}
	for k, v := range ev {
		m.ev[k] = v
	}
	for i := range n.Vars {
		m.pos = append(m.pos, n.Vars[i].Pos)
	}
	if n.Info != "" {
		m.open = infoDialog
	}
	return m
}

func (m *tuiModel) values() []shown {
	if m.dirty {
		pol := map[int]model.Policy{}
		for d, p := range m.pol {
			if _, given := m.ev[d]; !(given && m.ignore) {
				pol[d] = p
			}
		}
		m.want = display(m.n, m.ev, pol)
		m.dirty = false
	}
	return m.want
}

func (m *tuiModel) selectNode(i int) {
	if i != m.sel {
		m.state = 0
	}
	m.sel = i
}

func (m *tuiModel) toggle() {
	if m.n.Vars[m.sel].Kind == model.Utility {
		return
	}
	if o, ok := m.ev[m.sel]; ok && o == m.state {
		delete(m.ev, m.sel)
	} else {
		m.ev[m.sel] = m.state
	}
	m.dirty = true
}

const maxLabel, maxTitle = 16, 48

// size of the box of a node, and the column where its bars begin.
func (m *tuiModel) size(i int) (w, h, bars int) {
	v := &m.n.Vars[i]
	l := 0
	for _, o := range v.Outcomes {
		l = max(l, len([]rune(o)))
	}
	l = min(l, maxLabel)
	b, x := 10, 0
	if v.Kind == model.Utility {
		b, x = 5, 1
	}
	return max(l+b+9, min(len([]rune(v.Name)), maxTitle)) + 4, len(v.Outcomes) + 3 + x, l + 3
}

func (m *tuiModel) extent() (int, int) {
	w, h := 1, 1
	for i := range m.n.Vars {
		bw, bh, _ := m.size(i)
		w, h = max(w, m.pos[i][0]+bw), max(h, m.pos[i][1]+bh)
	}
	return w, h
}

// at lists the nodes whose box covers a cell of the canvas.
func (m *tuiModel) at(x, y int) []int {
	var r []int
	for i := range m.n.Vars {
		w, h, _ := m.size(i)
		if x >= m.pos[i][0] && x < m.pos[i][0]+w && y >= m.pos[i][1] && y < m.pos[i][1]+h {
			r = append(r, i)
		}
	}
	return r
}

type tcell struct {
	owner int // box that is visible here, or -1
	any   bool
	r     rune
	alts  string // other characters where rounding decides
	edges string // outside of boxes: what lines may show here
	gap   bool   // there may also be no line
}

type tfield struct {
	node, x, y, w int
	want, scale   float64
}

// canvas is the expected drawing. Numbers are left out; they are the fields.
func (m *tuiModel) canvas() ([][]tcell, []tfield) {
	w, h := m.extent()
	m.maxW, m.maxH = max(m.maxW, w), max(m.maxH, h)
	c := make([][]tcell, h)
	for y := range c {
		c[y] = make([]tcell, w)
		for x := range c[y] {
			c[y][x] = tcell{owner: -1, gap: true}
		}
	}
	for i := range m.n.Vars {
		for _, p := range m.n.Vars[i].Parents {
			// a decision may be shown with those observations only that matter
			m.edge(c, p, i, m.n.Vars[i].Kind == model.Decision)
		}
	}
	var fields []tfield
	vals := m.values()
	for i := range m.n.Vars {
		v := &m.n.Vars[i]
		w, h, bars := m.size(i)
		x0, y0 := m.pos[i][0], m.pos[i][1]
		put := func(x, y int, r rune) { c[y0+y][x0+x] = tcell{owner: i, r: r} }
		wild := func(x, y int) { c[y0+y][x0+x] = tcell{owner: i, any: true} }
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				put(x, y, ' ')
			}
		}
		line := []rune("┌┐└┘─│")
		if i == m.sel {
			line = []rune("╔╗╚╝═║")
		}
		for x := 1; x < w-1; x++ {
			put(x, 0, line[4])
			put(x, h-1, line[4])
		}
		for y := 1; y < h-1; y++ {
			put(0, y, line[5])
			put(w-1, y, line[5])
		}
		put(0, 0, line[0])
		put(w-1, 0, line[1])
		put(0, h-1, line[2])
		put(w-1, h-1, line[3])
		for k, r := range []rune(v.Name) {
			if 2+k < w-2 {
				put(2+k, 1, r)
			}
		}
		if v.Kind == model.Decision {
			put(w-3, 1, '!')
		} else if v.Kind == model.Utility {
			put(w-3, 1, '$')
		}
		label := func(row int, s string) {
			for k, r := range []rune(s) {
				if 2+k < bars-1 {
					put(2+k, row, r)
				}
			}
		}
		for o, s := range v.Outcomes {
			label(2+o, s)
		}
		if v.Kind == model.Utility {
			label(2+len(v.Outcomes), "total")
			for o, x := range vals[i].vals {
				fields = append(fields, tfield{i, x0 + bars + 1, y0 + 2 + o, 12, x, vals[i].scales[o]})
				for k := 0; k < 12; k++ {
					wild(bars+1+k, 2+o)
				}
			}
			continue
		}
		_, given := m.ev[i]
		for o, p := range vals[i].vals {
			fields = append(fields, tfield{i, x0 + bars + 11, y0 + 2 + o, 7, p * 100, 100})
			for k := 0; k < 7; k++ {
				wild(bars+11+k, 2+o)
			}
			for k := 0; k < 10; k++ {
				put(bars+k, 2+o, barCell(p*10-1e-6, k))
				c[y0+2+o][x0+bars+k].alts = string([]rune{barCell(p*10+1e-6, k), barCell(p*10, k)})
			}
			if i == m.sel && o == m.state {
				put(1, 2+o, '[')
				put(w-2, 2+o, ']')
			} else if given {
				put(1, 2+o, '+')
				put(w-2, 2+o, '+')
			}
		}
	}
	return c, fields
}

// barCell is cell k of a bar of length x: full, partly filled in sevenths, or empty.
func barCell(x float64, k int) rune {
	switch f := x - float64(k); {
	case f >= 1:
		return '█'
	case f >= 1.0/7: // also false if there is no value
		return []rune("▏▎▍▌▋▊▉")[int(f*7)]
	}
	return '░'
}

// edge draws the line from a parent to a child, ending in an arrow at the child's box. Where lines cross,
// any of them may be on top.
func (m *tuiModel) edge(c [][]tcell, from, to int, optional bool) {
	w1, h1, _ := m.size(from)
	w2, h2, _ := m.size(to)
	x1, y1, x2, y2 := m.pos[from][0], m.pos[from][1], m.pos[to][0], m.pos[to][1]
	line := map[[2]int]rune{}
	hOverlap, vOverlap := x1+w1 > x2 && x1 < x2+w2, y1+h1 > y2 && y1 < y2+h2
	switch {
	case hOverlap && vOverlap: // the boxes overlap: no line
	case hOverlap: // straight down or up, in the middle of the common columns
		x := (max(x1, x2) + min(x1+w1, x2+w2)) / 2
		for y := min(y1+h1, y2+h2); y < max(y1, y2); y++ {
			line[[2]int{x, y}] = '│'
		}
		if y1 < y2 {
			line[[2]int{x, y2 - 1}] = 'v'
		} else {
			line[[2]int{x, y2 + h2}] = '^'
		}
	case vOverlap:
		y := (max(y1, y2) + min(y1+h1, y2+h2)) / 2
		for x := min(x1+w1, x2+w2); x < max(x1, x2); x++ {
			line[[2]int{x, y}] = '─'
		}
		if x1 < x2 {
			line[[2]int{x2 - 1, y}] = '>'
		} else {
			line[[2]int{x2 + w2, y}] = '<'
		}
	default: // sideways from the parent's last or first line, around a corner to the child's near column
		y, x := y1, x2
		if y2 > y1 {
			y = y1 + h1 - 1
		}
		corner := map[[2]bool]rune{{true, true}: '┐', {true, false}: '┘', {false, true}: '┌', {false, false}: '└'}[[2]bool{x2 > x1, y2 > y1}]
		if x2 > x1 {
			for k := x1 + w1; k < x2; k++ {
				line[[2]int{k, y}] = '─'
			}
		} else {
			x = x2 + w2 - 1
			for k := x2 + w2; k < x1; k++ {
				line[[2]int{k, y}] = '─'
			}
		}
		line[[2]int{x, y}] = corner
		if y2 > y1 {
			for k := y + 1; k < y2; k++ {
				line[[2]int{x, k}] = '│'
			}
			line[[2]int{x, y2 - 1}] = 'v'
		} else {
			for k := y - 1; k > y2+h2; k-- {
				line[[2]int{x, k}] = '│'
			}
			line[[2]int{x, y2 + h2}] = '^'
		}
	}
	for at, r := range line {
		e := &c[at[1]][at[0]]
		e.edges += string(r)
		if !optional {
			e.gap = false
		}
	}
}

// view is the part of the screen that shows the canvas.
func (m *tuiModel) view(s *session) (x0, y0, w, h int) { return 1, 2, s.w - 2, s.h - 4 }

// compare checks the picture against the model for a scroll position.
func (m *tuiModel) compare(s *session, p *picture, c [][]tcell, fields []tfield, ox, oy int) error {
	x0, y0, w, h := m.view(s)
	cell := func(x, y int) tcell {
		if y < len(c) && x < len(c[0]) {
			return c[y][x]
		}
		return tcell{owner: -1, gap: true}
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			e, r := cell(x+ox, y+oy), p.rows[y0+y][x0+x]
			switch {
			case e.owner < 0:
				if !(r == ' ' && e.gap) && !strings.ContainsRune(e.edges, r) {
					return fmt.Errorf("%q is drawn outside of nodes at (%d, %d), want %q", r, x0+x, y0+y, e.edges)
				}
			case !e.any && r != e.r && !strings.ContainsRune(e.alts, r):
				return fmt.Errorf("%q instead of %q is drawn for node %q at (%d, %d)", r, e.r, m.n.Vars[e.owner].Name, x0+x, y0+y)
			}
			if e.owner >= 0 {
				col := m.n.Vars[e.owner].Color
				if col == "" {
					col = map[model.Kind]string{model.Chance: "white", model.Utility: "green", model.Decision: "blue"}[m.n.Vars[e.owner].Kind]
				}
				if r != ' ' {
					k := -1
					for j, n := range model.Colors {
						if n == col {
							k = j
						}
					}
					if got := p.colors[y0+y][x0+x]; got != 'a'+byte(k) {
						return fmt.Errorf("node %q is not drawn in its colour %s at (%d, %d)", m.n.Vars[e.owner].Name, col, x0+x, y0+y)
					}
				}
			}
		}
	}
fields:
	for _, f := range fields {
		x, y := f.x-ox, f.y-oy
		if x < 0 || y < 0 || x+f.w > w || y >= h {
			continue
		}
		for k := 0; k < f.w; k++ {
			if e := cell(f.x+k, f.y); e.owner != f.node {
				continue fields
			}
		}
		text := strings.TrimSpace(string(p.rows[y0+y][x0+x : x0+x+f.w]))
		if text == "NaN" || !sameNumber(text, f.want, f.scale) && !longNumber(text, f.want, f.w) {
			return fmt.Errorf("node %q, row %d: %q is shown, want %.6f", m.n.Vars[f.node].Name, f.y-m.pos[f.node][1]-2, text, f.want)
		}
	}
	return nil
}

// longNumber compares a number that has no room for three decimals.
func longNumber(text string, want float64, room int) bool {
	v, err := strconv.ParseFloat(text, 64)
	return err == nil && len(fmt.Sprintf("%.3f", want)) >= room && math.Abs(v-want) <= 1e-4*math.Abs(want)
}

// check compares the picture with the model, whatever the scroll position is.
func (m *tuiModel) check(s *session, p *picture) error {
	if m.open != noDialog {
		mark := map[dialog]string{tableDialog: "Close table", helpDialog: "Close help", infoDialog: "Close info"}
		for d, text := range mark {
			if p.has(text) != (d == m.open) {
				return fmt.Errorf("dialog %v expected, %q is shown: %v", mark[m.open], text, p.has(text))
			}
		}
		if m.open == infoDialog {
			for _, line := range strings.Split(m.n.Info, "\n") {
				if !p.has(strings.TrimSpace(line)) {
					return fmt.Errorf("%q is not shown in the info", line)
				}
			}
		}
		return nil
	}
	for _, text := range []string{"Close table: ESC", "Close help: ESC", "Close info: ESC"} {
		if p.has(text) {
			return fmt.Errorf("%q is shown without a dialog", text)
		}
	}
	c, fields := m.canvas()
	err := m.compare(s, p, c, fields, m.offX, m.offY)
	if err == nil && m.offOK {
		return nil
	}
	_, _, w, h := m.view(s)
	found := 0
	// the drawing does not shrink when nodes move, so the largest extent limits the scroll position
	for oy := 0; oy < m.maxH; oy++ {
		for ox := 0; ox < m.maxW; ox++ {
			if m.compare(s, p, c, fields, ox, oy) == nil {
				if found == 0 {
					m.offX, m.offY = ox, oy
				}
				found++
			}
			if m.maxW <= w {
				break
			}
		}
		if m.maxH <= h {
			break
		}
	}
	m.offOK = found == 1
	if found > 0 {
		return nil
	}
	return err
}

// tuiNames gives names that fit into the display: no wide characters.
func tuiNames(t *rapid.T, n *model.Net) {
	pool := []string{"Rain", "a", "Grass wet", "é", "ñandú ß", "x", "Very long name of a variable", "this name has more than forty-eight characters in total, really", "100%", "A-B", "t", "?", "total", "yes", "0.5", "(k)", "[red]", "[low] x", "[a", "]", "[red[]", "[::b]"}
	out := []string{"yes", "no", "a", "very long outcome name", "sixteen chars ok", "seventeen chars !", "é", "0", "1.5", "> 3", "x y", "+", "+ +", "100.000", "[low]", "[0-10)", "[-]", "a[b]c", "[1.5]", "[[x]"}
	pick := func(used map[string]bool, p []string, alt string) string {
		s := rapid.SampledFrom(p).Draw(t, "name")
		for k := 0; used[s]; k++ {
			s = fmt.Sprintf("%s%d", alt, k)
		}
		used[s] = true
		return s
	}
	used := map[string]bool{}
	for i := range n.Vars {
		v := &n.Vars[i]
		old := v.Name
		v.Name = ""
		if model.Pct(t, "rename", 40) {
			v.Name = pick(used, pool, old+"_")
		}
		for k := 0; v.Name == "" || (v.Name == old && used[old]); k++ {
			v.Name = old
			if used[old] {
				old = fmt.Sprintf("%s_%d", old, k)
			}
		}
		used[v.Name] = true
		if model.Pct(t, "rename outcomes", 30) {
			uo := map[string]bool{}
			for k := range v.Outcomes {
				v.Outcomes[k] = pick(uo, out, fmt.Sprintf("o%d_", k))
				if k > 0 && model.Pct(t, "longer", 35) {
					// begins with another one's name
					s := v.Outcomes[model.Intn(t, "of", 0, k-1)] + "1"
					if !uo[s] {
						v.Outcomes[k], uo[s] = s, true
					}
				}
			}
		}
	}
}

// tuiLayout places the nodes.
func tuiLayout(t *rapid.T, n *model.Net) {
	style := model.Intn(t, "layout", 0, 3)
	x, y, rowH := 0, 0, 0
	m := &tuiModel{n: n}
	for i := range n.Vars {
		v := &n.Vars[i]
		w, h, _ := m.size(i)
		switch style {
		case 0: // side by side, without gaps or with some
			if x > 90 {
				x, y, rowH = 0, y+rowH, 0
			}
			v.Pos = [2]int{x + model.Intn(t, "dx", 0, 3), y + model.Intn(t, "dy", 0, 2)}
			x, rowH = v.Pos[0]+w, max(rowH, v.Pos[1]-y+h)
		case 1:
			v.Pos = [2]int{model.Intn(t, "x", 0, 100), model.Intn(t, "y", 0, 50)}
		case 2: // mostly on top of each other
			v.Pos = [2]int{model.Intn(t, "x", 0, 30), model.Intn(t, "y", 0, 10)}
		default: // one column
			v.Pos = [2]int{model.Intn(t, "dx", 0, 2), y}
			y += h + model.Intn(t, "dy", 0, 2)
		}
		v.Color = ""
		if model.Pct(t, "color?", 30) {
			v.Color = rapid.SampledFrom(model.Colors).Draw(t, "color")
		}
	}
}

func tuiNet(t *rapid.T) *model.Net { return tuiNetWith(t, 10) }

// tuiNetWith draws some networks with many parents (in percent).
func tuiNetWith(t *rapid.T, dense int) *model.Net {
	o := inferOpt()
	o.MaxChance = 4
	o.MaxUtil = 2 + model.Intn(t, "more utilities", 0, 2)
	o.MaxStates = 120
	o.Weird = false
	if model.Pct(t, "no decisions", 35) {
		o.MaxDec, o.MaxChance = 0, 5
		o.Exact, o.ZeroRows = false, true
	}
	if model.Pct(t, "wide", 14) {
		o.MaxChance, o.MaxOut, o.Wide = 2, 14, true
	} else if model.Pct(t, "dense", dense) {
		o.MinChance, o.MaxChance, o.MaxDec, o.MaxOut, o.MaxParents, o.Dense = 5, 6, min(o.MaxDec, 1), 3, 5, 60
		o.MaxStates = 200
	}
	n := model.GenNet(t, o)
	if model.Pct(t, "large utilities", 8) {
		f := rapid.SampledFrom([]float64{1e5, 1e8, 1e10, 1e12, 1e15}).Draw(t, "factor")
		for _, u := range n.Of(model.Utility) {
			for k := range n.Vars[u].Table {
				if u != n.Total {
					n.Vars[u].Table[k] *= f
				}
			}
		}
	}
	tuiNames(t, n)
	tuiLayout(t, n)
	n.Info = ""
	if model.Pct(t, "info?", 25) {
		n.Info = rapid.SampledFrom([]string{"info", "two\nlines\n", "[red]x"}).Draw(t, "info")
	}
	return n
}

func screenSize(t *rapid.T, n *model.Net) (int, int) {
	w, h := (&tuiModel{n: n, pos: positions(n)}).extent()
	switch model.Intn(t, "screen", 0, 4) {
	case 0, 1:
		return 80, 25
	case 2:
		return max(80, w+2), max(25, h+4)
	default:
		return max(80, w+2+20), max(30, h+4+10)
	}
}

func positions(n *model.Net) [][2]int {
	var r [][2]int
	for i := range n.Vars {
		r = append(r, n.Vars[i].Pos)
	}
	return r
}

// clickTarget is a cell of the screen, and the node (or -1) and outcome (or -1) it belongs to.
type clickTarget struct{ x, y, node, row int }

// genClick draws a click into a node or beside nodes; where boxes overlap it goes to the one on top.
func (m *tuiModel) genClick(t *rapid.T, s *session) (clickTarget, bool) {
	x0, y0, w, h := m.view(s)
	if !m.offOK {
		return clickTarget{}, false
	}
	try := func(x, y int) (clickTarget, bool) { // canvas coordinates
		sx, sy := x-m.offX, y-m.offY
		if sx < 0 || sy < 0 || sx >= w || sy >= h {
			return clickTarget{}, false
		}
		own := m.at(x, y)
		c := clickTarget{x0 + sx, y0 + sy, -1, -1}
		if len(own) > 0 {
			c.node = own[len(own)-1]
			if r := y - m.pos[c.node][1] - 2; r >= 0 && r < len(m.n.Vars[c.node].Outcomes) {
				c.row = r
			}
		}
		return c, true
	}
	if model.Pct(t, "beside", 10) {
		if model.Pct(t, "close", 60) {
			// just beside a node
			i := model.Intn(t, "close to", 0, len(m.n.Vars)-1)
			bw, bh, _ := m.size(i)
			x, y := m.pos[i][0]+model.Intn(t, "close x", 0, bw-1), m.pos[i][1]+model.Intn(t, "close y", 0, bh-1)
			switch model.Intn(t, "side", 0, 3) {
			case 0:
				x = m.pos[i][0] - 1
			case 1:
				x = m.pos[i][0] + bw
			case 2:
				y = m.pos[i][1] - 1
			default:
				y = m.pos[i][1] + bh
			}
			return try(x, y)
		}
		return try(m.offX+model.Intn(t, "cx", 0, w-1), m.offY+model.Intn(t, "cy", 0, h-1))
	}
	visible := []int{} // at least in part
	for i := range m.n.Vars {
		bw, bh, _ := m.size(i)
		x, y := m.pos[i][0]-m.offX, m.pos[i][1]-m.offY
		if x < w && y < h && x+bw > 0 && y+bh > 0 {
			visible = append(visible, i)
		}
	}
	for tries := 0; tries < 5 && len(visible) > 0; tries++ {
		i := visible[model.Intn(t, "cnode", 0, len(visible)-1)]
		bw, bh, _ := m.size(i)
		row := model.Intn(t, "crow", 0, bh-1)
		if model.Pct(t, "on outcome", 60) {
			row = 2 + model.Intn(t, "coutcome", 0, len(m.n.Vars[i].Outcomes)-1)
		}
		if c, ok := try(m.pos[i][0]+model.Intn(t, "ccol", 0, bw-1), m.pos[i][1]+row); ok {
			return c, true
		}
	}
	return clickTarget{}, false
}

// step draws one event, sends it and applies it to the model. It returns a name for the kind of event.
func (m *tuiModel) step(t *rapid.T, s *session, kinds []string) string {
	kind := rapid.SampledFrom(kinds).Draw(t, "event")
	if m.open != noDialog {
		// in a dialog: keys that belong to it, or close it
		switch model.Intn(t, "dialog", 0, 5) {
		case 0:
			s.key(keyEnter, 0)
			m.open = noDialog
		case 1, 2:
			s.key(keyEsc, 0)
			m.open = noDialog
		case 3:
			x, y := s.w/2, s.h/2
			if gap := (s.w - 72) / 2; gap > 2 && s.h >= 8 && model.Pct(t, "beside", 50) {
				// beside the dialog, but on the graph
				x, y = model.Intn(t, "dialog x", 1, gap-1), model.Intn(t, "dialog y", 2, s.h-3)
				if model.Pct(t, "right side", 50) {
					x = s.w - 1 - x
				}
			}
			s.click(x, y, rapid.SampledFrom([]int{buttonLeft, buttonRight}).Draw(t, "button"))
			m.open = noDialog
		case 4:
			s.key(keyRune, rapid.SampledFrom([]rune("jkltpwasd1 ")).Draw(t, "key"))
		default:
			s.key(rapid.SampledFrom([]int{keyUp, keyDown, keyLeft, keyRight, keyTab}).Draw(t, "key"), 0)
		}
		return "in dialog"
	}
	nOut := len(m.n.Vars[m.sel].Outcomes)
	switch kind {
	case "tab":
		s.key(keyTab, 0)
		m.sel, m.state = (m.sel+1)%len(m.n.Vars), 0
	case "backtab":
		s.key(keyBacktab, 0)
		m.sel, m.state = (m.sel+len(m.n.Vars)-1)%len(m.n.Vars), 0
	case "space":
		times := 1
		if model.Pct(t, "many", 20) || nOut > 9 && model.Pct(t, "all", 50) {
			times = model.Intn(t, "spaces", 2, nOut+1)
		}
		for ; times > 0; times-- {
			s.key(keyRune, ' ')
			m.state = (m.state + 1) % nOut
		}
	case "digit":
		d := model.Intn(t, "digit", 0, 9)
		s.key(keyRune, rune('0'+d))
		if d >= 1 && d <= nOut {
			m.state = d - 1
		}
	case "enter":
		s.key(keyEnter, 0)
		m.toggle()
	case "policies":
		s.key(keyRune, 'p')
		m.ignore = !m.ignore
		m.dirty = true
	case "left":
		c, ok := m.genClick(t, s)
		if !ok {
			return "none"
		}
		s.click(c.x, c.y, buttonLeft)
		if c.node >= 0 {
			m.clicked = m.clicked || m.offX > 0 || m.offY > 0
			m.selectNode(c.node)
			if c.row >= 0 {
				m.state = c.row
				m.toggle()
			}
		}
	case "right":
		c, ok := m.genClick(t, s)
		if !ok {
			return "none"
		}
		s.click(c.x, c.y, buttonRight)
		if c.node >= 0 {
			m.selectNode(c.node)
			m.open = tableDialog
		}
	case "table":
		s.key(keyRune, 't')
		m.open = tableDialog
	case "help":
		s.key(keyRune, 'h')
		m.open = helpDialog
	case "info":
		s.key(keyRune, 'i')
		m.open = infoDialog
	case "scroll":
		key := rapid.SampledFrom([]int{keyUp, keyDown, keyLeft, keyRight, keyPgUp, keyPgDn, keyHome, keyEnd, keyDown, keyRight, keyRight}).Draw(t, "scroll")
		times := model.Intn(t, "times", 1, 12)
		if model.Pct(t, "far", 25) {
			times = model.Intn(t, "times", 20, 120)
		}
		for ; times > 0; times-- {
			s.key(key, 0)
		}
		m.offOK = false
	case "move":
		r := rapid.SampledFrom([]rune("wasd")).Draw(t, "move")
		for k := model.Intn(t, "times", 1, 4); k > 0; k-- {
			s.key(keyRune, r)
			p := &m.pos[m.sel]
			switch r {
			case 'w':
				p[1] = max(0, p[1]-1)
			case 's':
				p[1]++
			case 'a':
				p[0] = max(0, p[0]-1)
			case 'd':
				p[0]++
			}
			w, h := m.extent()
			m.maxW, m.maxH = max(m.maxW, w), max(m.maxH, h)
		}
		m.offOK = false
	case "save":
		s.key(keyCtrlS, 0)
	case "other":
		s.key(keyRune, rapid.SampledFrom([]rune("xyzqQTPWASDHI.,-+*/_é")).Draw(t, "other"))
	}
	return kind
}

// ---------------------------------------------------------------- the table view

// tableView is the part of a table that is visible: lines of cells. The first line is the header.
func tableView(p *picture) (title string, cells [][]string, err error) {
	at, x0 := -1, -1
	for y, r := range p.rows {
		if k := strings.Index(string(r), "Close table: ESC"); k >= 0 {
			at, x0 = y, len([]rune(string(r)[:k]))-1
		}
	}
	if at < 1 || x0 < 0 {
		return "", nil, fmt.Errorf("no table is shown")
	}
	top := at - 1
	for top >= 0 && p.rows[top][x0+1] != '╔' {
		top--
	}
	if top < 0 {
		return "", nil, fmt.Errorf("no table is shown")
	}
	const inner = 68
	title = strings.TrimSpace(strings.Trim(string(p.rows[top][x0+2:x0+2+inner]), "═"))
	for y := top + 1; y < at-1; y++ {
		var line []string
		for _, c := range strings.Split(string(p.rows[y][x0+2:x0+2+inner]), "│") {
			line = append(line, strings.TrimSpace(c))
		}
		cells = append(cells, line)
	}
	return title, cells, nil
}

type tableCell struct {
	number bool
	text   string
	unit   string
	want   float64
	scale  float64
	any    bool
}

func (c *tableCell) is(s string) bool {
	if c.any {
		return true
	}
	if !c.number {
		return s == strings.TrimSpace(c.text)
	}
	if !strings.HasSuffix(s, c.unit) {
		return false
	}
	s = strings.TrimSuffix(s, c.unit)
	return s != "???" && sameNumber(s, c.want, c.scale)
}

// expectedTable is the table of a node, for policies with the conditions in the given order.
func (m *tuiModel) expectedTable(i int, given []int) [][]tableCell {
	v := &m.n.Vars[i]
	cols := len(v.Outcomes)
	rows := 1
	for _, g := range given {
		rows *= m.n.Card(g)
	}
	r := make([][]tableCell, rows+1)
	for _, g := range given {
		r[0] = append(r[0], tableCell{text: m.n.Vars[g].Name})
	}
	for _, o := range v.Outcomes {
		r[0] = append(r[0], tableCell{text: o})
	}
	x := make([]int, len(m.n.Vars))
	for k := 0; k < rows; k++ {
		q := k
		for b := len(given) - 1; b >= 0; b-- {
			x[given[b]] = q % m.n.Card(given[b])
			q /= m.n.Card(given[b])
		}
		for _, g := range given {
			r[k+1] = append(r[k+1], tableCell{text: m.n.Vars[g].Outcomes[x[g]]})
		}
		for o := 0; o < cols; o++ {
			c := tableCell{number: true}
			switch v.Kind {
			case model.Utility:
				c.want = v.Table[k*cols+o]
				c.scale = math.Abs(c.want)
			case model.Chance:
				sum := 0.0
				for _, p := range v.Table[k*cols : (k+1)*cols] {
					sum += p
				}
				c.want, c.scale, c.unit = 100*v.Table[k*cols+o]/sum, 100, "%"
			case model.Decision:
				c.unit, c.scale = "%", 100
				c.want, c.any = m.policyAt(i, given, x, o)
				c.want *= 100
			}
			r[k+1] = append(r[k+1], c)
		}
	}
	return r
}

// policyAt is the weight of an outcome of a decision for the conditions that the policy shows. Observations
// that are impossible may have any weights.
func (m *tuiModel) policyAt(d int, given, x []int, o int) (w float64, any bool) {
	p := m.pol[d]
	fixed := map[int]bool{}
	for _, g := range given {
		fixed[g] = true
	}
	y := append([]int{}, x...)
	any = true
	var rec func(k int)
	rec = func(k int) {
		if k == len(p.Given) {
			if zeroContext(m.n, p.Given, y, nil) {
				return
			}
			row := 0
			for _, g := range p.Given {
				row = row*m.n.Card(g) + y[g]
			}
			v := p.Table[row*m.n.Card(d)+o]
			if !any && v != w {
				w = math.Inf(1) // depends on an observation that is not shown
				return
			}
			w, any = v, false
			return
		}
		if g := p.Given[k]; fixed[g] {
			rec(k + 1)
		} else {
			for q := 0; q < m.n.Card(g); q++ {
				y[g] = q
				rec(k + 1)
			}
		}
	}
	rec(0)
	return w, any
}

// checkTable reads the open table, scrolling through its columns, and compares it with the model.
func (m *tuiModel) checkTable(s *session) error {
	v := &m.n.Vars[m.sel]
	var want [][]tableCell
	seen := map[int]bool{}
	if m.scrolled {
		// a table that is opened again stands where it was scrolled to
		for k := len(v.Parents) + len(m.n.Vars) + len(v.Outcomes); k > 0; k-- {
			s.key(keyLeft, 0)
		}
		if s.picture() == nil {
			return fmt.Errorf("the application ends")
		}
	}
	for k := 0; ; k++ {
		p := s.last
		if k > 0 {
			m.scrolled = true
			s.key(keyRight, 0)
			if p = s.picture(); p == nil {
				return fmt.Errorf("the application ends")
			}
		}
		title, cells, err := tableView(p)
		if err != nil {
			return err
		}
		if len(cells) == 0 {
			return fmt.Errorf("the table is empty")
		}
		if k == 0 && title != v.Name {
			return fmt.Errorf("table %q is shown for %q", title, v.Name)
		}
		if want == nil {
			given := v.Parents
			if v.Kind == model.Decision {
				if given, err = m.shownConditions(cells[0]); err != nil {
					return err
				}
			}
			want = m.expectedTable(m.sel, given)
		}
		if len(cells) != len(want) {
			return fmt.Errorf("%d lines are shown, want %d", len(cells), len(want))
		}
		total := len(want[0])
		visible := len(cells[0])
		// the first visible column
		found := false
		for c0 := min(k, total-1); c0 >= 0 && !found; c0-- {
			ok := true
			var full []int
			for c := 0; c < visible && c0+c < total; c++ {
				colOK, cut := true, false
				for y := range cells {
					if c >= len(cells[y]) {
						colOK = false
						continue
					}
					colOK = colOK && want[y][c0+c].is(cells[y][c])
					cut = cut || strings.Contains(cells[y][c], "…")
				}
				// columns at the edges may be cut
				if colOK {
					full = append(full, c0+c)
				} else if !(c == visible-1 && (cut || c0+c < total-1)) && !(c == 0 && k > 0) {
					ok = false
				}
			}
			if ok && len(full) > 0 {
				found = true
				for _, c := range full {
					seen[c] = true
				}
			}
		}
		if !found {
			return fmt.Errorf("the table of %q shows\n%q\nwant\n%v", v.Name, cells, want)
		}
		if len(seen) == total {
			return nil
		}
		if k > total {
			return fmt.Errorf("the columns of the table of %q can't all be seen: %v of %d", v.Name, seen, total)
		}
	}
}

// shownConditions reads the order of the conditions of a policy from the header.
func (m *tuiModel) shownConditions(header []string) ([]int, error) {
	d := m.sel
	var given []int
	for _, h := range header {
		k := -1
		for _, p := range m.n.Vars[d].Parents {
			if strings.TrimSpace(m.n.Vars[p].Name) == h {
				k = p
			}
		}
		if k < 0 {
			break
		}
		given = append(given, k)
	}
	return given, nil
}
