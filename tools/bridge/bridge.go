package tcell

// A screen that lives in memory, driven by JSON lines on standard input. It stands in for the terminal.
//   {"t":"key","k":13,"r":0}            a key
//   {"t":"mouse","x":1,"y":2,"b":1}     a state of the mouse
//   {"t":"snap"}                        asks for a picture of the screen, as a JSON line on file descriptor 3
// Events are handled in the order of the lines; a picture shows the effect of all events before it.

import (
	"bufio"
	"encoding/json"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

type vxEvent struct {
	T string
	K int
	R rune
	X int
	Y int
	B int
	W int
	H int
}

// VXSnap is handled by the event loop like any other event.
type VXSnap struct{ s *vxScreen }

func (e *VXSnap) When() time.Time { return time.Time{} }

// Take writes the picture.
func (e *VXSnap) Take() { e.s.snap() }

type vxScreen struct {
	*simscreen
	out   *os.File
	mouse atomic.Bool // whether the application asked for mouse events
	ready chan struct{}
	once  sync.Once
}

// The application library turns the mouse on or off right after Init.
func (s *vxScreen) EnableMouse(flags ...MouseFlags) {
	s.simscreen.EnableMouse(flags...)
	s.mouse.Store(true)
	s.once.Do(func() { close(s.ready) })
}

func (s *vxScreen) DisableMouse() {
	s.simscreen.DisableMouse()
	s.mouse.Store(false)
	s.once.Do(func() { close(s.ready) })
}

func newVXScreen() (Screen, error) {
	return &vxScreen{simscreen: NewSimulationScreen("UTF-8").(*simscreen), out: os.NewFile(3, "pictures"), ready: make(chan struct{})}, nil
}

func (s *vxScreen) Init() error {
	if err := s.simscreen.Init(); err != nil {
		return err
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<16), 1<<20)
	next := func() (vxEvent, bool) {
		var e vxEvent
		if !sc.Scan() || json.Unmarshal(sc.Bytes(), &e) != nil {
			return e, false
		}
		return e, true
	}
	if e, ok := next(); ok { // the first line is the size
		s.SetSize(e.W, e.H)
	}
	go func() {
		<-s.ready
		for {
			e, ok := next()
			if !ok {
				return
			}
			switch e.T {
			case "key":
				s.postEvent(NewEventKey(Key(e.K), e.R, ModNone))
			case "mouse":
				if s.mouse.Load() {
					s.postEvent(NewEventMouse(e.X, e.Y, ButtonMask(e.B), ModNone))
				}
			case "snap":
				s.postEvent(&VXSnap{s})
			}
		}
	}()
	return nil
}

func (s *vxScreen) snap() {
	s.Lock()
	closed := s.fini
	s.Unlock()
	if closed { // the application is about to end
		return
	}
	cells, w, h := s.GetContents()
	rows := make([]string, h)
	colors := make([]string, h)
	for y := range rows {
		line := make([]rune, 0, w)
		col := make([]byte, 0, w)
		for x := 0; x < w; x++ {
			c := &cells[y*w+x]
			r := ' '
			if len(c.Runes) > 0 {
				r = c.Runes[0]
			}
			line = append(line, r)
			fg, _, _ := c.Style.Decompose()
			b := byte('?')
			if fg == ColorDefault {
				b = '-'
			} else if fg >= ColorValid && fg < ColorValid+16 {
				b = 'a' + byte(fg-ColorValid)
			}
			col = append(col, b)
		}
		rows[y], colors[y] = string(line), string(col)
	}
	b, err := json.Marshal(map[string]interface{}{"rows": rows, "colors": colors})
	if err != nil {
		os.Exit(77)
	}
	if _, err = s.out.Write(append(b, '\n')); err != nil {
		os.Exit(77)
	}
}
