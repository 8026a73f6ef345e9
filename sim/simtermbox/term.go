package simtermbox

import (
	"errors"
	"os"
	"syscall"

	"verifsim/sim"
	"verifsim/simos"
)

// Script is what the harness makes the terminal do.
type Script struct {
	W, H     int
	Events   []Event // delivered in order; then the user presses a key if AutoKey
	AutoKey  bool
	pressed  int
	InitErr  string // errno: Init fails
	FlushErr string // errno: Flush number FlushNth fails
	FlushNth int
	Press    Event // the key that the user presses in the end
}

// Term is the state of the simulated terminal.
type Term struct {
	Script
	back, Front []Cell
	BW, BH      int
	Inits       int
	Closes      int
	Flushes     int
	FlushFails  int
	Polls       int
	Keys        int // key events delivered
	Delivered   []Event
	KeyAt       uint64 // logical time of the first key press
	ClosedAt    uint64
	Late        int // operations on a terminal that is not initialised
	Order       []string
	IM          InputMode
	OM          OutputMode
	CursorX     int
	CursorY     int
}

var t = &Term{}

// Reset prepares a terminal.
func Reset(s Script) *Term {
	t = &Term{Script: s, IM: InputEsc, OM: OutputNormal}
	IsInit = false
	return t
}

// Cur is the current terminal.
func Cur() *Term { return t }

func note(s string) {
	if len(t.Order) < 200 {
		t.Order = append(t.Order, s)
	}
}

func Init() error {
	sim.Point()
	note("init")
	if t.InitErr != "" {
		simos.Cur().Fired["terminal-init-"+t.InitErr]++
		return &os.PathError{Op: "open", Path: "/dev/tty", Err: simos.Errno(t.InitErr)}
	}
	t.Inits++
	t.BW, t.BH = t.W, t.H
	t.back = blank(t.BW * t.BH)
	t.Front = blank(t.BW * t.BH)
	t.IM, t.OM = InputEsc, OutputNormal
	IsInit = true
	return nil
}

func blank(n int) []Cell {
	c := make([]Cell, n)
	for i := range c {
		c[i] = Cell{Ch: ' ', Fg: ColorDefault, Bg: ColorDefault}
	}
	return c
}

func Interrupt() { t.Events = append([]Event{{Type: EventInterrupt}}, t.Events...) }

func Close() {
	sim.Point()
	note("close")
	t.Closes++
	t.ClosedAt = sim.Steps()
	IsInit = false
}

func live() bool {
	if !IsInit {
		t.Late++
		return false
	}
	return true
}

func resize() {
	if t.BW == t.W && t.BH == t.H {
		return
	}
	nb := blank(t.W * t.H)
	for y := 0; y < t.H && y < t.BH; y++ {
		for x := 0; x < t.W && x < t.BW; x++ {
			nb[y*t.W+x] = t.back[y*t.BW+x]
		}
	}
	t.back, t.BW, t.BH = nb, t.W, t.H
	t.Front = blank(t.W * t.H)
}

func Flush() error {
	sim.Point()
	note("flush")
	if !live() {
		return errors.New("termbox: not initialized")
	}
	t.Flushes++
	if t.FlushErr != "" && t.Flushes == t.FlushNth {
		t.FlushFails++
		note("flush-failed")
		simos.Cur().Fired["terminal-flush-"+t.FlushErr]++
		return &os.PathError{Op: "write", Path: "/dev/tty", Err: simos.Errno(t.FlushErr)}
	}
	resize()
	copy(t.Front, t.back)
	return nil
}

func Sync() error { return Flush() }

func SetCursor(x, y int) { t.CursorX, t.CursorY = x, y }
func HideCursor()        { t.CursorX, t.CursorY = -1, -1 }

func in(x, y int) bool {
	return live() && x >= 0 && x < t.BW && y >= 0 && y < t.BH
}

func SetCell(x, y int, ch rune, fg, bg Attribute) {
	if in(x, y) {
		t.back[y*t.BW+x] = Cell{Ch: ch, Fg: fg, Bg: bg}
	}
}
func GetCell(x, y int) Cell { return t.back[y*t.BW+x] }
func SetChar(x, y int, ch rune) {
	if in(x, y) {
		t.back[y*t.BW+x].Ch = ch
	}
}
func SetFg(x, y int, fg Attribute) {
	if in(x, y) {
		t.back[y*t.BW+x].Fg = fg
	}
}
func SetBg(x, y int, bg Attribute) {
	if in(x, y) {
		t.back[y*t.BW+x].Bg = bg
	}
}
func CellBuffer() []Cell        { return t.back }
func ParseEvent(b []byte) Event { return Event{Type: EventNone} }
func PollRawEvent([]byte) Event { return PollEvent() }
func Size() (width, height int) { return t.BW, t.BH }
func Clear(fg, bg Attribute) error {
	if !live() {
		return errors.New("termbox: not initialized")
	}
	resize()
	for i := range t.back {
		t.back[i] = Cell{Ch: ' ', Fg: fg, Bg: bg}
	}
	return nil
}

func SetInputMode(m InputMode) InputMode {
	if m == InputCurrent {
		return t.IM
	}
	t.IM = m
	return t.IM
}

func SetOutputMode(m OutputMode) OutputMode {
	if m == OutputCurrent {
		return t.OM
	}
	t.OM = m
	return t.OM
}

// PollEvent delivers the next scripted event; without one it blocks for ever,
// as a real terminal does while nobody presses a key.
func PollEvent() Event {
	sim.Point()
	t.Polls++
	if !IsInit {
		t.Late++
		panic("termbox: PollEvent without Init")
	}
	for len(t.Events) == 0 {
		if t.AutoKey && t.pressed < 200 { // a user who gives up in the end
			t.pressed++
			ev := t.Press
			if ev == (Event{}) {
				ev = Event{Type: EventKey, Ch: 'q'}
			}
			t.Events = append(t.Events, ev)
			break
		}
		note("wait")
		sim.BlockForever()
	}
	e := t.Events[0]
	t.Events = t.Events[1:]
	switch e.Type {
	case EventKey:
		if t.Keys == 0 {
			t.KeyAt = sim.Steps()
		}
		t.Keys++
	case EventResize:
		t.W, t.H = e.Width, e.Height
	case EventError:
		if e.Err == nil {
			e.Err = syscall.EIO
		}
	}
	t.Delivered = append(t.Delivered, e)
	simos.Cur().Fired["terminal-event-"+[]string{"key", "resize", "mouse", "error", "interrupt", "raw", "none"}[e.Type]]++
	note("event")
	return e
}
