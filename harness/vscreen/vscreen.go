// Package vscreen takes the place of the terminal and of the clock of the user interface.
package vscreen

import (
	"context"
	"os"
	"time"

	"github.com/gdamore/tcell"
)

// Width and Height are the size of the screen.
const Width, Height = 12, 6

// Screen is a terminal under the control of a harness: the application asks for an event only
// when it has dealt with the one before, which Polls tells.
type Screen struct {
	Events chan tcell.Event
	Polls  chan struct{}
	Cells  [Height][Width]rune
	Draws  int // changes of the screen
	Shows  int
	Syncs  int
	Inits  int
	Finis  int
	AtEnd  func()
	polls  int
}

// Manual is set by a harness which handles the screen itself. On a screen of a command Ctrl-C is
// pressed at once, if there is a file "ctrl-c", and some refreshes are due.
var Manual bool

var contexts []context.Context

// WithCancel stands for context.WithCancel in the commands.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	contexts = append(contexts, ctx)
	return ctx, cancel
}

// WithCancelCause stands for context.WithCancelCause in the commands.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	contexts = append(contexts, ctx)
	return ctx, cancel
}

func exists(file string) bool {
	f, err := os.Open(file)
	if err == nil {
		f.Close()
	}
	return err == nil
}

func create(file string) {
	f, err := os.Create(file)
	if err == nil {
		f.Close()
	}
}

// poll is PollEvent for a command.
func (s *Screen) poll() tcell.Event {
	if s.polls++; exists("ctrl-c") {
		if s.polls == 1 {
			return tcell.NewEventKey(tcell.KeyCtrlC, 3, tcell.ModCtrl)
		}
		if s.polls == 2 {
			if len(contexts) == 0 {
				create("cancelled") // made in some way that is not known here
			}
			for _, ctx := range contexts {
				if ctx.Err() != nil {
					create("cancelled")
				}
			}
		}
	}
	return <-s.Events
}

// Current is the screen last made.
var Current *Screen

// Ticks is what the tickers deliver.
var Ticks = make(chan time.Time)

// Interval is the interval the last ticker was made with.
var Interval time.Duration

// NewScreen stands for tcell.NewScreen.
func NewScreen() (tcell.Screen, error) {
	Current = &Screen{Events: make(chan tcell.Event), Polls: make(chan struct{})}
	return Current, nil
}

// NewTicker stands for time.NewTicker.
func NewTicker(d time.Duration) *time.Ticker {
	Interval = d
	if !Manual {
		go func() {
			Ticks <- time.Time{}
			Ticks <- time.Time{}
		}()
	}
	return &time.Ticker{C: Ticks}
}

func (s *Screen) Init() error { s.Inits++; return nil }

func (s *Screen) Fini() {
	if s.Finis++; !Manual {
		create("given-back")
	}
	if s.AtEnd != nil {
		s.AtEnd()
	}
}

func (s *Screen) Fill(r rune, _ tcell.Style) {
	s.Draws++
	for y := range s.Cells {
		for x := range s.Cells[y] {
			s.Cells[y][x] = r
		}
	}
}

func (s *Screen) Clear() { s.Fill(' ', 0) }

func (s *Screen) SetContent(x int, y int, r rune, _ []rune, _ tcell.Style) {
	s.Draws++
	if x >= 0 && y >= 0 && x < Width && y < Height {
		s.Cells[y][x] = r
	}
}

func (s *Screen) SetCell(x int, y int, st tcell.Style, ch ...rune) {
	if len(ch) > 0 {
		s.SetContent(x, y, ch[0], nil, st)
	}
}

func (s *Screen) GetContent(x, y int) (rune, []rune, tcell.Style, int) {
	return s.Cells[y][x], nil, 0, 1
}

func (s *Screen) PollEvent() tcell.Event {
	if !Manual {
		return s.poll()
	}
	s.Polls <- struct{}{}
	return <-s.Events
}

func (s *Screen) PostEvent(ev tcell.Event) error {
	select {
	case s.Events <- ev:
		return nil
	default:
		return tcell.ErrEventQFull
	}
}

func (s *Screen) PostEventWait(ev tcell.Event) { s.Events <- ev }
func (s *Screen) Size() (int, int)             { return Width, Height }
func (s *Screen) Show()                        { s.Shows++ }
func (s *Screen) Sync()                        { s.Syncs++ }

func (*Screen) SetStyle(tcell.Style)              {}
func (*Screen) ShowCursor(int, int)               {}
func (*Screen) HideCursor()                       {}
func (*Screen) EnableMouse()                      {}
func (*Screen) DisableMouse()                     {}
func (*Screen) HasMouse() bool                    { return false }
func (*Screen) Colors() int                       { return 0 }
func (*Screen) CharacterSet() string              { return "UTF-8" }
func (*Screen) RegisterRuneFallback(rune, string) {}
func (*Screen) UnregisterRuneFallback(rune)       {}
func (*Screen) CanDisplay(rune, bool) bool        { return true }
func (*Screen) Resize(int, int, int, int)         {}
func (*Screen) HasKey(tcell.Key) bool             { return true }
func (*Screen) Beep() error                       { return nil }
