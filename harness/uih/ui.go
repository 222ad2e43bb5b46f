// The user interface of the commands, on a terminal and with a clock that the harness controls.
package main

import (
	"time"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/ui/widget"
	"github.com/squizzling/osmindex/internal/zzverif/v"
	"github.com/squizzling/osmindex/internal/zzverif/vscreen"
)

type user struct {
	ui      ui.UI
	scr     *vscreen.Screen
	every   time.Duration
	cancels int
}

// start brings the user interface up to where it waits for the first event.
func start() *user {
	vscreen.Manual = true
	u := &user{}
	d := time.Duration(v.I64("interval"))
	v.Assume(d > 0)
	u.ui = ui.NewUI(d, func() { u.cancels++ })
	u.scr = vscreen.Current
	<-u.scr.Polls
	v.Assert(u.scr.Inits == 1, "the terminal is taken over once")
	u.every = d
	return u
}

// event hands one event over and waits until it was dealt with.
func (u *user) event(ev tcell.Event) {
	u.scr.Events <- ev
	<-u.scr.Polls
}

// tick lets the refresh interval pass.
func (u *user) tick() {
	vscreen.Ticks <- time.Time{}
	v.Assert(vscreen.Interval == u.every, "it is refreshed at the interval asked for")
	<-u.scr.Polls
}

func (u *user) phase(ws ...views.Widget) {
	u.ui.ReplaceWidgets(ws...)
	<-u.scr.Polls
}

// stop ends the user interface, and whatever is still going on in it.
func (u *user) stop() {
	go func() {
		for range u.scr.Polls {
		}
	}()
	u.scr.AtEnd = func() {
		select { // one more refresh is due while it ends
		case vscreen.Ticks <- time.Time{}:
		default:
		}
	}
	u.ui.Stop()
	v.Assert(u.scr.Finis == 1, "the terminal is given back")
}

// line is one line of a phase: its name and how often it was refreshed.
type line struct {
	*widget.WidgetCommonLine
	name string
	n    int
}

func newLine(name string) *line {
	l := &line{name: name}
	l.WidgetCommonLine = widget.NewWidgetCommonLine(func() {
		l.n++
		l.SetText(l.text())
	})
	return l
}

func (l *line) text() string { return l.name + string(rune('0'+l.n)) }

func row(s *vscreen.Screen, y int) string {
	n := vscreen.Width
	for n > 0 && (s.Cells[y][n-1] == ' ' || s.Cells[y][n-1] == 0) {
		n--
	}
	return string(s.Cells[y][:n])
}

// H_ui_keys: any two keys, with any modifiers: Ctrl-C cancels, every time; nothing else does.
func H_ui_keys() {
	u := start()
	l := newLine("a")
	u.phase(l)
	want, sync := 0, 0
	for i := 0; i < v.Param("keys", 2); i++ {
		k, m, ch := tcell.Key(v.U16("key")), tcell.ModMask(v.U16("mod")), rune(v.U16("rune"))
		if i == 0 && v.Choose("plain", 2) == 1 { // a character
			k = tcell.KeyRune
		}
		v.Assume(k >= 0 && m >= 0)
		ev := tcell.NewEventKey(k, ch, m)
		ctrl := ev.Modifiers() == tcell.ModCtrl
		v.Assume(!ctrl || ev.Key() != tcell.KeyCtrlA) // it ends the program at once, on purpose
		u.event(ev)
		if ctrl && ev.Key() == tcell.KeyCtrlC {
			want++
			v.Reach("cancelled")
		}
		v.Assert(u.cancels == want, "Ctrl-C cancels, and nothing else")
		if ctrl && ev.Key() == tcell.KeyCtrlL {
			<-u.scr.Polls
			sync++
		}
		v.Assert(u.scr.Syncs == sync, "Ctrl-L draws everything again")
		v.Assert(u.scr.Finis == 0, "the user interface stays")
	}
	v.Assert(l.n == 0, "a key is not a refresh")
	u.tick()
	v.Assert(l.n == 1 && row(u.scr, 0) == "a1", "it still refreshes")
	u.stop()
	v.Assert(u.cancels == want, "stopping is not cancelling")
	v.Reach("done")
}

// H_ui_phases: what is on the screen are the lines of the current phase, as last refreshed.
func H_ui_phases() {
	if v.Choose("reverse", 2) == 1 {
		v.SchedReverse()
	}
	u := start()
	var old []*line
	names := "abcdefghijkl"
	used := 0
	for p := 0; p < v.Param("phases", 2); p++ {
		n := v.Choose("lines", 4)
		var ls []*line
		var ws []views.Widget
		for i := 0; i < n; i++ {
			l := newLine(names[used : used+1])
			used++
			ls = append(ls, l)
			ws = append(ws, l)
		}
		u.phase(ws...)
		ticks := 1 + v.Choose("ticks", 2)
		for t := 1; t <= ticks; t++ {
			if v.Choose("resized", 2) == 1 {
				u.event(tcell.NewEventResize(vscreen.Width, vscreen.Height))
			}
			u.tick()
			for i, l := range ls {
				v.Assert(l.n == t, "every line of the phase is refreshed, once")
				v.Assert(row(u.scr, i) == l.text(), "it is on the screen, at its place")
			}
			for i := n; i < vscreen.Height; i++ {
				v.Assert(row(u.scr, i) == "", "nothing else is")
			}
			for _, l := range old {
				v.Assert(l.n == l.n0(), "lines of a phase before are not refreshed any more")
			}
		}
		for _, l := range ls {
			last[l] = l.n
		}
		old = append(old, ls...)
	}
	u.stop()
	at := u.scr.Draws + u.scr.Shows
	v.Yield()
	v.Assert(u.scr.Draws+u.scr.Shows == at, "nothing is drawn when it is stopped")
	v.Assert(u.cancels == 0, "nothing is cancelled")
	v.Reach("done")
}

var last = map[*line]int{}

func (l *line) n0() int { return last[l] }

// H_ui_stop: it can be stopped at any time.
func H_ui_stop() {
	if v.Choose("reverse", 2) == 1 {
		v.SchedReverse()
	}
	u := start()
	l := newLine("a")
	switch v.Choose("when", 4) {
	case 0: // at once
	case 1: // while a phase begins
		u.ui.ReplaceWidgets(l)
	case 2: // while it is to be refreshed
		u.phase(l)
		vscreen.Ticks <- time.Time{}
	case 3: // after that
		u.phase(l)
		u.tick()
	}
	u.stop()
	n := l.n
	v.Yield()
	v.Assert(l.n == n, "no refresh after that")
	v.Assert(u.cancels == 0, "nothing is cancelled")
	v.Reach("done")
}

// H_ui_none: without a refresh interval there is no user interface, and no terminal is touched.
func H_ui_none() {
	n := 0
	u := ui.NewUI(0, func() { n++ })
	u.ReplaceWidgets(newLine("a"))
	u.Stop()
	v.Assert(vscreen.Current == nil && n == 0, "no terminal, and nothing is cancelled")
	v.Reach("done")
}
