// Package vg lets a native run follow the schedule of a counterexample: the instrumented code
// calls in here before each operation that was a scheduling point, and waits for its turn.
// Without a schedule, or once the run has left it, nothing waits.
package vg

import (
	"bytes"
	"encoding/json"
	"io/ioutil"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type event struct {
	Run  int    `json:"r"`
	G    string `json:"g"`
	Kind string `json:"k"`
	Site string `json:"s"`
	Case int    `json:"c"`
	G2   string `json:"g2"`
	C2   int    `json:"c2"`
	Park bool   `json:"p"`
	rel  bool
	skip bool
}

type gor struct {
	path  string
	nkids int
	ops   []int // indices of its events
	at    int
	pools []int
	parks []event
	wait  int // the event it waits for; -1: none
}

var (
	once    sync.Once
	on      bool
	mu      sync.Mutex
	cond    = sync.NewCond(&mu)
	evs     []*event
	pos     int
	running int
	free    bool
	moved   int
	gors    = map[string]*gor{}
	byID    = map[int64]*gor{}
	starts  = map[int]string{}
	nstart  int
)

func start() {
	if os.Getenv("GOSYM_SCHED") == "" {
		return
	}
	var c struct {
		Schedule []*event `json:"schedule"`
	}
	b, err := ioutil.ReadFile(os.Getenv("GOSYM_CASE"))
	if err != nil || json.Unmarshal(b, &c) != nil || len(c.Schedule) == 0 {
		return
	}
	run, _ := strconv.Atoi(os.Getenv("GOSYM_RUN"))
	for _, e := range c.Schedule {
		if e.Run != run {
			continue
		}
		g := get(e.G)
		if e.Kind == "pool" {
			g.pools = append(g.pools, e.Case)
			continue
		}
		if e.Park {
			g.parks = append(g.parks, *e)
			continue
		}
		g.ops = append(g.ops, len(evs))
		if e.G2 != "" {
			h := get(e.G2)
			h.ops = append(h.ops, len(evs))
		}
		evs = append(evs, e)
	}
	byID[goid()] = get("0")
	running = 1
	on = true
	go watch()
}

// watch gives the schedule up when nothing moves any more.
func watch() {
	last, still := -1, 0
	for {
		time.Sleep(50 * time.Millisecond)
		mu.Lock()
		if free {
			mu.Unlock()
			return
		}
		if moved == last {
			if still++; still > 60 {
				giveUp("stuck")
			}
		} else {
			last, still = moved, 0
		}
		mu.Unlock()
	}
}

func giveUp(why string) {
	if !free {
		free = true
		if os.Getenv("GOSYM_SCHED") == "2" {
			os.Stderr.WriteString("vg: " + why + " at event " + strconv.Itoa(pos) + "/" + strconv.Itoa(len(evs)) + "\n")
		}
	}
	cond.Broadcast()
}

func get(path string) *gor {
	g := gors[path]
	if g == nil {
		g = &gor{path: path, wait: -1}
		gors[path] = g
	}
	return g
}

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

// step lets the next event happen once everybody waits.
func step() {
	for !free && running == 0 {
		if pos >= len(evs) {
			giveUp("end of the schedule")
			return
		}
		e := evs[pos]
		if e.skip {
			pos++
			continue
		}
		n := 1
		if get(e.G).wait != pos {
			giveUp("goroutine " + e.G + " is not at " + e.Kind + " " + e.Site)
			return
		}
		if e.G2 != "" {
			n = 2
			if get(e.G2).wait != pos {
				giveUp("goroutine " + e.G2 + " is not at " + e.Kind)
				return
			}
		}
		e.rel = true
		pos++
		moved++
		running += n
		cond.Broadcast()
	}
}

func isChan(kind string) bool { return kind == "chan" || kind == "close" || kind == "yield" }

// Mem waits for the turn of a memory access.
func Mem(site string) { gate("mem", site) }

// Mid is Mem within a statement.
func Mid(site string) { gate("mid", site) }

// MemTrue is Mem in a condition.
func MemTrue(site string) bool {
	gate("mem", site)
	return true
}

// gate waits for the turn of the operation; ci is the select case to take, -2 for any.
func gate(kind, site string) (ci int, turn bool) {
	once.Do(start)
	if !on {
		return -2, false
	}
	id := goid()
	mu.Lock()
	defer mu.Unlock()
	g := byID[id]
	if free || g == nil {
		return -2, false
	}
	// accesses of statements already done that had no gate of their own
	cont := func(i int) bool {
		if i <= 0 || i >= len(g.ops) {
			return false
		}
		e, last := evs[g.ops[i]], evs[g.ops[i-1]]
		return e.Kind == "mem" && last.Kind == "mem" && e.Site == last.Site && e.Case > last.Case
	}
	for g.at < len(g.ops) && evs[g.ops[g.at]].Kind == "mem" {
		e := evs[g.ops[g.at]]
		switch {
		case kind == "mid":
			if e.Site != site || !cont(g.at+1) {
				goto skipped
			}
		case kind == "mem":
			if !cont(g.at) {
				goto skipped
			}
		case isChan(kind) || kind == "wait" || kind == "ctxerr":
		default:
			goto skipped
		}
		e.skip = true
		g.at++
	}
skipped:
	if kind == "mid" {
		kind = "mem"
	}
	match := func(e *event) bool { return e.Kind == kind && (isChan(kind) || e.Site == site) }
	if g.at >= len(g.ops) {
		park := isChan(kind)
		for i := range g.parks {
			park = park || match(&g.parks[i])
		}
		if !park {
			return -2, false
		}
		// not reached in the schedule
		running--
		step()
		for !free {
			cond.Wait()
		}
		return -2, false
	}
	k := g.ops[g.at]
	e := evs[k]
	if !match(e) {
		if isChan(kind) {
			giveUp("goroutine " + g.path + " is at " + kind + ", not " + e.Kind + " " + e.Site)
		}
		return -2, false
	}
	g.at++
	g.wait = k
	running--
	step()
	for !free && !e.rel {
		cond.Wait()
	}
	g.wait = -1
	if !e.rel {
		return -2, false
	}
	moved++
	ci = e.Case
	if e.G != g.path {
		ci = e.C2
	}
	return ci, true
}

func site(skip int) string {
	_, f, l, ok := runtime.Caller(skip + 1)
	if !ok {
		return ""
	}
	return f[strings.LastIndexByte(f, '/')+1:] + ":" + strconv.Itoa(l)
}

// Gate waits for the operation's turn and reports whether it has one.
func Gate(kind string) bool {
	_, ok := gate(kind, "")
	return ok
}

// GateAt is Gate for the caller's caller.
func GateAt(kind string) {
	once.Do(start)
	if on {
		gate(kind, site(2))
	}
}

// GateHere is GateAt for the caller.
func GateHere(kind string) {
	once.Do(start)
	if on {
		gate(kind, site(1))
	}
}

// Select returns the case to take: -1 for the default, -2 for whichever is ready.
func Select() int {
	ci, _ := gate("chan", "")
	return ci
}

// Off reports whether case i of a select is ruled out.
func Off(ci, i int) bool { return ci != -2 && ci != i }

// Retry reports whether a select that fell to its default has to try again.
func Retry(ci int) bool {
	if ci < 0 {
		return false
	}
	mu.Lock()
	f := free
	mu.Unlock()
	if f {
		return false
	}
	time.Sleep(100 * time.Microsecond)
	return true
}

// Spawn names a goroutine that is about to start.
func Spawn() int {
	once.Do(start)
	if !on {
		return -1
	}
	id := goid()
	mu.Lock()
	defer mu.Unlock()
	g := byID[id]
	if g == nil {
		return -1
	}
	g.nkids++
	running++
	nstart++
	starts[nstart] = g.path + "." + strconv.Itoa(g.nkids)
	return nstart
}

// Enter is the first thing a started goroutine does.
func Enter(n int) {
	if n < 0 {
		return
	}
	id := goid()
	mu.Lock()
	byID[id] = get(starts[n])
	mu.Unlock()
}

// Leave is the last.
func Leave() {
	if !on {
		return
	}
	id := goid()
	mu.Lock()
	defer mu.Unlock()
	if byID[id] != nil {
		delete(byID, id)
		running--
		moved++
		step()
	}
}

// PoolChoice returns which of a pool's items Get takes: 0 for the most recent, -1 for a new one.
func PoolChoice() int {
	once.Do(start)
	if !on {
		return 0
	}
	id := goid()
	mu.Lock()
	defer mu.Unlock()
	g := byID[id]
	if g == nil || len(g.pools) == 0 {
		return 0
	}
	k := g.pools[0]
	g.pools = g.pools[1:]
	return k
}

// Scribble is what another user of a pooled buffer may have left in it.
func Scribble(i int) byte {
	if i >= 64 {
		return 0xA5 ^ byte(i*7)
	}
	once.Do(start)
	scribOnce.Do(func() {
		var c struct {
			Vars map[string]uint64 `json:"vars"`
		}
		b, err := ioutil.ReadFile(os.Getenv("GOSYM_CASE"))
		if err == nil {
			json.Unmarshal(b, &c)
		}
		scrib = c.Vars
	})
	return byte(scrib["pool-scribble-"+strconv.Itoa(i)])
}

var (
	scribOnce sync.Once
	scrib     map[string]uint64
)
