// Package v is the interface between a harness and whatever executes it. Under the symbolic
// engine every function here is intercepted; compiled natively it replays one concrete case,
// read from the file named by GOSYM_CASE, against the real build.
package v

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/squizzling/osmindex/internal/zzverif/vg"
)

type fault struct {
	Run  int    `json:"run"`
	Op   string `json:"op"`
	Kind string `json:"kind"`
}

type obs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

type kase struct {
	Harness string            `json:"harness"`
	Params  map[string]int64  `json:"params"`
	Vars    map[string]uint64 `json:"vars"`
	Choices map[string]int    `json:"choices"`
	Points  []string          `json:"points"`
	Faults  []fault           `json:"faults"`
}

type result struct {
	Status  string   `json:"status"` // done, violation, assume
	Msg     string   `json:"msg"`
	Obs     []obs    `json:"obs"`
	Reached []string `json:"reached"`
}

var (
	mu     sync.Mutex
	cas    kase
	res    result
	names  = map[string]int{}
	out    []byte
	outAt  int
	fail   string
	nruns  int
	pcond  = sync.NewCond(&mu)
	pointI int
)

func finish(status, msg string) {
	mu.Lock()
	defer mu.Unlock()
	res.Status, res.Msg = status, msg
	b, _ := json.Marshal(res)
	if err := ioutil.WriteFile(os.Getenv("GOSYM_OUT"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(97)
	}
	switch status {
	case "done":
		os.Exit(0)
	case "violation":
		fmt.Println("GOSYM-VIOLATION", msg)
		os.Exit(99)
	}
	os.Exit(98)
}

// Main runs the harness function the case names.
func Main(hs map[string]func()) {
	b, err := ioutil.ReadFile(os.Getenv("GOSYM_CASE"))
	if err == nil {
		err = json.Unmarshal(b, &cas)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "case:", err)
		os.Exit(97)
	}
	h := hs[cas.Harness]
	if h == nil {
		fmt.Fprintln(os.Stderr, "no harness", cas.Harness)
		os.Exit(97)
	}
	h()
	finish("done", "")
}

func uname(name string) string {
	n := names[name]
	names[name] = n + 1
	return fmt.Sprintf("%s#%d", name, n)
}

func get(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := uname(name)
	x, ok := cas.Vars[k]
	if !ok {
		return 0 // the path did not depend on it
	}
	return x
}

// Symbolic inputs.
func U64(name string) uint64  { return get(name) }
func I64(name string) int64   { return int64(get(name)) }
func U32(name string) uint32  { return uint32(get(name)) }
func I32(name string) int32   { return int32(get(name)) }
func U16(name string) uint16  { return uint16(get(name)) }
func Byte(name string) byte   { return byte(get(name)) }
func Bool(name string) bool   { return get(name)&1 == 1 }
func F64(name string) float64 { return math.Float64frombits(get(name)) }
func Int(name string, lo, hi int) int {
	n := int(int64(get(name)))
	Assume(lo <= n && n <= hi)
	return n
}
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name))
	}
	return b
}

// Choose picks one of n alternatives by forking.
func Choose(name string, n int) int {
	mu.Lock()
	defer mu.Unlock()
	return cas.Choices[uname("choose "+name)]
}

// Concrete forks over the values of n.
func Concrete(n int) int { return n }

func Assume(c bool) {
	if !c {
		finish("assume", "")
	}
}

func Assert(c bool, id string) {
	if !c {
		finish("violation", id)
	}
}

// Reach marks a point that the exploration must have visited at least once.
func Reach(id string) {
	mu.Lock()
	res.Reached = append(res.Reached, id)
	mu.Unlock()
}

// Symbolic is true under the engine.
func Symbolic() bool { return false }

// Param is a bound set by the driver for the tier.
func Param(name string, def int) int {
	if x, ok := cas.Params[name]; ok {
		return int(x)
	}
	return def
}

func observe(label, val string) {
	mu.Lock()
	res.Obs = append(res.Obs, obs{label, val})
	mu.Unlock()
}

func ObserveU64(label string, x uint64) { observe(label, strconv.FormatUint(x, 10)) }
func ObserveBytes(label string, b []byte) {
	var p []string
	for _, c := range b {
		p = append(p, strconv.Itoa(int(c)))
	}
	observe(label, strings.Join(p, ","))
}
func ObserveI64s(label string, s []int64) {
	var p []string
	for _, x := range s {
		p = append(p, strconv.FormatUint(uint64(x), 10))
	}
	observe(label, strings.Join(p, ","))
}
func ObserveStr(label string, s string) { observe(label, s) }

// Exploration options; no effect natively.
func SchedAll()           {}
func SchedReverse()       {}
func ShuffleMaps(max int) {}

// AnyClock lets lookups take any time, none and a negative one included.
func AnyClock() {}

func VisibleAtomics()         {}
func QuietAtomics(pkg string) {}
func PoolChoice()             {}
func ForkIndex()              {}
func HangIsViolation(n int)   {}
func Faults(n int)            {}

// Kill lets commands be killed at n of their file operations: before the operation, or in the
// middle of a write of more than 16 bytes. Their status is Killed then.
func Kill(n int) {}

const Killed = 137

// Cancel lets commands be cancelled (as by their user, with the first context they make) at n of
// their file operations.
func Cancel(n int) {}

func Debug(a ...interface{}) {}

// Idle returns once nothing else can run.
func Idle() { time.Sleep(60 * time.Millisecond) }

// Yield is a scheduling point.
func Yield() {
	if !vg.Gate("yield") {
		time.Sleep(time.Millisecond)
	}
}

// Point is a scheduling point whose order across goroutines is kept in the replay.
func Point(label string) {
	mu.Lock()
	defer mu.Unlock()
	deadline := time.Now().Add(300 * time.Millisecond)
	in := false
	for _, p := range cas.Points[min0(pointI, len(cas.Points)):] {
		in = in || p == label
	}
	for in && pointI < len(cas.Points) && cas.Points[pointI] != label && time.Now().Before(deadline) {
		mu.Unlock()
		time.Sleep(200 * time.Microsecond)
		mu.Lock()
	}
	if pointI < len(cas.Points) && cas.Points[pointI] == label {
		pointI++
	}
}

func min0(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}

// Files live in the current directory, which the driver creates for the run.
func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(97)
	}
}

func WriteFile(name string, data []byte) { check(ioutil.WriteFile(name, data, 0644)) }
func ReadFile(name string) []byte {
	b, err := ioutil.ReadFile(name)
	if err != nil {
		return nil
	}
	return b
}
func Exists(name string) bool { _, err := os.Stat(name); return err == nil }
func FileCount() int          { return len(strings.Fields(FileList())) }
func FileList() string {
	fs, err := filepath.Glob("*")
	check(err)
	sort.Strings(fs)
	return strings.Join(fs, " ")
}

// Itoa gives the decimal form of a number for use in command arguments and comparisons.
func Itoa(x uint64) string { return strconv.FormatUint(x, 10) }

// Dec is Itoa for signed numbers.
func Dec(x int64) string { return strconv.FormatInt(x, 10) }

// Run runs one of the repository's commands in the current directory and returns its exit status.
func Run(cmd string, args ...string) int {
	nruns++
	c := exec.Command(filepath.Join(os.Getenv("GOSYM_BIN"), cmd), args...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	c.Env = append(os.Environ(), "TERM=dumb", "GOSYM_RUN="+strconv.Itoa(nruns))
	for _, f := range cas.Faults {
		if f.Run == nruns {
			c.Env = append(c.Env, "GOSYM_FAULT="+f.Op+":"+f.Kind)
		}
	}
	check(c.Start())
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	status := 0
	fail = ""
	select {
	case err := <-done:
		if err != nil {
			status = c.ProcessState.ExitCode()
			if status < 0 {
				status = 2
			}
			fail = se.String()
		}
	case <-time.After(15 * time.Second):
		c.Process.Kill()
		<-done
		status, fail = 2, "does not end"
	}
	out, outAt = so.Bytes(), 0
	return status
}

func FailText() string { return fail }

// Reading the standard output of the last command.
func OutLit(s string) bool {
	if bytes.HasPrefix(out[outAt:], []byte(s)) {
		outAt += len(s)
		return true
	}
	return false
}

func OutNum() (int64, bool) {
	i := outAt
	if i < len(out) && out[i] == '-' {
		i++
	}
	for i < len(out) && out[i] >= '0' && out[i] <= '9' {
		i++
	}
	t := string(out[outAt:i])
	n, err := strconv.ParseInt(t, 10, 64)
	if err != nil {
		u, err := strconv.ParseUint(t, 10, 64)
		if err != nil {
			return 0, false
		}
		n = int64(u)
	}
	outAt = i
	return n, true
}

// OutHex reads a number in hexadecimal digits.
func OutHex() (uint64, bool) {
	i := outAt
	for i < len(out) && (out[i] >= '0' && out[i] <= '9' || out[i] >= 'a' && out[i] <= 'f') {
		i++
	}
	n, err := strconv.ParseUint(string(out[outAt:i]), 16, 64)
	if err != nil {
		return 0, false
	}
	outAt = i
	return n, true
}

// OutF reads the number as %f prints it.
func OutF(x float64) bool { return OutLit(fmt.Sprintf("%f", x)) }

func OutSkipLine() {
	i := bytes.IndexByte(out[outAt:], '\n')
	if i < 0 {
		outAt = len(out)
		return
	}
	outAt += i + 1
}

func OutEOF() bool { return outAt >= len(out) }
