package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif/engine"
)

// harnessMain generates the main function of a harness package.
func harnessMain(pkg string) ([]byte, error) {
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", pkg, "*.go"))
	re := regexp.MustCompile(`(?m)^func (H_\w+)\(\)`)
	var ns []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, m := range re.FindAllSubmatch(b, -1) {
			ns = append(ns, string(m[1]))
		}
	}
	sort.Strings(ns)
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport \"%sv\"\n\nfunc main() {\n\tv.Main(map[string]func(){\n", engine.HarnessPrefix)
	for _, n := range ns {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	return []byte(sb.String()), nil
}

// overlayFor collects the files that are laid over the repository and the standard library.
func overlayFor(pkgs []string, native bool) (map[string][]byte, error) {
	libs := []string{"v", "vg"}
	if native {
		libs = append(libs, "vsync", "vatomic")
	}
	if contains(pkgs, "uih") {
		libs = append(libs, "vscreen")
	}
	for _, e := range []string{"hw"} {
		if _, err := os.Stat(filepath.Join(verifDir, "harness", e)); err == nil {
			libs = append(libs, e)
		}
	}
	ov, err := engine.Overlay(repoDir, filepath.Join(verifDir, "harness"), append(libs, pkgs...))
	if err != nil {
		return nil, err
	}
	for _, pk := range pkgs {
		m, err := harnessMain(pk)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repoDir, "internal", "zzverif", pk, "zz_main.go")] = m
	}
	std, err := stdPatches(native, contains(pkgs, "faulty"))
	if err != nil {
		return nil, err
	}
	for k, b := range std {
		ov[k] = b
	}
	if contains(pkgs, "uih") {
		scr, err := screenPatches()
		if err != nil {
			return nil, err
		}
		for k, b := range scr {
			ov[k] = b
		}
	}
	return ov, nil
}

// nativeBuild compiles harnesses and commands from the repository's working tree.
func nativeBuild(dir string, pkgs, cmds []string, gated *engine.Program, mem map[string]bool) error {
	ov, err := overlayFor(pkgs, true)
	if err != nil {
		return err
	}
	if gated != nil {
		src, err := gated.GatedSources(ov, mem)
		if err != nil {
			return err
		}
		for k, b := range src {
			ov[k] = b
		}
	}
	odir := filepath.Join(dir, "overlay")
	rep := map[string]string{}
	i := 0
	for k, b := range ov {
		f := filepath.Join(odir, fmt.Sprintf("%d_%s", i, filepath.Base(k)))
		i++
		if err := os.MkdirAll(odir, 0755); err != nil {
			return err
		}
		if err := os.WriteFile(f, b, 0644); err != nil {
			return err
		}
		rep[k] = f
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	oj := filepath.Join(odir, "overlay.json")
	if err := os.WriteFile(oj, j, 0644); err != nil {
		return err
	}
	bin := filepath.Join(dir, "bin")
	if err := os.MkdirAll(bin, 0755); err != nil {
		return err
	}
	args := []string{"build", "-buildvcs=false", "-overlay", oj, "-o", bin + "/"}
	if contains(pkgs, "faulty") {
		flags, err := patchedMods(dir)
		if err != nil {
			return err
		}
		args = append(args, flags...)
	}
	for _, pk := range pkgs {
		args = append(args, "./internal/zzverif/"+pk)
	}
	for _, c := range cmds {
		args = append(args, "./cmd/"+c)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v: %s", err, tail(out, 2000))
	}
	return nil
}

func head(b []byte, n int) string {
	if len(b) > n {
		return string(b[:n]) + "..."
	}
	return string(b)
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

type nativeResult struct {
	Status  string       `json:"status"`
	Msg     string       `json:"msg"`
	Obs     []engine.Obs `json:"obs"`
	Reached []string     `json:"reached"`
	text    string
}

var runSeq int64

// nativeRun replays one case on the real build. Status: done, violation, assume, crash, hang, error.
func nativeRun(dir, pkg string, c engine.Case, timeout time.Duration, gated bool) nativeResult {
	n := atomic.AddInt64(&runSeq, 1)
	wd := filepath.Join(dir, fmt.Sprintf("run%d", n))
	if err := os.MkdirAll(wd, 0755); err != nil {
		return nativeResult{Status: "error", Msg: err.Error()}
	}
	defer os.RemoveAll(wd)
	cf, of := wd+".case", wd+".out"
	defer os.Remove(cf)
	defer os.Remove(of)
	b, _ := json.Marshal(c)
	if err := os.WriteFile(cf, b, 0644); err != nil {
		return nativeResult{Status: "error", Msg: err.Error()}
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	// a run that never ends must not take the machine's memory with it
	cmd := exec.Command("/bin/bash", "-c", `ulimit -v 8000000; exec "$0"`, filepath.Join(dir, "bin", pkg))
	cmd.Dir = wd
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	env := os.Environ()
	if gated {
		env = append(env, "GOSYM_SCHED=1")
	}
	cmd.Env = append(env, "GOSYM_CASE="+cf, "GOSYM_OUT="+of, "GOSYM_BIN="+filepath.Join(dir, "bin"))
	var out lastBytes
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return nativeResult{Status: "error", Msg: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-ctx.Done():
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return nativeResult{Status: "hang", Msg: "does not end within " + timeout.String(), text: tail(out.Bytes(), 1500)}
	}
	var r nativeResult
	if rb, e := os.ReadFile(of); e == nil && json.Unmarshal(rb, &r) == nil && r.Status != "" {
		r.text = tail(out.Bytes(), 1500)
		return r
	}
	code := -1
	if cmd.ProcessState != nil {
		code = cmd.ProcessState.ExitCode()
	}
	if code == 97 {
		return nativeResult{Status: "error", Msg: tail(out.Bytes(), 500)}
	}
	msg := ""
	for _, l := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "unexpected fault") {
			msg = l
			break
		}
	}
	return nativeResult{Status: "crash", Msg: fmt.Sprintf("exit status %d (%v) %s", code, err, msg), text: tail(out.Bytes(), 3000)}
}

// reproduces reports whether the native run shows the violation the engine found.
func reproduces(c engine.Case, r nativeResult) bool {
	switch r.Status {
	case "violation", "crash":
		return true
	case "hang":
		return c.Hang || strings.Contains(c.Msg, "deadlock") || strings.Contains(c.Msg, "asleep")
	}
	return false
}

func obsDiff(c engine.Case, r nativeResult) string {
	if len(c.Obs) != len(r.Obs) {
		return fmt.Sprintf("%d observations, natively %d", len(c.Obs), len(r.Obs))
	}
	for i := range c.Obs {
		if c.Obs[i] != r.Obs[i] {
			return fmt.Sprintf("observation %s: engine %q, natively %q", c.Obs[i].Label, c.Obs[i].Val, r.Obs[i].Val)
		}
	}
	return ""
}

// lastBytes keeps the beginning and the end of what is written to it.
type lastBytes struct{ head, b []byte }

func (l *lastBytes) Write(p []byte) (int, error) {
	k := 1<<16 - len(l.head)
	if k > len(p) {
		k = len(p)
	}
	l.head = append(l.head, p[:k]...)
	l.b = append(l.b, p[k:]...)
	if len(l.b) > 1<<20 {
		l.b = append([]byte(nil), l.b[len(l.b)-1<<18:]...)
	}
	return len(p), nil
}
func (l *lastBytes) Bytes() []byte  { return append(append([]byte(nil), l.head...), l.b...) }
func (l *lastBytes) String() string { return string(l.Bytes()) }
