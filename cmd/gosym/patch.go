package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// stdPatches returns replaced files outside the repository. zlib's reader can be given another
// way of delivering its output; for the native side, with faults, a file operation can be made to
// fail as the engine's model of it does.
func stdPatches(native, faults bool) (map[string][]byte, error) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, fmt.Errorf("go env: %v", err)
	}
	src := filepath.Join(strings.TrimSpace(string(out)), "src")
	ov := map[string][]byte{}
	// rename renames functions, for wrappers to take their place.
	rename := func(file string, decls ...string) error {
		b, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		s := string(b)
		for _, d := range decls {
			k := strings.LastIndex(strings.TrimSuffix(d, "("), " ") + 1
			if strings.Count(s, "\n"+d) != 1 {
				return fmt.Errorf("%s is not as expected (%s)", file, d)
			}
			n := d[k:]
			s = strings.Replace(s, "\n"+d, "\n"+d[:k]+"zz"+n, 1)
		}
		ov[file] = []byte(s)
		return nil
	}
	zr := filepath.Join(src, "compress", "zlib", "reader.go")
	if err := rename(zr, "func (z *reader) Read("); err != nil {
		return nil, err
	}
	ov[zr] = append(ov[zr], `
// ZZRead delivers what a reader reads.
var ZZRead func(real func([]byte) (int, error), p []byte) (int, error)

func (z *reader) Read(p []byte) (int, error) {
	if ZZRead != nil {
		return ZZRead(z.zzRead, p)
	}
	return z.zzRead(p)
}
`...)
	if !native || !faults {
		return ov, nil
	}
	cc := filepath.Join(src, "context", "context.go")
	if err := rename(cc, "func WithCancel("); err != nil {
		return nil, err
	}
	ov[filepath.Join(src, "context", "zz_fault.go")] = []byte(`package context

import "os"

func WithCancel(parent Context) (Context, CancelFunc) {
	ctx, cancel := zzWithCancel(parent)
	os.ZZSetCancel(cancel)
	return ctx, cancel
}
`)
	od := filepath.Join(src, "os")
	for f, ds := range map[string][]string{
		"file.go":            {"func (f *File) Read(", "func (f *File) ReadAt(", "func (f *File) Write(", "func (f *File) WriteAt(", "func (f *File) Seek(", "func OpenFile(", "func Rename("},
		"file_unix.go":       {"func Remove("},
		"file_posix.go":      {"func (f *File) Close(", "func (f *File) Truncate(", "func (f *File) Sync("},
		"zero_copy_linux.go": {"func (f *File) readFrom(", "func (f *File) writeTo("},
	} {
		if err := rename(filepath.Join(od, f), ds...); err != nil {
			return nil, err
		}
	}
	ov[filepath.Join(od, "zz_fault.go")] = []byte(osFaults)
	return ov, nil
}

// screenPatches has the user interface use the harness's terminal and clock: calls of
// tcell.NewScreen and time.NewTicker in internal/ui, and of context.WithCancel anywhere, go
// to the package vscreen.
func screenPatches() (map[string][]byte, error) {
	var fs []string
	for _, d := range []string{"internal", "cmd"} {
		err := filepath.WalkDir(filepath.Join(repoDir, d), func(f string, e os.DirEntry, err error) error {
			if err == nil && !e.IsDir() && strings.HasSuffix(f, ".go") {
				fs = append(fs, f)
			}
			return err
		})
		if err != nil {
			return nil, err
		}
	}
	ov := map[string][]byte{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		set := token.NewFileSet()
		tree, err := parser.ParseFile(set, f, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		names := map[string]string{} // of the imported packages
		for _, im := range tree.Imports {
			path := strings.Trim(im.Path.Value, "\"`")
			name := path[strings.LastIndex(path, "/")+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			names[name] = path
		}
		n := 0
		ast.Inspect(tree, func(x ast.Node) bool {
			s, ok := x.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			if id, ok := s.X.(*ast.Ident); ok && id.Obj == nil {
				name := names[id.Name] + "." + s.Sel.Name
				if name == "time.NewTicker" && !strings.HasPrefix(f, filepath.Join(repoDir, "internal", "ui")) {
					return true
				}
				switch name {
				case "github.com/gdamore/tcell.NewScreen", "time.NewTicker", "context.WithCancel", "context.WithCancelCause":
					id.Name = "zzscreen"
					n++
				}
			}
			return true
		})
		if n == 0 {
			continue
		}
		var sb strings.Builder
		if err := format.Node(&sb, set, tree); err != nil {
			return nil, err
		}
		s := sb.String()
		k := strings.Index(s, "\nimport ")
		if k < 0 {
			return nil, fmt.Errorf("%s is not as expected", f)
		}
		s = s[:k] + "\nimport zzscreen \"github.com/squizzling/osmindex/internal/zzverif/vscreen\"\n" + s[k:]
		for name, path := range names {
			switch path {
			case "github.com/gdamore/tcell":
				s += "\nvar _ " + name + ".Event\n"
			case "context":
				s += "\nvar _ " + name + ".Context\n"
			case "time":
				s += "\nvar _ " + name + ".Time\n"
			}
		}
		ov[f] = []byte(s)
	}
	return ov, nil
}

const mmapMod = "github.com/edsrzf/mmap-go"

// patchedMods lays out a copy of the mmap module whose calls can be made to fail, and a go.mod
// that uses it. It returns the build's flags for that.
func patchedMods(dir string) ([]string, error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", mmapMod)
	cmd.Dir = repoDir
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list %s: %v", mmapMod, err)
	}
	src, dst := strings.TrimSpace(string(out)), filepath.Join(dir, "mmap")
	if err := os.MkdirAll(dst, 0755); err != nil {
		return nil, err
	}
	fs, err := filepath.Glob(filepath.Join(src, "*"))
	if err != nil {
		return nil, err
	}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if filepath.Base(f) == "mmap.go" {
			s := string(b)
			for _, d := range []string{"\nfunc MapRegion(", "\nfunc (m *MMap) Unmap("} {
				if strings.Count(s, d) != 1 {
					return nil, fmt.Errorf("%s is not as expected", f)
				}
				k := strings.LastIndex(d, " ") + 1
				s = strings.Replace(s, d, d[:k]+"zz"+d[k:], 1)
			}
			b = []byte(s)
		}
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(f)), b, 0644); err != nil {
			return nil, err
		}
	}
	if err := os.WriteFile(filepath.Join(dst, "zz_fault.go"), []byte(mmapFaults), 0644); err != nil {
		return nil, err
	}
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return nil, err
	}
	mf := filepath.Join(dir, "faults.mod")
	mod = append(mod, ("\nreplace " + mmapMod + " => " + dst + "\n")...)
	if err := os.WriteFile(mf, mod, 0644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "faults.sum"), sum, 0644); err != nil {
		return nil, err
	}
	return []string{"-modfile=" + mf, "-mod=mod"}, nil
}

const osFaults = `package os

import (
	"io"
	"sync"
	"syscall"
)

var zzMu sync.Mutex
var zzOcc map[string]int
var zzSpec string
var zzInit bool
var zzCancel func()

// ZZSetCancel is told how the command can be cancelled.
func ZZSetCancel(f func()) {
	if zzCancel == nil {
		zzCancel = f
	}
}

// ZZFault gives the kind of fault of the next operation op on that file, or nothing.
func ZZFault(op, name string) string {
	zzMu.Lock()
	defer zzMu.Unlock()
	if !zzInit {
		zzInit = true
		zzSpec, _ = syscall.Getenv("GOSYM_FAULT")
		zzOcc = map[string]int{}
	}
	if zzSpec == "" {
		return ""
	}
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '/' {
			name = name[i+1:]
			break
		}
	}
	if name == "" {
		name = "."
	}
	key := op + ":" + name
	zzOcc[key]++
	n := zzOcc[key]
	d := ""
	for n > 0 {
		d = string(rune('0'+n%10)) + d
		n /= 10
	}
	key += ":" + d + ":"
	if len(zzSpec) > len(key) && zzSpec[:len(key)] == key {
		switch zzSpec[len(key):] {
		case "kill":
			syscall.Exit(137)
		case "cancel":
			if zzCancel != nil {
				zzCancel()
			}
			return ""
		}
		return zzSpec[len(key):]
	}
	return ""
}

func zzActive() bool {
	ZZFault("active", "")
	return zzSpec != ""
}

func (f *File) zzStd() bool { return f == nil || f == Stdin || f == Stdout || f == Stderr }

func (f *File) Read(b []byte) (int, error) {
	if !f.zzStd() && len(b) > 0 && zzActive() && f.zzLeft(-1) > 0 {
		switch ZZFault("read", f.name) {
		case "fail":
			return 0, &PathError{Op: "read", Path: f.name, Err: syscall.EIO}
		case "part":
			n := f.zzLeft(-1)
			if len(b) < n {
				n = len(b)
			}
			return f.zzRead(b[:(n+1)/2])
		}
	}
	return f.zzRead(b)
}

// zzLeft is how much there is to read.
func (f *File) zzLeft(at int64) int {
	fi, err := f.Stat()
	if err != nil {
		return 0
	}
	if at < 0 {
		if at, err = f.zzSeek(0, 1); err != nil {
			return 0
		}
	}
	return int(fi.Size() - at)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if !f.zzStd() && len(b) > 0 && zzActive() && f.zzLeft(off) > 0 {
		switch ZZFault("read", f.name) {
		case "fail":
			return 0, &PathError{Op: "read", Path: f.name, Err: syscall.EIO}
		case "part":
			n := f.zzLeft(off)
			if len(b) < n {
				n = len(b)
			}
			n, err := f.zzReadAt(b[:(n+1)/2], off)
			if err == nil {
				err = io.EOF
			}
			return n, err
		}
	}
	return f.zzReadAt(b, off)
}

func (f *File) Write(b []byte) (int, error) {
	if !f.zzStd() && len(b) > 0 {
		switch ZZFault("write", f.name) {
		case "fail":
			return 0, &PathError{Op: "write", Path: f.name, Err: syscall.EIO}
		case "part":
			n, err := f.zzWrite(b[:len(b)/2])
			if err == nil {
				err = &PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}
			}
			return n, err
		case "half":
			f.zzWrite(b[:len(b)/2])
			syscall.Exit(137)
		}
	}
	return f.zzWrite(b)
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if !f.zzStd() {
		switch ZZFault("write", f.name) {
		case "fail":
			return 0, &PathError{Op: "write", Path: f.name, Err: syscall.EIO}
		case "half":
			f.zzWriteAt(b[:len(b)/2], off)
			syscall.Exit(137)
		}
	}
	return f.zzWriteAt(b, off)
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if !f.zzStd() && ZZFault("seek", f.name) != "" {
		return 0, &PathError{Op: "seek", Path: f.name, Err: syscall.EIO}
	}
	return f.zzSeek(offset, whence)
}

func (f *File) Close() error {
	if !f.zzStd() && ZZFault("close", f.name) != "" {
		if fi, err := f.Stat(); err == nil {
			f.zzTruncate(fi.Size() / 2) // fails if it is not open for writing
		}
		f.zzClose()
		return &PathError{Op: "close", Path: f.name, Err: syscall.EIO}
	}
	return f.zzClose()
}

func (f *File) Sync() error {
	if !f.zzStd() && ZZFault("sync", f.name) != "" {
		return &PathError{Op: "sync", Path: f.name, Err: syscall.EIO}
	}
	return f.zzSync()
}

func (f *File) Truncate(n int64) error {
	if !f.zzStd() && ZZFault("truncate", f.name) != "" {
		return &PathError{Op: "truncate", Path: f.name, Err: syscall.EIO}
	}
	return f.zzTruncate(n)
}

func (f *File) readFrom(r io.Reader) (int64, bool, error) {
	if zzActive() {
		return 0, false, nil
	}
	return f.zzreadFrom(r)
}

func (f *File) writeTo(w io.Writer) (int64, bool, error) {
	if zzActive() {
		return 0, false, nil
	}
	return f.zzwriteTo(w)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if len(name) == 0 || name[0] != '/' { // not the system's files
		if ZZFault("open", name) != "" {
			return nil, &PathError{Op: "open", Path: name, Err: syscall.EACCES}
		}
	}
	return zzOpenFile(name, flag, perm)
}

func Rename(from, to string) error {
	if ZZFault("rename", from) != "" {
		return &LinkError{"rename", from, to, syscall.EIO}
	}
	return zzRename(from, to)
}

func Remove(name string) error {
	if ZZFault("remove", name) != "" {
		return &PathError{Op: "remove", Path: name, Err: syscall.EIO}
	}
	return zzRemove(name)
}
`

const mmapFaults = `package mmap

import (
	"os"
	"syscall"
)

func MapRegion(f *os.File, length int, prot, flags int, offset int64) (MMap, error) {
	if os.ZZFault("mmap", f.Name()) != "" {
		return nil, syscall.ENOMEM
	}
	return zzMapRegion(f, length, prot, flags, offset)
}

func (m *MMap) Unmap() error {
	if os.ZZFault("unmap", "") != "" {
		return syscall.EINVAL
	}
	return m.zzUnmap()
}
`

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
