// Command gosym decides the properties of /verif/properties.jsonl for the code in /repo by
// symbolic execution of its SSA form. See /verif/DESIGN.md.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func main() {
	if f := os.Getenv("GOSYM_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			time.AfterFunc(25*time.Second, pprof.StopCPUProfile)
		}
	}

	debug.SetGCPercent(200)
	if d := os.Getenv("GOSYM_REPO"); d != "" { // development only: checks always use /repo
		repoDir = d
	}
	if d := os.Getenv("GOSYM_VERIF"); d != "" {
		verifDir = d
	}
	setupEnv()
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gosym check ID [-thorough] [-only HARNESS] [-time S] [-v] | replay FILE | list")
		os.Exit(2)
	}
	switch args[0] {
	case "list":
		for _, c := range checks {
			fmt.Println(c.id)
		}
	case "check":
		o := options{tier: os.Getenv("VERIF_TIER")}
		if o.tier != "thorough" {
			o.tier = "quick"
		}
		o.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
		var ids []string
		for i := 1; i < len(args); i++ {
			switch args[i] {
			case "-thorough":
				o.tier = "thorough"
			case "-quick":
				o.tier = "quick"
			case "-only":
				i++
				o.only = args[i]
			case "-time":
				i++
				n, _ := strconv.Atoi(args[i])
				o.time = time.Duration(n) * time.Second
			case "-debug":
				o.debug = true
				o.verbose = true
			case "-v":
				o.verbose = true
			case "-nonative":
				o.nonative = true
			case "-workers":
				i++
				o.workers, _ = strconv.Atoi(args[i])
			case "-p":
				i++
				kv := strings.SplitN(args[i], "=", 2)
				n, _ := strconv.ParseInt(kv[1], 10, 64)
				if o.params == nil {
					o.params = map[string]int64{}
				}
				o.params[kv[0]] = n
			default:
				ids = append(ids, args[i])
			}
		}
		code := 0
		for _, id := range ids {
			c := findCheck(id)
			if c == nil {
				fmt.Fprintln(os.Stderr, "no check", id)
				os.Exit(2)
			}
			if r := runCheck(c, o); r == 1 || (r != 0 && code == 0) {
				code = r
			}
		}
		os.Exit(code)
	case "replay":
		os.Exit(replayFile(args[1]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", args[0])
		os.Exit(2)
	}
}

func setupEnv() {
	for _, d := range []string{"/opt/veriftools/go1.27.3/bin"} {
		if _, err := os.Stat(filepath.Join(d, "go")); err == nil {
			os.Setenv("PATH", d+":"+os.Getenv("PATH"))
		}
	}
	for k, v := range map[string]string{
		"GOTOOLCHAIN": "local", "GOFLAGS": "-mod=readonly", "GOPROXY": "off", "GO111MODULE": "on", "GOWORK": "off",
		"CGO_ENABLED": "0", "GONOSUMDB": "*", "GOFLAGS_": "",
	} {
		os.Setenv(k, v)
	}
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
	if os.Getenv("GOMODCACHE") == "" {
		os.Setenv("GOMODCACHE", "/root/go/pkg/mod")
	}
}
