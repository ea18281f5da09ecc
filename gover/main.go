package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover verify KEY... | check ID | list")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30)
	if p := os.Getenv("GOVER_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func envOr(n, d string) string {
	if v := os.Getenv(n); v != "" {
		return v
	}
	return d
}

func load() *Program {
	P, err := LoadProgram(envOr("GOVER_REPO", "/repo"))
	if err == nil {
		P.specs, err = LoadSpecs(envOr("GOVER_CONTRACTS", "/verif/contracts"), P)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return P
}

func cmdVerify(args []string) {
	P := load()
	verbose := false
	for _, a := range args {
		switch {
		case a == "-v":
			verbose = true
			continue
		case a == "-f":
			quickTmo, slowTmo = 3*time.Second, 0
			continue
		case a == "-d":
			debugLoops = true
			continue
		}
		var r *Result
		switch {
		case strings.HasPrefix(a, "lemma:"):
			l := P.specs.Lemmas[a[6:]]
			if l == nil {
				fmt.Println("no lemma", a)
				continue
			}
			r = P.VerifyLemma(l)
		case strings.HasPrefix(a, "globals:"):
			r = P.VerifyGlobals(a[8:])
		default:
			r = P.VerifyFunc(a, nil)
		}
		show(r, verbose)
	}
	fmt.Printf("queries %d, solver %.1fs\n", stats.queries, stats.seconds)
}

func show(r *Result, verbose bool) {
	fmt.Printf("%s: %d obligations, %d failed, %d paths, %d returns, loops %d (measured %d), invariants %d, %.1fs\n", r.Key, len(r.Obls), len(r.Failed), r.Paths, r.Returns, r.Loops, r.Measured, r.Invs, r.Secs)
	if r.Err != "" {
		fmt.Println("  ERROR", r.Err)
	}
	if verbose {
		for _, o := range r.Obls {
			fmt.Printf("  %v %s %s [%s] %s %.2fs\n", o.ok, o.Pos, o.Name, o.trail, o.by, o.secs)
		}
		for _, t := range r.Trusted {
			fmt.Println("  trusted:", t)
		}
		fmt.Println("  inlined:", r.Inlined, "called:", r.Called, "lemmas:", r.Lemmas)
	}
	for i, o := range r.Failed {
		if i == 12 {
			fmt.Println("  ...", len(r.Failed)-12, "more")
			break
		}
		fmt.Printf("  FAILED %s %s [%s]\n", o.Pos, o.Name, o.trail)
		if i < 3 && o.goalS != "" {
			fmt.Println("     goal", clip(o.goalS, 700))
		}
		if o.script != "" && i < 8 {
			os.WriteFile(fmt.Sprintf("/tmp/fail%d.smt2", i), []byte(primary.pre+o.script+"(check-sat)\n"), 0o644)
		}
	}
}
