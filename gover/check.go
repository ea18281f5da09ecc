package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Closure verifies everything a property depends on: the functions it names,
// every contract they rely on, the lemmas used and the global invariants.
type Closure struct {
	P       *Program
	mu      sync.Mutex
	results map[string]*Result
	order   []string
	wg      sync.WaitGroup
	lim     chan struct{}
}

func (cl *Closure) add(key string) {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	if _, ok := cl.results[key]; ok {
		return
	}
	cl.results[key] = nil
	cl.order = append(cl.order, key)
	cl.wg.Add(1)
	go func() {
		defer cl.wg.Done()
		cl.lim <- struct{}{}
		var r *Result
		func() {
			defer func() { <-cl.lim }()
			defer func() {
				if e := recover(); e != nil {
					r = &Result{Key: key, Err: fmt.Sprint(e)}
				}
			}()
			r = cl.verify(key, nil)
		}()
		cl.put(key, r)
	}()
}

func (cl *Closure) put(key string, r *Result) {
	cl.mu.Lock()
	cl.results[key] = r
	cl.mu.Unlock()
	for _, k := range r.Called {
		if c := cl.P.specs.Contracts[k]; c != nil && c.Kind == "contract" {
			cl.add(k)
		}
	}
	for _, l := range r.Lemmas {
		if o := cl.P.specs.Lemmas[l]; o != nil && !o.Axiom {
			cl.add("lemma:" + l)
		}
	}
	if r.UsesGlobals {
		for _, g := range cl.P.specs.Globals {
			cl.add("globals:" + g.Pkg)
		}
	}
}

func (cl *Closure) verify(key string, noMod map[string]bool) *Result {
	switch {
	case strings.HasPrefix(key, "lemma:"):
		return cl.P.VerifyLemma(cl.P.specs.Lemmas[key[6:]])
	case strings.HasPrefix(key, "globals:"):
		return cl.P.VerifyGlobals(key[8:])
	}
	return cl.P.VerifyFunc(key, noMod)
}

func (cl *Closure) run(keys []string) {
	for _, k := range keys {
		cl.add(k)
	}
	cl.wg.Wait()
}

// refine retries with the bodies of functions whose own contract fails: a
// contract of a function the property doesn't name is only a means to an end.
func (cl *Closure) refine(named map[string]bool, deadline time.Time) (dropped []string) {
	gone := map[string]bool{}
	for round := 0; round < 4 && time.Now().Before(deadline); round++ {
		bad := map[string]bool{}
		for _, k := range cl.order {
			if r := cl.results[k]; r != nil && !r.OK() && !named[k] && !gone[k] && r.Kind == "function" {
				bad[k] = true
			}
		}
		if len(bad) == 0 {
			break
		}
		for k := range bad {
			gone[k] = true
			dropped = append(dropped, k)
		}
		var redo []string
		for _, k := range cl.order {
			r := cl.results[k]
			if r == nil || r.Kind != "function" || gone[k] {
				continue
			}
			for _, c := range r.Called {
				if bad[c] {
					redo = append(redo, k)
					break
				}
			}
		}
		var wg sync.WaitGroup
		for _, k := range redo {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl.lim <- struct{}{}
				r := cl.verify(k, gone)
				<-cl.lim
				cl.put(k, r)
			}()
		}
		wg.Wait()
		cl.wg.Wait()
	}
	for k := range gone {
		// only needed if something still relies on it
		used := false
		for _, o := range cl.order {
			r := cl.results[o]
			if r == nil || gone[o] {
				continue
			}
			for _, c := range r.Called {
				if c == k {
					used = true
				}
			}
		}
		if !used {
			cl.results[k].Dropped = true
		}
	}
	sort.Strings(dropped)
	return
}

type finding struct {
	prop, test, text string
}

// knownFindings reads the committed list of genuine defects that aren't repaired.
func knownFindings(file, id string) (out []finding) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(l[7:], " ", 3)
		if len(f) == 3 && f[0] == "property="+id {
			out = append(out, finding{id, strings.TrimPrefix(f[1], "test="), f[2]})
		}
	}
	return
}

func envInt(n string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(n)); err == nil {
		return v
	}
	return d
}

func cmdCheck(id string) int {
	t0 := time.Now()
	verif := envOr("GOVER_VERIF", "/verif")
	tier := envOr("VERIF_TIER", "quick")
	seed := envInt("VERIF_SEED", 1)
	if tier == "thorough" {
		quickTmo, slowTmo, execTmo = 20*time.Second, 90*time.Second, 900*time.Second
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, "replay-"+id+".txt")
	os.Remove(replay)
	P, err := LoadProgram(envOr("GOVER_REPO", "/repo"))
	if err == nil {
		P.specs, err = LoadSpecs(filepath.Join(verif, "contracts"), P)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	prop := P.specs.Props[id]
	if prop == nil {
		fmt.Println("no property", id)
		return 2
	}
	// the search for failing inputs and the bounded checks run alongside
	type tres struct {
		name, out string
		fail, ran bool
		secs      float64
		note      string
	}
	runTests := func(mode string, specs []string, budget time.Duration) []tres {
		var out []tres
		for _, r := range specs {
			f := strings.SplitN(r, ":", 2)
			test, _, _ := strings.Cut(f[1], " ") // what follows says what is checked
			t := time.Now()
			o, fail, ran := runReplay(P.dir, verif, f[0], test, seed, mode, budget)
			out = append(out, tres{f[0] + " " + f[1], o, fail, ran, time.Since(t).Seconds(), ""})
		}
		return out
	}
	cl := &Closure{P: P, results: map[string]*Result{}, lim: make(chan struct{}, 4)}
	var keys []string
	named := map[string]bool{}
	for _, f := range prop.Funcs {
		keys = append(keys, f)
		named[f] = true
	}
	for _, l := range prop.Lemmas {
		keys = append(keys, "lemma:"+l)
	}
	for _, g := range prop.Globals {
		keys = append(keys, "globals:"+g)
	}
	cl.run(keys)
	dropped := cl.refine(named, t0.Add(500*time.Second))

	nObl, nOK := 0, 0
	var failed []string
	var details bytes.Buffer
	var funcs []map[string]interface{}
	trusted := map[string]bool{}
	inlined := map[string]bool{}
	by := map[string]int{}
	secs := 0.0
	for _, k := range cl.order {
		r := cl.results[k]
		if r == nil || r.Dropped {
			continue
		}
		ok := 0
		for _, o := range r.Obls {
			nObl++
			if o.ok {
				ok++
				nOK++
				for _, n := range strings.Split(o.by, "+") {
					by[n]++
				}
			}
			secs += o.secs
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Inlined {
			if P.specs.Contracts[t] == nil {
				inlined[t] = true
			}
		}
		funcs = append(funcs, map[string]interface{}{"name": r.Key, "kind": r.Kind, "at": r.Where, "obligations": len(r.Obls), "discharged": ok, "paths": r.Paths,
			"loops": r.Loops, "loops_with_termination_measure": r.Measured, "loop_invariants": r.Invs, "bodies_included": r.Inlined, "seconds": round(r.Secs)})
		if !r.OK() {
			if r.Err != "" {
				failed = append(failed, r.Key+": "+r.Err)
				fmt.Fprintf(&details, "%s (%s): %s\n", r.Key, r.Where, r.Err)
			}
			for _, o := range r.Failed {
				failed = append(failed, fmt.Sprintf("%s: %s (%s)", r.Key, o.Name, o.Pos))
				fmt.Fprintf(&details, "%s: obligation not discharged: %s\n  at %s, path %s\n", r.Key, o.Name, o.Pos, o.trail)
				if o.goalS != "" {
					fmt.Fprintf(&details, "  to prove: %s\n", clip(o.goalS, 3000))
				}
				if o.must && o.script == "" {
					continue
				}
				fmt.Fprintf(&details, "  verifier: no solver of the portfolio (z3 5, z3 4.8, cvc5) proves it within its time limit\n")
			}
		}
	}
	if nObl == 0 {
		failed = append(failed, "no obligations")
	}
	violations := 0
	status := 0
	// bounded stand-ins for functions out of the verifier's reach
	budget := 20 * time.Second
	if tier == "thorough" {
		budget = 240 * time.Second
	}
	var bounded []map[string]interface{}
	report := func(why string, rest string) {
		violations++
		status = 1
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s is violated\n\n%s\n", id, why)
		os.WriteFile(replay, b.Bytes(), 0o644)
		if rest != "" {
			rest = " " + rest
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, replay, rest)
	}
	var boundedFail string
	for _, r := range runTests("bounded", prop.Bounded, budget) {
		bounded = append(bounded, map[string]interface{}{"test": r.name, "failed": r.fail, "ran": r.ran, "summary": lastLines(r.out, 3), "seconds": round(r.secs)})
		if r.fail {
			boundedFail = r.name + "\n" + r.out
		} else if !r.ran {
			fmt.Println("bounded check didn't run:", r.name, lastLines(r.out, 8))
			if len(failed) == 0 {
				failed = append(failed, "bounded check "+r.name+" could not be built against the current code")
			}
		}
	}
	var searched []string
	if boundedFail != "" && len(failed) == 0 {
		report("Failing input found on the real code by the bounded check "+clip(boundedFail, 20000), "")
	} else if len(failed) > 0 || boundedFail != "" {
		for _, f := range failed {
			fmt.Println("FAILED", f)
		}
		why := "Failed obligations:\n  " + strings.Join(failed, "\n  ") + "\n\n" + details.String()
		found := boundedFail
		if found == "" {
			for _, r := range runTests("search", append(append([]string(nil), prop.Replay...), prop.Bounded...), 90*time.Second) {
				searched = append(searched, r.name)
				if r.fail {
					found = r.name + "\n" + r.out
					break
				}
				why += "\nSearch for a failing input on the real code: " + r.name + ": none found\n" + lastLines(r.out, 30) + "\n"
			}
		}
		if found != "" {
			report(why+"\nFailing input, replayed on the real code: "+clip(found, 20000), "")
		} else {
			report(why, "no-failing-input-found")
		}
	}
	// genuine defects that are listed, each replayed on the real code
	var known []string
	for _, f := range knownFindings(filepath.Join(verif, "known-findings.txt"), id) {
		i := strings.IndexByte(f.test, ':')
		if i < 0 {
			continue
		}
		_, fail, ran := runReplay(P.dir, verif, f.test[:i], f.test[i+1:], seed, "known", 20*time.Second)
		if fail && ran {
			known = append(known, f.text)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
		}
	}
	checker := "gover check " + id + " (obligations generated from " + P.dir + " by symbolic execution of its SSA form; discharged by z3-new 5, portfolio z3 4.8.12 and cvc5 1.1.2)"
	tb := sortedKeys(trusted)
	tb = append(tb, "gover (the verification condition generator in /verif/gover) and golang.org/x/tools/go/ssa", "the SMT solvers z3 and cvc5")
	assumptions := append([]string{
		"memory is unlimited and slices, strings and maps hold fewer than 2^48 elements",
		"machine integers wrap around as in Go; floating point arithmetic is taken as exact, on finite values",
		"functions are verified one at a time: concurrent activity is accounted for only through lock discipline and channel specifications",
		"termination: of loops by measures; recursion and calls of assumed functions are assumed to return",
	}, prop.Notes...)
	cov := map[string]interface{}{
		"obligations": nObl, "discharged": nOK, "checker_cmd": checker, "trusted_base": tb,
		"functions_under_contract": funcs, "functions_without_contract_verified_within_callers": sortedKeys(inlined),
		"discharged_by_backend": by, "solver_queries": stats.queries, "solver_seconds": round(stats.seconds), "obligation_seconds": round(secs),
		"failed_obligations": failed, "helper_contracts_not_used": dropped, "bounded_checks": bounded, "known_findings": known,
		"samples": sampleObls(cl), "failing_input_search": searched,
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": violations}
	jb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, id+".json"), append(jb, '\n'), 0o644)
	fmt.Printf("%s: %d/%d obligations discharged, %d functions and lemmas, %d queries, %.0fs solver, %.0fs wall\n", id, nOK, nObl, len(funcs), stats.queries, stats.seconds, time.Since(t0).Seconds())
	return status
}

func sampleObls(cl *Closure) (out []string) {
	for _, k := range cl.order {
		r := cl.results[k]
		if r == nil {
			continue
		}
		for i, o := range r.Obls {
			if i%7 == 0 && len(out) < 40 {
				out = append(out, fmt.Sprintf("%s: %s at %s by %s", k, o.Name, o.Pos, o.by))
			}
		}
	}
	return
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

// runReplay runs a test of /verif/replay in a package of the repository.
func runReplay(repo, verif, pkg, test string, seed int, mode string, budget time.Duration) (out string, failed, ran bool) {
	dir, err := os.MkdirTemp("", "gover")
	if err != nil {
		return err.Error(), false, false
	}
	defer os.RemoveAll(dir)
	repl := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(verif, "replay", strings.ReplaceAll(pkg, "/", "_"), "*_test.go"))
	for _, f := range files {
		repl[filepath.Join(repo, pkg, "zz_"+filepath.Base(f))] = f
	}
	if b, err := os.ReadFile(filepath.Join(verif, "replay", "common.go")); err == nil {
		name := filepath.Base(pkg)
		if strings.HasPrefix(pkg, "cmd/") {
			name = "main"
		}
		f := filepath.Join(dir, "common_test.go")
		os.WriteFile(f, bytes.Replace(b, []byte("\npackage common"), []byte("\npackage "+name), 1), 0o644)
		repl[filepath.Join(repo, pkg, "zz_common_test.go")] = f
	}
	// the repository's own tests aren't part of this
	own, _ := filepath.Glob(filepath.Join(repo, pkg, "*_test.go"))
	for _, f := range own {
		repl[f] = ""
	}
	jb, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ov := filepath.Join(dir, "overlay.json")
	os.WriteFile(ov, jb, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 6*budget+120*time.Second)
	defer cancel()
	race := "-race=false"
	if strings.HasSuffix(test, "Race") {
		race = "-race"
	}
	cmd := exec.CommandContext(ctx, "go", "test", race, "-overlay", ov, "-vet=off", "-count=1", "-v", "-run", "^"+test, "-timeout", fmt.Sprintf("%ds", int(6*budget.Seconds())+60), "./"+pkg)
	cmd.Dir = repo
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_MODE="+mode, "VERIF_BUDGET="+strconv.Itoa(int(budget.Seconds())), "VERIF_SCRATCH="+dir, "TMPDIR="+dir)
	b, err := cmd.CombinedOutput()
	out = string(b)
	if strings.Contains(out, "--- FAIL: "+test) || strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ") {
		return out, !strings.Contains(out, "[build failed]") && !strings.Contains(out, "[setup failed]"), true
	}
	return out, false, err == nil && strings.Contains(out, "--- PASS: "+test)
}
