package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// PropCfg is the per-property configuration in props.json.
type PropCfg struct {
	Title     string   `json:"title"`
	Trusted   []string `json:"trusted"`   // assumptions beyond the externs used
	Unreached []string `json:"unreached"` // functions the property touches that are not under contract
	Bounds    []string `json:"bounds"`    // bound of each bounded stand-in
	MinObls   int      `json:"min_obligations"`
}

type known struct{ kind, prop, obl, text string }

func loadKnown(fn string) (out []known) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		i := strings.Index(l, ":")
		if i < 0 || strings.HasPrefix(l, "#") {
			continue
		}
		k := known{kind: l[:i]}
		rest := strings.Fields(l[i+1:])
		var txt []string
		for _, f := range rest {
			switch {
			case strings.HasPrefix(f, "property=") && k.prop == "":
				k.prop = f[9:]
			case strings.HasPrefix(f, "obligation=") && k.obl == "":
				k.obl = f[11:]
			default:
				txt = append(txt, f)
			}
		}
		k.text = strings.Join(txt, " ")
		out = append(out, k)
	}
	return
}

// safeVerify turns any internal failure into an undischarged obligation.
func safeVerify(w *World, key string, demoted map[string]bool, budget time.Duration) (r *FuncResult) {
	defer func() {
		if e := recover(); e != nil {
			r = &FuncResult{Key: key, Kind: "func", Err: fmt.Sprintf("verifier failure: %v", e)}
		}
	}()
	if l, ok := strings.CutPrefix(key, "lemma "); ok {
		return verifyLemma(w, l)
	}
	return verifyFunc(w, key, demoted, budget)
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	repo := fs.String("repo", "/repo", "repository")
	root := fs.String("root", "/verif", "verification directory")
	noHarness := fs.Bool("noharness", false, "skip harnesses")
	verbose := fs.Bool("v", false, "verbose")
	fs.Parse(args)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var cfgs map[string]*PropCfg
	b, err := os.ReadFile(filepath.Join(*root, "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &cfgs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "props.json:", err)
		return 2
	}
	cfg := cfgs[*prop]
	if cfg == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	sp, err := LoadSpecs(filepath.Join(*root, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var roots []string
	for _, k := range sp.LemOrder {
		if l := sp.Lemmas[k]; !l.Axiom && contains(l.Props, *prop) {
			roots = append(roots, "lemma "+k)
		}
	}
	for _, k := range sp.Order {
		if c := sp.C[k]; !c.Extern && contains(c.Props, *prop) {
			roots = append(roots, k)
		}
	}
	var results map[string]*FuncResult
	demoted := map[string]bool{}
	loadErr := ""
	// the harness build (the slow part of a cold run) starts in parallel
	w, err := loadWorld(*repo, sp)
	if err != nil {
		loadErr = err.Error()
	} else {
		budget := 150 * time.Second
		if tier == "thorough" {
			budget = 400 * time.Second
		}
		results = verifySet(w, roots, demoted, budget, *verbose, t0.Add(500*time.Second))
	}
	if loadErr != "" {
		fmt.Fprintln(os.Stderr, "cannot load the repository:", loadErr)
		return 2
	}
	// collect
	type fail struct{ obl, detail string }
	var fails, newFails []fail
	var nObl, nDis int
	var backends map[string]int
	var assumed map[string]bool
	var solver time.Duration
	var under []map[string]any
	knowns := loadKnown(filepath.Join(*root, "known_findings.txt"))
	collect := func(silent bool) {
		fails, newFails, under, nObl, nDis, solver = nil, nil, nil, 0, 0, 0
		backends, assumed = map[string]int{}, map[string]bool{}
	var keys []string
	for k := range results {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r := results[k]
		if demoted[k] {
			continue
		}
		n, d := len(r.Obls)+r.Trivial, len(r.Obls)+r.Trivial-len(r.Failed)
		if r.Err != "" {
			n++
			fails = append(fails, fail{shortKey(k) + "#verify", r.Err})
		}
		nObl += n
		nDis += d
		if r.Trivial > 0 {
			backends["simplifier"] += r.Trivial
		}
		for _, o := range r.Obls {
			switch {
			case o.Res.status == "unsat" && o.Res.solver != "":
				backends[o.Res.solver]++
			case o.quick:
				backends["z3-5.3"]++
			}
			solver += o.Res.dur
		}
		solver += r.Solver
		seen := map[string]bool{}
		for _, o := range r.Failed {
			if !seen[o.Name] {
				seen[o.Name] = true
				fails = append(fails, fail{shortKey(k) + "#" + strings.ReplaceAll(o.Name, " ", "_"), fmt.Sprintf("%s at %s: %s\n  path: %s\n  goal: %v\n%s", o.Name, o.Pos, o.Res.status, strings.Join(o.Trace, " ; "), o.goal, trunc(o.Res.model, 6000))})
			}
		}
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, u := range r.Uses {
			if c := sp.C[u]; c != nil && c.Extern {
				assumed["extern contract "+shortKey(u)] = true
			}
			if l, ok := strings.CutPrefix(u, "lemma "); ok && sp.Lemmas[l] != nil && sp.Lemmas[l].Axiom {
				assumed["axiom "+l] = true
			}
		}
		under = append(under, map[string]any{"function": shortKey(k), "obligations": n, "discharged": d, "paths": r.Paths, "loops": r.Loops, "inferred_invariants": len(r.Invs), "inlined": short(r.Inlined), "ms": r.Dur.Milliseconds()})
	}
	if nObl < cfg.MinObls || nObl == 0 {
		fails = append(fails, fail{"obligation-count", fmt.Sprintf("only %d obligations were generated, at least %d expected", nObl, cfg.MinObls)})
	}
	for _, f := range fails {
		hit := false
		for _, k := range knowns {
			if k.kind == "finding" && k.prop == *prop && k.obl == f.obl {
				if !silent {
					fmt.Printf("KNOWN-FINDING: property=%s obligation=%s %s\n", *prop, k.obl, k.text)
				}
				hit = true
			}
		}
		if !hit {
			newFails = append(newFails, f)
		}
	}
	}
	collect(false)
	// harnesses
	var hres []*HarnessRes
	if !*noHarness {
		hs := findHarness(*root, *prop)
		budget := 8 * time.Second
		if tier == "thorough" {
			budget = 120 * time.Second
		}
		for _, h := range hs {
			if h.Bounded {
				hres = append(hres, h.run(*repo, *root, seed, budget, tier))
			}
		}
		if len(newFails) > 0 {
			if budget < 25*time.Second {
				budget = 25 * time.Second
			}
			for _, h := range hs {
				if !h.Bounded {
					hres = append(hres, h.run(*repo, *root, seed, budget, tier))
				}
			}
		}
	}
	found := ""
	for _, h := range hres {
		hit := false
		for _, k := range knowns {
			if k.kind == "finding" && k.prop == *prop && k.obl == h.Name+"#"+h.Tag && h.Found != "" {
				fmt.Printf("KNOWN-FINDING: property=%s obligation=%s %s\n", *prop, k.obl, k.text)
				hit = true
			}
		}
		if hit {
			continue
		}
		if h.Found != "" && found == "" {
			found = h.Found
		}
		if h.Bounded && h.BuildErr != "" {
			newFails = append(newFails, fail{h.Name + "#build", "the bounded stand-in did not build or run:\n" + h.BuildErr})
		}
	}
	// No failing input: the failed functions get a second attempt on a quiet machine with more time for the solvers.
	if found == "" && len(newFails) > 0 && time.Since(t0) < 300*time.Second {
		timeScale = 3
		for _, k := range keysOf(results) {
			r := results[k]
			if demoted[k] || r.ok() || r.Err != "" && !strings.Contains(r.Err, "budget") || time.Since(t0) > 420*time.Second {
				continue
			}
			fmt.Fprintf(os.Stderr, "second attempt at %s\n", shortKey(k))
			if r2 := safeVerify(w, k, demoted, 300*time.Second); r2.ok() && subset(r2.Uses, r.Uses) {
				results[k] = r2
			} else {
				break // one failure that stays is enough
			}
		}
		collect(true)
		for _, h := range hres {
			if h.Bounded && h.BuildErr != "" {
				newFails = append(newFails, fail{h.Name + "#build", "the bounded stand-in did not build or run:\n" + h.BuildErr})
			}
		}
	}
	violated := len(newFails) > 0 || found != ""
	replay := ""
	if violated {
		os.MkdirAll(filepath.Join(*root, "replays"), 0o755)
		replay = filepath.Join(*root, "replays", *prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %s\nrepository %s, seed %d, tier %s\n\n", *prop, cfg.Title, *repo, seed, tier)
		for _, f := range newFails {
			fmt.Fprintf(&sb, "FAILED OBLIGATION %s\n  %s\n\n", f.obl, f.detail)
		}
		for _, h := range hres {
			fmt.Fprintf(&sb, "HARNESS %s\n  rerun: %s\n  result: %s\n%s\n\n", h.Name, h.Cmd, h.verdict(), trunc(h.Out, 20000))
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for _, f := range newFails {
			fmt.Printf("FAILED %s: %s\n", f.obl, trunc(strings.SplitN(f.detail, "\n", 2)[0], 300))
		}
		if found != "" {
			fmt.Println(found)
		}
	}
	// evidence
	ev := map[string]any{"property": *prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": 0}
	if violated {
		ev["violations"] = max(1, len(newFails))
	}
	trusted := append([]string{
		"gov, the condition generator in /verif/gov (go/ssa of the current /repo source to SMT), golang.org/x/tools/go/ssa and the Go type checker",
		"z3 5.3 / z3 4.8.12 / cvc5 1.1.2 (an obligation counts when one of them answers unsat)",
		"machine integers are exact (wrap-around modelled); slice and string lengths are assumed at most 2^47; memory exhaustion and stack overflow are not modelled",
	}, cfg.Trusted...)
	var as []string
	for k := range assumed {
		as = append(as, k)
	}
	sort.Strings(as)
	cov := map[string]any{"obligations": nObl, "discharged": nDis, "checker_cmd": "bash run.sh " + *prop, "trusted_base": trusted,
		"functions_under_contract": under, "discharged_by": backends, "solver_time_s": solver.Seconds(), "failed_obligations": len(newFails)}
	if len(cfg.Unreached) > 0 {
		cov["functions_not_under_contract"] = cfg.Unreached
	}
	var dem []string
	for k := range demoted {
		dem = append(dem, shortKey(k))
	}
	sort.Strings(dem)
	if len(dem) > 0 {
		cov["helper_contracts_inlined_instead"] = dem
	}
	var hev []map[string]any
	for _, h := range hres {
		hev = append(hev, map[string]any{"name": h.Name, "bounded_stand_in": h.Bounded, "counts_as_proof": false, "evaluations": h.Evals, "bound": h.Bound, "result": h.verdict(), "seconds": h.Dur.Seconds()})
	}
	if hev != nil {
		cov["harness_runs"] = hev
	}
	ev["coverage"] = cov
	ev["assumptions"] = append(as, cfg.Trusted...)
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), append(eb, '\n'), 0o644)
	fmt.Printf("%s: %d functions and lemmas under contract, %d obligations, %d discharged, %.1fs\n", *prop, len(under), nObl, nDis, time.Since(t0).Seconds())
	if violated {
		if found != "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replay)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, replay)
		}
		return 1
	}
	return 0
}

func keysOf(m map[string]*FuncResult) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// subset: everything in a has been verified as part of b.
func subset(a, b []string) bool {
	for _, x := range a {
		if !contains(b, x) {
			return false
		}
	}
	return true
}

func short(ks []string) []string {
	var out []string
	for _, k := range ks {
		out = append(out, shortKey(k))
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// verifySet verifies the roots and everything their proofs rely on. A helper whose
// contract no longer holds (or which is gone) is dropped and its users are redone
// with its body, so that internal reorganisation is not by itself an alarm.
func verifySet(w *World, roots []string, demoted map[string]bool, budget time.Duration, verbose bool, stop time.Time) map[string]*FuncResult {
	res := map[string]*FuncResult{}
	for iter := 0; iter < 6; iter++ {
		pending := append([]string(nil), roots...)
		seen := map[string]bool{}
		for len(pending) > 0 {
			var batch []string
			for _, k := range pending {
				if !seen[k] {
					seen[k] = true
					batch = append(batch, k)
				}
			}
			pending = nil
			var wg sync.WaitGroup
			var mu sync.Mutex
			slots := make(chan struct{}, 6)
			for _, k := range batch {
				if res[k] != nil || demoted[k] {
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					slots <- struct{}{}
					defer func() { <-slots }()
					var r *FuncResult
					if time.Now().After(stop) {
						r = &FuncResult{Key: k, Kind: "func", Err: "time budget of the check exhausted"}
					} else {
						r = safeVerify(w, k, demoted, budget)
					}
					mu.Lock()
					res[k] = r
					mu.Unlock()
					if verbose {
						mu.Lock()
						show(r)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			for _, k := range batch {
				if r := res[k]; r != nil && !demoted[k] {
					for _, u := range r.Uses {
						if l, ok := strings.CutPrefix(u, "lemma "); ok {
							if lm := w.specs.Lemmas[l]; lm != nil && !lm.Axiom {
								pending = append(pending, u)
							}
							continue
						}
						if c := w.specs.C[u]; c != nil && !c.Extern && !c.Inline {
							pending = append(pending, u)
						}
					}
				}
			}
		}
		for k := range res {
			if !seen[k] {
				delete(res, k)
			}
		}
		changed := false
		for k, r := range res {
			c := w.specs.C[k]
			if c != nil && c.Helper && !r.ok() && !demoted[k] {
				demoted[k] = true
				changed = true
				delete(res, k)
				for u, ur := range res {
					if contains(ur.Uses, k) {
						delete(res, u)
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return res
}

// Harness is a Go test laid over a package of /repo.
type Harness struct {
	Name, Pkg, File, Prop string
	Bounded               bool
}

type HarnessRes struct {
	Harness
	Cmd, Out, Found, BuildErr, Tag, Bound string
	Evals                                 int
	Dur                                   time.Duration
}

func (h *HarnessRes) verdict() string {
	switch {
	case h.Found != "":
		return "failing input found"
	case h.BuildErr != "":
		return "did not build or run"
	}
	return "no failing input found"
}

// findHarness lists /verif/harness/<prop>/<package path>/<name>_test.go; names starting with "bounded" are stand-ins that always run.
func findHarness(root, prop string) (out []*Harness) {
	base := filepath.Join(root, "harness", prop)
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		out = append(out, &Harness{Name: strings.TrimSuffix(rel, "_test.go"), Pkg: filepath.Dir(rel), File: p, Prop: prop, Bounded: strings.HasPrefix(filepath.Base(p), "bounded")})
		return nil
	})
	return
}

var reEvals = regexp.MustCompile(`EVALUATIONS: (\d+)`)
var reBound = regexp.MustCompile(`BOUND: (.*)`)
var reCex = regexp.MustCompile(`COUNTEREXAMPLE(\[[^\]]*\])?: .*`)

func (h *Harness) run(repo, root string, seed int, budget time.Duration, tier string) *HarnessRes {
	r := &HarnessRes{Harness: *h}
	t0 := time.Now()
	defer func() { r.Dur = time.Since(t0) }()
	tmp, err := os.MkdirTemp("", "verifharness")
	if err != nil {
		r.BuildErr = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	ov := filepath.Join(tmp, "overlay.json")
	repl := map[string]string{filepath.Join(repo, h.Pkg, "zz_verif_"+strings.ToLower(h.Prop)+"_"+filepath.Base(h.File)): h.File}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ov, b, 0o644)
	run := "^TestVerif"
	args := []string{"test", "-overlay", ov, "-vet=off", "-count=1", "-v", "-run", run, "-timeout", fmt.Sprintf("%ds", int(budget.Seconds())+100), "./" + h.Pkg}
	r.Cmd = fmt.Sprintf("cd %s && VERIF_SEED=%d VERIF_BUDGET_MS=%d go test -overlay <overlay mapping %s/%s into the package> -vet=off -run '%s' ./%s", repo, seed, budget.Milliseconds(), h.Pkg, filepath.Base(h.File), run, h.Pkg)
	ctx, cancel := context.WithTimeout(context.Background(), budget+160*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1",
		fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_BUDGET_MS=%d", budget.Milliseconds()), "VERIF_TIER="+tier, "TMPDIR="+tmp)
	ob, err := cmd.CombinedOutput()
	r.Out = string(ob)
	for _, m := range reEvals.FindAllStringSubmatch(r.Out, -1) {
		n, _ := strconv.Atoi(m[1])
		r.Evals += n
	}
	if m := reBound.FindStringSubmatch(r.Out); m != nil {
		r.Bound = m[1]
	}
	if m := reCex.FindStringSubmatch(r.Out); m != nil {
		r.Found = m[0]
		r.Tag = strings.Trim(m[1], "[]")
		return r
	}
	if err != nil {
		switch {
		case strings.Contains(r.Out, "[build failed]") || strings.Contains(r.Out, "[setup failed]") || !strings.Contains(r.Out, "=== RUN"):
			r.BuildErr = trunc(r.Out, 3000)
		case strings.Contains(r.Out, "panic: ") || strings.Contains(r.Out, "fatal error: "):
			r.Tag = "crash"
			i := strings.Index(r.Out, "panic: ")
			if i < 0 {
				i = strings.Index(r.Out, "fatal error: ")
			}
			r.Found = "COUNTEREXAMPLE: the real code crashed or hung: " + strings.SplitN(r.Out[i:], "\n", 2)[0]
		default:
			r.BuildErr = trunc(r.Out, 3000)
		}
	} else if !strings.Contains(r.Out, "--- PASS") {
		r.BuildErr = "no test ran"
	}
	return r
}
