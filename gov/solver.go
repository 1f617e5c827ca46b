package main

import (
	"bufio"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// quickSolver is a persistent z3 used for path pruning.
type quickSolver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	n    int
	t    time.Duration
	memo map[[32]byte]string
}

func (q *quickSolver) start() {
	q.cmd = exec.Command("z3-new", "-in")
	q.in, _ = q.cmd.StdinPipe()
	o, _ := q.cmd.StdoutPipe()
	q.out = bufio.NewReader(o)
	if err := q.cmd.Start(); err != nil {
		panic(err)
	}
}

func (q *quickSolver) check(script string, ms int) string {
	if q.memo == nil {
		q.memo = map[[32]byte]string{}
	}
	h := sha256.Sum256([]byte(script))
	if r, ok := q.memo[h]; ok {
		return r
	}
	t0 := time.Now()
	defer func() { q.t += time.Since(t0); q.n++ }()
	if q.cmd == nil {
		q.start()
	}
	fmt.Fprintf(q.in, "(reset)\n(set-option :timeout %d)\n%s(echo \"done\")\n", ms, script)
	res := "unknown"
	ch := make(chan string, 1)
	go func() {
		res := "unknown"
		for {
			l, err := q.out.ReadString('\n')
			if err != nil {
				ch <- "unknown"
				return
			}
			l = strings.TrimSpace(l)
			if l == "done" {
				ch <- res
				return
			}
			if l == "sat" || l == "unsat" || l == "unknown" {
				res = l
			}
			if strings.HasPrefix(l, "(error") && !strings.Contains(l, "canceled") {
				solverError(l, script)
			}
		}
	}()
	select {
	case res = <-ch:
	case <-time.After(time.Duration(ms)*time.Millisecond + 3*time.Second):
		q.cmd.Process.Kill()
		q.cmd.Wait()
		q.cmd = nil
	}
	q.memo[h] = res
	return res
}

func (q *quickSolver) close() {
	if q.cmd != nil {
		q.in.Close()
		q.cmd.Process.Kill()
		q.cmd.Wait()
	}
}

type proveRes struct {
	status string // unsat (=proved), sat, unknown
	solver string
	dur    time.Duration
	model  string
}

var (
	proveMu   sync.Mutex
	proveMemo = map[[32]byte]proveRes{}
	sem       = make(chan struct{}, 8)
)

func runSolver(ctx context.Context, name string, script string, to time.Duration) (string, string) {
	var args []string
	secs := int(to.Seconds())
	if secs < 1 {
		secs = 1
	}
	switch name {
	case "z3", "z3-new":
		args = []string{"-in", fmt.Sprintf("-T:%d", secs)}
	case "z3-nombqi":
		name = "z3-new"
		args = []string{"-in", fmt.Sprintf("-T:%d", secs), "smt.mbqi=false", "smt.ematching=true", "auto_config=false", "smt.case_split=3"}
	case "z3-old":
		name = "z3"
		args = []string{"-in", fmt.Sprintf("-T:%d", secs), "smt.mbqi=false", "auto_config=false"}
	case "cvc5":
		args = []string{"--lang=smt2", "--arrays-exp", fmt.Sprintf("--tlimit=%d", to.Milliseconds()), "-"}
	case "cvc5-enum":
		name = "cvc5"
		args = []string{"--lang=smt2", "--arrays-exp", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", to.Milliseconds()), "-"}
	}
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.CombinedOutput()
	s := string(out)
	first := ""
	for _, l := range strings.Split(s, "\n") { // z3 puts its warnings before the verdict
		if l = strings.TrimSpace(l); l != "" && !strings.HasPrefix(l, "WARNING") {
			first = l
			break
		}
	}
	switch first {
	case "sat", "unsat":
		return first, s
	}
	if strings.Contains(s, "rror") && !strings.Contains(s, "interrupted") && !strings.Contains(s, "canceled") {
		return "error", s
	}
	return "unknown", s
}

// prove races the portfolio: first a short z3 attempt, then all.
// timeScale multiplies the solver time limits; it is raised for the second attempt at a function whose obligations failed.
var timeScale time.Duration = 1

func prove(script string, first, full time.Duration) proveRes {
	first, full = first*timeScale, full*timeScale
	h := sha256.Sum256([]byte(fmt.Sprint(first, full) + script))
	hp := sha256.Sum256([]byte(script)) // what is proved stays proved, whatever the time allowed
	proveMu.Lock()
	for _, h := range [][32]byte{h, hp} {
		if r, ok := proveMemo[h]; ok {
			proveMu.Unlock()
			return r
		}
	}
	proveMu.Unlock()
	sem <- struct{}{}
	defer func() { <-sem }()
	t0 := time.Now()
	done := func(r proveRes) proveRes {
		r.dur = time.Since(t0)
		proveMu.Lock()
		proveMemo[h] = r
		if r.status == "unsat" {
			proveMemo[hp] = r
		}
		proveMu.Unlock()
		return r
	}
	st, out := runSolver(context.Background(), "z3-nombqi", script, first)
	if st == "error" {
		solverError(out, script)
	}
	if st == "unsat" {
		return done(proveRes{status: st, solver: "z3-5.3"})
	}
	if full == 0 {
		return done(proveRes{status: "unknown", solver: "z3-5.3"})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type rr struct{ st, out, n string }
	ch := make(chan rr, 4)
	names := []string{"z3-new", "cvc5", "z3-old", "z3-nombqi"}
	for _, n := range names {
		go func() {
			st, out := runSolver(ctx, n, script, full)
			ch <- rr{st, out, n}
		}()
	}
	sat := ""
	for range names {
		r := <-ch
		if r.st == "unsat" {
			sn := map[string]string{"z3-new": "z3-5.3", "z3-nombqi": "z3-5.3", "cvc5": "cvc5-1.1.2", "z3-old": "z3-4.8.12"}[r.n]
			return done(proveRes{status: "unsat", solver: sn})
		}
		if r.st == "sat" && r.n == "z3-new" {
			sat = r.n
			break
		}
	}
	if sat != "" {
		return done(proveRes{status: "sat", solver: sat})
	}
	return done(proveRes{status: "unknown", solver: "portfolio"})
}

// modelOf asks z3 for a model of the negated obligation (best effort).
func modelOf(script string) string {
	st, out := runSolver(context.Background(), "z3-new", "(set-option :produce-models true)\n"+script+"(get-model)\n", 5*time.Second)
	if st == "sat" {
		return out
	}
	return st + "\n" + trunc(out, 2000)
}

// proveBatch checks several goals against the same assumptions in one incremental z3 process.
func proveBatch(script string, n int, ms int) []string {
	ms *= int(timeScale)
	sem <- struct{}{}
	defer func() { <-sem }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(n*ms+3000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "smt.ematching=true", "auto_config=false", "smt.case_split=3")
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.CombinedOutput()
	res := make([]string, n)
	i := 0
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") && !strings.Contains(l, "cancel") && !strings.Contains(l, "timeout") {
			solverError(l, script)
		}
		if (l == "sat" || l == "unsat" || l == "unknown" || l == "timeout") && i < n {
			res[i] = l
			i++
		}
	}
	return res
}

// solverError reports a malformed query; the obligation stays undischarged.
func solverError(msg, script string) {
	fmt.Fprintln(os.Stderr, "solver error: "+trunc(msg, 500))
	if debug {
		os.WriteFile("/tmp/solver_error.smt2", []byte(script), 0o644)
		panic("solver error, script in /tmp/solver_error.smt2")
	}
}
