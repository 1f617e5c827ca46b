package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

var (
	debug, debugAll bool
	dumpDir         string
)

var modelLen = 300

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	fs := flag.NewFlagSet("gov", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	cdir := fs.String("contracts", "/verif/contracts", "contracts")
	only := fs.String("only", "", "substring of contract keys")
	fs.BoolVar(&debug, "v", false, "debug")
	fs.BoolVar(&debugAll, "vv", false, "debug all")
	fs.StringVar(&dumpDir, "dump", "", "dump failing scripts")
	fs.Parse(os.Args[1:])
	debug = debug || debugAll
	sp, err := LoadSpecs(*cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	t0 := time.Now()
	w, err := loadWorld(*repo, sp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %v\n", time.Since(t0))
	for _, k := range sp.LemOrder {
		l := sp.Lemmas[k]
		if l.Axiom || *only != "" && !strings.Contains("lemma "+k, *only) {
			continue
		}
		show(verifyLemma(w, k))
	}
	for _, k := range sp.Order {
		c := sp.C[k]
		if c.Extern || *only != "" && !strings.Contains(k, *only) {
			continue
		}
		show(verifyFunc(w, k, map[string]bool{}, 5*time.Minute))
	}
}

func show(r *FuncResult) {
	st := "ok  "
	if !r.ok() {
		st = "FAIL"
	}
	q := 0
	for _, o := range r.Obls {
		if o.quick {
			q++
		}
	}
	fmt.Printf("%s %-60s obls %d (quick %d, trivial %d) paths %d loops %d rounds %d %v\n", st, shortKey(r.Key), len(r.Obls), q, r.Trivial, r.Paths, r.Loops, r.Rounds, r.Dur.Round(time.Millisecond))
	if r.Err != "" {
		fmt.Println("     ERR", r.Err)
	}
	seen := map[string]int{}
	for _, o := range r.Failed {
		seen[o.Name]++
		if seen[o.Name] > 1 {
			continue
		}
		fmt.Printf("     %s %s [%s] %s\n", o.Res.status, o.Name, o.Pos, strings.Join(o.Trace, " ; "))
		if debug {
			fmt.Println("       goal", o.goal)
			if debugAll {
				for _, a := range o.as {
					fmt.Println("         ", a)
				}
			}
			if o.Res.model != "" {
				fmt.Println(trunc(o.Res.model, modelLen))
			}
		}
	}
	if debug {
		for _, i := range r.Invs {
			fmt.Println("     inv", i)
		}
		for _, i := range r.Assumed {
			fmt.Println("     assumed", i)
		}
	}
}

