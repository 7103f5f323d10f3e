package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

var dumpDir = ""

func dumpScript(s, r string) {
	fmt.Fprintln(os.Stderr, "solver:", r)
	if dumpDir != "" {
		_ = os.WriteFile(filepath.Join(dumpDir, "bad.smt2"), []byte(s), 0o644)
	}
}

type report struct {
	Contracts        []*conReport      `json:"contracts"`
	Solvers          map[string]string `json:"solvers"`
	Queries          int               `json:"queries"`
	SolverSec        float64           `json:"solver_s"`
	WallSec          float64           `json:"wall_s"`
	LoadSec          float64           `json:"load_s"`
	Error            string            `json:"error,omitempty"`
	Notes            []string          `json:"notes,omitempty"`
	Canaries         int               `json:"canaries"`
	CanariesAccepted []string          `json:"canaries_accepted"`
}

type conReport struct {
	Name    string         `json:"name"`
	Target  string         `json:"target"`
	Props   []string       `json:"props"`
	Effects string         `json:"effects"`
	Millis  int64          `json:"ms"`
	Err     string         `json:"err,omitempty"`
	N       int            `json:"n"`
	OK      int            `json:"ok"`
	By      map[string]int `json:"by"`
	Failed  []*Obligation  `json:"failed,omitempty"`
	NX      int            `json:"nx"`
	Unfold  int            `json:"unfold"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	spec := flag.String("spec", "/verif/spec", "")
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "contract name")
	out := flag.String("out", "", "report file")
	verbose := flag.Bool("v", false, "")
	limit := flag.Duration("limit", 120*time.Second, "per contract")
	dbg := flag.Bool("rel", false, "")
	prof := flag.String("prof", "", "")
	thorough := flag.Bool("thorough", false, "ask a second solver about every obligation")
	noalias := flag.Bool("noalias", false, "a contract is only that of the function it names")
	list := flag.Bool("list", false, "")
	flag.StringVar(&dumpDir, "dump", "", "")
	first := flag.Bool("first", false, "stop at the first failure, without canaries and retries")
	flag.Parse()
	debugRel = *dbg
	if *prof != "" {
		f, _ := os.Create(*prof)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	rep := &report{}
	write := func() {
		rep.WallSec = time.Since(t0).Seconds()
		if *out != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			_ = os.WriteFile(*out, b, 0o644)
		}
	}
	initTerms()
	w, err := load(*repo, *spec, filepath.Join(*spec, "externs.txt"), !*noalias)
	if err != nil {
		rep.Error = err.Error()
		fmt.Println("ERROR", err)
		write()
		os.Exit(3)
	}
	rep.LoadSec = time.Since(t0).Seconds()
	var cs, canaries []*Contract
	for _, c := range w.contracts {
		if *only != "" && !c.Canary && !matchAny(*only, c.Name) {
			continue
		}
		if c.Canary {
			canaries = append(canaries, c)
			continue
		}
		if *prop != "" {
			ok := false
			for _, p := range c.Props {
				if p == *prop || p == *prop+"/x" {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Name < cs[j].Name })
	if *list {
		for _, c := range cs {
			fmt.Println(c.Name, c.Target, c.Props, c.Broken)
		}
		return
	}
	rep.Notes = w.notes
	pr := newProver()
	pr.Thorough = *thorough
	defer pr.close()
	bad := 0
	var mu sync.Mutex
	retryUntil = time.Now().Add(200 * time.Second)
	if *prop == "" {
		retryUntil = time.Now().Add(600 * time.Second)
	}
	if *first {
		retryUntil, maxBad = time.Now(), 0
	}
	for _, c := range cs {
		res := verify(w, pr, c, *limit)
		mu.Lock()
		cr := &conReport{Name: c.Name, Target: c.Target, Props: c.Props, Effects: c.Effects, Millis: res.Millis, Err: res.Err, Unfold: res.Unfold, By: map[string]int{}}
		only := '-'
		if *prop != "" {
			only = 'v' // what is reported about an explanation is a matter of the properties about explanations
			for _, p := range c.Props {
				if p == *prop && (p == "C17" || p == "C18") {
					only = '-'
				} else if p == *prop+"/x" {
					only = 'x'
				}
			}
		}
		for _, o := range res.Obls {
			if only == 'v' && o.X || only == 'x' && !o.X {
				continue
			}
			cr.N++
			if o.X {
				cr.NX++
			}
			if o.OK {
				cr.OK++
				cr.By[o.By]++
			} else if len(cr.Failed) < 6 {
				cr.Failed = append(cr.Failed, o)
			}
		}
		rep.Contracts = append(rep.Contracts, cr)
		st := "ok"
		if cr.Err != "" || cr.OK < cr.N {
			st = "FAILED"
			bad++
		}
		if *verbose || st != "ok" {
			fmt.Printf("%-6s %-40s %4d/%-4d %5dms %s\n", st, c.Name, cr.OK, cr.N, cr.Millis, cr.Err)
			if *verbose {
				for _, o := range cr.Failed {
					fmt.Println("   -", o.Name)
					fmt.Println("     " + strings.ReplaceAll(o.Detail, "\n", "\n     "))
				}
			}
		}
		mu.Unlock()
		if *first && st != "ok" {
			break
		}
	}
	if *first {
		canaries = nil
	}
	for _, c := range canaries {
		rep.Canaries++
		if res := verifyUnfolded(w, pr, c, 10*time.Second, 0); res.Err == "" && res.ok() || c.Broken != "" {
			rep.CanariesAccepted = append(rep.CanariesAccepted, c.Name)
			fmt.Println("CANARY ACCEPTED", c.Name, c.Broken)
			bad++
		} else if *verbose {
			why := res.Err
			for _, o := range res.Obls {
				if !o.OK {
					why += " " + o.Name
					break
				}
			}
			fmt.Printf("canary %-40s rejected: %s\n", c.Name, why)
		}
	}
	rep.Queries = pr.Queries
	rep.SolverSec = (pr.z.Time + pr.z4.Time + pr.c5.Time).Seconds()
	write()
	fmt.Printf("%d contracts, %d failed, load %.1fs, solver %.1fs (%d queries), total %.1fs\n", len(cs), bad, rep.LoadSec, rep.SolverSec, rep.Queries, time.Since(t0).Seconds())
	if bad > 0 && w.aliased > 0 {
		// the functions that were taken for renamed ones may not be what they were taken for
		pr.close()
		if exe, err := os.Executable(); err == nil {
			_ = syscall.Exec(exe, append(append([]string{exe}, "-noalias"), os.Args[1:]...), os.Environ())
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func matchAny(pats, n string) bool {
	for _, p := range strings.Split(pats, ",") {
		if p == n {
			return true
		}
	}
	return false
}
