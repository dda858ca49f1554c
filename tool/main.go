package main

import (
	"flag"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

type HResult struct {
	H       *Harness
	Obls    []*Obl
	Inlined map[string]bool
	Trusted map[string]bool
	Wall    time.Duration
	Paths   int
	Steps   int
	Err     string
}

func runHarness(p *Program, h *Harness, tier string, si, sn int) (res *HResult) {
	t0 := time.Now()
	x := NewExec(p, h)
	x.tier = tier
	x.split = [2]int{si, sn}
	b := h.Budget
	if s := os.Getenv("GOV_BUDGET"); s != "" {
		fmt.Sscan(s, &b)
	}
	if tier == "thorough" {
		b *= 4
	}
	x.deadline = t0.Add(time.Duration(b) * time.Second)
	x.c.tick = x.checkDeadline
	res = &HResult{H: h, Inlined: x.inlined, Trusted: x.trusted}
	defer x.sol.Close()
	func() {
		defer func() {
			if e := recover(); e != nil {
				msg := ""
				if u, ok := e.(unsup); ok {
					msg = u.msg
				} else {
					msg = fmt.Sprintf("engine: %v", e)
					if os.Getenv("GOV_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, string(debug.Stack()))
					}
				}
				res.Err = msg + " [in " + x.curName() + " at " + x.pos(x.curPos) + "]"
				o := x.obl("translate", h.Name+": every statement reached is within the verifier's reach", x.curName(), x.pos(x.curPos))
				o.OK = false
				o.Msg = res.Err
			}
		}()
		st := &State{heap: map[int]Value{}, pcset: map[int]bool{}, bounds: map[int][2]*big.Int{}, ghost: map[string]any{}, covers: map[string]bool{}}
		outs := x.call(st, h.Fn, nil, nil, 0)
		_ = outs
		for _, li := range x.loopInvs {
			if !li.used && li.inv != nil {
				o := x.obl("translate", fmt.Sprintf("loop contract of %s loop %d is attached to a loop", li.fn, li.ord), li.fn, "")
				o.OK = false
				o.Msg = "the loop was never reached"
			}
		}
	}()
	for _, k := range x.oblOrder {
		res.Obls = append(res.Obls, x.obls[k])
	}
	ne := 0
	for _, o := range res.Obls {
		if o.Kind == "ensures" {
			ne++
		}
	}
	if ne == 0 && res.Err == "" && sn <= 1 {
		res.Obls = append(res.Obls, &Obl{Name: h.Name + ": contract generates postconditions", Kind: "cover", OK: false, Msg: "no postcondition reached (vacuous)"})
	}
	res.Wall = time.Since(t0)
	res.Paths = x.paths
	res.Steps = x.steps
	return
}

func runAll(p *Program, hs []*Harness, tier string) []*HResult {
	type task struct {
		h      *Harness
		si, sn int
	}
	var tasks []task
	for _, h := range hs {
		n := h.Split
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			tasks = append(tasks, task{h, i, n})
		}
	}
	// biggest budgets first
	sort.SliceStable(tasks, func(i, j int) bool { return tasks[i].sn > tasks[j].sn })
	res := make([]*HResult, len(tasks))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i, t := range tasks {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			res[i] = runHarness(p, t.h, tier, t.si, t.sn)
		}()
	}
	wg.Wait()
	// merge splits
	byH := map[*Harness]*HResult{}
	var out []*HResult
	for i, t := range tasks {
		r := res[i]
		m := byH[t.h]
		if m == nil {
			byH[t.h] = r
			out = append(out, r)
			continue
		}
		for k := range r.Inlined {
			m.Inlined[k] = true
		}
		for k := range r.Trusted {
			m.Trusted[k] = true
		}
		if r.Wall > m.Wall {
			m.Wall = r.Wall
		}
		m.Paths += r.Paths
		m.Steps += r.Steps
		if m.Err == "" {
			m.Err = r.Err
		}
		idx := map[string]*Obl{}
		for _, o := range m.Obls {
			idx[o.Kind+"|"+o.Name] = o
		}
		for _, o := range r.Obls {
			if e := idx[o.Kind+"|"+o.Name]; e != nil {
				e.Paths += o.Paths
				e.Ms += o.Ms
				if !o.OK && e.OK {
					e.OK, e.Msg, e.Model, e.Pos, e.More = false, o.Msg, o.Model, o.Pos, o.More
				} else if !o.OK && e.Model != nil && o.Model != nil && len(e.More) < 2 {
					e.More = append(e.More, o.Model)
				}
				if e.By == "" || e.By == "simplifier" {
					e.By = o.By
				}
			} else {
				m.Obls = append(m.Obls, o)
			}
		}
	}
	for _, r := range out {
		ne := 0
		for _, o := range r.Obls {
			if o.Kind == "ensures" {
				ne++
			}
		}
		if ne == 0 && r.Err == "" {
			r.Obls = append(r.Obls, &Obl{Name: r.H.Name + ": contract generates postconditions", Kind: "cover", OK: false, Msg: "no postcondition reached (vacuous)"})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].H.Name < out[j].H.Name })
	return out
}

func main() {
	debug.SetGCPercent(400)
	go watchMemory()
	if p := os.Getenv("GOV_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	prop := flag.String("prop", "", "property id")
	only := flag.String("run", "", "run only harnesses whose name contains this")
	tier := flag.String("tier", "quick", "quick or thorough")
	verbose := flag.Bool("v", false, "verbose")
	check := flag.Bool("check", false, "registered check: evidence, replay, VIOLATION lines")
	conc := flag.Int("concrete", 0, "run the contracts on the real code with random inputs for so many seconds each")
	list := flag.Bool("list", false, "list contracts")
	rep := flag.String("replay", "", "re-run a replay file on the real code")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "verif dir")
	flag.Parse()
	repoDir, _ = filepath.Abs(repoDir)
	verifDir, _ = filepath.Abs(verifDir)
	if *rep != "" {
		os.Exit(runReplayFile(*rep))
	}
	if *check {
		os.Exit(runCheck(*prop, *tier))
	}
	t0 := time.Now()
	p, err := Load(contractDirs())
	if err != nil {
		fmt.Println("LOAD ERROR:", err)
		os.Exit(2)
	}
	var hs []*Harness
	for _, h := range p.harness {
		if *prop != "" && h.Prop != *prop {
			continue
		}
		if *only != "" && !strings.Contains(h.Name, *only) {
			continue
		}
		hs = append(hs, h)
	}
	if *list {
		for _, h := range hs {
			fmt.Println(h.Prop, h.Name, h.PkgPath, h.Split, h.Bounded)
		}
		return
	}
	if *conc > 0 {
		bad := 0
		for _, h := range hs {
			r := replay(p, h, nil, 1, *conc)
			w := ""
			if r.Failed {
				w = r.What
				bad++
			} else if r.Runs == 0 {
				w = r.Output
			}
			fmt.Println(h.Prop, h.Name, r.Runs, w)
		}
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	fmt.Printf("loaded in %v, %d contracts\n", time.Since(t0), len(hs))
	bad := 0
	for _, r := range runAll(p, hs, *tier) {
		ok, n := 0, 0
		for _, o := range r.Obls {
			n++
			if o.OK {
				ok++
			}
		}
		fmt.Printf("%-40s %3d/%3d obligations  paths=%d steps=%d  %v %s\n", r.H.Name, ok, n, r.Paths, r.Steps, r.Wall.Round(time.Millisecond), r.Err)
		for _, o := range r.Obls {
			if !o.OK {
				bad++
			}
			if !o.OK || *verbose {
				fmt.Printf("    %v %-9s %s (%s) by %s %dms x%d %s\n", o.OK, o.Kind, o.Name, o.Pos, o.By, o.Ms, o.Paths, o.Msg)
				if !o.OK && o.Model != nil {
					for k, v := range o.Model {
						s := fmt.Sprint(v)
						if len(s) > 200 {
							s = s[:200]
						}
						fmt.Printf("         %s = %s\n", k, s)
					}
				}
			}
		}
	}
	fmt.Printf("total %v, solver %v in %d queries, failing %d\n", time.Since(t0).Round(time.Millisecond), time.Duration(solverTime.Load()).Round(time.Millisecond), solverQueries.Load(), bad)
	if bad > 0 {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}
