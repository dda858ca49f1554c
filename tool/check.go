package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- known findings

type Finding struct {
	Prop, Harness, Obl, What string
	seen                     bool
}

// known-findings.txt lines:
//
//	finding: property=C01 contract=ZvX obligation="..." what fails
//	fixed: property=C01 <commit> what failed
var findRe = regexp.MustCompile(`^finding: property=(\S+) contract=(\S+) obligation="([^"]*)" (.*)$`)

func loadFindings(prop string) []*Finding {
	var r []*Finding
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if m := findRe.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == prop {
			r = append(r, &Finding{Prop: m[1], Harness: m[2], Obl: m[3], What: m[4]})
		}
	}
	return r
}

// ---------------------------------------------------------------- replay on the real code

type replayRes struct {
	Failed bool
	What   string
	Inputs map[string]any
	Runs   int
	Output string
}

func pkgName(p *Program, h *Harness) string { return h.Fn.Pkg.Pkg.Name() }

// replay runs the contract as an ordinary program on the real code: first with the verifier's model, then
// with values drawn near it and at random. A failure is confirmed in a process of its own.
func replay(p *Program, h *Harness, model map[string]any, seed int64, secs int) (res replayRes) {
	dir, err := os.MkdirTemp("", "gov-replay-")
	if err != nil {
		return replayRes{Output: err.Error()}
	}
	defer os.RemoveAll(dir)
	src := fmt.Sprintf(`package %s

import (
	"encoding/json"
	"fmt"
	"os"
	"testing"
	"time"

	zz "github.com/hrygo/gosms/utils/zzv"
)

func TestZvReplay(t *testing.T) {
	in := zz.LoadInputs(os.Getenv("ZV_INPUT"))
	var seed, from, count int64
	fmt.Sscan(os.Getenv("ZV_SEED"), &seed)
	fmt.Sscan(os.Getenv("ZV_FROM"), &from)
	fmt.Sscan(os.Getenv("ZV_COUNT"), &count)
	var ms int64 = 10000
	fmt.Sscan(os.Getenv("ZV_MS"), &ms)
	deadline := time.Now().Add(time.Duration(ms) * time.Millisecond)
	runs := 0
	for i := from; i < from+count && time.Now().Before(deadline); i++ {
		keep := 1.0
		if i > 0 {
			keep = []float64{0.9, 0.5, 0}[i%%3]
		}
		zz.Begin(in, seed*1000003+i, keep)
		done := make(chan string, 1)
		go func() {
			r := "skip" // a contract that ends its goroutine decides nothing
			defer func() { done <- r }()
			r = zz.Outcome(func() { %s() })
		}()
		var r string
		select {
		case r = <-done:
		case <-time.After(3 * time.Second):
			fmt.Printf("\nZVRESULT %%d hang %%d\n", runs, i)
			os.Exit(0)
		}
		if r != "skip" {
			runs++
		}
		if r != "" && r != "skip" {
			b, _ := json.Marshal(zz.Drawn)
			fmt.Printf("\nZVRESULT %%d failed %%d %%s\nZVINPUTS %%s\n", runs, i, r, b)
			os.Exit(0)
		}
	}
	fmt.Printf("\nZVRESULT %%d ok 0\n", runs)
	os.Exit(0)
}
`, pkgName(p, h), h.Name)
	tf := filepath.Join(dir, "t_test.go")
	os.WriteFile(tf, []byte(src), 0o644)
	inb, _ := json.Marshal(model)
	inf := filepath.Join(dir, "in.json")
	os.WriteFile(inf, inb, 0o644)
	ov := filepath.Join(dir, "ov.json")
	repl, err := hookOverlay(p, dir)
	if err != nil {
		return replayRes{Output: err.Error()}
	}
	repl[filepath.Join(h.PkgDir, "zz_verif_replay_test.go")] = tf
	writeOverlay(ov, true, repl)
	run := func(secs int, env []string, args ...string) string {
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, args[0], args[1:]...)
		cmd.Dir = h.PkgDir
		cmd.Env = append(goEnv(), env...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
		cmd.WaitDelay = 2 * time.Second
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		cmd.Run()
		return out.String()
	}
	bin := filepath.Join(dir, "replay.test")
	if o := run(240, nil, "go", "test", "-vet=off", "-overlay", ov, "-c", "-o", bin, "."); o != "" {
		if _, err := os.Stat(bin); err != nil {
			return replayRes{Output: tail(o, 4000)}
		}
	}
	env := []string{"ZV_INPUT=" + inf, "ZV_SEED=" + strconv.FormatInt(seed, 10)}
	one := func(from, count, ms int64) (r replayRes, kind string, at int64) {
		o := run(int(ms/1000)+20, append(env, fmt.Sprintf("ZV_FROM=%d", from), fmt.Sprintf("ZV_COUNT=%d", count), fmt.Sprintf("ZV_MS=%d", ms)),
			bin, "-test.run", "^TestZvReplay$", "-test.timeout", "600s")
		r = replayRes{Output: tail(o, 4000)}
		kind = "died"
		if i := strings.LastIndex(o, "\nZVRESULT "); i >= 0 {
			l := strings.SplitN(o[i+1:], "\n", 3)
			f := strings.SplitN(l[0], " ", 5)
			kind = f[2]
			fmt.Sscan(f[1], &r.Runs)
			if len(f) > 3 {
				fmt.Sscan(f[3], &at)
			}
			if kind == "failed" {
				r.Failed = true
				r.What = f[4]
				if len(l) > 1 && strings.HasPrefix(l[1], "ZVINPUTS ") {
					json.Unmarshal([]byte(l[1][9:]), &r.Inputs)
				}
			}
		} else if strings.Contains(o, "\npanic: ") || strings.Contains(o, "fatal error: ") {
			// the code under test brought the process down (panic in a goroutine, concurrent map access, deadlock)
			i := strings.Index(o, "\npanic: ")
			if i < 0 {
				i = strings.Index(o, "fatal error: ")
			}
			if !strings.Contains(o[i:], "panic: test timed out") {
				r.Failed = true
				r.What = "process died: " + strings.TrimSpace(strings.SplitN(strings.TrimSpace(o[i:]), "\n", 2)[0])
			}
		}
		return
	}
	t0 := time.Now()
	runs := 0
	for from := int64(0); ; {
		left := int64(secs)*1000 - time.Since(t0).Milliseconds()
		if left <= 0 {
			break
		}
		r, kind, at := one(from, 200000, left)
		runs += r.Runs
		r.Runs = runs
		if kind == "ok" {
			return r
		}
		if kind == "died" {
			return r
		}
		if kind == "failed" {
			if at == from {
				return r // the first of its process
			}
			if c, k, _ := one(at, 1, 5000); k == "failed" {
				c.Runs = runs
				return c
			}
		}
		from = at + 1
		res = replayRes{Output: r.Output, Runs: runs}
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---------------------------------------------------------------- the registered check

type violation struct {
	Harness, Obl, Kind, Pos, Msg string
	rep                          replayRes
	Model                        map[string]any
	path                         string
}

func runCheck(prop, tier string) int {
	t0 := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	repDir := filepath.Join(verifDir, "replays")
	os.MkdirAll(repDir, 0o755)
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, prop+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof"}
	writeEv := func() {
		ev["wall_s"] = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}
	checker := fmt.Sprintf("/verif/check.sh %s %s", prop, tier)
	p, err := Load(contractDirs())
	if err != nil {
		f := filepath.Join(repDir, prop+"-load.txt")
		os.WriteFile(f, []byte("property "+prop+": the contracts no longer type-check against the code\n\n"+err.Error()+"\n"), 0o644)
		ev["coverage"] = map[string]any{"obligations": 1, "discharged": 0, "checker_cmd": checker, "trusted_base": []string{}}
		ev["violations"] = 1
		writeEv()
		fmt.Println(tail(err.Error(), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, f)
		return 1
	}
	var hs []*Harness
	for _, h := range p.harness {
		if h.Prop == prop && (h.Tier == "" || h.Tier == tier) {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Println("no contracts for", prop)
		return 2
	}
	finds := loadFindings(prop)
	rs := runAll(p, hs, tier)
	known := map[*Finding]bool{}
	type failing struct {
		r  *HResult
		os []*Obl
	}
	var fails []failing
	total, disch := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	funcs := map[string]bool{}
	inl := map[string]bool{}
	tr := map[string]bool{}
	var bounded []string
	var perContract []map[string]any
	bobl := 0
	for _, r := range rs {
		var fo []*Obl
		no, nd := 0, 0
		for _, o := range r.Obls {
			no++
			kinds[o.Kind]++
			if o.OK {
				nd++
				b := o.By
				if b == "" {
					b = "simplifier"
				}
				by[b]++
				continue
			}
			isKnown := false
			for _, f := range finds {
				if f.Harness == r.H.Name && f.Obl == o.Name {
					known[f] = true
					isKnown = true
				}
			}
			if !isKnown {
				fo = append(fo, o)
			}
		}
		if r.H.Bounded != "" {
			bounded = append(bounded, r.H.Name+": "+r.H.Bounded)
			bobl += no
		} else {
			total += no
			disch += nd
		}
		perContract = append(perContract, map[string]any{"contract": r.H.Name, "package": r.H.PkgPath, "obligations": no, "discharged": nd, "paths": r.Paths, "wall_ms": r.Wall.Milliseconds(), "bounded": r.H.Bounded})
		for _, f := range r.H.Funcs {
			funcs[f] = true
		}
		for k := range r.Inlined {
			inl[k] = true
		}
		for k := range r.Trusted {
			tr[k] = true
		}
		if len(fo) > 0 {
			fails = append(fails, failing{r, fo})
		}
	}
	// violations: replay each failing contract on the real code
	var viols []*violation
	replayDeadline := time.Now().Add(240 * time.Second)
	for i, f := range fails {
		h := f.r.H
		// prefer obligations with a counterexample
		sort.SliceStable(f.os, func(a, b int) bool { return (f.os[a].Model != nil) && (f.os[b].Model == nil) })
		v := &violation{Harness: h.Name, Obl: f.os[0].Name, Kind: f.os[0].Kind, Pos: f.os[0].Pos, Msg: f.os[0].Msg, Model: f.os[0].Model}
		if !h.NoReplay {
			tried := 0
		tries:
			for k := 0; k < 3; k++ {
				for _, o := range f.os {
					m := o.Model
					if k > 0 && len(o.More) < k {
						continue
					} else if k > 0 {
						m = o.More[k-1]
					}
					if tried >= 4 || time.Now().After(replayDeadline) || m == nil && tried > 0 {
						break tries
					}
					tried++
					secs := 8
					if tried == 1 && i < 4 {
						secs = 20
					}
					v.rep = replay(p, h, m, seed, secs)
					if v.rep.Failed {
						v.Obl, v.Kind, v.Pos, v.Msg, v.Model = o.Name, o.Kind, o.Pos, o.Msg, m
						break tries
					}
				}
			}
		}
		v.path = filepath.Join(repDir, prop+"-"+h.Name+".json")
		var ol []map[string]any
		for _, o := range f.os {
			ol = append(ol, map[string]any{"name": o.Name, "kind": o.Kind, "function": o.Fn, "at": o.Pos, "solver": o.Msg, "model": o.Model})
		}
		b, _ := json.MarshalIndent(map[string]any{
			"property": prop, "contract": h.Name, "package": h.PkgPath,
			"failed_obligations": ol, "reproduced_on_real_code": v.rep.Failed, "real_code_outcome": v.rep.What,
			"inputs": v.rep.Inputs, "concrete_runs": v.rep.Runs, "run_output": v.rep.Output,
			"how": "/verif/bin/gov -replay " + v.path,
		}, "", " ")
		os.WriteFile(v.path, append(b, '\n'), 0o644)
		viols = append(viols, v)
	}
	var fl, il, tl []string
	for k := range funcs {
		fl = append(fl, k)
	}
	for k := range inl {
		il = append(il, k)
	}
	for k := range tr {
		tl = append(tl, k)
	}
	sort.Strings(fl)
	sort.Strings(il)
	sort.Strings(tl)
	cov := map[string]any{
		"obligations": total, "discharged": disch, "checker_cmd": checker, "trusted_base": append(baseTrust, tl...),
		"contracts": len(hs), "functions_under_contract": fl, "functions_executed_from_source": il,
		"discharged_by": by, "obligation_kinds": kinds, "solver_time_s": time.Duration(solverTime.Load()).Seconds(), "solver_queries": solverQueries.Load(),
		"per_contract": perContract,
	}
	if len(bounded) > 0 {
		cov["bounded_contracts"] = bounded
		cov["bounded_obligations"] = bobl
	}
	ev["coverage"] = cov
	ev["assumptions"] = append(append([]string{}, baseAssume...), tl...)
	ev["violations"] = len(viols)
	writeEv()
	for _, f := range finds {
		if known[f] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
		}
	}
	confirmed := 0
	for _, v := range viols {
		if v.rep.Failed {
			confirmed++
		}
	}
	for _, v := range viols {
		fmt.Printf("failed obligation: %s: [%s] %s (%s) %s\n", v.Harness, v.Kind, v.Obl, v.Pos, firstN(v.Msg, 400))
		if v.rep.Failed {
			fmt.Printf("  on the real code: %s\n", v.rep.What)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v.path)
		} else if confirmed == 0 {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, v.path)
		}
	}
	fmt.Printf("%s: %d contracts, %d/%d obligations discharged, %.1fs\n", prop, len(hs), disch, total, time.Since(t0).Seconds())
	if len(viols) > 0 {
		return 1
	}
	return 0
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

var baseTrust = []string{
	"the verification-condition generator /verif/tool (go/ssa to SMT), golang.org/x/tools/go/ssa, z3, cvc5",
}

var baseAssume = []string{
	"sequential consistency per contract: each contract is verified one goroutine at a time; shared state is havocked at lock acquisition where a Guarded contract says so",
	"memory is not exhausted; Go runtime and compiler are correct",
	"integers are machine integers: every operation is reduced modulo its width (no mathematical-integer idealisation)",
}

// runReplayFile re-runs the recorded inputs of a violation on the current real code.
func runReplayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Contract string
		Inputs   map[string]any
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	p, err := Load(contractDirs())
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, h := range p.harness {
		if h.Name == r.Contract {
			res := replay(p, h, r.Inputs, 1, 1)
			fmt.Println(res.Output)
			if res.Failed {
				fmt.Println("reproduced:", res.What)
				return 1
			}
			fmt.Println("not reproduced")
			return 0
		}
	}
	fmt.Println("no such contract")
	return 2
}
