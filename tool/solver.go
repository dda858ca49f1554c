package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	bases   map[int]bool
	ufs     map[string]bool
	dead    bool
	log     io.Writer
	nq      int
	script  *strings.Builder // text of the last query (self-contained)
}

var solverTime atomic.Int64
var solverQueries atomic.Int64

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.cmd.Stderr = s.cmd.Stdout
	s.defined, s.bases, s.ufs = map[int]bool{}, map[int]bool{}, map[string]bool{}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	if p := os.Getenv("GOV_SMTLOG"); p != "" && s.log == nil {
		s.log, _ = os.Create(p)
	}
	s.send("(set-option :print-success false)\n(set-option :model.completion true)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	if _, err := io.WriteString(s.in, x); err != nil {
		s.dead = true
	}
}

func numStr(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func tname(t *Term) string {
	switch t.op {
	case OConst:
		return numStr(t.c)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OVar, OBVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) define(b *strings.Builder, t *Term, defined map[int]bool, bases map[int]bool, ufs map[string]bool) {
	if defined[t.id] {
		return
	}
	switch t.op {
	case OConst, OTrue, OFalse:
		return
	}
	for _, k := range s.c.kids(t) {
		s.define(b, k, defined, bases, ufs)
	}
	defined[t.id] = true
	switch t.op {
	case OVar:
		fmt.Fprintf(b, "(declare-const v%d Int)\n", t.id)
		return
	case OBVar:
		fmt.Fprintf(b, "(declare-const v%d Bool)\n", t.id)
		return
	}
	sort := "Int"
	if t.isBool() {
		sort = "Bool"
	}
	fmt.Fprintf(b, "(define-fun t%d () %s ", t.id, sort)
	switch t.op {
	case OApp:
		fmt.Fprintf(b, "(b%d %s)", t.base.id, tname(t.args[0]))
	case OUF:
		if len(t.args) == 0 {
			fmt.Fprintf(b, "uf_%s", t.name)
		} else {
			fmt.Fprintf(b, "(uf_%s", t.name)
			for _, a := range t.args {
				b.WriteByte(' ')
				b.WriteString(tname(a))
			}
			b.WriteByte(')')
		}
	case OLin:
		b.WriteString("(+")
		if t.c.Sign() != 0 || len(t.mon) == 1 {
			b.WriteByte(' ')
			b.WriteString(numStr(t.c))
		}
		for _, m := range t.mon {
			if m.c.Cmp(b1) == 0 {
				b.WriteByte(' ')
				b.WriteString(tname(m.t))
			} else {
				fmt.Fprintf(b, " (* %s %s)", numStr(m.c), tname(m.t))
			}
		}
		b.WriteByte(')')
	case OMul:
		fmt.Fprintf(b, "(* %s %s)", tname(t.args[0]), tname(t.args[1]))
	case ODiv:
		fmt.Fprintf(b, "(div %s %s)", tname(t.args[0]), numStr(t.c))
	case OMod:
		fmt.Fprintf(b, "(mod %s %s)", tname(t.args[0]), numStr(t.c))
	case OIte:
		fmt.Fprintf(b, "(ite %s %s %s)", tname(t.args[0]), tname(t.args[1]), tname(t.args[2]))
	case OLe:
		fmt.Fprintf(b, "(<= %s 0)", tname(t.args[0]))
	case OEq:
		fmt.Fprintf(b, "(= %s 0)", tname(t.args[0]))
	case ONot:
		fmt.Fprintf(b, "(not %s)", tname(t.args[0]))
	case OAnd, OOr:
		n := "and"
		if t.op == OOr {
			n = "or"
		}
		b.WriteString("(" + n)
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(tname(a))
		}
		b.WriteByte(')')
	}
	b.WriteString(")\n")
}

// closure computes the set of formulas to assert: the given ones plus relevant axioms.
func (s *Solver) closure(fs []*Term, rounds int) []*Term {
	c := s.c
	inSet := map[int]bool{}
	var out []*Term
	var queue []*Term
	seen := map[int]bool{}
	type appRec struct {
		base *Base
		idx  *Term
	}
	apps := map[int][]*Term{} // base id -> idx terms
	appDone := map[int]bool{}
	var bdefs []*BDef
	vfDone := map[int]bool{}
	add := func(f *Term) {
		if f.op == OTrue || inSet[f.id] {
			return
		}
		inSet[f.id] = true
		out = append(out, f)
		queue = append(queue, f)
	}
	rangeF := func(t *Term) {
		if t.lo != nil {
			f := &Term{op: OLe, args: []*Term{c.Sub(c.Big(t.lo), t)}}
			add(c.mk(f))
		}
		if t.hi != nil {
			f := &Term{op: OLe, args: []*Term{c.Sub(t, c.Big(t.hi))}}
			add(c.mk(f))
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.op {
		case OVar:
			rangeF(t)
		case OUF:
			rangeF(t)
		case OApp:
			rangeF(t)
			if !appDone[t.id] {
				appDone[t.id] = true
				apps[t.base.id] = append(apps[t.base.id], t.args[0])
				for _, f := range t.base.facts {
					add(f(c, t.args[0]))
				}
			}
		case OBVar:
			if d := c.defs[t.id]; d != nil {
				bdefs = append(bdefs, d)
				if d.pos != nil {
					add(c.Implies(t, d.pos))
				}
				if d.neg != nil {
					add(c.Or(t, d.neg))
				}
			}
		}
		if !vfDone[t.id] {
			vfDone[t.id] = true
			for _, f := range c.vfacts[t.id] {
				add(f)
			}
		}
		for _, k := range c.kids(t) {
			walk(k)
		}
	}
	for _, f := range fs {
		add(f)
	}
	flush := func() {
		for len(queue) > 0 {
			f := queue[0]
			queue = queue[1:]
			walk(f)
		}
	}
	flush()
	instDone := map[[2]int]bool{}
	total := 0
	for r := 0; r < rounds; r++ {
		before := len(out)
		nb := len(bdefs)
		for bi := 0; bi < nb; bi++ {
			d := bdefs[bi]
			if d.K == nil {
				continue
			}
			inst := func(k *Term) {
				if total > 6000 {
					return
				}
				key := [2]int{d.e.id, k.id}
				if instDone[key] {
					return
				}
				instDone[key] = true
				total++
				b := d.inst(c, k)
				add(c.Implies(d.e, b))
			}
			for _, tr := range d.trig {
				for _, ix := range apps[tr.base.id] {
					var k *Term
					if tr.sign > 0 {
						k = c.Sub(ix, tr.rest)
					} else {
						k = c.Sub(tr.rest, ix)
					}
					inst(k)
				}
			}
			if r == 0 || true {
				for _, k := range d.extraK {
					inst(k)
				}
			}
		}
		flush()
		if len(out) == before {
			break
		}
	}
	return out
}

func (d *BDef) inst(c *Ctx, k *Term) *Term {
	if d.bodyFn != nil {
		return d.bodyFn(k)
	}
	return c.Subst(d.body, d.K, k)
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(fs []*Term, rounds int, timeoutMs int, getVals func() []*Term) (Result, map[int]*big.Int) {
	for _, f := range fs {
		if f.op == OFalse {
			return Unsat, nil
		}
	}
	cl := s.closure(fs, rounds)
	for _, f := range cl {
		if f.op == OFalse {
			return Unsat, nil
		}
	}
	if len(cl) == 0 && getVals == nil {
		return Sat, nil
	}
	t0 := time.Now()
	defer func() { solverTime.Add(int64(time.Since(t0))); solverQueries.Add(1) }()
	if s.dead {
		s.Close()
		s.dead = false
		s.start()
	}
	s.nq++
	if s.nq%3000 == 0 { // keep the process small
		s.Close()
		s.start()
	}
	var b strings.Builder
	var defs strings.Builder
	for _, f := range cl {
		s.defineTo(&defs, f)
	}
	b.WriteString(defs.String())
	fmt.Fprintf(&b, "(set-option :timeout %d)\n(push)\n", timeoutMs)
	for _, f := range cl {
		fmt.Fprintf(&b, "(assert %s)\n", tname(f))
	}
	b.WriteString("(check-sat)\n(echo \"done\")\n")
	s.send(b.String())
	lines := s.readUntilDone(time.Duration(timeoutMs)*time.Millisecond*3 + 10*time.Second)
	res := Unknown
	bad := false
	for _, l := range lines {
		switch l {
		case "unsat":
			res = Unsat
		case "sat":
			res = Sat
		}
		if strings.HasPrefix(l, "(error") {
			bad = true
			lastSolverError.Store(l)
		}
	}
	if bad {
		res = Unknown
		s.dead = true
		return res, nil
	}
	var vals map[int]*big.Int
	if res == Sat && getVals != nil {
		ts := getVals()
		// definitions made inside this scope disappear with it
		d0, b0, u0 := s.defined, s.bases, s.ufs
		s.defined, s.bases, s.ufs = copyIB(d0), copyIB(b0), copySB(u0)
		vals = s.eval(ts)
		s.defined, s.bases, s.ufs = d0, b0, u0
	}
	s.send("(pop)\n")
	return res, vals
}

func copyIB(m map[int]bool) map[int]bool {
	n := make(map[int]bool, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}
func copySB(m map[string]bool) map[string]bool {
	n := make(map[string]bool, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

var lastSolverError atomic.Value

func (s *Solver) eval(ts []*Term) map[int]*big.Int {
	vals := map[int]*big.Int{}
	for i := 0; i < len(ts); i += 200 {
		j := i + 200
		if j > len(ts) {
			j = len(ts)
		}
		var b strings.Builder
		for _, t := range ts[i:j] {
			s.defineTo(&b, t)
		}
		for _, t := range ts[i:j] {
			fmt.Fprintf(&b, "(eval %s)\n", tname(t))
		}
		b.WriteString("(echo \"done\")\n")
		s.send(b.String())
		ls := s.readUntilDone(20 * time.Second)
		k := 0
		for _, l := range ls {
			if k >= j-i {
				break
			}
			t := ts[i+k]
			k++
			l = strings.TrimSpace(l)
			if l == "true" {
				vals[t.id] = b1
				continue
			}
			if l == "false" {
				vals[t.id] = b0
				continue
			}
			neg := false
			if strings.HasPrefix(l, "(- ") {
				neg = true
				l = strings.TrimSuffix(strings.TrimPrefix(l, "(- "), ")")
			}
			if v, ok := new(big.Int).SetString(l, 10); ok {
				if neg {
					v.Neg(v)
				}
				vals[t.id] = v
			}
		}
	}
	return vals
}

func (s *Solver) defineTo(b *strings.Builder, t *Term) {
	s.defineIter(b, t, s.defined, s.bases, s.ufs)
}

// defineIter emits declarations into pre and definitions into b in order.
func (s *Solver) defineIter(b *strings.Builder, t *Term, defined, bases map[int]bool, ufs map[string]bool) {
	// declare bases first
	var decl strings.Builder
	seen := map[int]bool{}
	var w func(x *Term)
	w = func(x *Term) {
		if seen[x.id] || defined[x.id] {
			return
		}
		seen[x.id] = true
		if x.op == OApp && !bases[x.base.id] {
			bases[x.base.id] = true
			fmt.Fprintf(&decl, "(declare-fun b%d (Int) Int)\n", x.base.id)
		}
		if x.op == OUF && !ufs[x.name] {
			ufs[x.name] = true
			fmt.Fprintf(&decl, "(declare-fun uf_%s (%s) Int)\n", x.name, strings.TrimSpace(strings.Repeat("Int ", len(x.args))))
		}
		for _, k := range s.c.kids(x) {
			w(k)
		}
	}
	w(t)
	b.WriteString(decl.String())
	s.define(b, t, defined, bases, ufs)
}

func (s *Solver) readUntilDone(to time.Duration) []string {
	type res struct {
		l   []string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		var ls []string
		for {
			l, err := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l == "done" {
				ch <- res{ls, nil}
				return
			}
			if l != "" {
				ls = append(ls, l)
			}
			if err != nil {
				ch <- res{ls, err}
				return
			}
		}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.dead = true
		}
		return r.l
	case <-time.After(to):
		s.cmd.Process.Kill()
		s.dead = true
		<-ch
		return nil
	}
}

// Script renders a self-contained SMT-LIB query for another solver.
func (s *Solver) Script(fs []*Term, rounds int) string {
	cl := s.closure(fs, rounds)
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	d, ba, u := map[int]bool{}, map[int]bool{}, map[string]bool{}
	for _, f := range cl {
		s.defineIter(&b, f, d, ba, u)
	}
	for _, f := range cl {
		fmt.Fprintf(&b, "(assert %s)\n", tname(f))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

var portfolioSem = make(chan struct{}, 2)

// Portfolio runs several solvers and seeds on a query the incremental solver gave no answer to. Only unsat counts for the
// weaker script (fewer instances of the definitions).
func Portfolio(full, weak string, timeout time.Duration) (Result, string) {
	portfolioSem <- struct{}{}
	defer func() { <-portfolioSem }()
	type job struct {
		name, bin string
		args      []string
		sc        string
	}
	sec := int(timeout / time.Second)
	z := func(seed int) []string {
		return []string{"-in", "-smt2", fmt.Sprintf("-T:%d", sec), fmt.Sprintf("smt.random_seed=%d", seed), fmt.Sprintf("sat.random_seed=%d", seed)}
	}
	jobs := []job{
		{"z3-5", "z3-new", z(1), full}, {"z3-5", "z3-new", z(2), full}, {"z3-5", "z3-new", z(3), full}, {"z3-5", "z3-new", z(4), weak},
		{"cvc5", "cvc5", []string{fmt.Sprintf("--tlimit=%d", sec*1000)}, full}, {"z3-4.8", "z3", []string{"-in", fmt.Sprintf("-T:%d", sec)}, full},
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout+5*time.Second)
	defer cancel()
	type ans struct {
		r    Result
		j    job
		full bool
	}
	out := make(chan ans, len(jobs))
	for _, j := range jobs {
		go func() { out <- ans{runScript(ctx, j.bin, j.args, j.sc), j, j.sc == full} }()
	}
	res, by := Unknown, "z3-5"
	for range jobs {
		a := <-out
		if a.r == Unsat {
			return Unsat, a.j.name
		}
		if a.r == Sat && a.full {
			res = Sat
		}
	}
	return res, by
}

// RunScript runs a one-shot solver on a script.
func RunScript(bin string, args []string, script string, timeout time.Duration) Result {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	return runScript(ctx, bin, args, script)
}

func runScript(ctx context.Context, bin string, args []string, script string) Result {
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Stdin = strings.NewReader(script)
	t0 := time.Now()
	out, _ := cmd.CombinedOutput()
	solverTime.Add(int64(time.Since(t0)))
	solverQueries.Add(1)
	o := string(out)
	if strings.HasPrefix(o, "unsat") {
		return Unsat
	}
	if strings.HasPrefix(o, "sat") {
		return Sat
	}
	return Unknown
}
