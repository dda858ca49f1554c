package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Out struct {
	st  *State
	ret []Value
}

type deferred struct {
	call *ssa.Defer
	fn   Value
	args []Value
}

type Frame struct {
	fn     *ssa.Function
	info   *FnInfo
	env    []Value
	defers []deferred
	depth  int
	cut    map[*ssa.BasicBlock]*cutState
	rot    map[*ssa.BasicBlock]*rotState
	visits map[*ssa.BasicBlock]int
	auto   map[*ssa.BasicBlock]*autoCut
	noAuto map[*ssa.BasicBlock]bool
	und    map[*ssa.BasicBlock]int // undecided loop conditions so far
	dry    *loopInfo               // trial iteration of this loop
}

type cutState struct {
	inv   *LoopInv
	heap  map[int]Value
	havoc map[int]bool
}

type FnInfo struct {
	num   map[ssa.Value]int
	n     int
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock // nil: function exit
	heads map[*ssa.BasicBlock]*loopInfo
	order []*ssa.BasicBlock // loop heads in source order
}
type loopInfo struct {
	ord  int
	body map[*ssa.BasicBlock]bool
}

type LoopInv struct {
	fn      string
	ord     int
	havoc   Value
	inv     Value
	variant Value
	used    bool
	checked bool
	gone    bool // the function named has no loop any more
}

type exitKind int

const (
	exStop exitKind = iota
	exRet
)

type Exit struct {
	kind exitKind
	fr   *Frame
	st   *State
	ret  []Value
	pcAt int
}

// Obligation result.
type Obl struct {
	Name   string
	Kind   string // ensures, safety, requires, invariant, frame, cover, translate
	Pos    string
	Fn     string
	OK     bool
	Paths  int
	By     string
	Ms     int64
	Msg    string
	Model  map[string]any
	More   []map[string]any // of other paths
	Script string
}

type Exec struct {
	mst       *State // a state being merged
	prog      *Program
	c         *Ctx
	sol       *Solver
	h         *Harness
	nobj      int
	globals   map[*ssa.Global]int
	gobj      map[int]*ssa.Global
	pkgInit   map[*ssa.Package]map[int]Value
	obls      map[string]*Obl
	oblOrder  []string
	infos     map[*ssa.Function]*FnInfo
	loopInvs  []*LoopInv
	loopMoved map[string]string // where the loops of loop contracts were found that are no longer where they were
	waits     map[string]bool
	covers    map[string]bool
	deadline  time.Time
	steps     int
	paths     int
	maxModels int
	split     [2]int // index, count
	splitUsed bool
	inlined   map[string]bool
	trusted   map[string]bool
	specDepth int
	curPos    token.Pos
	curFn     *ssa.Function
	callStack []string
	dbg       bool
	qcache    map[string]bool
	inInit    bool
	stubs     map[string]Value
	times     map[string]*Term
	protects  bool // some location is protected
	tier      string
	goq       []goCall
	symMemo   map[int][]int
	dry       int // inside a trial iteration
	objType   map[int]types.Type
}

type Guard struct {
	key        string
	havoc, inv Value
}

func NewExec(p *Program, h *Harness) *Exec {
	c := NewCtx()
	x := &Exec{prog: p, c: c, h: h, globals: map[*ssa.Global]int{}, gobj: map[int]*ssa.Global{}, pkgInit: map[*ssa.Package]map[int]Value{}, obls: map[string]*Obl{}, infos: map[*ssa.Function]*FnInfo{}, waits: map[string]bool{}, covers: map[string]bool{}, maxModels: 3, inlined: map[string]bool{}, trusted: map[string]bool{}, qcache: map[string]bool{}, stubs: map[string]Value{}, symMemo: map[int][]int{}, objType: map[int]types.Type{}}
	x.sol = NewSolver(c)
	c.sol = x.sol
	c.Var("K!canon", nil, nil)
	x.dbg = os.Getenv("GOV_DEBUG") != ""
	return x
}

// ---------------------------------------------------------------- logic on states

func (x *Exec) assume(st *State, t *Term) {
	if t.op == OTrue {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			x.assume(st, a)
		}
		return
	}
	if st.pcset[t.id] {
		return
	}
	st.pc = append(st.pc, t)
	st.pcset[t.id] = true
	x.noteBounds(st, t)
}

func (x *Exec) normLin(t *Term) (key *Term, mul *big.Int, off *big.Int) {
	// t = mul*key + off ; key has no constant, first coef positive
	if t.op == OLin {
		l := newLin()
		sign := b1
		if t.mon[0].c.Sign() < 0 {
			sign = bm
		}
		if len(t.mon) == 1 {
			return t.mon[0].t, t.mon[0].c, t.c
		}
		for _, m := range t.mon {
			l.add(new(big.Int).Mul(m.c, sign), m.t)
		}
		return x.c.build(l), sign, t.c
	}
	return t, b1, b0
}

func (x *Exec) noteBounds(st *State, t *Term) {
	set := func(k *Term, lo, hi *big.Int) {
		b := st.bounds[k.id]
		if b[0] == nil || lo != nil && lo.Cmp(b[0]) > 0 {
			if lo != nil {
				b[0] = lo
			}
		}
		if b[1] == nil || hi != nil && hi.Cmp(b[1]) < 0 {
			if hi != nil {
				b[1] = hi
			}
		}
		st.bounds[k.id] = b
	}
	switch t.op {
	case OLe:
		k, m, o := x.normLin(t.args[0])
		// m*k + o <= 0
		if m.Sign() > 0 {
			set(k, nil, floorDiv(new(big.Int).Neg(o), m))
		} else {
			am := new(big.Int).Neg(m)
			// k >= o/am  ceil
			set(k, new(big.Int).Neg(floorDiv(new(big.Int).Neg(o), am)), nil)
		}
	case OEq:
		k, m, o := x.normLin(t.args[0])
		no := new(big.Int).Neg(o)
		if isMult(no, new(big.Int).Abs(m)) {
			v := new(big.Int).Quo(no, m)
			set(k, v, v)
		}
	}
}

// bnd gives the interval of a term under the path's recorded bounds.
func (x *Exec) bnd(st *State, t *Term) (lo, hi *big.Int) {
	lo, hi = t.lo, t.hi
	tighten := func(l, h *big.Int) {
		if l != nil && (lo == nil || l.Cmp(lo) > 0) {
			lo = l
		}
		if h != nil && (hi == nil || h.Cmp(hi) < 0) {
			hi = h
		}
	}
	if b, ok := st.bounds[t.id]; ok {
		tighten(b[0], b[1])
	}
	if t.op == OLin {
		k, m, o := x.normLin(t)
		if k != t {
			if b, ok := st.bounds[k.id]; ok {
				var l, h *big.Int
				if b[0] != nil {
					l = new(big.Int).Add(new(big.Int).Mul(m, b[0]), o)
				}
				if b[1] != nil {
					h = new(big.Int).Add(new(big.Int).Mul(m, b[1]), o)
				}
				if m.Sign() < 0 {
					l, h = h, l
				}
				tighten(l, h)
			}
		}
		l, h := new(big.Int).Set(t.c), new(big.Int).Set(t.c)
		for _, mo := range t.mon {
			a, b := x.bnd(st, mo.t)
			if mo.c.Sign() < 0 {
				a, b = b, a
			}
			if l != nil && a != nil {
				l = l.Add(l, new(big.Int).Mul(mo.c, a))
			} else {
				l = nil
			}
			if h != nil && b != nil {
				h = h.Add(h, new(big.Int).Mul(mo.c, b))
			} else {
				h = nil
			}
		}
		tighten(l, h)
	}
	return
}

// quick syntactic decision: 1 true, -1 false, 0 unknown
func (x *Exec) quick(st *State, t *Term) int {
	switch t.op {
	case OTrue:
		return 1
	case OFalse:
		return -1
	}
	if st.pcset[t.id] {
		return 1
	}
	n := x.c.Not(t)
	if st.pcset[n.id] {
		return -1
	}
	switch t.op {
	case OLe:
		lo, hi := x.bnd(st, t.args[0])
		if hi != nil && hi.Sign() <= 0 {
			return 1
		}
		if lo != nil && lo.Sign() > 0 {
			return -1
		}
	case OEq:
		lo, hi := x.bnd(st, t.args[0])
		if hi != nil && hi.Sign() < 0 || lo != nil && lo.Sign() > 0 {
			return -1
		}
		if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
			return 1
		}
	case ONot:
		return -x.quick(st, t.args[0])
	case OAnd:
		all := 1
		for _, a := range t.args {
			q := x.quick(st, a)
			if q < 0 {
				return -1
			}
			if q == 0 {
				all = 0
			}
		}
		return all
	case OOr:
		all := -1
		for _, a := range t.args {
			q := x.quick(st, a)
			if q > 0 {
				return 1
			}
			if q == 0 {
				all = 0
			}
		}
		return all
	}
	return 0
}

// memHigh: the heap is so large that the process might be ended for it.
var memHigh atomic.Bool

func watchMemory() {
	debug.SetMemoryLimit(10 << 30)
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		metrics.Read(m)
		memHigh.Store(m[0].Value.Uint64() > 14<<30)
		time.Sleep(50 * time.Millisecond)
	}
}

func (x *Exec) checkDeadline() {
	if memHigh.Load() {
		runtime.GC()
		if memHigh.Load() {
			x.unsupported("out of memory")
		}
	}
	if time.Now().After(x.deadline) {
		x.unsupported("time budget for this contract exhausted")
	}
}

// sat: is pc && t satisfiable (unknown counts as yes)
func (x *Exec) feasible(st *State, t *Term) bool {
	switch x.quick(st, t) {
	case 1:
		return true // path itself assumed feasible
	case -1:
		return false
	}
	x.checkDeadline()
	fs0, _ := x.relevant(st, t, 3, true)
	if r, _ := x.sol.Check(append(fs0, t), 0, 500, nil); r == Unsat {
		return false
	}
	fs, _ := x.relevant(st, t, 3, false)
	r, _ := x.sol.Check(append(fs, t), 2, 1500, nil)
	return r != Unsat
}

func (x *Exec) valid(st *State, t *Term) bool {
	switch x.quick(st, t) {
	case 1:
		return true
	case -1:
		return false
	}
	x.checkDeadline()
	fs0, _ := x.relevant(st, t, 3, true)
	if r, _ := x.sol.Check(append(fs0, x.c.Not(t)), 0, 500, nil); r == Unsat {
		return true
	}
	fs, all := x.relevant(st, t, 2, false)
	r, _ := x.sol.Check(append(fs, x.c.Not(t)), 2, 1500, nil)
	if r != Unsat && !all {
		r, _ = x.sol.Check(append(append([]*Term{}, st.pc...), x.c.Not(t)), 2, 2000, nil)
	}
	return r == Unsat
}

// symbols lists the variables (positive) and byte bases (negative) a term mentions.
func (x *Exec) symbols(t *Term, fine bool) []int {
	key := t.id * 2
	if fine {
		key++
	}
	if r, ok := x.symMemo[key]; ok {
		return r
	}
	set := map[int]bool{}
	seen := map[int]bool{}
	var w func(u *Term)
	w = func(u *Term) {
		if seen[u.id] {
			return
		}
		seen[u.id] = true
		switch u.op {
		case OVar, OUF:
			set[u.id] = true
		case OBVar:
			set[u.id] = true
			if d := x.c.defs[u.id]; d != nil {
				if fine && d.K != nil {
					break
				}
				if d.pos != nil {
					w(d.pos)
				}
				if d.neg != nil {
					w(d.neg)
				}
				if d.body != nil {
					w(d.body)
				}
			}
		case OApp:
			if fine {
				set[u.id] = true
			} else {
				set[-1-u.base.id] = true
			}
		}
		for _, k := range x.c.kids(u) {
			w(k)
		}
	}
	w(t)
	var r []int
	for k := range set {
		r = append(r, k)
	}
	x.symMemo[key] = r
	return r
}

// relevant selects the path facts within the given number of hops (shared variables) of t; all reports
// whether that is every fact connected to t.
func (x *Exec) relevant(st *State, t *Term, hops int, fine bool) (fs []*Term, all bool) {
	have := map[int]bool{}
	for _, s := range x.symbols(t, fine) {
		have[s] = true
	}
	in := make([]bool, len(st.pc))
	for h := 0; ; h++ {
		var add []int
		grew := false
		for i, p := range st.pc {
			if in[i] {
				continue
			}
			hit := false
			for _, s := range x.symbols(p, fine) {
				if have[s] && (h == 0 || s >= 0) {
					hit = true
					break
				}
			}
			if hit {
				if h >= hops {
					goto done
				}
				in[i] = true
				grew = true
				add = append(add, x.symbols(p, fine)...)
			}
		}
		if !grew {
			all = true
			break
		}
		for _, s := range add {
			have[s] = true
		}
	}
done:
	for i, p := range st.pc {
		if in[i] {
			fs = append(fs, p)
		}
	}
	if len(fs) == len(st.pc) {
		all = true
	}
	return
}

// ---------------------------------------------------------------- obligations

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) obl(kind, name, fn, pos string) *Obl {
	k := kind + "|" + name
	o := x.obls[k]
	if o == nil {
		o = &Obl{Name: name, Kind: kind, OK: true, Fn: fn, Pos: pos}
		x.obls[k] = o
		x.oblOrder = append(x.oblOrder, k)
	}
	return o
}

func (x *Exec) curName() string {
	if x.curFn != nil {
		return shortFn(x.curFn.String())
	}
	return "?"
}

// prove discharges goal under the path condition; then assumes it.
func (x *Exec) prove(st *State, kind, name string, goal *Term) bool {
	if x.dry > 0 {
		x.assume(st, goal)
		return true
	}
	o := x.obl(kind, name, x.curName(), x.pos(x.curPos))
	o.Paths++
	if goal.op == OTrue {
		if o.By == "" {
			o.By = "simplifier"
		}
		return true
	}
	if q := x.quick(st, goal); q == 1 {
		if o.By == "" {
			o.By = "simplifier"
		}
		return true
	}
	x.checkDeadline()
	t0 := time.Now()
	neg := x.c.Not(goal)
	fs := append(append([]*Term{}, st.pc...), neg)
	getv := func() []*Term { return x.modelTerms(st) }
	var r Result
	var vals map[int]*big.Int
	if fs0, _ := x.relevant(st, goal, 3, true); kind == "safety" {
		if r, _ = x.sol.Check(append(fs0, neg), 0, 500, nil); r != Unsat {
			r = Unknown
		}
	} else {
		r = Unknown
	}
	if r == Unsat {
	} else if rel, all := x.relevant(st, goal, 2, false); !all {
		if r, _ = x.sol.Check(append(rel, neg), 3, 2000, nil); r != Unsat {
			r, vals = x.sol.Check(fs, 4, 8000, getv)
		}
	} else {
		r, vals = x.sol.Check(fs, 4, 8000, getv)
	}
	by := "z3-5"
	if r == Unknown && o.OK {
		r, by = Portfolio(x.sol.Script(fs, 4), x.sol.Script(fs, 2), 60*time.Second)
	}
	o.Ms += time.Since(t0).Milliseconds()
	if d := time.Since(t0); d > slowAt {
		fmt.Fprintf(os.Stderr, "SLOW %s %s %.1fs by %s: %.200s\n", x.h.Name, name, d.Seconds(), by, goal.String())
		if bd := x.c.defs[goal.id]; bd != nil {
			fmt.Fprintf(os.Stderr, "   %.1500s\n", bd.body.String())
		}
		if by != "z3-5" || d > 4*time.Second {
			os.WriteFile(fmt.Sprintf("/tmp/slow_%s_%d.smt2", x.h.Name, len(st.pc)), []byte(x.sol.Script(fs, 4)), 0644)
		}
	}
	if r == Unsat {
		if o.By == "" || o.By == "simplifier" {
			o.By = by
		}
		if x.tier == "thorough" {
			sc := x.sol.Script(fs, 4)
			if rr := RunScript("cvc5", []string{"--tlimit=15000"}, sc, 20*time.Second); rr == Sat {
				o.OK = false
				o.Msg = "cvc5 disagrees: sat"
			} else if rr == Unsat && !strings.Contains(o.By, "+cvc5") && by != "cvc5" {
				o.By += "+cvc5"
			}
		}
		x.assume(st, goal)
		return true
	}
	if o.OK {
		o.OK = false
		o.Msg = fmt.Sprintf("solver answered %s; goal: %.400s", r, goal.String())
		o.Pos = x.pos(x.curPos)
		if x.dbg {
			o.Script = x.sol.Script(fs, 4)
			os.WriteFile("/tmp/fail.smt2", []byte(o.Script), 0644)
			fmt.Fprintf(os.Stderr, "FAILED %s %s at %s: %s\n", kind, name, o.Pos, o.Msg)
			for _, p := range st.pc {
				fmt.Fprintf(os.Stderr, "   pc: %.300s\n", p)
			}
			for k, v := range x.modelInputs(st, vals) {
				fmt.Fprintf(os.Stderr, "   model %s = %v\n", k, v)
			}
		}
	}
	if vals != nil && o.Model == nil {
		o.Model = x.modelInputs(st, vals)
	} else if vals != nil && len(o.More) < 2 {
		o.More = append(o.More, x.modelInputs(st, vals))
	}
	x.assume(st, goal)
	return false
}

var slowAt = func() time.Duration {
	if v := os.Getenv("GOV_SLOW"); v != "" {
		d, _ := time.ParseDuration(v)
		return d
	}
	return time.Hour
}()

const maxModelBytes = 4096

func (x *Exec) modelTerms(st *State) []*Term {
	var ts []*Term
	for _, in := range st.inputs {
		switch in.kind {
		case "int", "bool":
			ts = append(ts, in.t)
		case "str", "bytes":
			ts = append(ts, in.s.n)
			m := int64(400)
			if in.s.n.hi != nil && in.s.n.hi.Cmp(bi(m)) < 0 {
				m = in.s.n.hi.Int64()
			}
			for i := int64(0); i < m; i++ {
				ts = append(ts, x.c.At(in.s, x.c.Int(i)))
			}
		}
	}
	return ts
}

func (x *Exec) modelInputs(st *State, vals map[int]*big.Int) map[string]any {
	if vals == nil {
		return nil
	}
	get := func(t *Term) *big.Int {
		if t.op == OConst {
			return t.c
		}
		if t.op == OTrue {
			return b1
		}
		if v, ok := vals[t.id]; ok {
			return v
		}
		return b0
	}
	m := map[string]any{}
	for _, in := range st.inputs {
		switch in.kind {
		case "int":
			m[in.name] = get(in.t).String()
		case "bool":
			m[in.name] = get(in.t).Sign() != 0
		case "str", "bytes":
			n := get(in.s.n)
			k := 400
			if n.IsInt64() && n.Int64() < int64(k) {
				k = int(n.Int64())
			}
			bs := make([]byte, 0, k)
			for i := 0; i < k; i++ {
				v := get(x.c.At(in.s, x.c.Int(int64(i))))
				bs = append(bs, byte(v.Int64()))
			}
			if n.IsInt64() && n.Int64() > int64(k) && n.Int64() < 1<<20 {
				for len(bs) < int(n.Int64()) {
					bs = append(bs, 'a')
				}
			}
			arr := make([]int, len(bs))
			for i := range bs {
				arr[i] = int(bs[i])
			}
			m[in.name] = arr
		}
	}
	return m
}

// safety obligation
func (x *Exec) safe(st *State, what string, goal *Term) {
	if x.inInit {
		// initialisers read configuration that is not there: what they compute from it is unknown
		if goal.op == OFalse {
			panic("init")
		}
		x.assume(st, goal)
		return
	}
	if x.dry > 0 {
		x.assume(st, goal)
		return
	}
	nm := fmt.Sprintf("%s: %s", x.curName(), what)
	if x.quick(st, goal) == 1 || goal.op == OTrue {
		o := x.obl("safety", nm, x.curName(), x.pos(x.curPos))
		o.Paths++
		if o.By == "" {
			o.By = "simplifier"
		}
		return
	}
	x.prove(st, "safety", nm, goal)
}

// ---------------------------------------------------------------- function info

func (x *Exec) info(fn *ssa.Function) *FnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	i := &FnInfo{num: map[ssa.Value]int{}, ipdom: map[*ssa.BasicBlock]*ssa.BasicBlock{}, heads: map[*ssa.BasicBlock]*loopInfo{}}
	add := func(v ssa.Value) {
		i.num[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// postdominators (iterative sets); exit = virtual
	n := len(fn.Blocks)
	pd := make([]map[int]bool, n)
	full := map[int]bool{}
	for k := 0; k < n; k++ {
		full[k] = true
	}
	for k := range pd {
		pd[k] = map[int]bool{}
		for j := range full {
			pd[k][j] = true
		}
		if len(fn.Blocks[k].Succs) == 0 {
			pd[k] = map[int]bool{k: true}
		}
	}
	for ch := true; ch; {
		ch = false
		for k := n - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			if len(b.Succs) == 0 {
				continue
			}
			ns := map[int]bool{}
			for j := range pd[b.Succs[0].Index] {
				ok := true
				for _, s := range b.Succs[1:] {
					if !pd[s.Index][j] {
						ok = false
						break
					}
				}
				if ok {
					ns[j] = true
				}
			}
			ns[k] = true
			if len(ns) != len(pd[k]) {
				pd[k] = ns
				ch = true
			}
		}
	}
	for k, b := range fn.Blocks {
		// ipdom: the strict postdominator with the largest pd set
		best := -1
		for j := range pd[k] {
			if j == k {
				continue
			}
			if best < 0 || len(pd[j]) > len(pd[best]) {
				best = j
			}
		}
		if best >= 0 {
			i.ipdom[b] = fn.Blocks[best]
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := i.heads[s]
				if li == nil {
					li = &loopInfo{body: map[*ssa.BasicBlock]bool{s: true}}
					i.heads[s] = li
					i.order = append(i.order, s)
				}
				var stack []*ssa.BasicBlock
				if !li.body[b] {
					li.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					y := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range y.Preds {
						if !li.body[p] {
							li.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(i.order, func(a, b int) bool { return i.order[a].Index < i.order[b].Index })
	for k, h := range i.order {
		i.heads[h].ord = k + 1
	}
	x.infos[fn] = i
	return i
}

func shortFn(s string) string {
	s = strings.ReplaceAll(s, "github.com/hrygo/gosms/", "")
	return s
}

// ---------------------------------------------------------------- calls

func single(st *State, vs ...Value) []Out { return []Out{{st, vs}} }

func (x *Exec) callFunc(st *State, f Func, args []Value, depth int) []Out {
	if f.nat != nil {
		return f.nat(x, st, args)
	}
	if f.fn == nil {
		x.safe(st, "call of nil function", x.c.ff)
		return nil
	}
	return x.call(st, f.fn, args, f.binds, depth)
}

func (x *Exec) call(st *State, fn *ssa.Function, args []Value, binds []Value, depth int) []Out {
	if depth > 120 {
		x.unsupported("call depth (recursion) in %s", fn)
	}
	name := fn.String()
	if fn.Origin() != nil {
		if nat, ok := natives[fn.Origin().String()]; ok {
			x.trusted[fn.Origin().String()] = true
			return nat(x, st, args, fn)
		}
	}
	if s, ok := x.stubs[name]; ok {
		if fv, ok := s.(Func); ok && !x.onStack(fv.fn.String()) {
			x.inlined["contract:"+name] = true
			return x.callFunc(st, fv, args, depth+1)
		}
	}
	if nat, ok := natives[name]; ok {
		if !strings.Contains(name, "/zzv.") {
			x.trusted[name] = true
		}
		return nat(x, st, args, fn)
	}
	if mc, ok := x.prog.models[name]; ok && !x.h.noModel[name] {
		x.trusted["model:"+name] = true
		return x.call(st, mc, args, nil, depth+1)
	}
	for _, p := range opaquePrefixes {
		if strings.HasPrefix(name, p) || strings.HasPrefix(strings.TrimLeft(name, "(*"), p) {
			x.trusted[p+"*"] = true
			return single(st, x.havocResults(st, fn.Signature, name)...)
		}
	}
	if len(fn.Blocks) == 0 {
		x.unsupported("no body for %s", name)
	}
	pk := pkgOf(fn)
	if !x.allowInline(pk) {
		if outs, ok := x.genericExternal(st, fn, args); ok {
			return outs
		}
		x.unsupported("call of external function %s", name)
	}
	x.inlined[name] = true
	return x.execFn(st, fn, args, binds, depth)
}

func (x *Exec) onStack(n string) bool {
	for _, s := range x.callStack {
		if s == n {
			return true
		}
	}
	return false
}

func pkgOf(fn *ssa.Function) string {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	// wrapper: receiver type
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

var inlinePkgs = map[string]bool{"": true, "encoding/binary": true, "errors": true, "strings": true, "bytes": true, "internal/stringslite": true, "internal/bytealg": true, "strconv": true, "unicode/utf8": true, "math/bits": true, "encoding/hex": true, "internal/byteorder": true, "io": true, "slices": true, "cmp": true, "maps": true, "sort": true, "internal/strconv": true, "math": true, "unicode": true, "container/list": true}

func (x *Exec) allowInline(p string) bool {
	return inlinePkgs[p] || strings.HasPrefix(p, "github.com/hrygo/gosms")
}

func (x *Exec) havocResults(st *State, sig *types.Signature, name string) []Value {
	var r []Value
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, x.havoc(st, sig.Results().At(i).Type(), name))
	}
	return r
}

func (x *Exec) genericExternal(st *State, fn *ssa.Function, args []Value) ([]Out, bool) {
	return nil, false
}

func (x *Exec) execFn(st *State, fn *ssa.Function, args []Value, binds []Value, depth int) []Out {
	fr := &Frame{fn: fn, info: x.info(fn), depth: depth}
	fr.env = make([]Value, fr.info.n)
	if len(args) != len(fn.Params) {
		x.unsupported("arity %s: %d vs %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[fr.info.num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[fr.info.num[p]] = binds[i]
	}
	savedFn, savedPos := x.curFn, x.curPos
	x.callStack = append(x.callStack, fn.String())
	base := len(st.pc)
	exits := x.runFrom(fr, st, fn.Blocks[0], 0, nil)
	x.callStack = x.callStack[:len(x.callStack)-1]
	x.curFn, x.curPos = savedFn, savedPos
	var outs []Out
	for _, e := range exits {
		outs = append(outs, Out{e.st, e.ret})
	}
	return x.mergeOuts(outs, base)
}

func (x *Exec) mergeOuts(outs []Out, base int) []Out {
	if len(outs) < 2 || len(outs) > 400 {
		return outs
	}
	for {
		merged := false
		for i := 0; i < len(outs) && !merged; i++ {
			for j := i + 1; j < len(outs) && j < i+12; j++ {
				if m, ok := x.tryMerge(outs[i], outs[j]); ok {
					outs[i] = m
					outs = append(outs[:j], outs[j+1:]...)
					merged = true
					break
				}
			}
		}
		if !merged {
			return outs
		}
	}
}

// mergeableDiff decides whether two differing values should be merged or kept apart.
func (x *Exec) mergeableDiff(a, b Value) bool {
	switch u := a.(type) {
	case *Term:
		v, ok := b.(*Term)
		if !ok || u.isBool() != v.isBool() {
			return false
		}
		if u.isBool() {
			return true
		}
		if u.isConst() && v.isConst() && u != v {
			return false
		}
		return true
	case Str:
		v, ok := b.(Str)
		if !ok {
			return false
		}
		_ = v
		return true
	case Slice:
		v, ok := b.(Slice)
		return ok && u.p.obj == v.p.obj && x.mergeableDiff(u.len, v.len) && x.mergeableDiff(u.off, v.off)
	case Tuple:
		v, ok := b.(Tuple)
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range u {
			if !sameVal(u[i], v[i]) && !x.mergeableDiff(u[i], v[i]) {
				return false
			}
		}
		return true
	case *StructV:
		v, ok := b.(*StructV)
		if !ok || len(u.f) != len(v.f) {
			return false
		}
		for i := range u.f {
			if !sameVal(u.f[i], v.f[i]) && !x.mergeableDiffMem(u.f[i], v.f[i]) {
				return false
			}
		}
		return true
	case Iface:
		v, ok := b.(Iface)
		return ok && u.typ != nil && v.typ != nil && types.Identical(u.typ, v.typ) && x.mergeableDiff(u.val, v.val)
	}
	return false
}

// in memory constants may be merged too
func (x *Exec) mergeableDiffMem(a, b Value) bool {
	switch u := a.(type) {
	case *Term:
		v, ok := b.(*Term)
		return ok && u.isBool() == v.isBool()
	case *BytesV:
		v, ok := b.(*BytesV)
		return ok && (u.n == v.n)
	case *ArrV:
		v, ok := b.(*ArrV)
		if !ok || len(u.e) != len(v.e) {
			return false
		}
		for i := range u.e {
			if !sameVal(u.e[i], v.e[i]) && !x.mergeableDiffMem(u.e[i], v.e[i]) {
				return false
			}
		}
		return true
	case Slice:
		v, ok := b.(Slice)
		if !ok || u.p.obj != v.p.obj {
			return false
		}
		if u.len != v.len && u.len.isConst() && v.len.isConst() && x.mst != nil {
			// slices of other than bytes keep their length concrete
			if _, arr := x.mst.heap[u.p.obj].(*ArrV); arr {
				return false
			}
		}
		return true
	}
	return x.mergeableDiff(a, b)
}

// mergeEqual: the value on one side is a constant which the other's value has there too (the limit of a minimum, say).
func (x *Exec) mergeEqual(a, b *State, u, v Value) (Value, bool) {
	p, ok1 := u.(*Term)
	q, ok2 := v.(*Term)
	if !ok1 || !ok2 || p == q {
		return nil, false
	}
	is := func(st *State, t, k *Term) bool {
		lo, hi := x.bnd(st, t)
		return lo != nil && hi != nil && lo.Cmp(k.c) == 0 && hi.Cmp(k.c) == 0
	}
	if q.isConst() && !p.isConst() && is(b, p, q) {
		return p, true
	}
	if p.isConst() && !q.isConst() && is(a, q, p) {
		return q, true
	}
	return nil, false
}

func (x *Exec) tryMerge(a, b Out) (Out, bool) {
	if len(a.ret) != len(b.ret) {
		return Out{}, false
	}
	if len(a.st.inputs) != len(b.st.inputs) {
		return Out{}, false
	}
	for i := range a.ret {
		if !sameVal(a.ret[i], b.ret[i]) && !x.mergeableDiff(a.ret[i], b.ret[i]) {
			return Out{}, false
		}
	}
	st, g, ok := x.mergeStates(a.st, b.st)
	if !ok {
		return Out{}, false
	}
	r := make([]Value, len(a.ret))
	for i := range a.ret {
		m, ok := x.mergeEqual(a.st, b.st, a.ret[i], b.ret[i])
		if !ok {
			m, ok = x.mergeVal(g, a.ret[i], b.ret[i])
		}
		if !ok {
			return Out{}, false
		}
		r[i] = m
	}
	return Out{st, r}, true
}

func (x *Exec) heapGet(st *State, o int) (Value, bool) {
	v, ok := st.heap[o]
	if !ok {
		if g, isg := x.gobj[o]; isg && g != nil {
			return x.globalInit(st, o), true
		}
	}
	return v, ok
}

func (x *Exec) mergeStates(a, b *State) (*State, *Term, bool) {
	x.mst = a
	// ghost must agree
	if len(a.ghost) != len(b.ghost) {
		return nil, nil, false
	}
	for k, v := range a.ghost {
		w, ok := b.ghost[k]
		if !ok || v != w {
			return nil, nil, false
		}
	}
	// common prefix of pcs
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	da, db := a.pc[k:], b.pc[k:]
	// facts common to both suffixes stay facts
	inB := map[int]bool{}
	for _, t := range db {
		inB[t.id] = true
	}
	var ga, gb, common []*Term
	inA := map[int]bool{}
	for _, t := range da {
		inA[t.id] = true
		if inB[t.id] {
			common = append(common, t)
		} else {
			ga = append(ga, t)
		}
	}
	for _, t := range db {
		if !inA[t.id] {
			gb = append(gb, t)
		}
	}
	if len(ga) > 30 || len(gb) > 30 {
		return nil, nil, false
	}
	g, g2 := x.c.And(ga...), x.c.And(gb...)
	type diff struct {
		o    int
		a, b Value
	}
	var diffs []diff
	for o, v := range a.heap {
		w, ok := b.heap[o]
		if !ok {
			if _, isg := x.gobj[o]; isg {
				w, _ = x.heapGet(b, o)
			} else {
				continue // allocated only on a's path
			}
		}
		if !sameVal(v, w) {
			if !x.mergeableDiffMem(v, w) {
				return nil, nil, false
			}
			diffs = append(diffs, diff{o, v, w})
		}
	}
	n := a.clone()
	for o, w := range b.heap {
		if _, ok := a.heap[o]; !ok {
			if _, isg := x.gobj[o]; isg {
				v, _ := x.heapGet(n, o)
				if !sameVal(v, w) {
					if !x.mergeableDiffMem(v, w) {
						return nil, nil, false
					}
					diffs = append(diffs, diff{o, v, w})
				}
			} else {
				n.heap[o] = w
			}
		}
	}
	for _, d := range diffs {
		m, ok := x.mergeVal(g, d.a, d.b)
		if !ok {
			return nil, nil, false
		}
		n.heap[d.o] = m
	}
	n.pc = append([]*Term{}, a.pc[:k]...)
	n.pcset = map[int]bool{}
	n.bounds = map[int][2]*big.Int{}
	for _, t := range n.pc {
		n.pcset[t.id] = true
		x.noteBounds(n, t)
	}
	for _, t := range common {
		x.assume(n, t)
	}
	x.assume(n, x.c.Or(g, g2))
	if b.steps > n.steps {
		n.steps = b.steps
	}
	for k := range b.covers {
		_ = k
	}
	return n, g, true
}

// ---------------------------------------------------------------- blocks

func cloneInts(m map[*ssa.BasicBlock]int) map[*ssa.BasicBlock]int {
	n := map[*ssa.BasicBlock]int{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = append([]Value(nil), fr.env...)
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	if fr.cut != nil {
		n.cut = map[*ssa.BasicBlock]*cutState{}
		for k, v := range fr.cut {
			n.cut[k] = v
		}
	}
	if fr.visits != nil {
		n.visits = map[*ssa.BasicBlock]int{}
		for k, v := range fr.visits {
			n.visits[k] = v
		}
	}
	return &n
}

// jump moves along an edge evaluating phis; returns false when the path is cut.
func (x *Exec) jump(fr *Frame, st *State, from, to *ssa.BasicBlock) bool {
	if fr.dry != nil && !fr.dry.body[to] {
		return false
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(fr, st, ph.Edges[pi]))
	}
	for i, ph := range phis {
		fr.env[fr.info.num[ph]] = vals[i]
	}
	li := fr.info.heads[to]
	if li == nil {
		return true
	}
	inv := x.findInv(fr.fn, li.ord)
	if inv == nil {
		if fr.visits == nil {
			fr.visits = map[*ssa.BasicBlock]int{}
		}
		if !li.body[from] {
			fr.visits[to] = 0
			if fr.und[to] > 0 {
				fr.und = cloneInts(fr.und)
				fr.und[to] = 0
			}
			if fr.auto[to] != nil {
				fr.cut2(to, nil)
			}
		} else if ac := fr.auto[to]; ac != nil {
			if !ac.final {
				var back []Value
				for _, ph := range phis {
					back = append(back, fr.env[fr.info.num[ph]])
				}
				ac.found(st, back)
			}
			return false
		} else if fr.und[to] > autoAfter && !fr.noAuto[to] {
			f0, s0 := fr.clone(), st.clone()
			if x.dbg {
				fmt.Println("   summarising loop of", fr.fn, "at", x.pos(x.curPos))
			}
			if x.autoSummary(f0, s0, to, li) {
				*fr, *st = *f0, *s0
				return true
			}
			n := map[*ssa.BasicBlock]bool{to: true}
			for k := range fr.noAuto {
				n[k] = true
			}
			fr.noAuto = n
		}
		fr.visits[to]++
		if fr.visits[to] > 3000 {
			x.unsupported("loop %d of %s does not terminate within 3000 unrollings and has no invariant", li.ord, fr.fn)
		}
		return true
	}
	inv.used = true
	lname := fmt.Sprintf("%s loop %d", shortFn(fr.fn.String()), li.ord)
	if cs := fr.cut[to]; cs != nil && li.body[from] {
		if r := fr.rot[to]; r != nil {
			fr.setRot(to, &rotState{rotBack, r.pi, r.inv})
			return true
		}
		x.loopKept(fr, st, lname, inv, cs)
		return false
	}
	if inv.inv != nil {
		x.prove(st, "invariant", lname+": holds on entry", x.evalPure(st, inv.inv, nil))
	}
	if pureHead(to, li) {
		// the state at the head is followed out of the loop as it is; into the loop it becomes arbitrary (rotStep)
		fr.setRot(to, &rotState{mode: rotEntry, pi: pi, inv: inv})
		return true
	}
	x.loopHavoc(fr, st, to, pi, inv)
	return true
}

// A loop with a contract whose head only tests: the state on entry is followed out of the loop; an arbitrary iteration starts
// where the head goes on into the loop; the state after it is followed through the head out of the loop.
const (
	rotEntry = iota
	rotAny
	rotIn
	rotBack
)

type rotState struct {
	mode int
	pi   int
	inv  *LoopInv
}

func (fr *Frame) setRot(b *ssa.BasicBlock, r *rotState) {
	n := map[*ssa.BasicBlock]*rotState{}
	for k, v := range fr.rot {
		n[k] = v
	}
	n[b] = r
	fr.rot = n
}

func pureHead(b *ssa.BasicBlock, li *loopInfo) bool {
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.DebugRef:
		case *ssa.UnOp:
			if i.Op == token.MUL || i.Op == token.ARROW {
				return false
			}
		case *ssa.If:
			return li.body[b.Succs[0]] != li.body[b.Succs[1]]
		default:
			return false
		}
	}
	return false
}

// rotStep decides about the step from a loop head to one of its successors: whether it is taken, and whether the head is
// to be passed again from an arbitrary state instead.
func (x *Exec) rotStep(fr *Frame, st *State, from, to *ssa.BasicBlock) (ok, again bool) {
	r := fr.rot[from]
	if r == nil {
		return true, false
	}
	if !fr.info.heads[from].body[to] {
		return r.mode != rotAny, false
	}
	switch r.mode {
	case rotEntry:
		x.loopHavoc(fr, st, from, r.pi, r.inv)
		fr.setRot(from, &rotState{rotAny, r.pi, r.inv})
		return true, true
	case rotAny:
		fr.setRot(from, &rotState{rotIn, r.pi, r.inv})
		return true, false
	}
	li := fr.info.heads[from]
	x.loopKept(fr, st, fmt.Sprintf("%s loop %d", shortFn(fr.fn.String()), li.ord), r.inv, fr.cut[from])
	return false, false
}

// loopKept: an iteration keeps the invariant and changes nothing outside the loop's frame.
func (x *Exec) loopKept(fr *Frame, st *State, lname string, inv *LoopInv, cs *cutState) {
	// back edge: invariant preserved
	if inv.inv != nil {
		x.prove(st, "invariant", lname+": preserved", x.evalPure(st, inv.inv, nil))
	}
	// frame: nothing outside the declared havoc set changed
	var bad []string
	for o, v := range cs.heap {
		if cs.havoc[o] {
			continue
		}
		if w, ok := st.heap[o]; ok && !sameVal(v, w) {
			d := fmt.Sprintf("object %d (%T)", o, v)
			if g := x.gobj[o]; g != nil {
				d = g.String()
			}
			bad = append(bad, d)
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		o := x.obl("frame", lname+": modifies only its declared frame", fr.fn.String(), "")
		o.Paths++
		o.OK = false
		o.Msg = "also modified: " + strings.Join(bad, ", ")
	} else {
		o := x.obl("frame", lname+": modifies only its declared frame", fr.fn.String(), "")
		o.Paths++
		o.By = "simplifier"
	}
}

// loopHavoc makes what the loop assigns arbitrary, subject to the invariant.
func (x *Exec) loopHavoc(fr *Frame, st *State, to *ssa.BasicBlock, pi int, inv *LoopInv) {
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, fr.env[fr.info.num[ph]])
	}
	before := map[int]Value{}
	for o, v := range st.heap {
		before[o] = v
	}
	if inv.havoc != nil {
		outs := x.callFunc(st, inv.havoc.(Func), nil, fr.depth+1)
		if len(outs) != 1 {
			x.unsupported("loop havoc forks")
		}
		*st = *outs[0].st
	}
	cs := &cutState{inv: inv, heap: map[int]Value{}, havoc: map[int]bool{}}
	for o, v := range st.heap {
		if b, ok := before[o]; ok && !sameVal(b, v) {
			cs.havoc[o] = true
		}
	}
	for i, ph := range phis {
		same := true
		for _, e := range ph.Edges {
			if e != ph.Edges[pi] && e != ssa.Value(ph) {
				same = false
			}
		}
		if same {
			continue
		}
		switch vals[i].(type) {
		case *Term, Str, Opaque:
			fr.env[fr.info.num[ph]] = x.havoc(st, ph.Type(), ph.Comment)
		case Iface:
			// interface locals carried around the loop (errors): keep only if loop exits with it
			x.unsupported("loop-carried interface %s in %s", ph.Comment, fr.fn)
		default:
			x.unsupported("loop-carried %T %s in %s", vals[i], ph.Comment, fr.fn)
		}
	}
	if inv.inv != nil {
		x.assume(st, x.evalPure(st, inv.inv, nil))
	}
	for o, v := range st.heap {
		cs.heap[o] = v
	}
	if fr.cut == nil {
		fr.cut = map[*ssa.BasicBlock]*cutState{}
	}
	fr.cut[to] = cs
}

func (x *Exec) findInv(fn *ssa.Function, ord int) *LoopInv {
	n := fn.String()
	for i := len(x.loopInvs) - 1; i >= 0; i-- {
		l := x.loopInvs[i]
		if (l.fn == n || strings.HasSuffix(n, "/"+l.fn) || strings.HasSuffix(shortFn(n), l.fn)) && (l.ord == ord || l.ord == 0) {
			return l
		}
		if to := x.loopMoved[l.fn]; to != "" && to == fmt.Sprintf("%s/%d", n, ord) {
			return l
		}
	}
	for i := len(x.loopInvs) - 1; i >= 0; i-- {
		// the loop may have been moved to another function: then the contract goes with it
		l := x.loopInvs[i]
		if l.used || x.loopMoved[l.fn] != "" || !x.loopGone(l) || !x.callsOwn(fn, ord) {
			continue
		}
		if x.loopMoved == nil {
			x.loopMoved = map[string]string{}
		}
		x.loopMoved[l.fn] = fmt.Sprintf("%s/%d", n, ord)
		return l
	}
	return nil
}

func (x *Exec) loopGone(l *LoopInv) bool {
	if !l.checked {
		l.checked, l.gone = true, true
		for fn := range ssautil.AllFunctions(x.prog.ssa) {
			n := fn.String()
			if (l.fn == n || strings.HasSuffix(n, "/"+l.fn) || strings.HasSuffix(shortFn(n), l.fn)) && len(fn.Blocks) > 0 && len(x.info(fn).heads) > 0 {
				l.gone = false
			}
		}
	}
	return l.gone
}

// callsOwn: the loop calls a function of its own package that is not part of a contract.
func (x *Exec) callsOwn(fn *ssa.Function, ord int) bool {
	if strings.Contains(x.prog.fset.Position(fn.Pos()).Filename, "zz_verif_") {
		return false
	}
	for _, li := range x.info(fn).heads {
		if li.ord != ord {
			continue
		}
		for b := range li.body {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg == fn.Pkg {
						return true
					}
				}
			}
		}
	}
	return false
}

func (x *Exec) runFrom(fr *Frame, st *State, blk *ssa.BasicBlock, idx int, stop *ssa.BasicBlock) []Exit {
	for {
		for ; idx < len(blk.Instrs); idx++ {
			in := blk.Instrs[idx]
			x.steps++
			if x.steps%512 == 0 {
				x.checkDeadline()
			}
			x.curFn = fr.fn
			if in.Pos().IsValid() {
				x.curPos = in.Pos()
			}
			switch i := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Jump:
				if !x.jump(fr, st, blk, blk.Succs[0]) {
					return nil
				}
				if blk.Succs[0] == stop {
					return []Exit{{kind: exStop, fr: fr, st: st}}
				}
				blk, idx = blk.Succs[0], 0
				goto next
			case *ssa.If:
				cond, ok := x.val(fr, st, i.Cond).(*Term)
				if !ok {
					cond = x.c.FreshB("cond")
				}
				tf, ff := true, true
				switch x.quick(st, cond) {
				case 1:
					ff = false
				case -1:
					tf = false
				default:
					tf = x.feasible(st, cond)
					if tf {
						ff = x.feasible(st, x.c.Not(cond))
					} // if cond is infeasible the negation is taken as feasible
				}
				if tf != ff {
					var to *ssa.BasicBlock
					if tf {
						x.assume(st, cond)
						to = blk.Succs[0]
					} else {
						x.assume(st, x.c.Not(cond))
						to = blk.Succs[1]
					}
					if ok, again := x.rotStep(fr, st, blk, to); again {
						idx = 0
						goto next
					} else if !ok {
						return nil
					}
					if !x.jump(fr, st, blk, to) {
						return nil
					}
					if to == stop {
						return []Exit{{kind: exStop, fr: fr, st: st}}
					}
					blk, idx = to, 0
					goto next
				}
				for h, li := range fr.info.heads {
					if li.body[blk] && (!li.body[blk.Succs[0]] || !li.body[blk.Succs[1]]) {
						fr.und = cloneInts(fr.und)
						fr.und[h]++
					}
				}
				x.paths++
				if x.paths > 200000 {
					x.unsupported("too many paths")
				}
				j := fr.info.ipdom[blk]
				var exits []Exit
				for side := 0; side < 2; side++ {
					f2, s2 := fr, st
					if side == 0 {
						f2, s2 = fr.clone(), st.clone()
						x.assume(s2, cond)
					} else {
						x.assume(s2, x.c.Not(cond))
					}
					to := blk.Succs[side]
					if ok, again := x.rotStep(f2, s2, blk, to); again {
						exits = append(exits, x.runFrom(f2, s2, blk, 0, j)...)
						continue
					} else if !ok {
						continue
					}
					if !x.jump(f2, s2, blk, to) {
						continue
					}
					if to == j {
						exits = append(exits, Exit{kind: exStop, fr: f2, st: s2})
						continue
					}
					exits = append(exits, x.runFrom(f2, s2, to, 0, j)...)
				}
				if j == nil {
					return exits
				}
				var res, at []Exit
				for _, e := range exits {
					if e.kind == exStop {
						at = append(at, e)
					} else {
						res = append(res, e)
					}
				}
				at = x.mergeExits(at, j)
				if j == stop {
					return append(res, at...)
				}
				if len(res) == 0 && len(at) == 1 {
					fr, st = at[0].fr, at[0].st
					blk, idx = j, 0
					goto next
				}
				for _, e := range at {
					res = append(res, x.runFrom(e.fr, e.st, j, 0, stop)...)
				}
				return res
			case *ssa.Return:
				var rs []Value
				for _, r := range i.Results {
					rs = append(rs, x.val(fr, st, r))
				}
				return []Exit{{kind: exRet, fr: fr, st: st, ret: rs}}
			case *ssa.Panic:
				v := x.val(fr, st, i.X)
				_ = v
				x.safe(st, "explicit panic unreachable", x.c.ff)
				return nil
			case *ssa.RunDefers:
				outs := x.runDefers(fr, st)
				if len(outs) == 0 {
					return nil
				}
				if len(outs) == 1 {
					st = outs[0]
					continue
				}
				var res []Exit
				for k, o := range outs {
					f2 := fr
					if k < len(outs)-1 {
						f2 = fr.clone()
					}
					f2.defers = nil
					res = append(res, x.runFrom(f2, o, blk, idx+1, stop)...)
				}
				return res
			case *ssa.Call:
				outs := x.doCall(fr, st, &i.Call, i)
				if len(outs) == 0 {
					return nil
				}
				if len(outs) == 1 {
					st = outs[0].st
					x.setCall(fr, i, outs[0].ret)
					continue
				}
				x.paths += len(outs) - 1
				var res []Exit
				for k, o := range outs {
					f2 := fr
					if k < len(outs)-1 {
						f2 = fr.clone()
					}
					x.setCall(f2, i, o.ret)
					res = append(res, x.runFrom(f2, o.st, blk, idx+1, stop)...)
				}
				return x.mergeRets(res, stop)
			default:
				forks := x.step(fr, st, in)
				if forks == nil {
					continue
				}
				// instruction forked (value per state)
				var res []Exit
				for k, o := range forks {
					f2 := fr
					if k < len(forks)-1 {
						f2 = fr.clone()
					}
					if v, ok := in.(ssa.Value); ok && o.ret != nil {
						f2.env[fr.info.num[v]] = o.ret[0]
					}
					res = append(res, x.runFrom(f2, o.st, blk, idx+1, stop)...)
				}
				return x.mergeRets(res, stop)
			}
		}
		return nil
	next:
		if st.steps++; st.steps > 400000 {
			x.unsupported("path too long")
		}
	}
}

func (x *Exec) mergeRets(res []Exit, stop *ssa.BasicBlock) []Exit {
	if len(res) < 2 || stop == nil {
		return res
	}
	var at, rest []Exit
	for _, e := range res {
		if e.kind == exStop {
			at = append(at, e)
		} else {
			rest = append(rest, e)
		}
	}
	if len(at) < 2 {
		return res
	}
	return append(rest, x.mergeExits(at, stop)...)
}

func (x *Exec) mergeExits(at []Exit, j *ssa.BasicBlock) []Exit {
	if len(at) < 2 || len(at) > 300 {
		return at
	}
	for {
		merged := false
		for a := 0; a < len(at) && !merged; a++ {
			for b := a + 1; b < len(at) && b < a+12; b++ {
				if m, ok := x.mergeExit(at[a], at[b], j); ok {
					at[a] = m
					at = append(at[:b], at[b+1:]...)
					merged = true
					break
				}
			}
		}
		if !merged {
			return at
		}
	}
}

func (x *Exec) mergeExit(a, b Exit, j *ssa.BasicBlock) (Exit, bool) {
	if len(a.st.inputs) != len(b.st.inputs) || len(a.fr.defers) != len(b.fr.defers) {
		return Exit{}, false
	}
	var idx []int
	for i := range a.fr.env {
		va, vb := a.fr.env[i], b.fr.env[i]
		if va == nil || vb == nil {
			continue
		}
		if sameVal(va, vb) {
			continue
		}
		idx = append(idx, i)
	}
	// only values live at j matter: phis of j and values defined in dominators of j
	live := x.liveAt(a.fr, j)
	var need []int
	for _, i := range idx {
		if live[i] {
			if !x.mergeableDiff(a.fr.env[i], b.fr.env[i]) {
				return Exit{}, false
			}
			need = append(need, i)
		}
	}
	for i := range a.fr.env {
		if live[i] && (a.fr.env[i] == nil) != (b.fr.env[i] == nil) {
			return Exit{}, false
		}
	}
	st, g, ok := x.mergeStates(a.st, b.st)
	if !ok {
		return Exit{}, false
	}
	fr := a.fr.clone()
	for i := range fr.env {
		if fr.env[i] == nil {
			fr.env[i] = b.fr.env[i]
		}
	}
	for _, i := range need {
		m, ok := x.mergeEqual(a.st, b.st, a.fr.env[i], b.fr.env[i])
		if !ok {
			m, ok = x.mergeVal(g, a.fr.env[i], b.fr.env[i])
		}
		if !ok {
			return Exit{}, false
		}
		fr.env[i] = m
	}
	return Exit{kind: exStop, fr: fr, st: st}, true
}

type liveKey struct {
	fn *ssa.Function
	b  *ssa.BasicBlock
}

var _ = liveKey{}

func (x *Exec) liveAt(fr *Frame, j *ssa.BasicBlock) map[int]bool {
	// conservative: phis of j, plus every value whose block dominates j (strictly) and
	// which is used in a block reachable from j.
	k := fmt.Sprintf("live|%p", j)
	if v, ok := x.c.ufMemo[k]; ok {
		return v.(map[int]bool)
	}
	reach := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
	}
	dfs(j)
	live := map[int]bool{}
	for v, i := range fr.info.num {
		in, isIn := v.(ssa.Instruction)
		if isIn {
			b := in.Block()
			if ph, ok := v.(*ssa.Phi); ok && b == j {
				_ = ph
				live[i] = true
				continue
			}
			if !(b.Dominates(j) && b != j) {
				continue
			}
		}
		refs := v.Referrers()
		if refs == nil {
			live[i] = true
			continue
		}
		for _, r := range *refs {
			if ph, ok := r.(*ssa.Phi); ok {
				// used on an edge from a reachable block
				for ei, e := range ph.Edges {
					if e == v && reach[ph.Block().Preds[ei]] {
						live[i] = true
					}
				}
				continue
			}
			if reach[r.Block()] {
				live[i] = true
				break
			}
		}
	}
	x.c.ufMemo[k] = live
	return live
}

func (x *Exec) setCall(fr *Frame, i *ssa.Call, ret []Value) {
	n := fr.info.num[i]
	switch len(ret) {
	case 0:
		fr.env[n] = Tuple{}
	case 1:
		if _, isT := i.Type().(*types.Tuple); isT {
			if t, ok := ret[0].(Tuple); ok {
				fr.env[n] = t
				return
			}
			fr.env[n] = Tuple(ret)
			return
		}
		fr.env[n] = ret[0]
	default:
		fr.env[n] = Tuple(ret)
	}
}

func (x *Exec) runDefers(fr *Frame, st *State) []*State {
	states := []*State{st}
	for k := len(fr.defers) - 1; k >= 0; k-- {
		d := fr.defers[k]
		var next []*State
		for _, s := range states {
			var outs []Out
			if b, ok := d.fn.(*ssa.Builtin); ok {
				_ = b
				outs = single(s)
			} else {
				outs = x.invokeVal(fr, s, d.call.Common(), d.fn, d.args)
			}
			for _, o := range outs {
				next = append(next, o.st)
			}
		}
		states = next
	}
	fr.defers = nil
	return states
}

// ---------------------------------------------------------------- values

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Value {
	switch u := v.(type) {
	case *ssa.Const:
		return x.constVal(u)
	case *ssa.Global:
		return Ptr{obj: x.globalObj(u)}
	case *ssa.Function:
		return Func{fn: u}
	case *ssa.Builtin:
		return Func{bi: u}
	}
	r := fr.env[fr.info.num[v]]
	if r == nil {
		x.unsupported("use of undefined register %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return x.zero(k.Type())
	}
	t := k.Type().Underlying()
	if tp, ok := t.(*types.Basic); ok {
		switch {
		case tp.Info()&types.IsBoolean != 0:
			return x.c.Bool(constant.BoolVal(k.Value))
		case tp.Info()&types.IsString != 0:
			return x.c.StrConst(constant.StringVal(k.Value))
		case tp.Info()&types.IsInteger != 0:
			v := constant.ToInt(k.Value)
			b, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				x.unsupported("constant %s", k)
			}
			return x.c.Big(b)
		case tp.Info()&types.IsFloat != 0:
			return Opaque{k.Type(), "f" + k.Value.ExactString()}
		}
	}
	x.unsupported("constant %s of type %s", k, k.Type())
	return nil
}

func (x *Exec) globalObj(g *ssa.Global) int {
	if o, ok := x.globals[g]; ok {
		return o
	}
	x.nobj++
	x.globals[g] = x.nobj
	x.gobj[x.nobj] = g
	return x.nobj
}

// globalInit gives the value a global has after package initialisation.
func (x *Exec) globalInit(st *State, obj int) Value {
	g := x.gobj[obj]
	if g == nil {
		x.unsupported("dangling object %d", obj)
	}
	if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), "golang.org/x/text/") {
		// the codecs of x/text are trusted by name
		v := Opaque{g.Type().(*types.Pointer).Elem(), g.String()}
		st.heap[obj] = v
		return v
	}
	if x.inInit {
		v := x.zero(g.Type().(*types.Pointer).Elem())
		st.heap[obj] = v
		return v
	}
	m, ok := x.pkgInit[g.Pkg]
	if !ok {
		m = x.runInit(g.Pkg)
		x.pkgInit[g.Pkg] = m
	}
	for o, v := range m {
		if _, ok := st.heap[o]; !ok {
			st.heap[o] = v
		}
	}
	if v, ok := st.heap[obj]; ok {
		return v
	}
	v := x.zero(g.Type().(*types.Pointer).Elem())
	st.heap[obj] = v
	return v
}

func (x *Exec) runInit(p *ssa.Package) (res map[int]Value) {
	res = map[int]Value{}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	repo := strings.HasPrefix(p.Pkg.Path(), "github.com/hrygo/gosms")
	st := &State{heap: map[int]Value{}, pcset: map[int]bool{}, bounds: map[int][2]*big.Int{}, ghost: map[string]any{}, covers: map[string]bool{}}
	fr := &Frame{fn: fn, info: x.info(fn)}
	fr.env = make([]Value, fr.info.n)
	sf, sp, si := x.curFn, x.curPos, x.inInit
	x.inInit = true
	defer func() { x.curFn, x.curPos, x.inInit = sf, sp, si }()
	for _, b := range fn.Blocks {
		if b.Index == 0 {
			continue
		}
		for _, in := range b.Instrs {
			func() {
				defer func() {
					if e := recover(); e != nil {
						if v, ok := in.(ssa.Value); ok {
							x.c.nfresh++
							fr.env[fr.info.num[v]] = Opaque{v.Type(), fmt.Sprintf("init!%d", x.c.nfresh)}
						}
						if s, ok := in.(*ssa.Store); ok {
							if g, ok := s.Addr.(*ssa.Global); ok {
								x.c.nfresh++
								st.heap[x.globalObj(g)] = Opaque{g.Type(), fmt.Sprintf("init!%d", x.c.nfresh)}
							}
						}
					}
				}()
				switch i := in.(type) {
				case *ssa.Call:
					if f := i.Call.StaticCallee(); f != nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) && f.Signature.Params().Len() == 0 && f.Signature.Recv() == nil {
						return
					}
					if !repo {
						if f := i.Call.StaticCallee(); f == nil || f.String() != "errors.New" {
							panic("skip")
						}
					}
					outs := x.doCall(fr, st, &i.Call, i)
					if len(outs) != 1 {
						panic("fork")
					}
					*st = *outs[0].st
					x.setCall(fr, i, outs[0].ret)
				case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi:
				default:
					if fk := x.step(fr, st, in); fk != nil {
						panic("fork")
					}
				}
			}()
		}
	}
	return st.heap
}

func (x *Exec) newErr(st *State, text string) Iface {
	p := x.prog.ssa.ImportedPackage("errors")
	tn := p.Type("errorString").Type()
	o := x.alloc(st, &StructV{f: []Value{x.freshStrNamed(text)}})
	return Iface{types.NewPointer(tn), Ptr{obj: o}}
}

func (x *Exec) freshStrNamed(n string) Str { return x.freshStr("err:"+n, bi(4096)) }

// evalPure evaluates a boolean closure in the current state without keeping its effects.
func (x *Exec) evalPure(st *State, f Value, args []Value) *Term {
	s2 := st.clone()
	base := len(s2.pc)
	fv, ok := f.(Func)
	if !ok {
		x.unsupported("evalPure %T", f)
	}
	outs := x.callFunc(s2, fv, args, 1)
	var or []*Term
	for _, o := range outs {
		r := o.ret[0].(*Term)
		if len(outs) == 1 && len(o.st.pc) == base {
			return r
		}
		cj := append([]*Term{}, o.st.pc[base:]...)
		cj = append(cj, r)
		or = append(or, x.c.And(cj...))
	}
	if len(outs) == 1 {
		// straight-line with extra assumptions proved along the way
		return or[0]
	}
	return x.c.Or(or...)
}
