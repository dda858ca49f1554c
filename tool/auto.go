package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Automatic loop summaries. A loop without a loop contract is unrolled; when its condition stays undecided
// for more than autoAfter iterations it is summarised instead: every location and loop variable the body
// modifies becomes arbitrary, subject to the inductive invariants found among simple candidates (bounds of
// counters, loop-invariant limits, counters in lockstep). Candidates are kept only when proved to hold on
// entry and to be preserved by an arbitrary iteration, so the summary covers any number of iterations.

const autoAfter = 3

type autoCut struct {
	snap  map[int]Value  // heap at the head of the arbitrary iteration
	ghost map[string]any // ghost state there
	phis  []*ssa.Phi
	cur   []Value // loop variables at the head
	found func(st *State, back []Value)
	final bool
}

type autoCand struct {
	f    func(vals []Value) *Term
	dead bool
}

// loopLimit evaluates v at the loop entry if it does not change in the loop.
func (x *Exec) loopLimit(fr *Frame, st *State, li *loopInfo, v ssa.Value) (*Term, bool) {
	t, ok := x.entryVal(fr, st, li, v).(*Term)
	return t, ok
}

// entryVal evaluates a pure expression of the loop body in the state at the loop's entry (nil: not evaluable). Its
// value is only a guess at something loop-invariant: candidates built from it are checked inductively before use.
func (x *Exec) entryVal(fr *Frame, st *State, li *loopInfo, v ssa.Value) (r Value) {
	in, isI := v.(ssa.Instruction)
	if !isI || !li.body[in.Block()] {
		return x.val(fr, st, v)
	}
	switch i := v.(type) {
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			switch s := x.entryVal(fr, st, li, i.Call.Args[0]).(type) {
			case Slice:
				return s.len
			case Str:
				return s.n
			}
		}
	case *ssa.FieldAddr:
		if p, ok := x.entryVal(fr, st, li, i.X).(Ptr); ok && p.obj != 0 {
			return Ptr{p.obj, append(p.path[:len(p.path):len(p.path)], PE{field: i.Field})}
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if p, ok := x.entryVal(fr, st, li, i.X).(Ptr); ok && p.obj != 0 {
				for _, pe := range p.path {
					if pe.idx != nil {
						return nil
					}
				}
				if hv, ok := x.heapGet(st, p.obj); ok {
					for _, pe := range p.path {
						sv, ok := hv.(*StructV)
						if !ok {
							return nil
						}
						hv = sv.f[pe.field]
					}
					return hv
				}
			}
		}
	case *ssa.Convert:
		_, _, f := intInfo(i.X.Type())
		_, _, t := intInfo(i.Type())
		if f && t {
			if w, ok := x.entryVal(fr, st, li, i.X).(*Term); ok {
				return x.convert(st, w, i.X.Type(), i.Type())
			}
		}
	}
	return nil
}

// autoSummary replaces fr/st (at the head `to`, loop variables already set) by an arbitrary later iteration.
func (x *Exec) autoSummary(fr *Frame, st *State, to *ssa.BasicBlock, li *loopInfo) (ok bool) {
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, isP := in.(*ssa.Phi)
		if !isP {
			break
		}
		phis = append(phis, ph)
	}
	entry := make([]Value, len(phis))
	for i, ph := range phis {
		entry[i] = fr.env[fr.info.num[ph]]
	}
	if x.dry > 3 {
		return false
	}
	mods := map[int]func(st *State, v Value) Value{} // object -> havoc
	seen := map[int]map[string]bool{}                // object -> parts already made arbitrary
	kind := make([]string, len(phis))
	for i := range phis {
		kind[i] = "same"
	}
	c := x.c
	// candidates
	var cands []*autoCand
	step := make([]int64, len(phis))
	for i, ph := range phis {
		if _, _, isInt := intInfo(ph.Type()); !isInt {
			continue
		}
		e, isT := entry[i].(*Term)
		if !isT {
			continue
		}
		i := i
		at := func(v []Value) *Term { return v[i].(*Term) }
		cands = append(cands, &autoCand{f: func(v []Value) *Term { return c.Le(e, at(v)) }}, &autoCand{f: func(v []Value) *Term { return c.Le(at(v), e) }})
		for _, b := range sortedBlocks(li.body) {
			for _, in := range b.Instrs {
				op, isB := in.(*ssa.BinOp)
				if !isB {
					continue
				}
				for _, pr := range [][2]ssa.Value{{op.X, op.Y}, {op.Y, op.X}} {
					if op.Op == token.ADD || op.Op == token.SUB {
						if pr[0] == ssa.Value(ph) {
							if k, isC := pr[1].(*ssa.Const); isC && k.Value != nil {
								step[i] = k.Int64()
								if op.Op == token.SUB {
									step[i] = -step[i]
								}
							}
						}
						continue
					}
					if op.Op != token.LSS && op.Op != token.LEQ && op.Op != token.GTR && op.Op != token.GEQ && op.Op != token.NEQ {
						continue
					}
					hit := pr[0] == ssa.Value(ph)
					if bo, isBO := pr[0].(*ssa.BinOp); isBO && (bo.X == ssa.Value(ph) || bo.Y == ssa.Value(ph)) {
						hit = true
					}
					if !hit {
						continue
					}
					if lim, isL := x.loopLimit(fr, st, li, pr[1]); isL {
						for _, d := range []int64{-1, 0} {
							d := d
							cands = append(cands, &autoCand{f: func(v []Value) *Term { return c.Or(c.Le(at(v), c.AddI(lim, d)), c.Le(at(v), e)) }})
						}
						for _, d := range []int64{0, 1} {
							d := d
							cands = append(cands, &autoCand{f: func(v []Value) *Term { return c.Or(c.Le(c.AddI(lim, d), at(v)), c.Le(e, at(v))) }})
						}
					}
				}
			}
		}
	}
	for i := range phis {
		for j := 0; j < i; j++ {
			if step[i] != 0 && step[j] != 0 {
				a, aok := entry[i].(*Term)
				b, bok := entry[j].(*Term)
				if aok && bok {
					i, j, si, sj := i, j, bi(step[i]), bi(step[j])
					cands = append(cands, &autoCand{f: func(v []Value) *Term {
						return c.Eq(c.MulC(c.Sub(v[i].(*Term), a), sj), c.MulC(c.Sub(v[j].(*Term), b), si))
					}})
				}
			}
		}
	}
	// ranges: those of the entry value and of the values coming back
	type rng struct {
		lo, hi *big.Int
		cd     *autoCand
		wid    int
	}
	ranges := make([]*rng, len(phis))
	for i, ph := range phis {
		if _, _, isInt := intInfo(ph.Type()); !isInt {
			continue
		}
		e, isT := entry[i].(*Term)
		if !isT {
			continue
		}
		e = x.redT(st, e)
		if e.lo == nil || e.hi == nil {
			continue
		}
		r := &rng{lo: e.lo, hi: e.hi}
		i := i
		r.cd = &autoCand{f: func(v []Value) *Term {
			return c.And(c.Le(c.Big(r.lo), v[i].(*Term)), c.Le(v[i].(*Term), c.Big(r.hi)))
		}}
		cands = append(cands, r.cd)
		ranges[i] = r
	}
	defer func() {
		if e := recover(); e != nil {
			if u, isU := e.(unsup); isU && x.time() {
				if x.dbg {
					fmt.Println("   no summary:", u.msg)
				}
				ok = false
				return
			}
			panic(e)
		}
	}()
	havocInto := func(f2 *Frame, s2 *State) []Value {
		for o, h := range mods {
			v, okh := x.heapGet(s2, o)
			if okh {
				s2.heap[o] = h(s2, v)
			}
		}
		cur := make([]Value, len(phis))
		for i, ph := range phis {
			cur[i] = x.havocLoopVar(s2, ph, kind[i], entry[i])
			f2.env[f2.info.num[ph]] = cur[i]
		}
		for _, cd := range cands {
			if !cd.dead {
				x.assume(s2, cd.f(cur))
			}
		}
		return cur
	}
	searched := false
	for round := 0; ; round++ {
		if round > 13 {
			return false
		}
		again := false
		f2, s2 := fr.clone(), st.clone()
		f2.dry = li
		f2.visits = nil
		mark := len(c.terms)
		cur := havocInto(f2, s2)
		npc := len(s2.pc)
		passed := make([][]*Term, len(phis)) // per counter: what each way through the body established of it
		ac := &autoCut{phis: phis, cur: cur}
		ac.snap = map[int]Value{}
		for o, v := range s2.heap {
			ac.snap[o] = v
		}
		ac.ghost = map[string]any{}
		for k, v := range s2.ghost {
			ac.ghost[k] = v
		}
		ac.found = func(sb *State, back []Value) {
			for k, v := range sb.ghost {
				if w, okk := ac.ghost[k]; (!okk || w != v) && !strings.HasPrefix(k, "in:") {
					x.unsupported("the loop changes %s", k)
				}
			}
			for i := range phis {
				switch b := back[i].(type) {
				case *Term, Str:
					if kind[i] == "same" && !sameVal(back[i], cur[i]) {
						kind[i] = "val"
						again = true
					}
				case Slice:
					if kind[i] == "same" && !sameVal(back[i], cur[i]) {
						kind[i] = "reslice"
						again = true
					}
					if kind[i] == "reslice" {
						e := entry[i].(Slice)
						if b.p.obj != e.p.obj || len(b.p.path) != 0 || e.p.obj == 0 {
							kind[i] = "fresh"
							again = true
						} else {
							inv := c.And(c.Le(e.off, b.off), c.Le(c.Int(0), b.len), c.Le(b.len, b.cap), c.Eq(c.Add(b.off, b.cap), c.Add(e.off, e.cap)))
							if !x.valid(sb, inv) {
								x.unsupported("reslicing pattern")
							}
						}
					}
				default:
					if !sameVal(back[i], cur[i]) {
						x.unsupported("loop variable %s of type %T changes", phis[i].Comment, b)
					}
				}
			}
			for o, v := range sb.heap {
				w, had := ac.snap[o]
				if !had {
					if g := x.gobj[o]; g != nil {
						w0 := st.clone()
						delete(w0.heap, o)
						w = x.globalInit(w0, o)
					} else {
						continue // allocated in the iteration
					}
				}
				if sameVal(v, w) {
					continue
				}
				if seen[o] == nil {
					seen[o] = map[string]bool{}
				}
				if !diffPaths(w, v, "", seen[o]) {
					continue
				}
				h := x.havocObj(o, w, v, mods[o])
				if h == nil {
					continue
				}
				mods[o] = h
				again = true
			}
			for i, r := range ranges {
				if r == nil || r.cd.dead || sameVal(back[i], cur[i]) {
					continue
				}
				b, isT := back[i].(*Term)
				if !isT || b.lo == nil || b.hi == nil {
					r.cd.dead, again = true, true
					continue
				}
				if x.valid(sb, r.cd.f(back)) {
					continue
				}
				if r.wid++; r.wid > 2 {
					r.cd.dead, again = true, true
					continue
				}
				if b.lo.Cmp(r.lo) < 0 {
					r.lo, again = b.lo, true
				}
				if b.hi.Cmp(r.hi) > 0 {
					r.hi, again = b.hi, true
				}
			}
			if !again && !searched {
				for i := range phis {
					if v, isT := cur[i].(*Term); isT && step[i] == 1 && v.op == OVar && v.id >= mark {
						passed[i] = append(passed[i], c.about(sb.pc[npc:], v, mark))
					}
				}
			}
			if !again {
				for _, cd := range cands {
					if !cd.dead && !x.valid(sb, cd.f(back)) {
						cd.dead = true
						again = true
					}
				}
			}
		}
		f2.cut2(to, ac)
		x.dry++
		func() {
			defer func() { x.dry-- }()
			x.runFrom(f2, s2, to, 0, nil)
		}()
		if again {
			continue
		}
		if searched {
			break
		}
		// what held of the counter in every iteration so far (search loops)
		searched = true
		for i := range phis {
			v, isT := cur[i].(*Term)
			if !isT || len(passed[i]) == 0 {
				continue
			}
			all := c.Or(passed[i]...)
			if all.op == OTrue {
				continue
			}
			i, e := i, entry[i].(*Term)
			cands = append(cands, &autoCand{f: func(w []Value) *Term {
				return c.Forall(e, w[i].(*Term), func(k *Term) *Term { return c.Subst(all, v, k) })
			}})
			again = true
		}
		if !again {
			break
		}
	}
	cur := havocInto(fr, st)
	ac := &autoCut{phis: phis, cur: cur, final: true, snap: map[int]Value{}}
	fr.cut2(to, ac)
	x.trusted["loop summary (automatic, inductive): "+shortFn(fr.fn.String())] = true
	return true
}

// about is the conjunction of the facts that read memory at the counter v and mention nothing else made since mark.
func (c *Ctx) about(facts []*Term, v *Term, mark int) *Term {
	r := c.tt
	for _, f := range facts {
		reads, ok := false, true
		seen := map[int]bool{}
		var walk func(t *Term) bool // whether t contains v
		memo := map[int]bool{}
		walk = func(t *Term) bool {
			if t == v {
				return true
			}
			if seen[t.id] {
				return memo[t.id]
			}
			seen[t.id] = true
			if (t.op == OVar || t.op == OBVar) && t.id >= mark || t.op == OApp && t.base.after > mark {
				ok = false
			}
			has := false
			for _, a := range c.kids(t) {
				if walk(a) {
					has = true
				}
			}
			if has && t.op == OApp {
				reads = true
			}
			memo[t.id] = has
			return has
		}
		walk(f)
		if ok && reads {
			r = c.And(r, f)
		}
	}
	return r
}

func (x *Exec) time() bool { x.checkDeadline(); return true }

func (fr *Frame) cut2(b *ssa.BasicBlock, a *autoCut) {
	n := map[*ssa.BasicBlock]*autoCut{}
	for k, v := range fr.auto {
		n[k] = v
	}
	n[b] = a
	fr.auto = n
}

func sortedBlocks(m map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	mx := 0
	for b := range m {
		if b.Index > mx {
			mx = b.Index
		}
	}
	for i := 0; i <= mx; i++ {
		for b := range m {
			if b.Index == i {
				r = append(r, b)
			}
		}
	}
	return r
}

func (x *Exec) havocLoopVar(st *State, ph *ssa.Phi, kind string, e Value) Value {
	c := x.c
	switch kind {
	case "same":
		return e
	case "val":
		return x.havoc(st, ph.Type(), ph.Comment)
	case "reslice":
		s := e.(Slice)
		off := c.Fresh("off", b0, maxLen)
		ln := c.Fresh("len", b0, maxLen)
		cp := c.Sub(c.Add(s.off, s.cap), off)
		x.assume(st, c.And(c.Le(s.off, off), c.Le(ln, cp)))
		return Slice{s.p, off, ln, cp, s.grown}
	case "fresh":
		return x.havocSlice(st, ph.Type().Underlying().(*types.Slice).Elem(), ph.Comment)
	}
	panic("kind")
}

func (x *Exec) havocSlice(st *State, elem types.Type, name string) Value {
	if isByteT(elem) {
		s := x.freshStr(name, nil)
		r := x.bytesToSlice(st, s)
		r.grown = true
		return r
	}
	if _, isS := elem.Underlying().(*types.Slice); isS {
		x.unsupported("loop builds a slice of slices")
	}
	n := x.c.Fresh("len("+name+")", b0, maxLen)
	o := x.alloc(st, x.havocRefArr(n, elem, name))
	return Slice{Ptr{obj: o}, x.c.Int(0), n, n, true}
}

func (x *Exec) havocRefArr(n *Term, elem types.Type, name string) *RefArr {
	x.c.nfresh++
	nm := fmt.Sprintf("%s!%d", name, x.c.nfresh)
	return &RefArr{n: n, elem: elem, gen: func(x *Exec, st *State, i *Term) Value {
		return x.havocNamed(st, elem, fmt.Sprintf("%s[%d]", nm, i.id))
	}}
}

// havocObj makes what differs between a and b (contents of object o) arbitrary.
func (x *Exec) havocObj(o int, a, b Value, prev func(*State, Value) Value) func(*State, Value) Value {
	t := x.objType[o]
	if g := x.gobj[o]; g != nil {
		t = g.Type().(*types.Pointer).Elem()
	}
	f := x.havocDiff(t, a, b)
	if prev == nil {
		return f
	}
	return func(st *State, v Value) Value { return f(st, prev(st, v)) }
}

func (x *Exec) havocDiff(t types.Type, a, b Value) func(*State, Value) Value {
	switch av := a.(type) {
	case *BytesV:
		return func(st *State, v Value) Value {
			s := x.freshStr("buf", nil)
			return &BytesV{s.seq, v.(*BytesV).n}
		}
	case *RefArr:
		return func(st *State, v Value) Value {
			return x.havocRefArr(v.(*RefArr).n, av.elem, "elems")
		}
	case *StructV:
		bv, ok := b.(*StructV)
		if !ok || t == nil {
			x.unsupported("loop modifies a structure of unknown type")
		}
		u := t.Underlying().(*types.Struct)
		fs := map[int]func(*State, Value) Value{}
		for i := range av.f {
			if !sameVal(av.f[i], bv.f[i]) {
				fs[i] = x.havocDiff(u.Field(i).Type(), av.f[i], bv.f[i])
			}
		}
		return func(st *State, v Value) Value {
			n := &StructV{f: append([]Value{}, v.(*StructV).f...)}
			for i, f := range fs {
				n.f[i] = f(st, n.f[i])
			}
			return n
		}
	case *ArrV:
		bv, ok := b.(*ArrV)
		if !ok || t == nil || len(bv.e) != len(av.e) {
			x.unsupported("loop modifies an array of unknown type")
		}
		el := t.Underlying().(*types.Array).Elem()
		fs := map[int]func(*State, Value) Value{}
		for i := range av.e {
			if !sameVal(av.e[i], bv.e[i]) {
				fs[i] = x.havocDiff(el, av.e[i], bv.e[i])
			}
		}
		return func(st *State, v Value) Value {
			n := &ArrV{e: append([]Value{}, v.(*ArrV).e...)}
			for i, f := range fs {
				n.e[i] = f(st, n.e[i])
			}
			return n
		}
	case *Term, Str:
		if t == nil {
			x.unsupported("loop modifies a cell of unknown type")
		}
		return func(st *State, v Value) Value { return x.havoc(st, t, "cell") }
	case Slice:
		if t == nil {
			x.unsupported("loop modifies a cell of unknown type")
		}
		el := t.Underlying().(*types.Slice).Elem()
		return func(st *State, v Value) Value { return x.havocSlice(st, el, "cell") }
	}
	x.unsupported("loop modifies a %T", a)
	return nil
}

// diffPaths records the parts of a that differ in b and reports whether any was not recorded before.
func diffPaths(a, b Value, at string, seen map[string]bool) bool {
	if sameVal(a, b) {
		return false
	}
	switch av := a.(type) {
	case *StructV:
		if bv, ok := b.(*StructV); ok && len(av.f) == len(bv.f) {
			r := false
			for i := range av.f {
				if diffPaths(av.f[i], bv.f[i], fmt.Sprintf("%s.%d", at, i), seen) {
					r = true
				}
			}
			return r
		}
	case *ArrV:
		if bv, ok := b.(*ArrV); ok && len(av.e) == len(bv.e) {
			r := false
			for i := range av.e {
				if diffPaths(av.e[i], bv.e[i], fmt.Sprintf("%s[%d]", at, i), seen) {
					r = true
				}
			}
			return r
		}
	}
	if seen[at] {
		return false
	}
	seen[at] = true
	return true
}
