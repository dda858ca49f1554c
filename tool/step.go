package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// step executes one non-control instruction. A non-nil result means the instruction forked.
func (x *Exec) step(fr *Frame, st *State, in ssa.Instruction) []Out {
	c := x.c
	set := func(v ssa.Value, val Value) { fr.env[fr.info.num[v]] = val }
	switch i := in.(type) {
	case *ssa.Alloc:
		et := i.Type().Underlying().(*types.Pointer).Elem()
		o := x.alloc(st, x.zero(et))
		x.objType[o] = et
		set(i, Ptr{obj: o})
	case *ssa.Store:
		p := x.ptr(fr, st, i.Addr, "store")
		v := x.val(fr, st, i.Val)
		if p.obj == 0 {
			return []Out{}
		}
		if x.protects {
			x.checkProtected(fr, st, p, true)
		}
		x.store(st, p, v)
	case *ssa.Select:
		// the cases that are ready in this sequential view; without a default one of them must be
		var vals []Value
		pick, ok2 := -1, c.ff
		for k, sc := range i.States {
			if sc.Dir != types.RecvOnly {
				x.unsupported("select with a send")
			}
			elem := sc.Chan.Type().Underlying().(*types.Chan).Elem()
			z := x.zero(elem)
			ch, ok := x.val(fr, st, sc.Chan).(ChanRef)
			if !ok {
				x.unsupported("select on a channel that is not modelled")
			}
			if ch.obj == 0 || pick >= 0 {
				vals = append(vals, z)
				continue
			}
			co := st.heap[ch.obj].(*ChanObj)
			if len(co.buf) > 0 {
				n := *co
				n.buf = co.buf[1:]
				st.heap[ch.obj] = &n
				z = co.buf[0]
				pick, ok2 = k, c.tt
			} else if co.closed {
				pick = k
			}
			vals = append(vals, z)
		}
		if pick < 0 && i.Blocking {
			x.safe(st, "select does not block for ever", c.ff)
			return []Out{}
		}
		set(i, append(Tuple{c.Int(int64(pick)), ok2}, vals...))
	case *ssa.UnOp:
		return x.unop(fr, st, i)
	case *ssa.BinOp:
		a, b := x.val(fr, st, i.X), x.val(fr, st, i.Y)
		set(i, x.binop(st, i.Op, a, b, i.X.Type(), i.Type(), i.Y.Type()))
	case *ssa.FieldAddr:
		p := x.ptr(fr, st, i.X, "field access")
		if p.obj == 0 {
			return []Out{}
		}
		if ov, ok := x.peekOpaque(st, p); ok {
			_ = ov
		}
		set(i, Ptr{p.obj, append(p.path[:len(p.path):len(p.path)], PE{field: i.Field})})
	case *ssa.Field:
		switch s := x.val(fr, st, i.X).(type) {
		case *StructV:
			set(i, s.f[i.Field])
		case Opaque:
			set(i, x.havocNamed(st, i.Type(), fmt.Sprintf("%s.%d", s.id, i.Field)))
		default:
			x.unsupported("field of %T", s)
		}
	case *ssa.IndexAddr:
		return x.indexAddr(fr, st, i)
	case *ssa.Index:
		idx := x.val(fr, st, i.Index).(*Term)
		switch a := x.val(fr, st, i.X).(type) {
		case *BytesV:
			x.safe(st, "index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, a.n)))
			set(i, c.Read(a.seq, idx))
		case *ArrV:
			x.safe(st, "index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(int64(len(a.e))))))
			if idx.isConst() {
				set(i, a.e[idx.c.Int64()])
			} else {
				return x.concretize(st, idx, func(s *State, k int64) Value { return a.e[k] })
			}
		case Str:
			x.safe(st, "string index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, a.n)))
			set(i, c.At(a, idx))
		default:
			x.unsupported("index of %T", a)
		}
	case *ssa.Lookup:
		m := x.val(fr, st, i.X)
		k := x.val(fr, st, i.Index)
		if s, ok := m.(Str); ok {
			idx := k.(*Term)
			x.safe(st, "string index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, s.n)))
			set(i, c.At(s, idx))
			return nil
		}
		outs := x.mapLookup(st, m, k, i.X.Type().Underlying().(*types.Map), i.CommaOk)
		if len(outs) == 1 {
			*st = *outs[0].st
			set(i, outs[0].ret[0])
			return nil
		}
		return outs
	case *ssa.MapUpdate:
		m, ok := x.val(fr, st, i.Map).(MapRef)
		if !ok {
			x.unsupported("map update on %T", x.val(fr, st, i.Map))
		}
		if m.obj == 0 {
			x.safe(st, "assignment to nil map", c.ff)
			return []Out{}
		}
		return x.mapUpdate(st, m, x.val(fr, st, i.Key), x.val(fr, st, i.Value))
	case *ssa.MakeMap:
		set(i, MapRef{x.alloc(st, &MapObj{})})
	case *ssa.MakeChan:
		sz := x.val(fr, st, i.Size).(*Term)
		x.safe(st, "makechan: size in range", c.And(c.Le(c.Int(0), sz), c.Le(sz, c.Big(maxLen))))
		set(i, ChanRef{x.alloc(st, &ChanObj{cap: sz})})
	case *ssa.MakeSlice:
		n := x.val(fr, st, i.Len).(*Term)
		cp := x.val(fr, st, i.Cap).(*Term)
		x.safe(st, "makeslice: len in range", c.And(c.Le(c.Int(0), n), c.Le(n, c.Big(maxLen)), c.Le(n, cp)))
		elem := i.Type().Underlying().(*types.Slice).Elem()
		var o int
		if isByteT(elem) {
			o = x.alloc(st, &BytesV{c.SeqFill(c.Int(0)), cp})
		} else if cp.isConst() {
			o = x.alloc(st, x.zeroArr(elem, int(cp.c.Int64())))
		} else if u, ok := x.unique(st, cp); ok {
			n2 := n
			if n == cp {
				n2 = c.Big(u)
			}
			o = x.alloc(st, x.zeroArr(elem, int(u.Int64())))
			n, cp = n2, c.Big(u)
		} else {
			z := x.zero(elem)
			o = x.alloc(st, &RefArr{n: cp, elem: elem, gen: func(x *Exec, st *State, i *Term) Value { return z }})
		}
		if a, isA := st.heap[o].(*ArrV); isA {
			x.objType[o] = types.NewArray(elem, int64(len(a.e)))
		}
		set(i, Slice{Ptr{obj: o}, c.Int(0), n, cp, false})
	case *ssa.Slice:
		return x.sliceOp(fr, st, i)
	case *ssa.MakeInterface:
		set(i, Iface{i.X.Type(), x.val(fr, st, i.X)})
	case *ssa.MakeClosure:
		f := Func{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.binds = append(f.binds, x.val(fr, st, b))
		}
		set(i, f)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		set(in.(ssa.Value), x.val(fr, st, *in.Operands(nil)[0]))
	case *ssa.Convert:
		set(i, x.convert(st, x.val(fr, st, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		set(i, x.convert(st, x.val(fr, st, i.X), i.X.Type(), i.Type()))
	case *ssa.Extract:
		switch t := x.val(fr, st, i.Tuple).(type) {
		case Tuple:
			set(i, t[i.Index])
		case Opaque:
			set(i, x.havocNamed(st, i.Type(), fmt.Sprintf("%s#%d", t.id, i.Index)))
		default:
			x.unsupported("extract from %T", t)
		}
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, i)
	case *ssa.Defer:
		d := deferred{call: i}
		if i.Call.IsInvoke() {
			d.fn = x.val(fr, st, i.Call.Value)
		} else {
			if b, ok := i.Call.Value.(*ssa.Builtin); ok {
				_ = b
				d.fn = b
			} else {
				d.fn = x.val(fr, st, i.Call.Value)
			}
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(fr, st, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		// goroutines are recorded; the contract harness decides when they run
		var fv Value
		var args []Value
		for _, a := range i.Call.Args {
			args = append(args, x.val(fr, st, a))
		}
		if i.Call.IsInvoke() {
			fv, args = x.method(st, x.val(fr, st, i.Call.Value), i.Call.Method, args)
		} else {
			fv = x.val(fr, st, i.Call.Value)
		}
		n := 0
		if v, ok := st.ghost["ngo"]; ok {
			n = v.(int)
		}
		x.goq = append(x.goq, goCall{fv, args})
		st.ghost[fmt.Sprintf("go%d", n)] = len(x.goq) - 1
		st.ghost["ngo"] = n + 1
	case *ssa.Range:
		v := x.val(fr, st, i.X)
		switch m := v.(type) {
		case MapRef:
			it := &IterObj{}
			if m.obj != 0 {
				mo := st.heap[m.obj].(*MapObj)
				if mo.havoc || mo.lazy != nil {
					x.unsupported("range over unknown map")
				}
				it.keys, it.vals = mo.keys, mo.vals
			}
			set(i, IterV{x.alloc(st, it)})
		case Str:
			s := m
			set(i, IterV{x.alloc(st, &IterObj{str: &s, off: c.Int(0)})})
		default:
			x.unsupported("range over %T", v)
		}
	case *ssa.Next:
		it := x.val(fr, st, i.Iter).(IterV)
		io := st.heap[it.obj].(*IterObj)
		if io.str != nil {
			return x.nextRune(st, it.obj, io)
		}
		if io.pos >= len(io.keys) {
			set(i, Tuple{c.ff, nil, nil})
			return nil
		}
		set(i, Tuple{c.tt, io.keys[io.pos], io.vals[io.pos]})
		n := *io
		n.pos++
		st.heap[it.obj] = &n
	case *ssa.Send:
		ch := x.val(fr, st, i.Chan)
		cr, ok := ch.(ChanRef)
		if ok && cr.obj == 0 {
			x.safe(st, "send on nil channel", c.ff)
			return []Out{}
		}
		if !ok {
			x.unsupported("send on %T", ch)
		}
		co := st.heap[cr.obj].(*ChanObj)
		x.safe(st, "send on closed channel", c.Bool(!co.closed))
		x.safe(st, "send does not block for ever", c.Lt(c.Int(int64(len(co.buf))), co.cap))
		n := *co
		n.buf = append(co.buf[:len(co.buf):len(co.buf)], x.val(fr, st, i.X))
		st.heap[cr.obj] = &n
	case *ssa.SliceToArrayPointer:
		s := x.val(fr, st, i.X).(Slice)
		x.unsupported("slice to array pointer %v", s.len)
	default:
		x.unsupported("instruction %T (%s) in %s", in, in, fr.fn)
	}
	return nil
}

type goCall struct {
	fn   Value
	args []Value
}

func (x *Exec) peekOpaque(st *State, p Ptr) (Opaque, bool) { return Opaque{}, false }

// havocNamed: a deterministic unknown identified by its name.
func (x *Exec) havocNamed(st *State, t types.Type, name string) Value {
	if bits, sg, ok := intInfo(t); ok {
		lo, hi := rangeOf(bits, sg)
		return x.c.Var(name, lo, hi)
	}
	if isBoolT(t) {
		return x.c.BVar(name)
	}
	if isStr(t) {
		k := "hn:" + name
		if v, ok := x.c.ufMemo[k]; ok {
			return v.(Str)
		}
		s := x.freshStr(name, nil)
		x.c.ufMemo[k] = s
		return s
	}
	return Opaque{t, name}
}

func (x *Exec) ptr(fr *Frame, st *State, v ssa.Value, what string) Ptr {
	pv := x.val(fr, st, v)
	p, ok := pv.(Ptr)
	if !ok {
		x.unsupported("%s through %T %v", what, pv, pv)
	}
	if p.obj == 0 {
		x.safe(st, "nil dereference ("+what+")", x.c.ff)
	}
	return p
}

// unique: the term has a single possible value on this path.
func (x *Exec) unique(st *State, t *Term) (*big.Int, bool) {
	if t.isConst() {
		return t.c, true
	}
	lo, hi := x.bnd(st, t)
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
		return lo, true
	}
	r, vals := x.sol.Check(append([]*Term{}, st.pc...), 2, 3000, func() []*Term { return []*Term{t} })
	if r != Sat {
		return nil, false
	}
	v, ok := vals[t.id]
	if !ok {
		return nil, false
	}
	if x.valid(st, x.c.Eq(t, x.c.Big(v))) {
		return v, true
	}
	return nil, false
}

// concretize forks over the feasible values of an index term.
func (x *Exec) concretize(st *State, t *Term, f func(s *State, k int64) Value) []Out {
	if u, ok := x.unique(st, t); ok {
		x.assume(st, x.c.Eq(t, x.c.Big(u)))
		return []Out{{st, []Value{f(st, u.Int64())}}}
	}
	lo, hi := x.bnd(st, t)
	if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(bi(512)) > 0 {
		x.unsupported("symbolic index with unbounded range: %s", t)
	}
	var outs []Out
	for k := lo.Int64(); k <= hi.Int64(); k++ {
		e := x.c.Eq(t, x.c.Int(k))
		if e.op == OFalse || !x.feasible(st, e) {
			continue
		}
		s := st.clone()
		x.assume(s, e)
		outs = append(outs, Out{s, []Value{f(s, k)}})
	}
	return outs
}

func (x *Exec) indexAddr(fr *Frame, st *State, i *ssa.IndexAddr) []Out {
	c := x.c
	idx := x.val(fr, st, i.Index).(*Term)
	var p Ptr
	var n *Term
	off := c.Int(0)
	switch b := x.val(fr, st, i.X).(type) {
	case Slice:
		x.safe(st, "index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, b.len)))
		if b.p.obj == 0 {
			return []Out{}
		}
		p, n, off = b.p, b.len, b.off
	case Ptr:
		if b.obj == 0 {
			x.safe(st, "nil dereference (array)", c.ff)
			return []Out{}
		}
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n = c.Int(at.Len())
		x.safe(st, "index in range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, n)))
		p = b
	case Opaque:
		// unknown slice contents: element is an unknown cell
		o := x.alloc(st, x.havoc(st, i.Type().Underlying().(*types.Pointer).Elem(), b.id+"[]"))
		fr.env[fr.info.num[i]] = Ptr{obj: o}
		return nil
	default:
		x.unsupported("indexaddr of %T", b)
	}
	full := c.Add(off, idx)
	mk := func(k *Term) Value {
		return Ptr{p.obj, append(p.path[:len(p.path):len(p.path)], PE{-1, k})}
	}
	cont := x.load(st, p)
	switch cont.(type) {
	case *BytesV, *RefArr:
		fr.env[fr.info.num[i]] = mk(full)
		return nil
	}
	if full.isConst() {
		fr.env[fr.info.num[i]] = mk(full)
		return nil
	}
	return x.concretize(st, full, func(s *State, k int64) Value { return mk(c.Int(k)) })
}

func (x *Exec) sliceOp(fr *Frame, st *State, i *ssa.Slice) []Out {
	c := x.c
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return x.val(fr, st, v).(*Term)
	}
	set := func(v Value) []Out { fr.env[fr.info.num[i]] = v; return nil }
	switch b := x.val(fr, st, i.X).(type) {
	case Str:
		lo, hi := get(i.Low, c.Int(0)), get(i.High, b.n)
		x.safe(st, "slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, b.n)))
		return set(c.SubStr(b, lo, hi))
	case Slice:
		lo, hi := get(i.Low, c.Int(0)), get(i.High, b.len)
		mx := get(i.Max, b.cap)
		x.safe(st, "slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, b.cap)))
		if b.p.obj == 0 {
			return set(b)
		}
		return set(Slice{b.p, c.Add(b.off, lo), c.Sub(hi, lo), c.Sub(mx, lo), b.grown && i.Max == nil})
	case Ptr:
		if b.obj == 0 {
			x.safe(st, "nil dereference (slice of array)", c.ff)
			return []Out{}
		}
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := c.Int(at.Len())
		lo, hi := get(i.Low, c.Int(0)), get(i.High, n)
		mx := get(i.Max, n)
		x.safe(st, "slice bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)))
		return set(Slice{b, lo, c.Sub(hi, lo), c.Sub(mx, lo), false})
	case Opaque:
		return set(Opaque{i.Type(), b.id + ".slice"})
	default:
		x.unsupported("slice of %T", b)
	}
	return nil
}

func (x *Exec) unop(fr *Frame, st *State, i *ssa.UnOp) []Out {
	c := x.c
	set := func(v Value) []Out { fr.env[fr.info.num[i]] = v; return nil }
	switch i.Op {
	case token.MUL:
		pv := x.val(fr, st, i.X)
		p, ok := pv.(Ptr)
		if !ok {
			if o, isO := pv.(Opaque); isO {
				return set(x.havocNamed(st, i.Type(), o.id+".*"))
			}
			x.unsupported("load through %T", pv)
		}
		if p.obj == 0 {
			x.safe(st, "nil dereference (load)", c.ff)
			return []Out{}
		}
		if x.protects {
			x.checkProtected(fr, st, p, false)
		}
		v := x.load(st, p)
		if o, ok := v.(Opaque); ok && o.typ == nil {
			v = x.havocNamed(st, i.Type(), o.id)
		}
		return set(v)
	case token.NOT:
		return set(c.Not(x.val(fr, st, i.X).(*Term)))
	case token.SUB:
		t, ok := x.val(fr, st, i.X).(*Term)
		if !ok {
			return set(x.havoc(st, i.Type(), "fneg"))
		}
		return set(x.wrapT(st, c.Neg(t), i.Type()))
	case token.XOR:
		t := x.val(fr, st, i.X).(*Term)
		bits, sg, _ := intInfo(i.Type())
		if sg {
			return set(c.Sub(c.Int(-1), t))
		}
		return set(c.Sub(c.Big(new(big.Int).Sub(pow2(bits), b1)), t))
	case token.ARROW:
		ch := x.val(fr, st, i.X)
		if cr, ok := ch.(ChanRef); ok && cr.obj != 0 {
			co := st.heap[cr.obj].(*ChanObj)
			if len(co.buf) > 0 {
				n := *co
				n.buf = co.buf[1:]
				st.heap[cr.obj] = &n
				if i.CommaOk {
					return set(Tuple{co.buf[0], c.tt})
				}
				return set(co.buf[0])
			}
			if co.closed {
				z := x.zero(i.X.Type().Underlying().(*types.Chan).Elem())
				if i.CommaOk {
					return set(Tuple{z, c.ff})
				}
				return set(z)
			}
			// blocks forever in this sequential view
			x.safe(st, "receive does not block forever", c.ff)
			return []Out{}
		}
		if cr, ok := ch.(ChanRef); ok && cr.obj == 0 {
			x.safe(st, "receive from a channel that is not nil", c.ff)
			return []Out{}
		}
		x.unsupported("receive from %T", ch)
	}
	x.unsupported("unop %s", i.Op)
	return nil
}

// wrapT reduces t to the range of Go type ty.
func (x *Exec) wrapT(st *State, t *Term, ty types.Type) *Term {
	bits, sg, ok := intInfo(ty)
	if !ok {
		x.unsupported("wrap to %s", ty)
	}
	return x.wrap(st, t, bits, sg)
}

func (x *Exec) wrap(st *State, t *Term, bits uint, sg bool) *Term {
	lo, hi := rangeOf(bits, sg)
	if inside(t.lo, t.hi, lo, hi) {
		return t
	}
	if st != nil {
		l, h := x.bnd(st, t)
		if inside(l, h, lo, hi) {
			return t
		}
		if t.op != OConst && len(st.pc) > 0 && !x.inInit && x.solverWrapWorth(t, bits) {
			in := x.c.And(x.c.Le(x.c.Big(lo), t), x.c.Le(t, x.c.Big(hi)))
			if x.valid(st, in) {
				x.assume(st, in)
				return t
			}
		}
	}
	m := pow2(bits)
	if !sg {
		return x.c.Mod(t, m)
	}
	h2 := x.c.Big(pow2(bits - 1))
	return x.c.Sub(x.c.Mod(x.c.Add(t, h2), m), h2)
}

func (x *Exec) solverWrapWorth(t *Term, bits uint) bool { return true }

func inside(l, h, lo, hi *big.Int) bool {
	return l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}

func pow2Of(t *Term) (uint, bool) {
	if t.op != OConst || t.c.Sign() <= 0 {
		return 0, false
	}
	n := uint(t.c.BitLen() - 1)
	return n, pow2(n).Cmp(t.c) == 0
}

// multOf: every value of t is a multiple of 2^k; returns the largest such known k (<=64).
func multOf(t *Term) uint {
	tz := func(v *big.Int) uint {
		if v.Sign() == 0 {
			return 64
		}
		return new(big.Int).Abs(v).TrailingZeroBits()
	}
	switch t.op {
	case OConst:
		return tz(t.c)
	case OLin:
		k := tz(t.c)
		for _, m := range t.mon {
			q := tz(m.c) + multOf(m.t)
			if q < k {
				k = q
			}
		}
		return k
	case OMod:
		a, b := multOf(t.args[0]), tz(t.c)
		if a < b {
			return a
		}
		return b
	case OMul:
		return multOf(t.args[0]) + multOf(t.args[1])
	case OIte:
		a, b := multOf(t.args[1]), multOf(t.args[2])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

func (x *Exec) bitop(st *State, op token.Token, a, b *Term, bits uint, sg bool) *Term {
	c := x.c
	if a.isConst() && b.isConst() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.c, b.c)
		case token.OR:
			r.Or(a.c, b.c)
		case token.XOR:
			r.Xor(a.c, b.c)
		case token.AND_NOT:
			r.AndNot(a.c, b.c)
		}
		return c.Big(r)
	}
	if a.isConst() && op != token.AND_NOT {
		a, b = b, a
	}
	nonneg := a.lo != nil && a.lo.Sign() >= 0
	if op == token.AND_NOT && b.isConst() && b.c.Sign() >= 0 {
		// a &^ m = a - (a & m)
		return c.Sub(a, x.bitop(st, token.AND, a, b, bits, sg))
	}
	if op == token.AND && b.isConst() && b.c.Sign() >= 0 {
		m := b.c
		if m.Sign() == 0 {
			return c.Int(0)
		}
		// split mask into contiguous runs
		r := c.Int(0)
		i := 0
		for i < m.BitLen() {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < m.BitLen() && m.Bit(j) == 1 {
				j++
			}
			// bits [i,j)
			part := c.Mod(c.Div(a, pow2(uint(i))), pow2(uint(j-i)))
			r = c.Add(r, c.MulC(part, pow2(uint(i))))
			i = j
		}
		return r
	}
	if op == token.AND && b.isConst() && b.c.Sign() < 0 {
		// a & ~m' with m' = ^b >= 0
		return c.Sub(a, x.bitop(st, token.AND, a, c.Big(new(big.Int).Not(b.c)), bits, sg))
	}
	if op == token.OR || op == token.XOR {
		if b.isInt(0) {
			return a
		}
		// disjoint bits
		disj := func(p, q *Term) bool {
			k := multOf(p)
			return q.lo != nil && q.hi != nil && q.lo.Sign() >= 0 && k > 0 && q.hi.Cmp(pow2(k)) < 0
		}
		if disj(a, b) || disj(b, a) {
			return c.Add(a, b)
		}
		// disjoint under the path condition
		disjP := func(p, q *Term) bool {
			k := multOf(p)
			if k == 0 {
				return false
			}
			return x.valid(st, c.And(c.Le(c.Int(0), q), c.Lt(q, c.Big(pow2(k)))))
		}
		if disjP(a, b) || disjP(b, a) {
			return c.Add(a, b)
		}
		if nonneg && b.isConst() && b.c.Sign() >= 0 {
			and := x.bitop(st, token.AND, a, b, bits, sg)
			s := c.Add(a, b)
			if op == token.OR {
				return c.Sub(s, and)
			}
			return c.Sub(s, c.MulC(and, bi(2)))
		}
	}
	if a == b {
		switch op {
		case token.AND, token.OR:
			return a
		case token.XOR, token.AND_NOT:
			return c.Int(0)
		}
	}
	// small operands: bitwise expansion
	small := func(t *Term) (uint, bool) {
		if t.lo == nil || t.hi == nil || t.lo.Sign() < 0 {
			return 0, false
		}
		n := uint(t.hi.BitLen())
		return n, n <= 64
	}
	na, oka := small(a)
	nb, okb := small(b)
	if oka && okb && op == token.AND {
		n := na
		if nb < n {
			n = nb
		}
		if n <= 8 {
			r := c.Int(0)
			for i := uint(0); i < n; i++ {
				ba := c.Eq(c.Mod(c.Div(a, pow2(i)), bi(2)), c.Int(1))
				bb := c.Eq(c.Mod(c.Div(b, pow2(i)), bi(2)), c.Int(1))
				r = c.Add(r, c.Ite(c.And(ba, bb), c.Big(pow2(i)), c.Int(0)))
			}
			return r
		}
	}
	if oka && okb {
		n := na
		if nb > n {
			n = nb
		}
		if (op == token.OR || op == token.XOR) && n <= 8 {
			and := x.bitop(st, token.AND, a, b, bits, sg)
			s := c.Add(a, b)
			if op == token.OR {
				return c.Sub(s, and)
			}
			return c.Sub(s, c.MulC(and, bi(2)))
		}
	}
	lo, hi := rangeOf(bits, sg)
	return c.UF("bit"+strings.Map(func(r rune) rune {
		switch r {
		case '&':
			return 'A'
		case '|':
			return 'O'
		case '^':
			return 'X'
		}
		return r
	}, op.String()), lo, hi, a, b)
}

func (x *Exec) binop(st *State, op token.Token, av, bv Value, t types.Type, rt types.Type, yt types.Type) Value {
	c := x.c
	switch op {
	case token.EQL:
		return x.equal(st, av, bv)
	case token.NEQ:
		return c.Not(x.equal(st, av, bv))
	}
	if a, ok := av.(Str); ok {
		b := bv.(Str)
		switch op {
		case token.ADD:
			return c.StrCat(a, b)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			ca, ok1 := c.isConstStr(a)
			cb, ok2 := c.isConstStr(b)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return c.Bool(ca < cb)
				case token.GTR:
					return c.Bool(ca > cb)
				case token.LEQ:
					return c.Bool(ca <= cb)
				default:
					return c.Bool(ca >= cb)
				}
			}
			return c.FreshB("strcmp")
		}
	}
	a, ok1 := av.(*Term)
	b, ok2 := bv.(*Term)
	if !ok1 || !ok2 {
		if isFloat(t) {
			return x.havoc(st, rt, "float")
		}
		x.unsupported("binop %s on %T,%T", op, av, bv)
	}
	if a.isBool() {
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	}
	switch op {
	case token.LSS:
		return c.Lt(a, b)
	case token.LEQ:
		return c.Le(a, b)
	case token.GTR:
		return c.Lt(b, a)
	case token.GEQ:
		return c.Le(b, a)
	}
	bits, sg, ok := intInfo(t)
	if !ok {
		return x.havoc(st, rt, "float")
	}
	switch op {
	case token.ADD:
		return x.wrap(st, c.Add(a, b), bits, sg)
	case token.SUB:
		return x.wrap(st, c.Sub(a, b), bits, sg)
	case token.MUL:
		return x.wrap(st, c.Mul(a, b), bits, sg)
	case token.QUO, token.REM:
		x.safe(st, "division by zero", c.Not(c.Eq(b, c.Int(0))))
		if !b.isConst() {
			if u, ok := x.unique(st, b); ok {
				b = c.Big(u)
			}
		}
		if b.isConst() && b.c.Sign() > 0 {
			if lo, _ := x.bnd(st, a); lo != nil && lo.Sign() >= 0 || x.valid(st, c.Le(c.Int(0), a)) {
				if op == token.QUO {
					return c.Div(a, b.c)
				}
				return c.Mod(a, b.c)
			}
			q := c.Ite(c.Le(c.Int(0), a), c.Div(a, b.c), c.Neg(c.Div(c.Neg(a), b.c)))
			if op == token.QUO {
				return q
			}
			return c.Sub(a, c.MulC(q, b.c))
		}
		lo, hi := rangeOf(bits, sg)
		nm := ""
		if al, ah := x.bnd(st, a); al != nil && ah != nil && al.Sign() >= 0 && x.valid(st, c.Lt(c.Int(0), b)) {
			lo, hi, nm = new(big.Int), ah, "p"+ah.String()
		}
		return c.UF("div"+map[token.Token]string{token.QUO: "q", token.REM: "r"}[op]+nm, lo, hi, a, b)
	case token.SHL, token.SHR:
		if _, ysg, ok := intInfo(yt); ok && ysg {
			x.safe(st, "negative shift amount", c.Le(c.Int(0), b))
		}
		if !b.isConst() {
			if u, ok := x.unique(st, b); ok {
				b = c.Big(u)
			}
		}
		sh := func(n uint) *Term {
			if op == token.SHL {
				if n >= bits {
					return c.Int(0)
				}
				// wrap exactly without consulting the solver
				r := c.MulC(a, pow2(n))
				lo, hi := rangeOf(bits, sg)
				if inside(r.lo, r.hi, lo, hi) {
					return r
				}
				return x.wrap(st, r, bits, sg)
			}
			if n >= bits {
				n = bits
			}
			return c.Div(a, pow2(n))
		}
		if b.isConst() {
			if !b.c.IsUint64() || b.c.Uint64() > 64 {
				return sh(64)
			}
			return sh(uint(b.c.Uint64()))
		}
		r := sh(bits)
		for n := int(bits) - 1; n >= 0; n-- {
			r = c.Ite(c.Eq(b, c.Int(int64(n))), sh(uint(n)), r)
		}
		return r
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(st, op, a, b, bits, sg)
	}
	x.unsupported("binop %s", op)
	return nil
}

func (x *Exec) equal(st *State, av, bv Value) *Term {
	c := x.c
	switch a := av.(type) {
	case *ReflT:
		if b, ok := bv.(*ReflT); ok {
			return c.Bool(types.Identical(a.t, b.t))
		}
	case *Term:
		if b, ok := bv.(*Term); ok {
			return c.Eq(a, b)
		}
	case Str:
		if b, ok := bv.(Str); ok {
			return c.StrEq(a, b)
		}
	case Ptr:
		if b, ok := bv.(Ptr); ok {
			if a.obj == 0 || b.obj == 0 || a.obj != b.obj {
				return c.Bool(a.obj == b.obj)
			}
			if samePath(a.path, b.path) {
				return c.tt
			}
			return c.FreshB("ptreq")
		}
		if _, ok := bv.(Opaque); ok {
			return c.FreshB("ptreq")
		}
	case Slice:
		if b, ok := bv.(Slice); ok {
			if b.p.obj == 0 {
				return c.Bool(a.p.obj == 0)
			}
			return c.Bool(b.p.obj == 0 && a.p.obj == 0)
		}
		return c.Bool(a.p.obj == 0)
	case MapRef:
		if b, ok := bv.(MapRef); ok {
			return c.Bool(a.obj == b.obj)
		}
	case ChanRef:
		if b, ok := bv.(ChanRef); ok {
			return c.Bool(a.obj == b.obj)
		}
	case Func:
		if b, ok := bv.(Func); ok {
			an, bn := a.fn == nil && a.nat == nil && a.bi == nil, b.fn == nil && b.nat == nil && b.bi == nil
			return c.Bool(an && bn)
		}
	case Iface:
		switch b := bv.(type) {
		case Iface:
			if a.typ == nil || b.typ == nil {
				return c.Bool(a.typ == nil && b.typ == nil)
			}
			if !types.Identical(a.typ, b.typ) {
				return c.ff
			}
			return x.equal(st, a.val, b.val)
		case Opaque:
			if a.typ == nil {
				return c.BVar(b.id + "==nil")
			}
			return c.FreshB("ifeq")
		default:
			if a.typ == nil {
				return c.ff
			}
			return x.equal(st, a.val, bv)
		}
	case Opaque:
		if b, ok := bv.(Opaque); ok && a.id == b.id {
			return c.tt
		}
		if b, ok := bv.(Iface); ok && b.typ == nil {
			return c.BVar(a.id + "==nil")
		}
		if b, ok := bv.(Ptr); ok && b.obj == 0 {
			return c.BVar(a.id + "==nil")
		}
		return c.FreshB("opeq")
	case *StructV:
		if b, ok := bv.(*StructV); ok {
			cj := []*Term{}
			for i := range a.f {
				cj = append(cj, x.equal(st, a.f[i], b.f[i]))
			}
			return c.And(cj...)
		}
		return c.FreshB("streq")
	case *ArrV:
		if b, ok := bv.(*ArrV); ok {
			cj := []*Term{}
			for i := range a.e {
				cj = append(cj, x.equal(st, a.e[i], b.e[i]))
			}
			return c.And(cj...)
		}
	case *BytesV:
		if b, ok := bv.(*BytesV); ok {
			return c.StrEq(Str{a.seq, c.Int(0), a.n}, Str{b.seq, c.Int(0), b.n})
		}
	}
	x.unsupported("comparison of %T and %T", av, bv)
	return nil
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	if tv, ok := from.(*types.TypeParam); ok {
		_ = tv
		x.unsupported("type parameter conversion")
	}
	if bits, sg, ok := intInfo(to); ok {
		if t, isT := v.(*Term); isT {
			return x.wrap(st, t, bits, sg)
		}
		return x.havoc(st, to, "f2i")
	}
	if isFloat(to) {
		if t, isT := v.(*Term); isT {
			return Opaque{to, fmt.Sprintf("i2f%d", t.id)}
		}
		return v
	}
	if isStr(to) {
		switch s := v.(type) {
		case Str:
			return s
		case Slice:
			es := from.Underlying().(*types.Slice).Elem()
			if isByteT(es) {
				r := x.sliceStr(st, s)
				r.seq, r.off = c.resolve(r.seq, r.off, r.n)
				return r
			}
			if s.p.obj != 0 {
				if rv, ok := x.load(st, s.p).(*RefArr); ok {
					_ = rv
				}
			}
			return x.runesToStr(st, s)
		case *Term: // string(rune)
			if s.isConst() {
				return c.StrConst(string(rune(s.c.Int64())))
			}
			// ASCII only
			if x.valid(st, c.And(c.Le(c.Int(0), s), c.Lt(s, c.Int(128)))) {
				return Str{c.SeqFill(s), c.Int(0), c.Int(1)}
			}
			return x.freshStr("rune", bi(4))
		case Opaque:
			return x.havocNamed(st, to, s.id+".str")
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := v.(Str); ok {
			if isByteT(sl.Elem()) {
				return x.bytesToSlice(st, s)
			}
			return x.strToRunes(st, s)
		}
		return v
	}
	if _, ok := to.Underlying().(*types.Basic); ok { // unsafe.Pointer
		return v
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	x.unsupported("conversion %s -> %s", from, to)
	return nil
}

// strToRunes: []rune(s) with uninterpreted contents; the rune count is a function of the
// string with the facts 0<=n<=len, n==len iff pure ASCII... (n==len when all bytes < 0x80).
func (x *Exec) strToRunes(st *State, s Str) Value {
	c := x.c
	if cs, ok := c.isConstStr(s); ok {
		rs := []rune(cs)
		a := &ArrV{}
		for _, r := range rs {
			a.e = append(a.e, c.Int(int64(r)))
		}
		n := c.Int(int64(len(rs)))
		return Slice{Ptr{obj: x.alloc(st, a)}, c.Int(0), n, n, false}
	}
	n := x.runeCount(s)
	s.seq, s.off = c.resolve(s.seq, s.off, s.n)
	nm := fmt.Sprintf("runes%d,%d,%d", s.seq.id, s.off.id, s.n.id)
	var base *Base
	if v, ok := c.ufMemo[nm]; ok {
		base = v.(*Base)
	} else {
		base = c.NewBase(nm, b0, bi(0x10ffff))
		asc := x.isASCII(s)
		base.facts = append(base.facts, func(c *Ctx, idx *Term) *Term {
			return c.Implies(asc, c.Implies(c.And(c.Le(c.Int(0), idx), c.Lt(idx, s.n)), c.Eq(c.App(base, idx), c.At(s, idx))))
		})
		c.ufMemo[nm] = base
	}
	src := s
	r := &RefArr{n: n, elem: types.Typ[types.Int32], gen: func(x *Exec, st *State, i *Term) Value { return c.App(base, i) }}
	o := x.alloc(st, r)
	st.ghost[fmt.Sprintf("runesrc%d", o)] = src
	return Slice{Ptr{obj: o}, c.Int(0), n, n, false}
}

func (x *Exec) isASCII(s Str) *Term {
	return x.c.Forall(x.c.Int(0), s.n, func(k *Term) *Term { return x.c.Lt(x.c.At(s, k), x.c.Int(128)) })
}

// runeCount is a function of the string; exactly len(s) for pure ASCII, and strictly less if
// the string is valid UTF-8 with some byte >= 0x80 (validity is the caller's fact).
func (x *Exec) runeCount(s Str) *Term {
	c := x.c
	s.seq, s.off = c.resolve(s.seq, s.off, s.n)
	nm := fmt.Sprintf("runecount%d,%d,%d", s.seq.id, s.off.id, s.n.id)
	if v, ok := c.ufMemo[nm]; ok {
		return v.(*Term)
	}
	n := c.Fresh("runecount", b0, maxLen)
	asc := x.isASCII(s)
	val := x.validUTF8(s)
	c.vfacts[n.id] = append(c.vfacts[n.id],
		c.Le(n, s.n), c.Implies(c.Lt(c.Int(0), s.n), c.Lt(c.Int(0), n)), c.Implies(asc, c.Eq(n, s.n)), c.Implies(val, c.Implies(c.Eq(n, s.n), asc)), c.Le(s.n, c.MulC(n, bi(4))))
	c.ufMemo[nm] = n
	return n
}

func (x *Exec) validUTF8(s Str) *Term {
	c := x.c
	s.seq, s.off = c.resolve(s.seq, s.off, s.n)
	nm := fmt.Sprintf("utf8valid%d,%d,%d", s.seq.id, s.off.id, s.n.id)
	if v, ok := c.ufMemo[nm]; ok {
		return v.(*Term)
	}
	if cs, ok := c.isConstStr(s); ok {
		return c.Bool(strings.ToValidUTF8(cs, "\uFFFD") == cs)
	}
	v := c.FreshB("utf8valid")
	asc := x.isASCII(s)
	c.defs[v.id] = &BDef{e: v, neg: c.Not(asc)}
	c.ufMemo[nm] = v
	return v
}

// gbBack: a text without the private use characters that x/text does not convert back from GB18030.
func (x *Exec) gbBack(s Str) *Term {
	c := x.c
	s.seq, s.off = c.resolve(s.seq, s.off, s.n)
	nm := fmt.Sprintf("gbback%d,%d,%d", s.seq.id, s.off.id, s.n.id)
	if v, ok := c.ufMemo[nm]; ok {
		return v.(*Term)
	}
	if cs, ok := c.isConstStr(s); ok {
		for _, r := range cs {
			if r >= 0xe000 && r <= 0xe864 {
				return c.ff
			}
		}
		return c.tt
	}
	v := c.FreshB("gbback")
	c.defs[v.id] = &BDef{e: v, neg: c.Not(x.isASCII(s))}
	c.ufMemo[nm] = v
	return v
}

func (x *Exec) runesToStr(st *State, s Slice) Value {
	if v, ok := st.ghost[fmt.Sprintf("runesrc%d", s.p.obj)]; ok && s.off.isInt(0) {
		src := v.(Str)
		if s.len == x.runeCount(src) {
			if x.valid(st, x.validUTF8(src)) {
				return src
			}
		}
		// a prefix by rune count
		nm := fmt.Sprintf("runeprefix%d", s.len.id)
		_ = nm
	}
	return x.freshStr("runes", nil)
}

func (x *Exec) nextRune(st *State, obj int, io *IterObj) []Out {
	c := x.c
	s := *io.str
	more := c.Lt(io.off, s.n)
	var outs []Out
	if x.feasible(st, c.Not(more)) {
		s2 := st.clone()
		x.assume(s2, c.Not(more))
		outs = append(outs, Out{s2, []Value{Tuple{c.ff, c.Int(0), c.Int(0)}}})
	}
	if x.feasible(st, more) {
		b := c.At(s, io.off)
		asc := c.Lt(b, c.Int(128))
		if x.feasible(st, c.And(more, asc)) {
			s3 := st.clone()
			x.assume(s3, more)
			x.assume(s3, asc)
			n := *io
			n.off = c.AddI(io.off, 1)
			s3.heap[obj] = &n
			outs = append(outs, Out{s3, []Value{Tuple{c.tt, io.off, b}}})
		}
		if x.feasible(st, c.And(more, c.Not(asc))) {
			s4 := st.clone()
			x.assume(s4, more)
			x.assume(s4, c.Not(asc))
			w := c.Fresh("runew", bi(1), bi(4))
			r := c.Fresh("rune", bi(128), bi(0x10ffff))
			n := *io
			n.off = c.Add(io.off, w)
			x.assume(s4, c.Le(n.off, s.n))
			s4.heap[obj] = &n
			outs = append(outs, Out{s4, []Value{Tuple{c.tt, io.off, r}}})
		}
	}
	return outs
}

// maps ---------------------------------------------------------------------

func (x *Exec) mapLookup(st *State, m, k Value, mt *types.Map, commaOk bool) []Out {
	c := x.c
	ret := func(v Value, ok *Term) Value {
		if commaOk {
			return Tuple{v, ok}
		}
		return v
	}
	switch mr := m.(type) {
	case MapRef:
		if mr.obj == 0 {
			return single(st, ret(x.zero(mt.Elem()), c.ff))
		}
		mo, isM := st.heap[mr.obj].(*MapObj)
		if !isM {
			break
		}
		if mo.havoc {
			v := x.havoc(st, mt.Elem(), "mapval")
			return single(st, ret(v, c.FreshB("mapok")))
		}
		if mo.lazy != nil && !x.isSeen(st, mo, k) {
			var outs []Out
			for _, s := range x.lazyResolve(st, mr, k) {
				outs = append(outs, x.mapLookup(s, m, k, mt, commaOk)...)
			}
			return outs
		}
		// merge-able values: build ite chain
		cur := Value(x.zero(mt.Elem()))
		ok := c.ff
		good := true
		var es []*Term
		for i := range mo.keys {
			es = append(es, x.equal(st, mo.keys[i], k))
		}
		for i := range mo.keys {
			if es[i].op == OFalse {
				continue
			}
			nv, g := x.mergeVal(es[i], mo.vals[i], cur)
			if es[i].op == OTrue {
				nv, g = mo.vals[i], true
			}
			if !g {
				good = false
				break
			}
			cur = nv
			ok = c.Or(ok, es[i])
		}
		if good {
			return single(st, ret(cur, ok))
		}
		var outs []Out
		rest := []*Term{}
		for i := range mo.keys {
			cond := c.And(append(append([]*Term{}, rest...), es[i])...)
			rest = append(rest, c.Not(es[i]))
			if cond.op == OFalse || !x.feasible(st, cond) {
				continue
			}
			s := st.clone()
			x.assume(s, cond)
			outs = append(outs, Out{s, []Value{ret(mo.vals[i], c.tt)}})
		}
		cond := c.And(rest...)
		if cond.op != OFalse && x.feasible(st, cond) {
			s := st.clone()
			x.assume(s, cond)
			outs = append(outs, Out{s, []Value{ret(x.zero(mt.Elem()), c.ff)}})
		}
		return outs
	}
	return single(st, ret(x.havoc(st, mt.Elem(), "mapval"), c.FreshB("mapok")))
}

func (x *Exec) mapUpdate(st *State, m MapRef, k, v Value) []Out {
	mo := st.heap[m.obj].(*MapObj)
	if mo.havoc {
		return nil
	}
	if mo.lazy != nil && !x.isSeen(st, mo, k) {
		var outs []Out
		for _, s := range x.lazyResolve(st, m, k) {
			o := x.mapUpdate(s, m, k, v)
			if o == nil {
				o = []Out{{s, nil}}
			}
			outs = append(outs, o...)
		}
		return outs
	}
	for i := range mo.keys {
		e := x.equal(st, mo.keys[i], k)
		if e.op == OFalse || x.quick(st, e) < 0 {
			continue
		}
		if e.op == OTrue || x.quick(st, e) > 0 {
			n := mo.with(mo.keys, append([]Value(nil), mo.vals...))
			n.vals[i] = v
			st.heap[m.obj] = n
			return nil
		}
		var outs []Out
		if x.feasible(st, e) {
			s := st.clone()
			x.assume(s, e)
			n := mo.with(mo.keys, append([]Value(nil), mo.vals...))
			n.vals[i] = v
			s.heap[m.obj] = n
			outs = append(outs, Out{s, nil})
		}
		if x.feasible(st, x.c.Not(e)) {
			s := st.clone()
			x.assume(s, x.c.Not(e))
			o2 := x.mapUpdate(s, m, k, v)
			if o2 == nil {
				outs = append(outs, Out{s, nil})
			} else {
				outs = append(outs, o2...)
			}
		}
		return outs
	}
	n := mo.with(append(mo.keys[:len(mo.keys):len(mo.keys)], k), append(mo.vals[:len(mo.vals):len(mo.vals)], v))
	st.heap[m.obj] = n
	return nil
}

func (x *Exec) mapDelete(st *State, m MapRef, k Value) []*State {
	if m.obj == 0 {
		return []*State{st}
	}
	mo := st.heap[m.obj].(*MapObj)
	if mo.havoc {
		return []*State{st}
	}
	if mo.lazy != nil && !x.isSeen(st, mo, k) {
		var outs []*State
		for _, s := range x.lazyResolve(st, m, k) {
			outs = append(outs, x.mapDelete(s, m, k)...)
		}
		return outs
	}
	cur := []*State{st}
	for i := len(mo.keys) - 1; i >= 0; i-- {
		var next []*State
		for _, s := range cur {
			e := x.equal(s, mo.keys[i], k)
			drop := func(s *State) {
				o := s.heap[m.obj].(*MapObj)
				n := o.with(nil, nil)
				n.keys = append(append([]Value{}, o.keys[:i]...), o.keys[i+1:]...)
				n.vals = append(append([]Value{}, o.vals[:i]...), o.vals[i+1:]...)
				s.heap[m.obj] = n
			}
			switch q := x.quick(s, e); {
			case q > 0:
				drop(s)
				next = append(next, s)
			case q < 0:
				next = append(next, s)
			default:
				if x.feasible(s, e) {
					s2 := s.clone()
					x.assume(s2, e)
					drop(s2)
					next = append(next, s2)
				}
				if x.feasible(s, x.c.Not(e)) {
					x.assume(s, x.c.Not(e))
					next = append(next, s)
				}
			}
		}
		cur = next
	}
	return cur
}

// type assertions -------------------------------------------------------------

func (x *Exec) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) []Out {
	c := x.c
	set := func(v Value) []Out { fr.env[fr.info.num[i]] = v; return nil }
	switch v := x.val(fr, st, i.X).(type) {
	case Iface:
		ok := false
		var res Value
		if v.typ != nil {
			if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
				if ov, isO := v.val.(Opaque); isO && ov.typ != nil && types.IsInterface(ov.typ) {
					_ = ov
				}
				ok = types.Implements(v.typ, it)
				res = v
			} else {
				ok = types.Identical(v.typ, i.AssertedType)
				res = v.val
			}
		}
		if i.CommaOk {
			if !ok {
				res = x.zero(i.AssertedType)
			}
			return set(Tuple{res, c.Bool(ok)})
		}
		if !ok {
			x.safe(st, "type assertion to "+i.AssertedType.String(), c.ff)
			return []Out{}
		}
		return set(res)
	case Opaque:
		if i.CommaOk {
			return set(Tuple{x.havoc(st, i.AssertedType, v.id+".assert"), c.FreshB("assertok")})
		}
		x.unsupported("type assertion on unknown value")
	}
	x.unsupported("type assertion on %T", x.val(fr, st, i.X))
	return nil
}

// calls -------------------------------------------------------------------------

func (x *Exec) doCall(fr *Frame, st *State, cc *ssa.CallCommon, site ssa.Instruction) []Out {
	var args []Value
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(st, b, args, cc)
	}
	var fv Value
	if cc.IsInvoke() {
		fv = x.val(fr, st, cc.Value)
	} else if f := cc.StaticCallee(); f != nil {
		if _, isC := cc.Value.(*ssa.MakeClosure); !isC {
			return x.call(st, f, args, nil, fr.depth+1)
		}
		fv = x.val(fr, st, cc.Value)
	} else {
		fv = x.val(fr, st, cc.Value)
	}
	return x.invokeVal(fr, st, cc, fv, args)
}

func (x *Exec) invokeVal(fr *Frame, st *State, cc *ssa.CallCommon, fv Value, args []Value) []Out {
	if cc.IsInvoke() {
		iv, isI := fv.(Iface)
		if isI && iv.typ == nil {
			x.safe(st, "nil dereference (method call on nil interface)", x.c.ff)
			return nil
		}
		if ov, ok := fv.(Opaque); ok {
			return x.opaqueCall(st, ov, cc.Method, args)
		}
		f, as := x.method(st, fv, cc.Method, args)
		return x.callFunc(st, f.(Func), as, fr.depth+1)
	}
	switch f := fv.(type) {
	case Func:
		if f.bi != nil {
			return x.builtin(st, f.bi, args, cc)
		}
		return x.callFunc(st, f, args, fr.depth+1)
	case Opaque:
		x.unsupported("call of unknown function value %s", f.id)
	}
	x.unsupported("call of %T", fv)
	return nil
}

func (x *Exec) opaqueCall(st *State, ov Opaque, m *types.Func, args []Value) []Out {
	full := m.FullName()
	for _, p := range opaquePrefixes {
		if strings.Contains(full, p) {
			x.trusted[p+"*"] = true
			return single(st, x.havocResults(st, m.Type().(*types.Signature), full)...)
		}
	}
	if n, ok := natives[full]; ok {
		return n(x, st, append([]Value{ov}, args...), nil)
	}
	x.unsupported("method %s on unknown value %s", full, ov.id)
	return nil
}

func (x *Exec) method(st *State, fv Value, m *types.Func, args []Value) (Value, []Value) {
	iv, ok := fv.(Iface)
	if !ok {
		x.unsupported("method call %s on %T", m.Name(), fv)
	}
	fn := x.prog.ssa.LookupMethod(iv.typ, m.Pkg(), m.Name())
	if fn == nil {
		x.unsupported("no method %s on %s", m.Name(), iv.typ)
	}
	return Func{fn: fn}, append([]Value{iv.val}, args...)
}

func (x *Exec) builtin(st *State, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) []Out {
	c := x.c
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case Str:
			return single(st, v.n)
		case Slice:
			return single(st, v.len)
		case MapRef:
			if v.obj == 0 {
				return single(st, c.Int(0))
			}
			if mo, ok := st.heap[v.obj].(*MapObj); ok && !mo.havoc && mo.lazy == nil {
				return single(st, c.Int(int64(len(mo.keys))))
			}
			return single(st, c.Fresh("maplen", b0, maxLen))
		case *ArrV:
			return single(st, c.Int(int64(len(v.e))))
		case *BytesV:
			return single(st, v.n)
		case Ptr:
			at := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return single(st, c.Int(at.Len()))
		case ChanRef:
			if v.obj == 0 {
				return single(st, c.Int(0))
			}
			return single(st, c.Int(int64(len(st.heap[v.obj].(*ChanObj).buf))))
		case Opaque:
			return single(st, c.Var("len("+v.id+")", b0, maxLen))
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			if v.grown {
				return single(st, x.growCap(v))
			}
			return single(st, v.cap)
		case ChanRef:
			if v.obj == 0 {
				return single(st, c.Int(0))
			}
			return single(st, st.heap[v.obj].(*ChanObj).cap)
		}
	case "copy":
		d := args[0].(Slice)
		var s Str
		nonbyte := false
		var ss Slice
		switch v := args[1].(type) {
		case Str:
			s = v
		case Slice:
			if d.p.obj != 0 {
				if _, ok := x.load(st, d.p).(*BytesV); !ok {
					nonbyte = true
					ss = v
				}
			}
			if !nonbyte {
				s = x.sliceStr(st, v)
			}
		default:
			x.unsupported("copy from %T", v)
		}
		if nonbyte {
			n, ok1 := x.unique(st, d.len)
			m, ok2 := x.unique(st, ss.len)
			if !ok1 || !ok2 {
				x.unsupported("copy of non-byte slices of unknown length")
			}
			k := n.Int64()
			if m.Int64() < k {
				k = m.Int64()
			}
			var vals []Value
			for i := int64(0); i < k; i++ {
				vals = append(vals, x.load(st, Ptr{ss.p.obj, append(ss.p.path[:len(ss.p.path):len(ss.p.path)], PE{-1, c.AddI(ss.off, i)})}))
			}
			for i, v := range vals {
				x.store(st, Ptr{d.p.obj, append(d.p.path[:len(d.p.path):len(d.p.path)], PE{-1, c.AddI(d.off, int64(i))})}, v)
			}
			return single(st, c.Int(k))
		}
		n := x.minT(st, d.len, s.n)
		if d.p.obj != 0 {
			bv := x.load(st, d.p).(*BytesV)
			x.store(st, d.p, &BytesV{c.SeqCopy(bv.seq, d.off, s.seq, s.off, n), bv.n})
		}
		return single(st, n)
	case "append":
		return x.doAppend(st, args, cc)
	case "delete":
		m, ok := args[0].(MapRef)
		if !ok {
			return single(st)
		}
		var outs []Out
		for _, s := range x.mapDelete(st, m, args[1]) {
			outs = append(outs, Out{s, nil})
		}
		return outs
	case "print", "println":
		return single(st)
	case "close":
		if cr, ok := args[0].(ChanRef); ok && cr.obj != 0 {
			co := st.heap[cr.obj].(*ChanObj)
			x.safe(st, "close of closed channel", c.Bool(!co.closed))
			n := *co
			n.closed = true
			st.heap[cr.obj] = &n
			return single(st)
		}
		x.safe(st, "close of nil channel", c.ff)
		return nil
	case "recover":
		return single(st, Iface{})
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = x.minT(st, r, t)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		return single(st, r)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			x.safe(st, "nil dereference (method value)", c.ff)
			return nil
		}
		return single(st, args[0])
	case "clear":
		if m, ok := args[0].(MapRef); ok {
			if m.obj != 0 {
				st.heap[m.obj] = &MapObj{}
			}
			return single(st)
		}
	}
	x.unsupported("builtin %s on %T", b.Name(), args[0])
	return nil
}

func (x *Exec) growCap(v Slice) *Term {
	cp := x.c.Var(fmt.Sprintf("cap%d", v.p.obj), b0, maxLen)
	x.c.vfacts[cp.id] = append(x.c.vfacts[cp.id], x.c.Le(v.cap, cp))
	return cp
}

func (x *Exec) minT(st *State, a, b *Term) *Term {
	c := x.c
	le := c.Le(a, b)
	switch x.quick(st, le) {
	case 1:
		return a
	case -1:
		return b
	}
	if len(st.pc) > 0 {
		if x.valid(st, le) {
			return a
		}
		if x.valid(st, c.Not(le)) {
			return b
		}
	}
	r := c.Ite(le, a, b)
	return r
}

func (x *Exec) doAppend(st *State, args []Value, cc *ssa.CallCommon) []Out {
	c := x.c
	s, ok := args[0].(Slice)
	if !ok {
		if o, isO := args[0].(Opaque); isO {
			x.c.nfresh++
			return single(st, Opaque{o.typ, fmt.Sprintf("append!%d", x.c.nfresh)})
		}
		x.unsupported("append to %T", args[0])
	}
	elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	if isByteT(elem) {
		var t Str
		switch v := args[1].(type) {
		case Str:
			t = v
		case Slice:
			t = x.sliceStr(st, v)
		}
		nl := c.Add(s.len, t.n)
		if t.n.isInt(0) {
			return single(st, s)
		}
		// in place when capacity is known to suffice
		if s.p.obj != 0 && !s.grown && x.valid(st, c.Le(nl, s.cap)) {
			bv := x.load(st, s.p).(*BytesV)
			x.store(st, s.p, &BytesV{c.SeqCopy(bv.seq, c.Add(s.off, s.len), t.seq, t.off, t.n), bv.n})
			return single(st, Slice{s.p, s.off, nl, s.cap, false})
		}
		mayIn := s.p.obj != 0 && !s.grown && x.feasible(st, c.And(c.Le(nl, s.cap), c.Lt(c.Int(0), t.n)))
		cur := c.StrConst("")
		if s.p.obj != 0 {
			cur = x.sliceStr(st, s)
		}
		cat := c.StrCat(cur, t)
		mkNew := func(st *State) Value {
			n := x.norm0(cat)
			o := x.alloc(st, &BytesV{n.seq, n.n})
			return Slice{Ptr{obj: o}, c.Int(0), nl, nl, true}
		}
		if !mayIn {
			return single(st, mkNew(st))
		}
		cond := c.Le(nl, s.cap)
		a, b := st.clone(), st
		x.assume(a, cond)
		bv := x.load(a, s.p).(*BytesV)
		x.store(a, s.p, &BytesV{c.SeqCopy(bv.seq, c.Add(s.off, s.len), t.seq, t.off, t.n), bv.n})
		outs := single(a, Slice{s.p, s.off, nl, s.cap, false})
		if x.feasible(b, c.Not(cond)) {
			x.assume(b, c.Not(cond))
			outs = append(outs, Out{b, []Value{mkNew(b)}})
		}
		return outs
	}
	// non-byte elements
	if ov, isO := args[1].(Opaque); isO {
		x.c.nfresh++
		return single(st, Opaque{cc.Args[0].Type(), fmt.Sprintf("append!%s!%d", ov.id, x.c.nfresh)})
	}
	t := args[1].(Slice)
	read := func(s Slice) ([]Value, bool) {
		if s.p.obj == 0 {
			return nil, true
		}
		n, ok := x.unique(st, s.len)
		if !ok {
			return nil, false
		}
		off, ok := x.unique(st, s.off)
		if !ok {
			return nil, false
		}
		arr, ok := x.load(st, s.p).(*ArrV)
		if !ok {
			return nil, false
		}
		return arr.e[off.Int64() : off.Int64()+n.Int64()], true
	}
	av, ok1 := read(s)
	tv, ok2 := read(t)
	if !ok1 || !ok2 {
		// symbolic-length log-field style slices: keep opaque unless byte slices
		if s.p.obj != 0 {
			if ra, ok := x.load(st, s.p).(*RefArr); ok && ok2 {
				n := *ra
				n.over = ra.over[:len(ra.over):len(ra.over)]
				for i, v := range tv {
					n.over = append(n.over, overE{c.AddI(c.Add(s.off, s.len), int64(i)), v})
				}
				nl := c.AddI(s.len, int64(len(tv)))
				n.n = nl
				o := x.alloc(st, &n)
				return single(st, Slice{Ptr{obj: o}, s.off, nl, nl, true})
			}
		}
		x.unsupported("append with symbolic length")
	}
	if len(tv) == 0 {
		return single(st, s)
	}
	if s.p.obj != 0 && !s.grown {
		if cp, ok := x.unique(st, s.cap); ok && cp.Int64() >= int64(len(av)+len(tv)) {
			off, _ := x.unique(st, s.off)
			arr := x.load(st, s.p).(*ArrV)
			n := &ArrV{e: append([]Value(nil), arr.e...)}
			for i, v := range tv {
				n.e[int(off.Int64())+len(av)+i] = v
			}
			x.store(st, s.p, n)
			return single(st, Slice{s.p, s.off, c.Int(int64(len(av) + len(tv))), s.cap, false})
		}
	}
	all := append(append([]Value{}, av...), tv...)
	o := x.alloc(st, &ArrV{e: all})
	n := c.Int(int64(len(all)))
	return single(st, Slice{Ptr{obj: o}, c.Int(0), n, n, true})
}
