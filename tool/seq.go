package main

import (
	"fmt"
)

type SKind uint8

const (
	SBase SKind = iota
	SConst
	SFill
	SStore
	SCopy
	SIte
)

// Seq is an immutable symbolic byte sequence (a total function int->byte).
type Seq struct {
	id       int
	kind     SKind
	base     *Base
	str      string
	v        *Term // fill value / stored value / ite guard
	a, b     *Seq  // a: underlying (dst / then), b: src / else
	i, s0, n *Term
}

func (c *Ctx) mkSeq(s *Seq) *Seq {
	id := func(x *Seq) int {
		if x == nil {
			return -1
		}
		return x.id
	}
	tid := func(x *Term) int {
		if x == nil {
			return -1
		}
		return x.id
	}
	bn := -1
	if s.base != nil {
		bn = s.base.id
	}
	k := fmt.Sprintf("%d|%d|%d|%d|%d|%d|%d|%d|%s", s.kind, bn, tid(s.v), id(s.a), id(s.b), tid(s.i), tid(s.s0), tid(s.n), s.str)
	if o, ok := c.seqtab[k]; ok {
		return o
	}
	s.id = c.seqn
	c.seqn++
	c.seqtab[k] = s
	return s
}

func (c *Ctx) SeqBase(b *Base) *Seq   { return c.mkSeq(&Seq{kind: SBase, base: b}) }
func (c *Ctx) SeqConst(s string) *Seq { return c.mkSeq(&Seq{kind: SConst, str: s}) }
func (c *Ctx) SeqFill(v *Term) *Seq   { return c.mkSeq(&Seq{kind: SFill, v: v}) }
func (c *Ctx) SeqStore(s *Seq, i, v *Term) *Seq {
	if s.kind == SStore && s.i == i {
		s = s.a
	}
	return c.mkSeq(&Seq{kind: SStore, a: s, i: i, v: v})
}
func (c *Ctx) SeqCopy(dst *Seq, d0 *Term, src *Seq, s0, n *Term) *Seq {
	if n.isInt(0) || n.hi != nil && n.hi.Sign() <= 0 {
		return dst
	}
	src, s0 = c.resolve(src, s0, n)
	return c.mkSeq(&Seq{kind: SCopy, a: dst, i: d0, b: src, s0: s0, n: n})
}
func (c *Ctx) SeqIte(g *Term, a, b *Seq) *Seq {
	if a == b || g.op == OTrue {
		return a
	}
	if g.op == OFalse {
		return b
	}
	if g.op == ONot {
		return c.SeqIte(g.args[0], b, a)
	}
	return c.mkSeq(&Seq{kind: SIte, v: g, a: a, b: b})
}

// resolve strips layers irrelevant to the window [off, off+n).
func (c *Ctx) resolve(s *Seq, off, n *Term) (*Seq, *Term) {
	return c.resolveH(s, off, n, nil)
}

// resolveH uses, besides the simplifier, the hypotheses of a path (hyp(t): t holds on it). Its result
// stands for the window on that path only.
func (c *Ctx) resolveH(s *Seq, off, n *Term, hyp func(*Term) bool) (*Seq, *Term) {
	yes := func(t *Term) bool { return t.op == OTrue || hyp != nil && t.op != OFalse && hyp(t) }
	for {
		switch s.kind {
		case SIte:
			if hyp == nil {
				return s, off
			}
			if hyp(s.v) {
				s = s.a
				continue
			}
			if hyp(c.Not(s.v)) {
				s = s.b
				continue
			}
			return s, off
		case SStore:
			if yes(c.Lt(s.i, off)) || yes(c.Le(c.Add(off, n), s.i)) || c.Or(c.Lt(s.i, off), c.Le(c.Add(off, n), s.i)).op == OTrue {
				s = s.a
				continue
			}
			return s, off
		case SCopy:
			end := c.Add(off, n)
			cend := c.Add(s.i, s.n)
			if yes(c.Le(end, s.i)) || yes(c.Le(cend, off)) {
				s = s.a
				continue
			}
			if yes(c.Le(s.i, off)) && yes(c.Le(end, cend)) {
				off = c.Add(s.s0, c.Sub(off, s.i))
				s = s.b
				continue
			}
			return s, off
		default:
			return s, off
		}
	}
}

func (c *Ctx) Read(s *Seq, i *Term) *Term {
	k := [2]int{s.id, i.id}
	if r, ok := c.readMemo[k]; ok {
		return r
	}
	r := c.read(s, i)
	c.readMemo[k] = r
	return r
}

func (c *Ctx) read(s *Seq, i *Term) *Term {
	switch s.kind {
	case SBase:
		return c.App(s.base, i)
	case SConst:
		if i.op == OConst {
			if i.c.IsInt64() {
				x := i.c.Int64()
				if x >= 0 && x < int64(len(s.str)) {
					return c.Int(int64(s.str[x]))
				}
			}
			return c.Int(0)
		}
		if len(s.str) == 0 {
			return c.Int(0)
		}
		r := c.Int(int64(s.str[len(s.str)-1]))
		for j := len(s.str) - 2; j >= 0; j-- {
			r = c.Ite(c.Le(i, c.Int(int64(j))), c.Int(int64(s.str[j])), r)
		}
		return r
	case SFill:
		return s.v
	case SStore:
		e := c.Eq(s.i, i)
		if e.op == OTrue {
			return s.v
		}
		if e.op == OFalse {
			return c.Read(s.a, i)
		}
		return c.Ite(e, s.v, c.Read(s.a, i))
	case SCopy:
		in := c.And(c.Le(s.i, i), c.Lt(i, c.Add(s.i, s.n)))
		if in.op == OFalse {
			return c.Read(s.a, i)
		}
		x := c.Read(s.b, c.Add(s.s0, c.Sub(i, s.i)))
		if in.op == OTrue {
			return x
		}
		return c.Ite(in, x, c.Read(s.a, i))
	case SIte:
		return c.Ite(s.v, c.Read(s.a, i), c.Read(s.b, i))
	}
	panic("read")
}

// Str is a string value: a window of a sequence.
type Str struct {
	seq *Seq
	off *Term
	n   *Term
}

func (c *Ctx) StrConst(s string) Str   { return Str{c.SeqConst(s), c.Int(0), c.Int(int64(len(s)))} }
func (c *Ctx) At(s Str, i *Term) *Term { return c.Read(s.seq, c.Add(s.off, i)) }

func (c *Ctx) StrEq(a, b Str) *Term {
	le := c.Eq(a.n, b.n)
	if le.op == OFalse {
		return c.ff
	}
	a.seq, a.off = c.resolve(a.seq, a.off, a.n)
	b.seq, b.off = c.resolve(b.seq, b.off, b.n)
	if a.seq == b.seq && a.off == b.off {
		return le
	}
	if b.n.op != OConst && a.n.op == OConst || a.seq.id > b.seq.id && !(a.n.op != OConst && b.n.op == OConst) {
		a, b = b, a
	}
	mk := fmt.Sprintf("eq%d,%d,%d,%d,%d,%d", a.seq.id, a.off.id, a.n.id, b.seq.id, b.off.id, b.n.id)
	if t, ok := c.eqPairs[mk]; ok {
		return t
	}
	n := b.n
	if a.n.op == OConst {
		n = a.n
	}
	var r *Term
	if n.op == OConst && n.c.Cmp(bi(64)) <= 0 {
		cj := []*Term{le}
		for i := int64(0); i < n.c.Int64(); i++ {
			k := c.Int(i)
			e := c.Eq(c.At(a, k), c.At(b, k))
			cj = append(cj, e)
			if e.op == OFalse {
				break
			}
		}
		r = c.And(cj...)
	} else {
		r = c.forallD(c.Int(0), n, func(k *Term) *Term { return c.Eq(c.At(a, k), c.At(b, k)) }, le)
	}
	c.eqPairs[mk] = r
	return r
}

func (c *Ctx) StrCat(xs ...Str) Str {
	if len(xs) == 0 {
		return c.StrConst("")
	}
	allc := true
	for _, x := range xs {
		if x.seq.kind != SConst || !x.off.isConst() || !x.n.isConst() {
			allc = false
		}
	}
	if allc {
		s := ""
		for _, x := range xs {
			s += c.constOf(x)
		}
		return c.StrConst(s)
	}
	if len(xs) == 1 {
		return xs[0]
	}
	seq := c.SeqFill(c.Int(0))
	n := c.Int(0)
	for _, x := range xs {
		seq = c.SeqCopy(seq, n, x.seq, x.off, x.n)
		n = c.Add(n, x.n)
	}
	return Str{seq, c.Int(0), n}
}

func (c *Ctx) constOf(x Str) string {
	o, n := int(x.off.c.Int64()), int(x.n.c.Int64())
	return x.seq.str[o : o+n]
}

// isConstStr returns the concrete string if every byte is a constant.
func (c *Ctx) isConstStr(x Str) (string, bool) {
	if !x.n.isConst() {
		return "", false
	}
	n := x.n.c.Int64()
	if n > 4096 {
		return "", false
	}
	if x.seq.kind == SConst && x.off.isConst() {
		return c.constOf(x), true
	}
	b := make([]byte, n)
	for i := int64(0); i < n; i++ {
		t := c.At(x, c.Int(i))
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.c.Int64())
	}
	return string(b), true
}

func (c *Ctx) SubStr(x Str, lo, hi *Term) Str {
	return Str{x.seq, c.Add(x.off, lo), c.Sub(hi, lo)}
}

// bytes base
func (c *Ctx) ByteBase(name string) *Base { return c.NewBase(name, b0, bi(255)) }

// seqHash: keyed uninterpreted function over byte strings giving a byte string.
type strUF struct {
	name string
	apps []strApp
}
type strApp struct {
	args []Str
	out  Str
}

// StrUF applies an uninterpreted string function. mkOut builds the fresh result;
// congruence facts are attached to the result so they are used when it occurs in a query.
func (c *Ctx) StrUF(name string, args []Str, mkOut func(nm string) Str) Str {
	var u *strUF
	if v, ok := c.ufMemo["suf:"+name]; ok {
		u = v.(*strUF)
	} else {
		u = &strUF{name: name}
		c.ufMemo["suf:"+name] = u
	}
	for i := range args {
		args[i].seq, args[i].off = c.resolve(args[i].seq, args[i].off, args[i].n)
	}
	var eqs []*Term
	for _, ap := range u.apps {
		cj := []*Term{}
		for i := range args {
			cj = append(cj, c.StrEq(ap.args[i], args[i]))
		}
		e := c.And(cj...)
		if e.op == OTrue {
			return ap.out
		}
		eqs = append(eqs, e)
	}
	c.nfresh++
	out := mkOut(fmt.Sprintf("%s!%d", name, c.nfresh))
	for i, e := range eqs {
		if e.op == OFalse {
			continue
		}
		o := u.apps[i].out
		same := c.StrEq(o, out)
		f := c.Implies(e, same)
		c.attach(out, f)
		c.attach(o, f)
	}
	u.apps = append(u.apps, strApp{args, out})
	return out
}

// attach a ground fact to a base-backed string: included whenever it is mentioned.
func (c *Ctx) attach(s Str, f *Term) {
	if f.op == OTrue {
		return
	}
	if s.seq.kind == SBase {
		done := false
		s.seq.base.facts = append(s.seq.base.facts, func(c *Ctx, idx *Term) *Term { _ = done; return f })
	}
	if s.n.op == OVar {
		c.vfacts[s.n.id] = append(c.vfacts[s.n.id], f)
	}
}
