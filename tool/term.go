package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term language: mathematical integers and booleans, uninterpreted reads of
// byte sequences. All machine arithmetic is encoded exactly by explicit
// wrap-around (mod 2^w); nothing is silently treated as unbounded.

type Op uint8

const (
	OConst Op = iota
	OVar      // int variable
	OApp      // application of an uninterpreted function (base read) to an int
	OLin      // c + sum coef*atom
	OMul      // nonlinear product
	ODiv      // floor division by positive constant
	OMod      // euclidean mod by positive constant
	OIte      // int if-then-else
	OUF       // other uninterpreted int function with n int args
	OTrue
	OFalse
	OBVar
	OLe // arg <= 0
	OEq // arg == 0
	ONot
	OAnd
	OOr
)

type mono struct {
	c *big.Int
	t *Term
}

type Term struct {
	id     int
	op     Op
	c      *big.Int // const value / Lin constant / divisor
	mon    []mono
	args   []*Term
	name   string
	base   *Base // for OApp
	lo, hi *big.Int
	fv     map[int]bool // (lazily) unused
}

func (t *Term) isBool() bool { return t.op >= OTrue }

// Base is an uninterpreted int->int function: the contents of an input byte
// sequence (or an array of ints).
type Base struct {
	id     int
	name   string
	lo, hi *big.Int
	facts  []func(c *Ctx, idx *Term) *Term // instantiated at each read
	after  int                             // term count when created
}

type key struct {
	op   Op
	a, b int
	s    string
}

type Ctx struct {
	nbuilt   int
	tick     func() // checks the limits on time and memory
	relMemo  map[int]*Term
	relDepth int

	tab      map[string]*Term
	terms    []*Term
	bases    []*Base
	nfresh   int
	defs     map[int]*BDef // defined booleans by term id
	vfacts   map[int][]*Term
	tt, ff   *Term
	sol      *Solver
	seqn     int
	seqtab   map[string]*Seq
	ufMemo   map[string]any
	eqPairs  map[string]*Term
	readMemo map[[2]int]*Term
}

// BDef is the definition of a defined boolean e:
// e <=> forall k in [lo,hi): body(k).  The negation is witnessed by w.
type BDef struct {
	e      *Term
	K      *Term
	body   *Term // already includes range guard: lo<=K<hi => P(K)
	neg    *Term // formula implied by !e (may be nil)
	pos    *Term // extra formula implied by e (may be nil)
	extraK []*Term
	trig   []trigger
	insts  map[int]bool
	bodyFn func(k *Term) *Term // set when the body contains definitions depending on K
}

type trigger struct {
	base *Base
	sign int
	rest *Term
}

func NewCtx() *Ctx {
	c := &Ctx{relMemo: map[int]*Term{}, tab: map[string]*Term{}, defs: map[int]*BDef{}, vfacts: map[int][]*Term{}, seqtab: map[string]*Seq{}, ufMemo: map[string]any{}, eqPairs: map[string]*Term{}, readMemo: map[[2]int]*Term{}}
	c.tt = c.mk(&Term{op: OTrue})
	c.ff = c.mk(&Term{op: OFalse})
	return c
}

func (c *Ctx) keyOf(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|", t.op)
	if t.c != nil {
		b.WriteString(t.c.String())
	}
	b.WriteByte('|')
	if t.base != nil {
		fmt.Fprintf(&b, "B%d", t.base.id)
	}
	b.WriteString(t.name)
	b.WriteByte('|')
	for _, m := range t.mon {
		fmt.Fprintf(&b, "%s*%d,", m.c.String(), m.t.id)
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	return b.String()
}

func (c *Ctx) mk(t *Term) *Term {
	k := c.keyOf(t)
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.id = len(c.terms)
	c.terms = append(c.terms, t)
	c.tab[k] = t
	return t
}

var (
	b0 = big.NewInt(0)
	b1 = big.NewInt(1)
	bm = big.NewInt(-1)
)

func bi(x int64) *big.Int  { return big.NewInt(x) }
func pow2(n uint) *big.Int { return new(big.Int).Lsh(b1, n) }

func (c *Ctx) Big(v *big.Int) *Term { return c.mk(&Term{op: OConst, c: v, lo: v, hi: v}) }
func (c *Ctx) Int(v int64) *Term    { return c.Big(bi(v)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tt
	}
	return c.ff
}

// Var makes (or finds) an int variable with a declared range.
func (c *Ctx) Var(name string, lo, hi *big.Int) *Term {
	return c.mk(&Term{op: OVar, name: name, lo: lo, hi: hi})
}
func (c *Ctx) Fresh(p string, lo, hi *big.Int) *Term {
	c.nfresh++
	return c.Var(fmt.Sprintf("%s!%d", p, c.nfresh), lo, hi)
}
func (c *Ctx) FreshB(p string) *Term {
	c.nfresh++
	return c.mk(&Term{op: OBVar, name: fmt.Sprintf("%s!%d", p, c.nfresh)})
}
func (c *Ctx) BVar(name string) *Term { return c.mk(&Term{op: OBVar, name: name}) }
func (c *Ctx) NewBase(name string, lo, hi *big.Int) *Base {
	b := &Base{id: len(c.bases), name: name, lo: lo, hi: hi, after: len(c.terms)}
	c.bases = append(c.bases, b)
	return b
}
func (c *Ctx) App(b *Base, idx *Term) *Term {
	return c.mk(&Term{op: OApp, base: b, args: []*Term{idx}, lo: b.lo, hi: b.hi})
}
func (c *Ctx) UF(name string, lo, hi *big.Int, args ...*Term) *Term {
	return c.mk(&Term{op: OUF, name: fmt.Sprintf("%s_%d", name, len(args)), args: args, lo: lo, hi: hi})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isInt(v int64) bool {
	return t.op == OConst && t.c.IsInt64() && t.c.Int64() == v
}

// linear building -----------------------------------------------------------

type lin struct {
	c  *big.Int
	m  map[int]*big.Int
	tt map[int]*Term
}

func newLin() *lin { return &lin{c: new(big.Int), m: map[int]*big.Int{}, tt: map[int]*Term{}} }

func (l *lin) add(k *big.Int, t *Term) {
	switch t.op {
	case OConst:
		l.c.Add(l.c, new(big.Int).Mul(k, t.c))
	case OLin:
		l.c.Add(l.c, new(big.Int).Mul(k, t.c))
		for _, m := range t.mon {
			l.add1(new(big.Int).Mul(k, m.c), m.t)
		}
	default:
		l.add1(k, t)
	}
}
func (l *lin) add1(k *big.Int, t *Term) {
	if o, ok := l.m[t.id]; ok {
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.m, t.id)
		} else {
			l.m[t.id] = n
		}
		return
	}
	if k.Sign() != 0 {
		l.m[t.id] = k
		l.tt[t.id] = t
	}
}

func (c *Ctx) build(l *lin) *Term {
	if c.nbuilt++; c.nbuilt&0xfff == 0 && c.tick != nil {
		c.tick()
	}
	for c.recombine(l) {
	}
	if len(l.m) == 0 {
		return c.Big(l.c)
	}
	ids := make([]int, 0, len(l.m))
	for id := range l.m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.c.Sign() == 0 && l.m[ids[0]].Cmp(b1) == 0 {
		return l.tt[ids[0]]
	}
	t := &Term{op: OLin, c: new(big.Int).Set(l.c)}
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, id := range ids {
		m := mono{l.m[id], l.tt[id]}
		t.mon = append(t.mon, m)
		a, b := m.t.lo, m.t.hi
		if m.c.Sign() < 0 {
			a, b = b, a
		}
		if lo != nil && a != nil {
			lo = new(big.Int).Add(lo, new(big.Int).Mul(m.c, a))
		} else {
			lo = nil
		}
		if hi != nil && b != nil {
			hi = new(big.Int).Add(hi, new(big.Int).Mul(m.c, b))
		} else {
			hi = nil
		}
	}
	t.lo, t.hi = lo, hi
	return c.mk(t)
}

// recombine finds A*mod(x,m) + A*m*mod(div(x,m),n) and folds it.
func (c *Ctx) recombine(l *lin) bool {
	any := false
	for _, t := range l.tt {
		if t.op == OMod {
			if _, ok := l.m[t.id]; ok {
				any = true
				break
			}
		}
	}
	if !any || len(l.m) < 2 {
		return false
	}
	ids := make([]int, 0, len(l.m))
	for id := range l.m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, i := range ids {
		t1 := l.tt[i]
		if t1.op != OMod {
			continue
		}
		A := l.m[i]
		m := t1.c
		x := t1.args[0]
		y := c.Div(x, m)
		if y.op == OConst {
			continue
		}
		Am := new(big.Int).Mul(A, m)
		// y itself
		if y.op != OLin {
			if k, ok := l.m[y.id]; ok && k.Cmp(Am) == 0 {
				delete(l.m, i)
				delete(l.m, y.id)
				l.add(A, x)
				return true
			}
		}
		for _, j := range ids {
			if j == i {
				continue
			}
			t2 := l.tt[j]
			if t2.op == OMod && t2.args[0] == y && l.m[j].Cmp(Am) == 0 {
				delete(l.m, i)
				delete(l.m, j)
				l.add(A, c.Mod(x, new(big.Int).Mul(m, t2.c)))
				return true
			}
		}
	}
	return false
}

func (c *Ctx) Add(a, b *Term) *Term { l := newLin(); l.add(b1, a); l.add(b1, b); return c.build(l) }
func (c *Ctx) Sub(a, b *Term) *Term { l := newLin(); l.add(b1, a); l.add(bm, b); return c.build(l) }
func (c *Ctx) AddI(a *Term, v int64) *Term {
	if v == 0 {
		return a
	}
	return c.Add(a, c.Int(v))
}
func (c *Ctx) MulC(a *Term, k *big.Int) *Term { l := newLin(); l.add(k, a); return c.build(l) }
func (c *Ctx) Neg(a *Term) *Term              { return c.MulC(a, bm) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst {
		return c.MulC(b, a.c)
	}
	if b.op == OConst {
		return c.MulC(a, b.c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: OMul, args: []*Term{a, b}}
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if t.lo == nil || p.Cmp(t.lo) < 0 {
					t.lo = p
				}
				if t.hi == nil || p.Cmp(t.hi) > 0 {
					t.hi = p
				}
			}
		}
	}
	return c.mk(t)
}

func floorDiv(a, m *big.Int) *big.Int {
	q, r := new(big.Int).DivMod(a, m, new(big.Int)) // euclid; m>0 => floor
	_ = r
	return q
}

func isMult(a, m *big.Int) bool { return new(big.Int).Mod(a, m).Sign() == 0 }

func (c *Ctx) Div(t *Term, m *big.Int) *Term {
	if m.Sign() <= 0 {
		panic("Div: nonpositive divisor")
	}
	if m.Cmp(b1) == 0 {
		return t
	}
	if t.op == OConst {
		return c.Big(floorDiv(t.c, m))
	}
	if t.lo != nil && t.hi != nil {
		a, b := floorDiv(t.lo, m), floorDiv(t.hi, m)
		if a.Cmp(b) == 0 {
			return c.Big(a)
		}
	}
	switch t.op {
	case OLin:
		d, r := newLin(), newLin()
		split := false
		for _, mo := range t.mon {
			if isMult(mo.c, m) {
				d.add(new(big.Int).Quo(mo.c, m), mo.t)
				split = true
			} else {
				r.add(mo.c, mo.t)
			}
		}
		q := floorDiv(t.c, m)
		if q.Sign() != 0 {
			split = true
		}
		d.c.Add(d.c, q)
		r.c.Sub(t.c, new(big.Int).Mul(q, m))
		if split {
			rt := c.build(r)
			d.add(b1, c.Div(rt, m))
			return c.build(d)
		}
		// common factor
		g := new(big.Int).Set(m)
		for _, mo := range t.mon {
			g.GCD(nil, nil, g, new(big.Int).Abs(mo.c))
		}
		if g.Cmp(b1) > 0 {
			n := newLin()
			for _, mo := range t.mon {
				n.add(new(big.Int).Quo(mo.c, g), mo.t)
			}
			n.c = floorDiv(t.c, g)
			return c.Div(c.build(n), new(big.Int).Quo(m, g))
		}
		if r2, ok := c.splitLow(t, m); ok {
			return c.Div(r2, m)
		}
	case ODiv:
		return c.Div(t.args[0], new(big.Int).Mul(t.c, m))
	case OMod:
		if isMult(t.c, m) {
			return c.Mod(c.Div(t.args[0], m), new(big.Int).Quo(t.c, m))
		}
	case OIte:
		if t.args[1].op == OConst || t.args[2].op == OConst {
			return c.Ite(t.args[0], c.Div(t.args[1], m), c.Div(t.args[2], m))
		}
	}
	r := &Term{op: ODiv, c: m, args: []*Term{t}}
	if t.lo != nil {
		r.lo = floorDiv(t.lo, m)
	}
	if t.hi != nil {
		r.hi = floorDiv(t.hi, m)
	}
	return c.mk(r)
}

// splitLow: if t = G*rest + low with 0<=low<G and G|m (some G>1) then floor(t/m)=floor(G*rest/m).
func (c *Ctx) splitLow(t *Term, m *big.Int) (*Term, bool) {
	// candidates for G: each coefficient that divides m
	for _, cand := range t.mon {
		G := new(big.Int).Abs(cand.c)
		if G.Cmp(b1) <= 0 || !isMult(m, G) {
			continue
		}
		hi, lo := newLin(), newLin()
		for _, mo := range t.mon {
			if isMult(mo.c, G) {
				hi.add(mo.c, mo.t)
			} else {
				lo.add(mo.c, mo.t)
			}
		}
		q := floorDiv(t.c, G)
		hi.c = new(big.Int).Mul(q, G)
		lo.c = new(big.Int).Sub(t.c, hi.c)
		if len(lo.m) == 0 {
			continue
		}
		lt := c.build(lo)
		if lt.lo != nil && lt.hi != nil && lt.lo.Sign() >= 0 && lt.hi.Cmp(G) < 0 {
			return c.build(hi), true
		}
	}
	return nil, false
}

func (c *Ctx) Mod(t *Term, m *big.Int) *Term {
	if m.Cmp(b1) == 0 {
		return c.Int(0)
	}
	if t.op == OConst {
		return c.Big(new(big.Int).Mod(t.c, m))
	}
	if t.lo != nil && t.hi != nil {
		a, b := floorDiv(t.lo, m), floorDiv(t.hi, m)
		if a.Cmp(b) == 0 {
			if a.Sign() == 0 {
				return t
			}
			return c.Sub(t, c.Big(new(big.Int).Mul(a, m)))
		}
	}
	switch t.op {
	case OLin:
		n := newLin()
		ch := false
		for _, mo := range t.mon {
			if isMult(mo.c, m) {
				ch = true
				continue
			}
			x := mo.t
			if x.op == OMod && isMult(new(big.Int).Mul(mo.c, x.c), m) {
				n.add(mo.c, x.args[0])
				ch = true
				continue
			}
			n.add(mo.c, x)
		}
		if t.c.Sign() < 0 || t.c.Cmp(m) >= 0 {
			ch = true
		}
		if ch {
			n.c.Add(n.c, t.c)
			n.c.Mod(n.c, m)
			return c.Mod(c.build(n), m)
		}
		if t.c.Sign() == 0 {
			g := new(big.Int).Set(m)
			for _, mo := range t.mon {
				g.GCD(nil, nil, g, new(big.Int).Abs(mo.c))
			}
			if g.Cmp(b1) > 0 {
				k := newLin()
				for _, mo := range t.mon {
					k.add(new(big.Int).Quo(mo.c, g), mo.t)
				}
				return c.MulC(c.Mod(c.build(k), new(big.Int).Quo(m, g)), g)
			}
		}
	case OMod:
		if isMult(t.c, m) {
			return c.Mod(t.args[0], m)
		}
	case OIte:
		if t.args[1].op == OConst || t.args[2].op == OConst {
			return c.Ite(t.args[0], c.Mod(t.args[1], m), c.Mod(t.args[2], m))
		}
	}
	hi := new(big.Int).Sub(m, b1)
	r := &Term{op: OMod, c: m, args: []*Term{t}, lo: b0, hi: hi}
	if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.Cmp(hi) < 0 {
		r.hi = t.hi
	}
	return c.mk(r)
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if a == b || g.op == OTrue {
		return a
	}
	if g.op == OFalse {
		return b
	}
	if a.isBool() {
		return c.Or(c.And(g, a), c.And(c.Not(g), b))
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == g {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OIte, args: []*Term{g, a, b}, lo: minB(a.lo, b.lo), hi: maxB(a.hi, b.hi)})
}

// booleans --------------------------------------------------------------------

func (c *Ctx) le0(t *Term) *Term { // t <= 0
	if t.op == OConst {
		return c.Bool(t.c.Sign() <= 0)
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return c.tt
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return c.ff
	}
	if r := c.iteRel(t, true); r != nil {
		return r
	}
	if t.op == OLin {
		g := new(big.Int)
		for _, m := range t.mon {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
		if g.Cmp(b1) > 0 {
			n := newLin()
			for _, m := range t.mon {
				n.add(new(big.Int).Quo(m.c, g), m.t)
			}
			// sum + c/g <= 0 with integers: sum <= floor(-c/g)
			n.c = new(big.Int).Neg(floorDiv(new(big.Int).Neg(t.c), g))
			return c.le0(c.build(n))
		}
	}
	return c.mk(&Term{op: OLe, args: []*Term{t}})
}

// iteRel distributes a relation over an Ite with a constant branch when it helps.
func (c *Ctx) iteRel(t *Term, le bool) *Term {
	if t.op != OIte && t.op != OLin {
		return nil
	}
	key := t.id * 2
	if le {
		key++
	}
	if r, ok := c.relMemo[key]; ok {
		return r
	}
	if c.relDepth >= 5 {
		return nil
	}
	c.relDepth++
	r := c.iteRel1(t, le)
	c.relDepth--
	if c.relDepth == 0 {
		c.relMemo[key] = r
	}
	return r
}

func (c *Ctx) iteRel1(t *Term, le bool) *Term {
	rel := func(x *Term) *Term {
		if le {
			return c.le0(x)
		}
		return c.eq0(x)
	}
	if t.op == OIte {
		x, y := rel(t.args[1]), rel(t.args[2])
		if x.op == OTrue || x.op == OFalse || y.op == OTrue || y.op == OFalse {
			return c.Or(c.And(t.args[0], x), c.And(c.Not(t.args[0]), y))
		}
		return nil
	}
	if t.op == OLin {
		for _, m := range t.mon {
			if m.t.op == OIte && (m.t.args[1].op == OConst || m.t.args[2].op == OConst) {
				l := newLin()
				l.add(b1, t)
				l.add(new(big.Int).Neg(m.c), m.t)
				rest := c.build(l)
				x := rel(c.Add(rest, c.MulC(m.t.args[1], m.c)))
				y := rel(c.Add(rest, c.MulC(m.t.args[2], m.c)))
				if x.op == OTrue || x.op == OFalse || y.op == OTrue || y.op == OFalse {
					return c.Or(c.And(m.t.args[0], x), c.And(c.Not(m.t.args[0]), y))
				}
			}
		}
	}
	return nil
}

func (c *Ctx) eq0(t *Term) *Term {
	if t.op == OConst {
		return c.Bool(t.c.Sign() == 0)
	}
	if t.hi != nil && t.hi.Sign() < 0 || t.lo != nil && t.lo.Sign() > 0 {
		return c.ff
	}
	if r := c.iteRel(t, false); r != nil {
		return r
	}
	if t.op == OLin {
		g := new(big.Int)
		for _, m := range t.mon {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
		if g.Cmp(b1) > 0 && !isMult(t.c, g) {
			return c.ff
		}
		neg := t.mon[0].c.Sign() < 0
		if g.Cmp(b1) > 0 || neg {
			if neg {
				g.Neg(g)
			}
			n := newLin()
			for _, m := range t.mon {
				n.add(new(big.Int).Quo(m.c, g), m.t)
			}
			n.c = new(big.Int).Quo(t.c, g)
			return c.eq0(c.build(n))
		}
	}
	return c.mk(&Term{op: OEq, args: []*Term{t}})
}

func (c *Ctx) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(c.AddI(c.Sub(a, b), 1)) }
func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tt
	}
	if a.isBool() {
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	return c.eq0(c.Sub(a, b))
}
func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.ff
	case OFalse:
		return c.tt
	case ONot:
		return a.args[0]
	case OLe:
		// a<=0 negated: a>=1  => 1-a<=0
		return c.le0(c.Sub(c.Int(1), a.args[0]))
	}
	return c.mk(&Term{op: ONot, args: []*Term{a}})
}
func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.tt, c.ff
	if op == OOr {
		unit, zero = c.ff, c.tt
	}
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || seen[t.id] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	// absorption for small: (a & b) | (a & !b) => a
	if op == OOr && len(out) == 2 && out[0].op == OAnd && out[1].op == OAnd && len(out[0].args) == 2 && len(out[1].args) == 2 {
		x, y := out[0].args, out[1].args
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if x[i] == y[j] && c.Not(x[1-i]) == y[1-j] {
					return x[i]
				}
			}
		}
	}
	return c.mk(&Term{op: op, args: out})
}

// substitution ------------------------------------------------------------------

func (c *Ctx) Subst(t, v, by *Term) *Term {
	memo := map[int]*Term{}
	return c.subst(t, v, by, memo)
}

func (c *Ctx) subst(t, v, by *Term, memo map[int]*Term) *Term {
	if t == v {
		return by
	}
	if t.id < v.id { // terms older than v cannot contain it
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	s := func(x *Term) *Term { return c.subst(x, v, by, memo) }
	switch t.op {
	case OConst, OVar, OTrue, OFalse, OBVar:
		r = t
	case OApp:
		r = c.App(t.base, s(t.args[0]))
	case OLin:
		l := newLin()
		l.c.Set(t.c)
		for _, m := range t.mon {
			l.add(m.c, s(m.t))
		}
		r = c.build(l)
	case OMul:
		r = c.Mul(s(t.args[0]), s(t.args[1]))
	case ODiv:
		r = c.Div(s(t.args[0]), t.c)
	case OMod:
		r = c.Mod(s(t.args[0]), t.c)
	case OIte:
		r = c.Ite(s(t.args[0]), s(t.args[1]), s(t.args[2]))
	case OUF:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = s(a)
		}
		n := *t
		n.args = as
		n.id = 0
		r = c.mk(&n)
	case OLe:
		r = c.le0(s(t.args[0]))
	case OEq:
		r = c.eq0(s(t.args[0]))
	case ONot:
		r = c.Not(s(t.args[0]))
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = s(a)
		}
		r = c.nary(t.op, as)
	}
	memo[t.id] = r
	return r
}

func (c *Ctx) kids(t *Term) []*Term {
	if t.op == OLin {
		r := make([]*Term, len(t.mon))
		for i, m := range t.mon {
			r[i] = m.t
		}
		return r
	}
	return t.args
}

// defined booleans ---------------------------------------------------------------

// Forall returns a boolean e with e <=> forall k. body(k) where body includes its guard.
func (c *Ctx) Forall(lo, hi *Term, body func(k *Term) *Term) *Term {
	return c.forallD(lo, hi, body, nil)
}

func (c *Ctx) forallD(lo, hi *Term, body func(k *Term) *Term, lenEq *Term) *Term {
	if lenEq == nil {
		lenEq = c.tt
	}
	d := c.Sub(hi, lo)
	if d.hi != nil && d.hi.Sign() <= 0 {
		return lenEq
	}
	// small constant range: expand
	if lo.op == OConst && d.hi != nil && d.hi.Cmp(bi(12)) <= 0 {
		n := int(d.hi.Int64())
		conj := []*Term{lenEq}
		for i := 0; i < n; i++ {
			k := c.AddI(lo, int64(i))
			conj = append(conj, c.Implies(c.Lt(k, hi), body(k)))
		}
		return c.And(conj...)
	}
	K := c.Fresh("K", nil, nil)
	guard := c.And(c.Le(lo, K), c.Lt(K, hi))
	bt := body(K)
	full := c.Implies(guard, bt)
	if full.op == OTrue {
		return lenEq
	}
	// definitions or fresh symbols created while building the body may depend on K:
	// then each instance is built by re-evaluating the body.
	dep := c.hasFreshAfter(full, K)
	e := c.defQ(K, full, lenEq, dep)
	if dep && c.defs[e.id].bodyFn == nil {
		d := c.defs[e.id]
		d.bodyFn = func(k *Term) *Term {
			return c.Implies(c.And(c.Le(lo, k), c.Lt(k, hi)), body(k))
		}
		d.neg = c.Or(c.Not(lenEq), c.Not(d.bodyFn(d.extraK[0])))
	}
	return e
}

func (c *Ctx) hasFreshAfter(t, K *Term) bool {
	seen := map[int]bool{}
	var f func(x *Term) bool
	f = func(x *Term) bool {
		if x.id <= K.id || seen[x.id] {
			return false
		}
		seen[x.id] = true
		if x.op == OVar || x.op == OBVar {
			return true
		}
		if x.op == OApp && x.base.after > K.id {
			return true
		}
		for _, a := range c.kids(x) {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (c *Ctx) defQ(K, full, lenEq *Term, dep bool) *Term {
	mk := ""
	if !dep {
		mk = fmt.Sprintf("fa%d|%d", c.canonK(K, full).id, lenEq.id)
		if v, ok := c.ufMemo[mk]; ok {
			return v.(*Term)
		}
	}
	e := c.FreshB("all")
	if !dep {
		c.ufMemo[mk] = e
	}
	w := c.Fresh("w", nil, nil)
	d := &BDef{e: e, K: K, body: full, insts: map[int]bool{}}
	d.pos = lenEq
	d.neg = c.Or(c.Not(lenEq), c.Not(c.Subst(full, K, w)))
	d.extraK = []*Term{w}
	c.analyse(d)
	c.defs[e.id] = d
	return e
}

// canonK replaces K by a canonical variable so equal quantified bodies are shared.
func (c *Ctx) canonK(K, full *Term) *Term {
	cv := c.Var("K!canon", nil, nil)
	memo := map[int]*Term{}
	return c.subst(full, K, cv, memo)
}

func (c *Ctx) analyse(d *BDef) {
	seen := map[int]bool{}
	var walk func(t *Term)
	tseen := map[string]bool{}
	kseen := map[int]bool{}
	walk = func(t *Term) {
		if seen[t.id] || t.id < d.K.id {
			return
		}
		seen[t.id] = true
		if t.op == OApp {
			if s, rest, ok := c.linIn(t.args[0], d.K); ok {
				k := fmt.Sprintf("%d|%d|%d", t.base.id, s, rest.id)
				if !tseen[k] {
					tseen[k] = true
					d.trig = append(d.trig, trigger{t.base, s, rest})
				}
			}
		}
		if t.op == OLe || t.op == OEq {
			if s, rest, ok := c.linIn(t.args[0], d.K); ok {
				// s*K+rest ~ 0  => K = -s*rest
				k := rest
				if s > 0 {
					k = c.Neg(rest)
				}
				cs := []*Term{k}
				if t.op == OLe {
					cs = append(cs, c.AddI(k, 1), c.AddI(k, -1))
				}
				for _, x := range cs {
					if !kseen[x.id] && len(d.extraK) < 40 {
						kseen[x.id] = true
						d.extraK = append(d.extraK, x)
					}
				}
			}
		}
		for _, a := range c.kids(t) {
			walk(a)
		}
	}
	walk(d.body)
}

// linIn: t = s*K + rest with s=+-1 and K not in rest.
func (c *Ctx) linIn(t, K *Term) (int, *Term, bool) {
	if t == K {
		return 1, c.Int(0), true
	}
	if t.op != OLin {
		return 0, nil, false
	}
	for _, m := range t.mon {
		if m.t == K {
			if m.c.CmpAbs(b1) != 0 {
				return 0, nil, false
			}
			l := newLin()
			l.add(b1, t)
			l.add(new(big.Int).Neg(m.c), K)
			r := c.build(l)
			if c.contains(r, K) {
				return 0, nil, false
			}
			return m.c.Sign(), r, true
		}
	}
	return 0, nil, false
}

func (c *Ctx) contains(t, v *Term) bool {
	seen := map[int]bool{}
	var f func(x *Term) bool
	f = func(x *Term) bool {
		if x == v {
			return true
		}
		if x.id < v.id || seen[x.id] {
			return false
		}
		seen[x.id] = true
		for _, a := range c.kids(x) {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// printing ---------------------------------------------------------------------

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	switch t.op {
	case OConst:
		return t.c.String()
	case OVar, OBVar:
		return t.name
	case OApp:
		return t.base.name + "[" + t.args[0].str(d+1) + "]"
	case OLin:
		var s []string
		for _, m := range t.mon {
			if m.c.Cmp(b1) == 0 {
				s = append(s, m.t.str(d+1))
			} else {
				s = append(s, m.c.String()+"*"+m.t.str(d+1))
			}
		}
		if t.c.Sign() != 0 {
			s = append(s, t.c.String())
		}
		return "(" + strings.Join(s, "+") + ")"
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OLe:
		return t.args[0].str(d+1) + "<=0"
	case OEq:
		return t.args[0].str(d+1) + "==0"
	case ONot:
		return "!(" + t.args[0].str(d+1) + ")"
	case ODiv:
		return "div(" + t.args[0].str(d+1) + "," + t.c.String() + ")"
	case OMod:
		return "mod(" + t.args[0].str(d+1) + "," + t.c.String() + ")"
	}
	nm := map[Op]string{OAnd: "and", OOr: "or", OIte: "ite", OMul: "mul", OUF: t.name}[t.op]
	var s []string
	for _, a := range t.args {
		s = append(s, a.str(d+1))
	}
	return nm + "(" + strings.Join(s, ", ") + ")"
}
