package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type PE struct {
	field int // >=0: struct field; -1: index
	idx   *Term
}

// Ptr is a concrete-shape pointer: object id plus access path. obj 0 is nil.
type Ptr struct {
	obj  int
	path []PE
}

type Slice struct {
	p             Ptr // pointer to the backing array (obj 0: nil slice)
	off, len, cap *Term
	grown         bool // capacity not known exactly (result of append)
}

type StructV struct{ f []Value }
type ArrV struct{ e []Value }
type BytesV struct {
	seq *Seq
	n   *Term
}

// RefArr is an array of symbolic length whose elements are described lazily.
type RefArr struct {
	n    *Term
	elem types.Type
	gen  func(x *Exec, st *State, i *Term) Value
	over []overE // explicit writes, latest last
}
type overE struct {
	i *Term
	v Value
}

type Iface struct {
	typ types.Type // nil: nil interface
	val Value
}
type Func struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
	nat   func(x *Exec, st *State, args []Value) []Out
}
type MapRef struct{ obj int }
type MapObj struct {
	keys, vals []Value
	havoc      bool // contents unknown
	// lazy: an arbitrary map; entries are decided when first looked up (seen: the keys looked up so far)
	lazy func(st *State, k Value) []Out
	seen []Value
}

func (m *MapObj) with(keys, vals []Value) *MapObj {
	return &MapObj{keys: keys, vals: vals, lazy: m.lazy, seen: m.seen}
}

// lazyResolve decides, by cases, whether an arbitrary map has the key.
func (x *Exec) lazyResolve(st *State, m MapRef, k Value) []*State {
	mo := st.heap[m.obj].(*MapObj)
	var done []*State
	for _, s := range mo.seen {
		e := x.equal(st, s, k)
		switch q := x.quick(st, e); {
		case e.op == OTrue || q > 0:
			return append(done, st)
		case e.op == OFalse || q < 0:
			continue
		}
		if x.feasible(st, e) {
			s2 := st.clone()
			x.assume(s2, e)
			done = append(done, s2)
		}
		if !x.feasible(st, x.c.Not(e)) {
			return done
		}
		x.assume(st, x.c.Not(e))
	}
	in := st.clone()
	for _, o := range mo.lazy(in, k) {
		n := mo.with(append(mo.keys[:len(mo.keys):len(mo.keys)], k), append(mo.vals[:len(mo.vals):len(mo.vals)], o.ret[0]))
		n.seen = append(mo.seen[:len(mo.seen):len(mo.seen)], k)
		o.st.heap[m.obj] = n
		done = append(done, o.st)
	}
	n := mo.with(mo.keys, mo.vals)
	n.seen = append(mo.seen[:len(mo.seen):len(mo.seen)], k)
	st.heap[m.obj] = n
	return append(done, st)
}

// isSeen: the key has been resolved on this path.
func (x *Exec) isSeen(st *State, mo *MapObj, k Value) bool {
	for _, s := range mo.seen {
		if e := x.equal(st, s, k); e.op == OTrue || x.quick(st, e) > 0 {
			return true
		}
	}
	return false
}

type Tuple []Value

// Opaque is a value nothing is known about except its identity.
type Opaque struct {
	typ types.Type
	id  string
}
type ChanRef struct{ obj int }
type ChanObj struct {
	cap    *Term
	buf    []Value
	closed bool
}
type IterV struct{ obj int }
type IterObj struct {
	keys, vals []Value
	pos        int
	str        *Str
	off        *Term
}

type Input struct {
	name string
	kind string // int, bool, str, bytes
	t    *Term
	s    Str
	n    int // concretised
}

type State struct {
	pc     []*Term
	pcset  map[int]bool
	bounds map[int][2]*big.Int
	heap   map[int]Value
	shared bool
	ghost  map[string]any
	inputs []Input
	covers map[string]bool
	steps  int
}

func (s *State) clone() *State {
	n := *s
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.inputs = s.inputs[:len(s.inputs):len(s.inputs)]
	n.heap = make(map[int]Value, len(s.heap)+8)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pcset = make(map[int]bool, len(s.pcset)+4)
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.bounds = make(map[int][2]*big.Int, len(s.bounds)+4)
	for k, v := range s.bounds {
		n.bounds[k] = v
	}
	n.ghost = make(map[string]any, len(s.ghost)+2)
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return &n
}

type unsup struct {
	msg string
}

func (x *Exec) unsupported(f string, a ...any) {
	panic(unsup{fmt.Sprintf(f, a...)})
}

func intInfo(t types.Type) (bits uint, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func rangeOf(bits uint, signed bool) (*big.Int, *big.Int) {
	if signed {
		h := pow2(bits - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, b1)
	}
	return b0, new(big.Int).Sub(pow2(bits), b1)
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func (x *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return x.c.StrConst("")
		case u.Info()&types.IsBoolean != 0:
			return x.c.ff
		case u.Info()&types.IsInteger != 0:
			return x.c.Int(0)
		case u.Info()&types.IsFloat != 0:
			return Opaque{t, "f0"}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		z := x.c.Int(0)
		return Slice{Ptr{}, z, z, z, false}
	case *types.Map:
		return MapRef{}
	case *types.Signature:
		return Func{}
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return ChanRef{}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return x.zeroArr(u.Elem(), int(u.Len()))
	case *types.Tuple:
		var tv Tuple
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(u.At(i).Type()))
		}
		return tv
	}
	x.unsupported("zero value of %s", t)
	return nil
}

func (x *Exec) zeroArr(elem types.Type, n int) Value {
	if isByteT(elem) {
		return &BytesV{x.c.SeqFill(x.c.Int(0)), x.c.Int(int64(n))}
	}
	if n > 70000 {
		x.unsupported("array of %d", n)
	}
	a := &ArrV{e: make([]Value, n)}
	z := x.zero(elem)
	for i := range a.e {
		a.e[i] = z
	}
	return a
}

func isRepoType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/hrygo/gosms")
	}
	return true
}

// havoc makes an arbitrary value of type t.
func (x *Exec) havoc(st *State, t types.Type, name string) Value {
	if n, ok := t.(*types.Named); ok && !isRepoType(n) {
		if _, isS := n.Underlying().(*types.Struct); isS {
			x.c.nfresh++
			return Opaque{t, fmt.Sprintf("%s!%d", name, x.c.nfresh)}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return x.freshStr(name, nil)
		}
		if u.Info()&types.IsBoolean != 0 {
			return x.c.FreshB(name)
		}
		if bits, sg, ok := intInfo(t); ok {
			lo, hi := rangeOf(bits, sg)
			return x.c.Fresh(name, lo, hi)
		}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = x.havoc(st, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return s
	case *types.Array:
		if isByteT(u.Elem()) {
			b := x.c.ByteBase(fmt.Sprintf("%s!%d", name, len(x.c.bases)))
			return &BytesV{x.c.SeqBase(b), x.c.Int(u.Len())}
		}
		a := &ArrV{}
		for i := 0; i < int(u.Len()); i++ {
			a.e = append(a.e, x.havoc(st, u.Elem(), fmt.Sprintf("%s[%d]", name, i)))
		}
		return a
	case *types.Slice:
		if isByteT(u.Elem()) {
			s := x.freshStr(name, nil)
			return x.bytesToSlice(st, s)
		}
	case *types.Tuple:
		var tv Tuple
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.havoc(st, u.At(i).Type(), fmt.Sprintf("%s#%d", name, i)))
		}
		return tv
	}
	x.c.nfresh++
	return Opaque{t, fmt.Sprintf("%s!%d", name, x.c.nfresh)}
}

var maxLen = pow2(40)

func (x *Exec) freshStr(name string, maxn *big.Int) Str {
	if maxn == nil {
		maxn = maxLen
	}
	x.c.nfresh++
	nm := fmt.Sprintf("%s!%d", name, x.c.nfresh)
	b := x.c.ByteBase(nm)
	return Str{x.c.SeqBase(b), x.c.Int(0), x.c.Var("len("+nm+")", b0, maxn)}
}

func (x *Exec) alloc(st *State, v Value) int {
	x.nobj++
	st.heap[x.nobj] = v
	return x.nobj
}

// bytesToSlice allocates a new byte array holding s.
func (x *Exec) bytesToSlice(st *State, s Str) Slice {
	seq, off := x.c.resolve(s.seq, s.off, s.n)
	var sq *Seq
	if off.isInt(0) {
		sq = seq
	} else {
		sq = x.c.SeqCopy(x.c.SeqFill(x.c.Int(0)), x.c.Int(0), seq, off, s.n)
	}
	o := x.alloc(st, &BytesV{sq, s.n})
	return Slice{Ptr{obj: o}, x.c.Int(0), s.n, s.n, false}
}

func (x *Exec) sliceStr(st *State, s Slice) Str {
	if s.p.obj == 0 {
		return x.c.StrConst("")
	}
	v := x.load(st, s.p)
	b, ok := v.(*BytesV)
	if !ok {
		x.unsupported("byte view of %T", v)
	}
	return x.res(st, Str{b.seq, s.off, s.len})
}

// res resolves a string to the data it stands for on this path.
func (x *Exec) res(st *State, s Str) Str {
	s.off, s.n = x.redT(st, s.off), x.redT(st, s.n)
	s.seq, s.off = x.c.resolveH(s.seq, s.off, s.n, func(t *Term) bool { return x.quick(st, t) == 1 })
	return s
}

// redT drops the conditionals of a term whose guard the path decides.
func (x *Exec) redT(st *State, t *Term) *Term {
	switch t.op {
	case OIte:
		switch x.quick(st, t.args[0]) {
		case 1:
			return x.redT(st, t.args[1])
		case -1:
			return x.redT(st, t.args[2])
		}
	case OLin:
		for _, m := range t.mon {
			if m.t.op == OIte && x.quick(st, m.t.args[0]) != 0 {
				r := x.c.Big(t.c)
				for _, m := range t.mon {
					r = x.c.Add(r, x.c.MulC(x.redT(st, m.t), m.c))
				}
				return r
			}
		}
	}
	return t
}

func (x *Exec) redV(st *State, v Value) Value {
	switch u := v.(type) {
	case *Term:
		return x.redT(st, u)
	case Str:
		return x.res(st, u)
	case Slice:
		u.off, u.len, u.cap = x.redT(st, u.off), x.redT(st, u.len), x.redT(st, u.cap)
		return u
	}
	return v
}

// load reads through a pointer.
func (x *Exec) load(st *State, p Ptr) Value {
	if p.obj == 0 {
		x.unsupported("load through nil")
	}
	v, ok := st.heap[p.obj]
	if !ok {
		v = x.globalInit(st, p.obj)
	}
	return x.redV(st, x.loadPath(st, v, p.path))
}

func (x *Exec) loadPath(st *State, v Value, path []PE) Value {
	for _, e := range path {
		switch u := v.(type) {
		case *StructV:
			v = u.f[e.field]
		case *ArrV:
			if !e.idx.isConst() {
				x.unsupported("symbolic index into array of %d elements", len(u.e))
			}
			i := int(e.idx.c.Int64())
			if i < 0 || i >= len(u.e) {
				x.unsupported("index %d out of array of %d", i, len(u.e))
			}
			v = u.e[i]
		case *BytesV:
			v = x.c.Read(u.seq, e.idx)
		case *RefArr:
			v = x.refRead(st, u, e.idx)
		case Opaque:
			v = Opaque{nil, u.id + fmt.Sprintf(".%d", e.field)}
		default:
			x.unsupported("load path into %T", v)
		}
	}
	return v
}

func (x *Exec) refRead(st *State, u *RefArr, i *Term) Value {
	for k := len(u.over) - 1; k >= 0; k-- {
		e := x.c.Eq(u.over[k].i, i)
		if e.op != OTrue && e.op != OFalse {
			if x.valid(st, e) {
				e = x.c.tt
			} else if x.valid(st, x.c.Not(e)) {
				e = x.c.ff
			}
		}
		if e.op == OTrue {
			return u.over[k].v
		}
		if e.op != OFalse {
			// undecided: merge when possible
			rest := *u
			rest.over = u.over[:k]
			other := x.refRead(st, &rest, i)
			m, ok := x.mergeVal(e, u.over[k].v, other)
			if !ok {
				x.unsupported("undecided element read")
			}
			return m
		}
	}
	return u.gen(x, st, i)
}

func (x *Exec) store(st *State, p Ptr, nv Value) {
	if p.obj == 0 {
		x.unsupported("store through nil")
	}
	v, ok := st.heap[p.obj]
	if !ok {
		v = x.globalInit(st, p.obj)
	}
	st.heap[p.obj] = x.storePath(v, p.path, nv)
}

func (x *Exec) storePath(v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	switch u := v.(type) {
	case *StructV:
		n := &StructV{f: append([]Value(nil), u.f...)}
		n.f[e.field] = x.storePath(u.f[e.field], path[1:], nv)
		return n
	case *ArrV:
		if !e.idx.isConst() {
			x.unsupported("symbolic index store")
		}
		i := int(e.idx.c.Int64())
		n := &ArrV{e: append([]Value(nil), u.e...)}
		n.e[i] = x.storePath(u.e[i], path[1:], nv)
		return n
	case *BytesV:
		return &BytesV{x.c.SeqStore(u.seq, e.idx, nv.(*Term)), u.n}
	case *RefArr:
		if len(path) > 1 {
			x.unsupported("nested store into symbolic array")
		}
		n := *u
		n.over = append(u.over[:len(u.over):len(u.over)], overE{e.idx, nv})
		return &n
	}
	x.unsupported("store path into %T", v)
	return nil
}

func samePath(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameVal(a, b Value) bool {
	switch u := a.(type) {
	case *ReflT:
		v, ok := b.(*ReflT)
		return ok && types.Identical(u.t, v.t)
	case *ReflV:
		return a == b
	case *Term:
		return a == b
	case Str:
		v, ok := b.(Str)
		return ok && u == v
	case Ptr:
		v, ok := b.(Ptr)
		return ok && u.obj == v.obj && samePath(u.path, v.path)
	case Slice:
		v, ok := b.(Slice)
		return ok && u.p.obj == v.p.obj && samePath(u.p.path, v.p.path) && u.off == v.off && u.len == v.len && u.cap == v.cap
	case *StructV:
		v, ok := b.(*StructV)
		if !ok || len(u.f) != len(v.f) {
			return false
		}
		if u == v {
			return true
		}
		for i := range u.f {
			if !sameVal(u.f[i], v.f[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		v, ok := b.(*ArrV)
		if !ok || len(u.e) != len(v.e) {
			return false
		}
		if u == v {
			return true
		}
		for i := range u.e {
			if !sameVal(u.e[i], v.e[i]) {
				return false
			}
		}
		return true
	case *BytesV:
		v, ok := b.(*BytesV)
		return ok && u.seq == v.seq && u.n == v.n
	case Iface:
		v, ok := b.(Iface)
		if !ok {
			return false
		}
		if u.typ == nil || v.typ == nil {
			return u.typ == nil && v.typ == nil
		}
		return types.Identical(u.typ, v.typ) && sameVal(u.val, v.val)
	case Func:
		v, ok := b.(Func)
		if !ok || u.fn != v.fn || u.bi != v.bi || len(u.binds) != len(v.binds) || (u.nat == nil) != (v.nat == nil) {
			return false
		}
		if u.nat != nil {
			return false
		}
		for i := range u.binds {
			if !sameVal(u.binds[i], v.binds[i]) {
				return false
			}
		}
		return true
	case MapRef:
		v, ok := b.(MapRef)
		return ok && u == v
	case *MapObj:
		v, ok := b.(*MapObj)
		if !ok {
			return false
		}
		if u == v {
			return true
		}
		if len(u.keys) != len(v.keys) || u.havoc != v.havoc || (u.lazy == nil) != (v.lazy == nil) || len(u.seen) != len(v.seen) {
			return false
		}
		for i := range u.seen {
			if !sameVal(u.seen[i], v.seen[i]) {
				return false
			}
		}
		for i := range u.keys {
			if !sameVal(u.keys[i], v.keys[i]) || !sameVal(u.vals[i], v.vals[i]) {
				return false
			}
		}
		return true
	case Tuple:
		v, ok := b.(Tuple)
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range u {
			if !sameVal(u[i], v[i]) {
				return false
			}
		}
		return true
	case Opaque:
		v, ok := b.(Opaque)
		return ok && u.id == v.id
	case ChanRef:
		v, ok := b.(ChanRef)
		return ok && u == v
	case nil:
		return b == nil
	default:
		return a == b
	}
}

// mergeVal builds ite(g,a,b) if the shapes allow it.
func (x *Exec) mergeVal(g *Term, a, b Value) (Value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch u := a.(type) {
	case *Term:
		v, ok := b.(*Term)
		if !ok {
			return nil, false
		}
		return x.c.Ite(g, u, v), true
	case Opaque:
		v, ok := b.(Opaque)
		if !ok || x.times[u.id] == nil || x.times[v.id] == nil {
			return nil, false
		}
		return x.timeVal(u.typ, x.c.Ite(g, x.times[u.id], x.times[v.id])), true
	case Str:
		v, ok := b.(Str)
		if !ok {
			return nil, false
		}
		// identical constants etc.
		if u.seq == v.seq && u.off == v.off {
			return Str{u.seq, u.off, x.c.Ite(g, u.n, v.n)}, true
		}
		ua, va := x.norm0(u), x.norm0(v)
		return Str{x.c.SeqIte(g, ua.seq, va.seq), x.c.Int(0), x.c.Ite(g, u.n, v.n)}, true
	case Slice:
		v, ok := b.(Slice)
		if !ok || u.p.obj != v.p.obj || !samePath(u.p.path, v.p.path) {
			return nil, false
		}
		return Slice{u.p, x.c.Ite(g, u.off, v.off), x.c.Ite(g, u.len, v.len), x.c.Ite(g, u.cap, v.cap), u.grown || v.grown}, true
	case *StructV:
		v, ok := b.(*StructV)
		if !ok || len(u.f) != len(v.f) {
			return nil, false
		}
		n := &StructV{f: make([]Value, len(u.f))}
		for i := range u.f {
			m, ok := x.mergeVal(g, u.f[i], v.f[i])
			if !ok {
				return nil, false
			}
			n.f[i] = m
		}
		return n, true
	case *ArrV:
		v, ok := b.(*ArrV)
		if !ok || len(u.e) != len(v.e) {
			return nil, false
		}
		n := &ArrV{e: make([]Value, len(u.e))}
		for i := range u.e {
			m, ok := x.mergeVal(g, u.e[i], v.e[i])
			if !ok {
				return nil, false
			}
			n.e[i] = m
		}
		return n, true
	case *BytesV:
		v, ok := b.(*BytesV)
		if !ok {
			return nil, false
		}
		return &BytesV{x.c.SeqIte(g, u.seq, v.seq), x.c.Ite(g, u.n, v.n)}, true
	case Tuple:
		v, ok := b.(Tuple)
		if !ok || len(u) != len(v) {
			return nil, false
		}
		n := make(Tuple, len(u))
		for i := range u {
			m, ok := x.mergeVal(g, u[i], v[i])
			if !ok {
				return nil, false
			}
			n[i] = m
		}
		return n, true
	case Iface:
		v, ok := b.(Iface)
		if !ok || u.typ == nil || v.typ == nil || !types.Identical(u.typ, v.typ) {
			return nil, false
		}
		m, ok := x.mergeVal(g, u.val, v.val)
		if !ok {
			return nil, false
		}
		return Iface{u.typ, m}, true
	}
	return nil, false
}

// norm0 rebases a string to offset 0.
func (x *Exec) norm0(s Str) Str {
	seq, off := x.c.resolve(s.seq, s.off, s.n)
	if off.isInt(0) {
		return Str{seq, off, s.n}
	}
	return Str{x.c.SeqCopy(x.c.SeqFill(x.c.Int(0)), x.c.Int(0), seq, off, s.n), x.c.Int(0), s.n}
}
