package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Native func(x *Exec, st *State, args []Value, fn *ssa.Function) []Out

// opaquePrefixes: functions assumed to have no effect on the program state and to return
// arbitrary values (logging).
var opaquePrefixes = []string{"github.com/hrygo/log.", "go.uber.org/zap", "github.com/hrygo/log"}

const zz = "github.com/hrygo/gosms/utils/zzv."

var natives map[string]Native

func strArg(x *Exec, v Value) string {
	s, ok := v.(Str)
	if !ok {
		x.unsupported("name must be a constant string")
	}
	n, ok := x.c.isConstStr(s)
	if !ok {
		x.unsupported("name must be a constant string")
	}
	return n
}

func (x *Exec) inName(st *State, n string) string {
	k := "in:" + n
	c := 0
	if v, ok := st.ghost[k]; ok {
		c = v.(int)
	}
	st.ghost[k] = c + 1
	if c == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, c)
}

func (x *Exec) inInt(st *State, name string, lo, hi *big.Int) *Term {
	name = x.inName(st, name)
	t := x.c.Var("in."+name, lo, hi)
	st.inputs = append(st.inputs, Input{name: name, kind: "int", t: t})
	return t
}

func (x *Exec) inStr(st *State, name, kind string, lo, hi *Term) Str {
	name = x.inName(st, name)
	k := "inbase:" + name
	var b *Base
	if v, ok := x.c.ufMemo[k]; ok {
		b = v.(*Base)
	} else {
		b = x.c.ByteBase("in." + name)
		x.c.ufMemo[k] = b
	}
	var n *Term
	if lo == hi {
		n = lo
	} else {
		n = x.c.Var("in.len("+name+")", lo.lo, hi.hi)
		x.assume(st, x.c.Le(lo, n))
		x.assume(st, x.c.Le(n, hi))
	}
	s := Str{x.c.SeqBase(b), x.c.Int(0), n}
	st.inputs = append(st.inputs, Input{name: name, kind: kind, s: s})
	return s
}

func (x *Exec) specFn(st *State, f Value, args ...Value) *Term {
	return x.evalPure(st, f, args)
}

func (x *Exec) mergedVal(st *State, outs []Out) (Value, bool) {
	return nil, false
}

func boolOr(c *Ctx, v Value) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	return c.FreshB("b")
}

func init() {
	natives = map[string]Native{}
	reflectNatives(natives)
	n := natives
	intIn := func(bits uint, sg bool) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			lo, hi := rangeOf(bits, sg)
			return single(st, x.inInt(st, strArg(x, a[0]), lo, hi))
		}
	}
	n[zz+"U8"] = intIn(8, false)
	n[zz+"U16"] = intIn(16, false)
	n[zz+"U32"] = intIn(32, false)
	n[zz+"U64"] = intIn(64, false)
	n[zz+"I64"] = intIn(64, true)
	n[zz+"I32"] = intIn(32, true)
	n[zz+"Int"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		lo, hi := a[1].(*Term), a[2].(*Term)
		t := x.inInt(st, strArg(x, a[0]), lo.lo, hi.hi)
		x.assume(st, x.c.Le(lo, t))
		x.assume(st, x.c.Le(t, hi))
		return single(st, t)
	}
	n[zz+"Bool"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		name := x.inName(st, strArg(x, a[0]))
		t := x.c.BVar("in." + name)
		st.inputs = append(st.inputs, Input{name: name, kind: "bool", t: t})
		return single(st, t)
	}
	n[zz+"Enum"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		lo, hi := a[1].(*Term), a[2].(*Term)
		if !lo.isConst() || !hi.isConst() {
			x.unsupported("Enum bounds must be constant")
		}
		name := x.inName(st, strArg(x, a[0]))
		var outs []Out
		l, h := lo.c.Int64(), hi.c.Int64()
		sp := x.split[1] > 1 && !x.splitUsed
		if sp {
			x.splitUsed = true
		}
		for k := l; k <= h; k++ {
			if sp && int(k-l)%x.split[1] != x.split[0] {
				continue
			}
			s := st.clone()
			s.inputs = append(s.inputs, Input{name: name, kind: "int", t: x.c.Int(k)})
			s.ghost["enum:"+name] = k
			outs = append(outs, Out{s, []Value{x.c.Int(k)}})
		}
		return outs
	}
	// Fork continues separately (never merged again) with the condition true and false.
	n[zz+"Fork"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		var outs []Out
		t := a[0].(*Term)
		x.c.nfresh++
		key := fmt.Sprintf("fork!%d", x.c.nfresh)
		for _, b := range []bool{true, false} {
			g := t
			if !b {
				g = x.c.Not(t)
			}
			if g.op == OFalse || !x.feasible(st, g) {
				continue
			}
			s := st.clone()
			x.assume(s, g)
			s.ghost[key] = b
			outs = append(outs, Out{s, []Value{x.c.Bool(b)}})
		}
		return outs
	}
	n[zz+"Str"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.inStr(st, strArg(x, a[0]), "str", a[1].(*Term), a[2].(*Term)))
	}
	// CStr: no NUL bytes
	n[zz+"CStr"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := x.inStr(st, strArg(x, a[0]), "str", a[1].(*Term), a[2].(*Term))
		b := s.seq.base
		if len(b.facts) == 0 {
			b.facts = append(b.facts, func(c *Ctx, idx *Term) *Term {
				return c.Implies(c.And(c.Le(c.Int(0), idx), c.Lt(idx, s.n)), c.Le(c.Int(1), c.App(b, idx)))
			})
		}
		return single(st, s)
	}
	// Digits: decimal digits only
	rangeStr := func(lo, hi int64) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			s := x.inStr(st, strArg(x, a[0]), "str", a[1].(*Term), a[2].(*Term))
			b := s.seq.base
			if len(b.facts) == 0 {
				b.facts = append(b.facts, func(c *Ctx, idx *Term) *Term {
					v := c.App(b, idx)
					return c.Implies(c.And(c.Le(c.Int(0), idx), c.Lt(idx, s.n)), c.And(c.Le(c.Int(lo), v), c.Le(v, c.Int(hi))))
				})
			}
			return single(st, s)
		}
	}
	n[zz+"Digits"] = rangeStr('0', '9')
	n[zz+"ASCII"] = rangeStr(1, 127)
	n[zz+"Bytes"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := x.inStr(st, strArg(x, a[0]), "bytes", a[1].(*Term), a[2].(*Term))
		return single(st, x.bytesToSlice(st, s))
	}
	n[zz+"Requires"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		c := a[0].(*Term)
		if !x.feasible(st, c) {
			return nil
		}
		x.assume(st, c)
		return single(st)
	}
	n[zz+"Assume"] = n[zz+"Requires"]
	n[zz+"Ensures"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		lbl := strArg(x, a[0])
		x.reach(st, lbl)
		x.prove(st, "ensures", lbl, a[1].(*Term))
		return single(st)
	}
	n[zz+"Pre"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		lbl := strArg(x, a[0])
		caller := ""
		if len(x.callStack) >= 2 {
			caller = " at call from " + shortFn(x.callStack[len(x.callStack)-2])
		}
		x.prove(st, "requires", lbl+caller, a[1].(*Term))
		return single(st)
	}
	n[zz+"Cover"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		lbl := strArg(x, a[0])
		if !x.covers[lbl] {
			r, _ := x.sol.Check(st.pc, 2, 5000, nil)
			if r != Unsat {
				x.covers[lbl] = true
			}
		}
		return single(st)
	}
	n[zz+"Forall"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		lo, hi := a[0].(*Term), a[1].(*Term)
		s0 := st.clone()
		f := a[2]
		return single(st, x.c.Forall(lo, hi, func(k *Term) *Term {
			s := s0.clone()
			if k.op != OConst {
				x.assume(s, x.c.Le(lo, k))
				x.assume(s, x.c.Lt(k, hi))
			}
			x.specDepth++
			defer func() { x.specDepth-- }()
			return x.evalPure(s, f, []Value{k})
		}))
	}
	n[zz+"EqBytes"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.StrEq(x.sliceStr(st, a[0].(Slice)), x.sliceStr(st, a[1].(Slice))))
	}
	// FirstNul(b) = index of first zero byte or len(b); a spec function
	n[zz+"Trim"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := x.sliceStr(st, a[0].(Slice))
		r := x.indexByte(st, s, x.c.Int(0))
		l := x.c.Ite(x.c.Eq(r, x.c.Int(-1)), s.n, r)
		return single(st, Str{s.seq, s.off, l})
	}
	n[zz+"Md5"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := x.sliceStr(st, a[0].(Slice))
		o := x.md5(s)
		return single(st, Str{o.seq, o.off, o.n})
	}
	n[zz+"Ucs2"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.transcode("enc(utf16:false:0)", x.res(st, a[0].(Str))))
	}
	n[zz+"FromUcs2"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.transcode("dec(utf16:false:0)", x.res(st, a[0].(Str))))
	}
	n[zz+"GB"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.transcode("enc(golang.org/x/text/encoding/simplifiedchinese.GB18030)", x.res(st, a[0].(Str))))
	}
	n[zz+"FromGB"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.transcode("dec(golang.org/x/text/encoding/simplifiedchinese.GB18030)", x.res(st, a[0].(Str))))
	}
	n[zz+"GBBack"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.gbBack(a[0].(Str)))
	}
	n[zz+"ValidUTF8"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.validUTF8(a[0].(Str)))
	}
	n[zz+"IsASCII"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.isASCII(a[0].(Str)))
	}
	n[zz+"Symbolic"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.tt)
	}
	n[zz+"Loop"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		ord := a[1].(*Term).c.Int64()
		li := &LoopInv{fn: strArg(x, a[0]), ord: int(ord)}
		if f := a[2].(Func); f.fn != nil {
			li.havoc = f
		}
		if f := a[3].(Func); f.fn != nil {
			li.inv = f
		}
		x.loopInvs = append(x.loopInvs, li)
		return single(st)
	}
	n[zz+"Guarded"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		p := a[0].(Iface).val.(Ptr)
		g := &Guard{key: x.lockKey(p), havoc: a[1], inv: a[2]}
		st.ghost["guards"] = &guardSet{append(guards(st), g)}
		return single(st)
	}
	n[zz+"Protect"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		p, mu := a[0].(Iface).val.(Ptr), a[1].(Iface).val.(Ptr)
		x.protects = true
		st.ghost["protect"] = &protectSet{append(protects(st), protected{p, "lock:" + x.lockKey(mu)})}
		return single(st)
	}
	n[zz+"LockHeld"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		p := a[0].(Iface).val.(Ptr)
		return single(st, x.c.Bool(st.ghost["lock:"+x.lockKey(p)] == "w"))
	}
	n[zz+"RunGo"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return x.runGo(st)
	}
	n[zz+"PendingGo"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		k := 0
		if v, ok := st.ghost["ngo"]; ok {
			k = v.(int)
		}
		if v, ok := st.ghost["rango"]; ok {
			k -= v.(int)
		}
		return single(st, x.c.Int(int64(k)))
	}
	n[zz+"DropGo"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		st.ghost["rango"] = st.ghost["ngo"]
		if st.ghost["ngo"] == nil {
			st.ghost["rango"] = 0
		}
		return single(st)
	}
	n[zz+"Stub"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		x.stubs[strArg(x, a[0])] = a[1].(Iface).val
		return single(st)
	}
	n[zz+"HavocU8"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.Fresh("h."+strArg(x, a[0]), b0, bi(255)))
	}
	havocI := func(bits uint, sg bool) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			lo, hi := rangeOf(bits, sg)
			return single(st, x.c.Fresh("h."+strArg(x, a[0]), lo, hi))
		}
	}
	n[zz+"HavocInt"] = havocI(64, true)
	n[zz+"HavocI32"] = havocI(32, true)
	n[zz+"HavocU32"] = havocI(32, false)
	n[zz+"HavocU64"] = havocI(64, false)
	n[zz+"HavocBool"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.FreshB("h."+strArg(x, a[0])))
	}
	n[zz+"HavocBytes"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := x.freshStr("h."+strArg(x, a[0]), nil)
		return single(st, x.bytesToSlice(st, s))
	}
	n[zz+"HavocStr"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.freshStr("h."+strArg(x, a[0]), nil))
	}
	n[zz+"Sync"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out { return single(st) }

	// ---------------------------------------------------------------- bytes / strings
	ib := func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		var s Str
		switch v := a[0].(type) {
		case Str:
			s = v
		case Slice:
			s = x.sliceStr(st, v)
		}
		return single(st, x.indexByte(st, s, a[1].(*Term)))
	}
	n["bytes.IndexByte"] = ib
	n["strings.IndexByte"] = ib
	n["internal/bytealg.IndexByte"] = ib
	n["internal/bytealg.IndexByteString"] = ib
	n["internal/stringslite.IndexByte"] = ib
	lib := func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		var s Str
		switch v := a[0].(type) {
		case Str:
			s = v
		case Slice:
			s = x.sliceStr(st, v)
		}
		return single(st, x.c.AddI(x.tailFrom(s, a[1].(*Term), false), -1))
	}
	n["internal/bytealg.LastIndexByte"] = lib
	n["internal/bytealg.LastIndexByteString"] = lib
	n["bytes.trimRightByte"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		b := a[0].(Slice)
		if b.p.obj == 0 {
			return single(st, b)
		}
		return single(st, Slice{b.p, b.off, x.tailFrom(x.sliceStr(st, b), a[1].(*Term), true), b.cap, b.grown})
	}
	n["strings.trimRightByte"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := a[0].(Str)
		return single(st, x.c.SubStr(s, x.c.Int(0), x.tailFrom(s, a[1].(*Term), true)))
	}
	n["bytes.Equal"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.StrEq(x.sliceStr(st, a[0].(Slice)), x.sliceStr(st, a[1].(Slice))))
	}
	n["strings.Join"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		sl, ok := a[0].(Slice)
		if ok {
			if sl.p.obj == 0 {
				return single(st, x.c.StrConst(""))
			}
			if k, ok := x.unique(st, sl.len); ok {
				if arr, ok := x.load(st, sl.p).(*ArrV); ok && sl.off.isConst() {
					var ps []Str
					o := sl.off.c.Int64()
					for i := int64(0); i < k.Int64(); i++ {
						if i > 0 {
							ps = append(ps, a[1].(Str))
						}
						ps = append(ps, arr.e[o+i].(Str))
					}
					return single(st, x.c.StrCat(ps...))
				}
			}
		}
		return single(st, x.freshStr("join", nil))
	}
	n["strings.Repeat"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s, k := a[0].(Str), a[1].(*Term)
		x.safe(st, "strings.Repeat: negative count", x.c.Le(x.c.Int(0), k))
		if cs, ok := x.c.isConstStr(s); ok && len(cs) == 1 {
			return single(st, Str{x.c.SeqFill(x.c.Int(int64(cs[0]))), x.c.Int(0), k})
		}
		return single(st, x.freshStr("repeat", nil))
	}
	n["internal/bytealg.MakeNoZero"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		k := a[0].(*Term)
		return single(st, x.bytesToSlice(st, Str{x.c.SeqFill(x.c.Int(0)), x.c.Int(0), k}))
	}
	n["(*strings.Builder).Grow"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out { return single(st) }
	sbAppend := func(get func(x *Exec, st *State, v Value) Str) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			p := a[0].(Ptr)
			bp := Ptr{p.obj, append(p.path[:len(p.path):len(p.path)], PE{field: 1})}
			sl := x.load(st, bp).(Slice)
			s := get(x, st, a[1])
			cat := x.norm0(x.c.StrCat(x.sliceStr(st, sl), s))
			x.store(st, bp, x.bytesToSlice(st, cat))
			switch fn.Signature.Results().Len() {
			case 1:
				return single(st, Iface{})
			case 2:
				return single(st, s.n, Iface{})
			}
			return single(st)
		}
	}
	n["(*strings.Builder).WriteString"] = sbAppend(func(x *Exec, st *State, v Value) Str { return v.(Str) })
	n["(*strings.Builder).Write"] = sbAppend(func(x *Exec, st *State, v Value) Str { return x.sliceStr(st, v.(Slice)) })
	n["(*strings.Builder).WriteByte"] = sbAppend(func(x *Exec, st *State, v Value) Str {
		return Str{x.c.SeqFill(v.(*Term)), x.c.Int(0), x.c.Int(1)}
	})
	// bytes.Buffer writes: contents are unread part + new bytes (capacity management is not modelled)
	bbAppend := func(get func(x *Exec, st *State, v Value) Str) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			p := a[0].(Ptr)
			if p.obj == 0 {
				x.safe(st, "nil dereference", x.c.ff)
				return nil
			}
			fp := func(i int) Ptr { return Ptr{p.obj, append(p.path[:len(p.path):len(p.path)], PE{field: i})} }
			sl := x.load(st, fp(0)).(Slice)
			off := x.load(st, fp(1)).(*Term)
			s := get(x, st, a[1])
			old := x.sliceStr(st, sl)
			cat := x.norm0(x.c.StrCat(x.c.SubStr(old, off, old.n), s))
			x.store(st, fp(0), x.bytesToSlice(st, cat))
			x.store(st, fp(1), x.c.Int(0))
			x.store(st, fp(2), x.c.Int(0))
			if fn.Signature.Results().Len() == 1 {
				return single(st, Iface{})
			}
			return single(st, s.n, Iface{})
		}
	}
	n["(*bytes.Buffer).WriteString"] = bbAppend(func(x *Exec, st *State, v Value) Str { return v.(Str) })
	n["(*bytes.Buffer).Write"] = bbAppend(func(x *Exec, st *State, v Value) Str { return x.sliceStr(st, v.(Slice)) })
	n["(*bytes.Buffer).WriteByte"] = bbAppend(func(x *Exec, st *State, v Value) Str {
		return Str{x.c.SeqFill(v.(*Term)), x.c.Int(0), x.c.Int(1)}
	})
	n["(*bytes.Buffer).Grow"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out { return single(st) }
	n["(*strings.Builder).String"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		p := a[0].(Ptr)
		return single(st, x.sliceStr(st, x.load(st, Ptr{p.obj, append(p.path[:len(p.path):len(p.path)], PE{field: 1})}).(Slice)))
	}
	n["(*strings.Builder).Len"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		p := a[0].(Ptr)
		return single(st, x.load(st, Ptr{p.obj, append(p.path[:len(p.path):len(p.path)], PE{field: 1})}).(Slice).len)
	}
	n["strings.ToLower"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := a[0].(Str)
		if cs, ok := x.c.isConstStr(s); ok {
			return single(st, x.c.StrConst(strings.ToLower(cs)))
		}
		return single(st, x.caseMap("ToLower", 'A', 'Z', 32, s))
	}
	n["strings.ToUpper"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := a[0].(Str)
		if cs, ok := x.c.isConstStr(s); ok {
			return single(st, x.c.StrConst(strings.ToUpper(cs)))
		}
		return single(st, x.caseMap("ToUpper", 'a', 'z', -32, s))
	}
	n["strings.EqualFold"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := x.c.FreshB("equalfold")
		x.c.defs[r.id] = &BDef{e: r, neg: x.c.Not(x.c.StrEq(a[0].(Str), a[1].(Str)))}
		return single(st, r)
	}
	strFresh := func(name string) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			return single(st, x.freshStr(name, nil))
		}
	}
	n["strings.ReplaceAll"] = strFresh("replaceall")
	n["strings.TrimSpace"] = strFresh("trimspace")
	n["encoding/hex.EncodeToString"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.hexEnc(x.sliceStr(st, a[0].(Slice))))
	}
	n["unicode/utf8.ValidString"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.validUTF8(a[0].(Str)))
	}
	n["unicode/utf8.Valid"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.validUTF8(x.sliceStr(st, a[0].(Slice))))
	}
	n["unicode/utf8.RuneCountInString"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.runeCount(a[0].(Str)))
	}
	n["strconv.Atoi"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return x.atoi(st, a[0].(Str))
	}
	n["strconv.Itoa"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.decStr(a[0].(*Term)))
	}
	n["strconv.FormatUint"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.fmtInt(a[0].(*Term), a[1].(*Term)))
	}
	n["strconv.FormatInt"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		t, b := a[0].(*Term), a[1].(*Term)
		t = x.redT(st, t)
		if !b.isInt(10) || t.isConst() || t.lo == nil || t.lo.Sign() < 0 || t.hi == nil || t.hi.Cmp(bi(9999999)) > 0 {
			return single(st, x.fmtInt(t, b))
		}
		// a small number: exact, one case per number of digits
		var res []Out
		lo := int64(0)
		for w, p := 1, int64(10); ; w, p = w+1, p*10 {
			g := x.c.And(x.c.Le(x.c.Int(lo), t), x.c.Lt(t, x.c.Int(p)))
			if x.feasible(st, g) {
				s := st.clone()
				x.assume(s, g)
				res = append(res, Out{s, []Value{x.padDec(t, w, 10, "0123456789")}})
			}
			lo = p
			if t.hi.Cmp(bi(p)) < 0 {
				return res
			}
		}
	}

	// ---------------------------------------------------------------- fmt, errors
	n["fmt.Sprintf"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.sprintf(st, a[0].(Str), a[1]))
	}
	n["fmt.Sprint"] = strFresh("sprint")
	n["fmt.Sprintln"] = strFresh("sprintln")
	n["fmt.Errorf"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.newErr(st, "errorf"))
	}
	n["errors.Is"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.equal(st, a[0], a[1]))
	}
	noop := func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.havocResults(st, fn.Signature, fn.Name())...)
	}
	n["fmt.Printf"] = noop
	n["fmt.Println"] = noop
	n["fmt.Print"] = noop
	n["fmt.Fprintf"] = noop
	n["runtime.Gosched"] = noop
	n["math/rand.Seed"] = noop

	// ---------------------------------------------------------------- time
	n["time.Now"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		x.c.nfresh++
		return single(st, x.timeVal(fn.Signature.Results().At(0).Type(), x.c.Var(fmt.Sprintf("now!%d", x.c.nfresh), b0, new(big.Int).Sub(pow2(62), b1))))
	}
	n["time.Sleep"] = noop
	timeT := func(fn *ssa.Function) types.Type { return fn.Signature.Results().At(0).Type() }
	bi64 := func(c *Ctx, t *Term) *Term { // saturates like time.Time.Sub
		lo, hi := rangeOf(64, true)
		if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
			return t
		}
		return c.Ite(c.Lt(t, c.Big(lo)), c.Big(lo), c.Ite(c.Lt(c.Big(hi), t), c.Big(hi), t))
	}
	now := func(x *Exec, st *State, fn *ssa.Function) []Out {
		if f, ok := x.stubs["time.Now"]; ok {
			return x.callFunc(st, f.(Func), nil, 1)
		}
		return natives["time.Now"](x, st, nil, fn.Pkg.Func("Now"))
	}
	n["time.Since"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		o := now(x, st, fn)
		for i := range o {
			o[i].ret = []Value{bi64(x.c, x.c.Sub(x.nano(o[i].ret[0]), x.nano(a[0])))}
		}
		return o
	}
	n["time.Until"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		o := now(x, st, fn)
		for i := range o {
			o[i].ret = []Value{bi64(x.c, x.c.Sub(x.nano(a[0]), x.nano(o[i].ret[0])))}
		}
		return o
	}
	n["time.Unix"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.timeVal(timeT(fn), x.c.Add(x.c.MulC(a[0].(*Term), bi(1000000000)), a[1].(*Term))))
	}
	n["time.UnixMilli"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.timeVal(timeT(fn), x.c.MulC(a[0].(*Term), bi(1000000))))
	}
	n["time.LoadLocation"] = noop
	n["time.Date"] = noop
	unix := func(unit int64) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			return single(st, x.c.Div(x.nano(a[0]), bi(unit)))
		}
	}
	n["(time.Time).UnixNano"] = unix(1)
	n["(time.Time).UnixMicro"] = unix(1000)
	n["(time.Time).UnixMilli"] = unix(1000000)
	n["(time.Time).Unix"] = unix(1000000000)
	comp := func(name string) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			return single(st, x.timeComp(x.nano(a[0]), name))
		}
	}
	for name := range timeComps {
		n["(time.Time)."+name] = comp(name)
	}
	n["(time.Time).Add"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.timeVal(timeT(fn), x.c.Add(x.nano(a[0]), a[1].(*Term))))
	}
	other := func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		k := "time:" + fn.Name()
		for _, v := range a {
			if t, ok := v.(*Term); ok {
				k += fmt.Sprintf(",%d", t.id)
			} else {
				k += fmt.Sprintf(",%d", x.nano(v).id)
			}
		}
		return single(st, x.timeVal(timeT(fn), x.c.Var(k, new(big.Int).Neg(pow2(63)), pow2(63))))
	}
	n["(time.Time).AddDate"] = other
	n["(time.Time).Truncate"] = other
	n["(time.Time).Round"] = other
	n["(time.Time).Local"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out { return single(st, a[0]) }
	n["(time.Time).UTC"] = n["(time.Time).Local"]
	n["(time.Time).Location"] = noop
	n["(time.Time).In"] = n["(time.Time).Local"]
	n["(time.Time).Before"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.Lt(x.nano(a[0]), x.nano(a[1])))
	}
	n["(time.Time).After"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.Lt(x.nano(a[1]), x.nano(a[0])))
	}
	n["(time.Time).Equal"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.Eq(x.nano(a[0]), x.nano(a[1])))
	}
	n["(time.Time).IsZero"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.Eq(x.nano(a[0]), x.nano(nil)))
	}
	n["(time.Time).Sub"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, bi64(x.c, x.c.Sub(x.nano(a[0]), x.nano(a[1]))))
	}
	n["(time.Time).Format"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		lay, ok := x.c.isConstStr(a[1].(Str))
		if !ok {
			return single(st, x.freshStr("timefmt", bi(64)))
		}
		return single(st, x.timeFormat(x.nano(a[0]), lay))
	}
	n["(time.Duration).String"] = strFresh("duration")
	n["(time.Duration).Seconds"] = noop
	n["(time.Duration).Milliseconds"] = noop
	n["(time.Duration).Microseconds"] = noop

	// ---------------------------------------------------------------- sync
	lock := func(mode string) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			k := x.lockKey(a[0].(Ptr))
			cur, _ := st.ghost["lock:"+k].(string)
			x.safe(st, "lock not already held by this goroutine", x.c.Bool(cur == "" || (cur == "r" && mode == "r")))
			st.ghost["lock:"+k] = mode
			for _, g := range guards(st) {
				if g.key == k {
					outs := x.callFunc(st, g.havoc.(Func), nil, 1)
					if len(outs) != 1 {
						x.unsupported("guard havoc forks")
					}
					*st = *outs[0].st
					if f, ok := g.inv.(Func); ok && f.fn != nil {
						x.assume(st, x.evalPure(st, f, nil))
					}
				}
			}
			return single(st)
		}
	}
	unlock := func(mode string) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			k := x.lockKey(a[0].(Ptr))
			cur, _ := st.ghost["lock:"+k].(string)
			x.safe(st, "unlock of a held lock", x.c.Bool(cur == mode))
			for _, g := range guards(st) {
				if g.key == k {
					if f, ok := g.inv.(Func); ok && f.fn != nil && cur == "w" {
						x.prove(st, "invariant", "monitor invariant holds when the lock is released in "+x.callerName(), x.evalPure(st, f, nil))
					}
				}
			}
			delete(st.ghost, "lock:"+k)
			return single(st)
		}
	}
	n["(*sync.Mutex).Lock"] = lock("w")
	n["(*sync.Mutex).Unlock"] = unlock("w")
	n["(*sync.RWMutex).Lock"] = lock("w")
	n["(*sync.RWMutex).Unlock"] = unlock("w")
	n["(*sync.RWMutex).RLock"] = lock("r")
	n["(*sync.RWMutex).RUnlock"] = unlock("r")
	n["(sync.Locker).Lock"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		x.unsupported("Locker")
		return nil
	}
	n["(*sync.WaitGroup).Add"] = noop
	n["(*sync.WaitGroup).Done"] = noop
	n["(*sync.WaitGroup).Wait"] = noop
	n["(*sync.Once).Do"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		k := "once:" + x.lockKey(a[0].(Ptr))
		if st.ghost[k] != nil {
			return single(st)
		}
		st.ghost[k] = true
		return x.callFunc(st, a[1].(Func), nil, 1)
	}
	// sync.Map: a map of interface values
	smKey := func(x *Exec, st *State, p Ptr) MapRef {
		k := "smap:" + x.lockKey(p)
		if o, ok := st.ghost[k]; ok {
			return MapRef{o.(int)}
		}
		o := x.alloc(st, &MapObj{})
		st.ghost[k] = o
		return MapRef{o}
	}
	anyMap := types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil))
	n["(*sync.Map).Store"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		m := smKey(x, st, a[0].(Ptr))
		if o := x.mapUpdate(st, m, a[1], a[2]); o != nil {
			return o
		}
		return single(st)
	}
	n["(*sync.Map).Load"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		m := smKey(x, st, a[0].(Ptr))
		return x.mapLookup(st, m, a[1], anyMap, true)
	}
	n["(*sync.Map).LoadOrStore"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		m := smKey(x, st, a[0].(Ptr))
		var res []Out
		for _, o := range x.mapLookup(st, m, a[1], anyMap, true) {
			t := o.ret[0].(Tuple)
			q := x.quick(o.st, t[1].(*Term))
			if q > 0 {
				res = append(res, Out{o.st, []Value{t[0], x.c.tt}})
				continue
			}
			if q == 0 {
				if x.feasible(o.st, t[1].(*Term)) {
					s := o.st.clone()
					x.assume(s, t[1].(*Term))
					res = append(res, Out{s, []Value{t[0], x.c.tt}})
				}
				if !x.feasible(o.st, x.c.Not(t[1].(*Term))) {
					continue
				}
				x.assume(o.st, x.c.Not(t[1].(*Term)))
			}
			us := x.mapUpdate(o.st, m, a[1], a[2])
			if us == nil {
				res = append(res, Out{o.st, []Value{a[2], x.c.ff}})
			}
			for _, u := range us {
				res = append(res, Out{u.st, []Value{a[2], x.c.ff}})
			}
		}
		return res
	}
	n["(*sync.Map).Delete"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		m := smKey(x, st, a[0].(Ptr))
		var res []Out
		for _, s := range x.mapDelete(st, m, a[1]) {
			res = append(res, Out{s, nil})
		}
		return res
	}
	n["(*sync.Map).LoadAndDelete"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		m := smKey(x, st, a[0].(Ptr))
		var res []Out
		for _, o := range x.mapLookup(st, m, a[1], anyMap, true) {
			for _, s := range x.mapDelete(o.st, m, a[1]) {
				t := o.ret[0].(Tuple)
				res = append(res, Out{s, []Value{t[0], t[1]}})
			}
		}
		return res
	}
	lazy := func(x *Exec, mk Func, keyT types.Type, elem types.Type) *MapObj {
		return &MapObj{lazy: func(st *State, k Value) []Out {
			if keyT != nil && !types.IsInterface(keyT) {
				k = Iface{keyT, k}
			}
			outs := x.callFunc(st, mk, []Value{k}, 1)
			for i := range outs {
				if v, ok := outs[i].ret[0].(Iface); ok && elem != nil && !types.IsInterface(elem) {
					outs[i].ret = []Value{v.val}
				}
			}
			return outs
		}}
	}
	n[zz+"LazySyncMap"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		m := smKey(x, st, a[0].(Ptr))
		st.heap[m.obj] = lazy(x, a[1].(Func), nil, nil)
		return single(st)
	}
	n[zz+"LazyMap"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		i := a[0].(Iface)
		mt := i.typ.Underlying().(*types.Map)
		st.heap[i.val.(MapRef).obj] = lazy(x, a[1].(Func), mt.Key(), mt.Elem())
		return single(st)
	}
	n["(*sync.Map).Range"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		m := smKey(x, st, a[0].(Ptr))
		mo := st.heap[m.obj].(*MapObj)
		if mo.lazy != nil {
			x.unsupported("range over an arbitrary map")
		}
		cur := []*State{st}
		var done []*State
		for i := range mo.keys {
			var next []*State
			for _, s := range cur {
				for _, o := range x.callFunc(s, a[1].(Func), []Value{mo.keys[i], mo.vals[i]}, 1) {
					t := o.ret[0].(*Term)
					switch q := x.quick(o.st, t); {
					case q > 0:
						next = append(next, o.st)
					case q < 0:
						done = append(done, o.st)
					default:
						s2 := o.st.clone()
						x.assume(s2, x.c.Not(t))
						done = append(done, s2)
						x.assume(o.st, t)
						next = append(next, o.st)
					}
				}
			}
			cur = next
		}
		var outs []Out
		for _, s := range append(done, cur...) {
			outs = append(outs, Out{s, nil})
		}
		return outs
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		bits := uint(32)
		if strings.HasSuffix(ty, "64") {
			bits = 64
		}
		sg := strings.HasPrefix(ty, "Int")
		fp := func(p Ptr) Ptr { return p }
		n["sync/atomic.Add"+ty] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			p := fp(a[0].(Ptr))
			v := x.wrap(st, x.c.Add(x.load(st, p).(*Term), a[1].(*Term)), bits, sg)
			x.store(st, p, v)
			return single(st, v)
		}
		n["sync/atomic.Load"+ty] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			return single(st, x.load(st, a[0].(Ptr)))
		}
		n["sync/atomic.Store"+ty] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			x.store(st, a[0].(Ptr), a[1])
			return single(st)
		}
		vp := func(x *Exec, st *State, p Ptr) Ptr {
			sv := x.load(st, p).(*StructV)
			return Ptr{p.obj, append(p.path[:len(p.path):len(p.path)], PE{field: len(sv.f) - 1})}
		}
		rt := "(*sync/atomic." + ty + ")."
		n[rt+"Add"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			p := vp(x, st, a[0].(Ptr))
			v := x.wrap(st, x.c.Add(x.load(st, p).(*Term), a[1].(*Term)), bits, sg)
			x.store(st, p, v)
			return single(st, v)
		}
		n[rt+"Load"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			return single(st, x.load(st, vp(x, st, a[0].(Ptr))))
		}
		n[rt+"Store"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			x.store(st, vp(x, st, a[0].(Ptr)), a[1])
			return single(st)
		}
	}

	// ---------------------------------------------------------------- crypto, randomness, text
	n["crypto/md5.Sum"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := x.md5(x.sliceStr(st, a[0].(Slice)))
		return single(st, &BytesV{s.seq, x.c.Int(16)})
	}
	n["crypto/md5.New"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		t := x.prog.ssa.ImportedPackage("crypto/md5").Type("digest").Type()
		return single(st, Iface{types.NewPointer(t), Ptr{obj: x.alloc(st, x.c.StrConst(""))}})
	}
	n["(*crypto/md5.digest).Write"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		o, b := a[0].(Ptr).obj, x.sliceStr(st, a[1].(Slice))
		st.heap[o] = x.c.StrCat(st.heap[o].(Str), b)
		return single(st, b.n, Iface{})
	}
	n["(*crypto/md5.digest).Reset"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		st.heap[a[0].(Ptr).obj] = x.c.StrConst("")
		return single(st)
	}
	n["(*crypto/md5.digest).Size"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out { return single(st, x.c.Int(16)) }
	n["(*crypto/md5.digest).BlockSize"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.Int(64))
	}
	n["(*crypto/md5.digest).Sum"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := x.md5(st.heap[a[0].(Ptr).obj].(Str))
		if b := a[1].(Slice); b.p.obj != 0 {
			if !x.valid(st, x.c.Eq(b.cap, b.len)) {
				x.unsupported("md5 Sum into a slice with room")
			}
			s = x.c.StrCat(x.sliceStr(st, b), s)
		}
		return single(st, x.bytesToSlice(st, s))
	}
	n["math/rand.Intn"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		k := a[0].(*Term)
		x.safe(st, "rand.Intn argument positive", x.c.Lt(x.c.Int(0), k))
		r := x.c.Fresh("rand", b0, nil)
		x.assume(st, x.c.Lt(r, k))
		return single(st, r)
	}
	rnd := func(hi *big.Int) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			return single(st, x.c.Fresh("rand", b0, hi))
		}
	}
	n["math/rand.Int31n"] = n["math/rand.Intn"]
	n["math/rand.Int63n"] = n["math/rand.Intn"]
	n["math/rand.Int"] = rnd(new(big.Int).Sub(pow2(63), b1))
	n["math/rand.Int63"] = n["math/rand.Int"]
	n["math/rand.Int31"] = rnd(new(big.Int).Sub(pow2(31), b1))
	n["math/rand.Uint32"] = rnd(new(big.Int).Sub(pow2(32), b1))
	n["golang.org/x/text/encoding/unicode.UTF16"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, Opaque{fn.Signature.Results().At(0).Type(), fmt.Sprintf("utf16:%s:%s", a[0].(*Term), a[1].(*Term))})
	}
	n["(golang.org/x/text/encoding.Encoding).NewEncoder"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, Opaque{nil, "enc(" + a[0].(Opaque).id + ")"})
	}
	n["(golang.org/x/text/encoding.Encoding).NewDecoder"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, Opaque{nil, "dec(" + a[0].(Opaque).id + ")"})
	}
	n["golang.org/x/text/transform.NewReader"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		src := x.readerStr(st, a[0])
		var cod Opaque
		switch v := a[1].(type) {
		case Iface:
			cod = v.val.(Opaque)
		case Opaque:
			cod = v
		}
		x.c.nfresh++
		id := fmt.Sprintf("treader!%d", x.c.nfresh)
		x.c.ufMemo["tr:"+id] = x.transcode(cod.id, src)
		return single(st, Opaque{nil, id})
	}
	n["io.ReadAll"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.bytesToSlice(st, x.readerStr(st, a[0])), Iface{})
	}
	text := func(conv string) Native {
		return func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
			switch s := a[1].(type) {
			case Slice:
				return single(st, x.bytesToSlice(st, x.transcode(a[0].(Opaque).id, x.sliceStr(st, s))), Iface{})
			case Str:
				return single(st, x.transcode(a[0].(Opaque).id, x.res(st, s)), Iface{})
			}
			x.unsupported("transcode arg")
			return nil
		}
	}
	n["(*golang.org/x/text/encoding.Encoder).Bytes"] = text("")
	n["(*golang.org/x/text/encoding.Encoder).String"] = text("")
	n["(*golang.org/x/text/encoding.Decoder).Bytes"] = text("")
	n["(*golang.org/x/text/encoding.Decoder).String"] = text("")
}

func (x *Exec) callerName() string {
	if len(x.callStack) > 0 {
		return shortFn(x.callStack[len(x.callStack)-1])
	}
	return ""
}

func (x *Exec) lockKey(p Ptr) string {
	k := fmt.Sprintf("%d", p.obj)
	for _, e := range p.path {
		if e.field >= 0 && e.idx == nil {
			k += fmt.Sprintf(".%d", e.field)
		} else {
			k += fmt.Sprintf("[%d]", e.idx.id)
		}
	}
	return k
}

func (x *Exec) runGo(st *State) []Out {
	tot, _ := st.ghost["ngo"].(int)
	done, _ := st.ghost["rango"].(int)
	if done >= tot {
		return single(st)
	}
	g := x.goq[st.ghost[fmt.Sprintf("go%d", done)].(int)]
	st.ghost["rango"] = done + 1
	var outs []Out
	for _, o := range x.callFunc(st, g.fn.(Func), g.args, 1) {
		outs = append(outs, x.runGo(o.st)...)
	}
	return outs
}

func (x *Exec) reach(st *State, lbl string) {
	k := "reach:" + lbl
	if x.covers[k] {
		return
	}
	r, _ := x.sol.Check(st.pc, 2, 5000, nil)
	if r != Unsat {
		x.covers[k] = true
	}
	if x.dry > 0 {
		return
	}
	o := x.obl("cover", "reachable: "+lbl, x.curName(), x.pos(x.curPos))
	o.Paths++
	o.OK = x.covers[k]
	o.By = "z3-5"
	if !o.OK {
		o.Msg = "the hypotheses of this postcondition are contradictory on every path explored so far"
	} else {
		o.Msg = ""
	}
}

// indexByte: first index of b in s, or -1. Definitional facts are attached to the result.
func (x *Exec) indexByte(st *State, s Str, b *Term) *Term {
	c := x.c
	s.seq, s.off = c.resolve(s.seq, s.off, s.n)
	k := fmt.Sprintf("idx%d,%d,%d,%d", s.seq.id, s.off.id, s.n.id, b.id)
	if v, ok := c.ufMemo[k]; ok {
		return v.(*Term)
	}
	if cs, ok := c.isConstStr(s); ok && b.isConst() {
		return c.Int(int64(strings.IndexByte(cs, byte(b.c.Int64()))))
	}
	hi := s.n.hi
	if hi != nil {
		hi = new(big.Int).Sub(hi, b1)
	}
	r := c.Fresh("idx", bm, hi)
	found := c.Le(c.Int(0), r)
	lim := c.Ite(found, r, s.n)
	all := c.Forall(c.Int(0), lim, func(k *Term) *Term { return c.Not(c.Eq(c.At(s, k), b)) })
	c.vfacts[r.id] = append(c.vfacts[r.id], c.Lt(r, s.n), all, c.Implies(found, c.Eq(c.At(s, r), b)))
	if s.n.lo == nil || s.n.lo.Sign() < 0 {
		c.vfacts[r.id][0] = c.Or(c.Lt(r, s.n), c.Eq(r, c.Int(-1)))
	}
	c.ufMemo[k] = r
	return r
}

// tailFrom is where the longest tail of s starts whose bytes are all b (eq) or all others (!eq).
func (x *Exec) tailFrom(s Str, b *Term, eq bool) *Term {
	c := x.c
	s.seq, s.off = c.resolve(s.seq, s.off, s.n)
	k := fmt.Sprintf("tail%d,%d,%d,%d,%v", s.seq.id, s.off.id, s.n.id, b.id, eq)
	if v, ok := c.ufMemo[k]; ok {
		return v.(*Term)
	}
	if cs, ok := c.isConstStr(s); ok && b.isConst() {
		i := len(cs)
		for i > 0 && (cs[i-1] == byte(b.c.Int64())) == eq {
			i--
		}
		return c.Int(int64(i))
	}
	r := c.Fresh("tail", b0, s.n.hi)
	in := func(k *Term) *Term {
		if eq {
			return c.Eq(c.At(s, k), b)
		}
		return c.Not(c.Eq(c.At(s, k), b))
	}
	c.vfacts[r.id] = append(c.vfacts[r.id], c.Le(r, s.n), c.Forall(r, s.n, in),
		c.Or(c.Le(r, c.Int(0)), c.Not(in(c.AddI(r, -1)))))
	c.ufMemo[k] = r
	return r
}

// caseMap: strings.ToLower/ToUpper as a function of the string; exact on ASCII; on other strings it is idempotent,
// keeps emptiness and introduces no underscore.
func (x *Exec) caseMap(name string, lo, hi, d int64, s Str) Str {
	c := x.c
	created := false
	out := c.StrUF(name, []Str{s}, func(nm string) Str { created = true; return x.freshStr(nm, nil) })
	if !created {
		return out
	}
	s.seq, s.off = c.resolve(s.seq, s.off, s.n)
	all := func(s Str, f func(k *Term) *Term) *Term { return c.Forall(c.Int(0), s.n, f) }
	img := func(k *Term) *Term {
		b := c.At(s, k)
		in := c.And(c.Le(c.Int(lo), b), c.Le(b, c.Int(hi)))
		return c.Ite(in, c.AddI(b, d), b)
	}
	c.attach(out, c.Implies(x.isASCII(s), c.And(c.Eq(out.n, s.n), all(out, func(k *Term) *Term { return c.Eq(c.At(out, k), img(k)) }))))
	no := func(s Str) *Term { return all(s, func(k *Term) *Term { return c.Not(c.Eq(c.At(s, k), c.Int('_'))) }) }
	c.attach(out, c.Implies(no(s), no(out)))
	e0, e1 := c.Eq(s.n, c.Int(0)), c.Eq(out.n, c.Int(0))
	c.attach(out, c.And(c.Implies(e0, e1), c.Implies(e1, e0)))
	u := c.ufMemo["suf:"+name].(*strUF)
	u.apps = append(u.apps, strApp{[]Str{out}, out})
	return out
}

func (x *Exec) md5(s Str) Str {
	return x.c.StrUF("md5", []Str{s}, func(nm string) Str {
		b := x.c.ByteBase(nm)
		return Str{x.c.SeqBase(b), x.c.Int(0), x.c.Int(16)}
	})
}

// transcode: uninterpreted text codec with the inverse law dec(enc(s)) = s for valid UTF-8.
func (x *Exec) transcode(codec string, s Str) Str {
	c := x.c
	s.seq, s.off = c.resolve(s.seq, s.off, s.n)
	if x.dbg {
		fmt.Fprintln(os.Stderr, "   transcode", codec, s.seq.id, s.seq.kind, s.off, s.n)
	}
	// syntactic inverse
	if strings.HasPrefix(codec, "dec(") {
		enc := "enc(" + codec[4:]
		if v, ok := c.ufMemo["suf:"+enc]; ok {
			for _, ap := range v.(*strUF).apps {
				o := ap.out
				if o.seq == s.seq && o.off == s.off && o.n == s.n {
					v := x.validUTF8(ap.args[0])
					if v.op == OTrue && (!strings.Contains(codec, "GB18030") || x.gbBack(ap.args[0]).op == OTrue) {
						return ap.args[0]
					}
				}
			}
		}
	}
	created := false
	out := c.StrUF(codec, []Str{s}, func(nm string) Str { created = true; return x.freshStr(nm, nil) })
	if !created {
		return out
	}
	k := big.NewInt(4)
	c.attach(out, c.Le(out.n, c.AddI(c.MulC(s.n, k), 4)))
	if strings.HasPrefix(codec, "enc(utf16") {
		half := c.Fresh("units", b0, maxLen)
		c.attach(out, c.Eq(out.n, c.MulC(half, bi(2))))
		c.attach(out, c.Le(out.n, c.MulC(s.n, bi(2))))
		// each rune takes one or two units
		rc := x.runeCount(s)
		c.attach(out, c.And(c.Le(c.MulC(rc, bi(2)), out.n), c.Le(out.n, c.MulC(rc, bi(4)))))
	}
	z := c.Eq(s.n, c.Int(0))
	c.attach(out, c.Implies(z, c.Eq(out.n, c.Int(0))))
	if strings.HasPrefix(codec, "enc(") {
		c.attach(out, c.Implies(c.Eq(out.n, c.Int(0)), z))
	}
	// inverse facts
	link := func(enc strApp, decIn, decOut Str) {
		cond := c.And(c.StrEq(enc.out, decIn), x.validUTF8(enc.args[0]))
		if strings.Contains(codec, "GB18030") {
			cond = c.And(cond, x.gbBack(enc.args[0]))
		}
		f := c.Implies(cond, c.StrEq(decOut, enc.args[0]))
		c.attach(decOut, f)
	}
	if strings.HasPrefix(codec, "dec(") {
		if v, ok := c.ufMemo["suf:enc("+codec[4:]]; ok {
			for _, ap := range v.(*strUF).apps {
				link(ap, s, out)
			}
		}
		if strings.HasPrefix(codec, "dec(utf16") {
			c.attach(out, x.validUTF8(out))
		}
	} else if strings.HasPrefix(codec, "enc(") {
		if v, ok := c.ufMemo["suf:dec("+codec[4:]]; ok {
			for _, ap := range v.(*strUF).apps {
				link(strApp{[]Str{s}, out}, ap.args[0], ap.out)
			}
			// a whole-unit prefix of an encoded text that does not split a surrogate pair is itself
			// an encoded text
			if strings.HasPrefix(codec, "enc(utf16") {
				for _, ap := range v.(*strUF).apps {
					in := ap.args[0]
					for _, e0 := range c.ufMemo["suf:"+codec].(*strUF).apps {
						if e0.out.seq != in.seq || e0.out.off != in.off {
							continue
						}
						hb := c.At(in, c.AddI(in.n, -2))
						nb := c.At(e0.out, c.Add(c.Sub(in.off, e0.out.off), in.n))
						whole := c.And(c.Eq(c.Mod(in.n, bi(2)), c.Int(0)), c.Le(in.n, e0.out.n),
							c.Or(c.Eq(in.n, c.Int(0)), c.Lt(hb, c.Int(0xd8)), c.Le(c.Int(0xdc), hb),
								c.Eq(in.n, e0.out.n), c.Lt(nb, c.Int(0xdc)), c.Le(c.Int(0xe0), nb)))
						f := c.Implies(c.And(x.validUTF8(e0.args[0]), whole, c.StrEq(s, ap.out)), c.StrEq(out, in))
						c.attach(out, f)
						c.attach(ap.out, f)
					}
				}
			}
		}
	}
	return out
}

func (x *Exec) readerStr(st *State, v Value) Str {
	switch r := v.(type) {
	case Iface:
		return x.readerStr(st, r.val)
	case Opaque:
		if s, ok := x.c.ufMemo["tr:"+r.id]; ok {
			return s.(Str)
		}
	case Ptr:
		if sv, ok := x.load(st, r).(*StructV); ok && len(sv.f) >= 2 {
			switch b := sv.f[0].(type) {
			case Slice: // bytes.Reader{s,i,prev}
				s := x.sliceStr(st, b)
				i, _ := sv.f[1].(*Term)
				return x.c.SubStr(s, i, s.n)
			case Str: // strings.Reader
				i, _ := sv.f[1].(*Term)
				return x.c.SubStr(b, i, b.n)
			}
		}
	}
	x.unsupported("reading from %T", v)
	return Str{}
}

// Times are mathematical integers: nanoseconds since 1970 (so UnixNano, Add, Sub, Before, ... are exact); calendar
// components are functions of that number with their ranges, and the digits of Format are those of the components.

func (x *Exec) timeVal(t types.Type, nano *Term) Value {
	id := fmt.Sprintf("t%d", nano.id)
	if x.times == nil {
		x.times = map[string]*Term{}
	}
	x.times[id] = nano
	return Opaque{t, id}
}

// nano of a time value; of the zero Time for anything else.
func (x *Exec) nano(v Value) *Term {
	if o, ok := v.(Opaque); ok {
		if t, ok := x.times[o.id]; ok {
			return t
		}
		return x.c.Var("nano("+o.id+")", b0, new(big.Int).Sub(pow2(62), b1))
	}
	z := new(big.Int).Mul(bi(-62135596800), bi(1000000000))
	return x.c.Big(z)
}

var timeComps = map[string][2]int64{"Year": {1970, 9999}, "Month": {1, 12}, "Day": {1, 31}, "Hour": {0, 23}, "Minute": {0, 59}, "Second": {0, 59},
	"Nanosecond": {0, 999999999}, "YearDay": {1, 366}, "Weekday": {0, 6}}

var timeLayout = map[string]string{"2006": "Year", "01": "Month", "02": "Day", "15": "Hour", "04": "Minute", "05": "Second"}

func (x *Exec) timeComp(nano *Term, name string) *Term {
	c := x.c
	if nano.op == OIte {
		return c.Ite(nano.args[0], x.timeComp(nano.args[1], name), x.timeComp(nano.args[2], name))
	}
	r := timeComps[name]
	nm := fmt.Sprintf("time.%s(%d)", name, nano.id)
	t := c.Var(nm, bi(r[0]), bi(r[1]))
	if _, ok := c.ufMemo[nm]; ok {
		return t
	}
	c.ufMemo[nm] = true
	w := 0
	switch name {
	case "Year":
		w = 4
	case "Month", "Day", "Hour", "Minute", "Second":
		w = 2
	}
	if w == 0 {
		return t
	}
	seq := c.SeqFill(c.Int(0))
	sum := c.Int(0)
	top := r[1]
	for k := 1; k < w; k++ {
		top /= 10
	}
	for i := 0; i < w; i++ {
		d := c.Var(fmt.Sprintf("%s[%d]", nm, i), b0, bi(top))
		top = 9
		sum = c.Add(c.MulC(sum, bi(10)), d)
		seq = c.SeqStore(seq, c.Int(int64(i)), c.AddI(d, '0'))
	}
	c.vfacts[t.id] = append(c.vfacts[t.id], c.Eq(t, sum))
	c.ufMemo[fmt.Sprintf("digits:%d", t.id)] = Str{seq, c.Int(0), c.Int(int64(w))}
	return t
}

func (x *Exec) timeFormat(nano *Term, lay string) Str {
	c := x.c
	k := fmt.Sprintf("tf:%d|%s", nano.id, lay)
	if v, ok := c.ufMemo[k]; ok {
		return v.(Str)
	}
	if nano.op == OIte {
		a, b := x.timeFormat(nano.args[1], lay), x.timeFormat(nano.args[2], lay)
		m, _ := x.mergeVal(nano.args[0], a, b)
		return m.(Str)
	}
	var s Str
	ok := true
	var parts []*Term
	for i := 0; i < len(lay) && ok; {
		name, w, from := "", 2, 0
		if strings.HasPrefix(lay[i:], "2006") {
			name, w = "Year", 4
		} else if strings.HasPrefix(lay[i:], "06") {
			name, from = "Year", 2
		} else if i+2 <= len(lay) && timeLayout[lay[i:i+2]] != "" {
			name = timeLayout[lay[i:i+2]]
		} else if ch := lay[i]; ch == '-' || ch == ':' || ch == ' ' || ch == '/' {
			parts = append(parts, c.Int(int64(ch)))
			i++
			continue
		} else {
			ok = false
			break
		}
		ds := c.ufMemo[fmt.Sprintf("digits:%d", x.timeComp(nano, name).id)].(Str)
		for j := 0; j < w; j++ {
			parts = append(parts, c.At(ds, c.Int(int64(from+j))))
		}
		i += w
	}
	if ok {
		seq := c.SeqFill(c.Int(0))
		for i, p := range parts {
			seq = c.SeqStore(seq, c.Int(int64(i)), p)
		}
		s = Str{seq, c.Int(0), c.Int(int64(len(parts)))}
	} else {
		s = x.freshStr("fmt("+k+")", bi(64))
	}
	c.ufMemo[k] = s
	return s
}

func (x *Exec) atoi(st *State, s Str) []Out {
	c := x.c
	if cs, ok := c.isConstStr(s); ok {
		v, err := strconv.Atoi(cs)
		if err != nil {
			return single(st, c.Int(0), x.newErr(st, "atoi"))
		}
		return single(st, c.Int(int64(v)), Iface{})
	}
	if s.n.isConst() && s.n.c.Cmp(bi(18)) <= 0 && s.n.c.Sign() > 0 {
		v := c.Int(0)
		all := []*Term{}
		for i := int64(0); i < s.n.c.Int64(); i++ {
			d := c.At(s, c.Int(i))
			all = append(all, c.Le(c.Int('0'), d), c.Le(d, c.Int('9')))
			v = c.Add(c.MulC(v, bi(10)), c.AddI(d, -'0'))
		}
		if x.valid(st, c.And(all...)) {
			// named by a variable, so that the number stays one term through byte encodings and the digits of its
			// decimal form are known
			k := fmt.Sprintf("atoi:%d", v.id)
			if m, ok := c.ufMemo[k]; ok {
				return single(st, m.(*Term), Iface{})
			}
			if !v.isConst() {
				w := c.Fresh("atoi", v.lo, v.hi)
				c.vfacts[w.id] = append(c.vfacts[w.id], c.Eq(w, v))
				c.ufMemo[k] = w
				c.ufMemo[fmt.Sprintf("digits:%d", w.id)] = s
				v = w
			}
			return single(st, v, Iface{})
		}
	}
	s2 := st.clone()
	lo, hi := rangeOf(64, true)
	return []Out{{st, []Value{c.Fresh("atoi", lo, hi), Iface{}}}, {s2, []Value{c.Int(0), x.newErr(s2, "atoi")}}}
}

// padDec: exact fixed-width decimal (the value must fit).
func (x *Exec) padDec(t *Term, w int, base int64, digits string) Str {
	c := x.c
	if m, ok := c.ufMemo[fmt.Sprintf("digits:%d", t.id)]; ok && base == 10 && m.(Str).n.isInt(int64(w)) {
		return m.(Str)
	}
	seq := c.SeqFill(c.Int(0))
	for i := 0; i < w; i++ {
		p := new(big.Int).Exp(bi(base), bi(int64(w-1-i)), nil)
		d := c.Mod(c.Div(t, p), bi(base))
		var ch *Term
		if base == 10 {
			ch = c.AddI(d, '0')
		} else {
			ch = c.Ite(c.Le(d, c.Int(9)), c.AddI(d, '0'), c.AddI(d, 'a'-10))
		}
		seq = c.SeqStore(seq, c.Int(int64(i)), ch)
	}
	return Str{seq, c.Int(0), c.Int(int64(w))}
}

func (x *Exec) decStr(t *Term) Str {
	c := x.c
	if t.isConst() {
		return c.StrConst(t.c.String())
	}
	k := fmt.Sprintf("dec%d", t.id)
	if v, ok := c.ufMemo[k]; ok {
		return v.(Str)
	}
	s := x.freshStr("dec", bi(20))
	c.attach(s, c.Le(c.Int(1), s.n))
	c.ufMemo[k] = s
	return s
}

func (x *Exec) fmtInt(t, base *Term) Str {
	if base.isInt(10) {
		return x.decStr(t)
	}
	k := fmt.Sprintf("fmtint%d,%d", t.id, base.id)
	if v, ok := x.c.ufMemo[k]; ok {
		return v.(Str)
	}
	s := x.freshStr("fmtint", bi(65))
	x.c.ufMemo[k] = s
	return s
}

func (x *Exec) sprintf(st *State, f Str, av Value) Str {
	c := x.c
	fs, ok := c.isConstStr(f)
	if !ok {
		return x.freshStr("sprintf", nil)
	}
	var args []Value
	if sl, ok := av.(Slice); ok && sl.p.obj != 0 {
		if arr, ok := x.load(st, sl.p).(*ArrV); ok {
			args = arr.e
		}
	}
	var parts []Str
	lit := ""
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		j := i + 1
		for j < len(fs) && strings.ContainsRune("+-# 0123456789.", rune(fs[j])) {
			j++
		}
		if j >= len(fs) {
			lit += fs[i:]
			break
		}
		spec, verb := fs[i+1:j], fs[j]
		i = j
		if verb == '%' {
			lit += "%"
			continue
		}
		if lit != "" {
			parts = append(parts, c.StrConst(lit))
			lit = ""
		}
		var v Value
		var vt types.Type
		if ai < len(args) {
			v = args[ai]
			if iv, ok := v.(Iface); ok {
				v = iv.val
				vt = iv.typ
			}
		}
		ai++
		hasMeth := false
		if n, ok := vt.(*types.Named); ok && n.NumMethods() > 0 {
			hasMeth = true
		}
		if sl, ok := v.(Slice); ok && verb == 'x' && spec == "" && !hasMeth {
			if u, ok := vt.Underlying().(*types.Slice); ok && isByteT(u.Elem()) {
				parts = append(parts, x.hexEnc(x.sliceStr(st, sl)))
				continue
			}
		}
		switch t := v.(type) {
		case Str:
			if verb == 'x' && spec == "" && !hasMeth {
				parts = append(parts, x.hexEnc(t))
				continue
			}
			if (verb == 's' || verb == 'v') && spec == "" && !hasMeth {
				parts = append(parts, t)
				continue
			}
		case *Term:
			if !t.isBool() && (verb == 'd' || verb == 'x') && strings.HasPrefix(spec, "0") && len(spec) > 1 {
				w, err := strconv.Atoi(spec[1:])
				base := int64(10)
				if verb == 'x' {
					base = 16
				}
				if err == nil && w <= 40 {
					lim := new(big.Int).Exp(bi(base), bi(int64(w)), nil)
					if x.valid(st, c.And(c.Le(c.Int(0), t), c.Lt(t, c.Big(lim)))) {
						parts = append(parts, x.padDec(t, w, base, ""))
						continue
					}
				}
			}
			if !t.isBool() && verb == 'd' && spec == "" {
				parts = append(parts, x.decStr(t))
				continue
			}
			k := fmt.Sprintf("sp|%s|%c|%d", spec, verb, t.id)
			if m, ok := c.ufMemo[k]; ok {
				parts = append(parts, m.(Str))
			} else {
				s := x.freshStr("sprintf", bi(256))
				c.ufMemo[k] = s
				parts = append(parts, s)
			}
			continue
		}
		parts = append(parts, x.freshStr("sprintf", nil))
	}
	if lit != "" {
		parts = append(parts, c.StrConst(lit))
	}
	return c.StrCat(parts...)
}

// hexEnc: an injective text of twice the length.
func (x *Exec) hexEnc(s Str) Str {
	return x.c.StrUF("hexenc", []Str{s}, func(nm string) Str {
		b := x.c.ByteBase(nm)
		return Str{x.c.SeqBase(b), x.c.Int(0), x.c.MulC(s.n, bi(2))}
	})
}

type guardSet struct{ l []*Guard }
type protectSet struct{ l []protected }

func guards(st *State) []*Guard {
	if g, ok := st.ghost["guards"].(*guardSet); ok {
		return g.l[:len(g.l):len(g.l)]
	}
	return nil
}

func protects(st *State) []protected {
	if g, ok := st.ghost["protect"].(*protectSet); ok {
		return g.l[:len(g.l):len(g.l)]
	}
	return nil
}

// protected locations may be read and written by the code under contract only while their lock is held.
type protected struct {
	p   Ptr
	key string
}

func (x *Exec) checkProtected(fr *Frame, st *State, p Ptr, write bool) {
	for _, pr := range protects(st) {
		if pr.p.obj != p.obj || len(pr.p.path) > len(p.path) || !samePath(pr.p.path, p.path[:len(pr.p.path)]) {
			continue
		}
		f := fr.fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if strings.Contains(x.prog.fset.Position(f.Pos()).Filename, "zz_verif_") || strings.HasSuffix(f.Pkg.Pkg.Path(), "/zzv") {
			return
		}
		mode, _ := st.ghost[pr.key].(string)
		what := "shared state is read with its lock held"
		if write {
			what = "shared state is written with its lock held"
		}
		x.safe(st, what, x.c.Bool(mode == "w" || (mode == "r" && !write)))
		return
	}
}
