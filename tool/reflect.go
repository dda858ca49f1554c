package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// reflect: a reflect.Value is its type and either a location (addressable) or a value; a reflect.Type is its type.

type ReflV struct {
	t   types.Type // nil: the zero Value
	loc *Ptr
	v   Value
	ro  bool // obtained through an unexported field
}

type ReflT struct{ t types.Type }

func reflKind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (x *Exec) reflType(fn *ssa.Function, t types.Type) Value {
	rt := fn.Pkg.Pkg.Scope().Lookup("rtype").Type()
	return Iface{types.NewPointer(rt), &ReflT{t}}
}

func (x *Exec) reflGet(st *State, r *ReflV) Value {
	if r.loc != nil {
		return x.load(st, *r.loc)
	}
	return r.v
}

func (x *Exec) reflField(st *State, r *ReflV, i int) *ReflV {
	s := r.t.Underlying().(*types.Struct)
	f := s.Field(i)
	n := &ReflV{t: f.Type(), ro: r.ro || !f.Exported()}
	if r.loc != nil {
		n.loc = &Ptr{r.loc.obj, append(r.loc.path[:len(r.loc.path):len(r.loc.path)], PE{field: i})}
	} else {
		n.v = r.v.(*StructV).f[i]
	}
	return n
}

// structField builds a reflect.StructField.
func (x *Exec) structField(fn *ssa.Function, s *types.Struct, i int) Value {
	t := fn.Pkg.Pkg.Scope().Lookup("StructField").Type()
	v := x.zero(t).(*StructV)
	st := t.Underlying().(*types.Struct)
	for k := 0; k < st.NumFields(); k++ {
		switch st.Field(k).Name() {
		case "Name":
			v.f[k] = x.c.StrConst(s.Field(i).Name())
		case "PkgPath":
			if !s.Field(i).Exported() {
				v.f[k] = x.c.StrConst(s.Field(i).Pkg().Path())
			}
		case "Type":
			v.f[k] = x.reflType(fn, s.Field(i).Type())
		case "Tag":
			v.f[k] = x.c.StrConst(s.Tag(i))
		case "Anonymous":
			v.f[k] = x.c.Bool(s.Field(i).Anonymous())
		}
	}
	return v
}

func (x *Exec) fieldByName(t types.Type, name Value) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		x.unsupported("reflect: fields of %s", t)
	}
	nm, ok := x.c.isConstStr(name.(Str))
	if !ok {
		x.unsupported("reflect: unknown field name")
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == nm {
			return i
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Anonymous() {
			x.unsupported("reflect: embedded fields")
		}
	}
	return -1
}

func reflectNatives(n map[string]Native) {
	n["reflect.ValueOf"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		i, ok := a[0].(Iface)
		if !ok {
			x.unsupported("reflect.ValueOf of %T", a[0])
		}
		if i.typ == nil {
			return single(st, &ReflV{})
		}
		return single(st, &ReflV{t: i.typ, v: i.val})
	}
	n["reflect.TypeOf"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		i, ok := a[0].(Iface)
		if !ok {
			x.unsupported("reflect.TypeOf of %T", a[0])
		}
		if i.typ == nil {
			return single(st, Iface{})
		}
		return single(st, x.reflType(fn, i.typ))
	}
	rv := func(x *Exec, v Value) *ReflV {
		if r, ok := v.(*ReflV); ok {
			return r
		}
		if _, ok := v.(*StructV); ok {
			return &ReflV{}
		}
		x.unsupported("reflect.Value is %T", v)
		return nil
	}
	n["(reflect.Value).Kind"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := rv(x, a[0])
		if r.t == nil {
			return single(st, x.c.Int(0))
		}
		return single(st, x.c.Int(reflKind(r.t)))
	}
	n["(reflect.Value).IsValid"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.Bool(rv(x, a[0]).t != nil))
	}
	n["(reflect.Value).CanSet"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := rv(x, a[0])
		return single(st, x.c.Bool(r.loc != nil && !r.ro))
	}
	n["(reflect.Value).CanInterface"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := rv(x, a[0])
		return single(st, x.c.Bool(r.t != nil && !r.ro))
	}
	n["(reflect.Value).IsNil"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := rv(x, a[0])
		switch v := x.reflGet(st, r).(type) {
		case Ptr:
			return single(st, x.c.Bool(v.obj == 0))
		case Slice:
			return single(st, x.c.Bool(v.p.obj == 0))
		case MapRef:
			return single(st, x.c.Bool(v.obj == 0))
		case Iface:
			return single(st, x.c.Bool(v.typ == nil))
		}
		x.safe(st, "reflect: IsNil of a value that cannot be nil", x.c.ff)
		return nil
	}
	n["(reflect.Value).Elem"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := rv(x, a[0])
		switch v := x.reflGet(st, r).(type) {
		case Ptr:
			if v.obj == 0 {
				return single(st, &ReflV{})
			}
			return single(st, &ReflV{t: r.t.Underlying().(*types.Pointer).Elem(), loc: &v, ro: r.ro})
		case Iface:
			if v.typ == nil {
				return single(st, &ReflV{})
			}
			return single(st, &ReflV{t: v.typ, v: v.val, ro: r.ro})
		}
		x.safe(st, "reflect: Elem of a value that has none", x.c.ff)
		return nil
	}
	n["reflect.Indirect"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := rv(x, a[0])
		if r.t != nil {
			if _, ok := r.t.Underlying().(*types.Pointer); ok {
				return n["(reflect.Value).Elem"](x, st, a, fn)
			}
		}
		return single(st, r)
	}
	structOf := func(x *Exec, st *State, t types.Type) *types.Struct {
		if t != nil {
			if s, ok := t.Underlying().(*types.Struct); ok {
				return s
			}
		}
		x.safe(st, "reflect: fields of a value that is no structure", x.c.ff)
		return nil
	}
	n["(reflect.Value).NumField"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := structOf(x, st, rv(x, a[0]).t)
		if s == nil {
			return nil
		}
		return single(st, x.c.Int(int64(s.NumFields())))
	}
	n["(reflect.Value).Type"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := rv(x, a[0])
		if r.t == nil {
			x.safe(st, "reflect: Type of the zero Value", x.c.ff)
			return nil
		}
		return single(st, x.reflType(fn, r.t))
	}
	n["(reflect.Value).Field"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := rv(x, a[0])
		s := structOf(x, st, r.t)
		i := x.redT(st, a[1].(*Term))
		if s == nil {
			return nil
		}
		if !i.isConst() {
			x.unsupported("reflect: unknown field index")
		}
		if k := i.c.Int64(); k < 0 || k >= int64(s.NumFields()) {
			x.safe(st, "reflect: field index in range", x.c.ff)
			return nil
		}
		return single(st, x.reflField(st, r, int(i.c.Int64())))
	}
	n["(reflect.Value).FieldByName"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := rv(x, a[0])
		if structOf(x, st, r.t) == nil {
			return nil
		}
		i := x.fieldByName(r.t, a[1])
		if i < 0 {
			return single(st, &ReflV{})
		}
		return single(st, x.reflField(st, r, i))
	}
	n["(reflect.Value).Interface"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		r := rv(x, a[0])
		if r.t == nil || r.ro {
			x.safe(st, "reflect: Interface of a readable value", x.c.ff)
			return nil
		}
		v := x.reflGet(st, r)
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return single(st, v)
		}
		return single(st, Iface{r.t, v})
	}
	n["(reflect.Value).Set"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		d, s := rv(x, a[0]), rv(x, a[1])
		if d.loc == nil || d.ro || s.t == nil || s.ro {
			x.safe(st, "reflect: Set of a settable value", x.c.ff)
			return nil
		}
		if !types.AssignableTo(s.t, d.t) {
			x.safe(st, "reflect: Set with an assignable value", x.c.ff)
			return nil
		}
		v := x.reflGet(st, s)
		_, di := d.t.Underlying().(*types.Interface)
		_, si := s.t.Underlying().(*types.Interface)
		if di && !si {
			v = Iface{s.t, v}
		}
		x.store(st, *d.loc, v)
		return single(st)
	}
	rt := func(x *Exec, v Value) types.Type {
		if r, ok := v.(*ReflT); ok {
			return r.t
		}
		x.unsupported("reflect.Type is %T", v)
		return nil
	}
	n["(*reflect.rtype).Kind"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		return single(st, x.c.Int(reflKind(rt(x, a[0]))))
	}
	n["(*reflect.rtype).Name"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		if nt, ok := rt(x, a[0]).(*types.Named); ok {
			return single(st, x.c.StrConst(nt.Obj().Name()))
		}
		return single(st, x.c.StrConst(rt(x, a[0]).String()))
	}
	n["(*reflect.rtype).String"] = n["(*reflect.rtype).Name"]
	n["(*reflect.rtype).Elem"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		switch u := rt(x, a[0]).Underlying().(type) {
		case *types.Pointer:
			return single(st, x.reflType(fn, u.Elem()))
		case *types.Slice:
			return single(st, x.reflType(fn, u.Elem()))
		}
		x.safe(st, "reflect: Elem of a type that has none", x.c.ff)
		return nil
	}
	n["(*reflect.rtype).NumField"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := structOf(x, st, rt(x, a[0]))
		if s == nil {
			return nil
		}
		return single(st, x.c.Int(int64(s.NumFields())))
	}
	n["(*reflect.rtype).Field"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		s := structOf(x, st, rt(x, a[0]))
		i := x.redT(st, a[1].(*Term))
		if s == nil {
			return nil
		}
		if !i.isConst() {
			x.unsupported("reflect: unknown field index")
		}
		if k := i.c.Int64(); k < 0 || k >= int64(s.NumFields()) {
			x.safe(st, "reflect: field index in range", x.c.ff)
			return nil
		}
		return single(st, x.structField(fn, s, int(i.c.Int64())))
	}
	n["(*reflect.rtype).FieldByName"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		t := rt(x, a[0])
		s := structOf(x, st, t)
		if s == nil {
			return nil
		}
		i := x.fieldByName(t, a[1])
		if i < 0 {
			return single(st, x.zero(fn.Signature.Results().At(0).Type()), x.c.ff)
		}
		return single(st, x.structField(fn, s, i), x.c.tt)
	}
	n["(*reflect.rtype).AssignableTo"] = func(x *Exec, st *State, a []Value, fn *ssa.Function) []Out {
		u, ok := a[1].(Iface)
		if !ok || u.typ == nil {
			x.unsupported("reflect.Type argument")
		}
		return single(st, x.c.Bool(types.AssignableTo(rt(x, a[0]), rt(x, u.val))))
	}
}
