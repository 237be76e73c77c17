package main

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func initMisc() {
	// strconv on symbolic digits is executed from source, except where its fast paths use bit tricks
	reg("strconv.ParseFloat", func(w *W, fn *ssa.Function, a []Value) Value {
		s := w.concStr(a[0])
		f, err := strconv.ParseFloat(s, int(w.concInt(a[1], true)))
		if err != nil {
			return Tuple{f, w.mkErr(err.Error())}
		}
		return Tuple{f, Iface{}}
	})
	reg("strconv.Unquote", func(w *W, fn *ssa.Function, a []Value) Value {
		s, err := strconv.Unquote(w.concStr(a[0]))
		if err != nil {
			return Tuple{"", w.mkErr(err.Error())}
		}
		return Tuple{s, Iface{}}
	})
	reg("strconv.FormatInt", func(w *W, fn *ssa.Function, a []Value) Value {
		b := w.concInt(a[1], true)
		if x, ok := a[0].(int64); ok {
			return strconv.FormatInt(x, int(b))
		}
		if b == 10 {
			return mkStr(w.itoa(a[0], 64, true))
		}
		return strconv.FormatInt(w.concInt(a[0], true), int(b))
	})
	reg("strconv.Itoa", func(w *W, fn *ssa.Function, a []Value) Value { return mkStr(w.itoa(a[0], 64, true)) })
	// reflect: only the kind of a dynamic value is ever asked for
	reg("reflect.ValueOf", func(w *W, fn *ssa.Function, a []Value) Value {
		z := zero(fn.Signature.Results().At(0).Type()).(Struct)
		z[0] = &Opaque{"rv", w.asIface(a[0])}
		return z
	})
	kind := func(t types.Type) int64 {
		if t == nil {
			return 0
		}
		switch u := under(t).(type) {
		case *types.Basic:
			m := map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.String: 24, types.UnsafePointer: 26}
			return m[u.Kind()]
		case *types.Array:
			return 17
		case *types.Chan:
			return 18
		case *types.Signature:
			return 19
		case *types.Interface:
			return 20
		case *types.Map:
			return 21
		case *types.Pointer:
			return 22
		case *types.Slice:
			return 23
		case *types.Struct:
			return 25
		}
		return 0
	}
	reg("(reflect.Value).Kind", func(w *W, fn *ssa.Function, a []Value) Value {
		o, ok := a[0].(Struct)[0].(*Opaque)
		if !ok {
			return int64(0)
		}
		return kind(o.v.(Iface).t)
	})
	names := []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}
	reg("(reflect.Kind).String", func(w *W, fn *ssa.Function, a []Value) Value { return names[w.concInt(a[0], false)] })
	reg("(reflect.Value).IsNil", func(w *W, fn *ssa.Function, a []Value) Value {
		o, ok := a[0].(Struct)[0].(*Opaque)
		if !ok {
			w.unsupported("reflect.IsNil")
		}
		switch x := o.v.(Iface).v.(type) {
		case *Value:
			return x == nil
		case []Value:
			return x == nil
		case *MapV:
			return x == nil
		}
		w.unsupported("reflect.IsNil")
		return nil
	})
	// reflect.DeepEqual over engine values
	reg("reflect.DeepEqual", func(w *W, fn *ssa.Function, a []Value) Value {
		return w.deepEq(w.asIface(a[0]), w.asIface(a[1]))
	})
	sortSlice := func(w *W, fn *ssa.Function, a []Value) Value {
		s := w.asIface(a[0]).v.([]Value)
		// insertion sort: stable, and the comparator decides symbolically
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !w.truth(w.call(a[1], []Value{int64(j), int64(j - 1)})) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeInto(&s[j], y)
				storeInto(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	reg("sort.Strings", func(w *W, fn *ssa.Function, a []Value) Value {
		s := a[0].([]Value)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && w.truth(w.strLess(s[j], s[j-1])); j-- {
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	})
}

func (w *W) deepEq(a, b Iface) Value {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if !types.Identical(a.t, b.t) {
		return false
	}
	return w.deepEqV(a.t, a.v, b.v)
}

func (w *W) deepEqV(t types.Type, a, b Value) Value {
	switch u := under(t).(type) {
	case *types.Interface:
		return w.deepEq(w.asIface(a), w.asIface(b))
	case *types.Pointer:
		x, _ := a.(*Value)
		y, _ := b.(*Value)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x == y {
			return true
		}
		return w.deepEqV(u.Elem(), *x, *y)
	case *types.Slice:
		x, y := a.([]Value), b.([]Value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r Value = true
		for i := range x {
			r = w.and(r, w.deepEqV(u.Elem(), x[i], y[i]))
			if r == false {
				return r
			}
		}
		return r
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			return true
		}
		if x.n != y.n {
			return false
		}
		var r Value = true
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			f := w.mapFind(u, y, e.k)
			if f == nil {
				return false
			}
			r = w.and(r, w.deepEqV(u.Elem(), e.v, f.v))
			if r == false {
				return r
			}
		}
		return r
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		if o, ok := opq(x); ok && o.kind == "big" {
			c := w.bigCmp(bigOfStruct(w, x), bigOfStruct(w, y))
			return w.eq(types.Typ[types.Int], c, int64(0))
		}
		var r Value = true
		for i := 0; i < u.NumFields(); i++ {
			r = w.and(r, w.deepEqV(u.Field(i).Type(), x[i], y[i]))
			if r == false {
				return r
			}
		}
		return r
	case *types.Signature:
		return isNilFn(a) && isNilFn(b)
	}
	return w.eq(t, a, b)
}

func opq(x Struct) (*Opaque, bool) {
	if len(x) <= bigMant {
		return nil, false
	}
	o, ok := x[bigMant].(*Opaque)
	return o, ok
}
