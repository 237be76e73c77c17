package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errors, maps, slices and sync.Map, as far as the library's own code cannot be executed (it looks at the run time's types)

func (w *W) callErr(i Iface, name string, args ...Value) (Value, bool) {
	m := w.methodByName(i.t, name)
	if m == nil {
		return nil, false
	}
	return w.call(m, append([]Value{copyVal(i.v)}, args...)), true
}

// chain calls f with the error and what it wraps, until f returns true
func (w *W) chain(v Value, f func(Iface) bool) bool {
	i := w.asIface(v)
	if i.t == nil {
		return false
	}
	if f(i) {
		return true
	}
	if i.t == w.eng.errT || w.methodByName(i.t, "Unwrap") == nil {
		return false
	}
	r, _ := w.callErr(i, "Unwrap")
	if l, ok := r.([]Value); ok {
		for _, x := range l {
			if w.chain(x, f) {
				return true
			}
		}
		return false
	}
	return w.chain(r, f)
}

func initErrors() {
	osErr := map[string]string{"ErrNotExist": "no such file or directory", "ErrExist": "file exists", "ErrPermission": "permission denied"}
	reg("errors.Is", func(w *W, fn *ssa.Function, a []Value) Value {
		target := w.asIface(a[1])
		if w.asIface(a[0]).t == nil || target.t == nil {
			return w.asIface(a[0]).t == nil && target.t == nil
		}
		sub := ""
		for n, s := range osErr {
			for _, pkg := range []string{"io/fs", "internal/oserror"} {
				if g := w.eng.globalOpt(pkg, n); g != nil && w.truth(w.eq(w.eng.errIface, w.load(w.global(g)), a[1])) {
					sub = s
				}
			}
		}
		return w.chain(a[0], func(i Iface) bool {
			if w.truth(w.eq(w.eng.errIface, i, target)) {
				return true
			}
			if sub != "" && strings.HasSuffix(w.errText(i), sub) {
				return true
			}
			if i.t == w.eng.errT {
				return false
			}
			if m := w.methodByName(i.t, "Is"); m != nil && m.Signature.Params().Len() == 1 {
				return w.truth(w.call(m, []Value{copyVal(i.v), target}))
			}
			return false
		})
	})
	reg("errors.As", func(w *W, fn *ssa.Function, a []Value) Value {
		target := w.asIface(a[1])
		if target.t == nil {
			w.throwRT("errors: target cannot be nil")
		}
		pt, ok := under(target.t).(*types.Pointer)
		if !ok {
			w.throwRT("errors: target must be a non-nil pointer")
		}
		el := pt.Elem().String()
		modelled := strings.HasSuffix(el, "fs.PathError") || strings.HasSuffix(el, "json.SyntaxError") || strings.HasSuffix(el, "json.UnmarshalTypeError")
		return w.chain(a[0], func(i Iface) bool {
			if modelled && i.t == w.eng.errT { // the engine's errors of os and encoding/json have one type
				t := w.errText(i)
				for _, s := range []string{"json: ", "invalid character", "unexpected end", "/verif-scratch", "?"} {
					if strings.Contains(t, s) {
						w.unsupported("errors.As " + el)
					}
				}
			}
			if it, isI := under(pt.Elem()).(*types.Interface); isI {
				if !w.implements(i.t, it) {
					return false
				}
				w.store(target.v, i)
				return true
			}
			if types.Identical(i.t, pt.Elem()) {
				w.store(target.v, copyVal(i.v))
				return true
			}
			return false
		})
	})
	reg("errors.Unwrap", func(w *W, fn *ssa.Function, a []Value) Value {
		i := w.asIface(a[0])
		if i.t == nil || i.t == w.eng.errT {
			return Iface{}
		}
		r, ok := w.callErr(i, "Unwrap")
		if !ok {
			return Iface{}
		}
		if _, l := r.([]Value); l {
			return Iface{}
		}
		return r
	})
	reg("maps.clone", func(w *W, fn *ssa.Function, a []Value) Value {
		i := w.asIface(a[0])
		m, _ := i.v.(*MapV)
		if m == nil {
			return i
		}
		mt := under(i.t).(*types.Map)
		c := &MapV{}
		for _, e := range m.ents {
			if !e.dead {
				w.mapSet(mt, c, e.k, copyVal(e.v))
			}
		}
		return Iface{i.t, c}
	})
	reg("slices.overlaps", func(w *W, fn *ssa.Function, a []Value) Value {
		x, _ := a[0].([]Value)
		y, _ := a[1].([]Value)
		for i := range x {
			for j := range y {
				if &x[i] == &y[j] {
					return true
				}
			}
		}
		return false
	})
	reg("slices.startIdx", func(w *W, fn *ssa.Function, a []Value) Value {
		x, _ := a[0].([]Value)
		y, _ := a[1].([]Value)
		for i := range x {
			if len(y) > 0 && &x[i] == &y[0] {
				return int64(i)
			}
		}
		w.unsupported("slices.startIdx")
		return nil
	})
	// sync.Map
	anyT := types.NewInterfaceType(nil, nil)
	mt := types.NewMap(anyT, anyT)
	get := func(w *W, p Value) *MapV {
		s := (*w.ptr(p)).(Struct)
		for i := range s {
			if o, ok := s[i].(*Opaque); ok {
				return o.v.(*MapV)
			}
		}
		m := &MapV{}
		s[0] = &Opaque{"syncmap", m}
		return m
	}
	reg("(*sync.Map).Load", func(w *W, fn *ssa.Function, a []Value) Value {
		if e := w.mapFind(mt, get(w, a[0]), a[1]); e != nil {
			return Tuple{e.v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(w *W, fn *ssa.Function, a []Value) Value {
		w.mapSet(mt, get(w, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(w *W, fn *ssa.Function, a []Value) Value {
		m := get(w, a[0])
		if e := w.mapFind(mt, m, a[1]); e != nil {
			return Tuple{e.v, true}
		}
		w.mapSet(mt, m, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).Delete", func(w *W, fn *ssa.Function, a []Value) Value {
		w.mapDel(mt, get(w, a[0]), a[1])
		return nil
	})
}

func (e *Engine) globalOpt(pkg, name string) *ssa.Global {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Var(name)
		}
	}
	return nil
}
