package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type Value = any

type Struct []Value
type Array []Value
type Tuple []Value

type SymStr struct{ b []Value } // bytes: int64 or *Term(8)

// LazyStr is a string whose text is only computed when somebody looks at it (error messages).
type LazyStr struct {
	f    func() Value
	done bool
	v    Value
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type NativeFn struct {
	name string
	f    func(w *W, args []Value) Value
}

type SymPtr struct {
	arr []Value
	idx *Term
	t   types.Type
}

// Opaque wraps engine-level objects (templates, civil times, big floats, ...).
type Opaque struct {
	kind string
	v    any
}

type mapEnt struct {
	k, v Value
	dead bool
}
type MapV struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	n    int
	nsym int // entries not in idx
}

func (m *MapV) String() string { return fmt.Sprintf("map[%d]", m.n) }

type bad struct{} // poison

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func intInfo(t types.Type) (w int16, signed bool, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func normInt(v int64, w int16, signed bool) int64 {
	switch w {
	case 64:
		return v
	case 32:
		if signed {
			return int64(int32(v))
		}
		return int64(uint32(v))
	case 16:
		if signed {
			return int64(int16(v))
		}
		return int64(uint16(v))
	case 8:
		if signed {
			return int64(int8(v))
		}
		return int64(uint8(v))
	}
	panic("normInt")
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsComplex != 0:
			return complex(0, 0)
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
		return nil
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if u.Len() > 0 {
			switch under(u.Elem()).(type) {
			case *types.Struct, *types.Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				z := zero(u.Elem())
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		return nil
	}
	panic(fmt.Sprintf("zero: %v", t))
}

type ChanV struct {
	buf    []Value
	closed bool
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = copyVal(x[i])
		}
		return n
	}
	return v
}

// storeInto keeps interior addresses of structs and arrays stable.
func storeInto(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if dst, ok := (*p).(Struct); ok && len(dst) == len(x) {
			if len(x) > 0 && &dst[0] == &x[0] {
				return
			}
			tmp := copyVal(x).(Struct)
			for i := range tmp {
				storeInto(&dst[i], tmp[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if dst, ok := (*p).(Array); ok && len(dst) == len(x) {
			if len(x) > 0 && &dst[0] == &x[0] {
				return
			}
			tmp := copyVal(x).(Array)
			for i := range tmp {
				storeInto(&dst[i], tmp[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func isConcrete(v Value) bool {
	switch x := v.(type) {
	case *Term, *SymStr, *LazyStr, *SymPtr:
		return false
	case Struct:
		for _, e := range x {
			if !isConcrete(e) {
				return false
			}
		}
	case Array:
		for _, e := range x {
			if !isConcrete(e) {
				return false
			}
		}
	case []Value:
		for _, e := range x {
			if !isConcrete(e) {
				return false
			}
		}
	case Iface:
		return isConcrete(x.v)
	}
	return true
}

func mkStr(b []Value) Value {
	conc := true
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.(int64))
		}
		return string(bs)
	}
	return &SymStr{b}
}

// str forces lazies.
func (w *W) str(v Value) Value {
	for {
		l, ok := v.(*LazyStr)
		if !ok {
			return v
		}
		if !l.done {
			l.v = l.f()
			l.done = true
		}
		v = l.v
	}
}

func (w *W) strLen(v Value) int {
	switch s := w.str(v).(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func (w *W) strBytes(v Value) []Value {
	switch s := w.str(v).(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = int64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func (w *W) strSlice(v Value, lo, hi int) Value {
	switch s := w.str(v).(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func (w *W) concat(a, b Value) Value {
	_, la := a.(*LazyStr)
	_, lb := b.(*LazyStr)
	if la || lb {
		return &LazyStr{f: func() Value { return w.concat(w.str(a), w.str(b)) }}
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := w.strBytes(a), w.strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return mkStr(r)
}

func (w *W) byteTerm(v Value) *Term {
	switch x := v.(type) {
	case int64:
		return w.ts.Const(8, uint64(x))
	case *Term:
		return x
	}
	panic(fmt.Sprintf("byteTerm %T", v))
}

func (w *W) intTerm(v Value, wd int16) *Term {
	switch x := v.(type) {
	case int64:
		return w.ts.Const(wd, uint64(x))
	case *Term:
		if x.sort != wd {
			panic(fmt.Sprintf("intTerm width %d want %d", x.sort, wd))
		}
		return x
	}
	panic(fmt.Sprintf("intTerm %T", v))
}

func (w *W) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return w.ts.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("boolTerm %T", v))
}

// normalise a term to a concrete Value when constant
func termVal(t *Term, signed bool) Value {
	if t.op == OConst {
		if t.sort == 0 {
			return t.k == 1
		}
		if signed {
			return sx(t.k, t.sort)
		}
		return int64(t.k)
	}
	return t
}

func (w *W) strEq(a, b Value) Value {
	a, b = w.str(a), w.str(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	x, y := w.strBytes(a), w.strBytes(b)
	return w.bytesEq(x, y)
}

func (w *W) bytesEq(x, y []Value) Value {
	if len(x) != len(y) {
		return false
	}
	r := w.ts.True
	for i := range x {
		if xi, ok := x[i].(int64); ok {
			if yi, ok := y[i].(int64); ok {
				if xi != yi {
					return false
				}
				continue
			}
		}
		r = w.ts.And(r, w.ts.Eq(w.byteTerm(x[i]), w.byteTerm(y[i])))
		if r.isFalse() {
			return false
		}
	}
	return termVal(r, false)
}

// strLess: a < b
func (w *W) strLess(a, b Value) Value {
	a, b = w.str(a), w.str(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	x, y := w.strBytes(a), w.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := w.ts.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := w.byteTerm(x[i]), w.byteTerm(y[i])
		r = w.ts.Ite(w.ts.Eq(p, q), r, w.ts.Ult(p, q))
	}
	return termVal(r, false)
}

func (w *W) not(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return termVal(w.ts.Not(x), false)
	}
	panic("not")
}
func (w *W) and(a, b Value) Value {
	return termVal(w.ts.And(w.boolTerm(a), w.boolTerm(b)), false)
}

// eq: Go ==
func (w *W) eq(t types.Type, a, b Value) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.strEq(a, b)
		case u.Info()&types.IsInteger != 0:
			if x, ok := a.(int64); ok {
				if y, ok := b.(int64); ok {
					return x == y
				}
			}
			if isOp(a) || isOp(b) {
				w.unsupported("comparison of opaque integers")
			}
			wd, _, _ := intInfo(t)
			return termVal(w.ts.Eq(w.intTerm(a, wd), w.intTerm(b, wd)), false)
		case u.Info()&types.IsBoolean != 0:
			if x, ok := a.(bool); ok {
				if y, ok := b.(bool); ok {
					return x == y
				}
			}
			return termVal(w.ts.Eq(w.boolTerm(a), w.boolTerm(b)), false)
		case u.Info()&types.IsFloat != 0:
			return w.flt(a) == w.flt(b)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return ptrEq(a, b)
		}
		return a == b
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		var r Value = true
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = w.and(r, w.eq(u.Field(i).Type(), x[i], y[i]))
			if r == false {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		var r Value = true
		for i := range x {
			r = w.and(r, w.eq(u.Elem(), x[i], y[i]))
			if r == false {
				return r
			}
		}
		return r
	case *types.Interface:
		x, y := w.asIface(a), w.asIface(b)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			w.throwRT("comparing uncomparable type " + x.t.String())
		}
		return w.eq(x.t, x.v, y.v)
	case *types.Slice:
		return (a.([]Value) == nil) == (b.([]Value) == nil) && (a.([]Value) == nil)
	case *types.Map:
		return a.(*MapV) == b.(*MapV)
	case *types.Signature:
		return isNilFn(a) && isNilFn(b)
	case *types.Chan:
		return a == b
	}
	return ptrEq(a, b)
}

func isOp(v Value) bool { _, ok := v.(*Opaque); return ok }

func isNilFn(v Value) bool {
	switch f := v.(type) {
	case nil:
		return true
	case *ssa.Function:
		return f == nil
	case *Closure:
		return f == nil
	case *NativeFn:
		return f == nil
	}
	return false
}

func ptrEq(a, b Value) Value {
	pa, ok1 := a.(*Value)
	pb, ok2 := b.(*Value)
	if ok1 && ok2 {
		return pa == pb
	}
	if ok1 && pa == nil && !ok2 || ok2 && pb == nil && !ok1 {
		return b == nil || a == nil
	}
	return a == b
}

func (w *W) asIface(v Value) Iface {
	if v == nil {
		return Iface{}
	}
	return v.(Iface)
}

func (w *W) flt(v Value) float64 {
	switch x := v.(type) {
	case float64:
		return x
	}
	w.unsupported(fmt.Sprintf("symbolic float %T", v))
	return 0
}

func hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case int64:
		return x, true
	case bool:
		return x, true
	case float64:
		if math.IsNaN(x) {
			return nil, false
		}
		return x, true
	case *Value:
		return x, true
	case Iface:
		if x.t == nil {
			return nil, false
		}
		if k, ok := hashKey(x.v); ok {
			return [2]any{types.TypeString(x.t, nil), k}, true
		}
	case Struct:
		s := ""
		for _, e := range x {
			k, ok := hashKey(e)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", k, k)
		}
		return s, true
	case Array:
		s := ""
		for _, e := range x {
			k, ok := hashKey(e)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", k, k)
		}
		return s, true
	}
	return nil, false
}

func (w *W) mapFind(mt *types.Map, m *MapV, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if l, ok := k.(*LazyStr); ok {
		k = w.str(l)
	}
	hk, ok := hashKey(k)
	if ok {
		if e := m.idx[hk]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if ok {
			if _, c := hashKey(e.k); c {
				continue
			}
		}
		if w.truth(w.eq(mt.Key(), e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(mt *types.Map, m *MapV, k, v Value) {
	if l, ok := k.(*LazyStr); ok {
		k = w.str(l)
	}
	if e := w.mapFind(mt, m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: copyVal(k), v: v}
	m.ents = append(m.ents, e)
	m.n++
	if hk, ok := hashKey(k); ok {
		if m.idx == nil {
			m.idx = map[any]*mapEnt{}
		}
		m.idx[hk] = e
	} else {
		m.nsym++
	}
}

func (w *W) mapDel(mt *types.Map, m *MapV, k Value) {
	e := w.mapFind(mt, m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if hk, ok := hashKey(e.k); ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	for i, x := range m.ents {
		if x == e {
			ne := make([]*mapEnt, 0, len(m.ents)-1)
			ne = append(ne, m.ents[:i]...)
			ne = append(ne, m.ents[i+1:]...)
			m.ents = ne
			break
		}
	}
}
