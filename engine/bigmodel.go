package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// BigF models a big.Float: either a concrete *big.Float, or an exact decimal with symbolic digits.
// The symbolic form is only used while the digit count is small enough for the mantissa precision to
// represent every such decimal distinctly and in order (so Text('f',-1) returns the digits and Cmp is the
// decimal order).
type BigF struct {
	conc   *big.Float
	neg    Value   // bool
	digits []Value // ASCII digits, most significant first
	scale  int     // value = digits * 10^-scale
	prec   uint
}

const bigMant = 5 // index of mant in math/big.Float

func bigOf(w *W, v Value) *BigF { // v: pointer to big.Float struct
	p := w.ptr(v)
	s, ok := (*p).(Struct)
	if !ok || len(s) < 6 {
		w.unsupported("big.Float layout")
	}
	return bigOfStruct(w, s)
}

func bigOfStruct(w *W, s Struct) *BigF {
	if o, ok := s[bigMant].(*Opaque); ok {
		return o.v.(*BigF)
	}
	return &BigF{conc: new(big.Float)}
}

func setBig(w *W, v Value, b *BigF) {
	p := w.ptr(v)
	s := (*p).(Struct)
	s[bigMant] = &Opaque{"big", b}
}

func (w *W) newBig(t types.Type, b *BigF) Value { // t: big.Float
	z := zero(t)
	z.(Struct)[bigMant] = &Opaque{"big", b}
	return &z
}

func cbig(f *big.Float) *BigF { return &BigF{conc: new(big.Float).Copy(f)} }

// concBig makes b concrete, forking over its digits if necessary
func (w *W) concBig(b *BigF) *big.Float {
	if b.conc != nil {
		return b.conc
	}
	s := w.concStr(mkStr(b.digits))
	if w.truth(b.neg) {
		s = "-" + s
	}
	f, _, err := big.ParseFloat(fmt.Sprintf("%se%d", s, -b.scale), 10, b.prec, big.ToNearestEven)
	if err != nil {
		w.unsupported("big: " + err.Error())
	}
	return f
}

// normDigits strips leading and trailing zeros (forking) and returns mantissa digits and decimal exponent:
// value = 0.d1d2... * 10^exp
func (w *W) normDigits(b *BigF) ([]Value, int) {
	d := b.digits
	exp := len(d) - b.scale
	z := func(x Value) bool {
		if c, ok := x.(int64); ok {
			return c == '0'
		}
		return w.truth(termVal(w.ts.Eq(x.(*Term), w.ts.Const(8, '0')), false))
	}
	for len(d) > 0 && z(d[0]) {
		d = d[1:]
		exp--
	}
	for len(d) > 0 && z(d[len(d)-1]) {
		d = d[:len(d)-1]
	}
	if len(d) == 0 {
		return nil, 0
	}
	return d, exp
}

func (w *W) bigText(b *BigF, f byte, prec int) Value {
	if b.conc != nil {
		return b.conc.Text(f, prec)
	}
	if prec >= 0 || (f != 'f' && f != 'g') {
		return w.concBig(b).Text(f, prec)
	}
	s := &sbuf{w: w}
	if w.truth(b.neg) {
		s.str("-")
	}
	d, exp := w.normDigits(b)
	if f == 'g' {
		if exp-1 < -4 || exp-1 >= 6 {
			if len(d) > 0 {
				// %e
				s.b = append(s.b, d[0])
				if len(d) > 1 {
					s.str(".")
					s.b = append(s.b, d[1:]...)
				}
				e := exp - 1
				sg := "+"
				if e < 0 {
					sg, e = "-", -e
				}
				s.str(fmt.Sprintf("e%s%02d", sg, e))
				return mkStr(s.b)
			}
		}
	}
	if exp > 0 {
		for i := 0; i < exp; i++ {
			if i < len(d) {
				s.b = append(s.b, d[i])
			} else {
				s.str("0")
			}
		}
	} else {
		s.str("0")
	}
	if n := len(d) - exp; n > 0 && len(d) > 0 {
		s.str(".")
		for i := 0; i < n; i++ {
			if k := exp + i; k >= 0 {
				s.b = append(s.b, d[k])
			} else {
				s.str("0")
			}
		}
	}
	return mkStr(s.b)
}

func (w *W) findBig(t types.Type, v Value) *BigF {
	if p, ok := t.(*types.Pointer); ok {
		pv, ok := v.(*Value)
		if !ok || pv == nil {
			return nil
		}
		return w.findBig(p.Elem(), *pv)
	}
	s, ok := v.(Struct)
	if !ok {
		return nil
	}
	if types.TypeString(t, nil) == "math/big.Float" {
		return bigOfStruct(w, s)
	}
	if st, ok := under(t).(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				if b := w.findBig(st.Field(i).Type(), s[i]); b != nil {
					return b
				}
			}
		}
	}
	return nil
}

func (w *W) bigFormat(s *sbuf, sp *fspec, b *BigF) {
	if b.conc == nil && (sp.verb == 'v' || sp.verb == 'g') && !sp.hasW && !sp.hasP && !sp.plus && !sp.space {
		s.val(w.bigText(b, 'g', -1))
		return
	}
	spec := sp.spec
	if spec == "" {
		spec = "%" + string(sp.verb)
	}
	s.str(fmt.Sprintf(spec, w.concBig(b)))
}

// bigCmp: -1, 0, 1 as int64 or 64-bit term
func (w *W) bigCmp(a, b *BigF) Value {
	if a.conc != nil && b.conc != nil {
		return int64(a.conc.Cmp(b.conc))
	}
	sym := func(x *BigF) *BigF {
		if x.conc == nil {
			return x
		}
		if x.conc.IsInf() {
			return nil
		}
		t := x.conc.Text('f', -1)
		if len(t) > 60 {
			return nil
		}
		// exact?
		r, _, err := big.ParseFloat(t, 10, 250, big.ToNearestEven)
		if err != nil || (r.Cmp(x.conc) != 0) {
			return nil
		}
		return w.bigFromText(w.strBytes(t), 250)
	}
	x, y := sym(a), sym(b)
	if x == nil || y == nil || x.prec != y.prec && !(x.scale <= 0 && y.scale <= 0) {
		return int64(w.concBig(a).Cmp(w.concBig(b)))
	}
	sc := max(x.scale, y.scale)
	il := max(len(x.digits)-x.scale, len(y.digits)-y.scale)
	if il+sc > 80 {
		return int64(w.concBig(a).Cmp(w.concBig(b)))
	}
	al := func(z *BigF) []Value {
		r := make([]Value, 0, il+sc)
		for i := len(z.digits) - z.scale; i < il; i++ {
			r = append(r, int64('0'))
		}
		r = append(r, z.digits...)
		for len(r) < il+sc {
			r = append(r, int64('0'))
		}
		return r
	}
	dx, dy := mkStr(al(x)), mkStr(al(y))
	ts := w.ts
	lt, eq := w.boolTerm(w.strLess(dx, dy)), w.boolTerm(w.strEq(dx, dy))
	zx := w.boolTerm(w.strEq(dx, stringsRepeat0(il+sc)))
	zy := w.boolTerm(w.strEq(dy, stringsRepeat0(il+sc)))
	nx := ts.And(w.boolTerm(x.neg), ts.Not(zx))
	ny := ts.And(w.boolTerm(y.neg), ts.Not(zy))
	gt := ts.And(ts.Not(lt), ts.Not(eq))
	less := ts.Ite(nx, ts.Ite(ny, gt, ts.True), ts.Ite(ny, ts.False, lt))
	same := ts.Or(ts.And(zx, zy), ts.And(eq, ts.Eq(nx, ny)))
	m1, z0, p1 := ts.Const(64, ^uint64(0)), ts.Const(64, 0), ts.Const(64, 1)
	return termVal(ts.Ite(same, z0, ts.Ite(less, m1, p1)), true)
}

func stringsRepeat0(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0'
	}
	return string(b)
}

// bigFromText builds a symbolic decimal from already-validated text sign? digits [. digits]
func (w *W) bigFromText(b []Value, prec uint) *BigF {
	r := &BigF{neg: false, prec: prec}
	for i, c := range b {
		k, ok := c.(int64)
		if i == 0 && ok && k == '-' {
			r.neg = true
			continue
		}
		if ok && k == '.' {
			r.scale = len(b) - i - 1
			continue
		}
		r.digits = append(r.digits, c)
	}
	return r
}

// bigParse models big.ParseFloat(s, 10, prec, mode) / Float.Parse base 10 on symbolic text. ok=false: syntax error.
func (w *W) bigParse(sv Value, base int, prec uint, mode big.RoundingMode) (*BigF, bool) {
	sv = w.str(sv)
	if s, ok := sv.(string); ok {
		f, _, err := big.ParseFloat(s, base, prec, mode)
		if err != nil {
			return nil, false
		}
		return cbig(f), true
	}
	conc := func() (*BigF, bool) {
		f, _, err := big.ParseFloat(w.concStr(sv), base, prec, mode)
		if err != nil {
			return nil, false
		}
		return cbig(f), true
	}
	b := w.strBytes(sv)
	ts := w.ts
	is := func(c Value, pred func(int) bool) bool {
		if k, ok := c.(int64); ok {
			return pred(int(k))
		}
		return w.truth(termVal(w.rangeTerm(c.(*Term), pred), false))
	}
	if base != 10 {
		return conc()
	}
	// shapes that are rare and easier concretely: infinities and binary exponents
	if len(b) == 3 || len(b) == 4 {
		off := len(b) - 3
		if is(b[off], func(k int) bool { return k == 'I' || k == 'i' }) {
			return conc()
		}
	}
	i := 0
	var neg Value = false
	if i < len(b) && is(b[i], func(k int) bool { return k == '+' || k == '-' }) {
		if k, ok := b[i].(int64); ok {
			neg = k == '-'
		} else {
			neg = termVal(ts.Eq(b[i].(*Term), ts.Const(8, '-')), false)
		}
		i++
	}
	var digits []Value
	scale := 0
	dot := false
	for i < len(b) {
		if is(b[i], func(k int) bool { return k >= '0' && k <= '9' }) {
			digits = append(digits, b[i])
			if dot {
				scale++
			}
			i++
			continue
		}
		if !dot && is(b[i], func(k int) bool { return k == '.' }) {
			dot = true
			i++
			continue
		}
		break
	}
	if len(digits) == 0 {
		return nil, false
	}
	if i < len(b) {
		if is(b[i], func(k int) bool { return k == 'p' || k == 'P' }) {
			return conc()
		}
		if !is(b[i], func(k int) bool { return k == 'e' || k == 'E' }) {
			return nil, false
		}
		i++
		eneg := false
		if i < len(b) && is(b[i], func(k int) bool { return k == '+' || k == '-' }) {
			eneg = is(b[i], func(k int) bool { return k == '-' })
			i++
		}
		if i >= len(b) {
			return nil, false
		}
		e := 0
		for ; i < len(b); i++ {
			if !is(b[i], func(k int) bool { return k >= '0' && k <= '9' }) {
				return nil, false
			}
			e = e*10 + int(w.concInt(b[i], false)) - '0'
			if e > 1000000 {
				return conc()
			}
		}
		if eneg {
			e = -e
		}
		scale -= e
	}
	if float64(len(digits))*3.33+8 > float64(prec) || mode != big.ToNearestEven {
		return conc()
	}
	if scale > 60 || scale < -60 {
		return conc()
	}
	return &BigF{neg: neg, digits: digits, scale: scale, prec: prec}, true
}

func initBig() {
	fl := func(fn *ssa.Function) types.Type { // the big.Float type from a signature mentioning it
		s := fn.Signature
		if s.Recv() != nil {
			return s.Recv().Type().(*types.Pointer).Elem()
		}
		return s.Results().At(0).Type().(*types.Pointer).Elem()
	}
	mode := func(w *W, v Value) big.RoundingMode { return big.RoundingMode(w.concInt(v, false)) }
	reg("math/big.ParseFloat", func(w *W, fn *ssa.Function, a []Value) Value {
		base := int(w.concInt(a[1], true))
		b, ok := w.bigParse(a[0], base, uint(w.concInt(a[2], false)), mode(w, a[3]))
		if !ok {
			return Tuple{(*Value)(nil), int64(0), w.mkErr("number has no digits or bad syntax")}
		}
		return Tuple{w.newBig(fl(fn), b), int64(10), Iface{}}
	})
	reg("math/big.NewFloat", func(w *W, fn *ssa.Function, a []Value) Value {
		return w.newBig(fl(fn), cbig(big.NewFloat(w.flt(a[0]))))
	})
	m := func(n string, f func(w *W, fn *ssa.Function, x *BigF, a []Value) Value) {
		reg("(*math/big.Float)."+n, func(w *W, fn *ssa.Function, a []Value) Value { return f(w, fn, bigOf(w, a[0]), a) })
	}
	m("Text", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		return w.bigText(x, byte(w.concInt(a[1], false)), int(w.concInt(a[2], true)))
	})
	m("Append", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		return append(a[1].([]Value), w.strBytes(w.bigText(x, byte(w.concInt(a[2], false)), int(w.concInt(a[3], true))))...)
	})
	m("String", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value { return w.concBig(x).String() })
	reg("(*math/big.Float).MarshalText", func(w *W, fn *ssa.Function, a []Value) Value {
		if p, ok := a[0].(*Value); ok && p == nil {
			return Tuple{w.strBytes("<nil>"), Iface{}}
		}
		return Tuple{w.strBytes(w.bigText(bigOf(w, a[0]), 'g', -1)), Iface{}}
	})
	m("Cmp", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value { return w.bigCmp(x, bigOf(w, a[1])) })
	m("Sign", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		return w.bigCmp(x, &BigF{conc: new(big.Float)})
	})
	m("Signbit", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		if x.conc != nil {
			return x.conc.Signbit()
		}
		return x.neg
	})
	m("IsInt", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		if x.conc != nil {
			return x.conc.IsInt()
		}
		if x.scale <= 0 {
			return true
		}
		n := len(x.digits) - x.scale
		d := x.digits
		if n > 0 {
			d = d[n:]
		}
		return w.strEq(mkStr(d), stringsRepeat0(len(d)))
	})
	m("IsInf", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		return x.conc != nil && x.conc.IsInf()
	})
	m("Int64", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		if x.conc == nil && len(x.digits)-x.scale <= 17 {
			n := len(x.digits) - x.scale
			ts := w.ts
			r := ts.Const(64, 0)
			for i := 0; i < n; i++ {
				r = ts.Bin(OMul, r, ts.Const(64, 10))
				if i < len(x.digits) {
					d := ts.Bin(OSub, ts.Zext(w.byteTerm(x.digits[i]), 64), ts.Const(64, '0'))
					r = ts.Bin(OAdd, r, d)
				}
			}
			r = ts.Ite(w.boolTerm(x.neg), ts.Bin(OSub, ts.Const(64, 0), r), r)
			acc := int64(0)
			isInt := w.call(w.eng.methodFn("math/big", "Float", "IsInt"), a[:1])
			if !w.truth(isInt) {
				acc = -1 // truncation; the direction is not modelled
			}
			return Tuple{termVal(r, true), acc}
		}
		i, acc := w.concBig(x).Int64()
		return Tuple{i, int64(acc)}
	})
	m("Uint64", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		i, acc := w.concBig(x).Uint64()
		return Tuple{int64(i), int64(acc)}
	})
	m("Float64", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		f, acc := w.concBig(x).Float64()
		return Tuple{f, int64(acc)}
	})
	m("Float32", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		f, acc := w.concBig(x).Float32()
		return Tuple{float64(f), int64(acc)}
	})
	m("Prec", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		if x.conc == nil {
			return int64(x.prec)
		}
		return int64(x.conc.Prec())
	})
	m("MinPrec", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value { return int64(w.concBig(x).MinPrec()) })
	m("Mode", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		if x.conc == nil {
			return int64(0)
		}
		return int64(x.conc.Mode())
	})
	m("SetPrec", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		p := uint(w.concInt(a[1], false))
		if x.conc == nil {
			if p >= x.prec {
				n := *x
				n.prec = p
				setBig(w, a[0], &n)
				return a[0]
			}
		}
		setBig(w, a[0], cbig(new(big.Float).Copy(w.concBig(x)).SetPrec(p)))
		return a[0]
	})
	m("SetMode", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		md := mode(w, a[1])
		if x.conc == nil && md == big.ToNearestEven {
			return a[0]
		}
		setBig(w, a[0], cbig(new(big.Float).Copy(w.concBig(x)).SetMode(md)))
		return a[0]
	})
	set1 := func(n string, f func(z *big.Float, w *W, v Value) *big.Float) {
		m(n, func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
			z := new(big.Float)
			if x.conc != nil {
				z.Copy(x.conc)
			} else {
				z.SetPrec(x.prec)
			}
			f(z, w, a[1])
			setBig(w, a[0], cbig(z))
			return a[0]
		})
	}
	set1("SetInt64", func(z *big.Float, w *W, v Value) *big.Float { return z.SetInt64(w.concInt(v, true)) })
	set1("SetUint64", func(z *big.Float, w *W, v Value) *big.Float { return z.SetUint64(uint64(w.concInt(v, false))) })
	set1("SetFloat64", func(z *big.Float, w *W, v Value) *big.Float { return z.SetFloat64(w.flt(v)) })
	set1("SetInf", func(z *big.Float, w *W, v Value) *big.Float { return z.SetInf(w.truth(v)) })
	m("SetString", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		p := uint(64)
		if x.conc == nil {
			p = x.prec
		} else if x.conc.Prec() != 0 {
			p = x.conc.Prec()
		}
		if _, ok := w.str(a[1]).(string); ok {
			z := new(big.Float).SetPrec(p)
			_, ok := z.SetString(a[1].(string))
			if !ok {
				return Tuple{(*Value)(nil), false}
			}
			setBig(w, a[0], cbig(z))
			return Tuple{a[0], true}
		}
		b, ok := w.bigParse(a[1], 10, p, big.ToNearestEven)
		if !ok {
			return Tuple{(*Value)(nil), false}
		}
		setBig(w, a[0], b)
		return Tuple{a[0], true}
	})
	m("Parse", func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		p := uint(64)
		if x.conc == nil {
			p = x.prec
		} else if x.conc.Prec() != 0 {
			p = x.conc.Prec()
		}
		b, ok := w.bigParse(a[1], int(w.concInt(a[2], true)), p, big.ToNearestEven)
		if !ok {
			return Tuple{(*Value)(nil), int64(0), w.mkErr("bad number")}
		}
		setBig(w, a[0], b)
		return Tuple{a[0], int64(10), Iface{}}
	})
	cp := func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		y := bigOf(w, a[1])
		if fn.Name() == "Set" && x.conc != nil && x.conc.Prec() != 0 {
			if y.conc == nil && y.prec <= x.conc.Prec() {
				n := *y
				n.prec = x.conc.Prec()
				setBig(w, a[0], &n)
				return a[0]
			}
			setBig(w, a[0], cbig(new(big.Float).Copy(x.conc).Set(w.concBig(y))))
			return a[0]
		}
		setBig(w, a[0], y)
		return a[0]
	}
	m("Set", cp)
	m("Copy", cp)
	neg := func(abs bool) func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
		return func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
			y := bigOf(w, a[1])
			if y.conc == nil && x.conc != nil && x.conc.Prec() == 0 {
				n := *y
				if abs {
					n.neg = false
				} else {
					n.neg = w.not(n.neg)
				}
				setBig(w, a[0], &n)
				return a[0]
			}
			z := new(big.Float)
			if x.conc != nil {
				z.Copy(x.conc)
			}
			if abs {
				z.Abs(w.concBig(y))
			} else {
				z.Neg(w.concBig(y))
			}
			setBig(w, a[0], cbig(z))
			return a[0]
		}
	}
	m("Neg", neg(false))
	m("Abs", neg(true))
	arith := func(n string, f func(z, x, y *big.Float) *big.Float) {
		m(n, func(w *W, fn *ssa.Function, x *BigF, a []Value) Value {
			z := new(big.Float)
			if x.conc != nil {
				z.Copy(x.conc)
			}
			f(z, w.concBig(bigOf(w, a[1])), w.concBig(bigOf(w, a[2])))
			setBig(w, a[0], cbig(z))
			return a[0]
		})
	}
	arith("Add", (*big.Float).Add)
	arith("Sub", (*big.Float).Sub)
	arith("Mul", (*big.Float).Mul)
	arith("Quo", (*big.Float).Quo)
}
