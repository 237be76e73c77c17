package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Civil is an instant given by its UTC calendar fields (64-bit ints, concrete or symbolic).
type Civil struct {
	f     [7]Value // year month day hour minute second nanosecond
	local map[*Value]*Civil
}

func (w *W) civilOf(v Value) (*Civil, Struct) {
	s, ok := v.(Struct)
	if !ok || len(s) < 3 {
		return nil, nil
	}
	if o, ok := s[1].(*Opaque); ok {
		if c, ok := o.v.(*Civil); ok {
			return c, s
		}
	}
	return nil, s
}

func (w *W) ic(v Value) *Term { return w.intTerm(v, 64) }
func (w *W) ik(k int64) *Term { return w.ts.Const(64, uint64(k)) }

func (w *W) leap(y Value) *Term {
	ts := w.ts
	t := w.ic(y)
	z := func(k int64) *Term { return ts.Eq(ts.Bin(OSrem, t, w.ik(k)), w.ik(0)) }
	return ts.And(z(4), ts.Or(ts.Not(z(100)), z(400)))
}

func (w *W) daysIn(y, m Value) *Term {
	ts := w.ts
	t := w.ic(m)
	r := w.ik(31)
	for _, k := range []int64{4, 6, 9, 11} {
		r = ts.Ite(ts.Eq(t, w.ik(k)), w.ik(30), r)
	}
	return ts.Ite(ts.Eq(t, w.ik(2)), ts.Ite(w.leap(y), w.ik(29), w.ik(28)), r)
}

// shift adds d seconds (|d| <= 86400) to the civil time, forking on day changes
func (w *W) civilShift(c *Civil, d Value) *Civil {
	if d == int64(0) {
		return c
	}
	ts := w.ts
	dt := w.ic(d)
	if !w.truth(termVal(ts.And(ts.Sle(w.ik(-86399), dt), ts.Sle(dt, w.ik(86399))), false)) {
		w.unsupported("large shift of a symbolic time")
	}
	n := &Civil{f: c.f}
	v := func(t *Term) Value { return termVal(t, true) }
	add := func(a, b *Term) *Term { return ts.Bin(OAdd, a, b) }
	// split the shift into whole hours, minutes and seconds of the same sign
	var oh, om, os *Term
	if dt.isConst() {
		x := sx(dt.k, 64)
		oh, om, os = w.ik(x/3600), w.ik(x/60%60), w.ik(x%60)
	} else {
		neg := w.truth(v(ts.Slt(dt, w.ik(0))))
		ab := dt
		if neg {
			ab = ts.Neg(dt)
		}
		a32 := ts.Extract(ab, 31, 0)
		k32 := func(k uint64) *Term { return ts.Const(32, k) }
		oh = ts.Zext(ts.Bin(OUdiv, a32, k32(3600)), 64)
		om = ts.Zext(ts.Bin(OUrem, ts.Bin(OUdiv, a32, k32(60)), k32(60)), 64)
		os = ts.Zext(ts.Bin(OUrem, a32, k32(60)), 64)
		if neg {
			oh, om, os = ts.Neg(oh), ts.Neg(om), ts.Neg(os)
		}
	}
	carry := func(t *Term, m int64) (*Term, *Term) {
		lo, hi := ts.Slt(t, w.ik(0)), ts.Sle(w.ik(m), t)
		return ts.Ite(lo, add(t, w.ik(m)), ts.Ite(hi, add(t, w.ik(-m)), t)), ts.Ite(lo, w.ik(-1), ts.Ite(hi, w.ik(1), w.ik(0)))
	}
	sec, cs := carry(add(w.ic(c.f[5]), os), 60)
	min, cm := carry(add(add(w.ic(c.f[4]), om), cs), 60)
	hr, cd := carry(add(add(w.ic(c.f[3]), oh), cm), 24)
	n.f[3], n.f[4], n.f[5] = v(hr), v(min), v(sec)
	dayDelta := int64(0)
	if w.truth(v(ts.Eq(cd, w.ik(-1)))) {
		dayDelta = -1
	} else if w.truth(v(ts.Eq(cd, w.ik(1)))) {
		dayDelta = 1
	}
	y, m, dd := w.ic(c.f[0]), w.ic(c.f[1]), w.ic(c.f[2])
	switch dayDelta {
	case -1:
		if w.truth(v(ts.Eq(dd, w.ik(1)))) {
			if w.truth(v(ts.Eq(m, w.ik(1)))) {
				n.f[0], n.f[1], n.f[2] = v(ts.Bin(OSub, y, w.ik(1))), int64(12), int64(31)
			} else {
				n.f[1] = v(ts.Bin(OSub, m, w.ik(1)))
				n.f[2] = v(w.daysIn(c.f[0], n.f[1]))
			}
		} else {
			n.f[2] = v(ts.Bin(OSub, dd, w.ik(1)))
		}
	case 1:
		if w.truth(v(ts.Eq(dd, w.daysIn(c.f[0], c.f[1])))) {
			n.f[2] = int64(1)
			if w.truth(v(ts.Eq(m, w.ik(12)))) {
				n.f[0], n.f[1] = v(ts.Bin(OAdd, y, w.ik(1))), int64(1)
			} else {
				n.f[1] = v(ts.Bin(OAdd, m, w.ik(1)))
			}
		} else {
			n.f[2] = v(ts.Bin(OAdd, dd, w.ik(1)))
		}
	}
	return n
}

// zoneOffset: offset in seconds of a fixed location; ok=false if not fixed
func (w *W) zoneOffset(loc Value) (Value, bool) {
	p, _ := loc.(*Value)
	if p == nil {
		return int64(0), true
	}
	s, ok := (*p).(Struct)
	if !ok {
		return nil, false
	}
	zs := s[1].([]Value)
	if len(zs) == 0 {
		return int64(0), true
	}
	if len(zs) == 1 {
		return zs[0].(Struct)[1], true
	}
	return nil, false
}

func (w *W) civilLocal(c *Civil, s Struct) *Civil {
	p, _ := s[2].(*Value)
	if p == nil {
		return c
	}
	if l := c.local[p]; l != nil {
		return l
	}
	off, ok := w.zoneOffset(p)
	if !ok {
		w.unsupported("time zone with transitions")
	}
	l := w.civilShift(c, off)
	if c.local == nil {
		c.local = map[*Value]*Civil{}
	}
	c.local[p] = l
	return l
}

func (w *W) civilEq(a, b *Civil) Value {
	var r Value = true
	for i := range a.f {
		r = w.and(r, termVal(w.ts.Eq(w.ic(a.f[i]), w.ic(b.f[i])), false))
	}
	return r
}

func (w *W) civilLess(a, b *Civil) Value {
	ts := w.ts
	r := ts.False
	for i := 6; i >= 0; i-- {
		x, y := w.ic(a.f[i]), w.ic(b.f[i])
		r = ts.Ite(ts.Eq(x, y), r, ts.Slt(x, y))
	}
	return termVal(r, false)
}

// toCivil also accepts ordinary concrete times
func (w *W) toCivil(v Value) *Civil {
	if c, _ := w.civilOf(v); c != nil {
		return c
	}
	s := copyVal(v).(Struct)
	s[2] = (*Value)(nil)
	c := &Civil{}
	for i, n := range []string{"Year", "Month", "Day", "Hour", "Minute", "Second", "Nanosecond"} {
		fn := w.eng.methodFnV("time", "Time", n)
		c.f[i] = w.exec(w.eng.bodyOf(fn), []Value{copyVal(s)}, nil, nil)
	}
	return c
}

func initTime() {
	isUTC := func(w *W, loc Value) bool {
		off, ok := w.zoneOffset(loc)
		return ok && off == int64(0)
	}
	_ = isUTC
	reg("time.initLocal", func(w *W, fn *ssa.Function, a []Value) Value { return nil })
	reg("time.runtimeNano", func(w *W, fn *ssa.Function, a []Value) Value { return int64(1000000) })
	reg("time.now", func(w *W, fn *ssa.Function, a []Value) Value {
		return Tuple{int64(1700000000), int64(123456789), int64(1000000)}
	})
	reg("time.Now", func(w *W, fn *ssa.Function, a []Value) Value {
		f := w.eng.fn("time", "Unix")
		return w.call(f, []Value{int64(1700000000), int64(123456789)})
	})
	reg("time.Date", func(w *W, fn *ssa.Function, a []Value) Value {
		if isConcrete(a[:7]) {
			if off, ok := w.zoneOffset(a[7]); ok && isConcrete(off) {
				return w.exec(w.eng.bodyOf(fn), a, nil, nil)
			}
		}
		loc, _ := a[7].(*Value)
		if loc == nil {
			w.throw(Iface{tstr(), "time: missing Location in call to Date"})
		}
		off, ok := w.zoneOffset(a[7])
		if !ok {
			w.unsupported("time.Date in a zone with transitions")
		}
		ts := w.ts
		rng := func(v Value, lo, hi int64) *Term { return ts.And(ts.Sle(w.ik(lo), w.ic(v)), ts.Sle(w.ic(v), w.ik(hi))) }
		valid := ts.And(rng(a[1], 1, 12), ts.And(rng(a[3], 0, 23), ts.And(rng(a[4], 0, 59), ts.And(rng(a[5], 0, 59), rng(a[6], 0, 999999999)))))
		valid = ts.And(valid, ts.And(ts.Sle(w.ik(1), w.ic(a[2])), ts.Sle(w.ic(a[2]), w.daysIn(a[0], a[1]))))
		if !w.truth(termVal(valid, false)) {
			// normalisation of out-of-range fields: done concretely
			b := append([]Value(nil), a...)
			for i := 0; i < 7; i++ {
				b[i] = w.concInt(b[i], true)
			}
			return w.exec(w.eng.bodyOf(fn), b, nil, nil)
		}
		c := &Civil{}
		copy(c.f[:], a[:7])
		if off != int64(0) {
			u := w.civilShift(c, w.binSub(int64(0), off))
			u.local = map[*Value]*Civil{loc: c}
			c = u
		}
		z := zero(fn.Signature.Results().At(0).Type()).(Struct)
		z[1] = &Opaque{"civil", c}
		// UTC is represented by a nil location
		utc := w.global(w.eng.global("time", "utcLoc"))
		if loc != utc {
			z[2] = loc
		}
		return z
	})
	acc := func(name string, f func(w *W, c *Civil) Value) {
		reg("(time.Time)."+name, func(w *W, fn *ssa.Function, a []Value) Value {
			c, s := w.civilOf(a[0])
			if c == nil {
				return w.exec(w.eng.bodyOf(fn), a, nil, nil)
			}
			return f(w, w.civilLocal(c, s))
		})
	}
	for i, n := range []string{"Year", "Month", "Day", "Hour", "Minute", "Second", "Nanosecond"} {
		i := i
		acc(n, func(w *W, c *Civil) Value { return c.f[i] })
	}
	acc("Date", func(w *W, c *Civil) Value { return Tuple{c.f[0], c.f[1], c.f[2]} })
	acc("Clock", func(w *W, c *Civil) Value { return Tuple{c.f[3], c.f[4], c.f[5]} })
	acc("absSec", func(w *W, c *Civil) Value { return &Opaque{"abs", c} })
	reg("(time.Time).locabs", func(w *W, fn *ssa.Function, a []Value) Value {
		c, s := w.civilOf(a[0])
		if c == nil {
			return w.exec(w.eng.bodyOf(fn), a, nil, nil)
		}
		off, _ := w.zoneOffset(s[2])
		var name Value = "UTC"
		if p, _ := s[2].(*Value); p != nil {
			name = (*p).(Struct)[0]
		}
		return Tuple{name, off, &Opaque{"abs", w.civilLocal(c, s)}}
	})
	pass := func(name string, f func(w *W, c *Civil) Value) {
		reg(name, func(w *W, fn *ssa.Function, a []Value) Value {
			if o, ok := a[0].(*Opaque); ok {
				return f(w, o.v.(*Civil))
			}
			return w.exec(w.eng.bodyOf(fn), a, nil, nil)
		})
	}
	pass("(time.absSeconds).days", func(w *W, c *Civil) Value { return &Opaque{"abs", c} })
	pass("(time.absDays).date", func(w *W, c *Civil) Value { return Tuple{c.f[0], c.f[1], c.f[2]} })
	pass("(time.absSeconds).clock", func(w *W, c *Civil) Value { return Tuple{c.f[3], c.f[4], c.f[5]} })
	reg("(time.Time).IsZero", func(w *W, fn *ssa.Function, a []Value) Value {
		c, _ := w.civilOf(a[0])
		if c == nil {
			return w.exec(w.eng.bodyOf(fn), a, nil, nil)
		}
		return w.civilEq(c, &Civil{f: [7]Value{int64(1), int64(1), int64(1), int64(0), int64(0), int64(0), int64(0)}})
	})
	cmp := func(name string, f func(w *W, a, b *Civil) Value) {
		reg("(time.Time)."+name, func(w *W, fn *ssa.Function, a []Value) Value {
			c, _ := w.civilOf(a[0])
			d, _ := w.civilOf(a[1])
			if c == nil && d == nil {
				return w.exec(w.eng.bodyOf(fn), a, nil, nil)
			}
			return f(w, w.toCivil(a[0]), w.toCivil(a[1]))
		})
	}
	cmp("Equal", func(w *W, a, b *Civil) Value { return w.civilEq(a, b) })
	cmp("Before", func(w *W, a, b *Civil) Value { return w.civilLess(a, b) })
	cmp("After", func(w *W, a, b *Civil) Value { return w.civilLess(b, a) })
	reg("(*time.Time).setLoc", func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.ptr(a[0])
		if c, s := w.civilOf(*p); c != nil {
			loc, _ := a[1].(*Value)
			if loc == w.global(w.eng.global("time", "utcLoc")) {
				loc = nil
			}
			s[2] = loc
			return nil
		}
		return w.exec(w.eng.bodyOf(fn), a, nil, nil)
	})
	reg("(*time.Time).stripMono", func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.ptr(a[0])
		if c, _ := w.civilOf(*p); c != nil {
			return nil
		}
		return w.exec(w.eng.bodyOf(fn), a, nil, nil)
	})
	reg("(*time.Time).addSec", func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.ptr(a[0])
		if c, s := w.civilOf(*p); c != nil {
			s[1] = &Opaque{"civil", w.civilShift(c, a[1])}
			return nil
		}
		return w.exec(w.eng.bodyOf(fn), a, nil, nil)
	})
	reg("(time.Time).Truncate", func(w *W, fn *ssa.Function, a []Value) Value {
		c, s := w.civilOf(a[0])
		if c == nil {
			return w.exec(w.eng.bodyOf(fn), a, nil, nil)
		}
		d := w.concInt(a[1], true)
		if d <= 0 || d > 1000000000 || 1000000000%d != 0 {
			w.unsupported("Truncate of a symbolic time")
		}
		n := &Civil{f: c.f}
		ns := w.ic(c.f[6])
		n.f[6] = termVal(w.ts.Bin(OSub, ns, w.ts.Bin(OSrem, ns, w.ik(d))), true)
		r := copyVal(s).(Struct)
		r[1] = &Opaque{"civil", n}
		return r
	})
	reg("(time.Time).Add", func(w *W, fn *ssa.Function, a []Value) Value {
		c, s := w.civilOf(a[0])
		if c == nil {
			return w.exec(w.eng.bodyOf(fn), a, nil, nil)
		}
		d := w.concInt(a[1], true)
		if d%1000000000 != 0 {
			w.unsupported("sub-second Add on a symbolic time")
		}
		r := copyVal(s).(Struct)
		r[1] = &Opaque{"civil", w.civilShift(c, d/1000000000)}
		return r
	})
	_ = types.Typ
}

func (w *W) binSub(a, b Value) Value {
	return termVal(w.ts.Bin(OSub, w.ic(a), w.ic(b)), true)
}
