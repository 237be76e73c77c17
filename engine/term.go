package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms: hash-consed SMT terms over Bool and fixed-width bit-vectors.
// sort 0 = Bool, 1..64 = BitVec of that width.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OExtract // k = hi<<8|lo
	OZext
	OSext
	OConcat
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OBand: "bvand",
	OBor: "bvor", OBxor: "bvxor", OBnot: "bvnot", ONeg: "bvneg", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

type Mask [4]uint64

type Term struct {
	id       int32
	op       Op
	sort     int16
	k        uint64
	a        [3]*Term
	n        int8
	name     string
	v        *Term  // the only variable, when there is exactly one and it is at most 8 bits wide
	rlo, rhi uint64 // unsigned range, once computed
	rok      bool
	multi    bool  // more than one variable, or a wide one
	mask     *Mask // for Bool terms over one narrow variable: the values that satisfy it
}

type tkey struct {
	op         Op
	sort       int16
	k          uint64
	a0, a1, a2 int32
}

type Terms struct {
	inDec bool
	dec   map[*Term][]*Term
	tab   map[tkey]*Term
	vars  map[string]*Term
	all   []*Term
	True  *Term
	False *Term
}

func NewTerms() *Terms {
	ts := &Terms{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	ts.True = ts.Const(0, 1)
	ts.False = ts.Const(0, 0)
	return ts
}

func wmask(w int16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(v uint64, w int16) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (ts *Terms) intern(t *Term) *Term {
	k := tkey{t.op, t.sort, t.k, -1, -1, -1}
	if t.n > 0 {
		k.a0 = t.a[0].id
	}
	if t.n > 1 {
		k.a1 = t.a[1].id
	}
	if t.n > 2 {
		k.a2 = t.a[2].id
	}
	if o, ok := ts.tab[k]; ok {
		return o
	}
	t.id = int32(len(ts.all))
	for i := int8(0); i < t.n; i++ {
		x := t.a[i]
		if x.multi {
			t.multi = true
		} else if x.v != nil {
			if t.v == nil {
				t.v = x.v
			} else if t.v != x.v {
				t.multi = true
			}
		}
	}
	if t.multi {
		t.v = nil
	}
	ts.tab[k] = t
	ts.all = append(ts.all, t)
	return t
}

func (ts *Terms) Const(sort int16, v uint64) *Term {
	if sort == 0 {
		v &= 1
	} else {
		v &= wmask(sort)
	}
	return ts.intern(&Term{op: OConst, sort: sort, k: v})
}
func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

func (ts *Terms) Var(name string, sort int16) *Term {
	if v, ok := ts.vars[name]; ok {
		if v.sort != sort {
			panic("sort clash for " + name)
		}
		return v
	}
	t := &Term{op: OVar, sort: sort, name: name, id: int32(len(ts.all))}
	if sort <= 8 {
		t.v = t
	} else {
		t.multi = true
	}
	ts.all = append(ts.all, t)
	ts.vars[name] = t
	return t
}

func (ts *Terms) mk(op Op, sort int16, k uint64, args ...*Term) *Term {
	t := &Term{op: op, sort: sort, k: k, n: int8(len(args))}
	copy(t.a[:], args)
	return ts.intern(t)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.k == 1 && t.sort == 0 }
func (t *Term) isFalse() bool { return t.op == OConst && t.k == 0 && t.sort == 0 }

func (ts *Terms) Not(a *Term) *Term {
	if a.isConst() {
		return ts.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return ts.mk(ONot, 0, 0, a)
}
func (ts *Terms) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return ts.False
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return ts.False
	}
	return ts.mk(OAnd, 0, 0, a, b)
}
func (ts *Terms) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return ts.True
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return ts.True
	}
	return ts.mk(OOr, 0, 0, a, b)
}
func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == 0 {
		if a.isTrue() {
			return ts.Or(c, b)
		}
		if a.isFalse() {
			return ts.And(ts.Not(c), b)
		}
		if b.isTrue() {
			return ts.Or(ts.Not(c), a)
		}
		if b.isFalse() {
			return ts.And(c, a)
		}
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	return ts.mk(OIte, a.sort, 0, c, a, b)
}
func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %d %d", a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		return ts.Bool(a.k == b.k)
	}
	if a.sort == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return ts.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if da := ts.decOf(a); da != nil {
		var db []*Term
		if b.isConst() {
			db = ts.decConst(b.k, len(da))
			if db == nil {
				return ts.False
			}
		} else if db = ts.decOf(b); db != nil {
			da, db = ts.decAlign(da, db)
		}
		if db != nil {
			r := ts.True
			for i := range da {
				r = ts.And(r, ts.Eq(da[i], db[i]))
			}
			return r
		}
	}
	if b.isConst() && a.op == ONeg {
		return ts.Eq(a.a[0], ts.Const(a.sort, -b.k))
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			in := a.a[0]
			if b.k > wmask(in.sort) {
				return ts.False
			}
			return ts.Eq(in, ts.Const(in.sort, b.k))
		case OSext:
			in := a.a[0]
			if uint64(sx(b.k&wmask(in.sort), in.sort))&wmask(a.sort) != b.k {
				return ts.False
			}
			return ts.Eq(in, ts.Const(in.sort, b.k))
		case OIte:
			if a.a[1].isConst() && a.a[2].isConst() {
				x, y := a.a[1].k == b.k, a.a[2].k == b.k
				switch {
				case x && y:
					return ts.True
				case x:
					return a.a[0]
				case y:
					return ts.Not(a.a[0])
				default:
					return ts.False
				}
			}
			if a.a[1].isConst() {
				if a.a[1].k == b.k {
					return ts.Or(a.a[0], ts.Eq(a.a[2], b))
				}
				return ts.And(ts.Not(a.a[0]), ts.Eq(a.a[2], b))
			}
		case OAdd:
			if a.a[1].isConst() {
				return ts.Eq(a.a[0], ts.Const(a.sort, b.k-a.a[1].k))
			}
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if a.op == OZext && b.op == OZext && a.a[0].sort == b.a[0].sort {
		return ts.Eq(a.a[0], b.a[0])
	}
	return ts.mk(OEq, 0, 0, a, b)
}

// unsigned range of a bit-vector term
func (t *Term) urange() (lo, hi uint64) {
	if !t.rok {
		t.rlo, t.rhi = t.urangeD(1)
		t.rok = true
	}
	return t.rlo, t.rhi
}
func (t *Term) urangeD(d int) (lo, hi uint64) {
	m := wmask(t.sort)
	if t.op == OConst {
		return t.k, t.k
	}
	switch t.op {
	case OZext:
		return t.a[0].urange()
	case OExtract:
		if l, h := t.a[0].urange(); t.k&0xff == 0 && h <= m {
			return l, h
		}
	case OIte:
		l1, h1 := t.a[1].urange()
		l2, h2 := t.a[2].urange()
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case OAdd:
		l1, h1 := t.a[0].urange()
		l2, h2 := t.a[1].urange()
		h, c := bits.Add64(h1, h2, 0)
		if c == 0 && h <= m {
			return l1 + l2, h
		}
	case OMul:
		l1, h1 := t.a[0].urange()
		l2, h2 := t.a[1].urange()
		c, h := bits.Mul64(h1, h2)
		if c == 0 && h <= m {
			return l1 * l2, h
		}
	case OUdiv:
		l1, h1 := t.a[0].urange()
		if t.a[1].isConst() && t.a[1].k != 0 {
			return l1 / t.a[1].k, h1 / t.a[1].k
		}
	case OUrem:
		if t.a[1].isConst() && t.a[1].k != 0 {
			return 0, t.a[1].k - 1
		}
	case OBand:
		_, h1 := t.a[0].urange()
		_, h2 := t.a[1].urange()
		if h2 < h1 {
			h1 = h2
		}
		return 0, h1
	}
	return 0, m
}

func (ts *Terms) cmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		var r bool
		switch op {
		case OUlt:
			r = a.k < b.k
		case OUle:
			r = a.k <= b.k
		case OSlt:
			r = sx(a.k, a.sort) < sx(b.k, b.sort)
		case OSle:
			r = sx(a.k, a.sort) <= sx(b.k, b.sort)
		}
		return ts.Bool(r)
	}
	if a == b {
		return ts.Bool(op == OUle || op == OSle)
	}
	l1, h1 := a.urange()
	l2, h2 := b.urange()
	smax := wmask(a.sort) >> 1
	if op == OSlt || op == OSle {
		if h1 <= smax && h2 <= smax { // both non-negative
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if h1 <= smax && l2 > smax {
			return ts.False
		} else if l1 > smax && h2 <= smax {
			return ts.True
		}
	}
	switch op {
	case OUlt:
		if h1 < l2 {
			return ts.True
		}
		if l1 >= h2 {
			return ts.False
		}
	case OUle:
		if h1 <= l2 {
			return ts.True
		}
		if l1 > h2 {
			return ts.False
		}
	}
	if op == OSlt || op == OSle {
		// signed comparisons of numbers written as plus or minus a non-negative term
		na, oka := ts.negPart(a)
		nb, okb := ts.negPart(b)
		switch {
		case oka && okb:
			return ts.cmp(op, nb, na)
		case oka && h2 <= smax:
			if op == OSle {
				return ts.True
			}
			z := ts.Const(a.sort, 0)
			return ts.Not(ts.And(ts.Eq(na, z), ts.Eq(b, z)))
		case okb && h1 <= smax:
			if op == OSlt {
				return ts.False
			}
			z := ts.Const(a.sort, 0)
			return ts.And(ts.Eq(a, z), ts.Eq(nb, z))
		}
	}
	if op == OUlt || op == OUle {
		da, db := ts.decOf(a), ts.decOf(b)
		if da != nil && b.isConst() {
			db = ts.decConst(b.k, len(da))
			if db == nil {
				return ts.True
			}
		} else if db != nil && a.isConst() {
			da = ts.decConst(a.k, len(db))
			if da == nil {
				return ts.False
			}
		}
		if da != nil && db != nil {
			da, db = ts.decAlign(da, db)
			r := ts.Bool(op == OUle)
			for i := len(da) - 1; i >= 0; i-- {
				r = ts.Or(ts.Ult(da[i], db[i]), ts.And(ts.Eq(da[i], db[i]), r))
			}
			return r
		}
	}
	if op == OUlt || op == OUle { // narrow zero-extended comparisons
		if a.op == OZext && b.isConst() && b.k <= wmask(a.a[0].sort) {
			return ts.cmp(op, a.a[0], ts.Const(a.a[0].sort, b.k))
		}
		if b.op == OZext && a.isConst() && a.k <= wmask(b.a[0].sort) {
			return ts.cmp(op, ts.Const(b.a[0].sort, a.k), b.a[0])
		}
		if a.op == OZext && b.op == OZext && a.a[0].sort == b.a[0].sort {
			return ts.cmp(op, a.a[0], b.a[0])
		}
	}
	return ts.mk(op, 0, 0, a, b)
}

func (ts *Terms) Ult(a, b *Term) *Term { return ts.cmp(OUlt, a, b) }
func (ts *Terms) Ule(a, b *Term) *Term { return ts.cmp(OUle, a, b) }
func (ts *Terms) Slt(a, b *Term) *Term { return ts.cmp(OSlt, a, b) }
func (ts *Terms) Sle(a, b *Term) *Term { return ts.cmp(OSle, a, b) }

func evalBin(op Op, w int16, x, y uint64) uint64 {
	m := wmask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	}
	panic("evalBin")
}

func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin %s sort mismatch %d %d", opName[op], a.sort, b.sort))
	}
	w := a.sort
	if a.isConst() && b.isConst() {
		return ts.Const(w, evalBin(op, w, a.k, b.k))
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isConst() {
				return ts.Bin(OAdd, a.a[0], ts.Const(w, a.a[1].k+b.k))
			}
		} else if b.op == OAdd && b.a[1].isConst() {
			return ts.Bin(OAdd, ts.Bin(OAdd, a, b.a[0]), b.a[1])
		} else if a.op == OAdd && a.a[1].isConst() {
			return ts.Bin(OAdd, ts.Bin(OAdd, a.a[0], b), a.a[1])
		}
	case OSub:
		if b.isConst() {
			return ts.Bin(OAdd, a, ts.Const(w, -b.k))
		}
		if a == b {
			return ts.Const(w, 0)
		}
		if a.isConst() && a.k == 0 {
			return ts.Neg(b)
		}
		if da, db := ts.decOf(a), ts.decOf(b); da != nil && db != nil && len(db) < len(da) {
			suf := true
			for i := range db {
				suf = suf && db[i] == da[len(da)-len(db)+i]
			}
			if suf {
				n := append([]*Term(nil), da[:len(da)-len(db)]...)
				for range db {
					n = append(n, ts.Const(8, 0))
				}
				return ts.Dec(n, w)
			}
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if da := ts.decOf(a); da != nil && !ts.inDec {
				if k := pow10(b.k); k > 0 && len(da)+k <= 18 {
					n := append([]*Term(nil), da...)
					for ; k > 0; k-- {
						n = append(n, ts.Const(8, 0))
					}
					return ts.Dec(n, w)
				}
			}
		}
	case OSdiv, OSrem:
		if n, ok := ts.negPart(a); ok && b.isConst() && b.k > 0 && b.k <= wmask(w)>>1 {
			return ts.Neg(ts.Bin(op, n, b))
		}
		_, h1 := a.urange()
		_, h2 := b.urange()
		smax := wmask(w) >> 1
		if h1 <= smax && h2 <= smax {
			if op == OSdiv {
				return ts.Bin(OUdiv, a, b)
			}
			return ts.Bin(OUrem, a, b)
		}
	case OUdiv, OUrem:
		if b.isConst() && b.k != 0 {
			if ds := ts.decOf(a); ds != nil {
				if op == OUrem && b.k == 4 && len(ds) > 2 {
					return ts.Bin(OUrem, ts.Dec(ds[len(ds)-2:], w), b)
				}
				if op == OUrem && b.k == 400 && len(ds) > 2 {
					return ts.Bin(OAdd, ts.Bin(OMul, ts.Bin(OUrem, ts.Dec(ds[:len(ds)-2], w), ts.Const(w, 4)), ts.Const(w, 100)), ts.Dec(ds[len(ds)-2:], w))
				}
				if k := pow10(b.k); k > 0 {
					if k >= len(ds) {
						if op == OUdiv {
							return ts.Const(w, 0)
						}
						return a
					}
					if op == OUdiv {
						return ts.Dec(ds[:len(ds)-k], w)
					}
					return ts.Dec(ds[len(ds)-k:], w)
				}
			}
			_, h := a.urange()
			if h < b.k {
				if op == OUdiv {
					return ts.Const(w, 0)
				}
				return a
			}
			if b.k == 1 {
				if op == OUdiv {
					return a
				}
				return ts.Const(w, 0)
			}
			if h <= 0xff && w > 8 && b.k <= 0xff {
				return ts.Zext(ts.Bin(op, ts.Extract(a, 7, 0), ts.Const(8, b.k)), w)
			}
			if h <= 0xffff && w > 16 && b.k <= 0xffff {
				return ts.Zext(ts.Bin(op, ts.Extract(a, 15, 0), ts.Const(16, b.k)), w)
			}
			if h <= 0xffffffff && w > 32 && b.k <= 0xffffffff {
				return ts.Zext(ts.Bin(op, ts.Extract(a, 31, 0), ts.Const(32, b.k)), w)
			}
		}
	case OBand:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == wmask(w) {
				return a
			}
			if a.op == OZext && b.k >= wmask(a.a[0].sort) && (b.k&wmask(a.a[0].sort)) == wmask(a.a[0].sort) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBor, OBxor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			if op == OBor {
				return a
			}
			return ts.Const(w, 0)
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.k == 0 {
			return a
		}
	}
	return ts.mk(op, w, 0, a, b)
}
func (ts *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return ts.Const(a.sort, -a.k)
	}
	if a.op == ONeg {
		return a.a[0]
	}
	return ts.mk(ONeg, a.sort, 0, a)
}
func (ts *Terms) Bnot(a *Term) *Term {
	if a.isConst() {
		return ts.Const(a.sort, ^a.k)
	}
	return ts.mk(OBnot, a.sort, 0, a)
}
func (ts *Terms) Extract(a *Term, hi, lo int) *Term {
	w := int16(hi - lo + 1)
	if w == a.sort {
		return a
	}
	if a.isConst() {
		return ts.Const(w, a.k>>uint(lo))
	}
	if lo == 0 {
		switch a.op {
		case OZext, OSext:
			in := a.a[0]
			if in.sort == w {
				return in
			}
			if in.sort > w {
				return ts.Extract(in, hi, 0)
			}
			if a.op == OZext {
				return ts.Zext(in, w)
			}
			return ts.Sext(in, w)
		case OAdd, OSub, OMul, OBand, OBor, OBxor:
			return ts.Bin(a.op, ts.Extract(a.a[0], hi, 0), ts.Extract(a.a[1], hi, 0))
		case OIte:
			return ts.Ite(a.a[0], ts.Extract(a.a[1], hi, 0), ts.Extract(a.a[2], hi, 0))
		}
	} else if a.op == OZext && lo >= int(a.a[0].sort) {
		return ts.Const(w, 0)
	}
	return ts.mk(OExtract, w, uint64(hi)<<8|uint64(lo), a)
}
func (ts *Terms) Zext(a *Term, w int16) *Term {
	if a.sort == w {
		return a
	}
	if a.isConst() {
		return ts.Const(w, a.k)
	}
	if a.op == OZext {
		return ts.mk(OZext, w, 0, a.a[0])
	}
	if a.op == OAdd && a.a[1].isConst() && a.a[1].k <= 255 {
		if _, h := a.a[0].urange(); h+a.a[1].k <= wmask(a.sort) {
			return ts.Bin(OAdd, ts.Zext(a.a[0], w), ts.Const(w, a.a[1].k))
		}
	}
	return ts.mk(OZext, w, 0, a)
}
func (ts *Terms) Sext(a *Term, w int16) *Term {
	if a.sort == w {
		return a
	}
	if a.isConst() {
		return ts.Const(w, uint64(sx(a.k, a.sort)))
	}
	if _, h := a.urange(); h <= wmask(a.sort)>>1 {
		return ts.Zext(a, w)
	}
	return ts.mk(OSext, w, 0, a)
}

// resize with Go conversion semantics
func (ts *Terms) Resize(a *Term, w int16, signed bool) *Term {
	if w == a.sort {
		return a
	}
	if w < a.sort {
		return ts.Extract(a, int(w)-1, 0)
	}
	if signed {
		return ts.Sext(a, w)
	}
	return ts.Zext(a, w)
}

// Eval evaluates a term under an assignment (missing variables are 0).
func (t *Term) Eval(m map[*Term]uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m[t] & func() uint64 {
			if t.sort == 0 {
				return 1
			}
			return wmask(t.sort)
		}()
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	b := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	x := func(i int) uint64 { return t.a[i].Eval(m, memo) }
	switch t.op {
	case ONot:
		r = 1 - x(0)
	case OAnd:
		r = x(0) & x(1)
	case OOr:
		r = x(0) | x(1)
	case OEq:
		r = b(x(0) == x(1))
	case OIte:
		if x(0) == 1 {
			r = x(1)
		} else {
			r = x(2)
		}
	case OUlt:
		r = b(x(0) < x(1))
	case OUle:
		r = b(x(0) <= x(1))
	case OSlt:
		r = b(sx(x(0), t.a[0].sort) < sx(x(1), t.a[0].sort))
	case OSle:
		r = b(sx(x(0), t.a[0].sort) <= sx(x(1), t.a[0].sort))
	case OExtract:
		r = (x(0) >> (t.k & 0xff)) & wmask(t.sort)
	case OZext:
		r = x(0)
	case OSext:
		r = uint64(sx(x(0), t.a[0].sort)) & wmask(t.sort)
	case OBnot:
		r = ^x(0) & wmask(t.sort)
	case ONeg:
		r = -x(0) & wmask(t.sort)
	case OConcat:
		r = x(0)<<uint(t.a[1].sort) | x(1)
	default:
		r = evalBin(t.op, t.sort, x(0), x(1))
	}
	memo[t] = r
	return r
}

func (t *Term) getMask() *Mask {
	if t.mask != nil {
		return t.mask
	}
	var m Mask
	n := 1 << uint(t.v.sort)
	if t.v.sort == 0 {
		n = 2
	}
	asg := map[*Term]uint64{}
	for i := 0; i < n; i++ {
		asg[t.v] = uint64(i)
		if t.Eval(asg, map[*Term]uint64{}) == 1 {
			m[i>>6] |= 1 << uint(i&63)
		}
	}
	t.mask = &m
	return t.mask
}

func sortStr(s int16) string {
	if s == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func constStr(t *Term) string {
	if t.sort == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	if t.sort%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.sort/4), t.k)
	}
	return fmt.Sprintf("#b%0*b", int(t.sort), t.k)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.k>>8, t.k&0xff, t.a[0].ref())
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.sort-t.a[0].sort, t.a[0].ref())
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.sort-t.a[0].sort, t.a[0].ref())
	default:
		sb.WriteString("(" + opName[t.op])
		for i := int8(0); i < t.n; i++ {
			sb.WriteString(" " + t.a[i].ref())
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// human-readable rendering, depth-limited
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	var sb strings.Builder
	n := opName[t.op]
	if n == "" {
		n = map[Op]string{OExtract: "extract", OZext: "zext", OSext: "sext"}[t.op]
	}
	sb.WriteString("(" + n)
	for i := int8(0); i < t.n; i++ {
		sb.WriteString(" " + t.a[i].str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}

// Dec is the number written by the given decimal digits (8-bit terms, each 0..9), most significant first.
func (ts *Terms) Dec(ds []*Term, w int16) *Term {
	r := ts.Const(w, 0)
	old := ts.inDec
	ts.inDec = true
	defer func() { ts.inDec = old }()
	for _, d := range ds {
		r = ts.Bin(OAdd, ts.Bin(OMul, r, ts.Const(w, 10)), ts.Zext(d, w))
	}
	if ts.dec == nil {
		ts.dec = map[*Term][]*Term{}
	}
	if !r.isConst() && len(ds) > 1 {
		ts.dec[r] = ds
		if len(ds) < 19 {
			r.rlo, r.rhi, r.rok = 0, 1, true
			for range ds {
				r.rhi *= 10
			}
			r.rhi--
		}
	}
	return r
}

// decConst: the n decimal digits of k, nil if it has more
func (ts *Terms) decConst(k uint64, n int) []*Term {
	ds := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		ds[i] = ts.Const(8, k%10)
		k /= 10
	}
	if k != 0 {
		return nil
	}
	return ds
}

func (ts *Terms) decAlign(a, b []*Term) ([]*Term, []*Term) {
	for len(a) < len(b) {
		a = append([]*Term{ts.Const(8, 0)}, a...)
	}
	for len(b) < len(a) {
		b = append([]*Term{ts.Const(8, 0)}, b...)
	}
	return a, b
}

func (ts *Terms) decOf(t *Term) []*Term { return ts.dec[t] }

func pow10(k uint64) int {
	n := 0
	for k > 1 && k%10 == 0 {
		k /= 10
		n++
	}
	if k != 1 {
		return 0
	}
	return n
}

// negPart: t = -n with n known to be non-negative
func (ts *Terms) negPart(t *Term) (*Term, bool) {
	smax := wmask(t.sort) >> 1
	if t.op == ONeg {
		if _, h := t.a[0].urange(); h <= smax {
			return t.a[0], true
		}
	}
	if t.isConst() && t.k > smax && t.k != smax+1 {
		return ts.Const(t.sort, -t.k), true
	}
	return nil, false
}
