package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

const repoPrefix = "github.com/boynton/sadl"
const rtPath = "github.com/boynton/sadl/zzrt"

var intrinsics map[string]Intrinsic
var pureIntr = map[string]bool{}

func reg(name string, f Intrinsic) { intrinsics[name] = f }

func tstr() types.Type { return types.Typ[types.String] }

func (w *W) ndName(v Value) string {
	n := v.(string)
	k := w.ndCount[n]
	w.ndCount[n]++
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (w *W) rangeAssume(t *Term, lo, hi int64) {
	ts := w.ts
	w.assume(termVal(ts.And(ts.Sle(ts.Const(t.sort, uint64(lo)), t), ts.Sle(t, ts.Const(t.sort, uint64(hi)))), false))
}

// rangeTerm builds the condition pred(x) for an 8-bit-ranged term from its truth table
func (w *W) rangeTerm(x *Term, pred func(int) bool) *Term {
	ts := w.ts
	r := ts.False
	for i := 0; i < 256; {
		if !pred(i) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && pred(j+1) {
			j++
		}
		var c *Term
		lo, hi := ts.Const(x.sort, uint64(i)), ts.Const(x.sort, uint64(j))
		switch {
		case i == j:
			c = ts.Eq(x, lo)
		case i == 0:
			c = ts.Ule(x, hi)
		case j == 255 && x.sort == 8:
			c = ts.Ule(lo, x)
		default:
			c = ts.And(ts.Ule(lo, x), ts.Ule(x, hi))
		}
		r = ts.Or(r, c)
		i = j + 1
	}
	return r
}

// maxOf bounds a term using the path's knowledge of its only variable
func (w *W) maxOf(t *Term) uint64 {
	_, hi := t.urange()
	if t.multi || t.v == nil {
		return hi
	}
	m := w.masks[t.v]
	if w.sub != nil {
		m = w.sub.masks[t.v]
	}
	if m == nil {
		return hi
	}
	in := t
	for in.op == OZext {
		in = in.a[0]
	}
	if in.op == OVar {
		for i := 255; i >= 0; i-- {
			if m[i>>6]>>(uint(i)&63)&1 == 1 {
				return uint64(i)
			}
		}
	}
	return hi
}

func init() {
	intrinsics = map[string]Intrinsic{}
	rt := func(n string, f Intrinsic) { reg(rtPath+"."+n, f) }
	rt("Bool", func(w *W, fn *ssa.Function, a []Value) Value {
		n := w.ndName(a[0])
		t := w.ts.Var(n, 0)
		w.nd = append(w.nd, Nondet{Name: n, Kind: "bool", V: t})
		return t
	})
	mkInt := func(name string, wd int16, signed bool) {
		rt(name, func(w *W, fn *ssa.Function, a []Value) Value {
			n := w.ndName(a[0])
			if lo, hi := a[1].(int64), a[2].(int64); lo >= 0 && hi >= 0 && hi < 1<<32 && lo < hi && wd > 8 {
				// carried by a narrow variable
				nw := int16(8)
				if hi > 255 {
					nw = 16
				}
				if hi > 65535 {
					nw = 32
				}
				if nw < wd {
					ts := w.ts
					v := ts.Var(n+"$n", nw)
					t := ts.Zext(v, wd)
					w.nd = append(w.nd, Nondet{Name: n, Kind: "int", V: t, W: wd, S: signed})
					w.assume(termVal(ts.And(ts.Ule(ts.Const(nw, uint64(lo)), v), ts.Ule(v, ts.Const(nw, uint64(hi)))), false))
					return t
				}
			}
			t := w.ts.Var(n, wd)
			w.nd = append(w.nd, Nondet{Name: n, Kind: "int", V: t, W: wd, S: signed})
			if len(a) > 1 {
				if a[1] == a[2] {
					w.assume(termVal(w.ts.Eq(t, w.ts.Const(wd, uint64(a[1].(int64)))), false))
					return a[1]
				}
				if signed {
					w.rangeAssume(t, a[1].(int64), a[2].(int64))
				} else {
					ts := w.ts
					w.assume(termVal(ts.And(ts.Ule(ts.Const(wd, uint64(a[1].(int64))), t), ts.Ule(t, ts.Const(wd, uint64(a[2].(int64))))), false))
				}
			}
			return t
		})
	}
	mkInt("Int", 64, true)
	mkInt("Int64", 64, true)
	mkInt("Int32", 32, true)
	mkInt("Byte", 8, false)
	// Dec: a number of k decimal digits, each digit symbolic
	rt("Dec", func(w *W, fn *ssa.Function, a []Value) Value {
		n := w.ndName(a[0])
		var ds []*Term
		for i := 0; i < int(a[1].(int64)); i++ {
			d := w.ts.Var(fmt.Sprintf("%s$d%d", n, i), 4)
			w.assume(termVal(w.ts.Ule(d, w.ts.Const(4, 9)), false))
			ds = append(ds, w.ts.Zext(d, 8))
		}
		t := w.ts.Dec(ds, 64)
		w.nd = append(w.nd, Nondet{Name: n, Kind: "int", V: t, W: 64, S: true})
		return t
	})
	// SmallInt: a small non-negative int carried by 8 bits
	rt("Small", func(w *W, fn *ssa.Function, a []Value) Value {
		n := w.ndName(a[0])
		t := w.ts.Var(n, 8)
		w.nd = append(w.nd, Nondet{Name: n, Kind: "int", V: t, W: 8})
		w.assume(termVal(w.ts.Ule(t, w.ts.Const(8, uint64(a[1].(int64)))), false))
		return termVal(w.ts.Zext(t, 64), true)
	})
	rt("Choice", func(w *W, fn *ssa.Function, a []Value) Value {
		n := w.ndName(a[0])
		c := w.choose(int(a[1].(int64)))
		w.nd = append(w.nd, Nondet{Name: n, Kind: "choice", V: int64(c)})
		return int64(c)
	})
	str := func(w *W, n string, l int, alpha string) Value {
		b := make([]Value, l)
		var set [256]bool
		for i := 0; i < len(alpha); i++ {
			set[alpha[i]] = true
		}
		for i := range b {
			v := w.ts.Var(fmt.Sprintf("%s[%d/%d]", n, i, l), 8)
			b[i] = v
		}
		var s Value = mkStr(b)
		w.nd = append(w.nd, Nondet{Name: n, Kind: "str", V: s})
		if alpha != "" {
			for i := range b {
				w.assume(termVal(w.rangeTerm(b[i].(*Term), func(k int) bool { return set[k] }), false))
			}
		}
		return s
	}
	// StrN(name, min, max, alphabet): length forked, bytes symbolic over the alphabet ("" = all bytes)
	rt("StrN", func(w *W, fn *ssa.Function, a []Value) Value {
		n := w.ndName(a[0])
		lo, hi := int(a[1].(int64)), int(a[2].(int64))
		l := lo + w.choose(hi-lo+1)
		return str(w, n, l, a[3].(string))
	})
	rt("Assume", func(w *W, fn *ssa.Function, a []Value) Value {
		w.assume(a[0])
		return nil
	})
	rt("Assert", func(w *W, fn *ssa.Function, a []Value) Value {
		w.assert(a[0], w.concStr(a[1]))
		return nil
	})
	rt("Reach", func(w *W, fn *ssa.Function, a []Value) Value {
		if w.pos >= len(w.trace) {
			w.eng.reach(w.h.Name(), w.concStr(a[0]))
		}
		return nil
	})
	rt("Observe", func(w *W, fn *ssa.Function, a []Value) Value {
		vs := append([]Value(nil), a[1].([]Value)...)
		w.obs = append(w.obs, obsEntry{a[0].(string), vs})
		return nil
	})
	rt("MapOrder", func(w *W, fn *ssa.Function, a []Value) Value {
		w.mapND = a[0].(bool)
		return nil
	})
	rt("Thorough", func(w *W, fn *ssa.Function, a []Value) Value { return w.eng.tier == "thorough" })
	rt("Symbolic", func(w *W, fn *ssa.Function, a []Value) Value { return true })
	rt("TempDir", func(w *W, fn *ssa.Function, a []Value) Value { return "/verif-scratch" })
	rt("Steps", func(w *W, fn *ssa.Function, a []Value) Value { w.maxSteps = a[0].(int64); return nil })
	// And/Or/Implies without forking
	rt("And", func(w *W, fn *ssa.Function, a []Value) Value {
		var r Value = true
		for _, x := range a[0].([]Value) {
			r = w.and(r, x)
		}
		return r
	})
	rt("Or", func(w *W, fn *ssa.Function, a []Value) Value {
		r := w.ts.False
		for _, x := range a[0].([]Value) {
			r = w.ts.Or(r, w.boolTerm(x))
		}
		return termVal(r, false)
	})
	rt("Not", func(w *W, fn *ssa.Function, a []Value) Value { return w.not(a[0]) })
	rt("Iff", func(w *W, fn *ssa.Function, a []Value) Value {
		return termVal(w.ts.Eq(w.boolTerm(a[0]), w.boolTerm(a[1])), false)
	})
	rt("In", func(w *W, fn *ssa.Function, a []Value) Value { // In(c byte, set string) bool
		set := a[1].(string)
		if c, ok := a[0].(int64); ok {
			return strings.IndexByte(set, byte(c)) >= 0
		}
		return termVal(w.rangeTerm(a[0].(*Term), func(i int) bool { return strings.IndexByte(set, byte(i)) >= 0 }), false)
	})
	rt("Fork", func(w *W, fn *ssa.Function, a []Value) Value { return w.truth(a[0]) })

	// ---- strings ----
	regP := func(n string, f Intrinsic) { reg(n, f); pureIntr[n] = true }
	prefix := func(w *W, s, p Value) Value {
		n := w.strLen(p)
		if n > w.strLen(s) {
			return false
		}
		return w.strEq(w.strSlice(s, 0, n), p)
	}
	suffix := func(w *W, s, p Value) Value {
		n, l := w.strLen(p), w.strLen(s)
		if n > l {
			return false
		}
		return w.strEq(w.strSlice(s, l-n, l), p)
	}
	for _, p := range []string{"strings.", "internal/stringslite."} {
		regP(p+"HasPrefix", func(w *W, fn *ssa.Function, a []Value) Value { return prefix(w, a[0], a[1]) })
		regP(p+"HasSuffix", func(w *W, fn *ssa.Function, a []Value) Value { return suffix(w, a[0], a[1]) })
		regP(p+"Index", func(w *W, fn *ssa.Function, a []Value) Value {
			return w.indexOf(w.strBytes(a[0]), w.strBytes(a[1]))
		})
		regP(p+"IndexByte", func(w *W, fn *ssa.Function, a []Value) Value {
			return w.indexOf(w.strBytes(a[0]), []Value{a[1]})
		})
		reg(p+"Clone", func(w *W, fn *ssa.Function, a []Value) Value { return a[0] })
	}
	regP("strings.Contains", func(w *W, fn *ssa.Function, a []Value) Value {
		return w.contains(w.strBytes(a[0]), w.strBytes(a[1]))
	})
	regP("strings.Compare", func(w *W, fn *ssa.Function, a []Value) Value { return w.cmpStr(a[0], a[1]) })
	regP("internal/bytealg.CompareString", func(w *W, fn *ssa.Function, a []Value) Value { return w.cmpStr(a[0], a[1]) })
	cmpB := func(w *W, fn *ssa.Function, a []Value) Value {
		return w.cmpStr(mkStr(a[0].([]Value)), mkStr(a[1].([]Value)))
	}
	reg("bytes.Compare", cmpB)
	reg("internal/bytealg.Compare", cmpB)
	reg("bytes.Equal", func(w *W, fn *ssa.Function, a []Value) Value { return w.bytesEq(a[0].([]Value), a[1].([]Value)) })
	reg("internal/bytealg.Equal", intrinsics["bytes.Equal"])
	regP("internal/bytealg.IndexByteString", func(w *W, fn *ssa.Function, a []Value) Value {
		return w.indexOf(w.strBytes(a[0]), []Value{a[1]})
	})
	ib := func(w *W, fn *ssa.Function, a []Value) Value { return w.indexOf(a[0].([]Value), []Value{a[1]}) }
	reg("internal/bytealg.IndexByte", ib)
	reg("bytes.IndexByte", ib)
	bi := func(w *W, fn *ssa.Function, a []Value) Value { return w.indexOf(a[0].([]Value), a[1].([]Value)) }
	reg("bytes.Index", bi)
	reg("internal/bytealg.Index", bi)
	regP("internal/bytealg.IndexString", func(w *W, fn *ssa.Function, a []Value) Value { return w.indexOf(w.strBytes(a[0]), w.strBytes(a[1])) })
	cnt := func(w *W, b []Value, c Value) Value {
		n := int64(0)
		for _, x := range b {
			if w.truth(termVal(w.ts.Eq(w.byteTerm(x), w.byteTerm(c)), false)) {
				n++
			}
		}
		return n
	}
	regP("internal/bytealg.CountString", func(w *W, fn *ssa.Function, a []Value) Value { return cnt(w, w.strBytes(a[0]), a[1]) })
	reg("internal/bytealg.Count", func(w *W, fn *ssa.Function, a []Value) Value { return cnt(w, a[0].([]Value), a[1]) })
	regP("internal/bytealg.LastIndexByteString", func(w *W, fn *ssa.Function, a []Value) Value {
		b := w.strBytes(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.truth(termVal(w.ts.Eq(w.byteTerm(b[i]), w.byteTerm(a[1])), false)) {
				return int64(i)
			}
		}
		return int64(-1)
	})
	reg("internal/bytealg.MakeNoZero", func(w *W, fn *ssa.Function, a []Value) Value {
		n := w.concInt(a[0], true)
		r := make([]Value, n)
		for i := range r {
			r[i] = int64(0)
		}
		return r
	})
	reg("(*strings.Builder).copyCheck", func(w *W, fn *ssa.Function, a []Value) Value { return nil })
	caseMap := func(f func(rune) rune, isT func(rune) bool) Intrinsic {
		d := int64(0)
		if f('a') == 'A' {
			d = -32
		} else {
			d = 32
		}
		return func(w *W, fn *ssa.Function, a []Value) Value {
			b := w.strBytes(a[0])
			r := make([]Value, len(b))
			ts := w.ts
			for i, x := range b {
				t := w.byteTerm(x)
				if !w.truth(termVal(ts.Ult(t, ts.Const(8, 0x80)), false)) {
					return w.exec(w.eng.bodyOf(fn), a, nil, nil)
				}
				c := w.rangeTerm(t, func(k int) bool { return k < 0x80 && f(rune(k)) != rune(k) })
				r[i] = termVal(ts.Ite(c, ts.Bin(OAdd, t, ts.Const(8, uint64(d))), t), false)
			}
			return mkStr(r)
		}
	}
	regP("strings.ToLower", caseMap(unicode.ToLower, nil))
	regP("strings.ToUpper", caseMap(unicode.ToUpper, nil))
	upred := func(name string, f func(rune) bool) {
		regP("unicode."+name, func(w *W, fn *ssa.Function, a []Value) Value {
			if c, ok := a[0].(int64); ok {
				return f(rune(c))
			}
			t := a[0].(*Term)
			if w.maxOf(t) > 0xff && !w.truth(termVal(w.ts.Ult(t, w.ts.Const(32, 0x100)), false)) {
				return w.exec(w.eng.bodyOf(fn), a, nil, nil)
			}
			return termVal(w.rangeTerm(t, func(i int) bool { return f(rune(i)) }), false)
		})
	}
	upred("IsLetter", unicode.IsLetter)
	upred("IsDigit", unicode.IsDigit)
	upred("IsUpper", unicode.IsUpper)
	upred("IsLower", unicode.IsLower)
	upred("IsSpace", unicode.IsSpace)
	upred("IsPrint", unicode.IsPrint)
	upred("IsNumber", unicode.IsNumber)
	upred("IsPunct", unicode.IsPunct)
	upred("IsControl", unicode.IsControl)
	upred("IsGraphic", unicode.IsGraphic)
	umap := func(name string, f func(rune) rune) {
		regP("unicode."+name, func(w *W, fn *ssa.Function, a []Value) Value {
			if c, ok := a[0].(int64); ok {
				return int64(f(rune(c)))
			}
			t := a[0].(*Term)
			if w.maxOf(t) > 0x7f && !w.truth(termVal(w.ts.Ult(t, w.ts.Const(32, 0x80)), false)) {
				return w.exec(w.eng.bodyOf(fn), a, nil, nil)
			}
			d := int64(f('a')) - 'a' + int64(f('A')) - 'A'
			c := w.rangeTerm(t, func(i int) bool { return i < 0x80 && f(rune(i)) != rune(i) })
			return termVal(w.ts.Ite(c, w.ts.Bin(OAdd, t, w.ts.Const(32, uint64(d))), t), true)
		})
	}
	umap("ToUpper", unicode.ToUpper)
	umap("ToLower", unicode.ToLower)
	umap("ToTitle", unicode.ToTitle)
	// utf8
	dec := func(b func(w *W, v Value) []Value) Intrinsic {
		return func(w *W, fn *ssa.Function, a []Value) Value {
			bs := b(w, a[0])
			if len(bs) == 0 {
				return Tuple{int64(0xfffd), int64(0)}
			}
			r, n := w.decodeRune(bs)
			return Tuple{r, int64(n)}
		}
	}
	regP("unicode/utf8.DecodeRuneInString", dec(func(w *W, v Value) []Value { return w.strBytes(v) }))
	reg("unicode/utf8.DecodeRune", dec(func(w *W, v Value) []Value { return v.([]Value) }))
	regP("unicode/utf8.ValidString", func(w *W, fn *ssa.Function, a []Value) Value {
		b := w.strBytes(a[0])
		for i := 0; i < len(b); {
			r, n := w.decodeRune(b[i:])
			if rv, ok := r.(int64); ok && rv == 0xfffd && n == 1 {
				return false
			}
			i += n
		}
		return true
	})
	regP("unicode/utf8.RuneCountInString", func(w *W, fn *ssa.Function, a []Value) Value {
		b := w.strBytes(a[0])
		k := int64(0)
		for i := 0; i < len(b); k++ {
			_, n := w.decodeRune(b[i:])
			i += n
		}
		return k
	})
	reg("unicode/utf8.AppendRune", func(w *W, fn *ssa.Function, a []Value) Value {
		return append(a[0].([]Value), w.encodeRune(a[1], types.Typ[types.Int32])...)
	})
	// ---- sync, runtime ----
	nop := func(w *W, fn *ssa.Function, a []Value) Value { return zeroResult(fn) }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "internal/race.Acquire", "internal/race.Release",
		"(*sync.Pool).Put", "internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault", "runtime.Gosched", "(*sync.noCopy).Lock"} {
		reg(n, nop)
	}
	reg("(*internal/godebug.Setting).Value", func(w *W, fn *ssa.Function, a []Value) Value { return "" })
	reg("(*sync.Pool).Get", func(w *W, fn *ssa.Function, a []Value) Value {
		s := (*w.ptr(a[0])).(Struct)
		nf := s[len(s)-1]
		if isNilFn(nf) {
			return Iface{}
		}
		return w.call(nf, nil)
	})
	reg("(*sync.Once).Do", func(w *W, fn *ssa.Function, a []Value) Value {
		s := (*w.ptr(a[0])).(Struct)
		for i := range s { // any field serves as the done flag
			if _, ok := s[i].(*Opaque); ok {
				return nil
			}
		}
		s[0] = &Opaque{kind: "once"}
		return w.call(a[1], nil)
	})
	reg("internal/abi.NoEscape", func(w *W, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(w *W, fn *ssa.Function, a []Value) Value { return a[0] })
	atomicLoad := func(w *W, fn *ssa.Function, a []Value) Value { return w.load(a[0]) }
	atomicStore := func(w *W, fn *ssa.Function, a []Value) Value { w.store(a[0], a[1]); return nil }
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Pointer", "Uintptr"} {
		reg("sync/atomic.Load"+t, atomicLoad)
		reg("sync/atomic.Store"+t, atomicStore)
		reg("sync/atomic.CompareAndSwap"+t, func(w *W, fn *ssa.Function, a []Value) Value {
			if w.load(a[0]) == a[1] {
				w.store(a[0], a[2])
				return true
			}
			return false
		})
		t := t
		reg("sync/atomic.Add"+t, func(w *W, fn *ssa.Function, a []Value) Value {
			v := w.load(a[0]).(int64) + a[1].(int64)
			w.store(a[0], v)
			return v
		})
	}
	reg("os.Exit", func(w *W, fn *ssa.Function, a []Value) Value {
		w.throw(Iface{w.eng.rtErr, "os.Exit called"})
		return nil
	})
	reg("time.Now", func(w *W, fn *ssa.Function, a []Value) Value { return zeroResult(fn) })
	reg("math/rand.Int", func(w *W, fn *ssa.Function, a []Value) Value { return int64(4) })

	// ---- regexp: concrete pattern, symbolic subject ----
	reg("regexp.Compile", func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.concStr(a[0])
		re, err := regexp.Compile(p)
		if err != nil {
			return Tuple{(*Value)(nil), w.mkErr(err.Error())}
		}
		return Tuple{w.mkRegexp(fn, re), Iface{}}
	})
	reg("regexp.MustCompile", func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.concStr(a[0])
		re, err := regexp.Compile(p)
		if err != nil {
			w.throw(Iface{tstr(), "regexp: Compile(" + p + "): " + err.Error()})
		}
		return w.mkRegexp(fn, re)
	})
	reg("(*regexp.Regexp).MatchString", func(w *W, fn *ssa.Function, a []Value) Value {
		re := w.getRegexp(a[0])
		return w.reMatch(re, a[1])
	})
	reg("(*regexp.Regexp).Match", func(w *W, fn *ssa.Function, a []Value) Value {
		return w.reMatch(w.getRegexp(a[0]), mkStr(a[1].([]Value)))
	})
	reg("regexp.MatchString", func(w *W, fn *ssa.Function, a []Value) Value {
		re, err := regexp.Compile(w.concStr(a[0]))
		if err != nil {
			return Tuple{false, w.mkErr(err.Error())}
		}
		return Tuple{w.reMatch(re, a[1]), Iface{}}
	})
	reg("(*regexp.Regexp).String", func(w *W, fn *ssa.Function, a []Value) Value { return w.getRegexp(a[0]).String() })
	initRegexp()
	initFmt()
	initJSON()
	initTime()
	initBig()
	initOS()
	initTemplate()
	initMisc()
	initErrors()
}

func (w *W) mkRegexp(fn *ssa.Function, re *regexp.Regexp) Value {
	var v Value = &Opaque{"regexp", re}
	return &v
}
func (w *W) getRegexp(v Value) *regexp.Regexp {
	o, ok := (*w.ptr(v)).(*Opaque)
	if !ok {
		w.unsupported("regexp value")
	}
	return o.v.(*regexp.Regexp)
}

// reMatch simulates the compiled regexp program over symbolic bytes; no forking: the result is one term.
func (w *W) reMatch(re *regexp.Regexp, sv Value) Value {
	sv = w.str(sv)
	if s, ok := sv.(string); ok {
		return re.MatchString(s)
	}
	b := w.strBytes(sv)
	ts := w.ts
	for _, x := range b { // the simulation below is byte = rune
		if !w.truth(termVal(ts.Ult(w.byteTerm(x), ts.Const(8, 0x80)), false)) {
			return re.MatchString(w.concStr(sv))
		}
	}
	parsed, err := syntax.Parse(re.String(), syntax.Perl)
	if err != nil {
		w.unsupported("regexp syntax")
	}
	prog, err := syntax.Compile(parsed.Simplify())
	if err != nil {
		w.unsupported("regexp compile")
	}
	n := len(b)
	isWord := func(x *Term) *Term {
		return w.rangeTerm(x, func(i int) bool { return syntax.IsWordChar(rune(i)) })
	}
	cur := make([]*Term, len(prog.Inst))
	matched := ts.False
	for pos := 0; pos <= n; pos++ {
		if cur[prog.Start] == nil {
			cur[prog.Start] = ts.True
		} else {
			cur[prog.Start] = ts.True
		}
		// epsilon closure with conditions, to a fixpoint
		for changed := true; changed; {
			changed = false
			for pc := range prog.Inst {
				c := cur[pc]
				if c == nil {
					continue
				}
				add := func(to uint32, cond *Term) {
					var nc *Term
					if cur[to] == nil {
						nc = cond
					} else {
						nc = ts.Or(cur[to], cond)
					}
					if nc.isFalse() {
						return
					}
					if cur[to] != nc {
						// guard against endless syntactic growth
						if cur[to] != nil && implied(ts, cond, cur[to]) {
							return
						}
						cur[to] = nc
						changed = true
					}
				}
				in := &prog.Inst[pc]
				switch in.Op {
				case syntax.InstAlt, syntax.InstAltMatch:
					add(in.Out, c)
					add(in.Arg, c)
				case syntax.InstCapture, syntax.InstNop:
					add(in.Out, c)
				case syntax.InstEmptyWidth:
					cond := ts.True
					e := syntax.EmptyOp(in.Arg)
					if e&syntax.EmptyBeginText != 0 {
						cond = ts.And(cond, ts.Bool(pos == 0))
					}
					if e&syntax.EmptyEndText != 0 {
						cond = ts.And(cond, ts.Bool(pos == n))
					}
					if e&syntax.EmptyBeginLine != 0 && pos > 0 {
						cond = ts.And(cond, ts.Eq(w.byteTerm(b[pos-1]), ts.Const(8, '\n')))
					}
					if e&syntax.EmptyEndLine != 0 && pos < n {
						cond = ts.And(cond, ts.Eq(w.byteTerm(b[pos]), ts.Const(8, '\n')))
					}
					if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
						p, q := ts.False, ts.False
						if pos > 0 {
							p = isWord(w.byteTerm(b[pos-1]))
						}
						if pos < n {
							q = isWord(w.byteTerm(b[pos]))
						}
						wb := ts.Not(ts.Eq(p, q))
						if e&syntax.EmptyWordBoundary != 0 {
							cond = ts.And(cond, wb)
						} else {
							cond = ts.And(cond, ts.Not(wb))
						}
					}
					add(in.Out, ts.And(c, cond))
				}
			}
		}
		for pc := range prog.Inst {
			if cur[pc] != nil && prog.Inst[pc].Op == syntax.InstMatch {
				matched = ts.Or(matched, cur[pc])
			}
		}
		if pos == n || matched.isTrue() {
			break
		}
		next := make([]*Term, len(prog.Inst))
		x := w.byteTerm(b[pos])
		for pc := range prog.Inst {
			if cur[pc] == nil {
				continue
			}
			in := &prog.Inst[pc]
			var c *Term
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				c = w.rangeTerm(x, func(i int) bool { return i < 0x80 && in.MatchRune(rune(i)) })
			case syntax.InstRuneAny:
				c = ts.True
			case syntax.InstRuneAnyNotNL:
				c = ts.Not(ts.Eq(x, ts.Const(8, '\n')))
			default:
				continue
			}
			c = ts.And(cur[pc], c)
			if next[in.Out] == nil {
				next[in.Out] = c
			} else {
				next[in.Out] = ts.Or(next[in.Out], c)
			}
		}
		cur = next
	}
	return termVal(matched, false)
}

// implied: cond is already one of the disjuncts of t
func implied(ts *Terms, cond, t *Term) bool {
	if cond == t || t.isTrue() {
		return true
	}
	if t.op == OOr && (implied(ts, cond, t.a[0]) || implied(ts, cond, t.a[1])) {
		return true
	}
	if cond.op == OOr {
		return implied(ts, cond.a[0], t) && implied(ts, cond.a[1], t)
	}
	if cond.op == OAnd {
		return implied(ts, cond.a[0], t) || implied(ts, cond.a[1], t)
	}
	return false
}

func (w *W) cmpStr(a, b Value) Value {
	if w.truth(w.strEq(a, b)) {
		return int64(0)
	}
	if w.truth(w.strLess(a, b)) {
		return int64(-1)
	}
	return int64(1)
}

func (w *W) indexOf(s, sub []Value) Value {
	for i := 0; i+len(sub) <= len(s); i++ {
		if w.truth(w.bytesEq(s[i:i+len(sub)], sub)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func (w *W) contains(s, sub []Value) Value {
	r := w.ts.False
	for i := 0; i+len(sub) <= len(s); i++ {
		r = w.ts.Or(r, w.boolTerm(w.bytesEq(s[i:i+len(sub)], sub)))
	}
	return termVal(r, false)
}

func (w *W) mkErr(msg Value) Iface {
	var v Value = Struct{msg}
	return Iface{w.eng.errT, &v}
}

// bodyOf compiles the real body of a function that also has an intrinsic
func (e *Engine) bodyOf(fn *ssa.Function) *cfunc {
	if c, ok := e.bodies.Load(fn); ok {
		return c.(*cfunc)
	}
	e.cmu.Lock()
	defer e.cmu.Unlock()
	cf := &cfunc{fn: fn, name: fnName(fn), params: len(fn.Params), free: len(fn.FreeVars)}
	e.compileBody(cf)
	e.bodies.Store(fn, cf)
	return cf
}
