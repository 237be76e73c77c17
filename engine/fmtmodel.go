package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of package fmt over engine values. Concrete scalars are formatted by the real fmt.

type sbuf struct {
	w *W
	b []Value
}

func (s *sbuf) str(x string) {
	for i := 0; i < len(x); i++ {
		s.b = append(s.b, int64(x[i]))
	}
}
func (s *sbuf) val(v Value) { s.b = append(s.b, s.w.strBytes(v)...) }

type fspec struct {
	verb                            rune
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasW, hasP                      bool
	spec                            string
}

func hasLazy(vs []Value) bool {
	for _, v := range vs {
		switch x := v.(type) {
		case Iface:
			if _, ok := x.v.(*LazyStr); ok {
				return true
			}
		case *LazyStr:
			return true
		}
	}
	return false
}

func initFmt() {
	ifs := func(v Value) []Value {
		if v == nil {
			return nil
		}
		return v.([]Value)
	}
	reg("fmt.Sprintf", func(w *W, fn *ssa.Function, a []Value) Value {
		args := append([]Value(nil), ifs(a[1])...)
		if hasLazy(args) {
			return &LazyStr{f: func() Value { return w.sprintf(w.concStr(a[0]), args) }}
		}
		return w.sprintf(w.concStr(a[0]), args)
	})
	reg("fmt.Errorf", func(w *W, fn *ssa.Function, a []Value) Value {
		args := append([]Value(nil), ifs(a[1])...)
		f := w.concStr(a[0])
		msg := &LazyStr{f: func() Value { return w.sprintf(f, args) }}
		if strings.Contains(f, "%w") {
			if t := w.eng.namedPtr("fmt", "wrapError"); t != nil {
				for _, x := range args {
					i := w.asIface(x)
					if i.t != nil && w.implements(i.t, w.eng.errIface.Underlying().(*types.Interface)) {
						var v Value = Struct{msg, i}
						return Iface{t, &v}
					}
				}
			}
		}
		return w.mkErr(msg)
	})
	reg("fmt.Sprint", func(w *W, fn *ssa.Function, a []Value) Value { return w.sprint(ifs(a[0]), false) })
	reg("fmt.Sprintln", func(w *W, fn *ssa.Function, a []Value) Value { return w.sprint(ifs(a[0]), true) })
	write := func(w *W, wr Value, s Value) Value {
		i := w.asIface(wr)
		if i.t == nil {
			w.throwRT("nil writer")
		}
		m := w.methodByName(i.t, "Write")
		return w.call(m, []Value{copyVal(i.v), append([]Value{}, w.strBytes(s)...)})
	}
	// the standard output is dropped, unless the harness has redirected it
	print := func(text func(w *W, a []Value) Value) Intrinsic {
		return func(w *W, fn *ssa.Function, a []Value) Value {
			f, ok := (*w.global(w.eng.stdout)).(*Value)
			if !ok || f == nil {
				return Tuple{int64(0), Iface{}}
			}
			if w.sub != nil {
				panic(subAbort{})
			}
			return intrinsics["(*os.File).WriteString"](w, fn, []Value{f, text(w, a)})
		}
	}
	reg("fmt.Printf", print(func(w *W, a []Value) Value { return w.sprintf(w.concStr(a[0]), ifs(a[1])) }))
	reg("fmt.Println", print(func(w *W, a []Value) Value { return w.sprint(ifs(a[0]), true) }))
	reg("fmt.Print", print(func(w *W, a []Value) Value { return w.sprint(ifs(a[0]), false) }))
	reg("fmt.Fprintf", func(w *W, fn *ssa.Function, a []Value) Value {
		return write(w, a[0], w.sprintf(w.concStr(a[1]), ifs(a[2])))
	})
	reg("fmt.Fprint", func(w *W, fn *ssa.Function, a []Value) Value { return write(w, a[0], w.sprint(ifs(a[1]), false)) })
	reg("fmt.Fprintln", func(w *W, fn *ssa.Function, a []Value) Value { return write(w, a[0], w.sprint(ifs(a[1]), true)) })
}

func (w *W) sprint(args []Value, ln bool) Value {
	s := &sbuf{w: w}
	prevStr := true
	for i, a := range args {
		f := w.asIface(a)
		isStr := f.t != nil && isString(f.t) && types.Identical(f.t, types.Typ[types.String])
		if i > 0 && (ln || (!isStr && !prevStr)) {
			s.str(" ")
		}
		w.fmtArg(s, &fspec{verb: 'v'}, f)
		prevStr = isStr
	}
	if ln {
		s.str("\n")
	}
	return mkStr(s.b)
}

func (w *W) sprintf(format string, args []Value) Value {
	s := &sbuf{w: w}
	ai := 0
	n := len(format)
	for i := 0; i < n; {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			s.str(format[i:])
			break
		}
		s.str(format[i : i+j])
		i += j
		st := i
		i++
		sp := &fspec{}
	flags:
		for i < n {
			switch format[i] {
			case '+':
				sp.plus = true
			case '-':
				sp.minus = true
				sp.zero = false
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = true
			default:
				break flags
			}
			i++
		}
		num := func() (int, bool) {
			if i < n && format[i] == '*' {
				i++
				if ai < len(args) {
					v := w.asIface(args[ai])
					ai++
					return int(w.concInt(v.v, true)), true
				}
				return 0, false
			}
			k := i
			for i < n && format[i] >= '0' && format[i] <= '9' {
				i++
			}
			if i > k {
				x, _ := strconv.Atoi(format[k:i])
				return x, true
			}
			return 0, false
		}
		sp.wid, sp.hasW = num()
		if i < n && format[i] == '.' {
			i++
			sp.prec, _ = num()
			sp.hasP = true
		}
		if i >= n {
			s.str("%!(NOVERB)")
			break
		}
		var verb rune
		for _, r := range format[i:] {
			verb = r
			break
		}
		i += len(string(verb))
		sp.verb = verb
		sp.spec = format[st:i]
		if verb == '%' {
			s.str("%")
			continue
		}
		if ai >= len(args) {
			s.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := w.asIface(args[ai])
		ai++
		if verb == 'w' {
			sp.verb = 'v'
			sp.spec = "%v"
		}
		w.fmtArg(s, sp, a)
	}
	if ai < len(args) {
		s.str("%!(EXTRA ")
		for k, a := range args[ai:] {
			if k > 0 {
				s.str(", ")
			}
			f := w.asIface(a)
			if f.t == nil {
				s.str("<nil>")
			} else {
				s.str(typeName(f.t) + "=")
				w.fmtArg(s, &fspec{verb: 'v', spec: "%v"}, f)
			}
		}
		s.str(")")
	}
	return mkStr(s.b)
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *W) pad(s *sbuf, sp *fspec, body []Value) {
	if sp.hasW {
		// width counts runes; symbolic bytes are assumed ASCII here
		n := len(body)
		if c, ok := mkStr(body).(string); ok {
			n = len([]rune(c))
		}
		if d := sp.wid - n; d > 0 {
			if sp.minus {
				s.b = append(s.b, body...)
				s.str(strings.Repeat(" ", d))
				return
			}
			if sp.zero {
				s.str(strings.Repeat("0", d))
			} else {
				s.str(strings.Repeat(" ", d))
			}
		}
	}
	s.b = append(s.b, body...)
}

func (w *W) fmtArg(s *sbuf, sp *fspec, f Iface) {
	if f.t == nil {
		if sp.verb == 'T' || sp.verb == 'v' {
			w.pad(s, sp, w.strBytes("<nil>"))
		} else {
			s.str("%!" + string(sp.verb) + "(<nil>)")
		}
		return
	}
	if sp.verb == 'T' {
		w.pad(s, sp, w.strBytes(typeName(f.t)))
		return
	}
	if sp.verb == 'p' {
		s.str("0xc000000000")
		return
	}
	if _, basic := f.t.(*types.Basic); !basic {
		if w.fmtMethods(s, sp, f.t, f.v) {
			return
		}
	}
	w.fmtValue(s, sp, f.t, f.v, 0)
}

func (w *W) fmtMethods(s *sbuf, sp *fspec, t types.Type, v Value) bool {
	if m := w.methodByName(t, "Format"); m != nil && m.Signature.Params().Len() == 2 && m.Signature.Results().Len() == 0 {
		// only big.Float's Formatter occurs
		if bf := w.findBig(t, v); bf != nil {
			w.bigFormat(s, sp, bf)
			return true
		}
		w.unsupported("fmt.Formatter on " + t.String())
	}
	if sp.sharp {
		return false
	}
	switch sp.verb {
	case 'v', 's', 'x', 'X', 'q':
	default:
		return false
	}
	name := ""
	for _, c := range []string{"Error", "String"} {
		m := w.methodByName(t, c)
		if m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 && isString(m.Signature.Results().At(0).Type()) {
			name = c
			break
		}
	}
	if name == "" {
		return false
	}
	if p, ok := v.(*Value); ok && p == nil {
		s.str("<nil>")
		return true
	}
	r := w.call(w.methodByName(t, name), []Value{copyVal(v)})
	sp2 := *sp
	w.fmtString(s, &sp2, r)
	return true
}

func (w *W) fmtString(s *sbuf, sp *fspec, v Value) {
	v = w.str(v)
	switch sp.verb {
	case 'v', 's':
		if sp.sharp && sp.verb == 'v' {
			s.val(w.quote(v))
			return
		}
		b := w.strBytes(v)
		if sp.hasP && sp.prec < len(b) {
			b = b[:sp.prec]
		}
		w.pad(s, sp, b)
	case 'q':
		w.pad(s, sp, w.strBytes(w.quote(v)))
	case 'x', 'X':
		s.str(fmt.Sprintf(sp.spec, w.concStr(v)))
	default:
		s.str(fmt.Sprintf("%%!%c(string=", sp.verb))
		s.val(v)
		s.str(")")
	}
}

func (w *W) quote(v Value) Value {
	if c, ok := w.str(v).(string); ok {
		return strconv.Quote(c)
	}
	// plain when no byte can need escaping
	b := w.strBytes(v)
	plain := true
	for _, x := range b {
		t, ok := x.(*Term)
		if !ok {
			c := x.(int64)
			if c < 0x20 || c >= 0x7f || c == '"' || c == '\\' {
				plain = false
			}
			continue
		}
		c := w.rangeTerm(t, func(i int) bool { return i >= 0x20 && i < 0x7f && i != '"' && i != '\\' })
		if !w.known(c) {
			plain = false
		}
	}
	if plain {
		r := []Value{int64('"')}
		r = append(r, b...)
		return mkStr(append(r, int64('"')))
	}
	fn := w.eng.fn("strconv", "Quote")
	return w.exec(w.eng.bodyOf(fn), []Value{v}, nil, nil)
}

// known: the condition certainly holds on this path (no fork, no query)
func (w *W) known(c *Term) bool {
	if w.sub != nil {
		saveM, saveE := w.masks, w.ent
		w.masks, w.ent = w.sub.masks, map[*Term]bool{}
		q := w.quick(c)
		w.masks, w.ent = saveM, saveE
		return q == 1
	}
	return w.quick(c) == 1
}

// itoa renders an integer value in decimal
func (w *W) itoa(v Value, wd int16, signed bool) []Value { return w.itoaPad(v, wd, signed, 0) }

// itoaPad is itoa with zero padding to a minimal length
func (w *W) itoaPad(v Value, wd int16, signed bool, pad int) []Value {
	if x, ok := v.(int64); ok {
		var s string
		if signed {
			s = strconv.FormatInt(x, 10)
		} else {
			s = strconv.FormatUint(uint64(x), 10)
		}
		if d := pad - len(s); d > 0 {
			if s[0] == '-' {
				s = "-" + strings.Repeat("0", d) + s[1:]
			} else {
				s = strings.Repeat("0", d) + s
			}
		}
		return w.strBytes(s)
	}
	ts := w.ts
	t := v.(*Term)
	var out []Value
	if signed && w.truth(termVal(ts.Slt(t, ts.Const(wd, 0)), false)) {
		out = append(out, int64('-'))
		t = ts.Neg(t)
		pad--
	}
	if ds := ts.decOf(t); ds != nil {
		i := 0
		for i < len(ds)-1 && len(ds)-i > pad && w.truth(termVal(ts.Eq(ds[i], ts.Const(8, 0)), false)) {
			i++
		}
		for k := len(ds) - i; k < pad; k++ {
			out = append(out, int64('0'))
		}
		for ; i < len(ds); i++ {
			out = append(out, termVal(ts.Bin(OAdd, ds[i], ts.Const(8, '0')), false))
		}
		return out
	}
	if _, hi := t.urange(); true {
		for _, nw := range []int16{8, 16, 32} {
			if nw < wd && hi <= wmask(nw) {
				t = ts.Extract(t, int(nw)-1, 0)
				wd = nw
				break
			}
		}
	}
	nd := 1
	p := uint64(10)
	for ; nd < 20; nd++ {
		if wd < 64 && p > wmask(wd) {
			break
		}
		if nd >= pad && w.truth(termVal(ts.Ult(t, ts.Const(wd, p)), false)) {
			break
		}
		if nd == 19 {
			nd = 20
			break
		}
		p *= 10
	}
	div := uint64(1)
	ds := make([]Value, nd)
	for i := nd - 1; i >= 0; i-- {
		q := ts.Bin(OUdiv, t, ts.Const(wd, div))
		var d *Term
		if i == 0 { // the most significant digit is already below 10
			d = q
		} else {
			d = ts.Bin(OUrem, q, ts.Const(wd, 10))
		}
		ds[i] = termVal(ts.Bin(OAdd, ts.Resize(d, 8, false), ts.Const(8, '0')), false)
		div *= 10
	}
	for k := nd; k < pad; k++ {
		out = append(out, int64('0'))
	}
	return append(out, ds...)
}

func (w *W) fmtInt(s *sbuf, sp *fspec, v Value, wd int16, signed bool) {
	switch sp.verb {
	case 'v', 'd':
		pad := 0
		if sp.zero && sp.hasW && !sp.minus && !sp.hasP {
			pad = sp.wid
			if sp.plus {
				pad = 0
			}
		}
		b := w.itoaPad(v, wd, signed, pad)
		if sp.plus && (len(b) == 0 || b[0] != int64('-')) {
			b = append([]Value{int64('+')}, b...)
			if d := sp.wid - len(b); d > 0 && sp.zero && sp.hasW && !sp.minus && !sp.hasP {
				b = append(append([]Value{int64('+')}, w.strBytes(strings.Repeat("0", d))...), b[1:]...)
			}
		}
		w.pad(s, sp, b)
	case 'c':
		w.pad(s, sp, w.encodeRune(v, types.Typ[types.Int32]))
	default:
		x := w.concInt(v, signed)
		if signed {
			s.str(fmt.Sprintf(sp.spec, x))
		} else {
			s.str(fmt.Sprintf(sp.spec, uint64(x)))
		}
	}
}

func (w *W) fmtValue(s *sbuf, sp *fspec, t types.Type, v Value, depth int) {
	if depth > 0 {
		if i, ok := v.(Iface); !ok || i.t != nil {
			_, isI := under(t).(*types.Interface)
			if !isI && w.fmtMethods(s, sp, t, v) {
				return
			}
		}
	}
	badVerb := func() { s.str("%!" + string(sp.verb) + "(" + typeName(t) + ")") }
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if sp.verb != 't' && sp.verb != 'v' {
				badVerb()
				return
			}
			if w.truth(v) {
				w.pad(s, sp, w.strBytes("true"))
			} else {
				w.pad(s, sp, w.strBytes("false"))
			}
		case u.Info()&types.IsInteger != 0:
			wd, sg, _ := intInfo(t)
			if sp.verb == 's' {
				s.str("%!s(" + typeName(t) + "=")
				s.b = append(s.b, w.itoa(v, wd, sg)...)
				s.str(")")
				return
			}
			w.fmtInt(s, sp, v, wd, sg)
		case u.Info()&types.IsFloat != 0:
			f := w.flt(v)
			spec := sp.spec
			if spec == "" {
				spec = "%v"
			}
			if u.Kind() == types.Float32 {
				s.str(fmt.Sprintf(spec, float32(f)))
			} else {
				s.str(fmt.Sprintf(spec, f))
			}
		case u.Info()&types.IsString != 0:
			w.fmtString(s, sp, v)
		default:
			s.str("0x0")
		}
	case *types.Slice, *types.Array:
		var el types.Type
		var items []Value
		switch x := u.(type) {
		case *types.Slice:
			el = x.Elem()
			items = v.([]Value)
		case *types.Array:
			el = x.Elem()
			items = v.(Array)
		}
		if b, ok := under(el).(*types.Basic); ok && b.Kind() == types.Uint8 {
			switch sp.verb {
			case 's', 'q', 'x', 'X':
				w.fmtString(s, sp, mkStr(items))
				return
			}
		}
		s.str("[")
		for i, e := range items {
			if i > 0 {
				s.str(" ")
			}
			w.fmtValue(s, sp, el, e, depth+1)
		}
		s.str("]")
	case *types.Map:
		m := v.(*MapV)
		s.str("map[")
		for i, e := range w.sortedEnts(u, m) {
			if i > 0 {
				s.str(" ")
			}
			w.fmtValue(s, sp, u.Key(), e.k, depth+1)
			s.str(":")
			w.fmtValue(s, sp, u.Elem(), e.v, depth+1)
		}
		s.str("]")
	case *types.Struct:
		st := v.(Struct)
		s.str("{")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				s.str(" ")
			}
			if sp.plus {
				s.str(u.Field(i).Name() + ":")
			}
			w.fmtValue(s, sp, u.Field(i).Type(), st[i], depth+1)
		}
		s.str("}")
	case *types.Interface:
		i := w.asIface(v)
		if i.t == nil {
			s.str("<nil>")
			return
		}
		w.fmtValue(s, sp, i.t, i.v, depth+1)
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok || p == nil {
			if sp.verb == 'v' {
				s.str("<nil>")
			} else {
				s.str("%!" + string(sp.verb) + "(" + typeName(t) + "=<nil>)")
			}
			return
		}
		if depth == 0 {
			switch under(u.Elem()).(type) {
			case *types.Struct, *types.Map, *types.Slice, *types.Array:
				s.str("&")
				w.fmtValue(s, sp, u.Elem(), *p, depth+1)
				return
			}
		}
		s.str("0xc000000000")
	default:
		s.str("0xc000000000")
	}
}

// sortedEnts returns the entries in key order (fmt and encoding/json sort map keys)
func (w *W) sortedEnts(mt *types.Map, m *MapV) []*mapEnt {
	if m == nil {
		return nil
	}
	out := make([]*mapEnt, 0, len(m.ents))
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		k := len(out)
		for k > 0 {
			var less Value
			a, b := e.k, out[k-1].k
			kt := mt.Key()
			if ia, ok := a.(Iface); ok {
				ib, _ := b.(Iface)
				a, b = ia.v, ib.v
				kt = ia.t
			}
			if kt != nil && isString(kt) {
				less = w.strLess(a, b)
			} else if wd, sg, ok := intInfo(kt); ok {
				ta, tb := w.intTerm(a, wd), w.intTerm(b, wd)
				if sg {
					less = termVal(w.ts.Slt(ta, tb), false)
				} else {
					less = termVal(w.ts.Ult(ta, tb), false)
				}
			} else {
				less = false
			}
			if !w.truth(less) {
				break
			}
			k--
		}
		out = append(out, nil)
		copy(out[k+1:], out[k:])
		out[k] = e
	}
	return out
}
