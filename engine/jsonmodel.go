package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"github.com/ghodss/yaml"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of encoding/json over engine values: type-driven like the real one, byte-level on strings.

type jenc struct {
	w       *W
	out     []Value
	html    bool
	indent  string
	prefix  string
	pretty  bool
	depth   int
	err     Value
	ptrSeen int
}

func (e *jenc) str(s string) {
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, int64(s[i]))
	}
}
func (e *jenc) nl() {
	if e.pretty {
		e.str("\n" + e.prefix + strings.Repeat(e.indent, e.depth))
	}
}

type jfield struct {
	name   string
	tagged bool
	omit   bool
	quoted bool
	path   []int
	t      types.Type
}

func jsonFields(st *types.Struct) []jfield {
	var out []jfield
	type lvl struct {
		st   *types.Struct
		path []int
	}
	cur := []lvl{{st, nil}}
	seen := map[string]int{}
	var all []jfield
	depth := 0
	for len(cur) > 0 && depth < 6 {
		var next []lvl
		for _, l := range cur {
			for i := 0; i < l.st.NumFields(); i++ {
				f := l.st.Field(i)
				tag := reflect.StructTag(l.st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				jf := jfield{name: parts[0], path: append(append([]int(nil), l.path...), i), t: f.Type()}
				for _, o := range parts[1:] {
					if o == "omitempty" {
						jf.omit = true
					}
					if o == "string" {
						jf.quoted = true
					}
				}
				if f.Embedded() && jf.name == "" {
					t := f.Type()
					if p, ok := t.(*types.Pointer); ok {
						t = p.Elem()
					}
					if s2, ok := under(t).(*types.Struct); ok {
						next = append(next, lvl{s2, jf.path})
						continue
					}
				}
				if !f.Exported() {
					continue
				}
				if jf.name == "" {
					jf.name = f.Name()
				} else {
					jf.tagged = true
				}
				all = append(all, jf)
			}
		}
		cur = next
		depth++
	}
	for i, f := range all {
		if j, ok := seen[f.name]; ok {
			if len(all[j].path) < len(f.path) {
				continue
			}
		}
		if _, ok := seen[f.name]; !ok {
			seen[f.name] = i
		}
	}
	for i, f := range all {
		if seen[f.name] == i {
			out = append(out, f)
		}
	}
	// index-sequence order
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && pathLess(out[j].path, out[j-1].path); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func pathLess(a, b []int) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func (w *W) jsonEmpty(t types.Type, v Value) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return !w.truth(v)
		case u.Info()&types.IsString != 0:
			return w.strLen(v) == 0
		case u.Info()&types.IsInteger != 0:
			wd, _, _ := intInfo(t)
			return w.truth(termVal(w.ts.Eq(w.intTerm(v, wd), w.ts.Const(wd, 0)), false))
		case u.Info()&types.IsFloat != 0:
			return w.flt(v) == 0
		}
	case *types.Slice:
		return len(v.([]Value)) == 0
	case *types.Map:
		m := v.(*MapV)
		return m == nil || m.n == 0
	case *types.Pointer:
		p, ok := v.(*Value)
		return ok && p == nil
	case *types.Interface:
		return w.asIface(v).t == nil
	case *types.Array:
		return u.Len() == 0
	}
	return false
}

func (e *jenc) fail(msg string) {
	if e.err == nil {
		e.err = e.w.mkErr(msg)
	}
}

func (e *jenc) value(t types.Type, v Value, addressable bool) {
	w := e.w
	if e.err != nil {
		return
	}
	e.ptrSeen++
	if e.ptrSeen > 5000 {
		w.unsupported("json: too deep")
	}
	_, isIface := under(t).(*types.Interface)
	if !isIface {
		recv, rt := v, t
		m := w.methodByName(t, "MarshalJSON")
		if m == nil && addressable {
			if _, isP := t.(*types.Pointer); !isP {
				if m = w.methodByName(types.NewPointer(t), "MarshalJSON"); m != nil {
					pv := v
					recv = &pv
					rt = types.NewPointer(t)
				}
			}
		}
		if m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 2 {
			if p, ok := recv.(*Value); ok && p == nil {
				e.str("null")
				return
			}
			_ = rt
			r := w.call(m, []Value{copyVal(recv)}).(Tuple)
			if er := w.asIface(r[1]); er.t != nil {
				e.err = er
				return
			}
			e.raw(r[0].([]Value))
			return
		}
		if m := w.methodByName(t, "MarshalText"); m != nil {
			if p, ok := v.(*Value); ok && p == nil {
				e.str("null")
				return
			}
			if w.findBig(t, v) == nil {
				r := w.call(m, []Value{copyVal(v)}).(Tuple)
				if er := w.asIface(r[1]); er.t != nil {
					e.err = er
					return
				}
				e.string(mkStr(r[0].([]Value)))
				return
			}
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if w.truth(v) {
				e.str("true")
			} else {
				e.str("false")
			}
		case u.Info()&types.IsString != 0:
			e.string(v)
		case u.Info()&types.IsInteger != 0:
			wd, sg, _ := intInfo(t)
			e.out = append(e.out, w.itoa(v, wd, sg)...)
		case u.Info()&types.IsFloat != 0:
			var b []byte
			var err error
			if u.Kind() == types.Float32 {
				b, err = json.Marshal(float32(w.flt(v)))
			} else {
				b, err = json.Marshal(w.flt(v))
			}
			if err != nil {
				e.fail(err.Error())
				return
			}
			e.str(string(b))
		default:
			e.fail("json: unsupported type: " + t.String())
		}
	case *types.Interface:
		i := w.asIface(v)
		if i.t == nil {
			e.str("null")
			return
		}
		e.value(i.t, i.v, false)
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			w.unsupported(fmt.Sprintf("json pointer %T", v))
		}
		if p == nil {
			e.str("null")
			return
		}
		e.value(u.Elem(), *p, true)
	case *types.Struct:
		st := v.(Struct)
		e.str("{")
		e.depth++
		first := true
		for _, f := range jsonFields(u) {
			fv, ok := fieldByPath(st, f.path)
			if !ok {
				continue
			}
			if f.omit && w.jsonEmpty(f.t, fv) {
				continue
			}
			if !first {
				e.str(",")
			}
			first = false
			e.nl()
			e.string(f.name)
			e.str(":")
			if e.pretty {
				e.str(" ")
			}
			if f.quoted {
				ft := f.t
				if p, isP := under(ft).(*types.Pointer); isP {
					ft = p.Elem()
				}
				if b, isB := under(ft).(*types.Basic); isB && b.Info()&types.IsString == 0 {
					e.str("\"")
					e.value(f.t, fv, addressable)
					e.str("\"")
					continue
				}
			}
			e.value(f.t, fv, addressable)
		}
		e.depth--
		if !first {
			e.nl()
		}
		e.str("}")
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			e.str("null")
			return
		}
		if !isString(u.Key()) {
			if _, _, ok := intInfo(u.Key()); !ok {
				e.fail("json: unsupported type: " + t.String())
				return
			}
		}
		e.str("{")
		e.depth++
		for i, en := range w.sortedEnts(u, m) {
			if i > 0 {
				e.str(",")
			}
			e.nl()
			if isString(u.Key()) {
				e.string(en.k)
			} else {
				wd, sg, _ := intInfo(u.Key())
				e.str("\"")
				e.out = append(e.out, w.itoa(en.k, wd, sg)...)
				e.str("\"")
			}
			e.str(":")
			if e.pretty {
				e.str(" ")
			}
			e.value(u.Elem(), en.v, false)
		}
		e.depth--
		if m.n > 0 {
			e.nl()
		}
		e.str("}")
	case *types.Slice, *types.Array:
		var el types.Type
		var items []Value
		if x, ok := u.(*types.Slice); ok {
			el = x.Elem()
			items = v.([]Value)
			if items == nil {
				e.str("null")
				return
			}
			if b, ok := under(el).(*types.Basic); ok && b.Kind() == types.Uint8 {
				bs, _ := json.Marshal([]byte(w.concStr(mkStr(items))))
				e.str(string(bs))
				return
			}
		} else {
			el = u.(*types.Array).Elem()
			items = v.(Array)
		}
		e.str("[")
		e.depth++
		for i, x := range items {
			if i > 0 {
				e.str(",")
			}
			e.nl()
			e.value(el, x, true)
		}
		e.depth--
		if len(items) > 0 {
			e.nl()
		}
		e.str("]")
	default:
		e.fail("json: unsupported type: " + t.String())
	}
}

func fieldByPath(st Struct, path []int) (Value, bool) {
	var v Value = st
	for _, i := range path {
		if p, ok := v.(*Value); ok {
			if p == nil {
				return nil, false
			}
			v = *p
		}
		v = v.(Struct)[i]
	}
	return v, true
}

// raw re-emits the output of a MarshalJSON method, validated and re-indented like the real encoder
func (e *jenc) raw(b []Value) {
	w := e.w
	d := &jdec{w: w, b: b}
	n, err := d.parse()
	if err == "" {
		d.ws()
		if d.i < len(b) {
			err = "invalid character after top-level value"
		}
	}
	if err != "" {
		e.fail("json: error calling MarshalJSON: " + err)
		return
	}
	e.node(n)
}

func (e *jenc) node(n *jnode) {
	switch n.kind {
	case 'o':
		e.str("{")
		e.depth++
		for i := range n.keys {
			if i > 0 {
				e.str(",")
			}
			e.nl()
			e.out = append(e.out, n.rawKeys[i]...)
			e.str(":")
			if e.pretty {
				e.str(" ")
			}
			e.node(n.vals[i])
		}
		e.depth--
		if len(n.keys) > 0 {
			e.nl()
		}
		e.str("}")
	case 'a':
		e.str("[")
		e.depth++
		for i := range n.vals {
			if i > 0 {
				e.str(",")
			}
			e.nl()
			e.node(n.vals[i])
		}
		e.depth--
		if len(n.vals) > 0 {
			e.nl()
		}
		e.str("]")
	default:
		e.out = append(e.out, n.raw...)
	}
}

const hexd = "0123456789abcdef"

func (e *jenc) string(v Value) {
	w := e.w
	e.str("\"")
	b := w.strBytes(v)
	ts := w.ts
	for i := 0; i < len(b); {
		if c, ok := b[i].(int64); ok && c < 0x80 {
			e.concByte(byte(c))
			i++
			continue
		}
		t := w.byteTerm(b[i])
		plain := w.rangeTerm(t, func(k int) bool {
			return k >= 0x20 && k < 0x80 && k != '"' && k != '\\' && !(e.html && (k == '<' || k == '>' || k == '&'))
		})
		if w.truth(termVal(plain, false)) {
			e.out = append(e.out, b[i])
			i++
			continue
		}
		if w.truth(termVal(w.rangeTerm(t, func(k int) bool { return k == '"' || k == '\\' }), false)) {
			e.out = append(e.out, int64('\\'), b[i])
			i++
			continue
		}
		if w.truth(termVal(ts.Ult(t, ts.Const(8, 0x80)), false)) {
			e.concByte(byte(w.concInt(b[i], false)))
			i++
			continue
		}
		r, n := w.decodeRune(b[i:])
		if rv, ok := r.(int64); ok && rv == 0xfffd && n == 1 {
			e.str("\\ufffd")
			i++
			continue
		}
		if tr, ok := r.(*Term); ok {
			sep := ts.Or(ts.Eq(tr, ts.Const(32, 0x2028)), ts.Eq(tr, ts.Const(32, 0x2029)))
			if w.truth(termVal(sep, false)) {
				if w.truth(termVal(ts.Eq(tr, ts.Const(32, 0x2028)), false)) {
					e.str("\\u2028")
				} else {
					e.str("\\u2029")
				}
				i += n
				continue
			}
		} else if rv := r.(int64); rv == 0x2028 || rv == 0x2029 {
			e.str(fmt.Sprintf("\\u%04x", rv))
			i += n
			continue
		}
		e.out = append(e.out, b[i:i+n]...)
		i += n
	}
	e.str("\"")
}

func (e *jenc) concByte(c byte) {
	switch {
	case c == '"' || c == '\\':
		e.str("\\" + string(rune(c)))
	case c == '\n':
		e.str("\\n")
	case c == '\r':
		e.str("\\r")
	case c == '\t':
		e.str("\\t")
	case c == '\b':
		e.str("\\b")
	case c == '\f':
		e.str("\\f")
	case c < 0x20 || e.html && (c == '<' || c == '>' || c == '&'):
		e.str("\\u00" + string(hexd[c>>4]) + string(hexd[c&15]))
	default:
		e.out = append(e.out, int64(c))
	}
}

// ---- decoding ----

type jnode struct {
	kind    byte // o a s n t f z
	keys    []Value
	rawKeys [][]Value
	vals    []*jnode
	str     Value
	raw     []Value
}

type jdec struct {
	w *W
	b []Value
	i int
}

func (d *jdec) is(pred func(int) bool) bool {
	if d.i >= len(d.b) {
		return false
	}
	switch c := d.b[d.i].(type) {
	case int64:
		return pred(int(c))
	case *Term:
		return d.w.truth(termVal(d.w.rangeTerm(c, pred), false))
	}
	panic("jdec")
}
func (d *jdec) isC(c byte) bool { return d.is(func(k int) bool { return k == int(c) }) }
func (d *jdec) ws() {
	for d.is(func(k int) bool { return k == ' ' || k == '\t' || k == '\n' || k == '\r' }) {
		d.i++
	}
}

func (d *jdec) parse() (*jnode, string) {
	d.ws()
	if d.i >= len(d.b) {
		return nil, "unexpected end of JSON input"
	}
	st := d.i
	lit := func(s string, k byte) (*jnode, string) {
		for j := 0; j < len(s); j++ {
			if d.i >= len(d.b) {
				return nil, "unexpected end of JSON input"
			}
			if !d.isC(s[j]) {
				return nil, "invalid character in literal"
			}
			d.i++
		}
		return &jnode{kind: k, raw: d.b[st:d.i]}, ""
	}
	digit := func(k int) bool { return k >= '0' && k <= '9' }
	switch {
	case d.isC('"'):
		s, err := d.string()
		return &jnode{kind: 's', str: s, raw: d.b[st:d.i]}, err
	case d.isC('{'):
		d.i++
		n := &jnode{kind: 'o'}
		d.ws()
		if d.isC('}') {
			d.i++
			return n, ""
		}
		for {
			d.ws()
			if !d.isC('"') {
				return nil, "invalid character looking for beginning of object key string"
			}
			ks := d.i
			k, err := d.string()
			if err != "" {
				return nil, err
			}
			rk := d.b[ks:d.i]
			d.ws()
			if !d.isC(':') {
				return nil, "invalid character after object key"
			}
			d.i++
			v, err := d.parse()
			if err != "" {
				return nil, err
			}
			n.keys = append(n.keys, k)
			n.rawKeys = append(n.rawKeys, rk)
			n.vals = append(n.vals, v)
			d.ws()
			if d.isC(',') {
				d.i++
				continue
			}
			if d.isC('}') {
				d.i++
				return n, ""
			}
			return nil, "invalid character after object key:value pair"
		}
	case d.isC('['):
		d.i++
		n := &jnode{kind: 'a'}
		d.ws()
		if d.isC(']') {
			d.i++
			return n, ""
		}
		for {
			v, err := d.parse()
			if err != "" {
				return nil, err
			}
			n.vals = append(n.vals, v)
			d.ws()
			if d.isC(',') {
				d.i++
				continue
			}
			if d.isC(']') {
				d.i++
				return n, ""
			}
			return nil, "invalid character after array element"
		}
	case d.isC('t'):
		return lit("true", 't')
	case d.isC('f'):
		return lit("false", 'f')
	case d.isC('n'):
		return lit("null", 'z')
	case d.is(func(k int) bool { return k == '-' || digit(k) }):
		if d.isC('-') {
			d.i++
		}
		if d.isC('0') {
			d.i++
		} else if d.is(digit) {
			for d.is(digit) {
				d.i++
			}
		} else {
			return nil, "invalid character in numeric literal"
		}
		if d.isC('.') {
			d.i++
			if !d.is(digit) {
				return nil, "invalid character after decimal point in numeric literal"
			}
			for d.is(digit) {
				d.i++
			}
		}
		if d.is(func(k int) bool { return k == 'e' || k == 'E' }) {
			d.i++
			if d.is(func(k int) bool { return k == '+' || k == '-' }) {
				d.i++
			}
			if !d.is(digit) {
				return nil, "invalid character in exponent of numeric literal"
			}
			for d.is(digit) {
				d.i++
			}
		}
		return &jnode{kind: 'n', raw: d.b[st:d.i]}, ""
	}
	return nil, "invalid character looking for beginning of value"
}

func (d *jdec) string() (Value, string) {
	w := d.w
	d.i++
	var out []Value
	for {
		if d.i >= len(d.b) {
			return nil, "unexpected end of JSON input"
		}
		if d.isC('"') {
			d.i++
			return mkStr(out), ""
		}
		if d.isC('\\') {
			d.i++
			if d.i >= len(d.b) {
				return nil, "unexpected end of JSON input"
			}
			switch {
			case d.is(func(k int) bool { return k == '"' || k == '\\' || k == '/' }):
				out = append(out, d.b[d.i])
				d.i++
			case d.isC('n'):
				out = append(out, int64('\n'))
				d.i++
			case d.isC('t'):
				out = append(out, int64('\t'))
				d.i++
			case d.isC('r'):
				out = append(out, int64('\r'))
				d.i++
			case d.isC('b'):
				out = append(out, int64('\b'))
				d.i++
			case d.isC('f'):
				out = append(out, int64('\f'))
				d.i++
			case d.isC('u'):
				d.i++
				r, ok := d.hex4()
				if !ok {
					return nil, "invalid character in \\u hexadecimal character escape"
				}
				if r >= 0xd800 && r < 0xdc00 && d.i+1 < len(d.b) && d.isC('\\') {
					save := d.i
					d.i++
					if d.isC('u') {
						d.i++
						r2, ok := d.hex4()
						if !ok {
							return nil, "invalid character in \\u hexadecimal character escape"
						}
						if r2 >= 0xdc00 && r2 < 0xe000 {
							r = 0x10000 + (r-0xd800)<<10 + (r2 - 0xdc00)
						} else {
							d.i = save
							r = 0xfffd
						}
					} else {
						d.i = save
						r = 0xfffd
					}
				} else if r >= 0xd800 && r < 0xe000 {
					r = 0xfffd
				}
				out = append(out, w.strBytes(string(rune(r)))...)
			default:
				return nil, "invalid character in string escape code"
			}
			continue
		}
		if d.is(func(k int) bool { return k < 0x20 }) {
			return nil, "invalid character in string literal"
		}
		if d.is(func(k int) bool { return k < 0x80 }) {
			out = append(out, d.b[d.i])
			d.i++
			continue
		}
		r, n := w.decodeRune(d.b[d.i:])
		if rv, ok := r.(int64); ok && rv == 0xfffd && n == 1 {
			out = append(out, w.strBytes("\uFFFD")...)
			d.i++
			continue
		}
		out = append(out, d.b[d.i:d.i+n]...)
		d.i += n
	}
}

func (d *jdec) hex4() (int64, bool) {
	if d.i+4 > len(d.b) {
		return 0, false
	}
	var r int64
	for k := 0; k < 4; k++ {
		if !d.is(func(c int) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }) {
			return 0, false
		}
		c := byte(d.w.concInt(d.b[d.i], false))
		v, _ := strconv.ParseInt(string(rune(c)), 16, 64)
		r = r<<4 | v
		d.i++
	}
	return r, true
}

func (w *W) jsonAny(n *jnode, useNumber bool) Iface {
	e := w.eng
	switch n.kind {
	case 'z':
		return Iface{}
	case 't':
		return Iface{types.Typ[types.Bool], true}
	case 'f':
		return Iface{types.Typ[types.Bool], false}
	case 's':
		return Iface{tstr(), n.str}
	case 'n':
		s := w.concStr(mkStr(n.raw))
		f, _ := strconv.ParseFloat(s, 64)
		return Iface{types.Typ[types.Float64], f}
	case 'a':
		a := make([]Value, len(n.vals))
		for i, x := range n.vals {
			a[i] = w.jsonAny(x, useNumber)
		}
		return Iface{e.anySlice, a}
	case 'o':
		m := &MapV{}
		mt := e.anyMap.Underlying().(*types.Map)
		for i, k := range n.keys {
			w.mapSet(mt, m, k, w.jsonAny(n.vals[i], useNumber))
		}
		return Iface{e.anyMap, m}
	}
	panic("jsonAny")
}

// jsonSet stores n into *p of type t; returns an error message or an error value
func (w *W) jsonSet(n *jnode, p *Value, t types.Type, useNumber bool) Value {
	typeErr := func() Value { return w.mkErr("json: cannot unmarshal value into Go value of type " + t.String()) }
	// pointers
	if pt, ok := under(t).(*types.Pointer); ok {
		if n.kind == 'z' {
			*p = (*Value)(nil)
			return nil
		}
		cur, _ := (*p).(*Value)
		if cur == nil {
			z := zero(pt.Elem())
			cur = &z
			*p = cur
		}
		return w.jsonSet(n, cur, pt.Elem(), useNumber)
	}
	if _, isI := under(t).(*types.Interface); !isI {
		if m := w.methodByName(types.NewPointer(t), "UnmarshalJSON"); m != nil {
			if n.kind == 'z' {
				// json calls UnmarshalJSON with null for non-pointer targets
			}
			raw := n.raw
			if n.kind == 'o' || n.kind == 'a' {
				e := &jenc{w: w}
				e.node(n)
				raw = e.out
			}
			r := w.asIface(w.call(m, []Value{p, append([]Value{}, raw...)}))
			if r.t != nil {
				return r
			}
			return nil
		}
		if m := w.methodByName(types.NewPointer(t), "UnmarshalText"); m != nil && n.kind == 's' {
			r := w.asIface(w.call(m, []Value{p, append([]Value{}, w.strBytes(n.str)...)}))
			if r.t != nil {
				return r
			}
			return nil
		}
	}
	if n.kind == 'z' {
		switch under(t).(type) {
		case *types.Interface, *types.Map, *types.Slice:
			*p = zero(t)
		}
		return nil
	}
	switch u := under(t).(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			return typeErr()
		}
		*p = w.jsonAny(n, useNumber)
		return nil
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				return typeErr()
			}
			*p = n.str
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 't' && n.kind != 'f' {
				return typeErr()
			}
			*p = n.kind == 't'
		case u.Info()&types.IsInteger != 0:
			if n.kind != 'n' {
				return typeErr()
			}
			wd, sg, _ := intInfo(t)
			s := w.concStr(mkStr(n.raw))
			if sg {
				x, err := strconv.ParseInt(s, 10, int(wd))
				if err != nil {
					return typeErr()
				}
				*p = x
			} else {
				x, err := strconv.ParseUint(s, 10, int(wd))
				if err != nil {
					return typeErr()
				}
				*p = int64(x)
			}
		case u.Info()&types.IsFloat != 0:
			if n.kind != 'n' {
				return typeErr()
			}
			f, err := strconv.ParseFloat(w.concStr(mkStr(n.raw)), 64)
			if err != nil {
				return typeErr()
			}
			*p = f
		}
		return nil
	case *types.Slice:
		if n.kind == 's' {
			if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				raw, err := base64.StdEncoding.DecodeString(w.concStr(n.str))
				if err != nil {
					return w.mkErr(err.Error())
				}
				out := make([]Value, len(raw))
				for i, c := range raw {
					out[i] = int64(c)
				}
				*p = out
				return nil
			}
		}
		if n.kind != 'a' {
			return typeErr()
		}
		a := make([]Value, len(n.vals))
		var first Value
		for i := range a {
			a[i] = zero(u.Elem())
			if err := w.jsonSet(n.vals[i], &a[i], u.Elem(), useNumber); err != nil && first == nil {
				first = err
			}
		}
		*p = a
		return first
	case *types.Map:
		if n.kind != 'o' {
			return typeErr()
		}
		m, _ := (*p).(*MapV)
		if m == nil {
			m = &MapV{}
			*p = m
		}
		var first Value
		for i, k := range n.keys {
			z := zero(u.Elem())
			if err := w.jsonSet(n.vals[i], &z, u.Elem(), useNumber); err != nil && first == nil {
				first = err
			}
			w.mapSet(u, m, k, z)
		}
		return first
	case *types.Struct:
		if n.kind != 'o' {
			return typeErr()
		}
		fs := jsonFields(u)
		var first Value
		for i, kv := range n.keys {
			k := w.concStr(kv)
			idx := -1
			for j := range fs {
				if fs[j].name == k {
					idx = j
				}
			}
			if idx < 0 {
				for j := range fs {
					if strings.EqualFold(fs[j].name, k) {
						idx = j
						break
					}
				}
			}
			if idx < 0 {
				continue
			}
			// address of the field, allocating embedded pointers
			cur := p
			ct := t
			for _, pi := range fs[idx].path {
				if pt, ok := under(ct).(*types.Pointer); ok {
					q, _ := (*cur).(*Value)
					if q == nil {
						z := zero(pt.Elem())
						q = &z
						*cur = q
					}
					cur, ct = q, pt.Elem()
				}
				st := under(ct).(*types.Struct)
				cur = &(*cur).(Struct)[pi]
				ct = st.Field(pi).Type()
			}
			if err := w.jsonSet(n.vals[i], cur, ct, useNumber); err != nil && first == nil {
				first = err
			}
		}
		return first
	}
	w.unsupported("json into " + t.String())
	return nil
}

func (w *W) jsonUnmarshal(b []Value, target Iface) Iface {
	d := &jdec{w: w, b: b}
	n, err := d.parse()
	if err == "" {
		d.ws()
		if d.i < len(d.b) {
			err = "invalid character after top-level value"
		}
	}
	if err != "" {
		return w.mkErr(err)
	}
	pt, ok := under(target.t).(*types.Pointer)
	if !ok {
		return w.mkErr("json: Unmarshal(non-pointer " + target.t.String() + ")")
	}
	p := target.v.(*Value)
	if p == nil {
		return w.mkErr("json: Unmarshal(nil)")
	}
	if e := w.jsonSet(n, p, pt.Elem(), false); e != nil {
		return e.(Iface)
	}
	return Iface{}
}

func (w *W) jsonMarshal(v Iface, html, pretty bool, prefix, indent string) ([]Value, Value) {
	e := &jenc{w: w, html: html, pretty: pretty, prefix: prefix, indent: indent}
	if v.t == nil {
		e.str("null")
	} else {
		e.value(v.t, v.v, false)
	}
	return e.out, e.err
}

type jsonEncoder struct {
	wr             Value
	html, pretty   bool
	prefix, indent string
}

func initJSON() {
	bytesOrErr := func(b []Value, err Value) Value {
		if err != nil {
			return Tuple{[]Value(nil), err}
		}
		return Tuple{b, Iface{}}
	}
	reg("encoding/json.Marshal", func(w *W, fn *ssa.Function, a []Value) Value {
		return bytesOrErr(w.jsonMarshal(w.asIface(a[0]), true, false, "", ""))
	})
	reg("encoding/json.MarshalIndent", func(w *W, fn *ssa.Function, a []Value) Value {
		return bytesOrErr(w.jsonMarshal(w.asIface(a[0]), true, true, w.concStr(a[1]), w.concStr(a[2])))
	})
	reg("encoding/json.Unmarshal", func(w *W, fn *ssa.Function, a []Value) Value {
		return w.jsonUnmarshal(a[0].([]Value), w.asIface(a[1]))
	})
	// concrete YAML is converted to JSON by the library itself
	reg("github.com/ghodss/yaml.Unmarshal", func(w *W, fn *ssa.Function, a []Value) Value {
		j, err := yaml.YAMLToJSON([]byte(w.concStr(&SymStr{b: a[0].([]Value)})))
		if err != nil {
			return w.mkErr("error converting YAML to JSON: " + err.Error())
		}
		b := make([]Value, len(j))
		for i := range j {
			b[i] = int64(j[i])
		}
		return w.jsonUnmarshal(b, w.asIface(a[1]))
	})
	reg("encoding/json.Valid", func(w *W, fn *ssa.Function, a []Value) Value {
		d := &jdec{w: w, b: a[0].([]Value)}
		_, err := d.parse()
		d.ws()
		return err == "" && d.i == len(d.b)
	})
	reg("encoding/json.NewEncoder", func(w *W, fn *ssa.Function, a []Value) Value {
		var v Value = &Opaque{"jsonenc", &jsonEncoder{wr: a[0], html: true}}
		return &v
	})
	enc := func(w *W, v Value) *jsonEncoder { return (*w.ptr(v)).(*Opaque).v.(*jsonEncoder) }
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(w *W, fn *ssa.Function, a []Value) Value {
		enc(w, a[0]).html = w.truth(a[1])
		return nil
	})
	reg("(*encoding/json.Encoder).SetIndent", func(w *W, fn *ssa.Function, a []Value) Value {
		e := enc(w, a[0])
		e.prefix, e.indent = w.concStr(a[1]), w.concStr(a[2])
		e.pretty = e.prefix != "" || e.indent != ""
		return nil
	})
	reg("(*encoding/json.Encoder).Encode", func(w *W, fn *ssa.Function, a []Value) Value {
		e := enc(w, a[0])
		b, err := w.jsonMarshal(w.asIface(a[1]), e.html, e.pretty, e.prefix, e.indent)
		if err != nil {
			return err
		}
		b = append(b, int64('\n'))
		i := w.asIface(e.wr)
		r := w.call(w.methodByName(i.t, "Write"), []Value{copyVal(i.v), b}).(Tuple)
		return r[1]
	})
	type jsonDecoder struct {
		rd     Value
		buf    []Value
		all    bool
		opened bool // Token has been called
		toks   []Iface
	}
	// the rest of what is to be read, or the error of reading it
	readAll := func(w *W, d *jsonDecoder, eof Value) Value {
		for !d.all {
			buf := make([]Value, 512)
			for i := range buf {
				buf[i] = int64(0)
			}
			i := w.asIface(d.rd)
			r := w.call(w.methodByName(i.t, "Read"), []Value{copyVal(i.v), buf}).(Tuple)
			n, ok := r[0].(int64)
			if !ok {
				w.unsupported("json: symbolic read size")
			}
			d.buf = append(d.buf, buf[:n]...)
			if w.asIface(r[1]).t != nil {
				if !w.truth(w.eq(w.eng.errIface, r[1], eof)) {
					return r[1]
				}
				d.all = true
			}
		}
		return nil
	}
	reg("encoding/json.NewDecoder", func(w *W, fn *ssa.Function, a []Value) Value {
		var v Value = &Opaque{"jsondec", &jsonDecoder{rd: a[0]}}
		return &v
	})
	reg("(*encoding/json.Decoder).Decode", func(w *W, fn *ssa.Function, a []Value) Value {
		d := (*w.ptr(a[0])).(*Opaque).v.(*jsonDecoder)
		if d.opened {
			w.unsupported("json: Decode after Token")
		}
		eof := w.load(w.global(w.eng.global("io", "EOF")))
		if err := readAll(w, d, eof); err != nil {
			return err
		}
		j := &jdec{w: w, b: d.buf}
		j.ws()
		if j.i >= len(j.b) {
			d.buf = nil
			return eof
		}
		n, err := j.parse()
		if err != "" {
			return w.mkErr(err)
		}
		d.buf = d.buf[j.i:]
		target := w.asIface(a[1])
		pt, ok := under(target.t).(*types.Pointer)
		if !ok || target.v.(*Value) == nil {
			return w.mkErr("json: Unmarshal(non-pointer)")
		}
		if e := w.jsonSet(n, target.v.(*Value), pt.Elem(), false); e != nil {
			return e
		}
		return Iface{}
	})
	reg("(*encoding/json.Decoder).More", func(w *W, fn *ssa.Function, a []Value) Value {
		d := (*w.ptr(a[0])).(*Opaque).v.(*jsonDecoder)
		if d.opened {
			w.unsupported("json: More after Token")
		}
		if readAll(w, d, w.load(w.global(w.eng.global("io", "EOF")))) != nil {
			return false
		}
		j := &jdec{w: w, b: d.buf}
		j.ws()
		if j.i >= len(j.b) {
			return false
		}
		c := j.b[j.i]
		return termVal(w.ts.Not(w.ts.Or(w.boolTerm(w.bytesEq([]Value{c}, []Value{int64(']')})), w.boolTerm(w.bytesEq([]Value{c}, []Value{int64('}')})))), false)
	})
	// Token: the tokens of a whole value; text that is not well formed is an error at its first token already
	reg("(*encoding/json.Decoder).Token", func(w *W, fn *ssa.Function, a []Value) Value {
		d := (*w.ptr(a[0])).(*Opaque).v.(*jsonDecoder)
		eof := w.load(w.global(w.eng.global("io", "EOF")))
		if len(d.toks) == 0 {
			if err := readAll(w, d, eof); err != nil {
				return Tuple{Iface{}, err}
			}
			d.opened = true
			j := &jdec{w: w, b: d.buf}
			j.ws()
			if j.i >= len(j.b) {
				d.buf = nil
				return Tuple{Iface{}, eof}
			}
			n, err := j.parse()
			if err != "" {
				return Tuple{Iface{}, w.mkErr(err)}
			}
			d.buf = d.buf[j.i:]
			delim := fn.Pkg.Type("Delim").Type()
			var walk func(n *jnode)
			walk = func(n *jnode) {
				switch n.kind {
				case 'o':
					d.toks = append(d.toks, Iface{delim, int64('{')})
					for i, v := range n.vals {
						d.toks = append(d.toks, Iface{tstr(), n.keys[i]})
						walk(v)
					}
					d.toks = append(d.toks, Iface{delim, int64('}')})
				case 'a':
					d.toks = append(d.toks, Iface{delim, int64('[')})
					for _, v := range n.vals {
						walk(v)
					}
					d.toks = append(d.toks, Iface{delim, int64(']')})
				default:
					d.toks = append(d.toks, w.jsonAny(n, false))
				}
			}
			walk(n)
		}
		t := d.toks[0]
		d.toks = d.toks[1:]
		return Tuple{t, Iface{}}
	})
	// sadl.Pretty and sadl.ToString over data with symbolic parts are evaluated only when their text is inspected;
	// the deferred evaluation runs the real function body.
	for _, n := range []string{"Pretty", "ToString"} {
		reg(repoPrefix+"."+n, func(w *W, fn *ssa.Function, a []Value) Value {
			body := w.eng.bodyOf(fn)
			if w.deepConcrete(a[0], 0) {
				return w.exec(body, a, nil, nil)
			}
			snap := w.deepCopy(a[0], map[any]any{})
			return &LazyStr{f: func() Value {
				return w.exec(body, []Value{snap}, nil, nil)
			}}
		})
	}
}

func (w *W) deepConcrete(v Value, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *Term, *SymStr, *LazyStr, *SymPtr:
		return false
	case Struct:
		for _, e := range x {
			if !w.deepConcrete(e, d+1) {
				return false
			}
		}
	case Array:
		for _, e := range x {
			if !w.deepConcrete(e, d+1) {
				return false
			}
		}
	case []Value:
		for _, e := range x {
			if !w.deepConcrete(e, d+1) {
				return false
			}
		}
	case Iface:
		return w.deepConcrete(x.v, d)
	case *Value:
		if x != nil {
			return w.deepConcrete(*x, d+1)
		}
	case *MapV:
		if x != nil {
			for _, e := range x.ents {
				if !w.deepConcrete(e.k, d+1) || !w.deepConcrete(e.v, d+1) {
					return false
				}
			}
		}
	case *Opaque:
		if bf, ok := x.v.(*BigF); ok {
			return bf.conc != nil
		}
	}
	return true
}

func (w *W) deepCopy(v Value, seen map[any]any) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = w.deepCopy(x[i], seen)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = w.deepCopy(x[i], seen)
		}
		return n
	case []Value:
		if x == nil {
			return x
		}
		n := make([]Value, len(x))
		for i := range x {
			n[i] = w.deepCopy(x[i], seen)
		}
		return n
	case Iface:
		return Iface{x.t, w.deepCopy(x.v, seen)}
	case *Value:
		if x == nil {
			return x
		}
		if y, ok := seen[x]; ok {
			return y
		}
		p := new(Value)
		seen[x] = p
		*p = w.deepCopy(*x, seen)
		return p
	case *MapV:
		if x == nil {
			return x
		}
		n := &MapV{n: x.n, nsym: x.nsym}
		for _, e := range x.ents {
			ne := &mapEnt{k: e.k, v: w.deepCopy(e.v, seen), dead: e.dead}
			n.ents = append(n.ents, ne)
			if hk, ok := hashKey(e.k); ok {
				if n.idx == nil {
					n.idx = map[any]*mapEnt{}
				}
				n.idx[hk] = ne
			}
		}
		return n
	}
	return v
}
