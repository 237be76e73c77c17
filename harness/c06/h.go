package c06

import (
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound strings of 0..5 arbitrary ASCII bytes; size limits absent or any value 0..7; up to 3 allowed values of 1..2 symbolic letters; 8 patterns with hand written matchers
//verif:bound given as a string or a pointer; reached directly, through an alias, as a struct field, an array item, a map value, a map key
//verif:assume regular expressions are those of Go's regexp package; matching is modelled by simulating the compiled program on symbolic bytes (replayed natively on every sampled path)

const ascii = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

func either(s string) interface{} {
	if rt.Choice("pointer", 2) == 1 {
		return &s
	}
	return s
}

func V_Sizes() {
	s := rt.StrN("s", 0, 5, ascii)
	ts := sadl.TypeSpec{Type: "String"}
	ok := true
	if rt.Choice("min", 2) == 1 {
		n := rt.Int64("lo", 0, 1<<40)
		ts.MinSize = &n
		ok = rt.And(ok, int64(len(s)) >= n)
	}
	if rt.Choice("max", 2) == 1 {
		n := rt.Int64("hi", 0, 1<<40)
		ts.MaxSize = &n
		ok = rt.And(ok, int64(len(s)) <= n)
	}
	err := lib.Model(lib.Type("T", ts)).Validate("ctx", "T", either(s))
	rt.Assert(rt.Iff(err == nil, ok), "a string is valid exactly when its size is within the limits")
	rt.Reach("sizes")
}

func V_Values() {
	n := 1 + rt.Choice("values", 3)
	s := rt.StrN("s", 0, 3, "abc ")
	ts := sadl.TypeSpec{Type: "String"}
	in := false
	for i := 0; i < n; i++ {
		v := rt.StrN("v", 1, 2, "abc")
		ts.Values = append(ts.Values, v)
		in = rt.Or(in, v == s)
	}
	if rt.Choice("max", 2) == 1 {
		m := rt.Int64("hi", 0, 3)
		ts.MaxSize = &m
		in = rt.And(in, int64(len(s)) <= m)
	}
	if rt.Choice("min", 2) == 1 {
		m := rt.Int64("lo", 0, 3)
		ts.MinSize = &m
		in = rt.And(in, int64(len(s)) >= m)
	}
	if rt.Choice("pattern", 2) == 1 {
		ts.Pattern = "^[ab]*$"
		in = rt.And(in, all(s, "ab"))
	}
	err := lib.Model(lib.Type("T", ts)).Validate("ctx", "T", either(s))
	rt.Assert(rt.Iff(err == nil, in), "a string is valid exactly when it is one of the declared values and meets the other constraints")
}

type pat struct {
	re    string
	match func(s string) bool
}

func all(s string, set string) bool {
	r := true
	for i := 0; i < len(s); i++ {
		r = rt.And(r, rt.In(s[i], set))
	}
	return r
}

const lower = "abcdefghijklmnopqrstuvwxyz"
const letters = lower + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
const digits = "0123456789"

var pats = []pat{
	{"^[a-z]+$", func(s string) bool { return len(s) > 0 && all(s, lower) }},
	{"^[a-zA-Z_][a-zA-Z_0-9]*$", func(s string) bool {
		return len(s) > 0 && rt.And(rt.In(s[0], letters+"_"), all(s[1:], letters+digits+"_"))
	}},
	{"^[0-9]{2}-[0-9]{2}$", func(s string) bool {
		return len(s) == 5 && rt.And(all(s[:2], digits), s[2] == '-', all(s[3:], digits))
	}},
	{"^$", func(s string) bool { return s == "" }},
	{"b", func(s string) bool {
		r := false
		for i := 0; i < len(s); i++ {
			r = rt.Or(r, s[i] == 'b')
		}
		return r
	}},
	{"^a", func(s string) bool { return len(s) > 0 && s[0] == 'a' }},
	{"z$", func(s string) bool { return len(s) > 0 && s[len(s)-1] == 'z' }},
	{"^(ab|cd)*$", func(s string) bool {
		if len(s)%2 != 0 {
			return false
		}
		r := true
		for i := 0; i < len(s); i += 2 {
			r = rt.And(r, rt.Or(s[i:i+2] == "ab", s[i:i+2] == "cd"))
		}
		return r
	}},
}

func V_Pattern() {
	p := pats[rt.Choice("pattern", len(pats))]
	s := rt.StrN("s", 0, 5, ascii)
	ok := p.match(s)
	ts := sadl.TypeSpec{Type: "String", Pattern: p.re}
	if rt.Choice("max", 2) == 1 {
		n := rt.Int64("hi", 0, 4)
		ts.MaxSize = &n
		ok = rt.And(ok, int64(len(s)) <= n)
	}
	err := lib.Model(lib.Type("T", ts)).Validate("ctx", "T", either(s))
	rt.Assert(rt.Iff(err == nil, ok), "a string is valid exactly when it matches the pattern and the size limit")
	rt.Reach("pattern")
}

func V_BadPattern() {
	s := rt.StrN("s", 0, 2, ascii)
	re := []string{"[", "(", "a**", "\\"}[rt.Choice("re", 4)]
	err := lib.Model(lib.Type("T", sadl.TypeSpec{Type: "String", Pattern: re})).Validate("ctx", "T", s)
	rt.Assert(err != nil, "nothing is valid against a pattern that is not a regular expression")
}

func V_Routes() {
	s := rt.StrN("s", 0, 4, "abcz")
	two := lib.I64(2)
	ts := sadl.TypeSpec{Type: "String", Pattern: "^[ab]*$", MaxSize: lib.I64(3), MinSize: two}
	ok := rt.And(len(s) >= 2, len(s) <= 3, all(s, "ab"))
	v := either(s)
	var m *sadl.Model
	name := "A"
	switch rt.Choice("route", 6) {
	case 0:
		m = lib.Model(lib.Type("T", ts), lib.Type("A", sadl.TypeSpec{Type: "T"}))
	case 1:
		m = lib.Model(lib.Type("A", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", false, ts)}}))
		v = map[string]interface{}{"f": v}
	case 2:
		m = lib.Model(lib.Type("T", ts), lib.Type("A", sadl.TypeSpec{Type: "Array", Items: "T"}))
		v = []interface{}{"ab", v}
	case 3:
		m = lib.Model(lib.Type("T", ts), lib.Type("A", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "T"}))
		v = map[string]interface{}{"f": v}
	case 4:
		m = lib.Model(lib.Type("T", ts), lib.Type("A", sadl.TypeSpec{Type: "Map", Keys: "T", Items: "Bool"}))
		v = map[string]interface{}{s: true}
	case 5:
		m = lib.Model(lib.Type("T", ts), lib.Type("A", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "T", TypeSpec: sadl.TypeSpec{Type: "T"}}}}))
		v = map[string]interface{}{"T": v}
	}
	err := m.Validate("ctx", name, v)
	rt.Assert(rt.Iff(err == nil, ok), "constraints apply however the string type is reached")
}

func V_NotString() {
	var v interface{}
	switch rt.Choice("kind", 5) {
	case 0:
		v = lib.Dec("12")
	case 1:
		v = rt.Choice("b", 2) == 1
	case 2:
		v = []interface{}{"a"}
	case 3:
		v = map[string]interface{}{"a": "b"}
	}
	ts := sadl.TypeSpec{Type: "String"}
	if rt.Choice("values", 2) == 1 {
		ts.Values = []string{"a", "b"}
	}
	err := lib.Model(lib.Type("T", ts)).Validate("ctx", "T", v)
	rt.Assert(err != nil, "a value that is not a string is not valid")
}
