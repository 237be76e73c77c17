package c05

import (
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound all seven numeric types; declared minimum and maximum each absent or a symbolic signed number of up to 3 integer digits and 1 fraction digit; values likewise
//verif:bound intrinsic limits: every integer of up to 3 (Int8), 5 (Int16), 10 (Int32), 19 (Int64) digits, both signs
//verif:bound the numbers up to 2 away from 15 limits (every intrinsic one, and numbers that no float64 or float32 can tell from their neighbours), with and without a fraction
//verif:bound reached directly, through a named type, through an alias, as a struct field with inline limits, as an array item and as a map value

var numeric = []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"}

const digits = "0123456789"

// num is a number in tenths, with its text
func num(name string, intOnly bool) (tenths int, text string) {
	n := 0
	if intOnly {
		n = rt.Dec(name, 3) * 10
	} else {
		n = rt.Dec(name, 4)
	}
	neg := rt.Choice(name+" sign", 2) == 1
	text = string([]byte{byte('0' + n/1000), byte('0' + n/100%10), byte('0' + n/10%10)})
	if !intOnly {
		text += "." + string([]byte{byte('0' + n%10)})
	}
	if neg {
		return -n, "-" + text
	}
	return n, text
}

// a type reached in different ways: returns the model, a type name and a wrapper for the value
func reach(ts sadl.TypeSpec) (*sadl.Model, string, func(v interface{}) interface{}) {
	id := func(v interface{}) interface{} { return v }
	switch rt.Choice("route", 5) {
	case 0:
		return lib.Model(lib.Type("N", ts)), "N", id
	case 1:
		return lib.Model(lib.Type("N", ts), lib.Type("M", sadl.TypeSpec{Type: "N"})), "M", id
	case 2:
		return lib.Model(lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", true, ts)}})), "S",
			func(v interface{}) interface{} { return map[string]interface{}{"f": v} }
	case 3:
		return lib.Model(lib.Type("N", ts), lib.Type("A", sadl.TypeSpec{Type: "Array", Items: "N"})), "A",
			func(v interface{}) interface{} { return []interface{}{v} }
	}
	return lib.Model(lib.Type("N", ts), lib.Type("A", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "N"})), "A",
		func(v interface{}) interface{} { return map[string]interface{}{"k": v} }
}

func V_Limits() {
	tname := numeric[rt.Choice("type", 7)]
	_, isInt := lib.IntLimits[tname]
	ts := sadl.TypeSpec{Type: tname}
	n, text := num("value", false)
	ok := true
	if rt.Choice("min", 2) == 1 {
		m, t := num("lo", isInt)
		ts.Min = lib.Dec(t)
		ok = rt.And(ok, n >= m)
	}
	if rt.Choice("max", 2) == 1 {
		m, t := num("hi", isInt)
		ts.Max = lib.Dec(t)
		ok = rt.And(ok, n <= m)
	}
	if isInt {
		ok = rt.And(ok, n%10 == 0)
	}
	if tname == "Int8" {
		ok = rt.And(ok, n >= -1280, n <= 1270)
	}
	m := lib.Model(lib.Type("N", ts))
	err := m.Validate("ctx", "N", lib.Dec(text))
	rt.Assert(rt.Iff(err == nil, ok), "a number is valid exactly when it is within the declared limits")
	rt.Reach("limits")
}

func V_Routes() {
	tname := numeric[rt.Choice("type", 7)]
	_, isInt := lib.IntLimits[tname]
	ts := sadl.TypeSpec{Type: tname}
	n, text := num("value", isInt)
	lo, t := num("lo", isInt)
	ts.Min = lib.Dec(t)
	ts.Max = lib.Dec("900")
	m, name, wrap := reach(ts)
	err := m.Validate("ctx", name, wrap(lib.Dec(text)))
	ok := rt.And(n >= lo, n <= 9000)
	if tname == "Int8" {
		ok = rt.And(ok, n >= -1280, n <= 1270)
	}
	rt.Assert(rt.Iff(err == nil, ok), "limits apply however the type is reached")
}

func intrinsic(tname string, nd int, lo, hi string) {
	s := rt.StrN("digits", nd, nd, digits)
	neg := rt.Choice("sign", 2) == 1
	text, lim := s, hi
	if neg {
		text, lim = "-"+s, lo
	}
	m := lib.Model(lib.Type("N", sadl.TypeSpec{Type: tname}))
	e1 := m.Validate("ctx", tname, lib.Dec(text))
	rt.Assert(rt.Iff(e1 == nil, s <= lim), "an integer is valid exactly when its type can hold it")
	e2 := m.Validate("ctx", "N", lib.Dec(text))
	rt.Assert(rt.Iff(e2 == nil, s <= lim), "an integer of a named type is valid exactly when the type can hold it")
	rt.Reach("intrinsic")
}

func V_Int8()  { intrinsic("Int8", 3, "128", "127") }
func V_Int16() { intrinsic("Int16", 5, "32768", "32767") }
func V_Int32() { intrinsic("Int32", 10, "2147483648", "2147483647") }
func V_Int64() { intrinsic("Int64", 19, "9223372036854775808", "9223372036854775807") }

// one declared limit does not lift the other, intrinsic one
func V_HalfDeclared() {
	m := lib.Model(lib.Type("Lo", sadl.TypeSpec{Type: "Int8", Min: lib.Dec("3")}), lib.Type("Hi", sadl.TypeSpec{Type: "Int8", Max: lib.Dec("3")}))
	n, text := num("value", true)
	d := lib.Dec(text)
	rt.Assert(rt.Iff(m.Validate("", "Lo", d) == nil, rt.And(n >= 30, n <= 1270)), "a declared minimum keeps the intrinsic maximum")
	rt.Assert(rt.Iff(m.Validate("", "Hi", d) == nil, rt.And(n >= -1280, n <= 30)), "a declared maximum keeps the intrinsic minimum")
}

// fractions in the number 1..999.9999 are never integers
func V_Fraction() {
	tname := numeric[rt.Choice("type", 7)]
	_, isInt := lib.IntLimits[tname]
	s := rt.StrN("ip", 1, 2, digits)
	f := rt.StrN("fp", 1, 4, digits)
	zero := true
	for i := 0; i < len(f); i++ {
		zero = rt.And(zero, f[i] == '0')
	}
	m := lib.Model()
	err := m.Validate("ctx", tname, lib.Dec(s+"."+f))
	rt.Assert(rt.Iff(err == nil, rt.Or(!isInt, zero)), "a number with a fraction is not an integer")
}

// the values next to a limit, where numbers are too close for machine arithmetic
func V_Borders() {
	lims := [][3]string{
		{"Int8", "-1", "28"}, {"Int8", "1", "27"}, {"Int16", "-327", "68"}, {"Int16", "327", "67"}, {"Int32", "-21474836", "48"}, {"Int32", "21474836", "47"},
		{"Int64", "-92233720368547758", "08"}, {"Int64", "92233720368547758", "07"},
		{"Int64", "90071992547409", "93"}, {"Decimal", "90071992547409", "93"}, {"Float64", "90071992547409", "93"}, {"Float32", "167772", "17"},
		{"Decimal", "-1234567890123456789012345678", "90"}, {"Decimal", "0.1234567890123456789012345678", "90"}, {"Int32", "167772", "17"},
	}
	l := lims[rt.Choice("limit", len(lims))]
	_, isInt := lib.IntLimits[l[0]]
	off := rt.Choice("offset", 5) - 2
	last := int(l[2][0]-'0')*10 + int(l[2][1]-'0') + off
	text := l[1] + string([]byte{byte('0' + last/10), byte('0' + last%10)})
	frac := rt.Choice("fraction", 3)
	if l[1][0] == '0' {
		text += []string{"", "5", "0000000001"}[frac]
	} else {
		text += []string{"", ".5", ".0000000001"}[frac]
	}
	// where the number lies, in halves around the limit
	pos := 2 * off
	if frac > 0 {
		pos++
	}
	if l[1][0] == '-' {
		pos = -pos
	}
	// the limits of the type itself are the same number for the first eight
	ts := sadl.TypeSpec{Type: l[0]}
	ok := !isInt || frac == 0
	lim := l[1] + l[2]
	own := isInt && (lim == lib.IntLimits[l[0]][0] || lim == lib.IntLimits[l[0]][1])
	how := rt.Choice("how", 4)
	if how == 3 && !own {
		how = 2
	}
	switch how {
	case 0:
		ts.Min = lib.Dec(lim)
	case 1:
		ts.Max = lib.Dec(lim)
	case 2:
		ts.Min, ts.Max = lib.Dec(lim), lib.Dec(lim)
	}
	lower := ts.Min != nil || (own && lim == lib.IntLimits[l[0]][0])
	upper := ts.Max != nil || (own && lim == lib.IntLimits[l[0]][1])
	ok = ok && (!lower || pos >= 0) && (!upper || pos <= 0)
	m, name, wrap := reach(ts)
	err := m.Validate("ctx", name, wrap(lib.Dec(text)))
	rt.Assert((err == nil) == ok, "a number next to a limit is valid exactly when it is within it")
}

// values that are not numbers
func V_NotNumber() {
	tname := numeric[rt.Choice("type", 7)]
	s := rt.StrN("s", 0, 3, "")
	var v interface{}
	switch rt.Choice("kind", 6) {
	case 0:
		v = s
	case 1:
		v = &s
	case 2:
		v = rt.Choice("b", 2) == 1
	case 3:
		v = []interface{}{lib.Dec("1")}
	case 4:
		v = map[string]interface{}{"value": lib.Dec("1")}
	}
	err := lib.Model().Validate("ctx", tname, v)
	rt.Assert(err != nil, "a value that is not a number is not valid")
}
