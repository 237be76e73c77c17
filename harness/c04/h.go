package c04

import (
	"encoding/json"

	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound amounts: optional minus, 1..9 integer digits, 0..8 fraction digits, all symbolic; units of 1..3 arbitrary ASCII bytes without control characters (quotes, backslashes, spaces included)
//verif:bound texts: every string of up to 5 bytes over digits, point, minus, space, letters

const digits = "0123456789"

const ascii = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

func amount() string {
	s := rt.StrN("ip", 1, 1, digits)
	ni := []int{0, 2, 8}[rt.Choice("integer digits", 3)]
	if ni > 0 {
		rt.Assume(s != "0")
		s += rt.StrN("ip2", ni, ni, digits)
	}
	nf := []int{0, 2, 8}[rt.Choice("fraction digits", 3)]
	if nf > 0 {
		s += "." + rt.StrN("fp", nf, nf, digits)
	}
	if rt.Choice("sign", 2) == 1 {
		s = "-" + s
	}
	return s
}

func same(a, b *sadl.Decimal) bool { return a.AsBigFloat().Cmp(b.AsBigFloat()) == 0 }

func V_RoundTrip() {
	a := amount()
	unit := rt.StrN("unit", 1, 3, ascii)
	d, err := sadl.ParseDecimal(a)
	rt.Assert(err == nil, "amount")
	u, err := sadl.ParseUnitValue(a + " " + unit)
	rt.Assert(err == nil, "an amount and a unit make a unit value")
	if err != nil {
		return
	}
	rt.Reach("parsed")
	rt.Assert(u.Unit == unit, "the unit is kept")
	rt.Assert(same(u.Value, d), "the amount is kept")
	v, err := sadl.ParseUnitValue(u.String())
	rt.Assert(err == nil, "a printed unit value parses")
	if err == nil {
		rt.Assert(v.Unit == unit, "printing and parsing keeps the unit")
		rt.Assert(same(v.Value, d), "printing and parsing keeps the amount")
	}
}

func V_JSON() {
	a := rt.StrN("a", 1, 1, "123456789") + "." + rt.StrN("f", 2, 2, digits)
	unit := rt.StrN("unit", 1, 2, ascii)
	d, _ := sadl.ParseDecimal(a)
	u := &sadl.UnitValue{Value: d, Unit: unit}
	b, err := json.Marshal(u)
	rt.Assert(err == nil, "a unit value encodes as JSON")
	if err != nil {
		return
	}
	rt.Reach("encoded")
	var s string
	err = json.Unmarshal(b, &s)
	rt.Assert(err == nil, "a unit value encodes as a JSON string")
	rt.Assert(s == u.String(), "a unit value encodes as its text")
	var v sadl.UnitValue
	err = json.Unmarshal(b, &v)
	rt.Assert(err == nil, "an encoded unit value decodes")
	if err == nil {
		rt.Assert(v.Unit == unit, "JSON keeps the unit")
		rt.Assert(same(v.Value, d), "JSON keeps the amount")
	}
}

func isNum(s string) bool {
	i := 0
	if i < len(s) && rt.Fork(s[i] == '-') {
		i++
	}
	n, p := 0, 0
	for ; i < len(s); i++ {
		if rt.Fork(rt.In(s[i], digits)) {
			n++
		} else if rt.Fork(s[i] == '.') {
			p++
		} else {
			return false
		}
	}
	return n > 0 && p <= 1
}

func V_Syntax() {
	s := rt.StrN("s", 0, 5, "07.- XS")
	u, err := sadl.ParseUnitValue(s)
	i := 0
	for i < len(s) && rt.Fork(s[i] != ' ') {
		i++
	}
	ok := i < len(s)-1 && isNum(s[:i])
	rt.Assert((err == nil) == ok, "accepted exactly when it is a number, a space and a unit")
	rt.Assert((u != nil) == (err == nil), "a rejected text gives no unit value")
	var v sadl.UnitValue
	v.Unit = "before"
	e := json.Unmarshal([]byte("\""+s+"\""), &v)
	rt.Assert((e == nil) == ok, "JSON accepted exactly when the text is")
	if e != nil {
		rt.Assert(v.Unit == "before" && v.Value == nil, "a rejected JSON text leaves the value as it was")
	}
}

func V_JSONReject() {
	s := rt.StrN("doc", 1, 3, "0\"n{}[] 1")
	var v sadl.UnitValue
	e := v.UnmarshalJSON([]byte(s))
	rt.Assert(e != nil, "a document that is not a string with an amount and a unit is rejected")
}

func V_New() {
	n := rt.Choice("n", 64)
	f := float64(n*37-1000) / 8
	unit := rt.StrN("unit", 1, 2, "AZ az")
	u := sadl.NewUnitValue(f, unit)
	rt.Assert(u.Value.AsFloat64() == f && u.Unit == unit, "a new unit value has the given amount and unit")
	v, err := sadl.ParseUnitValue(u.String())
	rt.Assert(err == nil && v.Value.AsFloat64() == f && v.Unit == unit, "a new unit value prints and parses back")
}
