package c03

import (
	"encoding/json"
	"fmt"

	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound canonical decimals: optional minus, integer part of 1, 2, 7, 19 or 30 digits, fraction of 0, 1, 2, 6, 18 or 40 digits, every digit symbolic
//verif:bound other texts: every string of up to 5 bytes over digits, signs, point, exponent, space and a letter; every single byte; infinities, in letters and by exponents of 10 digits
//verif:assume math/big's decimal parsing and shortest formatting behave as documented at the precision the code asks for (replayed natively on every sampled path)

const digits = "0123456789"

// canonical builds a decimal text without redundant zeros
func canonical() (text string, neg bool, ip, fp string) {
	ni := []int{1, 2, 7, 19, 30}[rt.Choice("integer digits", 5)]
	nf := []int{0, 1, 2, 6, 18, 40}[rt.Choice("fraction digits", 6)]
	ip = rt.StrN("ip", ni, ni, digits)
	if ni > 1 {
		rt.Assume(ip[0] != '0')
	}
	if nf > 0 {
		fp = rt.StrN("fp", nf, nf, digits)
		rt.Assume(fp[nf-1] != '0')
	}
	neg = rt.Choice("sign", 2) == 1
	if neg && nf == 0 && ni == 1 {
		rt.Assume(ip != "0")
	}
	text = ip
	if nf > 0 {
		text += "." + fp
	}
	if neg {
		text = "-" + text
	}
	return
}

func V_TextRoundTrip() {
	s, _, _, _ := canonical()
	d, err := sadl.ParseDecimal(s)
	rt.Assert(err == nil, "a decimal text parses")
	if err != nil {
		return
	}
	rt.Reach("parsed")
	rt.Assert(d.String() == s, "a decimal prints back as written, no digit lost")
	d2, err := sadl.ParseDecimal(d.String())
	rt.Assert(err == nil, "a printed decimal parses")
	rt.Assert(d.AsBigFloat().Cmp(d2.AsBigFloat()) == 0, "a printed decimal parses to the same number")
}

type holder struct {
	D *sadl.Decimal `json:"d,omitempty"`
	N int           `json:"n"`
}

func V_JSONRoundTrip() {
	s, _, _, _ := canonical()
	var d sadl.Decimal
	err := json.Unmarshal([]byte(s), &d)
	rt.Assert(err == nil, "a JSON number decodes as a decimal")
	if err != nil {
		return
	}
	rt.Reach("decoded")
	b, err := json.Marshal(d)
	rt.Assert(err == nil, "a decimal encodes as JSON")
	rt.Assert(string(b) == s, "a decimal encodes as the JSON number it was written as")
	b, err = json.Marshal(&d)
	rt.Assert(err == nil && string(b) == s, "a decimal pointer encodes as the JSON number it was written as")
}

func V_JSONField() {
	n := 1 + rt.Choice("n", 20)
	s := rt.StrN("ip", 1, 1, "123456789") + rt.StrN("rest", n, n, digits) + "." + rt.StrN("fp", 1, 1, digits) + rt.StrN("last", 1, 1, "123456789")
	var h holder
	doc := `{"d":` + s + `,"n":7}`
	err := json.Unmarshal([]byte(doc), &h)
	rt.Assert(err == nil && h.D != nil && h.N == 7, "a document with a decimal decodes")
	if err != nil || h.D == nil {
		return
	}
	b, err := json.Marshal(h)
	rt.Assert(err == nil && string(b) == doc, "a document with a decimal encodes to the same text")
}

// the syntax accepted: optional sign, digits with at most one point, optional exponent
func valid(s string) bool {
	i := 0
	if i < len(s) && rt.Fork(rt.In(s[i], "+-")) {
		i++
	}
	nd := 0
	for i < len(s) && rt.Fork(rt.In(s[i], digits)) {
		i++
		nd++
	}
	if i < len(s) && rt.Fork(s[i] == '.') {
		i++
		for i < len(s) && rt.Fork(rt.In(s[i], digits)) {
			i++
			nd++
		}
	}
	if nd == 0 {
		return false
	}
	if i < len(s) && rt.Fork(rt.In(s[i], "eE")) {
		i++
		if i < len(s) && rt.Fork(rt.In(s[i], "+-")) {
			i++
		}
		n := 0
		for i < len(s) && rt.Fork(rt.In(s[i], digits)) {
			i++
			n++
		}
		if n == 0 {
			return false
		}
	}
	return i == len(s)
}

func V_Syntax() {
	s := rt.StrN("s", 0, 4, "0359+-.eE x\"")
	d, err := sadl.ParseDecimal(s)
	ok := valid(s)
	rt.Assert((err == nil) == ok, "a text is accepted exactly when it is a decimal number")
	rt.Assert((d != nil) == (err == nil), "a rejected text gives no number")
}

func V_AnyByte() {
	s := "12" + rt.StrN("c", 1, 1, "") + "5"
	_, err := sadl.ParseDecimal(s)
	c := s[2]
	rt.Assert(rt.Iff(err == nil, rt.Or(rt.And(c >= '0', c <= '9'), rt.In(c, ".eEpP"))), "only digits, a point or an exponent may appear inside a decimal")
}

// decoding a rejected document leaves the number untouched
func V_JSONReject() {
	s := rt.StrN("s", 1, 3, "0\"n{}[]-,x")
	d, _ := sadl.ParseDecimal("42")
	err := d.UnmarshalJSON([]byte(s))
	ok := valid(s)
	rt.Assert((err == nil) == ok, "a JSON value is accepted exactly when it is a number")
	if err != nil {
		rt.Assert(d.String() == "42", "a rejected JSON value leaves the number as it was")
	}
}

// V_Infinite: a decimal is a number, and so finite
func V_Infinite() {
	in := func(s string) string { return []string{s, "+" + s, "-" + s}[rt.Choice("sign", 3)] }
	s := ""
	switch rt.Choice("text", 3) {
	case 0:
		b := []byte("Inf")
		for i := range b {
			if rt.Choice("letter", 2) == 1 {
				b[i] ^= 0x20
			}
		}
		s = in(string(b))
	case 1:
		s = in("inf") + rt.StrN("rest", 1, 2, "in0. ")
	case 2:
		s = in(string('1'+byte(rt.Choice("first", 9)))) + "e" + string('1'+byte(rt.Choice("exponent", 9))) + "00000000" + string('0'+byte(rt.Choice("last", 10)))
	}
	_, err := sadl.ParseDecimal(s)
	rt.Assert(err != nil, "an infinity is not a number")
	d, _ := sadl.ParseDecimal("42")
	err = d.UnmarshalJSON([]byte(s))
	rt.Assert(err != nil, "an infinity is not a JSON number")
	rt.Assert(d.String() == "42", "a rejected JSON value leaves the number as it was")
	rt.Reach("infinite")
}

func V_Ints() {
	n := rt.Dec("n", 17)
	neg := rt.Choice("neg", 2) == 1
	var v int64 = int64(n)
	if neg {
		v = -v
	}
	d := sadl.DecimalValue(nil, v)
	rt.Assert(d != nil, "an int64 default gives a number")
	if d == nil {
		return
	}
	rt.Assert(d.AsInt64() == v, "an integer default keeps its value")
	x, _ := sadl.ParseDecimal("7")
	rt.Assert(sadl.DecimalValue(x, v) == x, "a given number wins over the default")
}

func V_Int32() {
	n := rt.Dec("n", 9)
	d, err := sadl.ParseDecimal(fmt.Sprint(n))
	rt.Assert(err == nil, "an integer parses")
	if err == nil {
		rt.Assert(int(d.AsInt32()) == n, "a small integer converts to 32 bits unchanged")
	}
}

func V_Defaults() {
	n := rt.Choice("n", 256) - 128
	for _, def := range []interface{}{int8(n), int16(n * 250), int32(n * 16000000), n * 72057594037927935, int64(n) * 72057594037927936, float32(n) / 4, float64(n) / 8} {
		d := sadl.DecimalValue(nil, def)
		rt.Assert(d != nil, "every numeric default gives a number")
		if d == nil {
			continue
		}
		want := 0.0
		switch x := def.(type) {
		case int8:
			want = float64(x)
		case int16:
			want = float64(x)
		case int32:
			want = float64(x)
		case int:
			rt.Assert(d.AsInt64() == int64(x), "an int default keeps its value")
			continue
		case int64:
			want = float64(x)
		case float32:
			want = float64(x)
		case float64:
			want = x
		}
		rt.Assert(d.AsFloat64() == want, "a default keeps its value")
	}
	rt.Assert(sadl.DecimalValue(nil, nil) == nil, "no default, no number")
	rt.Assert(sadl.DecimalValue(nil, "7") == nil, "a default that is not a number gives none")
}
