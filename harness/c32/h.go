package c32

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/boynton/sadl/zzg/gt"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound the fixture types of harness/c32/gen: a struct with a field of every kind, a recursive field, a union, enums with and without values of their own, and a number type of each size
//verif:bound instants of year 1..9999 in UTC and in 6 fixed zones; timestamp texts with every digit symbolic; decimals of up to 30 integer and 40 fraction digits; enum texts of 0..4 bytes; number texts of 0..4 bytes and the limits of every size; each field set or not

func d2(name string) string { return fmt.Sprintf("%02d", rt.Dec(name, 2)) }

func num(s string, i, n int) int {
	r := 0
	for k := 0; k < n; k++ {
		r = r*10 + int(s[i+k]) - '0'
	}
	return r
}

func V_TimestampPrint() {
	y := rt.Dec("year", 4)
	rt.Assume(y >= 1)
	zone := time.UTC
	if k := rt.Choice("zone", 7); k > 0 {
		zone = time.FixedZone("X", []int{-43200, -12600, -1, 60, 20700, 50400}[k-1])
	}
	t := time.Date(y, time.Month(rt.Int("month", 1, 12)), rt.Int("day", 1, 28), rt.Int("hour", 0, 23), rt.Int("min", 0, 59), rt.Int("sec", 0, 59), rt.Dec("nsec", 9), zone)
	ts := gt.Timestamp{Time: t}
	if ts.IsZero() {
		return
	}
	s := ts.String()
	rt.Assert(len(s) == 24 && rt.And(s[4] == '-', s[7] == '-', s[10] == 'T', s[13] == ':', s[16] == ':', s[19] == '.', s[23] == 'Z'), "a timestamp prints in the RFC 3339 UTC layout")
	if len(s) != 24 {
		return
	}
	u := t.UTC()
	rt.Assert(rt.And(num(s, 0, 4) == u.Year(), num(s, 5, 2) == int(u.Month()), num(s, 8, 2) == u.Day()), "printed date")
	rt.Assert(rt.And(num(s, 11, 2) == u.Hour(), num(s, 14, 2) == u.Minute(), num(s, 17, 2) == u.Second(), num(s, 20, 3) == u.Nanosecond()/1000000), "printed time of day")
}

func V_TimestampJSON() {
	y := rt.Dec("year", 4)
	rt.Assume(y >= 1)
	t := time.Date(y, time.Month(rt.Int("month", 1, 12)), rt.Int("day", 1, 28), rt.Int("hour", 0, 23), rt.Int("min", 0, 59), rt.Int("sec", 1, 59), rt.Dec("milli", 3)*1000000, time.UTC)
	ts := gt.Timestamp{Time: t}
	b, err := json.Marshal(ts)
	rt.Assert(err == nil && string(b) == "\""+ts.String()+"\"", "a timestamp encodes as its text")
	if err != nil {
		return
	}
	var u gt.Timestamp
	err = json.Unmarshal(b, &u)
	rt.Assert(err == nil, "an encoded timestamp decodes")
	rt.Assert(u.Equal(t), "an encoded timestamp decodes to the same instant")
}

func V_TimestampParse() {
	y := fmt.Sprintf("%04d", rt.Dec("yyyy", 4))
	base := y + "-" + d2("mm") + "-" + d2("dd") + "T" + d2("hh") + ":" + d2("mi") + ":" + d2("ss")
	nf := rt.Choice("fraction digits", 4)
	if nf > 0 {
		f := []string{"%01d", "%02d", "%03d"}[nf-1]
		base += "." + fmt.Sprintf(f, rt.Dec("fff", nf))
	}
	k := rt.Choice("suffix", 8)
	s := base + []string{"Z", "+00:00", "-00:00", "+0000", "-0000", "+01:00", "-0030", ""}[k]
	p, err := gt.ParseTimestamp(s)
	month, day, year := num(s, 5, 2), num(s, 8, 2), num(s, 0, 4)
	leap := rt.And(year%4 == 0, rt.Or(year%100 != 0, year%400 == 0))
	in := func(v, lo, hi int) bool { return rt.And(v >= lo, v <= hi) }
	ok := rt.And(k < 5, in(month, 1, 12), in(day, 1, 31), rt.Or(day <= 30, rt.Not(rt.Or(month == 4, month == 6, month == 9, month == 11))),
		rt.Or(month != 2, day <= 28, rt.And(day == 29, leap)), in(num(s, 11, 2), 0, 23), in(num(s, 14, 2), 0, 59), in(num(s, 17, 2), 0, 59))
	rt.Assert(rt.Iff(err == nil, ok), "a text is accepted exactly when its fields are in range and its zone is UTC")
	q := gt.TimestampFromString(s)
	rt.Assert((q != nil) == (err == nil), "a text that is not a timestamp gives none")
	if err == nil {
		rt.Reach("accepted")
		rt.Assert(rt.And(p.Year() == year, int(p.Month()) == month, p.Day() == day, p.Hour() == num(s, 11, 2), p.Minute() == num(s, 14, 2), p.Second() == num(s, 17, 2)), "parsed date and time")
		ms := 0
		for i := 0; i < 3; i++ {
			ms *= 10
			if i < nf {
				ms += int(s[20+i]) - '0'
			}
		}
		rt.Assert(p.Nanosecond() == ms*1000000, "parsed milliseconds")
		rt.Assert(q.Equal(p.Time), "both ways to read a timestamp agree")
	}
}

// HTTP dates are read, too
func V_TimestampHttp() {
	for _, x := range [][2]string{{"Sat, 29 Feb 2020 23:59:59 GMT", "2020-02-29T23:59:59.000Z"}, {"Fri, 01 Jan 1999 00:00:00 GMT", "1999-01-01T00:00:00.000Z"}} {
		p, err := gt.ParseTimestamp(x[0])
		rt.Assert(err == nil && p.String() == x[1], "an HTTP date is read")
	}
	s := rt.StrN("s", 0, 3, "0-:TZ ,")
	_, err := gt.ParseTimestamp(s)
	rt.Assert(err != nil, "a text without a full date and time is rejected")
}

const digits = "0123456789"

func canonical() string {
	ni := []int{1, 2, 19, 30}[rt.Choice("integer digits", 4)]
	nf := []int{0, 1, 6, 40}[rt.Choice("fraction digits", 4)]
	s := rt.StrN("ip", ni, ni, digits)
	if ni > 1 {
		rt.Assume(s[0] != '0')
	}
	if nf > 0 {
		fp := rt.StrN("fp", nf, nf, digits)
		rt.Assume(fp[nf-1] != '0')
		s += "." + fp
	}
	if rt.Choice("sign", 2) == 1 {
		if s == "0" {
			return s
		}
		s = "-" + s
	}
	return s
}

type holder struct {
	D *gt.Decimal `json:"d,omitempty"`
}

func V_Decimal() {
	s := canonical()
	d, err := gt.ParseDecimal(s)
	rt.Assert(err == nil && d != nil, "a decimal text parses")
	if err != nil {
		return
	}
	b, err := json.Marshal(&holder{d})
	rt.Assert(err == nil && string(b) == `{"d":"`+s+`"}`, "a decimal encodes as a string with all its digits")
	var h holder
	err = json.Unmarshal(b, &h)
	rt.Assert(err == nil && h.D != nil, "an encoded decimal decodes")
	if err == nil && h.D != nil {
		rt.Assert(h.D.AsBigFloat().Cmp(d.AsBigFloat()) == 0, "an encoded decimal decodes to the same number")
	}
	f := gt.DecimalFromString(s)
	rt.Assert(f != nil && f.AsBigFloat().Cmp(d.AsBigFloat()) == 0, "both ways to read a decimal agree")
}

func V_DecimalBad() {
	s := rt.StrN("s", 0, 3, "1-. x")
	d, err := gt.ParseDecimal(s)
	f := gt.DecimalFromString(s)
	rt.Assert((err == nil) == (f != nil) && (err == nil) == (d != nil), "a text that is not a decimal gives none")
	n, dot, ok := 0, 0, true
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '-' && i == 0:
		case s[i] == '1':
			n++
		case s[i] == '.':
			dot++
		default:
			ok = false
		}
	}
	rt.Assert((err == nil) == (ok && n > 0 && dot < 2), "a text is accepted exactly when it is a decimal number")
}

// an infinity is no decimal number, in any spelling
func V_DecimalInfinite() {
	b := []byte("inf")
	for i := range b {
		if rt.Choice("letter", 2) == 1 {
			b[i] ^= 0x20
		}
	}
	s := []string{"", "+", "-"}[rt.Choice("sign", 3)] + string(b)
	if rt.Choice("long", 2) == 1 {
		s += "inity"
	}
	rt.Reach("infinite")
	_, err := gt.ParseDecimal(s)
	rt.Assert(err != nil && gt.DecimalFromString(s) == nil, "an infinity is not a decimal")
	var h holder
	rt.Assert(json.Unmarshal([]byte(`{"d":"`+s+`"}`), &h) != nil, "an infinity does not decode to a decimal")
}

func V_DecimalInts() {
	n := rt.Dec("n", 9)
	d, err := gt.ParseDecimal(fmt.Sprint(n))
	rt.Assert(err == nil, "an integer parses")
	if err == nil {
		rt.Assert(rt.And(int(d.AsInt32()) == n, int(d.AsInt64()) == n), "an integer converts unchanged")
	}
}

func V_Enum() {
	vals := []string{"A1", "b-\"1", "AB"}
	all := []gt.E{gt.A1, gt.B1, gt.AB}
	i := rt.Choice("symbol", 3)
	rt.Assert(all[i].String() == vals[i], "a symbol prints as its value")
	b, err := json.Marshal(all[i])
	want, _ := json.Marshal(vals[i])
	rt.Assert(err == nil && string(b) == string(want), "a symbol encodes as its value")
	s := rt.StrN("text", 0, 4, "ABb-1\"")
	rt.Assume(s != "")
	q, _ := json.Marshal(s)
	var e gt.E
	err = json.Unmarshal(q, &e)
	known := rt.Or(s == vals[0], s == vals[1], s == vals[2])
	rt.Assert(rt.Iff(err == nil, known), "a text is a symbol exactly when it is the value of one")
	if err == nil {
		rt.Assert(e.String() == s, "a symbol decodes from its value")
		rt.Reach("symbol")
	}
}

func V_FromString() {
	s := rt.StrN("text", 0, 4, "0159-a")
	n, nd, neg, ok := int64(0), 0, false, true
	for i := 0; i < len(s); i++ {
		switch {
		case i == 0 && s[i] == '-':
			neg = true
		case s[i] == '-' || s[i] == 'a':
			ok = false
		default:
			n = n*10 + int64(s[i]-'0')
			nd++
		}
	}
	if neg {
		n = -n
	}
	if !ok || nd == 0 {
		n = 0
	}
	n8 := n
	if n8 > 127 || n8 < -128 {
		n8 = 0
	}
	rt.Assert(int64(gt.N8FromString(s)) == n8, "a number is read from its text, and is 0 when it does not fit")
	rt.Assert(rt.And(int64(gt.N16FromString(s)) == n, int64(gt.N32FromString(s)) == n, int64(gt.N64FromString(s)) == n), "a number is read from its text")
}

func V_Limits() {
	rt.Assert(gt.N16FromString("32767") == 32767 && gt.N16FromString("-32768") == -32768 && gt.N16FromString("32768") == 0, "the limits of 16 bits are read")
	rt.Assert(gt.N32FromString("2147483647") == 2147483647 && gt.N32FromString("-2147483648") == -2147483648 && gt.N32FromString("2147483648") == 0, "the limits of 32 bits are read")
	rt.Assert(gt.N64FromString("9223372036854775807") == 9223372036854775807 && gt.N64FromString("9223372036854775808") == 0, "the limits of 64 bits are read")
	rt.Assert(gt.R64FromString("-1.5") == -1.5 && gt.R64FromString("x") == 0, "floating point numbers are read")
}

func keys(b []byte) map[string]interface{} {
	m := map[string]interface{}{}
	err := json.Unmarshal(b, &m)
	rt.Assert(err == nil, "a struct encodes as an object")
	return m
}

func V_Struct() {
	k := rt.Choice("field", 12)
	set := rt.Choice("set", 2) == 1
	v := &gt.S{S: rt.StrN("s", 0, 1, "a\""), N: []int32{0, 5}[rt.Choice("n", 2)], R: gt.A1}
	name := ""
	switch k {
	case 0:
		name = "o"
		if set {
			v.O = rt.StrN("o", 1, 2, "a\"\\")
		}
	case 1:
		name = "m"
		if set {
			v.M = -7
		}
	case 2:
		name = "b"
		v.B = set
	case 3:
		name = "e"
		if set {
			v.E = gt.B1
		}
	case 4:
		name = "l"
		if set {
			v.L = []int32{1, -2}
		}
	case 5:
		name = "k"
		if set {
			v.K = map[string]string{rt.StrN("key", 0, 1, "a\""): "v"}
		}
	case 6:
		name = "t"
		if set {
			v.T = gt.TimestampFromString("2020-01-02T03:04:05.678Z")
		}
	case 7:
		name = "d"
		if set {
			v.D = gt.DecimalFromString("1.25")
		}
	case 8:
		name = "y"
		if set {
			v.Y = []byte{1, 2, 255}
		}
	case 9:
		name = "x"
		if set {
			v.X = &gt.S{S: "in", R: gt.AB}
		}
	case 10:
		name = "v"
		if set {
			v.V = true
		}
	case 11:
		set = false
	}
	b, err := json.Marshal(v)
	rt.Assert(err == nil, "a struct encodes")
	if err != nil {
		return
	}
	m := keys(b)
	n := 3
	if set {
		n++
	}
	_, has := m[name]
	_, hs := m["s"]
	_, hn := m["n"]
	_, hr := m["r"]
	rt.Assert(hs && hn && hr && has == set && len(m) == n, "required fields are always there, optional ones exactly when set")
	var w gt.S
	err = json.Unmarshal(b, &w)
	rt.Assert(err == nil, "an encoded struct decodes")
	if err != nil {
		return
	}
	b2, err := json.Marshal(&w)
	rt.Assert(err == nil && string(b2) == string(b), "an encoded struct decodes to the same value")
	rt.Assert(rt.And(w.S == v.S, w.N == v.N, w.R == v.R, w.O == v.O, w.M == v.M, w.B == v.B, w.E == v.E), "an encoded struct decodes to the same value")
}

func V_Union() {
	k := rt.Choice("variant", 3)
	u := gt.U{}
	name := []string{"s", "n", "t"}[k]
	switch k {
	case 0:
		u.S = rt.StrN("s", 1, 2, "a\"")
	case 1:
		u.N = 5
	case 2:
		u.T = &gt.S{S: "x", R: gt.A1}
	}
	b, err := json.Marshal(u)
	rt.Assert(err == nil, "a union encodes")
	if err != nil {
		return
	}
	m := keys(b)
	_, has := m[name]
	rt.Assert(has && len(m) == 1, "a union encodes as its variant only")
	var w gt.U
	err = json.Unmarshal(b, &w)
	rt.Assert(err == nil && rt.And(w.S == u.S, w.N == u.N) && (w.T != nil) == (u.T != nil), "an encoded union decodes to the same value")
	tags := []gt.UVariantTag{gt.UVariantTagS, gt.UVariantTagN, gt.UVariantTagT}
	rt.Assert(tags[0] != 0 && tags[0] != tags[1] && tags[1] != tags[2] && tags[0] != tags[2], "the tags of a union differ")
}
