package c02

import (
	"encoding/json"
	"fmt"
	"time"

	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound instants with year 1..9999 and every month, day, time of day, nanosecond symbolic, in UTC or in a fixed zone: 14 offsets (quick), any offset within 16 hours (thorough)
//verif:bound texts: the canonical layout with 0..4 fraction digits and every digit symbolic; suffix Z, +-00:00, +-0000 or any +-hh:mm / +-hhmm

func instant(zoned bool) time.Time {
	y := rt.Dec("year", 4)
	rt.Assume(y >= 1)
	mo := rt.Int("month", 1, 12)
	d := rt.Int("day", 1, 28)
	h := rt.Int("hour", 0, 23)
	mi := rt.Int("min", 0, 59)
	s := rt.Int("sec", 0, 59)
	ns := rt.Dec("nsec", 9)
	if zoned {
		var off int
		if rt.Thorough() {
			off = rt.Int("offset", -57600, 57600)
		} else {
			off = []int{-43200, -34200, -18000, -12600, -3600, -1, 1, 60, 3600, 19800, 20700, 32400, 45900, 50400}[rt.Choice("offset", 14)]
		}
		return time.Date(y, time.Month(mo), d, h, mi, s, ns, time.FixedZone("X", off))
	}
	return time.Date(y, time.Month(mo), d, h, mi, s, ns, time.UTC)
}

func dig(s string, i int) int { return int(s[i]) - '0' }
func num(s string, i, n int) int {
	r := 0
	for k := 0; k < n; k++ {
		r = r*10 + dig(s, i+k)
	}
	return r
}
func digits(s string, pos ...int) bool {
	r := true
	for _, p := range pos {
		r = rt.And(r, s[p] >= '0', s[p] <= '9')
	}
	return r
}

// the printed form is the UTC instant, to the millisecond
func check(t time.Time, s string) {
	rt.Assert(len(s) == 24, "a timestamp prints as 24 characters")
	if len(s) != 24 {
		return
	}
	rt.Assert(rt.And(s[4] == '-', s[7] == '-', s[10] == 'T', s[13] == ':', s[16] == ':', s[19] == '.', s[23] == 'Z'), "a timestamp prints in the RFC 3339 UTC layout")
	rt.Assert(digits(s, 0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18, 20, 21, 22), "timestamp fields are digits")
	u := t.UTC()
	rt.Assert(num(s, 0, 4) == u.Year(), "printed year")
	rt.Assert(num(s, 5, 2) == int(u.Month()), "printed month")
	rt.Assert(num(s, 8, 2) == u.Day(), "printed day")
	rt.Assert(num(s, 11, 2) == u.Hour(), "printed hour")
	rt.Assert(num(s, 14, 2) == u.Minute(), "printed minute")
	rt.Assert(num(s, 17, 2) == u.Second(), "printed second")
	rt.Assert(num(s, 20, 3) == u.Nanosecond()/1000000, "printed millisecond")
}

func V_PrintUTC() {
	t := instant(false)
	ts := sadl.Timestamp{Time: t}
	if ts.IsZero() {
		return
	}
	rt.Reach("utc")
	check(t, ts.String())
}

func V_PrintZoned() {
	t := instant(true)
	ts := sadl.Timestamp{Time: t}
	if ts.IsZero() {
		return
	}
	rt.Reach("zoned")
	check(t, ts.String())
}

// the text of every instant reads back as that instant, to the millisecond
func V_RoundTrip() {
	t := instant(false)
	ts := sadl.Timestamp{Time: t}
	if ts.IsZero() {
		return
	}
	s := ts.String()
	p, err := sadl.ParseTimestamp(s)
	rt.Assert(err == nil, "a printed timestamp parses")
	if err == nil {
		rt.Reach("parsed")
		want := t.Truncate(time.Millisecond)
		rt.Assert(p.Equal(want), "a printed timestamp parses to the same instant")
		rt.Assert(rt.Or(p.IsZero(), p.String() == s), "parsing and printing gives the text back")
	}
}

func V_RoundTripJSON() {
	y := rt.Dec("year", 4)
	rt.Assume(y >= 1)
	t := time.Date(y, time.Month(rt.Int("month", 1, 12)), rt.Int("day", 1, 28), rt.Int("hour", 0, 23), rt.Int("min", 0, 59), rt.Int("sec", 1, 59), rt.Dec("milli", 3)*1000000, time.UTC)
	ts := sadl.Timestamp{Time: t}
	b, err := json.Marshal(ts)
	rt.Assert(err == nil, "a timestamp encodes as JSON")
	if err != nil {
		return
	}
	rt.Reach("encoded")
	rt.Assert(string(b) == "\""+ts.String()+"\"", "a timestamp encodes as its text")
	var u sadl.Timestamp
	err = json.Unmarshal(b, &u)
	rt.Assert(err == nil, "an encoded timestamp decodes")
	rt.Assert(u.Equal(t), "an encoded timestamp decodes to the same instant")
}

func field(s string, i, n, lo, hi int) bool {
	v := num(s, i, n)
	return rt.And(v >= lo, v <= hi)
}

func d2(name string) string { return fmt.Sprintf("%02d", rt.Dec(name, 2)) }

// texts in the RFC 3339 layout: accepted exactly when the fields are in range and the zone is UTC
func V_Parse() {
	y := fmt.Sprintf("%04d", rt.Dec("yyyy", 4))
	base := y + "-" + d2("mm") + "-" + d2("dd") + "T" + d2("hh") + ":" + d2("mi") + ":" + d2("ss")
	frac := ""
	nf := rt.Choice("fraction digits", 5)
	if nf > 0 {
		f := []string{"%01d", "%02d", "%03d", "%04d"}[nf-1]
		frac = "." + fmt.Sprintf(f, rt.Dec("fff", nf))
	}
	suffix := ""
	utc := true
	switch rt.Choice("suffix", 5) {
	case 0:
		suffix = "Z"
	case 1:
		o := rt.StrN("sign", 1, 1, "+-") + d2("oh") + ":" + d2("om")
		utc = o[1:] == "00:00"
		suffix = o
	case 2:
		o := rt.StrN("sign", 1, 1, "+-") + rt.StrN("ohm", 4, 4, "0123456789")
		utc = o[1:] == "0000"
		suffix = o
	case 3:
		utc = false
	case 4:
		suffix = rt.StrN("c", 1, 1, "")
		utc = suffix == "Z"
	}
	s := base + frac + suffix
	p, err := sadl.ParseTimestamp(s)
	month, day, year := num(s, 5, 2), num(s, 8, 2), num(s, 0, 4)
	leap := rt.And(year%4 == 0, rt.Or(year%100 != 0, year%400 == 0))
	dayok := rt.And(day >= 1, day <= 31,
		rt.Or(day <= 30, rt.Not(rt.Or(month == 4, month == 6, month == 9, month == 11))),
		rt.Or(month != 2, day <= 28, rt.And(day == 29, leap)))
	ok := rt.And(utc, field(s, 5, 2, 1, 12), dayok, field(s, 11, 2, 0, 23), field(s, 14, 2, 0, 59), field(s, 17, 2, 0, 59))
	rt.Assert(rt.Iff(err == nil, ok), "a text is accepted exactly when its fields are in range and its zone is UTC")
	if err == nil {
		rt.Reach("accepted")
		rt.Assert(rt.And(p.Year() == year, int(p.Month()) == month, p.Day() == day), "parsed date")
		rt.Assert(rt.And(p.Hour() == num(s, 11, 2), p.Minute() == num(s, 14, 2), p.Second() == num(s, 17, 2)), "parsed time of day")
		ms := 0
		for i := 0; i < 3; i++ {
			ms *= 10
			if i < nf {
				ms += dig(s, 20+i)
			}
		}
		rt.Assert(p.Nanosecond()/1000000 == ms, "parsed milliseconds")
		rt.Assert(p.UTC().Hour() == p.Hour(), "parsed in UTC")
	} else {
		rt.Reach("rejected")
	}
}

// short texts over the characters of the layout are never accepted, and nothing crashes
func V_Garbage() {
	s := rt.StrN("s", 0, 7, "0-+:TZ. ")
	_, err := sadl.ParseTimestamp(s)
	rt.Assert(err != nil, "a text without a full date and time is rejected")
}

// one byte of a good text replaced by anything
func V_OneByte() {
	good := "2019-02-03T22:48:19.043Z"
	i := rt.Choice("pos", len(good))
	c := rt.StrN("c", 1, 1, "")
	s := good[:i] + c + good[i+1:]
	p, err := sadl.ParseTimestamp(s)
	if err == nil {
		sep := rt.Or(i == 4, i == 7, i == 10, i == 13, i == 16, i == 23)
		rt.Assert(rt.Or(rt.Not(sep), c == good[i:i+1]), "separators are required")
		rt.Assert(rt.Or(sep, rt.And(c >= "0", c <= "9"), rt.And(i == 19, rt.Or(c == ".", c == ","))), "fields are digits")
		rt.Assert(rt.Or(i == 19, p.String() == s), "an accepted text prints back")
	}
}

func V_Validate() {
	m, err := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{{Name: "T", TypeSpec: sadl.TypeSpec{Type: "Timestamp"}}}})
	rt.Assert(err == nil, "model")
	s := "2019-" + d2("mm") + "-0" + rt.StrN("d", 1, 1, "0123456789") + "T10:20:30.123" + rt.StrN("z", 1, 1, "")
	_, e := sadl.ParseTimestamp(s)
	e1 := m.Validate("ctx", "T", s)
	e2 := m.Validate("ctx", "T", &s)
	rt.Assert((e == nil) == (e1 == nil), "a string validates as a timestamp exactly when it parses")
	rt.Assert((e == nil) == (e2 == nil), "a string pointer validates as a timestamp exactly when it parses")
}

// V_Decorated: a text is a timestamp as a text, in JSON and as a value under validation, or in none of these
func V_Decorated() {
	around := func(n string) (text, js string) {
		k := rt.Choice(n, 5)
		if k == 4 {
			c := rt.StrN(n+" byte", 1, 1, "")
			rt.Assume(rt.And(c >= " ", c <= "~", c != "\"", c != "\\"))
			return c, c
		}
		return []string{"", "\n", "\t", "\u00a0"}[k], []string{"", "\\n", "\\t", "\\u00a0"}[k]
	}
	b, jb := around("before")
	a, ja := around("after")
	good := []string{"2019-02-03T22:48:19.043Z", "2019-02-03T22:48:19Z", "2019-02-03T22:48:19.5+00:00", "2019-02-03T22:48:19.5-0000"}[rt.Choice("text", 4)]
	s := b + good + a
	p, err := sadl.ParseTimestamp(s)
	digit := a >= "0" && a <= "9"
	rt.Assert(rt.Or(err != nil, rt.And(b == "", rt.Or(a == "", digit))), "a text around a timestamp is rejected")
	if b == "" && a == "" {
		rt.Assert(err == nil, "a timestamp is accepted")
	}
	var t sadl.Timestamp
	e := json.Unmarshal([]byte("\""+jb+good+ja+"\""), &t)
	rt.Assert(rt.Iff(e == nil, err == nil), "a JSON string is accepted exactly when its text is")
	if err == nil {
		rt.Assert(t.Equal(p.Time), "a JSON string is the timestamp its text is")
	} else {
		rt.Assert(t.IsZero(), "a rejected document leaves the target as it was")
	}
	m, _ := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{{Name: "T", TypeSpec: sadl.TypeSpec{Type: "Timestamp"}}}})
	rt.Assert(rt.Iff(m.Validate("ctx", "T", s) == nil, err == nil), "a string validates as a timestamp exactly when it parses")
	rt.Reach("decorated")
}
