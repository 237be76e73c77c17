package c01

import (
	"encoding/json"

	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound UUID texts of 0..40 bytes with every byte value symbolic (parsing and validation)
//verif:bound well formed UUIDs with up to 2 further bytes at one of 6 places, validated directly, in arrays, maps (key and item) and fields
//verif:bound JSON documents: string literals of 34..38 symbolic bytes (no escapes needed), and arbitrary documents of 0..6 bytes

func shape(s string) bool {
	if len(s) != 36 {
		return false
	}
	ok := rt.And(s[8] == '-', s[13] == '-', s[18] == '-', s[23] == '-')
	for i := 0; i < 36; i++ {
		if i != 8 && i != 13 && i != 18 && i != 23 {
			ok = rt.And(ok, rt.In(s[i], "0123456789abcdefABCDEF"))
		}
	}
	return ok
}

func V_ParseUUID() {
	s := rt.StrN("s", 0, 40, "")
	u := sadl.ParseUUID(s)
	rt.Observe("u", string(u))
	ok := shape(s)
	if u != "" {
		rt.Reach("accepted")
		rt.Assert(string(u) == s, "an accepted UUID is the given text unchanged")
	}
	rt.Assert(rt.Iff(u != "", ok), "UUID accepted exactly when it has the UUID shape")
}

// plain: bytes that stand for themselves inside a JSON string
const plain = "-0123456789abcdefABCDEFGxyz .,:_/"

func V_JSON() {
	n := 34 + rt.Choice("len", 5)
	s := rt.StrN("s", n, n, plain)
	var u sadl.UUID = "before"
	err := json.Unmarshal([]byte("\""+s+"\""), &u)
	ok := shape(s)
	rt.Observe("json", err == nil, string(u))
	rt.Assert(rt.Iff(err == nil, ok), "JSON string accepted as UUID exactly when it has the UUID shape")
	if err == nil {
		rt.Reach("json accepted")
		rt.Assert(string(u) == s, "a decoded UUID is the given text unchanged")
		b, err := json.Marshal(u)
		rt.Assert(err == nil, "a UUID encodes")
		rt.Assert(string(b) == "\""+s+"\"", "encoding a UUID gives back its text")
	} else {
		rt.Assert(u == "before", "a rejected document leaves the UUID untouched")
	}
}

// any short document, with arbitrary bytes: never accepted, never a crash
func V_JSONGarbage() {
	s := rt.StrN("doc", 0, 4, "\"\\un0-1[]{}: ")
	var u sadl.UUID
	err := u.UnmarshalJSON([]byte(s))
	rt.Assert(err != nil, "a short document is never a UUID")
}

func V_Validate() {
	m, err := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{{Name: "U", TypeSpec: sadl.TypeSpec{Type: "UUID"}}}})
	rt.Assert(err == nil, "model")
	s := rt.StrN("s", 33, 39, "")
	ok := shape(s)
	e1 := m.Validate("ctx", "U", s)
	rt.Assert(rt.Iff(e1 == nil, ok), "a string value validates as UUID exactly when it has the UUID shape")
	e2 := m.Validate("ctx", "U", &s)
	rt.Assert(rt.Iff(e2 == nil, ok), "a string pointer validates as UUID exactly when it has the UUID shape")
	rt.Assert(m.Validate("ctx", "UUID", sadl.UUID(s)) == nil || !ok, "a UUID value validates")
}

// a well formed UUID with something around it or inside it is not a UUID, however it arrives
func V_Padded() {
	u := "1ce437b0-1dd2-11b2-81ef-003ee1be85f" + rt.StrN("last", 1, 1, "0123456789abcdefABCDEF")
	x := rt.StrN("x", 0, 2, " \t\n\r-{}\"0aZ:.\x00\xc2\xa0")
	at := []int{0, 8, 9, 18, 35, 36}[rt.Choice("at", 6)]
	s := u[:at] + x + u[at:]
	ok := len(x) == 0
	rt.Assert((sadl.ParseUUID(s) != "") == ok, "a UUID with anything around it is not a UUID")
	m, err := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{
		{Name: "U", TypeSpec: sadl.TypeSpec{Type: "UUID"}},
		{Name: "L", TypeSpec: sadl.TypeSpec{Type: "Array", Items: "U"}},
		{Name: "M", TypeSpec: sadl.TypeSpec{Type: "Map", Keys: "UUID", Items: "U"}},
		{Name: "S", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{{Name: "f", TypeSpec: sadl.TypeSpec{Type: "UUID"}}}}},
	}})
	rt.Assert(err == nil, "model")
	var v interface{} = s
	if rt.Choice("pointer", 2) == 1 {
		v = &s
	}
	name := "U"
	switch rt.Choice("route", 5) {
	case 1:
		name, v = "L", []interface{}{u, v}
	case 2:
		name, v = "M", map[string]interface{}{s: u}
	case 3:
		name, v = "M", map[string]interface{}{u: v}
	case 4:
		name, v = "S", map[string]interface{}{"f": v}
	}
	rt.Assert((m.Validate("ctx", name, v) == nil) == ok, "a UUID with anything around it does not validate, however it is reached")
}

// V_Escapes: a UUID in JSON is a JSON string, however it is written
func V_Escapes() {
	u := "1ce437b0-1dd2-11b2-81ef-003ee1be85f" + rt.StrN("last", 1, 1, "09afAFgG-")
	ok := shape(u)
	at := []int{0, 8, 17, 35}[rt.Choice("at", 4)]
	c := u[at]
	doc := ""
	form := rt.Choice("form", 7)
	switch form {
	case 0:
		doc = "\"" + u[:at] + "\\u00" + string([]byte{"0123456789abcdef"[c/16], "0123456789abcdef"[c%16]}) + u[at+1:] + "\""
	case 1:
		doc = "\"" + u[:at] + "\\u00" + string([]byte{"0123456789ABCDEF"[c/16], "0123456789ABCDEF"[c%16]}) + u[at+1:] + "\""
	case 2:
		doc = u
	case 3:
		doc = "\"" + u
	case 4:
		doc = u + "\""
	case 5:
		doc = "'" + u + "'"
	case 6:
		doc = "\"\"" + u + "\"\""
	}
	v := sadl.UUID("before")
	err := v.UnmarshalJSON([]byte(doc))
	rt.Assert(rt.Iff(err == nil, rt.And(ok, form < 2)), "a UUID in JSON is a JSON string that says a UUID")
	if err == nil {
		rt.Assert(string(v) == u, "a decoded UUID is the given text unchanged")
	} else {
		rt.Assert(v == "before", "a rejected document leaves the UUID untouched")
	}
}
