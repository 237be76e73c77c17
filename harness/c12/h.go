package c12

import (
	"encoding/json"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound configurations nested up to 3 deep with keys of 1 symbolic letter at every level; lookup paths of 0..4 keys of 0..1 symbolic letters
//verif:bound leaves of every kind: text, number, flag, list, object, null; every default value of the typed lookups symbolic

func key(n string) string { return rt.StrN(n, 1, 1, "aB.") }

func leaf(n string) interface{} {
	switch rt.Choice(n, 7) {
	case 0:
		return rt.StrN(n+" s", 0, 2, "xy")
	case 1:
		return []float64{7, -2.75, 4294967297, 9007199254740991, 0}[rt.Choice(n+" n", 5)]
	case 2:
		return rt.Choice(n+" b", 2) == 1
	case 3:
		return []interface{}{"p", "q"}
	case 4:
		return map[string]interface{}{}
	case 5:
		return lib.Dec("7")
	}
	return nil
}

// find is the reference: follow the keys, and nothing but the keys
func find(v interface{}, keys []string) interface{} {
	if len(keys) == 0 {
		return nil
	}
	for _, k := range keys {
		m, ok := v.(map[string]interface{})
		if !ok {
			return nil
		}
		var next interface{}
		for kk, x := range m {
			if kk == k {
				next = x
			}
		}
		v = next
	}
	return v
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case string:
		y, ok := b.(string)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case []interface{}:
		y, ok := b.([]interface{})
		return ok && len(x) == len(y)
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		return ok && len(x) == len(y)
	case *sadl.Decimal:
		y, ok := b.(*sadl.Decimal)
		return ok && x == y
	}
	return false
}

func V_Path() {
	inner := map[string]interface{}{"a": "A3"}
	mid := map[string]interface{}{"a": "A2", key("m2"): inner}
	root := map[string]interface{}{"b": "B1", key("r2"): mid}
	switch rt.Choice("leaf at", 4) {
	case 0:
		inner[key("i1")] = leaf("l")
	case 1:
		mid[key("m1")] = leaf("l")
	case 2:
		root[key("r1")] = leaf("l")
	case 3:
		root = nil
	}
	var keys []string
	n := rt.Choice("keys", 5)
	for i := 0; i < n; i++ {
		keys = append(keys, rt.StrN("k", 0, 1, "abc"))
	}
	want := find(root, keys)
	d := sadl.AsData(root)
	got := d.Get(keys...)
	rt.Assert(same(want, got), "a lookup follows its keys and finds exactly what is there")
	rt.Assert(d.Has(keys...) == (want != nil), "a value is present exactly when the lookup finds one")
	if want != nil {
		rt.Reach("found")
	}
	// typed lookups: the value, or the zero value when it is absent or of another kind
	s, _ := want.(string)
	rt.Assert(d.GetString(keys...) == s, "a text lookup gives the text or nothing")
	f, _ := want.(float64)
	rt.Assert(d.GetFloat64(keys...) == f && d.GetInt(keys...) == int(f) && d.GetInt64(keys...) == int64(f), "a number lookup gives the number or zero")
	a, _ := want.([]interface{})
	rt.Assert(len(d.GetArray(keys...)) == len(a) && len(d.GetStringArray(keys...)) == len(a), "a list lookup gives the list or nothing")
	m, _ := want.(map[string]interface{})
	rt.Assert(len(d.GetMap(keys...)) == len(m), "an object lookup gives the object or nothing")
	dd, _ := want.(*sadl.Decimal)
	rt.Assert(d.GetDecimal(keys...) == dd, "a decimal lookup gives the number or nothing")
	rt.Assert((d.GetData(keys...).IsNil()) == (want == nil), "nested data is empty exactly when nothing is found")
	b := want != nil
	switch x := want.(type) {
	case bool:
		b = x
	case string:
		b = x != "false"
	}
	rt.Assert(d.GetBool(keys...) == b, "a flag is set when it is there, unless it is false")
}

// options with defaults: the default exactly when the option is absent
func V_Defaults() {
	conf := sadl.NewData()
	k := key("k")
	q := key("q")
	v := leaf("v")
	if rt.Choice("put", 2) == 1 {
		conf.Put(k, v)
	} else {
		v = nil
		k = q
	}
	g := &sadl.Generator{Config: conf}
	if k != q {
		v = nil
	}
	ds := rt.StrN("ds", 0, 2, "de")
	di := rt.Int("di", -5, 5)
	db := rt.Choice("db", 2) == 1
	if v == nil {
		rt.Assert(g.GetConfigString(q, ds) == ds, "an absent option takes its text default")
		rt.Assert(g.GetConfigInt(q, di) == di, "an absent option takes its number default")
		rt.Assert(g.GetConfigBool(q, db) == db, "an absent option takes its flag default")
		rt.Reach("default")
		return
	}
	rt.Reach("given")
	s, _ := v.(string)
	rt.Assert(g.GetConfigString(q, ds) == s, "a given option is not replaced by its text default")
	f, _ := v.(float64)
	rt.Assert(g.GetConfigInt(q, di) == int(f), "a given option is not replaced by its number default")
	if b, ok := v.(bool); ok {
		rt.Assert(g.GetConfigBool(q, db) == b, "a given flag is not replaced by its default")
	}
	if s == "false" {
		rt.Assert(!g.GetConfigBool(q, db), "the text false switches a flag off")
	}
}

func V_FalseText() {
	s := []string{"false", "true", "", "False", "no"}[rt.Choice("s", 5)]
	conf := sadl.AsData(map[string]interface{}{"x": s})
	rt.Assert(conf.GetBool("x") == (s != "false"), "only the text false switches a flag off")
}

// JSON configuration: what is read is what was written
func V_Json() {
	s := rt.StrN("s", 0, 2, "ab \"\\/<\t")
	n := []int{0, 1, 9, 80, 123456789, -7, 4294967297, 9007199254740991}[rt.Choice("n", 8)]
	b, err := json.Marshal(map[string]interface{}{"o": map[string]interface{}{"s": s, "n": n, "t": true}})
	rt.Assume(err == nil)
	d, err := sadl.DataFromJsonString(string(b))
	rt.Assert(err == nil, "a JSON object is a configuration")
	if err != nil {
		return
	}
	rt.Assert(d.GetString("o", "s") == s, "a text option is read as written")
	rt.Assert(d.GetInt("o", "n") == n && d.GetInt64("o", "n") == int64(n) && d.GetFloat64("o", "n") == float64(n), "a number option is read as written")
	rt.Assert(d.GetBool("o", "t"), "a flag option is read as written")
	_, err = sadl.DataFromJsonString([]string{"", "[]", "{", "nope", "\"x\"", "7"}[rt.Choice("bad", 6)])
	rt.Assert(err != nil, "a document that is not an object is rejected")
}

// V_Lists: lists come back as they are
func V_Lists() {
	n := rt.Choice("n", 5)
	var l []interface{}
	var texts []string
	for i := 0; i < n; i++ {
		switch rt.Choice("item", 4) {
		case 0, 1:
			s := rt.StrN("s", 0, 1, "ab ,")
			l = append(l, s)
			texts = append(texts, s)
		case 2:
			l = append(l, true)
			texts = append(texts, "")
		case 3:
			l = append(l, nil)
			texts = append(texts, "")
		}
	}
	d := sadl.NewData()
	d.Put("x", map[string]interface{}{"l": l})
	got := d.GetStringArray("x", "l")
	rt.Assert(len(got) == n && len(d.GetArray("x", "l")) == n, "a list has all its items")
	if len(got) == n {
		for i := range got {
			rt.Assert(got[i] == texts[i], "each text of a list is in its place")
		}
	}
}
