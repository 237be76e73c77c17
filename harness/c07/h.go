package c07

import (
	"time"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound structs of up to 3 fields, arrays and maps of up to 3 entries, enums of 3 symbols, unions of 3 variants, nesting up to 4 levels (single chains of 36, thorough 108); presence, kind and (symbolic) content of every leaf vary; required flags and size limits symbolic
//verif:bound map keys and enum symbols are symbolic strings of up to 2 bytes; unit values up to 5 symbolic bytes
//verif:assume the verdict is compared with a reference validator written independently in the harness

const letters = "aAbX"

// leaf is a value of one of several kinds, some with symbolic content
func leaf(name string) interface{} {
	switch rt.Choice(name, 6) {
	case 0:
		return rt.StrN(name+" s", 1, 1, "ab5-")
	case 1:
		return lib.Dec(rt.StrN(name+" d", 1, 3, "0123456789"))
	case 2:
		return true
	case 3:
		return nil
	case 4:
		s := "ab"
		return &s
	}
	return []interface{}{}
}

func small(name string) interface{} {
	if rt.Choice(name, 2) == 0 {
		return lib.Dec(rt.StrN(name+" d", 3, 3, "0123456789"))
	}
	return "x"
}

func check(m *sadl.Model, types []*sadl.TypeDef, name string, v interface{}, label string) {
	err := m.Validate("", name, v)
	var ts *sadl.TypeSpec
	for _, td := range types {
		if td.Name == name {
			ts = &td.TypeSpec
		}
	}
	rt.Observe(label, err == nil)
	rt.Assert(rt.Iff(err == nil, lib.Valid(types, ts, v)), label)
}

func V_Struct() {
	types := []*sadl.TypeDef{
		lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
			lib.Field("a", rt.Choice("a required", 2) == 1, sadl.TypeSpec{Type: "Int8"}),
			lib.Field("b", rt.Choice("b required", 2) == 1, sadl.TypeSpec{Type: "String", MaxSize: lib.I64(1)}),
			lib.Field("c", rt.Choice("c required", 2) == 1, sadl.TypeSpec{Type: "Bool"}),
		}}),
	}
	m := lib.Model(types...)
	v := map[string]interface{}{}
	if rt.Choice("has a", 2) == 1 {
		v["a"] = leaf("a")
	}
	if rt.Choice("has b", 2) == 1 {
		v["b"] = leaf("b")
	}
	if rt.Choice("has c", 2) == 1 {
		v["c"] = true
	}
	check(m, types, "S", v, "a struct is valid exactly when required fields are there, every field is declared and valid")
}

// a key that is not a field, whatever it is called
func V_StructKey() {
	types := []*sadl.TypeDef{
		lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
			lib.Field("a", false, sadl.TypeSpec{Type: "Any"}),
			lib.Field("ab", false, sadl.TypeSpec{Type: "Any"}),
		}}),
	}
	m := lib.Model(types...)
	v := map[string]interface{}{rt.StrN("k", 0, 3, "abA "): true}
	if rt.Choice("two", 2) == 1 {
		v["a"] = false
	}
	check(m, types, "S", v, "a struct value with an undeclared field is not valid")
}

func V_Array() {
	ts := sadl.TypeSpec{Type: "Array", Items: "Int8"}
	if rt.Choice("min", 2) == 1 {
		n := rt.Int64("lo", 0, 1<<40)
		ts.MinSize = &n
	}
	if rt.Choice("max", 2) == 1 {
		n := rt.Int64("hi", 0, 1<<40)
		ts.MaxSize = &n
	}
	types := []*sadl.TypeDef{lib.Type("A", ts)}
	m := lib.Model(types...)
	v := []interface{}{}
	for i, n := 0, rt.Choice("len", 4); i < n; i++ {
		v = append(v, small("item"))
	}
	check(m, types, "A", v, "an array is valid exactly when its size is within limits and every item is valid")
}

func V_ArrayItems() {
	item := []sadl.TypeSpec{
		{Type: "String", Values: []string{"a", "b"}}, {Type: "Bool"}, {Type: "Array", Items: "String"}, {Type: "Any"},
		{Type: "Struct"}, {Type: "Enum", Elements: lib.Elements("a", "ab")}, {Type: "Float64", Max: lib.Dec("50")}}[rt.Choice("item type", 7)]
	types := []*sadl.TypeDef{lib.Type("I", item), lib.Type("A", sadl.TypeSpec{Type: "Array", Items: "I"})}
	m := lib.Model(types...)
	v := []interface{}{leaf("x"), leaf("y")}
	check(m, types, "A", v, "every item of an array is validated against the item type")
}

func V_Map() {
	ts := sadl.TypeSpec{Type: "Map", Keys: "K", Items: "Int8"}
	if rt.Choice("min", 2) == 1 {
		n := rt.Int64("lo", 0, 1<<40)
		ts.MinSize = &n
	}
	if rt.Choice("max", 2) == 1 {
		n := rt.Int64("hi", 0, 1<<40)
		ts.MaxSize = &n
	}
	keys := []sadl.TypeSpec{{Type: "String"}, {Type: "String", MaxSize: lib.I64(1)}, {Type: "Enum", Elements: lib.Elements("a", "bb")}}
	if rt.Choice("items", 3) == 1 {
		ts.Items = "Any"
	}
	types := []*sadl.TypeDef{lib.Type("K", keys[rt.Choice("keys", 3)]), lib.Type("A", ts)}
	m := lib.Model(types...)
	v := map[string]interface{}{}
	for i, n := 0, rt.Choice("len", 3); i < n; i++ {
		v[rt.StrN("k", 1, 2, "ab")] = small("item")
	}
	rt.MapOrder(true)
	check(m, types, "A", v, "a map is valid exactly when its size is within limits and every key and item is valid")
}

func V_Enum() {
	e := []string{rt.StrN("e", 1, 2, letters), rt.StrN("e", 1, 2, letters), "zz"}
	types := []*sadl.TypeDef{lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements(e...)})}
	m := lib.Model(types...)
	s := rt.StrN("s", 0, 2, letters+"z")
	in := rt.Or(s == e[0], s == e[1], s == e[2])
	rt.Assert(rt.Iff(m.Validate("", "E", s) == nil, in), "a symbol is valid exactly when the enum has it")
	rt.Assert(rt.Iff(m.Validate("", "E", &s) == nil, in), "a symbol given by pointer is valid exactly when the enum has it")
	rt.Assert(m.Validate("", "E", lib.Dec("1")) != nil, "a number is not a symbol")
}

func V_Union() {
	vd := func(n, t string) *sadl.UnionVariantDef {
		return &sadl.UnionVariantDef{Name: n, TypeSpec: sadl.TypeSpec{Type: t}}
	}
	types := []*sadl.TypeDef{
		lib.Type("T", sadl.TypeSpec{Type: "String", MaxSize: lib.I64(1)}),
		lib.Type("U", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{vd("a", "T"), vd("b", "Int8"), vd("T", "Bool")}}),
	}
	m := lib.Model(types...)
	v := map[string]interface{}{}
	for i, n := 0, rt.Choice("n", 3); i < n; i++ {
		v[rt.StrN("k", 1, 1, "abTx")] = leaf("v")
	}
	check(m, types, "U", v, "a union value is valid exactly when every key is a variant with a valid value")
	rt.Assert(m.Validate("", "U", leaf("w")) != nil, "a value that is not an object is not a union value")
}

func V_UnitValue() {
	types := []*sadl.TypeDef{
		lib.Type("C", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("X", "Y")}),
		lib.Type("D", sadl.TypeSpec{Type: "Decimal", Max: lib.Dec("50")}),
		lib.Type("U", sadl.TypeSpec{Type: "UnitValue", Value: []string{"D", "Int8", "Decimal"}[rt.Choice("value", 3)], Unit: []string{"C", "String"}[rt.Choice("unit", 2)]}),
	}
	m := lib.Model(types...)
	s := rt.StrN("s", 0, 5, "0579. XY")
	var v interface{} = s
	if rt.Choice("ptr", 2) == 1 {
		v = &s
	}
	err := m.Validate("", "U", v)
	want := false
	sp := 0
	for sp < len(s) && rt.Fork(s[sp] != ' ') {
		sp++
	}
	if sp < len(s) {
		d, e := sadl.ParseDecimal(s[:sp])
		if e == nil {
			vt := map[string]*sadl.TypeSpec{"D": &types[1].TypeSpec, "Int8": {Type: "Int8"}, "Decimal": {Type: "Decimal"}}[types[2].Value]
			unit := s[sp+1:]
			want = rt.And(lib.Valid(types, vt, d), rt.Or(types[2].Unit == "String", unit == "X", unit == "Y"))
		}
	}
	rt.Assert(rt.Iff(err == nil, want), "a unit value is valid exactly when its amount and its unit are")
}

func V_Nested() {
	types := []*sadl.TypeDef{
		lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("a", "b")}),
		lib.Type("In", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
			lib.Field("n", true, sadl.TypeSpec{Type: "Int8", Min: lib.Dec("3")}),
			lib.Field("e", false, sadl.TypeSpec{Type: "E"}),
		}}),
		lib.Type("List", sadl.TypeSpec{Type: "Array", Items: "In", MaxSize: lib.I64(2)}),
		lib.Type("Alias", sadl.TypeSpec{Type: "List"}),
		lib.Type("M", sadl.TypeSpec{Type: "Map", Keys: "E", Items: "Alias"}),
		lib.Type("Out", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
			lib.Field("m", true, sadl.TypeSpec{Type: "M"}),
			lib.Field("in", false, sadl.TypeSpec{Type: "In"}),
		}}),
	}
	m := lib.Model(types...)
	in := func(i string) interface{} {
		v := map[string]interface{}{}
		switch rt.Choice("n"+i, 3) {
		case 0:
			v["n"] = lib.Dec(rt.StrN("d", 1, 1, "0123456789"))
		case 1:
			v["n"] = "3"
		}
		if rt.Choice("has e"+i, 2) == 1 {
			v["e"] = rt.StrN("e", 1, 1, "abc")
		}
		return v
	}
	list := []interface{}{}
	for i, n := 0, rt.Choice("len", 3); i < n; i++ {
		if i == 0 {
			list = append(list, in("0"))
		} else {
			list = append(list, map[string]interface{}{"n": lib.Dec("7")})
		}
	}
	v := map[string]interface{}{"m": map[string]interface{}{rt.StrN("key", 1, 1, "abc"): list}}
	if rt.Choice("has in", 2) == 1 {
		v["in"] = in("1")
	}
	check(m, types, "Out", v, "a nested value is valid exactly when every part of it is")
}

// every type against every kind of value: a verdict, never a crash
func V_Kinds() {
	uuid := "1ce437b0-1dd2-11b2-81ef-003ee1be85f9"
	types := []*sadl.TypeDef{
		lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("a", "b")}),
		lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("a", true, sadl.TypeSpec{Type: "String"})}}),
		lib.Type("A", sadl.TypeSpec{Type: "Array", Items: "String"}),
		lib.Type("AA", sadl.TypeSpec{Type: "Array", Items: "Any"}),
		lib.Type("M", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "String"}),
		lib.Type("MA", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "Any"}),
		lib.Type("U", sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"}),
		lib.Type("N", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "a", TypeSpec: sadl.TypeSpec{Type: "String"}}}}),
		lib.Type("Bad", sadl.TypeSpec{Type: "Array", Items: "Nowhere"}),
		lib.Type("Bad2", sadl.TypeSpec{Type: "Nowhere"}),
		lib.Type("Bool1", sadl.TypeSpec{Type: "Bool"}), lib.Type("I8", sadl.TypeSpec{Type: "Int8"}), lib.Type("I64", sadl.TypeSpec{Type: "Int64"}),
		lib.Type("F", sadl.TypeSpec{Type: "Float64"}), lib.Type("D", sadl.TypeSpec{Type: "Decimal"}), lib.Type("St", sadl.TypeSpec{Type: "String"}),
		lib.Type("T", sadl.TypeSpec{Type: "Timestamp"}), lib.Type("Uu", sadl.TypeSpec{Type: "UUID"}), lib.Type("An", sadl.TypeSpec{Type: "Any"}),
	}
	m := lib.Model(types...)
	td := types[rt.Choice("type", len(types))]
	stamp := "2019-02-03T22:48:19.043Z"
	text := "5 USD"
	b := true
	vals := []interface{}{nil, "a", &text, stamp, &stamp, uuid, true, &b, lib.Dec("7"), lib.Dec("-1.5"), []interface{}{}, []interface{}{"a"}, []interface{}{nil},
		map[string]interface{}{}, map[string]interface{}{"a": "b"}, map[string]interface{}{"a": nil}, map[string]interface{}{"b": "c"},
		sadl.Timestamp{Time: time.Unix(0, 0)}, &sadl.Timestamp{}, ""}
	v := vals[rt.Choice("value", len(vals))]
	check(m, types, td.Name, v, "a value is valid exactly when it is of the right kind")
}

// a type name that is not defined
func V_Undefined() {
	m := lib.Model(lib.Type("A", sadl.TypeSpec{Type: "Bool"}))
	name := rt.StrN("name", 0, 2, "AB")
	err := m.Validate("", name, true)
	rt.Assert(rt.Iff(err == nil, name == "A"), "a value of an undefined type is an error")
}

// V_Long: long arrays and maps, wide structs and unions and large enums, in which anything may be the one that is not valid
func V_Long() {
	n := []int{7, 12, 33}[rt.Choice("size", 3)]
	if rt.Thorough() {
		n = 70
	}
	bad := rt.Int("bad", -1, n-1)
	d := rt.StrN("d", 2, 3, "0123456789")
	item := func(i int) interface{} {
		if rt.Fork(i == bad) {
			return lib.Dec(d)
		}
		return lib.Dec("5")
	}
	name := func(i int) string { return string([]byte{'k', byte('a' + i/10), byte('0' + i%10)}) }
	var fields []*sadl.StructFieldDef
	var variants []*sadl.UnionVariantDef
	var symbols []string
	for i := 0; i < n; i++ {
		fields = append(fields, lib.Field(name(i), true, sadl.TypeSpec{Type: "Int8"}))
		variants = append(variants, &sadl.UnionVariantDef{Name: name(i), TypeSpec: sadl.TypeSpec{Type: "Int8"}})
		symbols = append(symbols, name(i))
	}
	types := []*sadl.TypeDef{
		lib.Type("A", sadl.TypeSpec{Type: "Array", Items: "Int8"}),
		lib.Type("M", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "Int8"}),
		lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: fields}),
		lib.Type("U", sadl.TypeSpec{Type: "Union", Variants: variants}),
		lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements(symbols...)}),
		lib.Type("V", sadl.TypeSpec{Type: "String", Values: symbols}),
	}
	m := lib.Model(types...)
	var l []interface{}
	o := map[string]interface{}{}
	k := rt.Choice("kind", 6)
	switch k {
	case 0:
		for i := 0; i < n; i++ {
			l = append(l, item(i))
		}
		check(m, types, "A", l, "every item of a long array is validated")
	case 4, 5:
		s := "k" + string([]byte{byte(rt.Int("tens", 'a', 'i')), byte(rt.Int("ones", '0', '9'))})
		t := []string{"E", "V"}[k-4]
		in := false
		for _, x := range symbols {
			in = rt.Or(in, x == s)
		}
		rt.Assert(rt.Iff(m.Validate("", t, s) == nil, in), "a symbol is valid exactly when a large enum or list of values has it")
	default:
		for i := 0; i < n; i++ {
			o[name(i)] = item(i)
		}
		if k == 2 && rt.Choice("missing", 2) == 1 {
			delete(o, name(n-1))
		}
		check(m, types, []string{"", "M", "S", "U"}[k], o, "every entry of a large map, struct or union is validated")
	}
}

// V_Deep: values nested as deep as they like, in recursive types and in inline ones, with the part that may be invalid at the bottom
func V_Deep() {
	n := []int{6, 13, 36}[rt.Choice("depth", 3)]
	if rt.Thorough() {
		n *= 3
	}
	in := sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("i", true, sadl.TypeSpec{Type: "Int8"})}}
	for i := 0; i < n; i++ {
		in = sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("n", true, in)}}
	}
	types := []*sadl.TypeDef{
		lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
			lib.Field("i", false, sadl.TypeSpec{Type: "Int8"}),
			lib.Field("n", false, sadl.TypeSpec{Type: "R"}),
			lib.Field("l", false, sadl.TypeSpec{Type: "L"}),
			lib.Field("m", false, sadl.TypeSpec{Type: "M"}),
			lib.Field("u", false, sadl.TypeSpec{Type: "U"}),
		}}),
		lib.Type("R", sadl.TypeSpec{Type: "S"}),
		lib.Type("L", sadl.TypeSpec{Type: "Array", Items: "S"}),
		lib.Type("M", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "S"}),
		lib.Type("U", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "s", TypeSpec: sadl.TypeSpec{Type: "S"}}}}),
		lib.Type("I", in),
	}
	m := lib.Model(types...)
	var v interface{} = map[string]interface{}{"i": lib.Dec(rt.StrN("d", 2, 3, "0123456789"))}
	if rt.Choice("bottom", 2) == 1 {
		v = map[string]interface{}{rt.StrN("field", 1, 1, "ijn"): lib.Dec("5")}
	}
	how := rt.Choice("nesting", 6)
	for i := 0; i < n; i++ {
		k := how
		if how == 4 {
			k = i % 4
		}
		switch k {
		case 1:
			v = map[string]interface{}{"l": []interface{}{map[string]interface{}{}, v}}
		case 2:
			v = map[string]interface{}{"m": map[string]interface{}{"x": v}}
		case 3:
			v = map[string]interface{}{"u": map[string]interface{}{"s": v}}
		default:
			v = map[string]interface{}{"n": v}
		}
	}
	t := "S"
	if how == 5 {
		t = "I"
	}
	check(m, types, t, v, "a value is valid exactly when its deepest part is")
	rt.Reach("deep")
}
