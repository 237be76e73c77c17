package c10

import (
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound pairs of type definitions of any kind: strings (sizes absent or 0..3, pattern of 3, up to 2 allowed values of 1 symbolic letter, reference), numbers (limits absent or two symbolic digits), bytes, arrays and maps (sizes, items, keys), structs of up to 2 fields, enums and unions of up to 2 parts, unit values, recursive structs
//verif:bound values for the semantic check: strings of up to 3 symbolic bytes, numbers of 2 symbolic digits, arrays and maps of up to 2 entries, objects of up to 2 fields
//verif:assume symbols, allowed values and variant names of one type are distinct, except for V_Repeated (three parts, any of them equal)

func size(name string) *int64 {
	if rt.Choice(name+" given", 2) == 0 {
		return nil
	}
	n := rt.Int64(name, 0, 3)
	return &n
}

func limit(name string) *sadl.Decimal {
	if rt.Choice(name+" given", 2) == 0 {
		return nil
	}
	return lib.Dec(rt.StrN(name, 2, 2, "0123456789"))
}

func eqS(a, b *int64) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func eqD(a, b *sadl.Decimal) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.AsBigFloat().Cmp(b.AsBigFloat()) == 0
}

var pats = []string{"", "^a", "b"}

func words(name string) []string {
	n := rt.Choice(name+" n", 3)
	var r []string
	for i := 0; i < n; i++ {
		w := rt.StrN(name, 1, 1, "abc")
		for _, x := range r {
			rt.Assume(x != w)
		}
		r = append(r, w)
	}
	return r
}

// the same words, in any order
func eqW(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for _, x := range a {
		in := false
		for _, y := range b {
			in = rt.Or(in, x == y)
		}
		r = rt.And(r, in)
	}
	return r
}

func syms(ts *sadl.TypeSpec) (r []string) {
	for _, e := range ts.Elements {
		r = append(r, e.Symbol)
	}
	return
}

func check(m *sadl.Model, a, b *sadl.TypeSpec, want bool) {
	got := m.EquivalentTypes(a, b)
	rt.Assert(rt.Iff(got, want), "types are equivalent exactly when their constraints and parts are the same")
	rt.Assert(rt.Iff(m.EquivalentTypes(b, a), got), "equivalence is symmetric")
	rt.Assert(m.EquivalentTypes(a, a), "a type is equivalent to itself")
	if rt.Fork(got) {
		rt.Reach("equivalent")
	} else {
		rt.Reach("different")
	}
}

func none() *sadl.Model { return lib.Model() }

func V_String() {
	mk := func(n string) *sadl.TypeSpec {
		ts := &sadl.TypeSpec{Type: "String", MinSize: size(n + " min"), MaxSize: size(n + " max")}
		ts.Pattern = pats[rt.Choice(n+" pattern", 3)]
		return ts
	}
	a, b := mk("a"), mk("b")
	check(none(), a, b, rt.And(a.Pattern == b.Pattern, eqS(a.MinSize, b.MinSize), eqS(a.MaxSize, b.MaxSize)))
}

func V_StringValues() {
	uuid := rt.Choice("UUID", 2) == 1
	mk := func(n string) *sadl.TypeSpec {
		ts := &sadl.TypeSpec{Type: "UUID"}
		if !uuid {
			ts = &sadl.TypeSpec{Type: "String", Values: words(n)}
		}
		if rt.Choice(n+" ref", 2) == 1 {
			ts.Reference = rt.StrN(n+" r", 1, 1, "AB")
		}
		return ts
	}
	a, b := mk("a"), mk("b")
	check(none(), a, b, rt.And(eqW(a.Values, b.Values), a.Reference == b.Reference))
}

var nums = []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"}

func V_Number() {
	t := nums[rt.Choice("type", len(nums))]
	mk := func(n string) *sadl.TypeSpec {
		return &sadl.TypeSpec{Type: t, Min: limit(n + " min"), Max: limit(n + " max")}
	}
	a, b := mk("a"), mk("b")
	check(none(), a, b, rt.And(eqD(a.Min, b.Min), eqD(a.Max, b.Max)))
}

func V_Kinds() {
	i, j := rt.Choice("a", len(sadl.BaseTypes)), rt.Choice("b", len(sadl.BaseTypes))
	a, b := &sadl.TypeSpec{Type: sadl.BaseTypes[i]}, &sadl.TypeSpec{Type: sadl.BaseTypes[j]}
	check(none(), a, b, i == j)
}

func V_Sized() {
	t := []string{"Array", "Map", "Bytes"}[rt.Choice("type", 3)]
	mk := func(n string) *sadl.TypeSpec {
		ts := &sadl.TypeSpec{Type: t, MinSize: size(n + " min"), MaxSize: size(n + " max")}
		if t != "Bytes" {
			ts.Items = "Int8"
		}
		if t == "Map" {
			ts.Keys = "String"
		}
		return ts
	}
	a, b := mk("a"), mk("b")
	check(none(), a, b, rt.And(eqS(a.MinSize, b.MinSize), eqS(a.MaxSize, b.MaxSize)))
}

// items and keys are compared by what the names stand for
func V_Parts() {
	mx := rt.Int64("x", 0, 3)
	my := rt.Int64("y", 0, 3)
	m := lib.Model(
		lib.Type("X", sadl.TypeSpec{Type: "String", MaxSize: &mx}),
		lib.Type("Y", sadl.TypeSpec{Type: "String", MaxSize: &my}),
		lib.Type("Z", sadl.TypeSpec{Type: "Int8"}),
	)
	names := []string{"X", "Y", "Z", "String", "Nope"}
	pick := func(n string) string { return names[rt.Choice(n, len(names))] }
	same := func(p, q string) bool {
		if p == q {
			return true
		}
		if (p == "X" && q == "Y") || (p == "Y" && q == "X") {
			return mx == my
		}
		return false
	}
	t := []string{"Array", "Map", "UnitValue"}[rt.Choice("type", 3)]
	mk := func(n string) (*sadl.TypeSpec, string, string) {
		p := pick(n + " 1")
		switch t {
		case "Array":
			return &sadl.TypeSpec{Type: t, Items: p}, p, "Z"
		case "Map":
			q := pick(n + " 2")
			return &sadl.TypeSpec{Type: t, Items: p, Keys: q}, p, q
		}
		q := pick(n + " 2")
		return &sadl.TypeSpec{Type: t, Value: p, Unit: q}, p, q
	}
	a, a1, a2 := mk("a")
	b, b1, b2 := mk("b")
	check(m, a, b, rt.And(same(a1, b1), same(a2, b2)))
}

func V_Enum() {
	mk := func(n string) *sadl.TypeSpec {
		return &sadl.TypeSpec{Type: "Enum", Elements: lib.Elements(words(n)...)}
	}
	a, b := mk("a"), mk("b")
	check(none(), a, b, eqW(syms(a), syms(b)))
}

func V_Struct() {
	mk := func(n string) *sadl.TypeSpec {
		ts := &sadl.TypeSpec{Type: "Struct"}
		for _, w := range words(n) {
			ts.Fields = append(ts.Fields, lib.Field(w, rt.Choice(n+" required", 2) == 1, sadl.TypeSpec{Type: "String", MaxSize: size(n + " max")}))
		}
		return ts
	}
	a, b := mk("a"), mk("b")
	want := len(a.Fields) == len(b.Fields)
	if want {
		for i, f := range a.Fields {
			g := b.Fields[i]
			want = rt.And(want, f.Name == g.Name, f.Required == g.Required, eqS(f.MaxSize, g.MaxSize))
		}
	}
	check(none(), a, b, want)
}

func V_Union() {
	mk := func(n string) *sadl.TypeSpec {
		ts := &sadl.TypeSpec{Type: "Union"}
		for _, w := range words(n) {
			t := []string{"String", "Int8"}[rt.Choice(n+" type", 2)]
			ts.Variants = append(ts.Variants, &sadl.UnionVariantDef{Name: w, TypeSpec: sadl.TypeSpec{Type: t}})
		}
		return ts
	}
	a, b := mk("a"), mk("b")
	want := len(a.Variants) == len(b.Variants)
	if want {
		for _, v := range a.Variants {
			in := false
			for _, u := range b.Variants {
				in = rt.Or(in, rt.And(v.Name == u.Name, v.Type == u.Type))
			}
			want = rt.And(want, in)
		}
	}
	check(none(), a, b, want)
}

// comparing by name: recursive definitions terminate
func V_Recursive() {
	kind := rt.Choice("kind", 3)
	na, nb := rt.Choice("a max", 3), rt.Choice("b max", 3)
	mk := func(n string, max int) *sadl.TypeDef {
		f := sadl.TypeSpec{Type: "Array", Items: n}
		switch kind {
		case 1:
			f = sadl.TypeSpec{Type: "Map", Keys: "String", Items: n}
		case 2:
			f = sadl.TypeSpec{Type: n}
		}
		g := sadl.TypeSpec{Type: "String"}
		if max > 0 {
			g.MaxSize = lib.I64(int64(max))
		}
		return lib.Type(n, sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("kids", false, f), lib.Field("x", false, g)}})
	}
	m := lib.Model(mk("A", na), mk("B", nb))
	got := m.EquivalentTypesByName("A", "B")
	if na != nb {
		rt.Assert(!got, "recursive types that differ are not equivalent")
	}
	if na == nb && kind != 2 {
		rt.Assert(got, "recursive types that differ only in their name are equivalent")
	}
	rt.Assert(m.EquivalentTypesByName("A", "A"), "a type is equivalent to itself by name")
	rt.Assert(m.EquivalentTypesByName("B", "A") == got, "equivalence by name is symmetric")
	rt.Assert(!m.EquivalentTypesByName("A", "Nope"), "an undefined type is not equivalent to a defined one")
}

// a symbol, value or variant that is listed twice
func V_Repeated() {
	t := []string{"Enum", "String", "Union"}[rt.Choice("type", 3)]
	mk := func(n string) (*sadl.TypeSpec, []string) {
		w := []string{rt.StrN(n+"1", 1, 1, "abc"), rt.StrN(n+"2", 1, 1, "abc"), rt.StrN(n+"3", 1, 1, "abc")}
		ts := &sadl.TypeSpec{Type: t}
		switch t {
		case "Enum":
			ts.Elements = lib.Elements(w...)
		case "String":
			ts.Values = w
		case "Union":
			for _, x := range w {
				ts.Variants = append(ts.Variants, &sadl.UnionVariantDef{Name: x, TypeSpec: sadl.TypeSpec{Type: "Int8"}})
			}
		}
		return ts, w
	}
	a, wa := mk("a")
	b, wb := mk("b")
	m := none()
	got := m.EquivalentTypes(a, b)
	rt.Assert(rt.Iff(m.EquivalentTypes(b, a), got), "equivalence is symmetric, also for repeated parts")
	rt.Assert(m.EquivalentTypes(a, a), "a type with repeated parts is equivalent to itself")
	all := func(x, y []string) bool {
		r := true
		for _, p := range x {
			r = rt.And(r, rt.Or(p == y[0], p == y[1], p == y[2]))
		}
		return r
	}
	rt.Assert(rt.Iff(got, rt.And(all(wa, wb), all(wb, wa))), "types whose parts are repeated are equivalent exactly when they list the same parts")
	if rt.Fork(got) {
		rt.Reach("the same")
	} else {
		rt.Reach("not the same")
	}
}

// what equivalence means: the same values are valid
func V_Semantics() {
	mk := func(n string, kind int) *sadl.TypeSpec {
		switch kind {
		case 0:
			return &sadl.TypeSpec{Type: "String", MinSize: size(n + " min"), MaxSize: size(n + " max"), Values: words(n)}
		case 1:
			return &sadl.TypeSpec{Type: "Int16", Min: limit(n + " min"), Max: limit(n + " max")}
		case 2:
			return &sadl.TypeSpec{Type: "Enum", Elements: lib.Elements(words(n)...)}
		case 3:
			ts := &sadl.TypeSpec{Type: "Struct"}
			for _, w := range words(n) {
				ts.Fields = append(ts.Fields, lib.Field(w, rt.Choice(n+" required", 2) == 1, sadl.TypeSpec{Type: "Int8"}))
			}
			return ts
		case 4:
			ts := &sadl.TypeSpec{Type: "Union"}
			for _, w := range words(n) {
				ts.Variants = append(ts.Variants, &sadl.UnionVariantDef{Name: w, TypeSpec: sadl.TypeSpec{Type: "Int8"}})
			}
			return ts
		}
		return &sadl.TypeSpec{Type: "Array", Items: "String", MinSize: size(n + " min"), MaxSize: size(n + " max")}
	}
	kind := rt.Choice("kind", 6)
	a, b := mk("a", kind), mk("b", kind)
	m := none()
	rt.Assume(m.EquivalentTypes(a, b))
	var v interface{}
	switch kind {
	case 0, 2:
		v = rt.StrN("v", 0, 3, "abcd")
	case 1:
		v = lib.Dec(rt.StrN("v", 2, 2, "0123456789"))
	case 3, 4:
		o := map[string]interface{}{}
		for i := 0; i < rt.Choice("fields", 3); i++ {
			o[rt.StrN("f", 1, 1, "abcd")] = lib.Dec("1")
		}
		v = o
	default:
		v = []interface{}{"a", "b", "c"}[:rt.Choice("items", 4)]
	}
	e1, e2 := m.ValidateAgainstTypeSpec("x", a, v), m.ValidateAgainstTypeSpec("x", b, v)
	rt.Assert(rt.Iff(e1 == nil, e2 == nil), "equivalent types accept the same values")
	rt.Reach("compared")
}
