package c11

import (
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound models of up to 3 structs (names of 1..2 symbolic letters) with up to 2 fields (names of 1..2 symbolic letters), each an inline enum of up to 2 symbolic symbols or a plain field, plus one other type of symbolic name and kind
//verif:bound validated values: objects with symbolic symbols in the lifted fields
//verif:assume type names, field names of a struct and symbols of an enum are distinct; field names start with a letter

func name(n string, alphabet string) string { return rt.StrN(n, 1, 2, alphabet) }

type fld struct {
	owner, name string
	enum        bool
	syms        []string
}

func build(structs, fields int, other bool) (*sadl.Model, []*sadl.TypeDef, []fld) {
	var tds []*sadl.TypeDef
	var fs []fld
	distinct := func(n string) {
		for _, td := range tds {
			rt.Assume(td.Name != n)
		}
	}
	for i := 0; i < structs; i++ {
		td := &sadl.TypeDef{Name: name("type", "AB"), TypeSpec: sadl.TypeSpec{Type: "Struct"}}
		distinct(td.Name)
		for k := 0; k < fields; k++ {
			f := fld{owner: td.Name, name: name("field", "abAB")}
			for _, x := range td.Fields {
				rt.Assume(x.Name != f.name)
			}
			ts := sadl.TypeSpec{Type: "Int8"}
			if k == 0 || rt.Choice("enum", 2) == 1 {
				f.enum = true
				for j := 0; j < 1+rt.Choice("symbols", 2); j++ {
					s := rt.StrN("symbol", 1, 1, "pq")
					for _, x := range f.syms {
						rt.Assume(x != s)
					}
					f.syms = append(f.syms, s)
				}
				ts = sadl.TypeSpec{Type: "Enum", Elements: lib.Elements(f.syms...)}
			}
			td.Fields = append(td.Fields, &sadl.StructFieldDef{Name: f.name, Comment: "c " + f.name, Required: k == 0, TypeSpec: ts})
			fs = append(fs, f)
		}
		tds = append(tds, td)
	}
	if other {
		td := &sadl.TypeDef{Name: rt.StrN("other", 1, 3, "AB"), TypeSpec: sadl.TypeSpec{Type: "Enum", Elements: lib.Elements(rt.StrN("osym", 1, 1, "pq"))}}
		if rt.Choice("other kind", 2) == 1 {
			td.TypeSpec = sadl.TypeSpec{Type: "Bool"}
		}
		distinct(td.Name)
		tds = append(tds, td)
	}
	return lib.Model(tds...), tds, fs
}

// lifted is the name of a lifted enum: that of its field, after that of the struct unless it starts with it
func lifted(owner, field string) string {
	b := []byte(field)
	if rt.Fork(rt.And(b[0] >= 'a', b[0] <= 'z')) {
		b[0] -= 32
	}
	if n := len(owner); len(b) >= n && rt.Fork(string(b[:n]) == owner) {
		return string(b)
	}
	return owner + string(b)
}

func has(list []*sadl.EnumElementDef, s string) bool {
	in := false
	for _, e := range list {
		in = rt.Or(in, e.Symbol == s)
	}
	return in
}

func after(m *sadl.Model, tds []*sadl.TypeDef, fs []fld, err error) {
	if err != nil {
		rt.Reach("conflict")
		return
	}
	rt.Reach("converted")
	for i, a := range m.Types {
		for _, b := range m.Types[:i] {
			rt.Assert(a.Name != b.Name, "no type is defined twice")
		}
		rt.Assert(m.FindType(a.Name) == a, "every type is found by its name")
	}
	rt.Assert(len(m.Types) >= len(tds), "types are kept")
	for i, td := range tds {
		rt.Assert(m.Types[i] == td, "types keep their place")
	}
	k := 0
	for _, td := range tds {
		if td.Type != "Struct" {
			continue
		}
		for i, f := range td.Fields {
			o := fs[k]
			k++
			rt.Assert(f.Name == o.name && f.Comment == "c "+o.name && f.Required == (i == 0), "fields are kept")
			if !o.enum {
				rt.Assert(f.Type == "Int8", "other fields are left alone")
				continue
			}
			rt.Assert(f.Type != "Enum" && len(f.Elements) == 0, "no inline enum remains")
			rt.Assert(f.Type == lifted(td.Name, o.name), "a lifted enum is named after its struct and its field")
			t := m.FindType(f.Type)
			rt.Assert(t != nil && t.Type == "Enum", "a lifted field refers to an enum type")
			if t == nil {
				continue
			}
			rt.Assert(len(t.Elements) == len(o.syms), "a lifted enum has the same symbols")
			for _, s := range o.syms {
				rt.Assert(has(t.Elements, s), "a lifted enum keeps each symbol")
			}
		}
	}
}

func V_One() {
	m, tds, fs := build(1, 1+rt.Choice("fields", 2), true)
	after(m, tds, fs, m.ConvertInlineEnums())
}

func V_Two() {
	m, tds, fs := build(2, 1, false)
	after(m, tds, fs, m.ConvertInlineEnums())
}

// without any name in common there is never a conflict
func V_NoConflict() {
	var syms []string
	for i := 0; i < 1+rt.Choice("n", 3); i++ {
		syms = append(syms, []string{"p", "q", "r"}[i])
	}
	e := sadl.TypeSpec{Type: "Enum", Elements: lib.Elements(syms...)}
	fn := rt.StrN("field", 1, 3, "abAB_1")
	rt.Assume(rt.In(fn[0], "abAB"))
	td := lib.Type("Thing", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field(fn, true, e), lib.Field("zz", false, sadl.TypeSpec{Type: "Thing"})}})
	m := lib.Model(td, lib.Type("Other", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field(fn, false, e)}}))
	v := rt.StrN("v", 0, 1, "pqrs")
	before := m.Validate("", "Thing", map[string]interface{}{fn: v})
	err := m.ConvertInlineEnums()
	rt.Assert(err == nil, "enums are lifted when no name is taken")
	rt.Assert(len(m.Types) == 4, "one type for each inline enum")
	rt.Assert(td.Fields[0].Type == lifted("Thing", fn), "a lifted enum is named after its struct and its field")
	after := m.Validate("", "Thing", map[string]interface{}{fn: v})
	rt.Assert(rt.Iff(before == nil, after == nil), "lifting enums does not change which values are valid")
	rt.Assert(m.ConvertInlineEnums() == nil && len(m.Types) == 4, "lifting again changes nothing")
}

// a name that is taken by something else is an error, not a silent redirection
func V_Conflict() {
	other := sadl.TypeSpec{Type: "Enum", Elements: lib.Elements(rt.StrN("s", 1, 1, "pq"), "r")}
	switch rt.Choice("other", 3) {
	case 1:
		other = sadl.TypeSpec{Type: "String"}
	case 2:
		other = sadl.TypeSpec{Type: "Struct"}
	}
	e := sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("r", "p")}
	same := false
	if other.Type == "Enum" {
		same = other.Elements[0].Symbol == "p"
	}
	o := lib.Type("ThingColor", other)
	s := lib.Type("Thing", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("color", true, e)}})
	m := lib.Model(s, o)
	if rt.Choice("order", 2) == 1 {
		m = lib.Model(o, s)
	}
	err := m.ConvertInlineEnums()
	rt.Assert(rt.Iff(err == nil, same), "a name taken by a different type is reported")
	if err == nil {
		rt.Assert(len(m.Types) == 2 && m.FindType("ThingColor") == o && s.Fields[0].Type == "ThingColor", "an equivalent type is reused")
	}
}

// V_Named: the name of a field may have that of its struct anywhere in it
func V_Named() {
	owner := rt.StrN("owner", 1, 2, "AB")
	fn := rt.StrN("before", 0, 1, "ab") + owner + rt.StrN("after", 0, 1, "ab")
	td := lib.Type(owner, sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field(fn, true, sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("p")})}})
	want := lifted(owner, fn)
	rt.Assume(want != owner)
	m := lib.Model(td)
	rt.Assert(m.ConvertInlineEnums() == nil && len(m.Types) == 2, "an inline enum is lifted")
	rt.Assert(td.Fields[0].Type == want && m.FindType(want) != nil, "a lifted enum is named after its struct and its field")
}
