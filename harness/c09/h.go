package c09

import (
	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound schemas of up to 3 types and 3 actions whose names are symbolic: any name of 1..2 letters, or any of the base type names
//verif:bound lookups of any name of 0..3 letters and of every base type

const letters = "abA"

func typeName(n string) string {
	if rt.Choice(n+" base", 3) == 0 {
		return sadl.BaseTypes[rt.Choice(n+" which", len(sadl.BaseTypes))]
	}
	return rt.StrN(n, 1, 2, letters)
}

var kinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UnitValue", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any"}

func V_Types() {
	n := rt.Choice("types", 4)
	sc := &sadl.Schema{Name: "test"}
	dup := false
	for i := 0; i < n; i++ {
		name := rt.StrN("t", 1, 2, letters)
		for _, td := range sc.Types {
			dup = rt.Or(dup, td.Name == name)
		}
		sc.Types = append(sc.Types, &sadl.TypeDef{Name: name, TypeSpec: sadl.TypeSpec{Type: []string{"Int8", "Struct"}[rt.Choice("kind", 2)]}})
	}
	m, err := sadl.NewModel(sc)
	rt.Assert(rt.Iff(err == nil, rt.Not(dup)), "a schema is accepted exactly when no type name is used twice")
	if err != nil {
		rt.Assert(m == nil, "a rejected schema gives no model")
		return
	}
	rt.Reach("accepted")
	for _, td := range sc.Types {
		rt.Assert(m.FindType(td.Name) == td, "every type is found by its name")
	}
	q := rt.StrN("query", 0, 3, letters)
	f := m.FindType(q)
	has := false
	for _, td := range sc.Types {
		has = rt.Or(has, td.Name == q)
	}
	rt.Assert(rt.Iff(f != nil, has), "a name that is not defined is not found")
	if f != nil {
		rt.Assert(f.Name == q, "a type found has the name asked for")
	}
}

func V_Base() {
	k := rt.Choice("base", len(kinds))
	m, err := sadl.NewModel(&sadl.Schema{Types: []*sadl.TypeDef{{Name: "Mine", TypeSpec: sadl.TypeSpec{Type: "Int8"}}}})
	rt.Assert(err == nil, "accepted")
	td := m.FindType(kinds[k])
	rt.Assert(td != nil && td.Name == kinds[k] && td.Type == kinds[k], "every base type is defined")
	pos := rt.Choice("pos", 2)
	bad := &sadl.TypeDef{Name: kinds[k], TypeSpec: sadl.TypeSpec{Type: "Struct"}}
	ok := &sadl.TypeDef{Name: "Mine", TypeSpec: sadl.TypeSpec{Type: "Int8"}}
	types := []*sadl.TypeDef{bad, ok}
	if pos == 1 {
		types = []*sadl.TypeDef{ok, bad}
	}
	_, err = sadl.NewModel(&sadl.Schema{Types: types})
	rt.Assert(err != nil, "a base type cannot be redefined")
}

func V_Http() {
	n := rt.Choice("actions", 4)
	sc := &sadl.Schema{Name: "test"}
	dup := false
	for i := 0; i < n; i++ {
		name := rt.StrN("h", 1, 2, letters)
		for _, hd := range sc.Http {
			dup = rt.Or(dup, hd.Name == name)
		}
		sc.Http = append(sc.Http, &sadl.HttpDef{Name: name, Method: []string{"GET", "PUT"}[rt.Choice("method", 2)], Path: []string{"/", "/a"}[rt.Choice("path", 2)]})
	}
	m, err := sadl.NewModel(sc)
	rt.Assert(rt.Iff(err == nil, rt.Not(dup)), "a schema is accepted exactly when no action name is used twice")
	if err != nil {
		return
	}
	for _, hd := range sc.Http {
		rt.Assert(m.FindHttp(hd.Name) == hd, "every action is found by its name")
	}
	q := rt.StrN("query", 0, 3, letters)
	f := m.FindHttp(q)
	has := false
	for _, hd := range sc.Http {
		has = rt.Or(has, hd.Name == q)
	}
	rt.Assert(rt.Iff(f != nil, has), "an action that is not defined is not found")
}

// a type and an action may share a name
func V_Shared() {
	a := rt.StrN("a", 1, 2, letters)
	b := rt.StrN("b", 1, 2, letters)
	m, err := sadl.NewModel(&sadl.Schema{
		Types: []*sadl.TypeDef{{Name: a, TypeSpec: sadl.TypeSpec{Type: "String"}}},
		Http:  []*sadl.HttpDef{{Name: b, Method: "GET", Path: "/"}},
	})
	rt.Assert(err == nil, "types and actions have separate names")
	if err == nil {
		rt.Assert(m.FindType(a) != nil && m.FindHttp(b) != nil, "both are found")
	}
	var empty sadl.Model
	rt.Assert(empty.FindType(a) == nil && empty.FindHttp(b) == nil, "an empty model finds nothing")
}

var _ = typeName
