package c13

import (
	"strings"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound models with nested structs (3 levels), structs by name, by another name and recursive, names that stand for each other, an enum, and actions with inputs, outputs and with no expected response; field and action names symbolic (1..2 letters)
//verif:bound targets: up to 4 dotted parts, each a symbolic name of 0..2 letters or one of the names defined

func build() (*sadl.Model, []*sadl.TypeDef, []*sadl.HttpDef) {
	inner := sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
		lib.Field("x", false, sadl.TypeSpec{Type: "Int8"}),
		lib.Field(rt.StrN("deep", 1, 1, "yz"), false, sadl.TypeSpec{Type: "Bool"}),
	}}
	types := []*sadl.TypeDef{
		lib.Type("T", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
			lib.Field(rt.StrN("f1", 1, 1, "abc"), false, inner),
			lib.Field("d", false, sadl.TypeSpec{Type: "String"}),
			lib.Field("s", false, sadl.TypeSpec{Type: "A"}),
		}}),
		lib.Type("A", sadl.TypeSpec{Type: "U"}),
		lib.Type("U", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
			lib.Field("x", false, sadl.TypeSpec{Type: "Int32"}),
			lib.Field(rt.StrN("named", 1, 1, "yz"), false, sadl.TypeSpec{Type: "T"}),
			lib.Field("l", false, sadl.TypeSpec{Type: "L"}),
		}}),
		lib.Type("L", sadl.TypeSpec{Type: "L2"}),
		lib.Type("L2", sadl.TypeSpec{Type: "L"}),
		lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("p")}),
	}
	get := &sadl.HttpDef{Name: "getT", Method: "GET", Path: "/", Inputs: []*sadl.HttpParamSpec{{StructFieldDef: *lib.Field(rt.StrN("in", 1, 1, "ab"), true, sadl.TypeSpec{Type: "Int16"})}},
		Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{{StructFieldDef: *lib.Field(rt.StrN("out", 1, 1, "bc"), true, inner)}}}}
	del := &sadl.HttpDef{Name: "del", Method: "DELETE", Path: "/"}
	log := &sadl.HttpDef{Name: "getRequestLog", Method: "GET", Path: "/log", Inputs: []*sadl.HttpParamSpec{{StructFieldDef: *lib.Field("d", true, sadl.TypeSpec{Type: "Int32"})}}}
	res := &sadl.HttpDef{Name: "putResponse", Method: "PUT", Path: "/res",
		Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{{StructFieldDef: *lib.Field("d", true, sadl.TypeSpec{Type: "Int64"})}}}}
	http := []*sadl.HttpDef{get, del, log, res}
	m, err := sadl.NewModel(&sadl.Schema{Types: types, Http: http})
	rt.Assert(err == nil, "model")
	return m, types, http
}

// resolve is the reference: ts nil with ok means "known, but nothing to check against"
func resolve(types []*sadl.TypeDef, http []*sadl.HttpDef, parts []string) (ts *sadl.TypeSpec, ok bool) {
	for _, td := range types {
		if td.Name == parts[0] {
			ts = &td.TypeSpec
		}
	}
	for _, b := range sadl.BaseTypes {
		if b == parts[0] {
			ts = &sadl.TypeSpec{Type: b}
		}
	}
	rest := parts[1:]
	if ts == nil {
		for _, h := range http {
			up := strings.ToUpper(h.Name[:1]) + h.Name[1:]
			var ps []*sadl.HttpParamSpec
			switch parts[0] {
			case up + "Request", h.Name + "Request":
				ps = h.Inputs
			case up + "Response", h.Name + "Response":
				if h.Expected != nil {
					ps = h.Expected.Outputs
				}
			default:
				continue
			}
			if len(rest) == 0 {
				return nil, true
			}
			for _, p := range ps {
				if p.Name == rest[0] {
					ts = &p.TypeSpec
				}
			}
			rest = rest[1:]
			break
		}
	}
	if ts == nil {
		return nil, false
	}
	for _, p := range rest {
		var next *sadl.TypeSpec
		for n := 0; n < len(types); n++ { // a name stands for the type it names
			for _, td := range types {
				if td.Name == ts.Type {
					ts = &td.TypeSpec
				}
			}
		}
		if ts.Type == "Struct" {
			for _, f := range ts.Fields {
				if f.Name == p {
					next = &f.TypeSpec
				}
			}
		}
		if next == nil {
			return nil, false
		}
		ts = next
	}
	return ts, true
}

func run(target string, parts []string) {
	m, types, http := build()
	want, ok := resolve(types, http, parts)
	got, err := m.FindExampleType(&sadl.ExampleDef{Target: target})
	rt.Assert((err == nil) == ok, "a target resolves exactly when every part of it is defined")
	if err != nil {
		rt.Assert(got == nil, "an error gives no type")
		return
	}
	rt.Reach("resolved")
	if want == nil {
		rt.Assert(got == nil, "a whole request or response has no declared type")
		return
	}
	rt.Assert(got != nil, "a resolved target has a type")
	if got != nil {
		rt.Assert(got == want || (got.Type == want.Type && len(got.Fields) == 0 && len(want.Fields) == 0), "a target resolves to the type declared there")
	}
}

var heads = []string{"T", "E", "Bool", "GetTRequest", "GetTResponse", "getTResponse", "DelRequest", "DelResponse", "NopeRequest", "GetRequestLogRequest", "GetLogRequest", "GetRequestLogResponse", "GetRequestLog", "PutResponseResponse", "PutResponse", "PutResponseRequest", "PutRequest", "NopeResponse", "Request", "Response", ""}

func V_Targets() {
	h := heads[rt.Choice("head", len(heads))]
	parts := []string{h}
	target := h
	for i := 0; i < rt.Choice("more", 4); i++ {
		p := rt.StrN("part", 0, 1, "abcdlsxyzABCDLSXYZ")
		parts = append(parts, p)
		target += "." + p
	}
	run(target, parts)
}

func V_Free() {
	h := rt.StrN("head", 1, 3, "TEabR")
	if rt.Choice("suffix", 2) == 1 {
		h = h + "Response"
	}
	run(h, []string{h})
}
