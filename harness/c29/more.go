package c29

import (
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound enums of 1..4 symbols, unions of 1..3 variants and structs of 1..3 fields, one of them with every subset of comment, annotations, default and required; 0..12 values; every pairing of action and resource names; parameters with several extras at once, short or long; 1..3 operations, actions and examples with and without comments

func about(n string) (annos map[string]string, comment string) {
	switch rt.Choice(n+" annotations", 3) {
	case 1:
		annos = map[string]string{"x_a": rt.StrN(n+" value", 0, 1, "aB ")}
	case 2:
		annos = map[string]string{"x_a": "1", "x_b": ""}
	}
	switch rt.Choice(n+" comment", 3) {
	case 1:
		comment = "a " + rt.StrN(n+" word", 1, 1, "aB")
	case 2:
		comment = "a comment that is made of very many words, so many of them that it has to be wrapped after about one hundred characters"
	}
	return
}

// V_elements: every symbol of an enum keeps its comment and annotations
func V_elements() {
	n := 1 + rt.Choice("symbols", 4)
	one := rt.Choice("which", 4)
	td := lib.Type("X", sadl.TypeSpec{Type: "Enum"})
	for i := 0; i < n; i++ {
		e := &sadl.EnumElementDef{Symbol: []string{"A", "b", "cC", "D_1"}[i]}
		if i == one {
			e.Annotations, e.Comment = about("symbol")
			if len(e.Comment) > 20 {
				e.Comment = "short"
			}
		}
		td.Elements = append(td.Elements, e)
	}
	roundTrip(schema(td))
}

// V_variants: every variant of a union keeps its comment and annotations
func V_variants() {
	n := 1 + rt.Choice("variants", 3)
	one := rt.Choice("which", 3)
	td := lib.Type("X", sadl.TypeSpec{Type: "Union"})
	for i := 0; i < n; i++ {
		v := &sadl.UnionVariantDef{Name: []string{"a", "bB", "C_1"}[i], TypeSpec: sadl.TypeSpec{Type: []string{"Str", "Int32", "Point"}[i]}}
		if i == one {
			v.Annotations, v.Comment = about("variant")
		}
		td.Variants = append(td.Variants, v)
	}
	roundTrip(schema(td))
}

// V_several: fields with several extras at once
func V_several() {
	n := 1 + rt.Choice("fields", 3)
	one := rt.Choice("which", 3)
	td := lib.Type("X", sadl.TypeSpec{Type: "Struct"})
	for i := 0; i < n; i++ {
		f := lib.Field([]string{"a", "bB", "C_1"}[i], false, sadl.TypeSpec{Type: []string{"Str", "Int32", "Decimal"}[i]})
		if i == one {
			f.Annotations, f.Comment = about("field")
			switch rt.Choice("extra", 3) {
			case 1:
				f.Required = true
			case 2:
				f.Default = []interface{}{lib.Dec("7"), lib.Dec("-3"), lib.Dec("0.25")}[i]
				if i == 0 {
					s := "seven"
					f.Default = &s
				}
			}
		}
		td.Fields = append(td.Fields, f)
	}
	td.Annotations, td.Comment = nil, []string{"", "type"}[rt.Choice("type comment", 2)]
	roundTrip(schema(td))
}

// V_values: strings of many values
func V_values() {
	ts := sadl.TypeSpec{Type: "String"}
	n := rt.Choice("values", 13)
	one := rt.Choice("which", 4)
	for i := 0; i < n; i++ {
		v := string([]byte{byte('a' + i)})
		if i%4 == one {
			v += rt.StrN("value", 0, 1, "B, ]")
		}
		ts.Values = append(ts.Values, v)
	}
	if rt.Choice("in a field", 2) == 1 {
		roundTrip(schema(lib.Type("X", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", true, ts)}})))
		return
	}
	roundTrip(schema(lib.Type("X", ts)))
}

// V_naming: every pairing of an action's name and its resource
func V_naming() {
	h := action()
	h.Name = []string{"putThings", "putOther", "custom", "putthings", "things"}[rt.Choice("name", 5)]
	h.Resource = []string{"things", "other", "Things", "custom"}[rt.Choice("resource", 4)]
	h.Comment = []string{"", "c"}[rt.Choice("comment", 2)]
	if rt.Choice("annotated", 2) == 1 {
		h.Annotations = map[string]string{"x_a": "b"}
	}
	s := schema()
	s.Http = []*sadl.HttpDef{h}
	roundTrip(s)
}

// V_params: parameters with several extras at once
func V_params() {
	h := action()
	in := rt.Choice("an output", 2) == 0
	p := param("p", []string{"String", "Int32"}[rt.Choice("type", 2)])
	p.Annotations, p.Comment = about("param")
	header := rt.Choice("header", 2) == 1
	if header {
		p.Header = "X-" + rt.StrN("hname", 1, 1, "aB")
	}
	switch rt.Choice("extra", 3) {
	case 1:
		p.Required = true
	case 2:
		s := "aB"
		if p.Type == "String" {
			p.Default = &s
		} else {
			p.Default = lib.Dec("12")
		}
	}
	q := param("last", "Bool")
	if in {
		if !header {
			p.Query = "pP"
			h.Path += "?pP={p}&q={last}"
		} else {
			h.Path += "?q={last}"
		}
		q.Query = "q"
		h.Inputs = append(h.Inputs, p, q)
	} else {
		if !header {
			p.Required, p.Default = true, nil
		}
		q.Header = "Q"
		h.Expected = &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{p, q}}
	}
	s := schema()
	s.Http = []*sadl.HttpDef{h}
	roundTrip(s)
}

// V_statuses: an exception of every status, or of none
func V_statuses() {
	h := action()
	e := &sadl.HttpExceptionSpec{Type: "Point"}
	if rt.Choice("status", 2) == 1 {
		e.Status = []int32{1, 99, 100, 299, 404, 599, 999}[rt.Choice("code", 7)]
	}
	e.Annotations, e.Comment = about("exception")
	h.Exceptions = []*sadl.HttpExceptionSpec{e}
	s := schema()
	s.Http = []*sadl.HttpDef{h}
	roundTrip(s)
}

// V_operationParts: the inputs and outputs of an operation, with several extras at once
func V_operationParts() {
	op := &sadl.OperationDef{Name: "do" + lib.Word("name")}
	n, m := rt.Choice("inputs", 4), rt.Choice("outputs", 3)
	one := rt.Choice("which", 3)
	for i := 0; i < n; i++ {
		in := &sadl.OperationInput{}
		in.Name, in.Type = []string{"a", "bB", "C_1"}[i], []string{"Str", "Int32", "Point"}[i]
		if i == one {
			in.Required = rt.Choice("required", 2) == 1
			_, in.Comment = about("input")
		}
		op.Inputs = append(op.Inputs, in)
	}
	for i := 0; i < m; i++ {
		out := &sadl.OperationOutput{Name: []string{"a", "bB"}[i], TypeSpec: sadl.TypeSpec{Type: []string{"Str", "Int32"}[i]}}
		if i == one {
			_, out.Comment = about("output")
		}
		op.Outputs = append(op.Outputs, out)
	}
	if rt.Choice("exception", 2) == 1 {
		op.Exceptions = []string{"Point"}
	}
	s := schema()
	s.Operations = []*sadl.OperationDef{op, {Name: "second", Comment: "two"}}
	roundTrip(s)
}
