package c34

import (
	"os"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/smithy"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
	smithylib "github.com/boynton/smithy"
)

//verif:assume boynton/smithy is not available offline: its syntax tree and its JSON form are modelled by /verif/stubs/smithy; the text of the Smithy language is that library's business
//verif:bound export and import again, by way of a JSON file: one type of each of 17 kinds with every combination of its constraints, sizes 0..9, limits of 1..2 digits and a fraction, names, patterns and values of 1..2 symbolic characters; as a type, a required or optional field, a variant and an item; actions with the seven methods, inputs and outputs in every place, statuses, exceptions, examples; operations
//verif:bound import of each kind of shape with its traits; references to the 22 shapes of the prelude; inputs and outputs of two members in any place each; up to 2 services; up to 2 files and a directory; 12 kinds of broken models
//verif:assume items, keys, units and values are named types or base types other than Enum, Union and UnitValue; exception types are structs, each with one status

const ns = "ns"

func file(ast *smithylib.AST, f string) {
	err := os.WriteFile(f, []byte(sadl.Pretty(ast)), 0644)
	rt.Assert(err == nil, "the file is written")
}

func load(ast *smithylib.AST) (*sadl.Model, error) {
	f := rt.TempDir() + "/m.json"
	file(ast, f)
	rt.Assert(smithy.IsValidFile(f), "a Smithy file")
	m, err := smithy.Import([]string{f}, sadl.NewData())
	rt.Assert((m == nil) == (err != nil), "a model or an error")
	if err == nil {
		rt.Reach("imported")
	} else {
		rt.Reach("refused")
	}
	return m, err
}

func again(s *sadl.Schema) *sadl.Model {
	m, err := sadl.NewModel(s)
	rt.Assert(err == nil, "the model is accepted")
	ast, err := smithy.FromSADL(m, ns)
	rt.Assert(err == nil, "the model is exported")
	if err != nil {
		return nil
	}
	m, err = load(ast)
	rt.Assert(err == nil, "the model is imported")
	return m
}

func schema(types ...*sadl.TypeDef) *sadl.Schema {
	return &sadl.Schema{Name: "test", Types: append(lib.Defined(), types...)}
}

// typ finds a type, which is there once
func typ(m *sadl.Model, name string) *sadl.TypeDef {
	var r *sadl.TypeDef
	for _, td := range m.Types {
		if td.Name == name {
			rt.Assert(r == nil, "a type is defined once")
			r = td
		}
	}
	rt.Assert(r != nil, "the type is there")
	return r
}

func sizes(a, b *int64) bool {
	return (a == nil) == (b == nil) && (a == nil || *a == *b)
}

func limits(a, b *sadl.Decimal) bool {
	return (a == nil) == (b == nil) && (a == nil || a.String() == b.String())
}

// spec: the type says what it said; named: it is the type of a definition
func spec(m *sadl.Model, got, want *sadl.TypeSpec) {
	for _, td := range lib.Defined() {
		if want.Type == td.Name { // an alias: what it stands for
			want = &td.TypeSpec
			break
		}
	}
	rt.Assert(got.Type == want.Type, "kind of type")
	rt.Assert(limits(got.Min, want.Min) && limits(got.Max, want.Max), "limits")
	rt.Assert(sizes(got.MinSize, want.MinSize) && sizes(got.MaxSize, want.MaxSize), "sizes")
	rt.Assert(got.Pattern == want.Pattern, "pattern")
	rt.Assert(lib.SameTexts(got.Values, want.Values), "values")
	rt.Assert(len(got.Fields) == len(want.Fields) && len(got.Elements) == len(want.Elements) && len(got.Variants) == len(want.Variants), "number of parts")
	switch want.Type {
	case "Array":
		ref(m, &sadl.TypeSpec{Type: got.Items}, &sadl.TypeSpec{Type: want.Items})
	case "Map":
		ref(m, &sadl.TypeSpec{Type: got.Keys}, &sadl.TypeSpec{Type: want.Keys})
		ref(m, &sadl.TypeSpec{Type: got.Items}, &sadl.TypeSpec{Type: want.Items})
	}
	for i, f := range want.Fields {
		if i < len(got.Fields) {
			g := got.Fields[i]
			rt.Assert(g.Name == f.Name && g.Required == f.Required && g.Comment == f.Comment, "name, comment and required of the field")
			ref(m, &g.TypeSpec, &f.TypeSpec)
		}
	}
	for i, e := range want.Elements {
		if i < len(got.Elements) {
			g := got.Elements[i]
			rt.Assert(g.Symbol == e.Symbol && g.Comment == e.Comment && g.Annotations["x_enumValue"] == e.Annotations["x_enumValue"], "symbol, comment and value of the element")
		}
	}
	for i, v := range want.Variants {
		if i < len(got.Variants) {
			g := got.Variants[i]
			rt.Assert(g.Name == v.Name && g.Comment == v.Comment, "name and comment of the variant")
			ref(m, &g.TypeSpec, &v.TypeSpec)
		}
	}
}

// ref: the same where a type is used. Inline types have become types of their own.
func ref(m *sadl.Model, got, want *sadl.TypeSpec) {
	rt.Assert(got.Pattern == "" && got.Min == nil && got.Max == nil && got.MinSize == nil && got.MaxSize == nil && len(got.Fields)+len(got.Elements)+len(got.Variants)+len(got.Values) == 0, "a reference")
	name := want.Type
	switch name {
	case "Any", "UUID", "Bool", "Timestamp", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Bytes", "Point", "Str", "Colour":
		if want.Min == nil && want.Max == nil && want.MinSize == nil && want.MaxSize == nil && want.Pattern == "" && len(want.Values) == 0 {
			switch name {
			case "UUID": // Smithy does not have it
				name = "String"
			case "Any": // a document
				name = "Struct"
			}
			rt.Assert(got.Type == name, "type referred to")
			return
		}
	case "Struct", "Array", "Map":
		if len(want.Fields) == 0 && want.Items == "" { // anything of that kind: a document
			rt.Assert(got.Type == "Struct", "type referred to")
			return
		}
	}
	td := typ(m, got.Type)
	if td != nil {
		spec(m, &td.TypeSpec, want)
	}
}

func kind(n string) string {
	kinds := []string{"Any", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Point", "Str", "Colour"}
	return kinds[rt.Choice(n, len(kinds))]
}

func V_types() {
	td := lib.Type("X"+lib.Word("name"), lib.Spec(kind("kind")))
	td.Comment = []string{"", "c"}[rt.Choice("comment", 2)]
	m := again(schema(td))
	if m == nil {
		return
	}
	for _, d := range append(lib.Defined(), td) {
		got := typ(m, d.Name)
		if got != nil {
			spec(m, &got.TypeSpec, &d.TypeSpec)
			rt.Assert(got.Comment == d.Comment, "comment of the type")
		}
	}
}

func V_fields() {
	how := rt.Choice("how", 3)
	ts := sadl.TypeSpec{}
	switch k := kind("kind"); {
	case how == 0 && k != "Map" && k != "Bytes":
		ts = lib.Spec(k)
	case k == "Int8":
		ts = sadl.TypeSpec{Type: "Int8", Max: lib.Dec("3")}
	case k == "String":
		ts = sadl.TypeSpec{Type: k, MinSize: lib.I64(rt.Int64("size", 0, 9))}
	case k == "Array":
		ts = sadl.TypeSpec{Type: k, Items: "Point", MaxSize: lib.I64(rt.Int64("size", 0, 9))}
	case k == "Map":
		ts = sadl.TypeSpec{Type: k, Keys: "Colour", Items: "Str", MaxSize: lib.I64(rt.Int64("size", 0, 9))}
	case k == "Bytes":
		ts = sadl.TypeSpec{Type: k, MaxSize: lib.I64(rt.Int64("size", 0, 9))}
	default:
		ts = lib.Spec(k)
	}
	f := lib.Field(lib.Word("field"), how == 0, ts)
	if how > 0 {
		f.Comment = "c"
	}
	td := lib.Type("X", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f, lib.Field("last", true, sadl.TypeSpec{Type: "Str"})}})
	if how == 2 {
		td.TypeSpec = sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: f.Name, Comment: f.Comment, TypeSpec: f.TypeSpec}, {Name: "last", TypeSpec: sadl.TypeSpec{Type: "Point"}}}}
	}
	m := again(schema(td))
	if m == nil {
		return
	}
	if got := typ(m, "X"); got != nil {
		spec(m, &got.TypeSpec, &td.TypeSpec)
	}
}

func V_items() {
	items := kind("items")
	rt.Assume(items != "Enum" && items != "Union")
	ts := sadl.TypeSpec{Type: "Array", Items: items}
	if rt.Choice("map", 2) == 1 {
		ts = sadl.TypeSpec{Type: "Map", Keys: []string{"String", "Str", "Colour"}[rt.Choice("keys", 3)], Items: items}
	}
	m := again(schema(lib.Type("X", ts)))
	if m == nil {
		return
	}
	if got := typ(m, "X"); got != nil {
		spec(m, &got.TypeSpec, &ts)
	}
}

// V_annotations: those that Smithy has a trait for
func V_annotations() {
	kinds := []sadl.TypeSpec{{Type: "Array", Items: "Str", MinSize: lib.I64(1)}, {Type: "String", Pattern: "a*"}, {Type: "String", Values: []string{"a", "b"}}, {Type: "Int8", Max: lib.Dec("3")}, {Type: "Map", Keys: "Str", Items: "Point"},
		{Type: "Bytes"}, {Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("a", true, sadl.TypeSpec{Type: "Str"})}}, {Type: "Enum", Elements: lib.Elements("a", "b")}, {Type: "Bool"}, {Type: "Timestamp"}, {Type: "UUID"}, {Type: "Any"}, {Type: "Decimal"}}
	ts := kinds[rt.Choice("kind", len(kinds))]
	td := lib.Type("X", ts)
	tag := rt.StrN("tag", 1, 2, "ab")
	td.Annotations = map[string]string{"x_tags": "t," + tag}
	switch rt.Choice("deprecated", 4) {
	case 1:
		td.Annotations["x_deprecated"] = "true"
	case 2:
		td.Annotations["x_deprecated"], td.Annotations["x_deprecated_message"] = "true", tag
	case 3:
		td.Annotations["x_deprecated"], td.Annotations["x_deprecated_message"], td.Annotations["x_deprecated_since"] = "true", "m", tag
	}
	if ts.Type == "Decimal" {
		td.Annotations["x_integer"] = "true"
	}
	if ts.Type == "Timestamp" && rt.Choice("format", 2) == 1 {
		td.Annotations["x_timestampFormat"] = "date-time"
	}
	unique := ts.Type == "Array" && rt.Choice("unique", 2) == 1
	if unique {
		td.Annotations["x_unique"] = "true"
	}
	m := again(schema(td))
	if m == nil {
		return
	}
	got := typ(m, "X")
	rt.Assert(got.Annotations["x_tags"] == "t,"+tag, "tags")
	rt.Assert(got.Annotations["x_unique"] == "true" == unique, "unique items")
	spec(m, &got.TypeSpec, &ts)
	for _, k := range []string{"x_deprecated", "x_deprecated_message", "x_deprecated_since", "x_integer", "x_timestampFormat"} {
		rt.Assert(got.Annotations[k] == td.Annotations[k], "deprecation, big integers and timestamp formats")
	}
	// values of enum elements
	value := rt.StrN("value", 1, 2, "ab")
	e := lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("a", "b")})
	e.Elements[1].Annotations = map[string]string{"x_enumValue": value}
	m = again(schema(e))
	if m != nil {
		spec(m, &typ(m, "E").TypeSpec, &e.TypeSpec)
	}
}

func V_actions() {
	v := rt.Choice("vary", 6)
	pick := func(at int, n string, k int) int { // one thing varies at a time
		if v == at {
			return rt.Choice(n, k)
		}
		return 0
	}
	flag := func(at int, n string) bool { return v == at && rt.Fork(rt.Bool(n)) }
	word := func(at int, n string, k int, abc string) string {
		if v == at {
			return rt.StrN(n, 1, k, abc)
		}
		return "A"
	}
	h := &sadl.HttpDef{Name: "do" + word(0, "name", 1, "ab"), Comment: []string{"", "it does"}[pick(0, "comment", 2)]}
	h.Method = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}[pick(0, "method", 7)]
	h.Path = "/p/" + word(5, "path", 2, "ab/")
	s := schema()
	s.Comment = []string{"", "about it"}[pick(0, "model comment", 2)]
	ins := 5 - pick(1, "inputs", 6)
	param := func(n string, ts sadl.TypeSpec) *sadl.HttpParamSpec {
		p := &sadl.HttpParamSpec{StructFieldDef: sadl.StructFieldDef{Name: n, TypeSpec: ts}}
		p.Comment = []string{"", "c " + n}[pick(2, n+" comment", 2)]
		return p
	}
	query := ""
	if ins > 0 {
		id := param("id", sadl.TypeSpec{Type: []string{"String", "Int32", "Str"}[pick(1, "type", 3)]})
		id.Path, id.Required = true, true
		h.Path += "/{id}"
		h.Inputs = append(h.Inputs, id)
	}
	if ins > 1 {
		p := param("q", sadl.TypeSpec{Type: "Array", Items: "Str"})
		p.Query = word(1, "query", 2, "ab")
		p.Required = flag(2, "required q")
		query = "?" + p.Query + "={q}"
		h.Inputs = append(h.Inputs, p)
	}
	if ins > 2 {
		p := param("hd", sadl.TypeSpec{Type: "Timestamp"})
		p.Header = "X-" + word(2, "header", 1, "AB")
		p.Required = flag(2, "required hd")
		h.Inputs = append(h.Inputs, p)
	}
	if ins > 3 {
		p := param("r", sadl.TypeSpec{Type: "Int8"})
		p.Query = "rr"
		query += "&rr={r}"
		h.Inputs = append(h.Inputs, p)
	}
	if ins > 4 {
		p := param("thing", sadl.TypeSpec{Type: "Point"})
		p.Required = flag(2, "required thing")
		h.Inputs = append(h.Inputs, p)
	}
	h.Path += query
	outs := 3 - pick(3, "outputs", 4)
	code := int32(200)
	if outs > 0 {
		code = 200
		if v == 3 {
			code = int32(200 + rt.Choice("status", 10))
		}
		h.Expected = &sadl.HttpExpectedSpec{Status: code}
	}
	if outs > 1 {
		p := param("result", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "Point"})
		p.Required = flag(3, "required result")
		h.Expected.Outputs = append(h.Expected.Outputs, p)
	}
	if outs > 2 {
		p := param("tag", sadl.TypeSpec{Type: "String"})
		p.Header = "X-" + word(3, "oheader", 1, "AB")
		p.Required = flag(3, "required tag")
		h.Expected.Outputs = append(h.Expected.Outputs, p)
	}
	if pick(4, "exceptions", 2) == 0 {
		s.Types = append(s.Types, lib.Type("Gone", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("at", false, sadl.TypeSpec{Type: "Timestamp"}), lib.Field("by", true, sadl.TypeSpec{Type: "Str"})}}))
		h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "Point", Status: 404}, {Type: "Gone", Status: 410}}
		if v == 4 {
			h.Exceptions[0].Status = int32(495 + rt.Choice("estatus", 10))
		}
	}
	s.Version = []string{"", "1.2"}[pick(4, "version", 2)]
	s.Http = []*sadl.HttpDef{h, {Name: "other", Method: "GET", Path: "/other"}}
	if v == 5 {
		h.Annotations = map[string]string{"x_tags": "a,b", "x_paginated": "inputToken=a,outputToken=" + []string{"", "b.c"}[pick(5, "token", 2)] + ",pageSize=,items=d"}
	}
	m := again(s)
	if m == nil {
		return
	}
	rt.Assert(m.Name == "Test" && m.Version == s.Version && m.Comment == s.Comment, "name, version and comment of the model")
	rt.Assert(len(m.Http) == 2 && m.Http[1].Name == "other" && m.Http[1].Method == "GET" && m.Http[1].Path == "/other" && len(m.Http[1].Inputs) == 0, "the actions in order")
	if len(m.Http) != 2 {
		return
	}
	g := m.Http[0]
	rt.Assert(g.Name == h.Name && g.Method == h.Method && g.Path == h.Path && g.Comment == h.Comment, "name, method, path and comment of the action")
	rt.Assert(g.Annotations["x_tags"] == h.Annotations["x_tags"], "tags of the action")
	rt.Assert(g.Annotations["x_paginated"] == h.Annotations["x_paginated"], "pagination of the action")
	rt.Assert(g.Expected != nil && g.Expected.Status == code, "expected status")
	params(m, g.Inputs, h.Inputs)
	if h.Expected == nil {
		params(m, g.Expected.Outputs, nil)
	} else {
		params(m, g.Expected.Outputs, h.Expected.Outputs)
	}
	rt.Assert(len(g.Exceptions) == len(h.Exceptions), "exceptions")
	for i, e := range h.Exceptions {
		rt.Assert(g.Exceptions[i].Type == e.Type && g.Exceptions[i].Status == e.Status, "type and status of the exception")
	}
	for _, td := range s.Types {
		if got := typ(m, td.Name); got != nil {
			spec(m, &got.TypeSpec, &td.TypeSpec)
		}
	}
}

func params(m *sadl.Model, got, want []*sadl.HttpParamSpec) {
	rt.Assert(len(got) == len(want), "number of parameters")
	for i, p := range want {
		if i < len(got) {
			g := got[i]
			rt.Assert(g.Name == p.Name && g.Comment == p.Comment && g.Required == p.Required, "name, comment and required of the parameter")
			rt.Assert(g.Path == p.Path && g.Query == p.Query && g.Header == p.Header, "place of the parameter")
			ref(m, &g.TypeSpec, &p.TypeSpec)
		}
	}
}

func V_operations() {
	op := &sadl.OperationDef{Name: "do" + lib.Word("name"), Comment: []string{"", "c"}[rt.Choice("comment", 2)]}
	ins, outs := rt.Choice("inputs", 3), rt.Choice("outputs", 3)
	for i := 0; i < ins; i++ {
		in := &sadl.OperationInput{}
		in.Name, in.TypeSpec, in.Required = []string{"a", "b"}[i], []sadl.TypeSpec{{Type: "Str"}, {Type: "Array", Items: "Point"}}[i], rt.Fork(rt.Bool("required"))
		in.Comment = []string{"", "first"}[i]
		op.Inputs = append(op.Inputs, in)
	}
	for i := 0; i < outs; i++ {
		op.Outputs = append(op.Outputs, &sadl.OperationOutput{Name: []string{"a", "b"}[i], Comment: []string{"", "second"}[i], TypeSpec: []sadl.TypeSpec{{Type: "Int64"}, {Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("z", true, sadl.TypeSpec{Type: "Bool"})}}}[i]})
	}
	if rt.Choice("exceptions", 2) == 1 {
		op.Exceptions = []string{"Point"}
	}
	s := schema()
	s.Operations = []*sadl.OperationDef{op}
	m := again(s)
	if m == nil {
		return
	}
	rt.Assert(len(m.Operations) == 1 && len(m.Http) == 0, "the operation")
	if len(m.Operations) != 1 {
		return
	}
	g := m.Operations[0]
	rt.Assert(g.Name == op.Name && g.Comment == op.Comment, "name and comment of the operation")
	rt.Assert(len(g.Inputs) == ins && len(g.Outputs) == outs, "number of inputs and outputs")
	rt.Assert(lib.SameTexts(g.Exceptions, op.Exceptions), "exceptions of the operation")
	for i, p := range op.Inputs {
		if i < len(g.Inputs) {
			q := g.Inputs[i]
			rt.Assert(q.Name == p.Name && q.Comment == p.Comment && q.Required == p.Required, "name, comment and required of the input")
			ref(m, &q.TypeSpec, &p.TypeSpec)
		}
	}
	for i, p := range op.Outputs {
		if i < len(g.Outputs) {
			q := g.Outputs[i]
			rt.Assert(q.Name == p.Name && q.Comment == p.Comment, "name and comment of the output")
			ref(m, &q.TypeSpec, &p.TypeSpec)
		}
	}
}

func V_examples() {
	p := &sadl.HttpParamSpec{Query: "q"}
	p.Name, p.Type = "q", "String"
	o := &sadl.HttpParamSpec{}
	o.Name, o.Type = "out", "Point"
	s := schema()
	s.Http = []*sadl.HttpDef{{Name: "get", Method: "GET", Path: "/a?q={q}", Inputs: []*sadl.HttpParamSpec{p},
		Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{o}}, Exceptions: []*sadl.HttpExceptionSpec{{Type: "Point", Status: 404}}}}
	n1, n2 := "n1", rt.StrN("n2", 1, 2, "abn")
	text := rt.StrN("value", 0, 2, "ab")
	req := map[string]interface{}{"q": text}
	point := map[string]interface{}{"x": float64(3)}
	s.Examples = []*sadl.ExampleDef{{Target: "GetRequest", Name: n1, Comment: "c", Example: req}, {Target: "GetRequest", Name: n2, Example: req}}
	answer := rt.Choice("answer", 3)
	switch answer {
	case 1:
		s.Examples = append(s.Examples, &sadl.ExampleDef{Target: "GetResponse", Name: n2, Example: map[string]interface{}{"out": point}})
	case 2:
		s.Examples = append(s.Examples, &sadl.ExampleDef{Target: "Point", Name: n2, Example: point})
	}
	m := again(s)
	if m == nil {
		return
	}
	rt.Assert(len(m.Examples) == len(s.Examples), "every example")
	for i, e := range s.Examples {
		if i < len(m.Examples) {
			g := m.Examples[i]
			rt.Assert(g.Target == e.Target && g.Name == e.Name && g.Comment == e.Comment, "target, name and comment of the example")
			v, ok := g.Example.(map[string]interface{})
			rt.Assert(ok && len(v) == 1, "value of the example")
			switch {
			case i < 2:
				rt.Assert(v["q"] == text, "value of the example")
			case answer == 1:
				w, ok := v["out"].(map[string]interface{})
				rt.Assert(ok && w["x"] == float64(3), "value of the example")
			default:
				rt.Assert(v["x"] == float64(3), "value of the example")
			}
		}
	}
}
