package c17

import (
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound types: every base type with its options (sizes 0..999, limits of 1 symbolic digit or -2.5, patterns of 1..2 letters, 1..2 values or elements of 1 letter), at the top level, as a field, an item, a map value, a variant, an input, an output and a header
//verif:bound actions: 1..2, each with any of the seven methods, up to 4 inputs and 2 outputs and 2 exceptions; names of 1..2 symbolic letters, statuses 200..209 and 400..404 symbolic, 100, 304, 404, 500, 599
//verif:assume sizes are not negative and the status of each response of an action is different
//verif:assume the names of fields, types and actions are different from each other

const ab = "aB_"

func export(s *sadl.Schema) (*sadl.Model, *openapi.Model, error) {
	m, err := sadl.NewModel(s)
	rt.Assert(err == nil, "the model is accepted")
	doc, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
	return m, doc, err
}

func size(n string) *int64 {
	if rt.Choice(n+" given", 2) == 0 {
		return nil
	}
	return lib.I64(rt.Int64(n, 0, 999))
}

func limit(n string) *sadl.Decimal {
	switch rt.Choice(n+" given", 3) {
	case 0:
		return nil
	case 1:
		return lib.Dec(string([]byte{byte('0' + rt.Dec(n, 1))}))
	}
	return lib.Dec("-2.5")
}

// spec is a type with symbolic options
func spec(n string, kind string) sadl.TypeSpec {
	ts := sadl.TypeSpec{Type: kind}
	switch kind {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		ts.Min, ts.Max = limit(n+" min"), limit(n+" max")
	case "String":
		ts.MinSize, ts.MaxSize = size(n+" minsize"), size(n+" maxsize")
		switch rt.Choice(n+" form", 3) {
		case 1:
			ts.Pattern = rt.StrN(n+" pattern", 1, 2, ab)
		case 2:
			ts.Values = []string{rt.StrN(n+" v1", 0, 1, ab), "c"}
		}
	case "Array":
		ts.Items = "Int16"
		ts.MinSize, ts.MaxSize = size(n+" minsize"), size(n+" maxsize")
	case "Map":
		ts.Keys, ts.Items = "String", "Bool"
		ts.MinSize, ts.MaxSize = size(n+" minsize"), size(n+" maxsize")
	case "Struct":
		ts.Fields = []*sadl.StructFieldDef{
			lib.Field(rt.StrN(n+" f1", 1, 1, ab), rt.Bool(n+" r1"), sadl.TypeSpec{Type: "Int64"}),
			lib.Field("c", rt.Bool(n+" r2"), sadl.TypeSpec{Type: "Float32"}),
		}
	case "Enum":
		ts.Elements = lib.Elements(rt.StrN(n+" e1", 1, 1, ab), "c")
	case "Union":
		ts.Variants = []*sadl.UnionVariantDef{
			{Name: "a", TypeSpec: sadl.TypeSpec{Type: "Int32"}},
			{Name: "b", TypeSpec: sadl.TypeSpec{Type: "String"}},
		}
	case "UnitValue":
		ts.Value, ts.Unit = "Decimal", "String"
	}
	return ts
}

const prefix = "#/components/schemas/"

func isBase(name string) bool {
	for _, b := range sadl.BaseTypes {
		if b == name {
			return true
		}
	}
	return false
}

func typedef(m *sadl.Model, name string) *sadl.TypeDef {
	for _, td := range m.Types {
		if td.Name == name {
			return td
		}
	}
	return nil
}

func sameSize(want *int64, zero bool, lo uint64, hi *uint64) bool {
	if zero {
		if want == nil {
			return lo == 0
		}
		return lo == uint64(*want)
	}
	if want == nil || hi == nil {
		return want == nil && hi == nil
	}
	return *hi == uint64(*want)
}

func sameLimit(want *sadl.Decimal, got *float64) bool {
	if want == nil || got == nil {
		return want == nil && got == nil
	}
	return *got == want.AsFloat64()
}

func sameEnum(got []interface{}, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	r := true
	for i, w := range want {
		s, ok := got[i].(string)
		if !ok {
			return false
		}
		r = rt.And(r, s == w)
	}
	return r
}

func named(m *sadl.Model, name string) *sadl.TypeSpec {
	if name == "" {
		return &sadl.TypeSpec{Type: "Any"}
	}
	return &sadl.TypeSpec{Type: name}
}

// describes is the reference: does the schema say about a value what the type says? A reference has to lead to the
// schema of the type of that name; whether a named type is referred to or spelled out is the exporter's choice.
func describes(m *sadl.Model, doc *openapi.Model, s *openapi.Schema, ts *sadl.TypeSpec) bool {
	if s == nil {
		return false
	}
	if s.Ref != "" {
		if isBase(ts.Type) {
			return false
		}
		defined := false
		for k := range doc.Components.Schemas {
			if k == ts.Type {
				defined = true
			}
		}
		return defined && s.Ref == prefix+ts.Type
	}
	if !isBase(ts.Type) {
		td := typedef(m, ts.Type)
		return td != nil && describes(m, doc, s, &td.TypeSpec)
	}
	kind := func(t string, formats ...string) bool {
		if s.Type != t {
			return false
		}
		for _, f := range formats {
			if f == s.Format {
				return true
			}
		}
		return len(formats) == 0
	}
	switch ts.Type {
	case "Any":
		return s.Type == "" && len(s.OneOf) == 0 && s.Properties == nil
	case "Bool":
		return kind("boolean")
	case "Int8", "Int16":
		return kind("integer", "int32", "int16", "int8") && rt.And(sameLimit(ts.Min, s.Min), sameLimit(ts.Max, s.Max))
	case "Int32":
		return kind("integer", "int32") && rt.And(sameLimit(ts.Min, s.Min), sameLimit(ts.Max, s.Max))
	case "Int64":
		return kind("integer", "int64") && rt.And(sameLimit(ts.Min, s.Min), sameLimit(ts.Max, s.Max))
	case "Float32":
		return kind("number", "float") && rt.And(sameLimit(ts.Min, s.Min), sameLimit(ts.Max, s.Max))
	case "Float64":
		return kind("number", "double") && rt.And(sameLimit(ts.Min, s.Min), sameLimit(ts.Max, s.Max))
	case "Decimal":
		return kind("number") && rt.And(sameLimit(ts.Min, s.Min), sameLimit(ts.Max, s.Max))
	case "Bytes":
		return kind("string", "byte")
	case "Timestamp":
		return kind("string", "date-time")
	case "UUID":
		return kind("string", "", "uuid")
	case "UnitValue":
		return kind("string", "")
	case "String":
		return kind("string", "") && rt.And(s.Pattern == ts.Pattern, sameEnum(s.Enum, ts.Values),
			sameSize(ts.MinSize, true, s.MinLength, nil), sameSize(ts.MaxSize, false, 0, s.MaxLength))
	case "Enum":
		var want []string
		for _, e := range ts.Elements {
			want = append(want, e.Symbol)
		}
		return kind("string", "") && sameEnum(s.Enum, want)
	case "Array":
		return kind("array") && describes(m, doc, s.Items, named(m, ts.Items)) &&
			rt.And(sameSize(ts.MinSize, true, s.MinItems, nil), sameSize(ts.MaxSize, false, 0, s.MaxItems))
	case "Map":
		it, ok := s.AdditionalProperties.(*openapi.Schema)
		return ok && kind("object") && describes(m, doc, it, named(m, ts.Items)) &&
			rt.And(sameSize(ts.MinSize, true, s.MinProps, nil), sameSize(ts.MaxSize, false, 0, s.MaxProps))
	case "Struct":
		if !kind("object") || len(s.Properties) != len(ts.Fields) {
			return false
		}
		n := 0
		r := true
		for _, f := range ts.Fields {
			p := s.Properties[f.Name]
			if !describes(m, doc, p, &f.TypeSpec) {
				return false
			}
			in := false
			for _, q := range s.Required {
				in = rt.Or(in, q == f.Name)
			}
			r = rt.And(r, rt.Iff(in, f.Required))
			if f.Required {
				n++
			}
		}
		return rt.And(r, len(s.Required) == n)
	case "Union":
		if len(s.OneOf) != len(ts.Variants) {
			return false
		}
		for i, v := range ts.Variants {
			if !describes(m, doc, s.OneOf[i], &v.TypeSpec) {
				return false
			}
		}
		return true
	}
	return false
}

func complete(m *sadl.Model, doc *openapi.Model) {
	rt.Assert(len(doc.Components.Schemas) == len(m.Types), "the document has a schema for every type and no other")
	for _, td := range m.Types {
		rt.Assert(describes(m, doc, doc.Components.Schemas[td.Name], &td.TypeSpec), "the schema of a type says what the type says, and refers only to schemas that exist")
	}
}

var exported = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Enum", "Union"}

// every type definition is described by the schema of that name
func V_TypeDefs() {
	kind := sadl.BaseTypes[rt.Choice("kind", len(sadl.BaseTypes))]
	td := lib.Type("T", spec("T", kind))
	td.Comment = rt.StrN("comment", 0, 1, ab)
	m, doc, err := export(&sadl.Schema{Name: "x", Types: []*sadl.TypeDef{td}})
	rt.Reach("typedef")
	known := false
	for _, e := range exported {
		known = known || e == kind
	}
	if err != nil {
		rt.Assert(!known, "a type that OpenAPI can describe is exported")
		return
	}
	complete(m, doc)
	s := doc.Components.Schemas["T"]
	rt.Assert(rt.Or(td.Comment == "", s.Description == td.Comment), "the comment of a type is its description")
}

// a type spelled out where it is used
func V_Inline() {
	kind := sadl.BaseTypes[rt.Choice("kind", len(sadl.BaseTypes))]
	ts := spec("T", kind)
	sc := &sadl.Schema{Name: "x"}
	switch rt.Choice("position", 3) {
	case 0:
		sc.Types = []*sadl.TypeDef{lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", rt.Bool("required"), ts)}})}
	case 1:
		sc.Http = []*sadl.HttpDef{{Name: "act", Method: "GET", Path: "/?q={f}", Inputs: []*sadl.HttpParamSpec{{Query: "q", StructFieldDef: *lib.Field("f", true, ts)}}}}
	case 2:
		sc.Types = []*sadl.TypeDef{lib.Type("S", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "v", TypeSpec: ts}}})}
	}
	m, doc, err := export(sc)
	rt.Reach("inline")
	rt.Assert(err == nil, "a type can be spelled out in every position")
	if err != nil {
		return
	}
	complete(m, doc)
	for _, h := range sc.Http {
		checkAction(m, doc, h)
	}
}

// a type used in any position, by name or spelled out
func V_Positions() {
	types := []*sadl.TypeDef{
		lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", true, sadl.TypeSpec{Type: "S"})}}),
		lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("x", "y")}),
		lib.Type("U", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "S", TypeSpec: sadl.TypeSpec{Type: "S"}}, {Name: "E", TypeSpec: sadl.TypeSpec{Type: "E"}}}}),
		lib.Type("N", sadl.TypeSpec{Type: "String", Pattern: "p", Values: []string{"p"}, MaxSize: lib.I64(3)}),
		lib.Type("D", sadl.TypeSpec{Type: "Float64", Min: lib.Dec("1.5")}),
		lib.Type("I", sadl.TypeSpec{Type: "UUID"}),
		lib.Type("A", sadl.TypeSpec{Type: "Array", Items: "A", MaxSize: lib.I64(9)}),
		lib.Type("M", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "E"}),
	}
	k := rt.Choice("type", len(types)+len(sadl.BaseTypes))
	var ts sadl.TypeSpec
	if k < len(types) {
		ts = sadl.TypeSpec{Type: types[k].Name}
	} else {
		kind := sadl.BaseTypes[k-len(types)]
		ts = sadl.TypeSpec{Type: kind}
		switch kind {
		case "Array", "Map":
			ts.Items, ts.Keys = "Any", "String"
		case "UnitValue":
			ts.Value, ts.Unit = "Decimal", "String"
		}
	}
	sc := &sadl.Schema{Name: "x", Types: types}
	var action *sadl.HttpDef
	switch rt.Choice("position", 7) {
	case 0: // a field
		sc.Types = append(types, lib.Type("T", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", false, ts), lib.Field("g", false, sadl.TypeSpec{Type: "Array", Items: ts.Type}), lib.Field("h", false, sadl.TypeSpec{Type: "Map", Keys: "String", Items: ts.Type})}}))
	case 1: // an item
		sc.Types = append(types, lib.Type("T", sadl.TypeSpec{Type: "Array", Items: ts.Type}))
	case 2:
		sc.Types = append(types, lib.Type("T", sadl.TypeSpec{Type: "Map", Keys: "String", Items: ts.Type}))
	case 3:
		sc.Types = append(types, lib.Type("T", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: ts.Type, TypeSpec: ts}, {Name: "S", TypeSpec: sadl.TypeSpec{Type: "S"}}}}))
	case 4:
		action = &sadl.HttpDef{Name: "act", Method: "POST", Path: "/", Inputs: []*sadl.HttpParamSpec{{StructFieldDef: *lib.Field("body", true, ts)}}}
	case 5:
		action = &sadl.HttpDef{Name: "act", Method: "GET", Path: "/", Inputs: []*sadl.HttpParamSpec{{Header: "h", StructFieldDef: *lib.Field("hh", true, ts)}}}
	case 6:
		action = &sadl.HttpDef{Name: "act", Method: "GET", Path: "/", Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{{StructFieldDef: *lib.Field("body", true, ts)}, {Header: "h", StructFieldDef: *lib.Field("hh", true, ts)}}}}
	}
	if action != nil {
		sc.Http = []*sadl.HttpDef{action}
	}
	m, doc, err := export(sc)
	rt.Reach("position")
	rt.Assert(err == nil, "a type can be used in every position")
	if err != nil {
		return
	}
	complete(m, doc)
	if action != nil {
		checkAction(m, doc, action)
	}
}

func operations(p *openapi.PathItem) map[string]*openapi.Operation {
	if p == nil {
		return nil
	}
	return map[string]*openapi.Operation{"GET": p.Get, "PUT": p.Put, "POST": p.Post, "DELETE": p.Delete, "PATCH": p.Patch, "HEAD": p.Head, "OPTIONS": p.Options}
}

func status(n int32) string {
	return string([]byte{byte('0' + n/100), byte('0' + n/10%10), byte('0' + n%10)})
}

func media(c openapi.Content) *openapi.Schema {
	if c == nil || c["application/json"] == nil {
		return nil
	}
	return c["application/json"].Schema
}

func template(m *sadl.Model, h *sadl.HttpDef) string {
	p := m.Base + h.Path
	for i := 0; i < len(p); i++ {
		if p[i] == '?' {
			return p[:i]
		}
	}
	return p
}

// checkAction: the action is in the document, at its path and method, with its inputs, outputs and exceptions
func checkAction(m *sadl.Model, doc *openapi.Model, h *sadl.HttpDef) {
	op := operations(doc.Paths[template(m, h)])[h.Method]
	rt.Assert(op != nil, "an action is found at its path and method")
	if op == nil {
		return
	}
	rt.Assert(op.OperationId == h.Name, "an action keeps its name")
	rt.Assert(op.Summary == h.Comment, "the comment of an action is its summary")
	rt.Assert(h.Resource == "" || (len(op.Tags) > 0 && op.Tags[0] == h.Resource), "the first tag of an action is its resource")
	n := 0
	body := false
	for _, in := range h.Inputs {
		where, name := "", ""
		required := in.Required
		switch {
		case in.Path:
			where, name, required = "path", in.Name, true
		case in.Query != "":
			where, name = "query", in.Query
		case in.Header != "":
			where, name = "header", in.Header
		default:
			body = true
			rt.Assert(op.RequestBody != nil && describes(m, doc, media(op.RequestBody.Content), &in.TypeSpec), "the body of an action is its request body")
			continue
		}
		found := false
		for _, p := range op.Parameters {
			if p.In == where && p.Name == name {
				found = true
				rt.Assert(p.Required == required, "a parameter is required exactly when the input is, or is in the path")
				rt.Assert(p.Description == in.Comment, "the comment of an input is its description")
				rt.Assert(describes(m, doc, p.Schema, &in.TypeSpec), "a parameter has the type of the input")
			}
		}
		rt.Assert(found, "an input is the parameter of that name, in the path, query or header")
		n++
	}
	rt.Assert(len(op.Parameters) == n, "there are no other parameters")
	rt.Assert(body || op.RequestBody == nil, "there is no other body")
	exp := h.Expected
	if exp == nil {
		exp = &sadl.HttpExpectedSpec{Status: 200}
	}
	rt.Assert(len(op.Responses) == 1+len(h.Exceptions), "there is a response for the expected status and for each exception")
	resp := op.Responses[status(exp.Status)]
	rt.Assert(resp != nil, "the expected status has a response")
	if resp != nil {
		nh := 0
		hasBody := false
		for _, out := range exp.Outputs {
			if out.Header != "" {
				nh++
				hd := resp.Headers[out.Header]
				rt.Assert(hd != nil && describes(m, doc, hd.Schema, &out.TypeSpec), "an output header is a header of the response")
			} else {
				hasBody = true
				rt.Assert(describes(m, doc, media(resp.Content), &out.TypeSpec), "the output is the content of the response")
			}
		}
		rt.Assert(len(resp.Headers) == nh, "there are no other headers")
		rt.Assert(hasBody || len(resp.Content) == 0, "there is no other content")
	}
	for _, e := range h.Exceptions {
		key := "default"
		if e.Status != 0 {
			key = status(e.Status)
		}
		r := op.Responses[key]
		rt.Assert(r != nil && describes(m, doc, media(r.Content), &sadl.TypeSpec{Type: e.Type}), "an exception is the response of its status")
	}
}

var methods = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}

func actionTypes() []*sadl.TypeDef {
	return []*sadl.TypeDef{
		lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", true, sadl.TypeSpec{Type: "Int8"})}}),
		lib.Type("X", sadl.TypeSpec{Type: "Struct"}),
		lib.Type("Y", sadl.TypeSpec{Type: "Struct"}),
	}
}

func oneAction(sc *sadl.Schema, h *sadl.HttpDef) {
	sc.Name, sc.Types, sc.Http = "x", actionTypes(), []*sadl.HttpDef{h}
	m, doc, err := export(sc)
	rt.Assert(err == nil, "an action is exported")
	if err != nil {
		return
	}
	rt.Reach("action")
	complete(m, doc)
	rt.Assert(len(doc.Paths) == 1, "there are no other paths")
	checkAction(m, doc, h)
}

// what goes into an action
func V_Inputs() {
	h := &sadl.HttpDef{Name: rt.StrN("name", 1, 1, ab), Method: methods[rt.Choice("method", 7)]}
	id := rt.StrN("path param", 1, 1, ab)
	h.Path = "/x/{" + id + "}"
	h.Inputs = []*sadl.HttpParamSpec{{Path: true, StructFieldDef: *lib.Field(id, rt.Bool("path required"), sadl.TypeSpec{Type: "String"})}}
	if rt.Choice("with query", 2) == 1 {
		q := rt.StrN("query", 1, 1, "cD")
		h.Path += "?" + q + "={c}"
		in := &sadl.HttpParamSpec{Query: q, StructFieldDef: *lib.Field("c", rt.Bool("query required"), sadl.TypeSpec{Type: "Int32"})}
		in.Comment = rt.StrN("query comment", 0, 1, ab)
		if rt.Choice("query default", 2) == 1 {
			in.Default = lib.Dec("3")
		}
		h.Inputs = append(h.Inputs, in)
	}
	if rt.Choice("with header", 2) == 1 {
		h.Inputs = append(h.Inputs, &sadl.HttpParamSpec{Header: rt.StrN("header", 1, 2, "AB"), StructFieldDef: *lib.Field("d", rt.Bool("header required"), sadl.TypeSpec{Type: "S"})})
		if rt.Choice("header default", 2) == 1 {
			h.Inputs[len(h.Inputs)-1].Default = map[string]interface{}{}
		}
	}
	if rt.Choice("with body", 2) == 1 {
		h.Inputs = append(h.Inputs, &sadl.HttpParamSpec{StructFieldDef: *lib.Field(rt.StrN("body", 1, 1, "ef"), true, sadl.TypeSpec{Type: "S"})})
	}
	sc := &sadl.Schema{}
	if rt.Choice("base", 2) == 1 {
		sc.Base = "/" + rt.StrN("base", 1, 1, ab)
	}
	oneAction(sc, h)
}

// what comes out of an action
func V_Responses() {
	h := &sadl.HttpDef{Name: "act", Method: methods[rt.Choice("method", 7)], Path: "/", Comment: rt.StrN("comment", 0, 1, ab), Resource: rt.StrN("resource", 0, 1, ab)}
	es := int32(200)
	if rt.Choice("with expect", 2) == 1 {
		if rt.Choice("which status", 2) == 0 {
			es = rt.Int32("status", 200, 209)
		} else {
			es = []int32{304, 599, 100}[rt.Choice("far status", 3)]
		}
		h.Expected = &sadl.HttpExpectedSpec{Status: es}
		if rt.Choice("with output", 2) == 1 {
			h.Expected.Outputs = append(h.Expected.Outputs, &sadl.HttpParamSpec{StructFieldDef: *lib.Field("o", true, sadl.TypeSpec{Type: "S"})})
		}
		if rt.Choice("with out header", 2) == 1 {
			h.Expected.Outputs = append(h.Expected.Outputs, &sadl.HttpParamSpec{Header: rt.StrN("out header", 1, 1, "AB"), StructFieldDef: *lib.Field("p", true, sadl.TypeSpec{Type: "String"})})
		}
	}
	switch rt.Choice("exceptions", 3) {
	case 1:
		s1 := []int32{201, 404, 500}[rt.Choice("exception", 3)]
		rt.Assume(s1 != es)
		h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "X", Status: s1}, {Type: "Y"}}
	case 2:
		s1, s2 := rt.Int32("exception1", 400, 404), rt.Int32("exception2", 400, 404)
		rt.Assume(s1 != s2)
		h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "X", Status: s1}, {Type: "Y", Status: s2}}
	}
	oneAction(&sadl.Schema{}, h)
}

// two actions that may share a path
func V_TwoActions() {
	p1, p2 := "/"+rt.StrN("path1", 0, 1, ab), "/"+rt.StrN("path2", 0, 1, ab)
	m1, m2 := methods[rt.Choice("method1", 7)], methods[rt.Choice("method2", 7)]
	h1 := &sadl.HttpDef{Name: "one", Method: m1, Path: p1, Expected: &sadl.HttpExpectedSpec{Status: 200}}
	h2 := &sadl.HttpDef{Name: "two", Method: m2, Path: p2, Expected: &sadl.HttpExpectedSpec{Status: 201}}
	m, doc, err := export(&sadl.Schema{Name: "x", Http: []*sadl.HttpDef{h1, h2}})
	rt.Reach("two")
	if rt.And(p1 == p2, m1 == m2) {
		rt.Assert(err != nil, "two actions at one path and method are refused")
		return
	}
	rt.Assert(err == nil, "actions that differ in path or method are exported")
	if err != nil {
		return
	}
	checkAction(m, doc, h1)
	checkAction(m, doc, h2)
}

func sameExample(got interface{}, examples map[string]*openapi.Example, name string, want interface{}) bool {
	if name == "" {
		return got == want && len(examples) == 0
	}
	return got == nil && len(examples) == 1 && examples[name] != nil && examples[name].Value == want
}

// examples go to the type, parameter or body they are for
func V_Examples() {
	types := []*sadl.TypeDef{
		lib.Type("N", sadl.TypeSpec{Type: "String"}),
		lib.Type("O", sadl.TypeSpec{Type: "Int8"}),
	}
	get := &sadl.HttpDef{Name: "getN", Method: "GET", Path: "/n/{id}?q={qq}", Inputs: []*sadl.HttpParamSpec{
		{Path: true, StructFieldDef: *lib.Field("id", true, sadl.TypeSpec{Type: "String"})},
		{Query: rt.StrN("query", 1, 1, "qr"), StructFieldDef: *lib.Field("qq", false, sadl.TypeSpec{Type: "String"})},
		{Header: "X-H", StructFieldDef: *lib.Field("hh", false, sadl.TypeSpec{Type: "String"})},
	}, Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{
		{StructFieldDef: *lib.Field(rt.StrN("output", 1, 1, "be"), true, sadl.TypeSpec{Type: "N"})},
		{Header: "X-O", StructFieldDef: *lib.Field("id", true, sadl.TypeSpec{Type: "N"})}}}}
	put := &sadl.HttpDef{Name: "putN", Method: methods[1+rt.Choice("method", 5)], Path: "/n/{id}?q={qq}", Inputs: []*sadl.HttpParamSpec{
		{StructFieldDef: *lib.Field(rt.StrN("body", 1, 1, "bc"), true, sadl.TypeSpec{Type: "N"})},
	}, Expected: &sadl.HttpExpectedSpec{Status: 201, Outputs: []*sadl.HttpParamSpec{{StructFieldDef: *lib.Field("b", true, sadl.TypeSpec{Type: "O"})}}}}
	name := rt.StrN("example name", 0, 1, "xy")
	ex := &sadl.ExampleDef{Name: name}
	k := rt.Choice("target", 5)
	v := "the value"
	switch k {
	case 0:
		ex.Target, ex.Example = "N", v
	case 1:
		ex.Target, ex.Example = "GetNRequest", map[string]interface{}{get.Inputs[rt.Choice("member", 3)].Name: v}
	case 2:
		ex.Target, ex.Example = "PutNRequest", map[string]interface{}{put.Inputs[0].Name: v}
	case 3:
		ex.Target, ex.Example = "GetNResponse", map[string]interface{}{get.Expected.Outputs[rt.Choice("member", 2)].Name: v}
	case 4:
		ex.Target, ex.Example = "PutNResponse", map[string]interface{}{"b": v}
	}
	_, doc, err := export(&sadl.Schema{Name: "x", Types: types, Http: []*sadl.HttpDef{get, put}, Examples: []*sadl.ExampleDef{ex}})
	rt.Assert(err == nil, "a model with examples is exported")
	if err != nil {
		return
	}
	rt.Reach("example")
	want := map[string]interface{}{"": v}
	none := map[string]interface{}{}
	pick := func(c bool) map[string]interface{} {
		if c {
			return want
		}
		return none
	}
	check := func(c bool, got interface{}, examples map[string]*openapi.Example, label string) {
		if len(pick(c)) > 0 {
			rt.Assert(sameExample(got, examples, name, v), label)
		} else {
			rt.Assert(got == nil && len(examples) == 0, "an example goes nowhere else")
		}
	}
	if k == 0 {
		rt.Assert(doc.Components.Schemas["N"].Example == interface{}(v), "an example of a type goes to its schema")
	} else {
		rt.Assert(doc.Components.Schemas["N"].Example == nil, "an example goes nowhere else")
	}
	rt.Assert(doc.Components.Schemas["O"].Example == nil, "an example goes nowhere else")
	g := operations(doc.Paths["/n/{id}"])["GET"]
	p := operations(doc.Paths["/n/{id}"])[put.Method]
	if g == nil || p == nil || len(g.Parameters) != 3 || p.RequestBody == nil {
		rt.Assert(false, "the actions are exported")
		return
	}
	ms, _ := ex.Example.(map[string]interface{})
	has := func(n string) bool {
		for x := range ms {
			if x == n {
				return true
			}
		}
		return false
	}
	for _, par := range g.Parameters {
		in := "id"
		if par.In == "query" {
			in = "qq"
		} else if par.In == "header" {
			in = "hh"
		}
		check(k == 1 && has(in), par.Example, par.Examples, "an example of an input goes to its parameter")
	}
	mt := p.RequestBody.Content["application/json"]
	check(k == 2, mt.Example, mt.Examples, "an example of the body goes to the request body")
	mt = g.Responses["200"].Content["application/json"]
	check(k == 3 && has(get.Expected.Outputs[0].Name), mt.Example, mt.Examples, "an example of the output goes to the response")
	mt = p.Responses["201"].Content["application/json"]
	check(k == 4, mt.Example, mt.Examples, "an example of the output goes to the response")
}

// what the document says about the service itself
func V_Info() {
	sc := &sadl.Schema{Name: rt.StrN("name", 1, 1, ab), Comment: rt.StrN("comment", 0, 1, ab), Version: rt.StrN("version", 0, 1, "12")}
	server, lname, lurl := "", "", ""
	if rt.Choice("annotated", 2) == 1 {
		sc.Annotations = map[string]string{}
		if rt.Choice("server", 2) == 1 {
			server = rt.StrN("server", 1, 1, ab)
			sc.Annotations["x_server"] = server
		}
		if rt.Choice("license", 2) == 1 {
			lname = rt.StrN("license", 1, 1, ab)
			sc.Annotations["x_license_name"] = lname
		}
		if rt.Choice("license url", 2) == 1 {
			lurl = rt.StrN("license url", 1, 1, ab)
			sc.Annotations["x_license_url"] = lurl
		}
	}
	_, doc, err := export(sc)
	rt.Assert(err == nil && doc.Info != nil, "a service is exported")
	if err != nil {
		return
	}
	rt.Reach("info")
	rt.Assert(doc.Info.Title == sc.Name, "the title is the name of the service")
	rt.Assert(doc.Info.Description == sc.Comment, "the description is the comment of the service")
	if sc.Version == "" {
		rt.Assert(doc.Info.Version != "", "a document has a version")
	} else {
		rt.Assert(doc.Info.Version == sc.Version, "the version is that of the service")
	}
	found := server == ""
	for _, s := range doc.Servers {
		if s.URL == server {
			found = true
		}
	}
	rt.Assert(found, "the server is listed")
	if lname == "" && lurl == "" {
		rt.Assert(doc.Info.License == nil, "there is no licence that was not given")
	} else {
		rt.Assert(doc.Info.License != nil && doc.Info.License.Name == lname && doc.Info.License.URL == lurl, "the licence is kept")
	}
}
