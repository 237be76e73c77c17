package c19

import (
	"io/ioutil"
	"strings"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound schemas of every type and format OpenAPI has and of unknown types, nested up to 2 deep; references present, missing, chained and cyclic; up to 3 schemas, 3 fields
//verif:bound operations with up to 2 parameters in every place, symbolic parameter names of 1..3 characters, bodies and responses by reference, spelled out or absent; response codes symbolic among 2xx, 3xx, 4xx, default, wildcards and malformed ones
//verif:bound references to parameters, bodies, responses and headers, to what is defined, is not, or is something else
//verif:bound every order in which Go may iterate over maps of up to 3 entries
//verif:assume the document has no null members; schema names are identifiers that are not names of base types

const ab = "ab"

func doc() *openapi.Model {
	return &openapi.Model{OpenAPI: "3.0.0", Info: &openapi.Info{Title: "x", Version: "1"}, Paths: map[string]*openapi.PathItem{}, Components: &openapi.Components{Schemas: map[string]*openapi.Schema{}}}
}

var oasTypes = []string{"boolean", "string", "array", "number", "integer", "object", "", "null"}
var formats = []string{"", "int8", "int16", "int32", "int64", "float", "double", "uuid", "date-time", "byte", "email"}

// schema is a symbolic schema
func schema(n string, depth int) *openapi.Schema {
	s := &openapi.Schema{}
	k := rt.Choice(n, len(oasTypes)+1)
	if k == len(oasTypes) {
		s.Ref = "#/components/schemas/" + []string{"A", "B", "Z"}[rt.Choice(n+" ref", 3)]
		return s
	}
	s.Type = oasTypes[k]
	switch s.Type {
	case "string":
		if rt.Choice(n+" enum", 2) == 1 {
			s.Enum = []interface{}{"a", "b"}
			switch rt.Choice(n+" enum value", 3) {
			case 1:
				s.Enum = append(s.Enum, "c d")
			case 2:
				s.Enum = append(s.Enum, 5.0)
			}
		} else {
			s.Format = formats[rt.Choice(n+" format", len(formats))]
		}
	case "number", "integer":
		s.Format = formats[rt.Choice(n+" format", len(formats))]
	case "array":
		if depth > 0 && rt.Choice(n+" items", 2) == 1 {
			s.Items = schema(n+" item", depth-1)
		}
	case "object", "":
		if depth > 0 {
			switch rt.Choice(n+" form", 4) {
			case 1:
				s.Properties = map[string]*openapi.Schema{"f": schema(n+" f", depth-1)}
			case 2:
				s.AdditionalProperties = schema(n+" values", depth-1)
			case 3:
				s.OneOf = []*openapi.Schema{schema(n+" variant", depth-1)}
			}
		}
	}
	return s
}

// whatever the document says, the import gives a model or an error
func V_Schemas() {
	d := doc()
	if rt.Choice("components", 8) == 0 {
		d.Components = nil
	} else {
		depth := 1
		if rt.Thorough() {
			depth = 2
		}
		d.Components.Schemas["A"] = schema("A", depth)
		switch rt.Choice("B", 4) {
		case 0:
			d.Components.Schemas["B"] = &openapi.Schema{Ref: "#/components/schemas/A"}
		case 1:
			d.Components.Schemas["B"] = &openapi.Schema{Ref: "#/components/schemas/B"}
		case 2:
			d.Components.Schemas["B"] = &openapi.Schema{Type: "boolean"}
		}
	}
	rt.Reach("schemas")
	var m *sadl.Model
	var err error
	rt.Assert(!rt.Panics(func() { m, err = d.ToSadl("x") }), "importing never crashes")
	rt.Assert(err != nil || m != nil, "importing gives a model or an error")
	if err == nil && d.Components != nil {
		a := d.Components.Schemas["A"]
		rt.Assert(a.Type != "null", "a type that is not supported is an error")
		if a.Type == "array" && a.Items != nil {
			rt.Assert(a.Items.Type != "null", "a type that is not supported is an error")
		}
		for _, f := range a.Properties {
			rt.Assert(f.Type != "null", "a type that is not supported is an error")
		}
	}
}

var codes = []string{"200", "201", "204", "302", "404", "500", "default", "2XX", "4XX", "abc", ""}

func response(n string) *openapi.Response {
	r := &openapi.Response{Description: n}
	switch rt.Choice(n, 4) {
	case 1:
		r.Content = openapi.Content{"application/json": {Schema: &openapi.Schema{Ref: "#/components/schemas/A"}}}
	case 2:
		r.Content = openapi.Content{"application/json": {Schema: &openapi.Schema{Type: oasTypes[rt.Choice(n+" type", len(oasTypes))]}}}
	case 3:
		r.Content = openapi.Content{"application/json": {}, "text/plain": {}}
	}
	return r
}

func V_Operations() {
	d := doc()
	op := &openapi.Operation{OperationId: "act"}
	if rt.Choice("responses", 8) > 0 {
		op.Responses = map[string]*openapi.Response{codes[rt.Choice("code1", len(codes))]: response("r1")}
		if rt.Choice("second", 2) == 1 {
			op.Responses[codes[rt.Choice("code2", len(codes))]] = &openapi.Response{Description: "r2"}
		}
	}
	d.Paths["/x"] = &openapi.PathItem{Get: op}
	rt.Reach("operations")
	var m *sadl.Model
	var err error
	rt.Assert(!rt.Panics(func() { m, err = d.ToSadl("x") }), "importing never crashes")
	if err == nil {
		rt.Assert(m != nil && len(m.Http) == 1 && m.Http[0].Expected != nil, "an operation is imported with its expected response")
	}
}

func V_Parameters() {
	d := doc()
	op := &openapi.Operation{OperationId: "act", Responses: map[string]*openapi.Response{"200": {Description: "ok"}}}
	name := rt.StrN("name", 1, 3, "aB_-2.")
	rt.Assume(name[0] == 'a')
	p := &openapi.Parameter{Name: name, In: []string{"path", "query", "header", "cookie", "elsewhere"}[rt.Choice("in", 5)], Required: rt.Bool("required")}
	if rt.Choice("with schema", 4) > 0 {
		p.Schema = schema("s", 0)
	}
	op.Parameters = []*openapi.Parameter{p}
	path := "/x"
	if rt.Choice("in template", 2) == 1 {
		path = "/x/{" + name + "}/y"
	}
	d.Paths[path] = &openapi.PathItem{Get: op}
	var m *sadl.Model
	var err error
	rt.Assert(!rt.Panics(func() { m, err = d.ToSadl("x") }), "importing never crashes")
	rt.Reach("parameters")
	if p.In == "cookie" || p.In == "elsewhere" || p.Schema == nil || (p.In == "path" && path == "/x") || p.Schema.Type == "null" {
		rt.Assert(err != nil, "a parameter that cannot be imported is an error")
		return
	}
	if err != nil {
		return
	}
	// the identifier: the letters, digits and underscores of the name, in order
	want := ""
	for i := 0; i < len(name); i++ {
		if name[i] != '-' && name[i] != '.' {
			want += string([]byte{name[i]})
		}
	}
	rt.Assert(len(m.Http) == 1 && len(m.Http[0].Inputs) == 1, "a parameter is an input")
	in := m.Http[0].Inputs[0]
	rt.Assert(in.Name == want, "an input is named by the letters, digits and underscores of the parameter")
	rt.Assert(in.Required == p.Required, "an input is required when the parameter is")
	rt.Assert(in.Path == (p.In == "path"), "a path parameter is a path input")
	switch p.In {
	case "path":
		rt.Assert(m.Http[0].Path == "/x/{"+want+"}/y", "the path has the input in the place of the parameter")
	case "query":
		rt.Assert(in.Query == name && strings.HasSuffix(m.Http[0].Path, "?"+name+"={"+want+"}"), "a query parameter is a query input of that name")
	case "header":
		rt.Assert(in.Header == name, "a header parameter is a header input of that name")
	}
}

// parameters given for a whole path are inputs of each of its operations, unless the operation has its own
func V_SharedParameters() {
	d := doc()
	ok := map[string]*openapi.Response{"200": {Description: "ok"}}
	str := &openapi.Schema{Type: "string"}
	shared := []*openapi.Parameter{{Name: "a", In: "query", Schema: str}, {Name: rt.StrN("shared", 1, 1, "bc"), In: "header", Schema: str}}
	get := &openapi.Operation{OperationId: "get", Responses: ok}
	put := &openapi.Operation{OperationId: "put", Responses: ok}
	own := &openapi.Parameter{Name: rt.StrN("own", 1, 1, "abc"), In: []string{"query", "header"}[rt.Choice("in", 2)], Required: true, Schema: &openapi.Schema{Type: "boolean"}}
	if rt.Choice("with own", 2) == 1 {
		put.Parameters = []*openapi.Parameter{own}
	}
	d.Paths["/x"] = &openapi.PathItem{Get: get, Put: put, Parameters: shared}
	m, err := d.ToSadl("x")
	rt.Assert(err == nil && len(m.Http) == 2, "a document with shared parameters is imported")
	if err != nil {
		return
	}
	rt.Reach("shared")
	for _, h := range m.Http {
		n := 0
		for _, p := range shared {
			over := h.Name == "put" && len(put.Parameters) == 1 && p.Name == own.Name && p.In == own.In
			if over {
				continue
			}
			n++
			found := false
			for _, in := range h.Inputs {
				if (p.In == "query" && in.Query == p.Name) || (p.In == "header" && in.Header == p.Name) {
					found = true
					rt.Assert(in.Type == "String" && !in.Required, "a shared parameter is an input as given")
				}
			}
			rt.Assert(found, "a shared parameter is an input of each operation")
		}
		if h.Name == "put" {
			n += len(put.Parameters)
			for range put.Parameters {
				found := false
				for _, in := range h.Inputs {
					if (own.In == "query" && in.Query == own.Name) || (own.In == "header" && in.Header == own.Name) {
						found = in.Type == "Bool" && in.Required
					}
				}
				rt.Assert(found, "the parameter of an operation takes the place of a shared one")
			}
		}
		rt.Assert(len(h.Inputs) == n, "there are no other inputs")
	}
}

// a reference to a parameter, a body, a response or a header means what it refers to
func V_References() {
	str, num := &openapi.Schema{Type: "string"}, &openapi.Schema{Type: "integer", Format: "int32"}
	json := func(s *openapi.Schema) openapi.Content { return openapi.Content{"application/json": {Schema: s}} }
	params := map[string]*openapi.Parameter{"A": {Name: "q", In: "query", Required: true, Description: "pa", Schema: str}, "B": {Name: "H", In: "header", Schema: num}}
	bodies := map[string]*openapi.RequestBody{"A": {Description: "ba", Required: true, Content: json(str)}, "B": {Content: json(num)}}
	headers := map[string]*openapi.Header{"A": {Description: "ha", Schema: str}, "B": {Schema: num}}
	responses := map[string]*openapi.Response{"A": {Description: "ra", Content: json(str)}, "B": {Description: "rb", Headers: map[string]*openapi.Header{"X": headers["A"]}}}
	kinds := []string{"parameters", "parameters", "requestBodies", "responses", "headers"}
	k := rt.Choice("what", 5)
	name := []string{"A", "B", "C"}[rt.Choice("name", 3)]
	kind := append(kinds, "schemas")[rt.Choice("kind", 6)]
	known := name != "C" && kind == kinds[k]
	ref := "#/components/" + kind + "/" + name
	if rt.Choice("elsewhere", 4) == 1 {
		ref, known = "#/"+kind+"/"+name, false
	}
	bare := rt.Choice("no components", 4) == 1
	method := rt.Choice("method", 2)
	build := func(referred bool) *openapi.Model {
		d := doc()
		if bare {
			d.Components = nil
		} else {
			d.Components.Parameters, d.Components.RequestBodies, d.Components.Headers, d.Components.Responses = params, bodies, headers, responses
		}
		ok := &openapi.Response{Description: "ok"}
		op := &openapi.Operation{OperationId: "act", Responses: map[string]*openapi.Response{"200": ok}}
		pi := &openapi.PathItem{}
		if method == 0 {
			pi.Put = op
		} else {
			pi.Post = op
		}
		d.Paths["/x"] = pi
		p, b, r, h := &openapi.Parameter{Ref: ref}, &openapi.RequestBody{Ref: ref}, &openapi.Response{Ref: ref}, &openapi.Header{Ref: ref}
		if !referred {
			p, b, r, h = params[name], bodies[name], responses[name], headers[name]
		}
		switch k {
		case 0:
			op.Parameters = []*openapi.Parameter{{Name: "z", In: "query", Schema: num}, p}
		case 1:
			pi.Parameters = []*openapi.Parameter{p}
			op.Parameters = []*openapi.Parameter{{Name: "q", In: "query", Schema: num}}
		case 2:
			op.RequestBody = b
		case 3:
			op.Responses["200"] = r
		case 4:
			ok.Headers = map[string]*openapi.Header{"Y": h}
		}
		return d
	}
	var m *sadl.Model
	var err error
	rt.Assert(!rt.Panics(func() { m, err = build(true).ToSadl("x") }), "importing never crashes")
	rt.Reach("references")
	if !known || bare {
		rt.Assert(err != nil, "a reference to what is not defined is an error")
		return
	}
	want, err2 := build(false).ToSadl("x")
	rt.Assert(err == nil && err2 == nil, "a reference to what is defined is imported")
	if err == nil && err2 == nil {
		rt.Assert(sadl.Pretty(m.Http) == sadl.Pretty(want.Http), "a reference means what it refers to")
	}
}

// what each schema means
func V_Meaning() {
	d := doc()
	s := schema("T", 0)
	rt.Assume(s.Ref == "" && s.Type != "null")
	if s.Type == "string" {
		s.Pattern = rt.StrN("pattern", 0, 1, ab)
		s.MinLength = uint64(rt.Int64("min", 0, 99))
		if rt.Choice("max given", 2) == 1 {
			n := uint64(rt.Int64("max", 0, 99))
			s.MaxLength = &n
		}
	}
	if s.Type == "number" || s.Type == "integer" {
		if rt.Choice("min given", 2) == 1 {
			x := float64(-3)
			s.Min = &x
		}
		if rt.Choice("max given", 2) == 1 {
			x := float64(4)
			s.Max = &x
		}
	}
	s.Description = rt.StrN("description", 0, 1, ab)
	inField := rt.Choice("in a field", 2) == 1
	var ts *sadl.TypeSpec
	if inField {
		d.Components.Schemas["T"] = &openapi.Schema{Type: "object", Properties: map[string]*openapi.Schema{"f": s}}
	} else {
		d.Components.Schemas["T"] = s
	}
	m, err := d.ToSadl("x")
	bad := false
	for _, e := range s.Enum {
		if _, ok := e.(string); !ok {
			bad = true
		}
	}
	rt.Reach("meaning")
	if bad {
		rt.Assert(err != nil, "an enum with something else than text is an error")
		return
	}
	rt.Assert(err == nil && len(m.Types) == 1 && m.Types[0].Name == "T", "a schema is imported as the type of that name")
	if err != nil {
		return
	}
	ts = &m.Types[0].TypeSpec
	if inField {
		rt.Assert(len(ts.Fields) == 1 && ts.Fields[0].Name == "f" && ts.Fields[0].Comment == s.Description, "a property is imported as the field of that name")
		ts = &ts.Fields[0].TypeSpec
	} else {
		rt.Assert(m.Types[0].Comment == s.Description, "the description of a schema is the comment of the type")
	}
	want := "?"
	switch s.Type {
	case "boolean":
		want = "Bool"
	case "string":
		want = map[string]string{"uuid": "UUID", "date-time": "Timestamp", "byte": "Bytes"}[s.Format]
		if want == "" {
			want = "String"
		}
		if len(s.Enum) == 2 {
			want = "Enum"
		}
	case "integer":
		want = map[string]string{"int8": "Int8", "int16": "Int16", "int32": "Int32"}[s.Format]
		if want == "" {
			want = "Int64"
		}
	case "number":
		want = map[string]string{"float": "Float32", "double": "Float64"}[s.Format]
		if want == "" {
			want = "Decimal"
		}
	case "array":
		want = "Array"
	case "object":
		want = "Struct"
	case "":
		want = "Any"
	}
	rt.Assert(ts.Type == want, "a schema is imported as the type it means")
	if want == "Enum" {
		rt.Assert(len(ts.Elements) == 2 && ts.Elements[0].Symbol == "a" && ts.Elements[1].Symbol == "b", "an enum has the symbols of the schema")
	}
	if want == "String" {
		rt.Assert(len(ts.Values) == len(s.Enum), "a string has the values of the schema")
		rt.Assert(ts.Pattern == s.Pattern, "a string has the pattern of the schema")
		if ts.MinSize == nil {
			rt.Assert(s.MinLength == 0, "a string has the minimum length of the schema")
		} else {
			rt.Assert(uint64(*ts.MinSize) == s.MinLength, "a string has the minimum length of the schema")
		}
		if ts.MaxSize == nil || s.MaxLength == nil {
			rt.Assert(ts.MaxSize == nil && s.MaxLength == nil, "a string has the maximum length of the schema")
		} else {
			rt.Assert(uint64(*ts.MaxSize) == *s.MaxLength, "a string has the maximum length of the schema")
		}
	}
	if s.Type == "number" || s.Type == "integer" {
		rt.Assert((ts.Min != nil) == (s.Min != nil) && (ts.Max != nil) == (s.Max != nil), "a number has the limits of the schema")
		rt.Assert(ts.Min == nil || ts.Min.AsFloat64() == -3, "a number has the limits of the schema")
		rt.Assert(ts.Max == nil || ts.Max.AsFloat64() == 4, "a number has the limits of the schema")
	}
}

// an enum of symbols is an Enum, one of other texts a String with those values
func V_Enum() {
	d := doc()
	n := 1 + rt.Choice("values", 3)
	s := &openapi.Schema{Type: "string"}
	symbols := true
	var vals []string
	for i := 0; i < n; i++ {
		v := rt.StrN("v"+string([]byte{byte('0' + i)}), 0, 2, "a2 ")
		vals = append(vals, v)
		s.Enum = append(s.Enum, v)
		sym := len(v) > 0
		for j := 0; j < len(v); j++ {
			sym = rt.And(sym, rt.Or(v[j] == 'a', rt.And(v[j] == '2', j > 0)))
		}
		symbols = rt.And(symbols, sym)
	}
	d.Components.Schemas["T"] = s
	m, err := d.ToSadl("x")
	rt.Assert(err == nil && len(m.Types) == 1, "an enum is imported")
	if err != nil {
		return
	}
	rt.Reach("enum")
	ts := m.Types[0].TypeSpec
	if symbols {
		rt.Assert(ts.Type == "Enum" && len(ts.Elements) == n && len(ts.Values) == 0, "an enum of symbols is an Enum")
		for i, e := range ts.Elements {
			rt.Assert(i < n && e.Symbol == vals[i], "an enum has the symbols of the schema")
		}
	} else {
		rt.Assert(ts.Type == "String" && len(ts.Values) == n && len(ts.Elements) == 0, "an enum of other texts is a String with those values")
		for i, e := range ts.Values {
			rt.Assert(i < n && e == vals[i], "a String has the values of the schema")
		}
	}
}

// the same document always gives the same model
func V_Deterministic() {
	rt.MapOrder(true)
	build := func() *openapi.Model {
		d := doc()
		return d
	}
	d := build()
	part := rt.Choice("part", 4)
	switch part {
	case 0:
		for _, k := range []string{"A", "B", "C"} {
			d.Components.Schemas[k] = &openapi.Schema{Type: "boolean"}
		}
	case 1:
		d.Components.Schemas["A"] = &openapi.Schema{Type: "object", Required: []string{"g"}, Properties: map[string]*openapi.Schema{"f": {Type: "string"}, "g": {Type: "boolean"}, "h": {Type: "integer"}}}
	case 2:
		ok := &openapi.Response{Description: "ok"}
		d.Paths["/a"] = &openapi.PathItem{Get: &openapi.Operation{OperationId: "a", Responses: map[string]*openapi.Response{"200": ok}}}
		d.Paths["/b"] = &openapi.PathItem{Get: &openapi.Operation{OperationId: "b", Responses: map[string]*openapi.Response{"200": ok}}, Put: &openapi.Operation{OperationId: "c", Responses: map[string]*openapi.Response{"200": ok}}}
	case 3:
		d.Paths["/a"] = &openapi.PathItem{Get: &openapi.Operation{OperationId: "a", Responses: map[string]*openapi.Response{
			codes[rt.Choice("code1", 4)]: {Description: "one", Headers: map[string]*openapi.Header{"X": {Schema: &openapi.Schema{Type: "string"}}, "Y": {Schema: &openapi.Schema{Type: "string"}}}},
			"203":                        {Description: "two"},
			"404":                        {Description: "three"}}}}
	}
	m1, err1 := d.ToSadl("x")
	m2, err2 := d.ToSadl("x")
	rt.MapOrder(false)
	rt.Assert(err1 == nil && err2 == nil, "the document is imported")
	if err1 != nil || err2 != nil {
		return
	}
	rt.Reach("deterministic")
	same := len(m1.Types) == len(m2.Types) && len(m1.Http) == len(m2.Http)
	if same {
		for i := range m1.Types {
			a, b := m1.Types[i], m2.Types[i]
			same = same && a.Name == b.Name && len(a.Fields) == len(b.Fields)
			for j := range a.Fields {
				same = same && j < len(b.Fields) && a.Fields[j].Name == b.Fields[j].Name && a.Fields[j].Required == b.Fields[j].Required && a.Fields[j].Type == b.Fields[j].Type
			}
		}
		for i := range m1.Http {
			a, b := m1.Http[i], m2.Http[i]
			same = same && a.Name == b.Name && a.Expected.Status == b.Expected.Status && len(a.Exceptions) == len(b.Exceptions) && len(a.Expected.Outputs) == len(b.Expected.Outputs)
			for j := range a.Expected.Outputs {
				same = same && j < len(b.Expected.Outputs) && a.Expected.Outputs[j].Header == b.Expected.Outputs[j].Header
			}
			for j := range a.Exceptions {
				same = same && j < len(b.Exceptions) && a.Exceptions[j].Status == b.Exceptions[j].Status
			}
		}
	}
	rt.Assert(same, "the same document always gives the same model, in the same order")
	if part == 3 {
		want := int32(203)
		for k := range d.Paths["/a"].Get.Responses {
			if k == "200" || k == "201" {
				want = int32(200 + int(k[2]-'0'))
			}
		}
		rt.Assert(m1.Http[0].Expected.Status == want, "the expected response is the first successful one")
	}
}

// examples of an imported document are for something that exists
func V_Examples() {
	d := doc()
	ex := "v"
	withEx := func(s *openapi.Schema) *openapi.Schema { s.Example = ex; return s }
	str := func() *openapi.Schema { return withEx(&openapi.Schema{Type: "string"}) }
	want := 1
	switch rt.Choice("where", 8) {
	case 0:
		d.Components.Schemas["T"] = str()
	case 1:
		d.Components.Schemas["T"] = &openapi.Schema{Type: "object", Properties: map[string]*openapi.Schema{rt.StrN("f", 1, 1, ab): str()}}
	case 2:
		d.Components.Schemas["T"] = &openapi.Schema{Type: "array", Items: str()}
		want = 0
	case 3:
		d.Components.Schemas["T"] = &openapi.Schema{Type: "object", AdditionalProperties: str()}
		want = 0
	default:
		op := &openapi.Operation{OperationId: rt.StrN("op", 1, 2, ab), Responses: map[string]*openapi.Response{"200": {Description: "ok"}}}
		switch rt.Choice("in the operation", 4) {
		case 0:
			op.Parameters = []*openapi.Parameter{{Name: rt.StrN("p", 1, 1, ab), In: "query", Schema: str()}}
		case 1:
			op.RequestBody = &openapi.RequestBody{Content: openapi.Content{"application/json": {Schema: str()}}}
		case 2:
			op.Responses["200"].Content = openapi.Content{"application/json": {Schema: str()}}
		case 3:
			op.Responses["200"].Headers = map[string]*openapi.Header{"X-A": {Schema: str()}}
		}
		d.Paths["/x"] = &openapi.PathItem{Post: op}
	}
	other := doc()
	other.Components.Schemas["O"] = str()
	if rt.Choice("after another", 2) == 1 {
		_, err := other.ToSadl("other")
		rt.Assert(err == nil, "a document with examples is imported")
	}
	m, err := d.ToSadl("x")
	rt.Assert(err == nil, "a document with examples is imported")
	if err != nil {
		return
	}
	rt.Reach("examples")
	rt.Assert(len(m.Examples) == want, "an example is imported exactly when SADL can name what it is for")
	for _, e := range m.Examples {
		_, err := m.FindExampleType(e)
		rt.Assert(err == nil, "an imported example is for something that exists")
		rt.Assert(e.Example == interface{}(ex), "an imported example has the value of the document")
	}
}

// documents in files: what OpenAPI requires has to be there
func V_Load() {
	has := func(n string) bool { return rt.Choice(n, 2) == 1 }
	d := `{`
	ok := true
	add := func(c bool, text string) {
		if c {
			if len(d) > 1 {
				d += ","
			}
			d += text
		} else {
			ok = false
		}
	}
	add(has("openapi"), `"openapi":"3.0.0"`)
	info := has("info")
	title, version := has("title"), has("version")
	it := `"info":{`
	if title {
		it += `"title":"` + rt.StrN("title", 1, 1, ab) + `"`
	}
	if version {
		if title {
			it += ","
		}
		it += `"version":"1"`
	}
	add(info, it+"}")
	ok = ok && title && version
	path := rt.StrN("path", 1, 1, "/a") + "b"
	add(has("paths"), `"paths":{"`+path+`":{}}`)
	if ok && path[0] != '/' {
		ok = false
	}
	d += "}"
	file := rt.TempDir() + "/the.api.json"
	rt.Assert(ioutil.WriteFile(file, []byte(d), 0644) == nil, "the file is written")
	m, err := openapi.Import([]string{file}, sadl.NewData())
	rt.Reach("load")
	rt.Assert(rt.Iff(err == nil, ok), "a document is imported exactly when it has what OpenAPI requires")
	rt.Assert(openapi.IsValidFile(file) == ok, "a file is recognized exactly when it has what OpenAPI requires")
	if err == nil && ok {
		rt.Assert(m.Version == "1", "the version is that of the document")
	}
	_, err = openapi.Import([]string{file, file}, sadl.NewData())
	rt.Assert(err != nil, "only one document is imported")
	_, err = openapi.Import([]string{file + "x"}, sadl.NewData())
	rt.Assert(err != nil, "a missing document is an error")
}

var _ = lib.I64
