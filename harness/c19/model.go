package c19

import (
	"strings"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound objects with two properties with every subset of them required; maps and arrays with sizes; unions of up to 3 variants; actions with every method, up to 3 tags, two parameters, a body, two headers and two exceptions; titles, descriptions, licences and servers present or not

const id = "aB_"

func size(n string) uint64 { return []uint64{0, 1, 7}[rt.Choice(n, 3)] }

func maxSize(n string) *uint64 {
	if k := rt.Choice(n, 4); k > 0 {
		x := []uint64{0, 1, 7}[k-1]
		return &x
	}
	return nil
}

func sameSizes(ts *sadl.TypeSpec, min uint64, max *uint64) bool {
	if (ts.MinSize == nil) != (min == 0) || ts.MinSize != nil && uint64(*ts.MinSize) != min {
		return false
	}
	if max == nil {
		return ts.MaxSize == nil
	}
	return ts.MaxSize != nil && uint64(*ts.MaxSize) == *max
}

// simple is a schema of no parts, and the type it means
func simple(n string) (*openapi.Schema, string) {
	switch rt.Choice(n, 4) {
	case 0:
		return &openapi.Schema{Type: "boolean"}, "Bool"
	case 1:
		return &openapi.Schema{Type: "integer", Format: "int32"}, "Int32"
	case 2:
		return &openapi.Schema{Ref: "#/components/schemas/R_2"}, "R_2"
	}
	return &openapi.Schema{Type: "string", Format: "date-time"}, "Timestamp"
}

// what schemas with parts mean, as types and as fields
func V_Composite() {
	d := doc()
	var s *openapi.Schema
	var check func(ts *sadl.TypeSpec)
	switch rt.Choice("kind", 4) {
	case 0:
		f1 := rt.StrN("f1", 1, 2, id)
		f2 := rt.StrN("f2", 1, 2, id)
		rt.Assume(f1 < f2)
		s1, t1 := simple("s1")
		s2, t2 := simple("s2")
		s1.Description, s2.Description = "one", "two"
		s = &openapi.Schema{Type: []string{"object", ""}[rt.Choice("typed", 2)], Properties: map[string]*openapi.Schema{f1: s1, f2: s2}}
		r1, r2 := rt.Choice("r1", 2) == 1, rt.Choice("r2", 2) == 1
		if r2 {
			s.Required = append(s.Required, f2)
		}
		if r1 {
			s.Required = append(s.Required, f1)
		}
		if rt.Choice("other required", 2) == 1 {
			other := rt.StrN("other", 1, 2, "aAbB_")
			rt.Assume(other != f1 && other != f2)
			s.Required = append(s.Required, other)
		}
		check = func(ts *sadl.TypeSpec) {
			rt.Assert(ts.Type == "Struct" && len(ts.Fields) == 2, "an object is a struct with a field for each property")
			if len(ts.Fields) == 2 {
				a, b := ts.Fields[0], ts.Fields[1]
				rt.Assert(a.Name == f1 && b.Name == f2, "a field has the name of the property")
				rt.Assert(a.Type == t1 && b.Type == t2, "a field has the type the schema of the property means")
				rt.Assert(a.Required == r1 && b.Required == r2, "a field is required exactly when the property is")
				rt.Assert((a.Comment == "one" || t1 == "R_2") && (b.Comment == "two" || t2 == "R_2"), "a field has the description of the property")
			}
		}
	case 1:
		it, t := simple("items")
		s = &openapi.Schema{Type: "array", Items: it, MinItems: size("min"), MaxItems: maxSize("max")}
		check = func(ts *sadl.TypeSpec) {
			rt.Assert(ts.Type == "Array" && ts.Items == t, "an array has the items of the schema")
			rt.Assert(sameSizes(ts, s.MinItems, s.MaxItems), "an array has the sizes of the schema")
		}
	case 2:
		it, t := simple("values")
		s = &openapi.Schema{Type: "object", AdditionalProperties: it, MinProps: size("min"), MaxProps: maxSize("max")}
		check = func(ts *sadl.TypeSpec) {
			rt.Assert(ts.Type == "Map" && ts.Keys == "String" && ts.Items == t, "an object with additional properties is a map of them")
			rt.Assert(sameSizes(ts, s.MinProps, s.MaxProps), "a map has the sizes of the schema")
		}
	case 3:
		s = &openapi.Schema{}
		var names []string
		n := 1 + rt.Choice("variants", 3)
		for i := 0; i < n; i++ {
			v, t := simple("v" + string([]byte{byte('0' + i)}))
			s.OneOf = append(s.OneOf, v)
			names = append(names, t)
		}
		check = func(ts *sadl.TypeSpec) {
			rt.Assert(ts.Type == "Union" && len(ts.Variants) == n, "one of several schemas is a union of them")
			for i, v := range ts.Variants {
				rt.Assert(i >= n || v.Name == names[i] && v.Type == names[i], "a variant has the type its schema means, in order")
			}
		}
	}
	in := rt.Choice("in a field", 2) == 1
	if in {
		d.Components.Schemas["T_t"] = &openapi.Schema{Type: "object", Properties: map[string]*openapi.Schema{"fF_1": s}}
	} else {
		d.Components.Schemas["T_t"] = s
	}
	m, err := d.ToSadl("x")
	rt.Assert(err == nil && len(m.Types) == 1 && m.Types[0].Name == "T_t", "a schema is imported as the type of that name")
	if err != nil || len(m.Types) != 1 {
		return
	}
	rt.Reach("composite")
	ts := &m.Types[0].TypeSpec
	if in {
		rt.Assert(len(ts.Fields) == 1 && ts.Fields[0].Name == "fF_1", "a property is imported as the field of that name")
		if len(ts.Fields) != 1 {
			return
		}
		ts = &ts.Fields[0].TypeSpec
	}
	check(ts)
}

func limitOf(n string) *float64 {
	if k := rt.Choice(n, 4); k > 0 {
		x := []float64{0, -2, 9}[k-1]
		return &x
	}
	return nil
}

func sameLimit(d *sadl.Decimal, f *float64) bool {
	if d == nil || f == nil {
		return d == nil && f == nil
	}
	return d.AsFloat64() == *f
}

// limits of numbers
func V_Limits() {
	d := doc()
	s := &openapi.Schema{Type: []string{"integer", "number"}[rt.Choice("type", 2)], Min: limitOf("min"), Max: limitOf("max")}
	if rt.Choice("formatted", 2) == 1 {
		s.Format = map[string]string{"integer": "int16", "number": "double"}[s.Type]
	}
	d.Components.Schemas["T"] = s
	m, err := d.ToSadl("x")
	rt.Assert(err == nil && len(m.Types) == 1, "a schema is imported")
	if err != nil {
		return
	}
	rt.Reach("limits")
	rt.Assert(sameLimit(m.Types[0].Min, s.Min) && sameLimit(m.Types[0].Max, s.Max), "a number has the limits of the schema")
}

func ident(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
		if letter || c >= '0' && c <= '9' && r != "" {
			r += string([]byte{c})
		}
	}
	return r
}

var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"}

func put(p *openapi.PathItem, method string, op *openapi.Operation) {
	switch method {
	case "GET":
		p.Get = op
	case "PUT":
		p.Put = op
	case "POST":
		p.Post = op
	case "DELETE":
		p.Delete = op
	case "HEAD":
		p.Head = op
	case "PATCH":
		p.Patch = op
	case "OPTIONS":
		p.Options = op
	}
}

func imported(op *openapi.Operation, method, path string) *sadl.HttpDef {
	d := doc()
	pi := &openapi.PathItem{}
	put(pi, method, op)
	d.Paths[path] = pi
	m, err := d.ToSadl("x")
	rt.Assert(err == nil && len(m.Http) == 1, "an operation is imported as an action")
	if err != nil || len(m.Http) != 1 {
		return nil
	}
	h := m.Http[0]
	rt.Assert(h.Method == method && h.Name == op.OperationId && h.Comment == op.Summary, "an action has the method, name and summary of the operation")
	rt.Assert(len(m.Types) == 0 && len(m.Examples) == 0, "there are no other definitions")
	return h
}

// what an operation says about itself, and its body
func V_Action() {
	method := methods[rt.Choice("method", 7)]
	op := &openapi.Operation{OperationId: rt.StrN("name", 1, 2, id), Summary: rt.StrN("summary", 0, 2, "a \n"), Responses: map[string]*openapi.Response{"200": {Description: "ok"}}}
	for i := 0; i < 3; i++ {
		if rt.Choice("tags", 2) == 0 {
			break
		}
		op.Tags = append(op.Tags, rt.StrN("tag"+string([]byte{byte('0' + i)}), 1, 1, "aB-"))
	}
	s, t := simple("body")
	body := rt.Choice("with body", 2) == 1
	if body {
		op.RequestBody = &openapi.RequestBody{Description: rt.StrN("description", 0, 1, id), Required: rt.Bool("required"), Content: openapi.Content{"application/json": {Schema: s}}}
		if rt.Choice("also as text", 2) == 1 {
			op.RequestBody.Content["text/plain"] = &openapi.MediaType{Schema: &openapi.Schema{Type: "string"}}
		}
	}
	path := "/x" + rt.StrN("path", 0, 2, "/aB-")
	h := imported(op, method, path)
	if h == nil {
		return
	}
	rt.Reach("action")
	rt.Assert(h.Path == path, "an action has the path of the operation")
	switch len(op.Tags) {
	case 0:
		rt.Assert(h.Resource == "" && len(h.Annotations) == 0, "an operation without tags has no resource")
	case 1:
		rt.Assert(h.Resource == op.Tags[0] && len(h.Annotations) == 0, "the first tag is the resource")
	default:
		rt.Assert(h.Resource == op.Tags[0] && len(h.Annotations) == 1 && h.Annotations["x_tags"] == strings.Join(op.Tags[1:], ","), "the first tag is the resource, and the others are kept")
	}
	if body && (method == "PUT" || method == "POST" || method == "PATCH") {
		rt.Assert(len(h.Inputs) == 1, "a body is an input")
		if len(h.Inputs) == 1 {
			in := h.Inputs[0]
			rt.Assert(!in.Path && in.Query == "" && in.Header == "" && in.Name == "body" && in.Type == t, "a body is an input of the type its schema means")
			rt.Assert(rt.And(in.Required == op.RequestBody.Required, in.Comment == op.RequestBody.Description), "a body keeps its description and whether it is required")
		}
	} else {
		rt.Assert(len(h.Inputs) == 0, "there is no input that was not given")
	}
}

// several parameters
func V_Inputs() {
	op := &openapi.Operation{OperationId: "act", Responses: map[string]*openapi.Response{"200": {Description: "ok"}}}
	path, want := "/p", "/p"
	var queries []string
	var types []string
	for i := 0; i < 2; i++ {
		k := string([]byte{byte('0' + i)})
		name := rt.StrN("name"+k, 1, 2, "aB_-2")
		rt.Assume(name[0] != '-' && name[0] != '2')
		name = string([]byte{byte('y' + i)}) + name
		if rt.Choice("odd start"+k, 3) == 1 {
			name = "-2_" + name
		}
		p := &openapi.Parameter{Name: name, In: []string{"path", "query", "header"}[rt.Choice("in"+k, 3)], Required: rt.Bool("required" + k), Description: rt.StrN("description"+k, 0, 1, id)}
		var t string
		if rt.Choice("enum"+k, 3) == 1 {
			p.Schema, t = &openapi.Schema{Type: "string", Enum: []interface{}{"v_1", "W"}}, "enum"
		} else {
			p.Schema, t = simple("schema" + k)
		}
		types = append(types, t)
		switch p.In {
		case "path":
			path += "/{" + name + "}"
			want += "/{" + ident(name) + "}"
		case "query":
			queries = append(queries, name+"={"+ident(name)+"}")
		}
		op.Parameters = append(op.Parameters, p)
	}
	if len(queries) > 0 {
		want += "?" + strings.Join(queries, "&")
	}
	h := imported(op, "GET", path)
	if h == nil {
		return
	}
	rt.Reach("inputs")
	rt.Assert(h.Path == want, "an action has the path of the operation, with each query parameter in order")
	rt.Assert(len(h.Inputs) == 2, "every parameter is an input, in order")
	for i, in := range h.Inputs {
		if i > 1 {
			break
		}
		p := op.Parameters[i]
		rt.Assert(in.Name == ident(p.Name), "an input is named by the letters, digits and underscores of the parameter")
		rt.Assert(rt.And(in.Required == p.Required, in.Comment == p.Description, in.Path == (p.In == "path")), "an input is as the parameter is")
		rt.Assert(in.Query == map[string]string{"query": p.Name}[p.In] && in.Header == map[string]string{"header": p.Name}[p.In], "an input is in the place of the parameter")
		if types[i] == "enum" {
			rt.Assert(in.Type == "String" && len(in.Values) == 2 && in.Values[0] == "v_1" && in.Values[1] == "W" && len(in.Elements) == 0, "an enum parameter is a String with those values")
		} else {
			rt.Assert(in.Type == types[i], "an input has the type the schema means")
		}
	}
}

// the expected response and the exceptions
func V_Responses() {
	op := &openapi.Operation{OperationId: "act", Responses: map[string]*openapi.Response{}}
	k := rt.Choice("expected", 6)
	code := []string{"200", "201", "204", "304", "2XX", "default"}[k]
	want := []int32{200, 201, 204, 304, 200, 200}[k]
	r := &openapi.Response{Description: rt.StrN("description", 0, 1, id)}
	op.Responses[code] = r
	var headers []string
	hs, ht := simple("header")
	n := rt.Choice("headers", 3)
	if n > 0 {
		r.Headers = map[string]*openapi.Header{}
		h1 := []string{"X-Ab", "x-a_B", "xa", "Xyz-2", "Ab-C", "X_Y"}[rt.Choice("header name", 6)]
		headers = append(headers, h1)
		r.Headers[h1] = &openapi.Header{Description: "h", Schema: hs}
		if n > 1 {
			headers = append([]string{"A-1"}, headers...)
			r.Headers["A-1"] = &openapi.Header{Description: "h", Schema: hs}
		}
	}
	bs, bt := simple("body")
	body := rt.Choice("with body", 2) == 1
	if body {
		r.Content = openapi.Content{"application/json": {Schema: bs}}
	}
	var errs []string
	for _, c := range []string{"400", "404", "default"} {
		if c != code && rt.Choice("error "+c, 2) == 1 {
			errs = append(errs, c)
			op.Responses[c] = &openapi.Response{Description: "e" + c, Content: openapi.Content{"application/json": {Schema: &openapi.Schema{Ref: "#/components/schemas/E_" + c}}}}
		}
	}
	h := imported(op, "GET", "/x")
	if h == nil {
		return
	}
	rt.Reach("responses")
	e := h.Expected
	rt.Assert(e != nil && e.Status == want && e.Comment == r.Description, "the successful response is the expected one")
	if e == nil {
		return
	}
	outs := len(headers)
	if body {
		outs++
	}
	rt.Assert(len(e.Outputs) == outs, "there is an output for every header and the body")
	if len(e.Outputs) != outs {
		return
	}
	for i, name := range headers {
		o := e.Outputs[i]
		v := name
		if strings.HasPrefix(name, "X-") || strings.HasPrefix(name, "x-") {
			v = name[2:]
		}
		rt.Assert(o.Header == name && o.Name == ident(v) && o.Type == ht && o.Comment == "h", "a header is an output of the type its schema means")
	}
	if body {
		o := e.Outputs[outs-1]
		rt.Assert(o.Header == "" && o.Query == "" && !o.Path && o.Name == "body" && o.Type == bt, "the content of a response is an output of the type its schema means")
	}
	rt.Assert(len(h.Exceptions) == len(errs), "every other response is an exception")
	for i, x := range h.Exceptions {
		if i < len(errs) {
			rt.Assert(x.Type == "E_"+errs[i] && x.Comment == "e"+errs[i] && x.Status == map[string]int32{"400": 400, "404": 404, "default": 0}[errs[i]], "an exception has its status, type and description")
		}
	}
}

// several operations at one path and at others
func V_Paths() {
	d := doc()
	ok := map[string]*openapi.Response{"200": {Description: "ok"}}
	var want []string
	for _, p := range []string{"/a", "/a/b", "/B_"} {
		pi := &openapi.PathItem{}
		d.Paths[p] = pi
		for _, m := range []string{"GET", "PUT", "DELETE", "OPTIONS"} {
			if rt.Choice(p+m, 2) == 1 {
				put(pi, m, &openapi.Operation{OperationId: m + p, Responses: ok})
				want = append(want, m+p)
			}
		}
	}
	m, err := d.ToSadl("x")
	rt.Assert(err == nil && len(m.Http) == len(want), "every operation is an action")
	if err != nil {
		return
	}
	rt.Reach("paths")
	for _, h := range m.Http {
		rt.Assert(h.Name == h.Method+h.Path, "an action is the operation at its path and method")
	}
	for _, w := range want {
		rt.Assert(m.FindHttp(w) != nil, "every operation is an action")
	}
}

// what a document says about itself
func V_Info() {
	d := doc()
	d.OpenAPI = []string{"3.0.0", "3.0.3"}[rt.Choice("openapi", 2)]
	title := rt.StrN("title", 1, 2, "aB2 ")
	d.Info = &openapi.Info{Title: title, Description: rt.StrN("description", 0, 1, id), Version: rt.StrN("version", 1, 2, "1.")}
	lname, lurl, server := "", "", ""
	switch rt.Choice("license", 4) {
	case 1:
		lname = rt.StrN("license name", 1, 1, id)
	case 2:
		lurl = rt.StrN("license url", 1, 1, id)
	case 3:
		lname, lurl = "MIT", "u"
	}
	if lname+lurl != "" || rt.Choice("empty license", 2) == 1 {
		d.Info.License = &openapi.License{Name: lname, URL: lurl}
	}
	if rt.Choice("server", 2) == 1 {
		server = rt.StrN("server", 1, 1, id)
		d.Servers = []*openapi.Server{{URL: server}}
	}
	m, err := d.ToSadl("theName")
	rt.Assert(err == nil, "a document is imported")
	if err != nil {
		return
	}
	rt.Reach("info")
	symbol := title[0] != '2' && title[0] != ' ' && (len(title) < 2 || title[1] != ' ')
	switch {
	case symbol:
		rt.Assert(m.Name == title && m.Comment == d.Info.Description, "a title that is an identifier is the name")
	case d.Info.Description == "":
		rt.Assert(m.Name == "theName" && m.Comment == title, "any other title is the comment")
	default:
		rt.Assert(m.Name == "theName" && m.Comment == title+" - "+d.Info.Description, "any other title begins the comment")
	}
	rt.Assert(m.Version == d.Info.Version, "the version is kept")
	rt.Assert(m.Annotations["x_openapi_version"] == d.OpenAPI && m.Annotations["x_license_name"] == lname && m.Annotations["x_license_url"] == lurl && m.Annotations["x_server"] == server, "the licence and the server are kept")
	n := 1
	for _, s := range []string{lname, lurl, server} {
		if s != "" {
			n++
		}
	}
	rt.Assert(len(m.Annotations) == n, "there are no other annotations")
}
