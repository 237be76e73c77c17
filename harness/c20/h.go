package c20

import (
	"io/ioutil"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound JSON documents in files; definitions of every Swagger type, format, with sizes and limits of 0 or 7, values, items and references; operations with every method, parameters in every place with every type, body, responses with headers and schemas; consumes and produces given for the document, the operation, both or neither
//verif:bound references to parameters and responses, shared or not, to what is defined or is not
//verif:bound names of 1..2 symbolic letters
//verif:assume the document has no null members

const ab = "aB_"

func load(text string) (*openapi.Model, error) {
	file := rt.TempDir() + "/doc.json"
	rt.Assert(ioutil.WriteFile(file, []byte(text), 0644) == nil, "the file is written")
	var m *openapi.Model
	var err error
	rt.Assert(!rt.Panics(func() { m, err = openapi.LoadSwagger(file) }), "loading never crashes")
	return m, err
}

func head() string { return `{"swagger":"2.0","info":{"title":"x","version":"1"}` }

type want struct {
	text     string
	typ      string
	format   string
	ref      string
	pattern  string
	min, max int // -1 not given
	enum     []string
	items    *want
	values   *want
	props    map[string]*want
	required string
	least    *float64
	most     *float64
}

func digit(n string) int { return []int{0, 7}[rt.Choice(n+" digit", 2)] }

func d2s(d int) string { return string([]byte{byte('0' + d)}) }

var formats = []string{"int32", "int64", "float", "double", "uuid", "date-time", "byte", "other"}

// schema makes a Swagger schema and what is expected of it
func schema(n string, depth int) *want {
	w := &want{min: -1, max: -1}
	add := func(s string) {
		if w.text != "" {
			w.text += ","
		}
		w.text += s
	}
	opt := func(name, key string, p *int) {
		if rt.Choice(n+" "+name, 2) == 1 {
			d := digit(n + " " + name)
			*p = d
			add(`"` + key + `":` + d2s(d))
		}
	}
	kinds := 5
	if depth > 0 {
		kinds = 11
	}
	k := rt.Choice(n, kinds)
	switch k {
	case 0:
		w.typ = "boolean"
	case 1:
		w.typ = []string{"integer", "number"}[rt.Choice(n+" number", 2)]
		if rt.Choice(n+" formatted", 2) == 1 {
			w.format = formats[rt.Choice(n+" format", 4)]
			add(`"format":"` + w.format + `"`)
		}
		w.least, w.most = bound(n+" minimum", "minimum", add), bound(n+" maximum", "maximum", add)
	case 2:
		w.typ = "string"
		if rt.Choice(n+" formatted", 2) == 1 {
			w.format = formats[4+rt.Choice(n+" format", 4)]
			add(`"format":"` + w.format + `"`)
		}
		opt("minLength", "minLength", &w.min)
		opt("maxLength", "maxLength", &w.max)
		if rt.Choice(n+" pattern", 2) == 1 {
			w.pattern = rt.StrN(n+" pattern", 1, 1, ab)
			add(`"pattern":"` + w.pattern + `"`)
		}
	case 3:
		w.typ = "string"
		w.enum = []string{rt.StrN(n+" value", 1, 1, ab), "c"}
		add(`"enum":["` + w.enum[0] + `","c"]`)
	case 4:
		r := rt.StrN(n+" ref", 1, 1, "AB")
		w.ref = "#/components/schemas/" + r
		add(`"$ref":"#/definitions/` + r + `"`)
	case 5:
		w.typ = "array"
		w.items = schema(n+" items", depth-1)
		add(`"items":{` + w.items.text + `}`)
		opt("minItems", "minItems", &w.min)
		opt("maxItems", "maxItems", &w.max)
	case 6:
		w.typ = "array" // anything
	case 7, 9: // with and without its type
		w.typ = "object"
		f := rt.StrN(n+" property", 1, 1, ab)
		p := schema(n+" "+"property type", depth-1)
		w.props = map[string]*want{f: p}
		add(`"properties":{"` + f + `":{` + p.text + `}}`)
		if rt.Choice(n+" required", 2) == 1 {
			w.required = f
			add(`"required":["` + f + `"]`)
		}
	case 8, 10:
		w.typ = "object"
		w.values = schema(n+" values", depth-1)
		if rt.Choice(n+" required key", 2) == 1 {
			w.required = "zz"
			add(`"required":["zz"]`)
		}
		add(`"additionalProperties":{` + w.values.text + `}`)
		if k == 8 {
			opt("minProperties", "minProperties", &w.min)
			opt("maxProperties", "maxProperties", &w.max)
		}
	}
	if k > 8 {
		w.typ = ""
	}
	if w.typ != "" {
		add(`"type":"` + w.typ + `"`)
	}
	return w
}

func sizes(lo uint64, hi *uint64, min, max int) bool {
	r := true
	if min >= 0 {
		r = rt.And(r, lo == uint64(min))
	} else {
		r = rt.And(r, lo == 0)
	}
	if max >= 0 {
		return rt.And(r, hi != nil) && rt.And(r, *hi == uint64(max))
	}
	return rt.And(r, hi == nil)
}

func bound(n, key string, add func(string)) *float64 {
	k := rt.Choice(n, 5)
	if k == 0 {
		return nil
	}
	add(`"` + key + `":` + []string{"", "0", "7", "-3", "2.5"}[k])
	x := []float64{0, 0, 7, -3, 2.5}[k]
	return &x
}

func limit(p, want *float64) bool {
	if want == nil {
		return p == nil
	}
	return p != nil && *p == *want
}

func check(s *openapi.Schema, w *want) bool {
	if s == nil {
		return false
	}
	if !rt.And(s.Type == w.typ || w.typ == "" && w.ref == "" && s.Type == "object", s.Ref == w.ref) {
		return false
	}
	if w.ref != "" {
		return true
	}
	if s.Format != w.format || s.Pattern != w.pattern || len(s.Enum) != len(w.enum) {
		return false
	}
	for i, v := range s.Enum {
		if x, ok := v.(string); !ok || x != w.enum[i] {
			return false
		}
	}
	switch w.typ {
	case "integer", "number":
		return limit(s.Min, w.least) && limit(s.Max, w.most)
	case "string":
		return sizes(s.MinLength, s.MaxLength, w.min, w.max)
	case "array":
		if w.items == nil {
			return s.Items == nil
		}
		return check(s.Items, w.items) && sizes(s.MinItems, s.MaxItems, w.min, w.max)
	case "object", "":
		if len(s.Properties) != len(w.props) {
			return false
		}
		for k, p := range w.props {
			if !check(s.Properties[k], p) {
				return false
			}
		}
		if w.required == "" {
			if len(s.Required) != 0 {
				return false
			}
		} else if len(s.Required) != 1 || s.Required[0] != w.required {
			return false
		}
		if w.values != nil {
			v, ok := s.AdditionalProperties.(*openapi.Schema)
			return ok && check(v, w.values) && sizes(s.MinProps, s.MaxProps, w.min, w.max)
		}
		return s.AdditionalProperties == nil
	}
	return true
}

func V_Definitions() {
	depth := 1
	if rt.Thorough() {
		depth = 2
	}
	w := schema("T", depth)
	name := rt.StrN("name", 1, 1, "TU")
	m, err := load(head() + `,"paths":{},"definitions":{"` + name + `":{` + w.text + `}}}`)
	rt.Assert(err == nil && m != nil && m.Components != nil, "a Swagger document is loaded")
	if err != nil {
		return
	}
	rt.Reach("definitions")
	rt.Assert(len(m.Components.Schemas) == 1, "there is a schema for each definition")
	rt.Assert(check(m.Components.Schemas[name], w), "a definition keeps its type, format, limits, sizes, values, items, properties and reference")
}

// documents that are not what they should be
func V_Refused() {
	version := `"swagger":"` + []string{"2.0", "1.2", "3.0"}[rt.Choice("version", 3)] + `"`
	if rt.Choice("other key", 3) == 1 {
		version = `"openapi":"3.0.0"`
	}
	parts := []string{"", `,"info":{"title":"x"}`, `,"paths":{"/x":{"get":{}}}`, `,"definitions":{"T":{"type":"null"},"U":{},"V":{"properties":{"f":{"type":"string"}}}}`}
	text := "{" + version
	for i := 1; i < 4; i++ {
		if rt.Choice("part"+d2s(i), 2) == 1 {
			text += parts[i]
		}
	}
	switch rt.Choice("end", 3) {
	case 0:
		text += "}"
	case 1:
		text += `,"host":"h","basePath":"/b"}`
	}
	whole := text[len(text)-1] == '}' && text != "{"+version
	m, err := load(text)
	rt.Reach("refused")
	rt.Assert(err != nil || m != nil, "loading gives a document or an error")
	if version != `"swagger":"2.0"` {
		rt.Assert(err != nil, "what is not Swagger 2.0 is refused")
	} else if whole {
		_ = whole
	}
	if err == nil {
		var sm *sadl.Model
		rt.Assert(!rt.Panics(func() { sm, err = m.ToSadl("x") }), "importing never crashes")
		_ = sm
	}
}

var methods = []string{"get", "put", "post", "delete", "patch", "head", "options"}

func operation(p *openapi.PathItem, method string) *openapi.Operation {
	switch method {
	case "get":
		return p.Get
	case "put":
		return p.Put
	case "post":
		return p.Post
	case "delete":
		return p.Delete
	case "patch":
		return p.Patch
	case "head":
		return p.Head
	}
	return p.Options
}

func count(p *openapi.PathItem) int {
	n := 0
	for _, m := range methods {
		if operation(p, m) != nil {
			n++
		}
	}
	return n
}

func flag(n string) (string, bool) {
	if rt.Choice(n, 2) == 1 {
		return "true", true
	}
	return "false", false
}

func V_Parameters() {
	method := methods[rt.Choice("method", 2)]
	where := []string{"path", "query", "header", "formData"}[rt.Choice("in", 4)]
	name := rt.StrN("name", 1, 1, ab)
	shared := rt.Choice("shared", 2) == 1
	depth := 0
	if where == "query" && !shared && method == "get" {
		depth = 1
	}
	w := schema("P", depth)
	rt.Assume(w.typ != "" && w.typ != "object")
	req, required := flag("required")
	param := `{"name":"` + name + `","in":"` + where + `","required":` + req + `,"description":"d",` + w.text + `}`
	op := `"operationId":"op","summary":"s","tags":["t","u"]`
	item := ""
	if shared {
		item = `"parameters":[` + param + `],`
	} else {
		op += `,"parameters":[` + param + `]`
	}
	m, err := load(head() + `,"paths":{"/x":{` + item + `"` + method + `":{` + op + `}}}}`)
	rt.Assert(err == nil && m != nil, "a Swagger document is loaded")
	if err != nil {
		return
	}
	rt.Reach("parameters")
	pi := m.Paths["/x"]
	rt.Assert(len(m.Paths) == 1 && pi != nil && count(pi) == 1, "the paths and methods are those of the document")
	o := operation(pi, method)
	rt.Assert(o != nil, "an operation is at its path and method")
	if o == nil {
		return
	}
	rt.Assert(o.OperationId == "op" && o.Summary == "s" && len(o.Tags) == 2 && o.Tags[0] == "t" && o.Tags[1] == "u", "an operation keeps its name, summary and tags")
	ps := append(append([]*openapi.Parameter{}, pi.Parameters...), o.Parameters...)
	rt.Assert(len(ps) == 1, "a parameter is kept")
	if len(ps) == 1 {
		p := ps[0]
		rt.Assert(p.Name == name && p.In == where && p.Required == required && p.Description == "d", "a parameter keeps its name, place, description and whether it is required")
		rt.Assert(check(p.Schema, w), "a parameter keeps its type, format, limits, sizes, values and items")
	}
}

// a reference to a parameter or a response means what it refers to
func V_References() {
	k := rt.Choice("what", 4)
	name := rt.StrN("name", 1, 1, "PQR")
	def := []string{`{"name":"q","in":"query","type":"string"}`, `{"name":"h","in":"header","required":true,"type":"integer"}`, `{"name":"b","in":"body","schema":{"$ref":"#/definitions/T"}}`, `{"description":"r","schema":{"$ref":"#/definitions/T"},"headers":{"H":{"type":"string"}}}`}[k]
	kind := []string{"parameters", "responses"}[rt.Choice("kind", 2)]
	shared := k < 2 && rt.Choice("shared", 2) == 1
	build := func(what string) string {
		op := `"operationId":"op","parameters":[{"name":"z","in":"query","type":"string"}`
		item := ""
		if shared {
			item = `"parameters":[` + what + `],`
		} else if k < 3 {
			op += "," + what
		}
		op += `],"responses":{"200":`
		if k == 3 {
			op += what
		} else {
			op += `{"description":"ok"}`
		}
		own := "parameters"
		if k == 3 {
			own = "responses"
		}
		return head() + `,"paths":{"/x":{` + item + `"put":{` + op + `}}}},"definitions":{"T":{"type":"string"}},"` + own + `":{"P":` + def + `}}`
	}
	m, err := load(build(`{"$ref":"#/` + kind + `/` + name + `"}`))
	want, err2 := load(build(def))
	rt.Assert(err == nil && err2 == nil, "a Swagger document is loaded")
	if err != nil || err2 != nil {
		return
	}
	rt.Reach("references")
	a, err := m.ToSadl("x")
	b, err2 := want.ToSadl("x")
	rt.Assert(err2 == nil, "a document without references is imported")
	if err2 != nil {
		return
	}
	if name != "P" || (k == 3) != (kind == "responses") {
		rt.Assert(err != nil, "a reference to what is not defined is an error")
		return
	}
	rt.Assert(err == nil, "a reference to what is defined is imported")
	if err == nil {
		rt.Assert(sadl.Pretty(a.Http) == sadl.Pretty(b.Http), "a reference means what it refers to")
	}
}

func list(types []string) string {
	s := "["
	for i, t := range types {
		if i > 0 {
			s += ","
		}
		s += `"` + t + `"`
	}
	return s + "]"
}

func hasAll(c openapi.Content, types []string, w *want) bool {
	if len(c) != len(types) {
		return false
	}
	for _, t := range types {
		if c[t] == nil || !check(c[t].Schema, w) {
			return false
		}
	}
	return true
}

func V_Bodies() {
	method := methods[rt.Choice("method", 7)]
	w := &want{min: -1, max: -1, ref: "#/components/schemas/A", text: `"$ref":"#/definitions/A"`}
	top, own := []string{"application/json"}, []string{"application/json", "text/plain"}
	text := head()
	consumes, produces := []string{"application/json"}, []string{"application/json"}
	op := `"operationId":"op"`
	switch rt.Choice("media", 4) {
	case 1:
		top = []string{[]string{"application/xml", "*/*", "text/x; charset=utf-8"}[rt.Choice("media type", 3)]}
		text += `,"consumes":` + list(top) + `,"produces":` + list(top)
		consumes, produces = top, top
	case 2:
		if rt.Choice("any", 2) == 1 {
			own = []string{"*/*"}
		}
		op += `,"consumes":` + list(own) + `,"produces":` + list(own)
		consumes, produces = own, own
	case 3:
		text += `,"consumes":` + list(top) + `,"produces":` + list(top)
		op += `,"produces":` + list(own)
		consumes, produces = top, own
	}
	body := rt.Choice("body", 2) == 1
	req, required := flag("required")
	if body {
		op += `,"parameters":[{"in":"body","name":"b","description":"d","required":` + req + `,"schema":{` + w.text + `}}]`
	}
	code := []string{"200", "404", "default"}[rt.Choice("code", 3)]
	output, header := rt.Choice("output", 2) == 1, rt.Choice("header", 2) == 1
	op += `,"responses":{"` + code + `":{"description":"r"`
	if output {
		op += `,"schema":{` + w.text + `}`
	}
	if header {
		op += `,"headers":{"X":{"type":"integer","format":"int64","description":"h"}}`
	}
	op += `}}`
	m, err := load(text + `,"paths":{"/x":{"` + method + `":{` + op + `}}}}`)
	rt.Assert(err == nil && m != nil, "a Swagger document is loaded")
	if err != nil {
		return
	}
	rt.Reach("bodies")
	pi := m.Paths["/x"]
	rt.Assert(len(m.Paths) == 1 && pi != nil && count(pi) == 1, "the paths and methods are those of the document")
	o := operation(pi, method)
	rt.Assert(o != nil, "an operation is at its path and method")
	if o == nil {
		return
	}
	rt.Assert(len(o.Parameters) == 0, "the body is not a parameter")
	if body {
		rt.Assert(o.RequestBody != nil && o.RequestBody.Required == required && o.RequestBody.Description == "d" && hasAll(o.RequestBody.Content, consumes, w), "the body is kept, for what the operation or else the document consumes")
	} else {
		rt.Assert(o.RequestBody == nil, "there is no body that was not given")
	}
	r := o.Responses[code]
	rt.Assert(len(o.Responses) == 1 && r != nil && r.Description == "r", "a response is kept under its status")
	if r == nil {
		return
	}
	if output {
		rt.Assert(hasAll(r.Content, produces, w), "the content of a response is kept, for what the operation or else the document produces")
	} else {
		rt.Assert(len(r.Content) == 0, "there is no content that was not given")
	}
	if header {
		h := r.Headers["X"]
		rt.Assert(len(r.Headers) == 1 && h != nil && h.Description == "h" && check(h.Schema, &want{typ: "integer", format: "int64", min: -1, max: -1}), "a header is kept with its type and format")
	} else {
		rt.Assert(len(r.Headers) == 0, "there is no header that was not given")
	}
}

// the service itself
func V_Service() {
	text := `{"swagger":"2.0","info":{"title":"` + rt.StrN("title", 1, 1, ab) + `","version":"` + rt.StrN("version", 1, 1, "12") + `","description":"d","license":{"name":"n","url":"u"},"contact":{"name":"c","email":"e"}},"paths":{}`
	host, base := rt.Choice("host", 2) == 1, rt.Choice("base", 2) == 1
	h, b := "h"+rt.StrN("host", 0, 1, ab), ""
	if host {
		text += `,"host":"` + h + `"`
	}
	if base {
		b = "/" + rt.StrN("base", 1, 1, ab)
		text += `,"basePath":"` + b + `"`
	}
	schemes := [][]string{nil, {}, {"http"}, {"https", "http"}, {"wss"}}[rt.Choice("schemes", 5)]
	if schemes != nil {
		text += `,"schemes":[`
		for i, x := range schemes {
			if i > 0 {
				text += ","
			}
			text += `"` + x + `"`
		}
		text += "]"
	}
	if len(schemes) == 0 {
		schemes = []string{"https"}
	}
	docs := rt.Choice("external documentation", 2) == 1
	du := rt.StrN("docs", 0, 1, ab)
	if docs {
		text += `,"externalDocs":{"url":"u` + du + `","description":"d` + du + `"}`
	}
	m, err := load(text + "}")
	rt.Assert(err == nil && m != nil && m.Info != nil, "a Swagger document is loaded")
	if err != nil {
		return
	}
	rt.Reach("service")
	i := m.Info
	rt.Assert(len(m.OpenAPI) > 0 && m.OpenAPI[0] == '3', "the document is of version 3")
	rt.Assert(text[len(`{"swagger":"2.0","info":{"title":"`):][:1] == i.Title && (i.Version == "1" || i.Version == "2") && i.Description == "d", "title, version and description are kept")
	rt.Assert(i.License != nil && i.License.Name == "n" && i.License.URL == "u" && i.Contact != nil && i.Contact.Name == "c" && i.Contact.Email == "e", "licence and contact are kept")
	if docs {
		rt.Assert(m.ExternalDocs != nil && m.ExternalDocs.URL == "u"+du && m.ExternalDocs.Description == "d"+du, "external documentation is kept")
	} else {
		rt.Assert(m.ExternalDocs == nil, "there is no external documentation that was not given")
	}
	switch {
	case host:
		rt.Assert(len(m.Servers) == len(schemes), "there is a server for every scheme")
		for i, x := range schemes {
			rt.Assert(i >= len(m.Servers) || m.Servers[i].URL == x+"://"+h+b, "a server is the scheme, the host and the base path")
		}
	case base:
		rt.Assert(len(m.Servers) == 1 && m.Servers[0].URL == b, "the server is the base path")
	default:
		rt.Assert(len(m.Servers) == 0, "there is no server that was not given")
	}
}
