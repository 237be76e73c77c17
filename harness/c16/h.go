package c16

import (
	"strings"

	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:parser
//verif:assume boynton/scanner is not available offline: it is modelled by /verif/stubs/scanner, which scans the text
//verif:bound every path template of up to 8 (thorough: 11) characters over / { } ? and a letter; 13 shapes of path and query with an input of symbolic name
//verif:bound actions with up to 3 inputs of every place (path, query, header, body) and method, an expected response of every form with up to 2 outputs, up to 2 exceptions; statuses symbolic; names given, or made from method and resource

const defined = "type Point Struct {\n\tx Int32 (required)\n}\ntype Str String\ntype Err Struct {\n\tm String\n}\n"

func parse(text string) (*sadl.Model, error) {
	rt.Observe("text", text)
	m, err := sadl.ParseSadlString(defined+text, sadl.NewData())
	rt.Assert((m == nil) == (err != nil), "a model or an error")
	return m, err
}

func one(text string) *sadl.HttpDef {
	m, err := parse(text)
	rt.Assert(err == nil, "the action is accepted")
	rt.Assert(len(m.Http) == 1, "one action")
	return m.Http[0]
}

// V_template: the path (what is before the first ?) is valid exactly when braces pair up within one element
func V_template() {
	max := 8
	if rt.Thorough() {
		max = 11
	}
	path := "/" + rt.StrN("path", 0, max-1, "/{}?a")
	m, err := parse("http GET \"" + path + "\" (operation=op) {\n}\n")
	ok, open := true, false
	for i := 0; i < len(path); i++ {
		if path[i] == '?' {
			break
		}
		switch path[i] {
		case '{':
			ok = ok && !open
			open = true
		case '}':
			ok = ok && open
			open = false
		case '/':
			ok = ok && !open
		}
	}
	ok = ok && !open
	rt.Assert((err == nil) == ok, "accepted exactly when every brace is closed in its element")
	if ok {
		rt.Assert(m.Http[0].Path == path, "and kept as written")
		rt.Reach("accepted")
	} else {
		rt.Reach("rejected")
	}
}

// V_place: an input is a path parameter if {name} is in the path, the query parameter whose value is {name}, a header if it says so, and the body otherwise
func V_place() {
	shapes := []struct{ path, query string }{
		{"/x/{a}", ""}, {"/x/{b}", ""}, {"/{a}/{b}", ""}, {"/a{a}z", ""}, {"/x", "q={a}"}, {"/x", "a={b}"}, {"/x", "p={b}&q={a}"}, {"/{b}", "q={a}"}, {"/x", "q=a"}, {"/{ab}", "q={ab}"}, {"/x", "{a}"}, {"/x", "q={a}&r={a}"}, {"/{a}", "r={a}"},
	}
	sh := shapes[rt.Choice("shape", len(shapes))]
	name := rt.StrN("name", 1, 2, "ab")
	path := sh.path
	if sh.query != "" {
		path += "?" + sh.query
	}
	opt, header := "", ""
	if rt.Choice("header", 2) == 1 {
		header = "X-" + rt.StrN("h", 1, 1, "AB")
		opt = " (header=\"" + header + "\")"
	}
	h := one("http POST \"" + path + "\" (operation=op) {\n" + name + " Str" + opt + "\n}\n")
	inPath := strings.Contains(sh.path, "{"+name+"}")
	q := ""
	for _, kv := range strings.Split(sh.query, "&") {
		i := strings.Index(kv, "=")
		if q == "" && i >= 0 && kv[i+1:] == "{"+name+"}" {
			q = kv[:i]
		}
	}
	if header != "" {
		inPath, q = false, ""
	} else if inPath {
		q = ""
	}
	in := h.Inputs[0]
	rt.Assert(in.Name == name && in.Type == "Str", "the input")
	rt.Assert(in.Header == header, "header")
	rt.Assert(in.Path == inPath, "path")
	rt.Assert(in.Query == q, "query")
	rt.Assert(in.Required == (header == "" && q == ""), "required exactly when in the path or the body")
	rt.Reach("place")
}

// V_params: required, default and annotations of inputs
func V_params() {
	w := rt.StrN("w", 1, 2, "ab")
	opts := []string{"", "required", "default=\"" + w + "\"", "x_a=\"" + w + "\"", "header=\"H\"", "header=\"H\", required", "header=\"H\" default=\"" + w + "\", x_a=\"" + w + "\""}
	o := opts[rt.Choice("options", len(opts))]
	text := "a String"
	if o != "" {
		text += " (" + o + ")"
	}
	c := ""
	if rt.Choice("comment", 2) == 1 {
		c = w + " it"
		text += " // " + c
	}
	h := one("http GET \"/x?a={a}\" (operation=op) {\n" + text + "\n}\n")
	in := h.Inputs[0]
	has := func(s string) bool { return strings.Contains(o, s) }
	rt.Assert(in.Required == has("required"), "required")
	rt.Assert((in.Default != nil) == has("default"), "default given")
	if in.Default != nil {
		s, ok := in.Default.(*string)
		rt.Assert(ok && *s == w, "default")
	}
	rt.Assert((in.Header == "H") == has("header") && (in.Query == "a") == !has("header"), "place")
	rt.Assert((in.Annotations["x_a"] == w) == has("x_a"), "annotations")
	rt.Assert(in.Comment == c, "comment")
}

// V_body: one body at most, and only for methods that have one
func V_body() {
	methods := []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}
	method := methods[rt.Choice("method", 7)]
	written := method
	if rt.Choice("lower", 2) == 1 {
		written = strings.ToLower(method)
	}
	n := rt.Choice("bodies", 3)
	text := "id Str\n" + []string{"", "p Point\n", "p Point\nq Str\n"}[n] + "h Str (header=\"H\")\n"
	m, err := parse("http " + written + " \"/x/{id}\" (operation=op) {\n" + text + "}\n")
	body := method == "PUT" || method == "POST" || method == "PATCH"
	ok := n == 0 || n == 1 && body
	rt.Assert((err == nil) == ok, "accepted exactly when at most one body, and the method has one")
	if ok {
		rt.Assert(m.Http[0].Method == method && len(m.Http[0].Inputs) == n+2, "method and inputs")
		rt.Reach("accepted")
	}
}

// V_name: the name given, or else the method and the resource given, or else the last fixed element of the path
func V_name() {
	w := rt.StrN("w", 1, 2, "ab")
	paths := []struct{ path, res string }{{"/things/{id}", "things"}, {"/a/b", "b"}, {"/a/" + w, w}, {"/a/{x}/" + w + "/{y}", w}, {"/" + w + "?q={q}", w}, {"/" + w + "/", w}, {"/" + w + "/{q}?r={r}", w}}
	p := paths[rt.Choice("path", len(paths))]
	method := []string{"GET", "DELETE"}[rt.Choice("method", 2)]
	opt, name, res := "", "", ""
	switch rt.Choice("naming", 5) {
	case 0:
		res = p.res
	case 1:
		opt, name = " (operation="+w+"Op)", w+"Op"
	case 2:
		opt, name = " (action="+w+")", w
	case 3:
		opt, res = " (resource="+w+"R)", w+"R"
	case 4:
		opt, name, res = " (resource="+w+", operation=x"+w+")", "x"+w, w
	}
	if name == "" {
		name = strings.ToLower(method) + strings.ToUpper(res[:1]) + res[1:]
	}
	h := one("http " + method + " \"" + p.path + "\"" + opt + " {\n}\n")
	rt.Assert(h.Name == name, "name")
	rt.Assert(h.Resource == res, "resource")
	rt.Assert(h.Path == p.path && h.Method == method, "path and method")
}

// V_expect: the expected response in each of its forms
func V_expect() {
	code := rt.StrN("code", 1, 1, "01234")
	status := int32(200) + int32(code[0]-'0')
	c := rt.StrN("c", 1, 2, "ab")
	switch rt.Choice("form", 5) {
	case 0:
		rt.Assume(status != 204)
		h := one("http GET \"/x\" (operation=op) {\nexpect 20" + code + " Point\n}\n")
		e := h.Expected
		rt.Assert(e.Status == status && len(e.Outputs) == 1 && e.Outputs[0].Type == "Point" && e.Outputs[0].Required && e.Outputs[0].Header == "" && !e.Outputs[0].Path && e.Outputs[0].Query == "", "short form")
	case 1:
		h := one("http GET \"/x\" (operation=op) {\n//" + c + "\nexpect 20" + code + " {\n}\n}\n")
		rt.Assert(h.Expected.Status == status && len(h.Expected.Outputs) == 0 && h.Expected.Comment == c, "no outputs")
	case 2:
		h := one("http GET \"/x\" (operation=op) {\nexpect 20" + code + "\n}\n")
		rt.Assert(h.Expected.Status == status && len(h.Expected.Outputs) == 0, "bare form")
	case 3:
		h := one("http GET \"/x?" + c + "={out}\" (operation=op) {\nexpect 204 (x_a=\"" + c + "\") {\nhdr Int32 (header=\"X-" + c + "\") //" + c + "\n}\n}\n")
		o := h.Expected.Outputs
		rt.Assert(h.Expected.Status == 204 && h.Expected.Annotations["x_a"] == c && len(o) == 1 && o[0].Name == "hdr" && o[0].Type == "Int32" && o[0].Header == "X-"+c && !o[0].Required && o[0].Comment == c, "header only")
	case 4:
		h := one("http GET \"" + []string{"/x", "/x/{out}/{hdr}", "/x?q={out}&r={hdr}"}[rt.Choice("path", 3)] + "\" (operation=op) {\nexpect 200 {\nout Array<Point>\nhdr Str (header=\"H\")\n}\n}\n")
		o := h.Expected.Outputs
		rt.Assert(len(o) == 2 && o[0].Name == "out" && o[0].Type == "Array" && o[0].Items == "Point" && o[0].Required && o[0].Header == "" && o[1].Name == "hdr" && o[1].Header == "H" && !o[1].Required && !o[0].Path && o[0].Query == "" && !o[1].Path && o[1].Query == "", "entity and header")
	}
	rt.Reach("expected")
}

// V_entity: at most one entity, none for 204 and 304, and one expected response
func V_entity() {
	status := []string{"200", "201", "204", "304"}[rt.Choice("status", 4)]
	n := rt.Choice("entities", 3)
	text := "expect " + status + " {\n" + []string{"", "p Point\n", "p Point\nq Str\n"}[n] + "h Str (header=\"H\")\n}\n"
	twice := rt.Choice("twice", 2) == 1
	if twice {
		text += "expect 200\n"
	}
	_, err := parse("http GET \"/x\" (operation=op) {\n" + text + "}\n")
	ok := !twice && (n == 0 || n == 1 && status[0] == '2' && status != "204")
	rt.Assert((err == nil) == ok, "accepted exactly when there is at most one entity, and the status can have one")
}

// V_exceptions: each with its status, type, comment and annotations; no type twice
func V_exceptions() {
	code := rt.StrN("code", 1, 1, "0123456789")
	status := int32(400) + int32(code[0]-'0')
	c := rt.StrN("c", 1, 2, "ab")
	t2 := []string{"Err", "Point", "Str"}[rt.Choice("type", 3)]
	expect := []string{"", "expect 200 Point\n"}[rt.Choice("expect", 2)]
	m, err := parse("http GET \"/x\" (operation=op) {\n" + expect + "// " + c + "\nexcept 40" + code + " Err (x_a=\"" + c + "\")\n\nexcept " + t2 + " //" + c + "x\n}\n")
	rt.Assert((err == nil) == (t2 != "Err"), "an exception type only once")
	if err != nil {
		return
	}
	e := m.Http[0].Exceptions
	rt.Assert(len(e) == 2, "both")
	rt.Assert(e[0].Type == "Err" && e[0].Status == status && e[0].Comment == c && e[0].Annotations["x_a"] == c, "first")
	rt.Assert(e[1].Type == t2 && e[1].Status == 0 && e[1].Comment == c+"x" && len(e[1].Annotations) == 0, "second")
	rt.Reach("exceptions")
}

// V_actions: all actions, in order, each with its own parts
func V_actions() {
	c := rt.StrN("c", 1, 2, "ab")
	brace := []string{"}\n", "}\n\n", "} //" + c + "\n"}[rt.Choice("end", 3)]
	m, err := parse("//" + c + "\nhttp GET \"/x\" (operation=one, x_a=\"" + c + "\") { //two\nexpect 200 Point\n" + brace + "http PUT \"/x/{id}\" (operation=two) {\nid Str\np Point\n\nexpect 204\n}\n")
	rt.Assert(err == nil && len(m.Http) == 2, "both")
	a, b := m.Http[0], m.Http[1]
	want := c + " two"
	if len(brace) > 3 {
		want += " " + c
	}
	rt.Assert(a.Name == "one" && a.Annotations["x_a"] == c && len(a.Inputs) == 0 && a.Expected.Status == 200, "first")
	rt.Assert(a.Comment == want, "comment")
	rt.Assert(b.Name == "two" && b.Comment == "" && len(b.Inputs) == 2 && b.Inputs[0].Name == "id" && b.Inputs[0].Path && b.Inputs[1].Name == "p" && !b.Inputs[1].Path && b.Expected.Status == 204, "second")
}

// V_examples: examples of requests and responses are checked against the inputs and outputs
func V_examples() {
	n := rt.StrN("n", 1, 1, "123")
	ex := []struct {
		text string
		ok   bool
	}{
		{"OpRequest {\"id\": \"x\", \"p\": {\"x\": " + n + "}}", true},
		{"OpRequest {\"id\": \"x\", \"p\": {\"x\": " + n + "}, \"l\": [" + n + "]}", true},
		{"OpRequest {\"id\": \"x\", \"p\": {\"x\": " + n + "}, \"l\": [\"" + n + "\"]}", false},
		{"OpRequest {\"id\": \"x\"}", false},
		{"OpRequest {\"p\": {\"x\": " + n + "}}", false},
		{"OpRequest {\"id\": " + n + ", \"p\": {\"x\": 1}}", false},
		{"OpRequest {\"id\": \"x\", \"p\": {\"x\": \"" + n + "\"}}", false},
		{"OpRequest \"x\"", false},
		{"OpResponse {\"out\": [{\"x\": " + n + "}]}", true},
		{"OpResponse {\"out\": [{\"x\": " + n + "}], \"hdr\": \"a\"}", true},
		{"OpResponse {\"hdr\": \"a\"}", false},
		{"OpResponse {\"out\": [{\"x\": \"" + n + "\"}]}", false},
		{"OpResponse {\"out\": [" + n + "]}", false},
		{"OpResponse " + n, false},
		{"OtherRequest {}", false},
		{"OtherResponse {}", false},
		{"NoneResponse {}", true},
		{"NoneRequest {}", true},
	}
	e := ex[rt.Choice("example", len(ex))]
	_, err := parse("http PUT \"/x/{id}?l={l}\" (operation=op) {\nid Str\nl Array<Int32>\np Point\nexpect 200 {\nout Array<Point>\nhdr Str (header=\"H\")\n}\n}\nhttp GET \"/none\" (operation=none) {\n}\nexample " + e.text + "\n")
	rt.Assert((err == nil) == e.ok, "an example is accepted exactly when it conforms")
}
