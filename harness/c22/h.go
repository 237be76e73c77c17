package c22

import (
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/httptrace"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound models with 1..2 actions, each with path, query, header and body inputs, an expected response with header and body outputs and up to 2 exceptions, and up to 3 named examples with every way of pairing requests and responses
//verif:bound parameter values of 0..3 symbolic bytes (braces, equal signs, letters and, where they are parameters, any byte), numbers and booleans; names of 1..2 symbolic letters; all orders of map iteration
//verif:assume an example name has either a response or an exception

const ab = "aB_"

type message struct {
	start   string
	headers []string
	body    string
}

// parse reads the messages of a trace; lines that start with # separate them
func parse(s string) []message {
	var lines []string
	j := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			lines = append(lines, s[j:i])
			j = i + 1
		}
	}
	if j < len(s) {
		lines = append(lines, s[j:])
	}
	var r []message
	for i := 0; i < len(lines); {
		if lines[i] == "" || lines[i][0] == '#' {
			i++
			continue
		}
		m := message{start: lines[i]}
		for i++; i < len(lines) && lines[i] != ""; i++ {
			m.headers = append(m.headers, lines[i])
		}
		for i++; i < len(lines) && (lines[i] == "" || lines[i][0] != '#'); i++ {
			m.body += lines[i] + "\n"
		}
		r = append(r, m)
	}
	return r
}

func (m message) header(name string) (string, int) {
	v, n := "", 0
	for _, h := range m.headers {
		if len(h) >= len(name)+2 && h[:len(name)+2] == name+": " {
			v = h[len(name)+2:]
			n++
		}
	}
	return v, n
}

// squeeze drops the white space of a JSON text without spaces in its strings
func squeeze(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if c := s[i]; !rt.Fork(rt.Or(c == ' ', c == '\n', c == '\t')) {
			b = append(b, c)
		}
	}
	return string(b)
}

func trace(sc *sadl.Schema) ([]message, error) {
	m, err := sadl.NewModel(sc)
	rt.Assert(err == nil, "the model is accepted")
	var text string
	rt.Assert(!rt.Panics(func() { text = rt.Output(func() { err = httptrace.Export(m, sadl.NewData()) }) }), "the export never crashes")
	return parse(text), err
}

func hex(c byte) int {
	switch {
	case rt.Fork(rt.And(c >= '0', c <= '9')):
		return int(c - '0')
	case rt.Fork(rt.And(c >= 'A', c <= 'F')):
		return int(c-'A') + 10
	case rt.Fork(rt.And(c >= 'a', c <= 'f')):
		return int(c-'a') + 10
	}
	return -1
}

// decode is what a server takes an encoded value of a path or of a query for; false when it is not one
func decode(s string, query bool) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case rt.Fork(c == '%'):
			if i+2 >= len(s) || hex(s[i+1]) < 0 || hex(s[i+2]) < 0 {
				return "", false
			}
			b = append(b, byte(hex(s[i+1])<<4|hex(s[i+2])))
			i += 2
		case query && rt.Fork(c == '+'):
			b = append(b, ' ')
		case rt.Fork(rt.Or(c <= ' ', c >= 127, rt.In(c, "\"<>\\^`{|}/?#"))), query && rt.Fork(rt.In(c, "&=;")):
			return "", false
		default:
			b = append(b, c)
		}
	}
	return string(b), true
}

// target splits a request into its path segments and the texts of its query
func target(start, verb string) (segs, query []string, ok bool) {
	n, v := len(start)-9, len(verb)+2
	if n < v || start[:v] != verb+" /" || start[n:] != " HTTP/1.1" {
		return nil, nil, false
	}
	t := start[v:n]
	j, in := 0, false
	for i := 0; i <= len(t); i++ {
		if i == len(t) || in && rt.Fork(t[i] == '&') || !in && rt.Fork(t[i] == '/') || !in && rt.Fork(t[i] == '?') {
			if in {
				query = append(query, t[j:i])
			} else {
				segs = append(segs, t[j:i])
			}
			j = i + 1
			in = in || i < len(t) && rt.Fork(t[i] == '?')
		}
	}
	return segs, query, true
}

// is tells whether an encoded text is that value
func is(text string, query bool, value string) bool {
	s, ok := decode(text, query)
	return ok && s == value
}

func param(name, typ string) *sadl.HttpParamSpec {
	return &sadl.HttpParamSpec{StructFieldDef: sadl.StructFieldDef{Name: name, TypeSpec: sadl.TypeSpec{Type: typ}}}
}

// value makes an example value, and its text
func value(n string, chars string) (interface{}, string) {
	switch rt.Choice(n+" kind", 5) {
	case 0:
		s := rt.StrN(n, 1, 3, chars)
		return s, s
	case 1:
		s := rt.StrN(n, 1, 2, chars)
		return &s, s
	case 2:
		d, err := sadl.ParseDecimal("12.5")
		rt.Assert(err == nil, "a number")
		return d, "12.5"
	case 3:
		return true, "true"
	}
	return false, "false"
}

func V_Request() {
	verbs := []string{"GET", "POST", "PUT", "DELETE", "PATCH"}
	verb := verbs[rt.Choice("method", len(verbs))]
	req := map[string]interface{}{}
	id, idText := value("id", "ab=")
	req["id"] = id
	var pairs []string
	path := "/x/{id}/y?p={p}&q={qq}"
	p, q, h := param("p", "String"), param("qq", "Bool"), param("h", "String")
	p.Query, q.Query, h.Header = "p", "q", "X-H"
	i := param("id", "String")
	i.Path = true
	if rt.Choice("p given", 2) == 1 {
		v := rt.StrN("p", 1, 2, "ab=")
		req["p"] = v
		pairs = append(pairs, "p=", v)
	}
	if rt.Choice("q given", 2) == 1 {
		req["qq"] = rt.Choice("q", 2) == 1
		pairs = append(pairs, "q=", sadl.ToString(req["qq"]))
	}
	hv, hn := "", 0
	if rt.Choice("header given", 2) == 1 {
		hv = rt.StrN("h", 1, 2, ab)
		req["h"] = &hv
		hn = 1
	}
	inputs := []*sadl.HttpParamSpec{i, p, q, h}
	body := ""
	if verb != "GET" && verb != "DELETE" {
		inputs = append(inputs, param("item", "T"))
		if rt.Choice("body given", 2) == 1 {
			v := rt.StrN("body", 1, 1, ab)
			req["item"] = map[string]interface{}{"a": v}
			body = `{"a":"` + v + `"}`
		}
	}
	if rt.Choice("reversed", 2) == 1 {
		for a, b := 0, len(inputs)-1; a < b; a, b = a+1, b-1 {
			inputs[a], inputs[b] = inputs[b], inputs[a]
		}
	}
	ms, err := trace(&sadl.Schema{
		Http:     []*sadl.HttpDef{{Name: "doIt", Method: verb, Path: path, Inputs: inputs, Expected: &sadl.HttpExpectedSpec{Status: 200}}},
		Examples: []*sadl.ExampleDef{{Target: "DoItRequest", Name: "e", Example: req}},
	})
	rt.Assert(err == nil && len(ms) == 1, "an example of a request is shown")
	if err != nil || len(ms) != 1 {
		return
	}
	rt.Reach("request")
	m := ms[0]
	segs, query, ok := target(m.start, verb)
	ok = ok && len(segs) == 3 && segs[0] == "x" && is(segs[1], false, idText) && segs[2] == "y" && len(query) == len(pairs)/2
	for i := 0; ok && i < len(query); i++ {
		ok = len(query[i]) > 2 && query[i][:2] == pairs[2*i] && is(query[i][2:], true, pairs[2*i+1])
	}
	rt.Assert(ok, "the request has its method, its path and exactly the query parameters of the example")
	v, n := m.header("X-H")
	rt.Assert(n == hn && v == hv, "the request has exactly the headers of the example")
	_, n = m.header("Accept")
	rt.Assert(n == 1, "the request says what it accepts")
	rt.Assert(squeeze(m.body) == body, "the request has exactly the body of the example")
}

// V_Substitution: a value is never taken for a parameter
func V_Substitution() {
	a, b := param("a", "String"), param("b", "String")
	a.Path, b.Path = true, true
	av, bv := rt.StrN("first", 1, 3, "ab{}"), rt.StrN("second", 1, 3, "ab{}")
	inputs := []*sadl.HttpParamSpec{a, b}
	if rt.Choice("reversed", 2) == 1 {
		inputs = []*sadl.HttpParamSpec{b, a}
	}
	ms, err := trace(&sadl.Schema{
		Http:     []*sadl.HttpDef{{Name: "doIt", Method: "GET", Path: "/{b}/{a}", Inputs: inputs, Expected: &sadl.HttpExpectedSpec{Status: 200}}},
		Examples: []*sadl.ExampleDef{{Target: "DoItRequest", Name: "e", Example: map[string]interface{}{"a": av, "b": bv}}},
	})
	rt.Assert(err == nil && len(ms) == 1, "an example of a request is shown")
	if err == nil && len(ms) == 1 {
		segs, query, ok := target(ms[0].start, "GET")
		rt.Assert(ok && len(segs) == 2 && len(query) == 0 && is(segs[0], false, bv) && is(segs[1], false, av), "each parameter is replaced by its value, once")
	}
}

// V_Repeated: a parameter that is there several times is replaced everywhere
func V_Repeated() {
	a := param("aParameter", "String")
	a.Path = true
	v := rt.StrN("value", 1, 2, "aB{")
	path := []string{"/{aParameter}/x/{aParameter}", "/{aParameter}/{aParameter}?k={aParameter}", "/x/{aParameter}?k={aParameter}&l={aParameter}"}[rt.Choice("path", 3)]
	ms, err := trace(&sadl.Schema{
		Http:     []*sadl.HttpDef{{Name: "doIt", Method: "GET", Path: path, Inputs: []*sadl.HttpParamSpec{a}, Expected: &sadl.HttpExpectedSpec{Status: 200}}},
		Examples: []*sadl.ExampleDef{{Target: "DoItRequest", Name: "e", Example: map[string]interface{}{"aParameter": v}}},
	})
	rt.Assert(err == nil && len(ms) == 1, "an example of a request is shown")
	if err != nil || len(ms) != 1 {
		return
	}
	rt.Reach("repeated")
	for i := 0; i+12 <= len(ms[0].start); i++ {
		rt.Assert(ms[0].start[i:i+12] != "{aParameter}", "each parameter is replaced everywhere")
	}
}

// V_Missing: a query parameter the example does not have is not there, whatever the others are
func V_Missing() {
	names := []string{"a", "aLongerName", "b-c.d"}
	path := "/x?" + names[0] + "={p0}&" + names[1] + "={p1}&" + names[2] + "={p2}"
	var inputs []*sadl.HttpParamSpec
	ex := map[string]interface{}{}
	var keys, values []string
	for i, n := range names {
		p := param("p"+string([]byte{byte('0' + i)}), "String")
		p.Query = n
		inputs = append(inputs, p)
		if rt.Choice(n+" given", 2) == 1 {
			v := rt.StrN(n, 1, 1, "aB=&")
			ex[p.Name] = v
			keys, values = append(keys, n), append(values, v)
		}
	}
	ms, err := trace(&sadl.Schema{
		Http:     []*sadl.HttpDef{{Name: "doIt", Method: "GET", Path: path, Inputs: inputs, Expected: &sadl.HttpExpectedSpec{Status: 200}}},
		Examples: []*sadl.ExampleDef{{Target: "DoItRequest", Name: "e", Example: ex}},
	})
	rt.Assert(err == nil && len(ms) == 1, "an example of a request is shown")
	if err != nil || len(ms) != 1 {
		return
	}
	rt.Reach("missing")
	segs, query, ok := target(ms[0].start, "GET")
	ok = ok && len(segs) == 1 && segs[0] == "x" && len(query) == len(keys)
	for i := 0; ok && i < len(keys); i++ {
		k := len(keys[i]) + 1
		ok = len(query[i]) > k && query[i][:k] == keys[i]+"=" && is(query[i][k:], true, values[i])
	}
	rt.Assert(ok, "the request has exactly the query parameters of the example")
}

// V_AnyValue: a value of any bytes is the value the server gets
func V_AnyValue() {
	a, b := param("a", "String"), param("b", "String")
	v := rt.StrN("value", 1, 3, "")
	path := "/x/{a}"
	if rt.Choice("query", 2) == 0 {
		a.Path = true
	} else {
		path = "/x?k={a}&b={b}"
		a.Query, b.Query = "k", "b"
	}
	ms, err := trace(&sadl.Schema{
		Http:     []*sadl.HttpDef{{Name: "doIt", Method: "GET", Path: path, Inputs: []*sadl.HttpParamSpec{a, b}, Expected: &sadl.HttpExpectedSpec{Status: 200}}},
		Examples: []*sadl.ExampleDef{{Target: "DoItRequest", Name: "e", Example: map[string]interface{}{"a": v}}},
	})
	rt.Assert(err == nil && len(ms) == 1, "an example of a request is shown")
	if err != nil || len(ms) != 1 {
		return
	}
	rt.Reach("any value")
	segs, query, ok := target(ms[0].start, "GET")
	if a.Path {
		rt.Assert(ok && len(segs) == 2 && len(query) == 0 && is(segs[1], false, v), "a value in the path is encoded so that it is read back")
	} else {
		rt.Assert(ok && len(segs) == 1 && len(query) == 1 && len(query[0]) > 2 && query[0][:2] == "k=" && is(query[0][2:], true, v), "a value in the query is encoded so that it is read back")
	}
}

func d2(n int) string { return string([]byte{byte('0' + n/10), byte('0' + n%10)}) }

func V_Response() {
	status := []int{200, 201, 204, 0}[rt.Choice("status", 4)]
	reasons := map[int]string{200: "200 OK", 201: "201 Created", 204: "204 No Content", 404: "404 Not Found", 409: "409 Conflict"}
	h := param("tag", "String")
	h.Header = "ETag"
	hdef := &sadl.HttpDef{Name: "get", Method: "GET", Path: "/x"}
	if status != 0 {
		hdef.Expected = &sadl.HttpExpectedSpec{Status: int32(status), Outputs: []*sadl.HttpParamSpec{param("body", "T"), h}}
	}
	hdef.Exceptions = []*sadl.HttpExceptionSpec{{Type: "Miss", Status: 404}, {Type: "MissClash", Status: 409}}
	if rt.Choice("exceptions reversed", 2) == 1 {
		hdef.Exceptions[0], hdef.Exceptions[1] = hdef.Exceptions[1], hdef.Exceptions[0]
	}
	sc := &sadl.Schema{Http: []*sadl.HttpDef{hdef}}
	req := &sadl.ExampleDef{Target: "GetRequest", Name: "e", Example: map[string]interface{}{}}
	var res *sadl.ExampleDef
	tag, nt, body, start := "", 0, "", ""
	what := rt.Choice("answer", 4)
	v := rt.StrN("value", 0, 2, ab)
	if rt.Choice("not ASCII", 2) == 1 {
		v += "\u00e9\u00e9"
	}
	switch what {
	case 0:
		res = &sadl.ExampleDef{Target: "GetResponse", Name: "e"}
		out := map[string]interface{}{}
		if rt.Choice("body given", 2) == 1 {
			out["body"] = map[string]interface{}{"a": v}
			if status != 204 {
				body = `{"a":"` + v + `"}`
			}
		}
		if rt.Choice("header given", 2) == 1 {
			tag, nt = rt.StrN("tag", 1, 2, ab), 1
			out["tag"] = tag
		}
		res.Example = out
		if status != 0 {
			start = reasons[status]
		}
	case 1:
		res = &sadl.ExampleDef{Target: "Miss", Name: "e", Example: map[string]interface{}{"m": v}}
		body, start = `{"m":"`+v+`"}`, reasons[404]
	case 2:
		res = &sadl.ExampleDef{Target: "MissClash", Name: "e", Example: v}
		body, start = `"`+v+`"`, reasons[409]
	case 3:
		res = &sadl.ExampleDef{Target: []string{"Miss", "GetResponse"}[rt.Choice("unrelated", 2)], Name: "f", Example: map[string]interface{}{"m": v}}
	}
	sc.Examples = []*sadl.ExampleDef{req, res}
	if rt.Choice("response first", 2) == 1 {
		sc.Examples = []*sadl.ExampleDef{res, req}
	}
	ms, err := trace(sc)
	n := 1
	if start != "" {
		n = 2
	}
	rt.Assert(err == nil && len(ms) == n, "a request is shown with its response, if it has one")
	if err != nil || len(ms) != n {
		return
	}
	rt.Assert(ms[0].start == "GET /x HTTP/1.1", "the request comes first")
	if n == 1 {
		return
	}
	rt.Reach("response")
	m := ms[1]
	rt.Assert(m.start == "HTTP/1.1 "+start, "the response has the status of the expected response or of its exception")
	g, k := m.header("ETag")
	rt.Assert(k == nt && g == tag, "the response has exactly the headers of the example")
	rt.Assert(squeeze(m.body) == body, "the response has exactly the body of the example")
	l, k := m.header("Content-Length")
	rt.Assert(k == 1 && (body == "") == (l == "0"), "the content length tells whether there is a body")
	if body != "" {
		// the trace ends the body with one line break of its own, and the whole with another
		t := m.body
		for len(t) > 0 && t[len(t)-1] == '\n' {
			t = t[:len(t)-1]
		}
		rt.Assert(l == d2(len(t)) || l == d2(len(t)+1) || len(t) < 10 && (l == d2(len(t))[1:] || l == d2(len(t) + 1)[1:]), "the content length is the length of the body")
	}
	date, k := m.header("Date")
	rt.Assert(k == 1 && len(date) == 29 && date[3:5] == ", " && date[25:] == " GMT", "the response has a date")
	_, k = m.header("Content-Type")
	rt.Assert(k == 1, "the response says its content type")
}

// V_Pairs: several examples of two actions, in order, each with its own response
func V_Pairs() {
	rt.MapOrder(true)
	n := 1 + rt.Choice("examples", 3)
	sc := &sadl.Schema{Http: []*sadl.HttpDef{}}
	for _, a := range []string{"get", "put"} {
		i := param("id", "String")
		i.Path = true
		b := param("b", "String")
		sc.Http = append(sc.Http, &sadl.HttpDef{Name: a, Method: "PUT", Path: "/" + a + "/{id}", Inputs: []*sadl.HttpParamSpec{i}, Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{b}}})
	}
	var want []string
	var put []string
	var resp []*sadl.ExampleDef
	for k := 0; k < n; k++ {
		name := string([]byte{byte('p' + k)}) + rt.StrN("name", 0, 1, ab)
		d := string([]byte{byte('0' + k)})
		t, l := "Get", &want
		if rt.Choice("action", 2) == 1 {
			t, l = "Put", &put
		}
		sc.Examples = append(sc.Examples, &sadl.ExampleDef{Target: t + "Request", Name: name, Example: map[string]interface{}{"id": "i" + d}})
		*l = append(*l, "PUT /"+sadl.Uncapitalize(t)+"/i"+d+" HTTP/1.1")
		if rt.Choice("answered", 2) == 1 {
			r := &sadl.ExampleDef{Target: t + "Response", Name: name, Example: map[string]interface{}{"b": "r" + d}}
			if rt.Choice("later", 2) == 1 {
				resp = append(resp, r)
			} else {
				sc.Examples = append(sc.Examples, r)
			}
			*l = append(*l, `"r`+d+`"`)
		}
	}
	sc.Examples = append(sc.Examples, resp...)
	want = append(want, put...)
	ms, err := trace(sc)
	rt.MapOrder(false)
	rt.Assert(err == nil && len(ms) == len(want), "every example is shown once")
	if err != nil || len(ms) != len(want) {
		return
	}
	rt.Reach("pairs")
	for i, m := range ms {
		if want[i][0] == '"' {
			rt.Assert(squeeze(m.body) == want[i], "each response follows its own request")
		} else {
			rt.Assert(m.start == want[i], "the requests are in the order of the actions and of their examples")
		}
	}
}

func V_NotAnObject() {
	bad := []interface{}{nil, "x", true, []interface{}{"x"}}
	sc := &sadl.Schema{Http: []*sadl.HttpDef{{Name: "get", Method: "GET", Path: "/x", Expected: &sadl.HttpExpectedSpec{Status: 200}, Exceptions: []*sadl.HttpExceptionSpec{{Type: "Missing", Status: 404}}}}}
	target := []string{"GetRequest", "GetResponse", "Missing"}[rt.Choice("target", 3)]
	x := bad[rt.Choice("example", len(bad))]
	if target != "GetRequest" {
		sc.Examples = append(sc.Examples, &sadl.ExampleDef{Target: "GetRequest", Name: "e", Example: map[string]interface{}{}})
	}
	sc.Examples = append(sc.Examples, &sadl.ExampleDef{Target: target, Name: "e", Example: x})
	_, err := trace(sc)
	if target == "Missing" {
		rt.Assert(err == nil, "an exception need not be an object")
	} else {
		rt.Assert(err != nil, "an example of a request or response that is not an object is an error")
	}
}
