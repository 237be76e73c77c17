package c33

import (
	"os"
	"path/filepath"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound services of 1..2 actions of every method, with path, query, header and body inputs of String, number, Decimal, UUID, Timestamp, enum and struct types, with and without a default (strings of symbolic characters); an entity of a struct, String, list or map type and headers as outputs, or neither; 0..2 exceptions
//verif:bound action, parameter, query and header names of 1..2 symbolic letters in either case; every kind of base path; with and without a ServiceException
//verif:bound with and without an example implementation; packages of the server and the client, source directories and service names of symbolic letters; String and Timestamp parameters, as instants or not
//verif:assume names are Java identifiers that differ from each other and from the names the generator makes up, and are no keywords; the exceptions of an action have different types and statuses; header outputs are no enums; immutable classes for clients

const letters = "abAB"

func upper(s string) string {
	b := []byte(s)
	if rt.Fork(b[0] >= 'a') {
		b[0] -= 32
	}
	return string(b)
}

func lower(s string) string {
	b := []byte(s)
	if rt.Fork(b[0] < 'a') {
		b[0] += 32
	}
	return string(b)
}

func quoted(s string) string {
	r := []byte{'"'}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if rt.Fork(rt.Or(c == '"', c == '\\')) {
			r = append(r, '\\')
		} else if rt.Fork(rt.Or(c < ' ', c == 0x7f)) {
			r = append(r, '\\', 'u', '0', '0', "0123456789abcdef"[c/16], "0123456789abcdef"[c%16])
			continue
		}
		r = append(r, c)
	}
	return string(append(r, '"'))
}

// jtype is a type as Java has it: required, not required, and how it is read from a header
type jtype struct {
	sadl, req, opt, parse string
}

var jtypes = []jtype{
	{"String", "String", "String", ""},
	{"Bool", "boolean", "Boolean", "Boolean.parseBoolean"},
	{"Int8", "byte", "Byte", "Byte.parseByte"},
	{"Int16", "short", "Short", "Short.parseShort"},
	{"Int32", "int", "Integer", "Integer.parseInt"},
	{"Int64", "long", "Long", "Long.parseLong"},
	{"Float32", "float", "Float", "Float.parseFloat"},
	{"Float64", "double", "Double", "Double.parseDouble"},
	{"Decimal", "BigDecimal", "BigDecimal", "new BigDecimal"},
	{"UUID", "UUID", "UUID", "UUID.fromString"},
	{"Timestamp", "Instant", "Instant", "Instant.parse"},
	{"Name", "String", "String", ""},
	{"Count", "int", "Integer", "Integer.parseInt"},
	{"Item", "Item", "Item", ""},
	{"Items", "List<Item>", "List<Item>", ""},
	{"Table", "Map<String,Long>", "Map<String,Long>", ""},
	{"Color", "Color", "Color", ""},
}

func types() []*sadl.TypeDef {
	return []*sadl.TypeDef{
		lib.Type("Name", sadl.TypeSpec{Type: "String"}),
		lib.Type("Count", sadl.TypeSpec{Type: "Int32"}),
		lib.Type("Item", sadl.TypeSpec{Type: "Struct"}),
		lib.Type("Items", sadl.TypeSpec{Type: "Array", Items: "Item"}),
		lib.Type("Table", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "Int64"}),
		lib.Type("Color", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("RED")}),
		lib.Type("E1", sadl.TypeSpec{Type: "Struct"}),
		lib.Type("E2", sadl.TypeSpec{Type: "Struct"}),
	}
}

func read(dir, file string) *lib.JavaFile {
	b, e := os.ReadFile(filepath.Join(dir, file))
	rt.Assert(e == nil, "each class has its file, in the directory of its package")
	if e != nil {
		return nil
	}
	f := lib.JavaParse(string(b))
	rt.Assert(f != nil, "a file is a package, imports and one type, with balanced brackets")
	if f != nil {
		rt.Reach("exported")
	}
	return f
}

func export(sc *sadl.Schema, c *sadl.Data) (string, bool) {
	m, err := sadl.NewModel(sc)
	rt.Assert(err == nil, "the model is accepted")
	if err != nil {
		return "", false
	}
	dir := rt.TempDir()
	rt.Assert(!rt.Panics(func() { err = java.Export(m, dir, c) }), "the export never crashes")
	rt.Assert(err == nil, "the model is exported")
	return dir, err == nil
}

type action struct {
	called   string // its name, if it is not given
	def      *sadl.HttpDef
	path     string // without the query
	in, out  []jtype
	defaults []string
	status   string
	excs     []string
	codes    []string
}

func (a *action) input(name string, t jtype, where, as string, def interface{}, text string) {
	p := &sadl.HttpParamSpec{StructFieldDef: *lib.Field(name, where == "path", sadl.TypeSpec{Type: t.sadl})}
	switch where {
	case "path":
		p.Path = true
	case "query":
		p.Query = as
	case "header":
		p.Header = as
	}
	p.Default = def
	a.def.Inputs = append(a.def.Inputs, p)
	a.in = append(a.in, t)
	a.defaults = append(a.defaults, text)
}

func (a *action) output(name string, t jtype, header string) {
	p := &sadl.HttpParamSpec{StructFieldDef: *lib.Field(name, false, sadl.TypeSpec{Type: t.sadl})}
	p.Header = header
	a.def.Expected.Outputs = append(a.def.Expected.Outputs, p)
	a.out = append(a.out, t)
}

func (a *action) exception(t string, code int32, text string) {
	a.def.Exceptions = append(a.def.Exceptions, &sadl.HttpExceptionSpec{Type: t, Status: code})
	a.excs = append(a.excs, t)
	a.codes = append(a.codes, text)
}

func newAction(name, method, path string, status int32, text string) *action {
	return &action{def: &sadl.HttpDef{Name: name, Method: method, Path: path, Expected: &sadl.HttpExpectedSpec{Status: status}}, path: path, status: text}
}

func (a *action) name() string {
	if a.def.Name == "" {
		return a.called
	}
	return a.def.Name
}

// resource is the method of the server that serves an action
func (a *action) resource(controller string, serviceException, immutable bool) string {
	d := a.def
	r := "@" + d.Method + " @Path(\"" + a.path + "\") @Produces(MediaType.APPLICATION_JSON) public Response " + lower(a.name()) + "("
	set := ""
	for i, p := range d.Inputs {
		if i > 0 {
			r += ", "
		}
		if p.Default != nil {
			r += "@DefaultValue(" + a.defaults[i] + ") "
		}
		switch {
		case p.Query != "":
			r += "@QueryParam(\"" + p.Query + "\") "
		case p.Header != "":
			r += "@HeaderParam(\"" + p.Header + "\") "
		case p.Path:
			r += "@PathParam(\"" + p.Name + "\") "
		}
		r += a.in[i].opt + " " + p.Name
		set += "." + p.Name + "(" + p.Name + ")"
	}
	up := upper(a.name())
	if immutable {
		r += ") { " + up + "Request req = " + up + "Request.builder()" + set + ".build(); try { "
	} else {
		r += ") { " + up + "Request req = new " + up + "Request()" + set + "; try { "
	}
	call := controller + "." + lower(a.name()) + "(req); "
	if len(d.Expected.Outputs) > 0 {
		r += up + "Response res = " + call
	} else {
		r += call
	}
	r += "return Response.status(" + a.status + ")"
	for _, p := range d.Expected.Outputs {
		if p.Header != "" {
			r += ".header(\"" + p.Header + "\", res.get" + upper(p.Name) + "())"
		}
	}
	for i, p := range d.Expected.Outputs {
		if p.Header == "" {
			get := "res.get" + upper(p.Name) + "()"
			if !immutable {
				get = "res." + p.Name
			}
			if a.out[i].req == "String" {
				r += ".entity(Util.toJson(" + get + "))"
			} else {
				r += ".entity(" + get + ")"
			}
			break
		}
	}
	r += ".build(); } "
	if serviceException {
		r += "catch (ServiceException se) { Object entity = se.entity == null? se : se.entity; int status = 500; "
		none := false
		for i, e := range a.excs {
			if i > 0 {
				r += "else "
			}
			r += "if (entity instanceof " + e + ") { status = " + a.codes[i] + "; "
			if a.codes[i] == "304" {
				none = true
				r += "entity = null; "
			}
			r += "} "
		}
		if none {
			r += "if (entity == null) { throw new WebApplicationException(status); } "
		}
		r += "throw new WebApplicationException(Response.status(status).entity(entity).build()); } "
	} else {
		for i, e := range a.excs {
			r += "catch (" + e + " e) { throw new WebApplicationException(Response.status(" + a.codes[i] + ").entity(e).build()); } "
		}
	}
	return r + "catch (Throwable th) { return Response.status(500).build(); } }"
}

// method is the method of the client that asks for an action
func (a *action) method() string {
	d := a.def
	up := upper(a.name())
	r := "public " + up + "Response " + lower(a.name()) + "(" + up + "Request req) { WebTarget target = client.target(config.getTarget()).path(\"" + a.path + "\")"
	heads, body := "", ""
	for _, p := range d.Inputs {
		get := "req.get" + upper(p.Name) + "()"
		switch {
		case p.Path:
			r += ".resolveTemplate(\"" + p.Name + "\", " + get + ", true)"
		case p.Query != "":
			r += ".queryParam(\"" + p.Query + "\", " + get + ")"
		case p.Header != "":
			heads += ".header(\"" + p.Header + "\", " + get + ")"
		default:
			body = "Entity.entity(" + get + ", MediaType.APPLICATION_JSON)"
		}
	}
	r += "; Invocation.Builder inv = target.request(MediaType.APPLICATION_JSON)" + heads + "; Response response = inv.method(\"" + d.Method + "\""
	switch d.Method {
	case "PUT", "POST", "PATCH":
		if body == "" {
			body = "Entity.json(\"\")"
		}
		r += ", " + body
	}
	r += "); switch (response.getStatus()) { case " + a.status + ": "
	if len(d.Expected.Outputs) == 0 {
		r += "return null; "
	} else {
		set := ""
		for i, p := range d.Expected.Outputs {
			if p.Header == "" {
				t := a.out[i].req
				if i := index(t, '<'); i >= 0 {
					r += t + " " + p.Name + " = response.readEntity(new GenericType<" + t + ">() {}); "
				} else {
					r += t + " " + p.Name + " = response.readEntity(" + t + ".class); "
				}
				set = "." + p.Name + "(" + p.Name + ")"
				break
			}
		}
		for i, p := range d.Expected.Outputs {
			if p.Header != "" {
				get := "response.getHeaderString(\"" + p.Header + "\")"
				if a.out[i].parse != "" {
					get = a.out[i].parse + "(" + get + ")"
				}
				r += a.out[i].req + " " + p.Name + " = " + get + "; "
				set += "." + p.Name + "(" + p.Name + ")"
			}
		}
		r += "return " + up + "Response.builder()" + set + ".build(); "
	}
	for i, e := range a.excs {
		r += "case " + a.codes[i] + ": throw response.readEntity(" + e + ".class); "
	}
	return r + "default: throw new RuntimeException(\"Unexpected service response status: \" + response.getStatus()); } }"
}

func index(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

var methods = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}

type option struct {
	name, base string
	service    bool // a ServiceException
	mutable    bool
	imports    bool // the names are concrete
}

// check exports a service, and says that its server and its client are what its actions say
func check(as []*action, o option) {
	c := sadl.NewData()
	c.Put("package", "p")
	c.Put("server", true)
	c.Put("client", !o.mutable)
	if o.service {
		c.Put("service-exception", true)
	}
	if o.mutable {
		c.Put("immutable", false)
	}
	sc := &sadl.Schema{Name: "test", Types: types(), Base: o.base}
	name := "Test"
	if o.name != "" {
		c.Put("name", o.name)
		name = upper(o.name)
	}
	for _, a := range as {
		sc.Http = append(sc.Http, a.def)
	}
	dir, ok := export(sc, c)
	if !ok {
		return
	}
	base := o.base
	if base == "" {
		base = "/"
	}
	d := "src/main/java/p/"
	controller := lower(name) + "Controller"
	if f := read(dir, d+"server/"+name+"Resources.java"); f != nil {
		want := []string{"@Inject private " + name + " " + controller + ";"}
		for _, a := range as {
			want = append(want, a.resource(controller, o.service, !o.mutable))
		}
		rt.Assert(f.Package == "p.server" && lib.JavaIs(f.Type.Head, "@Path(\""+base+"\") public class "+name+"Resources"), "the server is a resource class at the base path")
		rt.Assert(lib.JavaMembers(f.Type, want...), "the server has a resource for each action, with its parameters, statuses and exceptions")
		if o.imports {
			rt.Assert(imported(f), "what a class uses is imported")
			if lib.JavaUses(f, "Util") {
				if u := read(dir, d+"model/Util.java"); u != nil {
					rt.Assert(u.Package == "p.model" && lib.JavaHelped(u, f), "the helper class has what the server takes from it")
				}
			}
		}
	}
	if o.mutable || o.service {
		return
	}
	if f := read(dir, d+"client/"+name+"Client.java"); f != nil {
		want := []string{"private static Client client = ClientBuilder.newClient();", "private static final String base = \"" + base + "\";", "private ClientConfig config;", "public " + name + "Client(ClientConfig conf) { config = conf; }"}
		for _, a := range as {
			want = append(want, a.method())
		}
		rt.Assert(f.Package == "p.client" && lib.JavaIs(f.Type.Head, "public class "+name+"Client implements "+name), "the client is a class that implements the service")
		rt.Assert(lib.JavaMembers(f.Type, want...), "the client has a method for each action, with its parameters, status and exceptions")
		if o.imports {
			rt.Assert(imported(f), "what a class uses is imported")
		}
	}
	if f := read(dir, d+"client/ClientConfig.java"); f != nil {
		rt.Assert(lib.JavaIs(f.Type.Head, "public interface ClientConfig") && lib.JavaMembers(f.Type, "public String getTarget();"), "the client is told its target")
	}
}

func imported(f *lib.JavaFile) bool {
	model := false
	for _, i := range f.Imports {
		if i == "p.model.*" {
			model = true
		}
	}
	return model && lib.JavaImported(f)
}

// V_Types: every type of parameter, every method
func V_Types() {
	what := rt.Choice("what", 6)
	m := "POST"
	if what >= 4 || rt.Thorough() {
		m = methods[rt.Choice("method", len(methods))]
	} else if rt.Choice("no body", 2) == 1 {
		m = "GET"
	}
	a := newAction("doIt", m, "/x", 200, "200")
	switch what {
	case 0:
		t := jtypes[rt.Choice("type", len(jtypes))]
		where := []string{"query", "header", "path", ""}[rt.Choice("where", 4)]
		if where == "path" {
			a.def.Path, a.path = "/x/{v}", "/x/{v}"
		}
		a.input("v", t, where, "Vv", nil, "")
	case 1:
		a.output("v", jtypes[rt.Choice("type", len(jtypes))], "")
	case 2:
		a.output("v", jtypes[rt.Choice("type", 13)], "X-V")
	case 3:
		k := rt.Choice("type", 13)
		a.output("h", jtypes[k], "X-H")
		a.output("v", jtypes[(k+3)%len(jtypes)], "")
		if rt.Choice("more", 2) == 1 {
			a.output("i", jtypes[4], "X-I")
		}
	case 4:
		a.input("v", jtypes[13], "", "", nil, "")
	}
	check([]*action{a}, option{imports: true, mutable: len(a.out) == 0 && rt.Choice("mutable", 2) == 1})
}

// V_Defaults: parameters with defaults
func V_Defaults() {
	a := newAction("get", "GET", "/x", 200, "200")
	where := []string{"query", "header"}[rt.Choice("where", 2)]
	switch rt.Choice("type", 4) {
	case 0:
		s := rt.StrN("default", 0, 2, "au\"\\ %\x01\x7f")
		if rt.Choice("pointer", 2) == 1 {
			a.input("v", jtypes[0], where, "V", &s, quoted(s))
		} else {
			a.input("v", jtypes[0], where, "V", s, quoted(s))
		}
	case 1:
		k := rt.Choice("number", 3)
		s := []string{"0", "12", "-7"}[k]
		n, _ := sadl.ParseDecimal(s)
		a.input("v", jtypes[4], where, "V", n, "\""+s+"\"")
	case 2:
		b := rt.Choice("flag", 2) == 1
		a.input("v", jtypes[1], where, "V", b, []string{"\"false\"", "\"true\""}[rt.Choice("flag", 2)])
		if b {
			a.defaults[0] = "\"true\""
		} else {
			a.defaults[0] = "\"false\""
		}
	case 3:
		a.input("w", jtypes[4], where, "W", nil, "")
		a.input("v", jtypes[0], where, "V", "x", "\"x\"")
		a.input("u", jtypes[4], where, "U", nil, "")
	}
	a.output("v", jtypes[13], "")
	check([]*action{a}, option{imports: true})
}

// V_Names: any names
func V_Names() {
	o := option{}
	name := "doIt"
	k := rt.Choice("parameter", 6)
	if k == 4 || rt.Thorough() {
		o.base = []string{"", "/", "/v1", "/a/b"}[rt.Choice("base", 4)]
		if rt.Choice("named", 2) == 1 {
			o.name = rt.StrN("service", 1, 2, letters)
		}
	}
	if k == 5 || rt.Thorough() {
		name = rt.StrN("action", 1, 2, letters)
	}
	a := newAction(name, "POST", "/x", 201, "201")
	switch k {
	case 0:
		n := rt.StrN("path", 1, 2, letters)
		a.path = "/x/{" + n + "}/y"
		a.def.Path = a.path + []string{"", "?", "?a={b}"}[rt.Choice("query", 3)]
		a.input(n, jtypes[0], "path", "", nil, "")
	case 1:
		a.input(rt.StrN("name", 1, 1, letters), jtypes[4], "query", rt.StrN("query name", 1, 1, letters), nil, "")
		a.input("xx", jtypes[0], "header", "X-"+rt.StrN("header", 1, 1, letters), nil, "")
	case 2:
		a.input(rt.StrN("body", 1, 2, letters), jtypes[13], "", "", nil, "")
	case 3:
		a.output(rt.StrN("name", 1, 1, letters), jtypes[13], "")
		a.output("xx", jtypes[0], "X-"+rt.StrN("header", 1, 1, letters))
	}
	check([]*action{a}, o)
}

// V_Exceptions: statuses and exceptions
func V_Exceptions() {
	var as []*action
	codes := []int32{400, 404, 304}
	texts := []string{"400", "404", "304"}
	o := option{imports: true, service: rt.Choice("service exception", 2) == 1}
	for i := rt.Choice("actions", 2) + 1; i > 0; i-- {
		k := i
		if i == 1 {
			k = rt.Choice("status", 3)
		}
		a := newAction([]string{"", "one", "two"}[i], "GET", []string{"", "/one", "/two/{x}"}[i], []int32{200, 202, 204}[k], []string{"200", "202", "204"}[k])
		if i == 2 {
			a.input("x", jtypes[0], "path", "", nil, "")
		}
		if k == 0 {
			a.output("r", jtypes[13], "")
		}
		if n := rt.Choice("exceptions", 3); n > 0 {
			j := rt.Choice("code", 3)
			a.exception("E2", codes[j], texts[j])
			if n == 2 {
				j = (j + 1) % 3
				a.exception("E1", codes[j], texts[j])
			}
		}
		as = append(as, a)
	}
	check(as, o)
}

// V_Unnamed: an action without a name has that of its method and what it is about
func V_Unnamed() {
	k := rt.Choice("method", len(methods))
	m := methods[k]
	a := newAction("", m, "/x", 200, "200")
	in, out := jtypes[13+rt.Choice("in", 3)], jtypes[13+rt.Choice("out", 3)]
	if rt.Choice("input", 2) == 1 {
		a.input("h", jtypes[0], "header", "H", nil, "")
		if m == "POST" || m == "PUT" {
			a.input("i", in, "", "", nil, "")
			a.called = []string{"", "put", "post"}[k] + in.sadl
		}
	}
	if rt.Choice("output", 2) == 1 {
		a.output("g", jtypes[0], "G")
		a.output("o", out, "")
		if m != "POST" && m != "PUT" {
			a.called = []string{"get", "", "", "delete", "patch", "head", "options"}[k] + out.sadl
		}
	}
	if a.called == "" {
		a.called = []string{"get", "put", "post", "delete", "patch", "head", "options"}[k] + "Object"
	}
	check([]*action{a}, option{})
}

// V_Order: the parameters of an action, in any order
func V_Order() {
	a := newAction("putIt", "PUT", "/x/{a}/{b}", 200, "200")
	kinds := []int{0, 1, 2, 3, 4}
	for len(kinds) > 0 {
		i := rt.Choice("next", len(kinds))
		switch kinds[i] {
		case 0:
			a.input("a", jtypes[0], "path", "", nil, "")
		case 1:
			a.input("b", jtypes[4], "path", "", nil, "")
		case 2:
			a.input("c", jtypes[0], "query", "d", "x", "\"x\"")
		case 3:
			a.input("d", jtypes[9], "header", "c", nil, "")
		case 4:
			a.input("e", jtypes[13], "", "", nil, "")
		}
		kinds = append(append([]int{}, kinds[:i]...), kinds[i+1:]...)
	}
	check([]*action{a}, option{imports: true})
}

// V_Shape: any few inputs and outputs, in any places
func V_Shape() {
	a := newAction("doIt", []string{"PUT", "GET", "DELETE"}[rt.Choice("method", 3)], "/x", 200, "200")
	body := false
	for i := rt.Choice("inputs", 4); i > 0; i-- {
		n := []string{"", "one", "two", "three"}[i]
		t := jtypes[[]int{0, 4, 0, 10}[i]]
		switch k := rt.Choice("where", 4); {
		case k == 0:
			a.input(n, t, "query", n+"Q", nil, "")
		case k == 1:
			a.input(n, t, "header", n+"H", nil, "")
		case k == 2:
			a.path += "/{" + n + "}"
			a.def.Path = a.path
			a.input(n, t, "path", "", nil, "")
		case !body:
			body = true
			a.input(n, jtypes[13], "", "", nil, "")
		}
	}
	if len(a.in) < 2 || rt.Thorough() {
		entity := false
		for i := rt.Choice("outputs", 4); i > 0; i-- {
			n := []string{"", "uno", "due", "tre"}[i]
			if rt.Choice("header", 2) == 1 {
				a.output(n, jtypes[[]int{0, 4, 0, 10}[i]], n+"H")
			} else if !entity {
				entity = true
				a.output(n, jtypes[13], "")
			}
		}
	}
	check([]*action{a}, option{imports: true})
}

// V_Example: an example implementation and what starts it, when that is asked for, and the packages of it all
func V_Example() {
	c := sadl.NewData()
	c.Put("package", "p")
	c.Put("server", true)
	c.Put("client", true)
	asked := rt.Choice("asked", 2) == 1
	if asked {
		c.Put("example-implementation", true)
	}
	immutable := rt.Choice("immutable", 2) == 1
	if !immutable {
		c.Put("immutable", false)
		c.Put("client", false)
	}
	// what varies: the packages, the name, or the parameter
	vary := rt.Choice("vary", 3)
	choice := func(v int, n string, k int) int {
		if vary == v || rt.Thorough() {
			return rt.Choice(n, k)
		}
		return 0
	}
	server, client, src := "p.server", "p.client", "src/main/java/"
	switch choice(0, "packages", 4) {
	case 1:
		server = "s" + rt.StrN("server", 0, 1, letters) + ".t"
		c.Put("server-package", server)
	case 2:
		client = "c" + rt.StrN("client", 0, 1, letters) + ".t"
		c.Put("client-package", client)
	case 3:
		src = "x/"
		c.Put("source", "x")
	}
	name := "Test"
	if choice(1, "named", 2) == 1 {
		n := rt.StrN("name", 1, 2, letters)
		c.Put("name", n)
		name = upper(n)
	}
	t := choice(2, "type", 3)
	in := []string{"String", "Timestamp", "When"}[t]
	instants := choice(2, "instants", 2) == 0
	if !instants {
		c.Put("instants", false)
	}
	sc := &sadl.Schema{Name: "test", Types: append(types(), lib.Type("When", sadl.TypeSpec{Type: "Timestamp"}))}
	a := newAction("doIt", "GET", "/x", 200, "200")
	a.input("v", jtype{sadl: in}, "query", "v", nil, "")
	a.output("r", jtypes[13], "")
	b := newAction("Other", "DELETE", "/y", 204, "204")
	sc.Http = []*sadl.HttpDef{a.def, b.def}[:choice(1, "actions", 2)+1]
	dir, ok := export(sc, c)
	if !ok {
		return
	}
	path := func(p string) string {
		b := []byte(p)
		for i := range b {
			if rt.Fork(b[i] == '.') {
				b[i] = '/'
			}
		}
		return src + string(b) + "/"
	}
	if f := read(dir, path(server)+name+"Resources.java"); f != nil {
		rt.Assert(f.Package == server, "the server is in its package")
	}
	if immutable {
		if f := read(dir, path(client)+name+"Client.java"); f != nil {
			rt.Assert(f.Package == client, "the client is in its package")
		}
		if f := read(dir, path(client)+"ClientConfig.java"); f != nil {
			rt.Assert(f.Package == client, "the client is in its package")
		}
	}
	_, e1 := os.ReadFile(filepath.Join(dir, src+"Main.java"))
	_, e2 := os.ReadFile(filepath.Join(dir, src+name+"Controller.java"))
	rt.Assert((e1 == nil) == asked && (e2 == nil) == asked, "there is an example implementation exactly when asked for")
	if !asked || e1 != nil || e2 != nil {
		return
	}
	if f := read(dir, src+name+"Controller.java"); f != nil {
		var want []string
		for _, n := range []string{"doIt", "other"}[:len(sc.Http)] {
			r := upper(n) + "Response"
			val := "new " + r + "()"
			if immutable {
				val = r + ".builder().build()"
			}
			want = append(want, "public "+r+" "+n+"("+upper(n)+"Request req) { return "+val+"; }")
		}
		rt.Assert(f.Package == "" && len(f.Imports) == 1 && f.Imports[0] == "p.model.*" && lib.JavaIs(f.Type.Head, "public class "+name+"Controller implements "+name), "the example implements the service")
		rt.Assert(lib.JavaMembers(f.Type, want...), "the example has a method for each action")
	}
	if f := read(dir, src+"Main.java"); f != nil {
		model, srv := false, false
		for _, i := range f.Imports {
			if i == "p.model.*" {
				model = true
			} else if i == server+".*" {
				srv = true
			}
		}
		rt.Assert(f.Package == "" && model && srv && lib.JavaIs(f.Type.Head, "public class Main"), "the program uses the model and the server")
		rt.Assert(lib.JavaHas(f.Toks, "new ResourceConfig("+name+"Resources.class)") && lib.JavaHas(f.Toks, "bind("+name+"Controller.class).to("+name+".class);") && lib.JavaHas(f.Toks, "public static void main(String[] args)"), "the program serves the example")
		rt.Assert(lib.JavaHas(f.Toks, "config.register(Util.InstantConverterProvider.class);") == (instants && t > 0), "a parameter that is an Instant can be read")
	}
}
