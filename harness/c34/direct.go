package c34

import (
	"os"

	"github.com/boynton/data"
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/smithy"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
	smithylib "github.com/boynton/smithy"
)

func traits(kv ...interface{}) *data.Object {
	o := data.NewObject()
	for i := 0; i < len(kv); i += 2 {
		o.Put("smithy.api#"+kv[i].(string), kv[i+1])
	}
	return o
}

func member(target string, kv ...interface{}) *smithylib.Member {
	m := &smithylib.Member{Target: target}
	if len(kv) > 0 {
		m.Traits = traits(kv...)
	}
	return m
}

func members(kv ...interface{}) *smithylib.Members {
	ms := smithylib.NewMembers()
	for i := 0; i < len(kv); i += 2 {
		ms.Put(kv[i].(string), kv[i+1].(*smithylib.Member))
	}
	return ms
}

func ast() *smithylib.AST {
	a := &smithylib.AST{Smithy: "2", Metadata: data.NewObject(), Shapes: smithylib.NewShapes()}
	a.PutShape("ns#Str", &smithylib.Shape{Type: "string"})
	a.PutShape("ns#Point", &smithylib.Shape{Type: "structure", Members: members("x", member("smithy.api#Integer", "required", true))})
	return a
}

type m = map[string]interface{}

// V_shapes: what each kind of shape is
func V_shapes() {
	kinds := [][2]string{{"byte", "Int8"}, {"short", "Int16"}, {"integer", "Int32"}, {"long", "Int64"}, {"float", "Float32"}, {"double", "Float64"}, {"bigDecimal", "Decimal"}, {"bigInteger", "Decimal"},
		{"string", "String"}, {"blob", "Bytes"}, {"boolean", "Bool"}, {"timestamp", "Timestamp"}, {"document", "Any"}, {"list", "Array"}, {"set", "Array"}, {"map", "Map"}, {"structure", "Struct"}, {"union", "Union"}, {"enum", "Enum"}}
	k := kinds[rt.Choice("kind", len(kinds))]
	a := ast()
	sh := &smithylib.Shape{Type: k[0], Traits: data.NewObject()}
	want := sadl.TypeSpec{Type: k[1]}
	switch k[1] {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		min, max := rt.Choice("min", 3), rt.Choice("max", 3)
		r := m{}
		if min > 0 {
			r["min"] = []interface{}{0, 0, -2.5}[min]
			want.Min = lib.Dec([]string{"", "0", "-2.5"}[min])
		}
		if max > 0 {
			r["max"] = []interface{}{0, 0, 100}[max]
			want.Max = lib.Dec([]string{"", "0", "100"}[max])
		}
		if len(r) > 0 {
			sh.Traits.Put("smithy.api#range", r)
		}
	case "String", "Bytes", "Array", "Map":
		l := m{}
		if rt.Choice("minsize", 2) == 1 {
			want.MinSize = lib.I64(rt.Int64("min", 0, 9))
			l["min"] = *want.MinSize
		}
		if rt.Choice("maxsize", 2) == 1 {
			want.MaxSize = lib.I64(int64([]int{0, 5, 12}[rt.Choice("max", 3)]))
			l["max"] = *want.MaxSize
		}
		if len(l) > 0 {
			sh.Traits.Put("smithy.api#length", l)
		}
	}
	switch k[0] {
	case "string":
		switch rt.Choice("text", 3) {
		case 1:
			want.Pattern = rt.StrN("pattern", 1, 2, "ab*")
			sh.Traits.Put("smithy.api#pattern", want.Pattern)
		case 2: // values, with names or without
			v := rt.StrN("v", 1, 2, "aB1")
			want.Values = []string{v, "b"}
			sh.Traits.Put("smithy.api#enum", []interface{}{m{"value": v, "name": "ONE"}, m{"value": "b"}})
		}
	case "list", "set":
		sh.Member = member("ns#Point")
		want.Items = "Point"
	case "map":
		sh.Key, sh.Value = member("ns#Str"), member("smithy.api#Boolean")
		want.Keys, want.Items = "Str", "Bool"
	case "structure":
		f := lib.Field(lib.Word("field"), rt.Fork(rt.Bool("required")), sadl.TypeSpec{Type: "Point"})
		f.Comment = rt.StrN("fcomment", 0, 1, "ab")
		want.Fields = []*sadl.StructFieldDef{f}
		sh.Members = members(f.Name, member("ns#Point", "required", f.Required, "documentation", f.Comment))
	case "union":
		want.Variants = []*sadl.UnionVariantDef{{Name: lib.Word("v"), TypeSpec: sadl.TypeSpec{Type: "Point"}}, {Name: "s", TypeSpec: sadl.TypeSpec{Type: "Int64"}}}
		sh.Members = members(want.Variants[0].Name, member("ns#Point"), "s", member("smithy.api#Long"))
	case "enum":
		e := &sadl.EnumElementDef{Symbol: lib.Word("e"), Annotations: map[string]string{"x_enumValue": "v"}}
		want.Elements = []*sadl.EnumElementDef{e, {Symbol: "Two", Comment: "c"}}
		sh.Members = members(e.Symbol, member("smithy.api#Unit", "enumValue", "v"), "Two", member("smithy.api#Unit", "documentation", "c"))
	}
	comment := ""
	switch rt.Choice("comment", 3) {
	case 1:
		comment = rt.StrN("comment", 1, 2, "ab ")
		sh.Traits.Put("smithy.api#documentation", comment)
	case 2:
		w := rt.StrN("words", 1, 1, "aB/.")
		comment = "one" + w + "\n" + w + "two"
		sh.Traits.Put("smithy.api#documentation", " one"+w+" \n "+w+"two")
	}
	a.PutShape("ns#X", sh)
	md, err := load(a)
	rt.Assert(err == nil, "the model is imported")
	if err != nil {
		return
	}
	got := typ(md, "X")
	if got == nil {
		return
	}
	spec(md, &got.TypeSpec, &want)
	rt.Assert(got.Comment == comment, "comment of the type")
	rt.Assert((got.Annotations["x_integer"] == "true") == (k[0] == "bigInteger"), "a big integer is a whole decimal")
	rt.Assert((got.Annotations["x_unique"] == "true") == (k[0] == "set"), "a set has unique items")
}

// V_prelude: the shapes of Smithy itself
func V_prelude() {
	names := [][2]string{{"Boolean", "Bool"}, {"PrimitiveBoolean", "Bool"}, {"Byte", "Int8"}, {"PrimitiveByte", "Int8"}, {"Short", "Int16"}, {"PrimitiveShort", "Int16"}, {"Integer", "Int32"}, {"PrimitiveInteger", "Int32"},
		{"Long", "Int64"}, {"PrimitiveLong", "Int64"}, {"Float", "Float32"}, {"PrimitiveFloat", "Float32"}, {"Double", "Float64"}, {"PrimitiveDouble", "Float64"}, {"BigInteger", "Decimal"}, {"BigDecimal", "Decimal"},
		{"String", "String"}, {"Blob", "Bytes"}, {"Timestamp", "Timestamp"}, {"Document", "Struct"}, {"Unit", "Struct"}}
	k := names[rt.Choice("name", len(names))]
	t := "smithy.api#" + k[0]
	a := ast()
	a.PutShape("ns#S", &smithylib.Shape{Type: "structure", Members: members("f", member(t))})
	a.PutShape("ns#U", &smithylib.Shape{Type: "union", Members: members("f", member(t))})
	a.PutShape("ns#L", &smithylib.Shape{Type: "list", Member: member(t)})
	a.PutShape("ns#M", &smithylib.Shape{Type: "map", Key: member("smithy.api#String"), Value: member(t)})
	md, err := load(a)
	rt.Assert(err == nil, "the model is imported")
	if err == nil {
		rt.Assert(typ(md, "S").Fields[0].Type == k[1] && typ(md, "U").Variants[0].Type == k[1] && typ(md, "L").Items == k[1] && typ(md, "M").Items == k[1], "the base type")
	}
}

// V_bindings: where the inputs and outputs of an action are
func V_bindings() {
	a := ast()
	in, out := members(), members()
	uri, query := "/a", ""
	var wantIn, wantOut []*sadl.HttpParamSpec
	var inBody, outBody []string
	bound, payload := false, false
	for i, n := range []string{"p", "q"} {
		place := rt.Choice(n+" place", 6)
		if place == 5 { // not there
			continue
		}
		p := &sadl.HttpParamSpec{}
		p.Name, p.Type, p.Required = n, []string{"String", "Point"}[i], place == 0 || rt.Choice(n+" required", 2) == 1
		p.Comment = []string{"", "c"}[i]
		mem := member([]string{"smithy.api#String", "ns#Point"}[i], "documentation", p.Comment, "required", p.Required)
		in.Put(n, mem)
		switch place {
		case 0:
			mem.Traits.Put("smithy.api#httpLabel", true)
			p.Path = true
			uri += "/{" + n + "}"
		case 1:
			p.Query = "k" + n
			mem.Traits.Put("smithy.api#httpQuery", p.Query)
			if query == "" {
				query = "?"
			} else {
				query += "&"
			}
			query += p.Query + "={" + n + "}"
		case 2:
			p.Header = "X-" + n
			mem.Traits.Put("smithy.api#httpHeader", p.Header)
		case 3:
			rt.Assume(!payload)
			payload = true
			mem.Traits.Put("smithy.api#httpPayload", true)
		case 4:
			inBody = append(inBody, n)
			continue
		}
		bound = true
		wantIn = append(wantIn, p)
	}
	rt.Assume(!(payload && len(inBody) > 0))
	if len(inBody) > 0 || !bound {
		b := &sadl.HttpParamSpec{}
		b.Name, b.Type = "body", "In"
		wantIn = append(wantIn, b)
	}
	ob, op := false, false
	for i, n := range []string{"r", "s"} {
		place := rt.Choice(n+" place", 4)
		if place == 3 { // not there
			continue
		}
		p := &sadl.HttpParamSpec{}
		p.Name, p.Type = n, []string{"Int64", "Point"}[i]
		mem := member([]string{"smithy.api#Long", "ns#Point"}[i])
		mem.Traits = data.NewObject()
		out.Put(n, mem)
		switch place {
		case 0:
			p.Header = "X-" + n
			mem.Traits.Put("smithy.api#httpHeader", p.Header)
		case 1:
			rt.Assume(!op)
			op = true
			mem.Traits.Put("smithy.api#httpPayload", true)
		case 2:
			outBody = append(outBody, n)
			continue
		}
		ob = true
		wantOut = append(wantOut, p)
	}
	rt.Assume(!(op && len(outBody) > 0))
	if len(outBody) > 0 || !ob {
		b := &sadl.HttpParamSpec{}
		b.Name, b.Type = "body", "Out"
		wantOut = append(wantOut, b)
	}
	a.PutShape("ns#In", &smithylib.Shape{Type: "structure", Members: in})
	a.PutShape("ns#Out", &smithylib.Shape{Type: "structure", Members: out})
	a.PutShape("ns#Do", &smithylib.Shape{Type: "operation", Traits: traits("http", m{"method": "POST", "uri": uri}), Input: &smithylib.ShapeRef{Target: "ns#In"}, Output: &smithylib.ShapeRef{Target: "ns#Out"}})
	md, err := load(a)
	rt.Assert(err == nil, "the model is imported")
	if err != nil {
		return
	}
	rt.Assert(len(md.Http) == 1, "the action")
	h := md.Http[0]
	rt.Assert(h.Name == "do" && h.Method == "POST" && h.Path == uri+query && h.Expected != nil && h.Expected.Status == 200, "name, method, path and status of the action")
	where(h.Inputs, wantIn)
	where(h.Expected.Outputs, wantOut)
	body(md, "In", len(inBody) > 0 || !bound, inBody)
	body(md, "Out", len(outBody) > 0 || !ob, outBody)
}

func where(got, want []*sadl.HttpParamSpec) {
	rt.Assert(len(got) == len(want), "number of parameters")
	for i, p := range want {
		if i < len(got) {
			g := got[i]
			rt.Assert(g.Name == p.Name && g.Type == p.Type && g.Comment == p.Comment && g.Required == p.Required, "name, type, comment and required of the parameter")
			rt.Assert(g.Path == p.Path && g.Query == p.Query && g.Header == p.Header, "place of the parameter")
		}
	}
}

// body: the members that are nowhere else are the body
func body(md *sadl.Model, name string, there bool, fields []string) {
	n := 0
	for _, td := range md.Types {
		if td.Name == name {
			n++
			rt.Assert(td.Type == "Struct" && len(td.Fields) == len(fields), "the body has the members that are nowhere else")
			for i, f := range fields {
				if i < len(td.Fields) {
					rt.Assert(td.Fields[i].Name == f, "the body has the members that are nowhere else")
				}
			}
		}
	}
	rt.Assert((n == 1) == there && n < 2, "a type for the body exactly when there is one")
}

// V_shared: inputs, outputs and errors that are types, too
func V_shared() {
	a := ast()
	req := &smithylib.ShapeRef{Target: "ns#Req"}
	a.PutShape("ns#Req", &smithylib.Shape{Type: "structure", Members: members("id", member("smithy.api#String", "httpLabel", true, "required", true))})
	a.PutShape("ns#Gone", &smithylib.Shape{Type: "structure", Traits: traits("error", "client", "httpError", 410, "documentation", "it is gone"), Members: members("why", member("smithy.api#String"))})
	op := func(uri string) *smithylib.Shape {
		return &smithylib.Shape{Type: "operation", Traits: traits("http", m{"method": "GET", "uri": uri, "code": 203}), Input: req, Errors: []*smithylib.ShapeRef{{Target: "ns#Gone"}}}
	}
	a.PutShape("ns#One", op("/one/{id}"))
	two := rt.Choice("two", 2) == 1
	if two {
		a.PutShape("ns#Two", op("/two/{id}"))
	}
	used := rt.Choice("used", 3)
	switch used {
	case 1:
		a.PutShape("ns#L", &smithylib.Shape{Type: "list", Member: member("ns#Req")})
	case 2:
		a.PutShape("ns#S", &smithylib.Shape{Type: "structure", Members: members("r", member("ns#Req"))})
	}
	md, err := load(a)
	rt.Assert(err == nil, "the model is imported")
	if err != nil {
		return
	}
	n := 1
	if two {
		n = 2
	}
	rt.Assert(len(md.Http) == n, "every action")
	for _, h := range md.Http {
		rt.Assert(len(h.Inputs) == 1 && h.Inputs[0].Path && h.Inputs[0].Name == "id", "the input")
		rt.Assert(h.Expected.Status == 203, "status of the action")
		rt.Assert(len(h.Exceptions) == 1 && h.Exceptions[0].Type == "Gone" && h.Exceptions[0].Status == 410 && h.Exceptions[0].Comment == "it is gone", "the exception")
	}
	typ(md, "Gone")
	if used > 0 {
		rt.Assert(len(typ(md, "Req").Fields) == 1, "an input that is used as a type")
	}
}

// V_chain: inputs and outputs that are used as types by each other
func V_chain() {
	a := ast()
	order := [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 3, 0, 2}}[rt.Choice("order", 4)]
	output := rt.Choice("outputs", 2) == 1
	for _, i := range order {
		d := string([]byte{byte('0' + i)})
		next := member("smithy.api#String")
		if i < 3 {
			next = member("ns#R" + string([]byte{byte('1' + i)}))
		}
		a.PutShape("ns#R"+d, &smithylib.Shape{Type: "structure", Members: members("a", next)})
		op := &smithylib.Shape{Type: "operation", Traits: traits("http", m{"method": "POST", "uri": "/o" + d, "code": 200})}
		if output && i%2 == 1 {
			op.Output = &smithylib.ShapeRef{Target: "ns#R" + d}
		} else {
			op.Input = &smithylib.ShapeRef{Target: "ns#R" + d}
		}
		a.PutShape("ns#O"+d, op)
	}
	used := rt.Choice("used", 2) == 1
	if used {
		a.PutShape("ns#L", &smithylib.Shape{Type: "list", Member: member("ns#R0")})
	}
	md, err := load(a)
	rt.Assert(err == nil, "the model is imported")
	if err != nil {
		return
	}
	rt.Reach("chain")
	rt.Assert(len(md.Http) == 4, "every action")
	for i := 0; i < 4; i++ {
		d := string([]byte{byte('0' + i)})
		if i > 0 || used {
			td := md.FindType("R" + d)
			rt.Assert(td != nil && td.Type == "Struct" && len(td.Fields) == 1 && td.Fields[0].Name == "a" && td.Fields[0].Type == []string{"R1", "R2", "R3", "String"}[i], "an input that is used as a type is one")
		}
	}
}

// V_services: the service names the model
func V_services() {
	a := ast()
	n := rt.Choice("services", 3)
	version := rt.StrN("version", 1, 2, "12.")
	for i := 0; i < n; i++ {
		sv := &smithylib.Shape{Type: "service", Version: version, Traits: traits("documentation", "about")}
		if i == 1 {
			sv.Version, sv.Traits = "7", traits("documentation", "other")
		}
		a.PutShape("ns#"+[]string{"First", "FirstTwo"}[i], sv)
	}
	a.Metadata.Put("base", "/b")
	key := []string{"owner", "version", "Name", "service", "namespace"}[rt.Choice("metadata", 5)]
	a.Metadata.Put(key, "me")
	conf := sadl.NewData()
	name := []string{"", "Given"}[rt.Choice("name", 2)]
	conf.Put("name", name)
	chosen := rt.Choice("chosen", 3)
	if chosen > 0 {
		conf.Put("service", []string{"", "ns#First", "ns#FirstTwo"}[chosen])
	}
	space := []string{"", "some.where"}[rt.Choice("namespace", 2)]
	conf.Put("namespace", space)
	f := rt.TempDir() + "/m.json"
	file(a, f)
	md, err := smithy.Import([]string{f}, conf)
	rt.Assert((err != nil) == (n == 2 && chosen == 0), "one service, or the one that is asked for")
	if err != nil {
		return
	}
	want := name
	there := n > 0 && chosen < 2 || n == 2
	if want == "" && there {
		want = "First"
		if chosen == 2 {
			want = "FirstTwo"
		}
	}
	rt.Assert(md.Name == want, "name of the model")
	v, c := "", ""
	if there {
		v, c = version, "about"
		if chosen == 2 {
			v, c = "7", "other"
		}
	}
	rt.Assert(md.Version == v && md.Comment == c, "version and comment of the model")
	rt.Assert(md.Annotations["x_"+key] == "me", "metadata are annotations")
	rt.Assert(md.Namespace == space, "namespace")
}

// V_traits: the traits that are annotations, and those that are of no use to SADL
func V_traits() {
	a := ast()
	text := rt.StrN("text", 1, 2, "ab")
	var v interface{}
	name := ""
	want := map[string]string{}
	switch rt.Choice("trait", 9) {
	case 0:
		name, v = "tags", []interface{}{"t", text}
		want["x_tags"] = "t," + text
	case 1:
		name, v = "deprecated", m{"message": text, "since": "1"}
		want["x_deprecated"], want["x_deprecated_message"], want["x_deprecated_since"] = "true", text, "1"
	case 2:
		name, v = "deprecated", m{}
		want["x_deprecated"] = "true"
	case 3:
		name, v = "timestampFormat", text
		want["x_timestampFormat"] = text
	case 4:
		name, v = "error", text
		want["x_error"] = text
	case 5:
		name, v = "httpError", 404
		want["x_httpError"] = "404"
	case 6:
		name, v = "sensitive", m{}
	case 7:
		name, v = "xmlName", text
	case 8:
		name, v = "internal", m{}
	}
	k := []string{"structure", "string", "timestamp", "integer", "boolean", "blob", "document", "union", "list", "map", "enum"}[rt.Choice("kind", 11)]
	sh := &smithylib.Shape{Type: k, Traits: traits(name, v)}
	switch k {
	case "structure":
		sh.Members = members("f", member("ns#Str", name, v))
	case "union":
		sh.Members = members("f", member("ns#Str"))
	case "enum":
		sh.Members = members("f", member("smithy.api#Unit"))
	case "list":
		sh.Member = member("ns#Str")
	case "map":
		sh.Key, sh.Value = member("ns#Str"), member("ns#Str")
	}
	a.PutShape("ns#X", sh)
	md, err := load(a)
	rt.Assert(err == nil, "the model is imported")
	if err != nil {
		return
	}
	got := typ(md, "X")
	rt.Assert(lib.SameAnnotations(got.Annotations, want), "the annotations of the type")
	if k == "structure" {
		rt.Assert(lib.SameAnnotations(got.Fields[0].Annotations, want), "the annotations of the field")
	}
}

// V_broken: what refers to nothing is an error, not a model that cannot be used
func V_broken() {
	a := ast()
	name := []string{"Point", "Nope"}[rt.Choice("there", 2)]
	t := "ns#" + name
	bad := name == "Nope"
	put := func(s *smithylib.Shape) { a.PutShape("ns#X", s) }
	ref := &smithylib.ShapeRef{Target: t}
	http := traits("http", m{"method": "GET", "uri": "/a"})
	switch rt.Choice("case", 13) {
	case 0:
		put(&smithylib.Shape{Type: "structure", Members: members("a", member("smithy.api#String"), "b", member(t))})
	case 1:
		put(&smithylib.Shape{Type: "union", Members: members("a", member("smithy.api#String"), "b", member(t))})
	case 2:
		put(&smithylib.Shape{Type: "list", Member: member(t)})
	case 3:
		put(&smithylib.Shape{Type: "map", Key: member("smithy.api#String"), Value: member(t)})
	case 4:
		put(&smithylib.Shape{Type: "operation", Traits: http, Input: ref})
	case 5:
		put(&smithylib.Shape{Type: "operation", Traits: http, Output: ref})
	case 6:
		put(&smithylib.Shape{Type: "operation", Traits: http, Errors: []*smithylib.ShapeRef{ref}})
		if !bad {
			a.GetShape(t).Traits = traits("httpError", 404)
		}
	case 7:
		put(&smithylib.Shape{Type: "operation", Input: ref})
	case 8:
		put(&smithylib.Shape{Type: "operation", Output: ref})
	case 9:
		put(&smithylib.Shape{Type: "operation", Errors: []*smithylib.ShapeRef{ref}})
	case 10:
		put(&smithylib.Shape{Type: "list"})
		bad = true
	case 11:
		put(&smithylib.Shape{Type: "map", Key: member("smithy.api#String")})
		bad = true
	case 12:
		put(&smithylib.Shape{Type: rt.StrN("type", 1, 2, "ab")})
		bad = true
	}
	_, err := load(a)
	rt.Assert((err != nil) == bad, "an error exactly when the model is broken")
}

// V_files: a model may be in many files
func V_files() {
	d := rt.TempDir()
	one, two := ast(), &smithylib.AST{Smithy: "2", Shapes: smithylib.NewShapes()}
	n := rt.StrN("name", 1, 2, "XY")
	two.PutShape("ns#"+n, &smithylib.Shape{Type: "list", Member: member("ns#Point")})
	bad := false
	paths := []string{d + "/m/one.json", d + "/m/sub/two.json"}
	rt.Assert(os.MkdirAll(d+"/m/sub", 0755) == nil, "directories")
	file(one, paths[0])
	file(two, paths[1])
	os.WriteFile(d+"/m/read.me", []byte("not a model"), 0644)
	types := 3
	switch rt.Choice("case", 8) {
	case 1:
		paths = []string{d + "/m"}
	case 2:
		paths[0], paths[1] = paths[1], paths[0]
	case 3:
		paths = paths[:1]
		types = 2
	case 4: // a file that is not there
		paths = append(paths, d+"/m/three.json")
		bad = true
	case 5: // a file that is not JSON
		os.WriteFile(d+"/m/three.json", []byte("{\"smithy\": \"2\""), 0644)
		paths = []string{d + "/m"}
		bad = true
	case 6: // a file that is not Smithy
		os.WriteFile(d+"/m/three.json", []byte("{\"openapi\": \"3.0\"}"), 0644)
		rt.Assert(!smithy.IsValidFile(d+"/m/three.json"), "not a Smithy file")
		paths = append(paths, d+"/m/three.json")
		bad = true
	case 7:
		paths = append(paths, d+"/m/read.me")
		rt.Assert(!smithy.IsValidFile(d+"/m/read.me"), "not a Smithy file")
		bad = true
	}
	md, err := smithy.Import(paths, sadl.NewData())
	rt.Assert((err != nil) == bad, "an error exactly when a file cannot be read")
	if err == nil {
		rt.Assert(len(md.Types) == types, "the types of every file")
		if types == 3 {
			rt.Assert(typ(md, n).Items == "Point", "the types of every file")
		}
		typ(md, "Str")
		typ(md, "Point")
	}
}
