package c29

import (
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:parser
//verif:assume boynton/scanner is not available offline: it is modelled by /verif/stubs/scanner, which scans the text that is written
//verif:assume names are SADL identifiers, and strings have no backslash and no quote (how the missing scanner reads escapes is not known)
//verif:bound one type of each of 16 kinds (next to a struct, a string and an enum it refers to) with every combination of its constraints; sizes 0..9, limits of 1..2 digits and a fraction, names, patterns, values and annotation values of 1..2 symbolic characters; comments none, short or wrapped
//verif:bound a struct with one field of every kind, required or not, with a default, comment, annotations; one action with 7 kinds of inputs and 4 of outputs, up to 2 exceptions; one operation; examples of every kind of literal

func roundTrip(s *sadl.Schema) *sadl.Schema {
	m, err := sadl.NewModel(s)
	rt.Assert(err == nil, "model")
	text := sadl.DecompileSadl(m)
	rt.Observe("text", text)
	m2, err := sadl.ParseSadlString(text, sadl.NewData())
	rt.Assert(err == nil, "what is written can be read")
	lib.SameSchema(s, &m2.Schema)
	rt.Reach("compared")
	return &m2.Schema
}

func schema(types ...*sadl.TypeDef) *sadl.Schema {
	return &sadl.Schema{Name: "test", Types: append(lib.Defined(), types...)}
}

func V_types() {
	td := lib.Type("X"+lib.Word("name"), lib.Spec(lib.Kinds[rt.Choice("kind", len(lib.Kinds))]))
	roundTrip(schema(td))
}

func V_typeComments() {
	kind := []string{"Bool", "String", "Array", "Struct", "Enum", "Union"}[rt.Choice("kind", 6)]
	td := lib.Type("X", sadl.TypeSpec{Type: kind})
	switch kind {
	case "Array":
		td.Items = "Str"
	case "Struct":
		td.Fields = []*sadl.StructFieldDef{lib.Field("a", true, sadl.TypeSpec{Type: "Bool"})}
	case "Enum":
		td.Elements = lib.Elements("p", "q")
	case "Union":
		td.Variants = []*sadl.UnionVariantDef{{Name: "Str", TypeSpec: sadl.TypeSpec{Type: "Str"}}}
	}
	switch rt.Choice("vary", 2) {
	case 0:
		td.Comment = lib.Comment()
	case 1:
		td.Annotations = lib.Annotations()
	}
	roundTrip(schema(td))
}

func literal(kind string) interface{} {
	switch kind {
	case "Bool":
		return rt.Bool("lit")
	case "Int8", "Int64", "Float64":
		return lib.Dec(rt.StrN("lit", 1, 2, "123"))
	case "Decimal":
		s := rt.StrN("lit", 1, 2, "123")
		switch rt.Choice("digits", 3) {
		case 1: // more digits than a float64 holds
			s = "1234567890123456789" + s + ".5"
		case 2:
			s = "0.1" // no binary fraction is exact
		}
		return lib.Dec(s)
	case "String":
		s := rt.StrN("lit", 0, 2, "ab :")
		return &s
	case "Array":
		a, b := "x", rt.StrN("lit", 1, 1, "ab")
		return []interface{}{&a, &b}
	case "Map":
		a := rt.StrN("lit", 1, 1, "ab")
		return map[string]interface{}{a: map[string]interface{}{"x": lib.Dec("1")}, "other": map[string]interface{}{"x": lib.Dec("2")}}
	case "Struct":
		return map[string]interface{}{"x": lib.Dec(rt.StrN("lit", 1, 1, "123"))}
	}
	return nil
}

func V_fields() {
	kind := lib.Kinds[rt.Choice("kind", len(lib.Kinds)-1)]
	f := lib.Field(lib.Word("field"), rt.Bool("required"), lib.Spec(kind))
	rt.Fork(f.Required)
	td := lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f, lib.Field("last", true, sadl.TypeSpec{Type: "Str"})}})
	roundTrip(schema(td))
}

func V_fieldExtras() {
	kind := []string{"Bool", "Int8", "Decimal", "String", "Array", "Map", "Struct", "Enum", "UUID"}[rt.Choice("kind", 9)]
	f := lib.Field("f", false, sadl.TypeSpec{Type: kind})
	switch kind {
	case "Array":
		f.Items = "Str"
	case "Map":
		f.Keys, f.Items = "Str", "Point"
	case "Struct":
		f.Fields = []*sadl.StructFieldDef{lib.Field("x", true, sadl.TypeSpec{Type: "Int32"})}
	case "Enum":
		f.Elements = lib.Elements("p", "q")
	}
	switch rt.Choice("vary", 4) {
	case 0:
		f.Comment = lib.Comment()
	case 1:
		f.Annotations = lib.Annotations()
	case 2:
		f.Default = literal(kind)
	case 3:
		f.Required = true
		f.Comment = "c"
		f.Annotations = map[string]string{"x_a": "b"}
	}
	td := lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f, lib.Field("last", true, sadl.TypeSpec{Type: "Str"})}})
	td.Fields[1].Comment = "last one"
	roundTrip(schema(td))
}

func param(name, typ string) *sadl.HttpParamSpec {
	return &sadl.HttpParamSpec{StructFieldDef: sadl.StructFieldDef{Name: name, TypeSpec: sadl.TypeSpec{Type: typ}}}
}

func action() *sadl.HttpDef {
	id := param("id", "Str")
	id.Path, id.Required = true, true
	return &sadl.HttpDef{Name: "op", Method: "PUT", Path: "/things/{id}", Inputs: []*sadl.HttpParamSpec{id}}
}

func V_http() {
	h := action()
	switch rt.Choice("vary", 6) {
	case 0:
		h.Method = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}[rt.Choice("method", 7)]
		h.Comment = lib.Comment()
	case 1:
		h.Annotations = lib.Annotations()
	case 2:
		switch rt.Choice("naming", 4) {
		case 0:
			h.Name, h.Resource = "putThings", "things"
		case 1:
			h.Resource = "other"
			h.Name = "putOther"
		case 2:
			h.Resource = rt.StrN("resource", 1, 1, "ab")
			h.Name = "x" + rt.StrN("opname", 1, 1, "ab")
		case 3:
			h.Name, h.Resource = "putThings", ""
		}
	case 3:
		p := param("q", []string{"String", "Int32"}[rt.Choice("type", 2)])
		h.Path += "?" + rt.StrN("query", 1, 2, "ab") + "={q}"
		p.Query = h.Path[len("/things/{id}?") : len(h.Path)-len("={q}")]
		switch rt.Choice("extra", 5) {
		case 0:
			p.Required = true
		case 1:
			p.Default = literal("Int8")
		case 2:
			p.Default = literal("String")
		case 3:
			p.Comment = lib.Comment()
		case 4:
			p.Annotations = lib.Annotations()
		}
		h.Inputs = append(h.Inputs, p)
	case 4:
		p := param(lib.Word("header"), "Timestamp")
		p.Header = "X-" + rt.StrN("hname", 1, 1, "AB")
		p.Required = rt.Bool("required")
		rt.Fork(p.Required)
		b := param("body", "Array")
		b.Items = "Point"
		b.Required = true
		h.Inputs = append(h.Inputs, p, b)
	case 5:
		p := param("kind", "Enum")
		p.Elements = lib.Elements("p", "q")
		p.Query = "k"
		h.Path += "?k={kind}"
		h.Inputs = append(h.Inputs, p)
	}
	s := schema()
	s.Http = []*sadl.HttpDef{h}
	roundTrip(s)
}

func V_responses() {
	h := action()
	switch rt.Choice("vary", 5) {
	case 0:
		h.Expected = &sadl.HttpExpectedSpec{Status: []int32{204, 304}[rt.Choice("status", 2)], Comment: lib.Comment()}
	case 1:
		h.Expected = &sadl.HttpExpectedSpec{Status: 200, Annotations: lib.Annotations()}
	case 2:
		o := param(lib.Word("out"), []string{"Point", "String", "Array", "Map"}[rt.Choice("type", 4)])
		switch o.Type {
		case "Array":
			o.Items = "Str"
		case "Map":
			o.Keys, o.Items = "String", "Point"
		}
		o.Required = true
		o.Comment = []string{"", "result"}[rt.Choice("comment", 2)]
		hd := param("hdr", "Int32")
		hd.Header = "X-" + rt.StrN("hname", 1, 1, "AB")
		h.Expected = &sadl.HttpExpectedSpec{Status: 200 + int32(rt.Int("code", 0, 3)), Outputs: []*sadl.HttpParamSpec{o, hd}}
	case 3:
		h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "Point", Status: 400 + int32(rt.Int("ecode", 0, 10)), Comment: lib.Comment()}, {Type: "Str"}}
	case 4:
		h.Expected = &sadl.HttpExpectedSpec{Status: 204}
		h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "Point", Status: 404, Annotations: lib.Annotations()}, {Type: "Str", Comment: "c", Annotations: map[string]string{"x_a": "b"}}}
	}
	s := schema()
	s.Http = []*sadl.HttpDef{h, {Name: "second", Method: "GET", Path: "/second"}}
	roundTrip(s)
}

func V_operations() {
	op := &sadl.OperationDef{Name: "Do" + lib.Word("name")}
	for i := rt.Choice("inputs", 3); i > 0; i-- {
		in := &sadl.OperationInput{}
		in.Name, in.Type = []string{"", "a", "b"}[i], "Str"
		op.Inputs = append(op.Inputs, in)
	}
	if len(op.Inputs) > 0 {
		op.Inputs[len(op.Inputs)-1].Required = rt.Fork(rt.Bool("required"))
	}
	if rt.Choice("outputs", 2) == 1 {
		op.Outputs = []*sadl.OperationOutput{{Name: "out", TypeSpec: sadl.TypeSpec{Type: "Point"}}, {Name: lib.Word("oname"), TypeSpec: sadl.TypeSpec{Type: "Int32"}}}
	}
	switch rt.Choice("vary", 5) {
	case 0:
		op.Comment = lib.Comment()
	case 1:
		op.Annotations = lib.Annotations()
	case 2:
		if len(op.Inputs) > 0 {
			op.Inputs[0].Comment = lib.Comment()
		}
	case 3:
		if len(op.Outputs) > 0 {
			op.Outputs[0].Comment = lib.Comment()
		}
	case 4:
		op.Exceptions = []string{"Point", "Str"}
	}
	s := schema()
	s.Operations = []*sadl.OperationDef{op}
	roundTrip(s)
}

func V_examples() {
	kind := []string{"Bool", "Decimal", "String", "Array", "Map", "Struct"}[rt.Choice("kind", 6)]
	td := lib.Type("X", sadl.TypeSpec{Type: kind, Items: "Str"})
	switch kind {
	case "Map":
		td.Keys, td.Items = "String", "Point"
	case "Struct":
		td.TypeSpec = lib.Defined()[0].TypeSpec
	default:
		if kind != "Array" {
			td.Items = ""
		}
	}
	e := &sadl.ExampleDef{Target: "X", Example: literal(kind)}
	switch rt.Choice("vary", 3) {
	case 0:
		e.Name = lib.Word("name")
	case 1:
		e.Comment = lib.Comment()
	}
	s := schema(td)
	s.Examples = []*sadl.ExampleDef{e, {Target: "Point.x", Example: lib.Dec("3")}}
	roundTrip(s)
}

func V_schema() {
	s := schema()
	switch rt.Choice("vary", 7) {
	case 0:
		s.Name = lib.Word("name")
	case 1:
		s.Namespace = lib.Word("ns") + "." + lib.Word("ns")
	case 2:
		s.Version = rt.StrN("version", 1, 2, "1a.")
	case 3:
		s.Base = "/" + rt.StrN("base", 0, 2, "ab/")
	case 4:
		s.Comment = lib.Comment()
	case 5:
		s.Annotations = lib.Annotations()
	case 6:
		s.Name = ""
	}
	roundTrip(s)
}

// V_order: the text does not depend on the order in which maps are visited
func V_order() {
	annos := map[string]string{"x_a": "1", "x_b": "2"}
	s := schema(&sadl.TypeDef{Name: "E", Annotations: annos, TypeSpec: sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "p", Annotations: annos}}}})
	s.Annotations = annos
	s.Types[0].Fields[0].Annotations = annos
	s.Http = []*sadl.HttpDef{{Name: "a", Method: "GET", Path: "/a", Annotations: annos}}
	s.Operations = []*sadl.OperationDef{{Name: "O", Annotations: annos}}
	m, err := sadl.NewModel(s)
	rt.Assert(err == nil, "model")
	t1 := sadl.DecompileSadl(m)
	rt.MapOrder(true)
	t2 := sadl.DecompileSadl(m)
	rt.MapOrder(false)
	rt.Assert(t1 == t2, "the text is the same every time")
}
