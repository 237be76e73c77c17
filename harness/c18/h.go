package c18

import (
	"io/ioutil"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound one or two types of every kind with symbolic options (sizes 0..99, limits of 1 digit, patterns of 1..2 letters, 1..2 values or elements), at the top level, as a field, an item, a map value, a variant; one action with any method, a path, query, header parameter and body, expected output, header and exception
//verif:bound through the document in memory; and through the document as JSON in a file for a fixed set of types and actions with symbolic names
//verif:bound a service with symbolic name, version, comment, server and licence (with a name), an action with a resource and up to two more tags
//verif:assume names and statuses are different from each other, field and action names are symbols; sizes are not negative
//verif:assume what the document cannot say is not compared: Int8 and Int16 come back as Int32; an inline UUID, and UnitValue, as String; String values that are all symbols as an Enum; variants are named after their type

const ab = "aB_"

func size(n string) *int64 {
	if rt.Choice(n+" given", 2) == 0 {
		return nil
	}
	return lib.I64(rt.Int64(n, 0, 99))
}

func limit(n string) *sadl.Decimal {
	if rt.Choice(n+" given", 2) == 0 {
		return nil
	}
	return lib.Dec(string([]byte{byte('0' + rt.Dec(n, 1))}))
}

var kinds = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any"}

func spec(n string, kind string) sadl.TypeSpec {
	ts := sadl.TypeSpec{Type: kind}
	switch kind {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		ts.Min, ts.Max = limit(n+" min"), limit(n+" max")
	case "String":
		ts.MinSize, ts.MaxSize = size(n+" minsize"), size(n+" maxsize")
		switch rt.Choice(n+" form", 3) {
		case 1:
			ts.Pattern = rt.StrN(n+" pattern", 1, 2, ab)
		case 2:
			ts.Values = []string{rt.StrN(n+" v1", 0, 1, ab), "c d"}
		}
	case "Array":
		ts.Items = "Float64"
		ts.MinSize, ts.MaxSize = size(n+" minsize"), size(n+" maxsize")
	case "Map":
		ts.Keys, ts.Items = "String", "Bool"
		ts.MinSize, ts.MaxSize = size(n+" minsize"), size(n+" maxsize")
	case "Struct":
		ts.Fields = []*sadl.StructFieldDef{
			lib.Field(rt.StrN(n+" f1", 1, 1, ab), rt.Bool(n+" r1"), sadl.TypeSpec{Type: "Int64"}),
			lib.Field("c", rt.Bool(n+" r2"), sadl.TypeSpec{Type: "Float32"}),
		}
	case "Enum":
		ts.Elements = lib.Elements(rt.StrN(n+" e1", 1, 1, "aB"), "c")
	case "Union":
		ts.Variants = []*sadl.UnionVariantDef{
			{Name: "Int64", TypeSpec: sadl.TypeSpec{Type: "Int64"}},
			{Name: "String", TypeSpec: sadl.TypeSpec{Type: "String"}},
		}
	}
	return ts
}

func there(s *sadl.Schema) (*sadl.Model, *openapi.Model) {
	m, err := sadl.NewModel(s)
	rt.Assert(err == nil, "the model is accepted")
	doc, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
	rt.Assert(err == nil, "the model is exported")
	if err != nil {
		return nil, nil
	}
	return m, doc
}

func andBack(s *sadl.Schema) (*sadl.Model, *sadl.Model) {
	m, doc := there(s)
	if doc == nil {
		return nil, nil
	}
	m2, err := doc.ToSadl("imported")
	rt.Assert(err == nil, "what was exported can be imported")
	if err != nil {
		return nil, nil
	}
	return m, m2
}

func sizes(a, b *int64) bool {
	x, y := int64(0), int64(0)
	if a != nil {
		x = *a
	}
	if b != nil {
		y = *b
	}
	return x == y
}

func upper(a, b *int64) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func limits(a, b *sadl.Decimal) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.AsBigFloat().Cmp(b.AsBigFloat()) == 0
}

func texts(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = rt.And(r, a[i] == b[i])
	}
	return r
}

func isBase(name string) bool {
	for _, b := range sadl.BaseTypes {
		if b == name {
			return true
		}
	}
	return false
}

func typeNamed(m *sadl.Model, name string) *sadl.TypeSpec {
	for _, td := range m.Types {
		if td.Name == name {
			return &td.TypeSpec
		}
	}
	return &sadl.TypeSpec{Type: name}
}

// same is the reference: is the imported type b the original type a, as far as the document can say?
func same(m *sadl.Model, a, b *sadl.TypeSpec, top bool) bool {
	if !isBase(a.Type) {
		return b.Type == a.Type
	}
	switch a.Type {
	case "Int8", "Int16", "Int32":
		return b.Type == "Int32" && rt.And(limits(a.Min, b.Min), limits(a.Max, b.Max))
	case "Int64", "Float32", "Float64", "Decimal":
		return b.Type == a.Type && rt.And(limits(a.Min, b.Min), limits(a.Max, b.Max))
	case "UUID":
		return b.Type == "UUID" || (!top && b.Type == "String")
	case "UnitValue":
		return b.Type == "String"
	case "String":
		return b.Type == "String" && rt.And(a.Pattern == b.Pattern, texts(a.Values, b.Values), sizes(a.MinSize, b.MinSize), upper(a.MaxSize, b.MaxSize))
	case "Enum":
		if b.Type != "Enum" || len(a.Elements) != len(b.Elements) {
			return false
		}
		r := true
		for i := range a.Elements {
			r = rt.And(r, a.Elements[i].Symbol == b.Elements[i].Symbol)
		}
		return r
	case "Array":
		return b.Type == "Array" && items(m, a.Items, b.Items) && rt.And(sizes(a.MinSize, b.MinSize), upper(a.MaxSize, b.MaxSize))
	case "Map":
		return b.Type == "Map" && b.Keys == "String" && items(m, a.Items, b.Items) && rt.And(sizes(a.MinSize, b.MinSize), upper(a.MaxSize, b.MaxSize))
	case "Struct":
		if b.Type != "Struct" || len(a.Fields) != len(b.Fields) {
			return false
		}
		for _, f := range a.Fields {
			found := false
			for _, g := range b.Fields {
				if f.Name == g.Name {
					found = true
					if f.Required != g.Required || !same(m, &f.TypeSpec, &g.TypeSpec, false) {
						return false
					}
				}
			}
			if !found {
				return false
			}
		}
		return true
	case "Union":
		if b.Type != "Union" || len(a.Variants) != len(b.Variants) {
			return false
		}
		for i := range a.Variants {
			if !same(m, &a.Variants[i].TypeSpec, &b.Variants[i].TypeSpec, false) {
				return false
			}
		}
		return true
	}
	return b.Type == a.Type
}

// items are named; the document may spell out a named type of a simple kind, of which the name then is lost
func items(m *sadl.Model, a, b string) bool {
	if a == b || (a == "" && b == "Any") {
		return true
	}
	ts := typeNamed(m, a)
	switch ts.Type {
	case "Struct", "Enum", "Union", "Array", "Map":
		return false
	case "Int8", "Int16":
		return b == "Int32"
	case "UUID", "UnitValue":
		return b == "String"
	}
	return b == ts.Type
}

func compareTypes(m, m2 *sadl.Model) {
	rt.Assert(len(m2.Types) == len(m.Types), "the same types are there")
	for _, td := range m.Types {
		var td2 *sadl.TypeDef
		for _, x := range m2.Types {
			if x.Name == td.Name {
				td2 = x
			}
		}
		rt.Assert(td2 != nil && same(m, &td.TypeSpec, &td2.TypeSpec, true), "a type comes back with its name, kind, options, fields and items")
		rt.Assert(td2 == nil || rt.Or(td.Comment == "", td.Comment == td2.Comment), "a type comes back with its comment")
	}
}

// a type definition survives
func V_TypeDefs() {
	td := lib.Type("T", spec("T", kinds[rt.Choice("kind", len(kinds))]))
	td.Comment = rt.StrN("comment", 0, 1, ab)
	m, m2 := andBack(&sadl.Schema{Name: "x", Types: []*sadl.TypeDef{td}})
	if m == nil {
		return
	}
	rt.Reach("typedef")
	compareTypes(m, m2)
}

// a type spelled out in a field, or used by name as an item, value, variant or field
func V_Uses() {
	types := []*sadl.TypeDef{
		lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", true, sadl.TypeSpec{Type: "S"})}}),
		lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("x", "y")}),
		lib.Type("U", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "S", TypeSpec: sadl.TypeSpec{Type: "S"}}, {Name: "E", TypeSpec: sadl.TypeSpec{Type: "E"}}}}),
		lib.Type("N", sadl.TypeSpec{Type: "String", Pattern: "p", MaxSize: lib.I64(3)}),
		lib.Type("D", sadl.TypeSpec{Type: "Float64", Min: lib.Dec("1.5")}),
		lib.Type("A", sadl.TypeSpec{Type: "Array", Items: "A", MaxSize: lib.I64(9)}),
		lib.Type("M", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "E"}),
	}
	var name string
	base := append([]string{"Bytes"}, kinds[:11]...)
	if k := rt.Choice("type", len(types)+len(base)); k < len(types) {
		name = types[k].Name
	} else {
		name = base[k-len(types)]
	}
	switch rt.Choice("use", 4) {
	case 0:
		types = append(types, lib.Type("T", sadl.TypeSpec{Type: "Array", Items: name}))
	case 1:
		types = append(types, lib.Type("T", sadl.TypeSpec{Type: "Map", Keys: "String", Items: name}))
	case 2:
		types = append(types, lib.Type("T", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: name, TypeSpec: sadl.TypeSpec{Type: name}}}}))
	case 3:
		types = append(types, lib.Type("T", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", rt.Bool("required"), sadl.TypeSpec{Type: name})}}))
	}
	m, m2 := andBack(&sadl.Schema{Name: "x", Types: types})
	if m == nil {
		return
	}
	rt.Reach("use")
	compareTypes(m, m2)
}

func V_Fields() {
	f := spec("f", kinds[rt.Choice("kind", len(kinds))])
	m, m2 := andBack(&sadl.Schema{Name: "x", Types: []*sadl.TypeDef{lib.Type("T", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field(rt.StrN("name", 1, 2, ab), rt.Bool("required"), f), lib.Field("last", rt.Bool("required2"), sadl.TypeSpec{Type: "Bool"})}})}})
	if m == nil {
		return
	}
	rt.Reach("field")
	compareTypes(m, m2)
}

// which fields are required depends on nothing but the field
func V_Required() {
	n := 3
	var fs []*sadl.StructFieldDef
	for i := 0; i < n; i++ {
		k := string([]byte{byte('0' + i)})
		f := lib.Field(rt.StrN("name"+k, 1, 2, "abB"), rt.Bool("required"+k), sadl.TypeSpec{Type: "Bool"})
		for _, g := range fs {
			rt.Assume(f.Name != g.Name)
		}
		fs = append(fs, f)
	}
	m, m2 := andBack(&sadl.Schema{Name: "x", Types: []*sadl.TypeDef{lib.Type("T", sadl.TypeSpec{Type: "Struct", Fields: fs})}})
	if m == nil {
		return
	}
	rt.Reach("required")
	compareTypes(m, m2)
}

func param(ps []*sadl.HttpParamSpec, want *sadl.HttpParamSpec) *sadl.HttpParamSpec {
	for _, p := range ps {
		if p.Path == want.Path && p.Query == want.Query && p.Header == want.Header {
			if !p.Path || p.Name == want.Name {
				return p
			}
		}
	}
	return nil
}

func compareActions(m, m2 *sadl.Model) {
	rt.Assert(len(m2.Http) == len(m.Http), "the same actions are there")
	for _, h := range m.Http {
		var g *sadl.HttpDef
		for _, x := range m2.Http {
			if x.Name == h.Name {
				g = x
			}
		}
		rt.Assert(g != nil, "an action comes back with its name")
		if g == nil {
			continue
		}
		rt.Assert(g.Method == h.Method, "an action comes back with its method")
		rt.Assert(g.Path == m.Base+h.Path, "an action comes back with its path")
		rt.Assert(g.Resource == h.Resource, "an action comes back with its resource")
		rt.Assert(g.Comment == h.Comment, "an action comes back with its comment")
		rt.Assert(len(g.Inputs) == len(h.Inputs), "an action comes back with its inputs")
		for _, in := range h.Inputs {
			p := param(g.Inputs, in)
			rt.Assert(p != nil, "an input comes back where it was: path, query, header or body")
			if p != nil {
				rt.Assert(same(m, &in.TypeSpec, &p.TypeSpec, false), "an input comes back with its type")
				rt.Assert(p.Required == rt.Or(in.Required, in.Path), "an input comes back as required or not")
			}
		}
		rt.Assert(g.Expected != nil && g.Expected.Status == h.Expected.Status, "an action comes back with its expected status")
		if g.Expected == nil {
			continue
		}
		rt.Assert(len(g.Expected.Outputs) == len(h.Expected.Outputs), "an action comes back with its outputs")
		for _, out := range h.Expected.Outputs {
			p := param(g.Expected.Outputs, out)
			rt.Assert(p != nil && same(m, &out.TypeSpec, &p.TypeSpec, false), "an output comes back as header or body with its type")
		}
		rt.Assert(len(g.Exceptions) == len(h.Exceptions), "an action comes back with its exceptions")
		for _, e := range h.Exceptions {
			found := false
			for _, f := range g.Exceptions {
				found = rt.Or(found, rt.And(f.Status == e.Status, f.Type == e.Type))
			}
			rt.Assert(found, "an exception comes back with its status and type")
		}
	}
}

var methods = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}

func action(id string) *sadl.HttpDef {
	method := methods[rt.Choice("method", 7)]
	h := &sadl.HttpDef{Name: "act" + rt.StrN("name", 0, 1, "b2"), Method: method, Path: "/x/{" + id + "}", Resource: rt.StrN("resource", 0, 1, ab)}
	h.Inputs = []*sadl.HttpParamSpec{{Path: true, StructFieldDef: *lib.Field(id, true, sadl.TypeSpec{Type: "String"})}}
	h.Expected = &sadl.HttpExpectedSpec{Status: 200}
	return h
}

func V_Inputs() {
	h := action("i" + rt.StrN("id", 0, 1, "d2_"))
	if rt.Choice("query", 2) == 1 {
		q := rt.StrN("query", 1, 1, ab)
		h.Path += "?" + q + "={" + q + "}"
		qt := sadl.TypeSpec{Type: "Int64"}
		if h.Method == "GET" && h.Name == "act" {
			qt = spec("q", []string{"Bool", "Int32", "Int64", "Float32", "Decimal", "Timestamp", "Array"}[rt.Choice("q type", 7)])
		}
		h.Inputs = append(h.Inputs, &sadl.HttpParamSpec{Query: q, StructFieldDef: *lib.Field(q, rt.Bool("q required"), qt)})
	}
	if rt.Choice("header", 2) == 1 {
		h.Inputs = append(h.Inputs, &sadl.HttpParamSpec{Header: "X-" + rt.StrN("header", 1, 1, "AB"), StructFieldDef: *lib.Field("h", rt.Bool("h required"), sadl.TypeSpec{Type: "S"})})
	}
	if (h.Method == "PUT" || h.Method == "POST" || h.Method == "PATCH") && rt.Choice("body", 2) == 1 {
		bt := sadl.TypeSpec{Type: "S"}
		if rt.Choice("body type", 2) == 1 {
			bt = sadl.TypeSpec{Type: "Array", Items: "S"}
		}
		h.Inputs = append(h.Inputs, &sadl.HttpParamSpec{StructFieldDef: *lib.Field("body", true, bt)})
	}
	m, m2 := andBack(&sadl.Schema{Name: "x", Types: []*sadl.TypeDef{lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", true, sadl.TypeSpec{Type: "Int32"})}})}, Http: []*sadl.HttpDef{h}})
	if m == nil {
		return
	}
	rt.Reach("inputs")
	compareTypes(m, m2)
	compareActions(m, m2)
}

func V_Outputs() {
	h := action("id")
	h.Expected.Status = []int32{200, 201, 204, 302, 399}[rt.Choice("status", 5)]
	if rt.Choice("output", 2) == 1 {
		ot := sadl.TypeSpec{Type: "S"}
		if rt.Choice("output type", 2) == 1 {
			ot = sadl.TypeSpec{Type: "Array", Items: "S"}
		}
		h.Expected.Outputs = append(h.Expected.Outputs, &sadl.HttpParamSpec{StructFieldDef: *lib.Field("body", false, ot)})
	}
	if rt.Choice("out header", 2) == 1 {
		h.Expected.Outputs = append(h.Expected.Outputs, &sadl.HttpParamSpec{Header: rt.StrN("header", 1, 1, "AB"), StructFieldDef: *lib.Field("p", false, sadl.TypeSpec{Type: "Timestamp"})})
	}
	for i := 0; i < rt.Choice("exceptions", 3); i++ {
		st := []int32{400, 0}[i]
		if i == 0 {
			st = []int32{400, 404, 500, 599}[rt.Choice("exception", 4)]
		}
		h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: "S", Status: st})
	}
	m, m2 := andBack(&sadl.Schema{Name: "x", Types: []*sadl.TypeDef{lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", true, sadl.TypeSpec{Type: "Int32"})}})}, Http: []*sadl.HttpDef{h}})
	if m == nil {
		return
	}
	rt.Reach("outputs")
	compareTypes(m, m2)
	compareActions(m, m2)
}

// through the file
func V_File() {
	types := []*sadl.TypeDef{
		lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
			lib.Field(rt.StrN("field", 1, 1, ab), rt.Bool("required"), sadl.TypeSpec{Type: "E"}),
			lib.Field("n", false, sadl.TypeSpec{Type: "Int64", Max: lib.Dec("9")})}}),
		lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("x", rt.StrN("element", 1, 1, "aB")+rt.StrN("element end", 0, 1, ab))}),
		lib.Type("N", sadl.TypeSpec{Type: "String", MinSize: lib.I64(2), MaxSize: lib.I64(3)}),
		lib.Type("A", sadl.TypeSpec{Type: "Array", Items: "S", MaxSize: lib.I64(9)}),
		lib.Type("M", sadl.TypeSpec{Type: "Map", Keys: "String", Items: []string{"E", "Bool", "Int64"}[rt.Choice("map of", 3)]}),
		lib.Type("U", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "S", TypeSpec: sadl.TypeSpec{Type: "S"}}, {Name: "E", TypeSpec: sadl.TypeSpec{Type: "E"}}}}),
	}
	h := action("id")
	h.Expected.Outputs = append(h.Expected.Outputs, &sadl.HttpParamSpec{StructFieldDef: *lib.Field("body", false, sadl.TypeSpec{Type: "A"})})
	h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "S", Status: 404}}
	m, doc := there(&sadl.Schema{Name: "x", Types: types, Http: []*sadl.HttpDef{h}, Version: "1", Comment: rt.StrN("comment", 0, 1, ab)})
	if doc == nil {
		return
	}
	file := rt.TempDir() + "/doc.json"
	rt.Assert(ioutil.WriteFile(file, []byte(sadl.Pretty(doc)), 0644) == nil, "the file is written")
	m2, err := openapi.Import([]string{file}, sadl.NewData())
	rt.Assert(err == nil, "what was exported can be imported")
	if err != nil {
		return
	}
	rt.Reach("file")
	rt.Assert(m2.Name == m.Name && m2.Version == m.Version && m2.Comment == m.Comment, "the service comes back with its name, version and comment")
	compareTypes(m, m2)
	compareActions(m, m2)
}

// what is said about the service and its actions besides
func V_Service() {
	sc := &sadl.Schema{Name: "x" + rt.StrN("name", 0, 1, ab), Version: "1" + rt.StrN("version", 0, 1, "1."), Comment: rt.StrN("comment", 0, 1, ab), Annotations: map[string]string{}}
	for _, k := range []string{"x_server", "x_license_name", "x_license_url"} {
		if k == "x_license_url" && sc.Annotations["x_license_name"] == "" {
			continue // a licence has a name in OpenAPI
		}
		if rt.Choice(k, 2) == 1 {
			sc.Annotations[k] = rt.StrN(k+" value", 1, 1, ab)
		}
	}
	tags := ""
	for i, n := 0, rt.Choice("tags", 3); i < n; i++ {
		if i > 0 {
			tags += ","
		}
		tags += rt.StrN("tag"+string([]byte{byte('0' + i)}), 1, 1, ab)
	}
	h := &sadl.HttpDef{Name: "act", Method: methods[rt.Choice("method", 7)], Path: "/x", Resource: "r" + rt.StrN("resource", 0, 1, ab), Comment: rt.StrN("action comment", 0, 1, ab), Expected: &sadl.HttpExpectedSpec{Status: 204}}
	if tags != "" {
		h.Annotations = map[string]string{"x_tags": tags}
	}
	sc.Http = []*sadl.HttpDef{h}
	m, doc := there(sc)
	if doc == nil {
		return
	}
	var m2 *sadl.Model
	var err error
	if rt.Choice("file", 2) == 1 {
		file := rt.TempDir() + "/doc.json"
		rt.Assert(ioutil.WriteFile(file, []byte(sadl.Pretty(doc)), 0644) == nil, "the file is written")
		m2, err = openapi.Import([]string{file}, sadl.NewData())
	} else {
		m2, err = doc.ToSadl(sc.Name)
	}
	rt.Assert(err == nil, "what was exported can be imported")
	if err != nil {
		return
	}
	rt.Reach("service")
	rt.Assert(m2.Name == m.Name && m2.Version == m.Version && m2.Comment == m.Comment, "the service comes back with its name, version and comment")
	for k, v := range sc.Annotations {
		rt.Assert(m2.Annotations[k] == v, "the service comes back with its server and licence")
	}
	for _, k := range []string{"x_license_name", "x_license_url"} {
		if _, ok := sc.Annotations[k]; !ok {
			_, ok = m2.Annotations[k]
			rt.Assert(!ok, "there is no licence that was not given")
		}
	}
	compareActions(m, m2)
	if len(m2.Http) == 1 {
		rt.Assert(m2.Http[0].Annotations["x_tags"] == tags, "an action comes back with its tags")
	}
}
