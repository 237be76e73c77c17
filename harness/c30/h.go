package c30

import (
	"io/ioutil"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/graphql"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound GraphQL documents in files: object types with 1..3 fields of every kind of type (named, list, list of lists, non-null at every level), enums, unions, scalars, interfaces, inputs and schema definitions in every order
//verif:bound names of 1..2 symbolic letters of either case and underscores, descriptions of 0..3 symbolic bytes
//verif:assume the documents are within the grammar; the graphql-go parser runs as it is

const ab = "aB_"

func load(text string, conf *sadl.Data) (*sadl.Model, error) {
	file := rt.TempDir() + "/doc.graphql"
	rt.Assert(ioutil.WriteFile(file, []byte(text), 0644) == nil, "the file is written")
	var m *sadl.Model
	var err error
	rt.Assert(!rt.Panics(func() { m, err = graphql.Import([]string{file}, conf) }), "the import never crashes")
	return m, err
}

type want struct {
	text, typ, items string
}

var named = []want{{"Int", "Int32", ""}, {"Float", "Float64", ""}, {"Boolean", "Bool", ""}, {"String", "String", ""}, {"ID", "ID", ""}, {"UUID", "UUID", ""}, {"Timestamp", "Timestamp", ""}, {"Color", "Color", ""}, {"", "", ""}}

func name(n string) want {
	w := named[rt.Choice(n, len(named))]
	if w.text == "" {
		w.text = "T" + rt.StrN(n+" name", 1, 1, ab)
		w.typ = w.text
	}
	return w
}

func bang(n string) string {
	if rt.Choice(n, 2) == 1 {
		return "!"
	}
	return ""
}

func typ(n string) (want, bool) {
	switch rt.Choice(n, 3) {
	case 0:
		w := name(n + " name")
		b := bang(n + " required")
		w.text += b
		return w, b == "!"
	case 1:
		w := name(n + " item")
		b := bang(n + " required")
		return want{"[" + w.text + bang(n+" non-null") + "]" + b, "Array", w.typ}, b == "!"
	}
	w := name(n + " inner")
	b := bang(n + " required")
	return want{"[[" + w.text + bang(n+" inner non-null") + "]" + bang(n+" non-null") + "]" + b, "Array", "Array"}, b == "!"
}

func V_Fields() {
	w, req := typ("type")
	f := rt.StrN("field", 1, 2, ab)
	t := "T" + rt.StrN("type name", 1, 1, ab)
	m, err := load("type "+t+" {\n  "+f+": "+w.text+"\n}\n", sadl.NewData())
	rt.Assert(err == nil, "an object type is imported")
	if err != nil {
		return
	}
	td := m.FindType(t)
	rt.Assert(td != nil && td.Type == "Struct" && len(td.Fields) == 1, "an object type becomes a struct with its fields")
	if td == nil || len(td.Fields) != 1 {
		return
	}
	rt.Reach("struct")
	fd := td.Fields[0]
	rt.Assert(rt.And(fd.Name == f, fd.Type == w.typ, fd.Items == w.items, fd.Required == req), "a field has its name, its type and items, and is required when non-null")
}

func V_Struct() {
	n := 1 + rt.Choice("fields", 3)
	text := "type S {\n"
	var fs []string
	var req []bool
	for i := 0; i < n; i++ {
		f := string([]byte{byte('p' + i)}) + rt.StrN("field", 0, 1, "a9_")
		b := bang("required")
		fs = append(fs, f)
		req = append(req, b == "!")
		text += f + ": Int" + b + []string{"\n", ", ", " # it's }\n"}[rt.Choice("separator", 3)]
	}
	m, err := load(text+"}\n", sadl.NewData())
	rt.Assert(err == nil, "an object type is imported")
	if err != nil {
		return
	}
	td := m.FindType("S")
	rt.Assert(td != nil && td.Type == "Struct" && len(td.Fields) == n, "an object type becomes a struct with all its fields")
	if td == nil || len(td.Fields) != n {
		return
	}
	for i, fd := range td.Fields {
		rt.Assert(rt.And(fd.Name == fs[i], fd.Type == "Int32", fd.Required == req[i]), "the fields are in order")
	}
}

// descriptions become comments, on one line
func V_Descriptions() {
	d := rt.StrN("description", 0, 3, "ab{}#")
	q := []string{`"`, `"""`}[rt.Choice("quotes", 2)]
	text := "x" + d + "y"
	want := text
	if q == `"""` && rt.Choice("lines", 2) == 1 {
		text = "x\n" + d + "y\nz"
		want = "x " + d + "y z"
	}
	kind := rt.Choice("kind", 5)
	doc := q + text + q + "\n"
	switch kind {
	case 0:
		doc += "type T { f: Int }"
	case 1:
		doc = "type T { " + doc + " f: Int }"
	case 2:
		doc += "enum T { A B }"
	case 3:
		doc = "enum T { A " + doc + " B }"
	case 4:
		doc += "union T = A | B"
	}
	m, err := load(doc, sadl.NewData())
	rt.Assert(err == nil, "a description is accepted")
	if err != nil {
		return
	}
	td := m.FindType("T")
	rt.Assert(td != nil, "the type is imported")
	if td == nil {
		return
	}
	got := td.Comment
	if kind == 1 {
		rt.Assert(td.Comment == "" && len(td.Fields) == 1, "a field's description is not the type's")
		got = td.Fields[0].Comment
	} else if kind == 3 {
		rt.Assert(td.Comment == "" && len(td.Elements) == 2 && td.Elements[0].Comment == "", "a value's description is not the enum's")
		got = td.Elements[1].Comment
	}
	rt.Reach("described")
	rt.Assert(got == want, "a description becomes a comment on one line")
}

func V_Enum() {
	n := 1 + rt.Choice("values", 3)
	text := "enum E {"
	var syms []string
	for i := 0; i < n; i++ {
		s := string([]byte{byte('P' + i)}) + rt.StrN("value", 0, 2, "aB_")
		if rt.Choice("underscore", 2) == 1 {
			s = "_" + s
		}
		syms = append(syms, s)
		text += " " + s
	}
	m, err := load(text+" }", sadl.NewData())
	rt.Assert(err == nil, "an enum is imported")
	if err != nil {
		return
	}
	td := m.FindType("E")
	rt.Assert(td != nil && td.Type == "Enum" && len(td.Elements) == n, "an enum has all its symbols")
	if td == nil || len(td.Elements) != n {
		return
	}
	for i, e := range td.Elements {
		rt.Assert(e.Symbol == syms[i], "an enum has its symbols in order")
	}
}

func V_Union() {
	n := 1 + rt.Choice("variants", 3)
	text := "union U ="
	var vs []string
	for i := 0; i < n; i++ {
		s := string([]byte{byte('P' + i)}) + rt.StrN("variant", 0, 2, ab)
		vs = append(vs, s)
		if i > 0 {
			text += " |"
		}
		text += " " + s
	}
	m, err := load(text+"\n", sadl.NewData())
	rt.Assert(err == nil, "a union is imported")
	if err != nil {
		return
	}
	td := m.FindType("U")
	rt.Assert(td != nil && td.Type == "Union" && len(td.Variants) == n, "a union has all its variants")
	if td == nil || len(td.Variants) != n {
		return
	}
	for i, v := range td.Variants {
		rt.Assert(rt.And(v.Name == vs[i], v.Type == vs[i]), "a union has its variants in order")
	}
}

// V_Document: several definitions, in every order
func V_Document() {
	q := []string{"Query", "Q" + rt.StrN("query type", 1, 1, ab)}[rt.Choice("query", 2)]
	parts := []string{
		"schema { query: " + q + " mutation: M }\n",
		"type " + q + " { x: Int }\n",
		"type M { y: Int }\n",
		"type S { z: Int }\n",
		[]string{"interface I { a: Int }\n", "input I { a: Int }\n", "scalar UUID\n", "scalar Timestamp\n", "scalar Color\n", "scalar C" + rt.StrN("scalar", 1, 1, ab) + "\n", "directive @d on FIELD\n"}[rt.Choice("other", 7)],
	}
	text := ""
	left := []int{0, 1, 2, 3, 4}
	for len(left) > 0 {
		i := rt.Choice("next", len(left))
		text += parts[left[i]]
		left = append(append([]int{}, left[:i]...), left[i+1:]...)
	}
	m, err := load(text, sadl.NewData())
	bad := parts[4][:6] == "scalar" && parts[4] != "scalar UUID\n" && parts[4] != "scalar Timestamp\n" || parts[4][0] == 'd'
	rt.Assert((err != nil) == bad, "a document is refused exactly when it has a definition that is not supported")
	if err != nil {
		rt.Assert(m == nil, "a refused document gives no model")
		return
	}
	rt.Reach("document")
	rt.Assert(m.FindType("S") != nil, "a type is imported wherever it is")
	rt.Assert(m.FindType(q) == nil && m.FindType("M") == nil, "the operation types of the schema are not data types")
	rt.Assert(m.FindType("ID") != nil && m.FindType("ID").Type == "String", "the ID type is defined")
	rt.Assert(len(m.Types) == 2, "nothing else is defined")
}

func V_Duplicates() {
	kinds := []string{"type %{ x: Int }", "enum %{ A }", "union % = A"}
	def := func(n, name string) string {
		k := kinds[rt.Choice(n, len(kinds))]
		for i := 0; i < len(k); i++ {
			if k[i] == '%' {
				return k[:i] + name + k[i+1:] + "\n"
			}
		}
		return ""
	}
	a, b := rt.StrN("first", 1, 2, ab), rt.StrN("second", 1, 2, ab)
	m, err := load(def("kind", a)+def("kind", b), sadl.NewData())
	rt.Assert(rt.Iff(err == nil, a != b), "a document that defines a name twice is refused")
	if err == nil {
		rt.Assert(m.FindType(a) != nil && m.FindType(b) != nil && len(m.Types) == 3, "every type is imported")
	}
}

func V_Config() {
	conf := sadl.NewData()
	n := rt.StrN("name", 0, 2, ab)
	ns := rt.StrN("namespace", 0, 2, ab)
	if rt.Choice("name given", 2) == 1 {
		conf.Put("name", n)
	} else {
		n = ""
	}
	if rt.Choice("namespace given", 2) == 1 {
		conf.Put("namespace", ns)
	} else {
		ns = ""
	}
	m, err := load("enum E { A }", conf)
	rt.Assert(err == nil, "a document is imported")
	if err != nil {
		return
	}
	if len(n) > 0 {
		rt.Assert(m.Name == n, "the model has the name asked for")
	} else {
		rt.Assert(m.Name != "", "a model always has a name")
	}
	rt.Assert(m.Namespace == ns, "the model has the namespace asked for")
}

func V_Broken() {
	docs := []string{"", "type", "type T", "type T {", "type T { x }", "type T { x: }", "type T { x: [Int }", "type T { x: Int!! }", "type T { x: [] }", "type T { x: []! }", "type T { x: [[]] }", "type T { x: [!] }", "union U", "type T { x: Int } }", "{", "query { x }", "\"", "\"\"\"x", "type T { x: Int }\x00"}
	k := rt.Choice("document", len(docs)+1)
	text := ""
	if k == len(docs) {
		text = rt.StrN("text", 0, 2, "ty{}\" #")
	} else {
		text = docs[k]
	}
	m, err := load(text, sadl.NewData())
	rt.Assert((m == nil) == (err != nil), "the import gives a model or an error")
	if k > 0 && k < len(docs) {
		rt.Assert(err != nil, "a document that is not a GraphQL schema is an error")
	}
	_, err = graphql.Import([]string{rt.TempDir() + "/missing.graphql"}, sadl.NewData())
	rt.Assert(err != nil, "a file that does not exist is an error")
}

// V_RoundTrip: what the GraphQL export can say comes back
func V_RoundTrip() {
	base := []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "UUID", "Timestamp", "E", "S"}
	back := []string{"Bool", "Int32", "Int32", "Int32", "Float64", "Float64", "Float64", "Float64", "String", "UUID", "Timestamp", "E", "S"}
	k := rt.Choice("type", len(base))
	arr := rt.Choice("array", 3)
	req := rt.Bool("required")
	f := rt.StrN("field", 1, 2, ab)
	fd := &sadl.StructFieldDef{Name: f, Required: req, TypeSpec: sadl.TypeSpec{Type: base[k]}}
	types := []*sadl.TypeDef{
		{Name: "E", TypeSpec: sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "A"}, {Symbol: rt.StrN("symbol", 1, 1, ab)}}}},
		{Name: "S", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{fd}}},
		{Name: "U", TypeSpec: sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "S", TypeSpec: sadl.TypeSpec{Type: "S"}}}}},
	}
	wt, wi := back[k], ""
	if arr == 1 {
		fd.TypeSpec = sadl.TypeSpec{Type: "Array", Items: base[k]}
	} else if arr == 2 {
		fd.TypeSpec = sadl.TypeSpec{Type: "L"}
		types = append(types, &sadl.TypeDef{Name: "L", TypeSpec: sadl.TypeSpec{Type: "Array", Items: base[k]}})
	}
	if arr > 0 {
		wt, wi = "Array", back[k]
	}
	conf := sadl.NewData()
	conf.Put("custom-scalars", map[string]interface{}{"UUID": "UUID", "Timestamp": "Timestamp"})
	m, err := sadl.NewModel(&sadl.Schema{Types: types})
	rt.Assert(err == nil, "the model is accepted")
	text, err := graphql.FromSadl(m, conf)
	rt.Assert(err == nil, "the model is exported")
	got, err := load(text, sadl.NewData())
	rt.Assert(err == nil, "what is exported is imported")
	if err != nil {
		return
	}
	rt.Reach("round trip")
	rt.Assert(len(got.Types) == 4, "every enum, struct and union comes back, with the ID type")
	e, s, u := got.FindType("E"), got.FindType("S"), got.FindType("U")
	rt.Assert(e != nil && e.Type == "Enum" && len(e.Elements) == 2 && e.Elements[0].Symbol == "A" && e.Elements[1].Symbol == types[0].Elements[1].Symbol, "the enum comes back")
	rt.Assert(u != nil && u.Type == "Union" && len(u.Variants) == 1 && u.Variants[0].Type == "S", "the union comes back")
	rt.Assert(s != nil && s.Type == "Struct" && len(s.Fields) == 1, "the struct comes back")
	if s != nil && len(s.Fields) == 1 {
		g := s.Fields[0]
		rt.Assert(rt.And(g.Name == f, g.Type == wt, g.Items == wi, g.Required == req), "the field comes back")
	}
}
