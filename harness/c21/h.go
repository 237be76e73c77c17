package c21

import (
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound models of structs with 1..2 fields of every base type, alias of every base type, inline and named arrays (nested up to 2 deep) of these, enums of 1..3 symbols, unions of 1..3 structs, and types GraphQL does not have; all orders of map iteration
//verif:bound custom scalars: none, any one of the four, or all four, under other names or their own; names of 1..2 symbolic letters of either case; comments of 0..3 symbolic bytes, line breaks and braces included
//verif:assume every type named is defined, a union's variants are structs, a struct has a field and an enum a symbol

const letters = "aB"

// tokens of a GraphQL document: names and punctuation; comments, descriptions, commas and white space are not tokens
func tokens(s string) []string {
	var r []string
	i := 0
	name := func(c byte) bool {
		return rt.Fork(rt.Or(c == '_', rt.And(c >= 'a', c <= 'z'), rt.And(c >= 'A', c <= 'Z'), rt.And(c >= '0', c <= '9')))
	}
	for i < len(s) {
		c := s[i]
		if rt.Fork(rt.Or(c == ' ', c == '\t', c == '\n', c == '\r', c == ',')) {
			i++
		} else if c == '#' {
			for i < len(s) && !rt.Fork(rt.Or(s[i] == '\n', s[i] == '\r')) {
				i++
			}
		} else if name(c) {
			j := i
			for j < len(s) && name(s[j]) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		} else if c == '"' {
			q := `"`
			if i+3 <= len(s) && s[i:i+3] == `"""` {
				q = `"""`
			}
			i += len(q)
			for i+len(q) <= len(s) && s[i:i+len(q)] != q {
				i++
			}
			i += len(q)
		} else {
			r = append(r, s[i:i+1])
			i++
		}
	}
	return r
}

type gfield struct {
	name, typ string
	required  bool
}

type gdef struct {
	kind, name string
	fields     []gfield
	names      []string
}

type scan struct {
	toks []string
	bad  bool
}

func (p *scan) peek() string {
	if len(p.toks) == 0 {
		return ""
	}
	return p.toks[0]
}

func (p *scan) next() string {
	if len(p.toks) == 0 {
		p.bad = true
		return ""
	}
	t := p.toks[0]
	p.toks = p.toks[1:]
	return t
}

func (p *scan) name() string {
	t := p.next()
	if t == "" || !(rt.Fork(rt.Or(t[0] == '_', rt.And(t[0] >= 'a', t[0] <= 'z'), rt.And(t[0] >= 'A', t[0] <= 'Z')))) {
		p.bad = true
	}
	return t
}

func (p *scan) want(s string) {
	if p.next() != s {
		p.bad = true
	}
}

func (p *scan) typ() string {
	t := ""
	if p.peek() == "[" {
		p.next()
		t = "[" + p.typ() + "]"
		p.want("]")
	} else {
		t = p.name()
	}
	if p.peek() == "!" {
		p.next()
		t += "!"
	}
	return t
}

// parse reads the type definitions of a GraphQL document
func parse(s string) ([]*gdef, bool) {
	p := &scan{toks: tokens(s)}
	var r []*gdef
	for len(p.toks) > 0 && !p.bad {
		d := &gdef{kind: p.name()}
		d.name = p.name()
		switch d.kind {
		case "scalar":
		case "enum":
			p.want("{")
			for !p.bad && p.peek() != "}" {
				d.names = append(d.names, p.name())
			}
			p.want("}")
		case "union":
			p.want("=")
			if p.peek() == "|" {
				p.next()
			}
			d.names = append(d.names, p.name())
			for p.peek() == "|" {
				p.next()
				d.names = append(d.names, p.name())
			}
		case "type":
			p.want("{")
			for !p.bad && p.peek() != "}" {
				f := gfield{name: p.name()}
				p.want(":")
				f.typ = p.typ()
				if n := len(f.typ); n > 0 && f.typ[n-1] == '!' {
					f.required = true
					f.typ = f.typ[:n-1]
				}
				d.fields = append(d.fields, f)
			}
			p.want("}")
		default:
			p.bad = true
		}
		r = append(r, d)
	}
	return r, !p.bad
}

var scalars = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "UUID", "Timestamp"}
var custom = []string{"Int64", "Decimal", "UUID", "Timestamp"}
var others = []string{"Bytes", "UnitValue", "Map", "Any", "Struct", "Enum", "Union"}

// world is a model, and what GraphQL is to say of it
type world struct {
	types  []*sadl.TypeDef
	scalar map[string]string // configured
	used   []string
	bad    bool // something cannot be said in GraphQL
}

func (w *world) add(name string, ts sadl.TypeSpec) {
	w.types = append(w.types, lib.Type(name, ts))
}

func (w *world) gql(base string) string {
	if n, ok := w.scalar[base]; ok {
		for _, u := range w.used {
			if u == n {
				return n
			}
		}
		w.used = append(w.used, n)
		return n
	}
	switch base {
	case "Bool":
		return "Boolean"
	case "Int8", "Int16", "Int32":
		return "Int"
	case "Int64", "Decimal", "Float32", "Float64":
		return "Float"
	}
	return "String"
}

// named makes a type that can be referred to by its name, and says what GraphQL calls it
func (w *world) named(n string, depth int) (string, string) {
	k := 6
	if depth > 0 {
		k = 7
	}
	switch rt.Choice(n, k) {
	case 0:
		b := scalars[rt.Choice(n+" base", len(scalars))]
		return b, w.gql(b)
	case 1:
		b := scalars[rt.Choice(n+" alias of", len(scalars))]
		name := "Alias" + b
		if !w.has(name) {
			w.add(name, sadl.TypeSpec{Type: b})
		}
		return name, w.gql(b)
	case 2:
		return "E", "E"
	case 3:
		return "T", "T"
	case 4:
		return "U", "U"
	case 5:
		o := others[rt.Choice(n+" not in GraphQL", len(others))]
		w.bad = true
		return o, ""
	}
	items, g := w.named(n+" items", depth-1)
	name := "List"
	for w.has(name) {
		name += "s"
	}
	w.add(name, sadl.TypeSpec{Type: "Array", Items: items})
	return name, "[" + g + "!]"
}

func (w *world) has(name string) bool {
	for _, t := range w.types {
		if t.Name == name {
			return true
		}
	}
	return false
}

func (w *world) field(n string, depth int) (sadl.TypeSpec, string) {
	if rt.Choice(n+" inline array", 2) == 1 {
		items, g := w.named(n+" items", depth-1)
		return sadl.TypeSpec{Type: "Array", Items: items}, "[" + g + "!]"
	}
	name, g := w.named(n, depth)
	return sadl.TypeSpec{Type: name}, g
}

func (w *world) conf() *sadl.Data {
	conf := sadl.NewData()
	w.scalar = map[string]string{}
	switch k := rt.Choice("custom scalars", 4); k {
	case 0:
		return conf
	case 1:
		c := custom[rt.Choice("which", len(custom))]
		w.scalar[c] = "X" + rt.StrN("scalar", 1, 1, letters)
	case 2:
		for i, c := range custom {
			w.scalar[c] = "X" + string([]byte{byte('a' + i)})
		}
	case 3:
		for _, c := range custom {
			w.scalar[c] = c
		}
	}
	m := map[string]interface{}{}
	for k, v := range w.scalar {
		m[k] = v
	}
	conf.Put("custom-scalars", m)
	return conf
}

func export(types []*sadl.TypeDef, conf *sadl.Data) (string, error) {
	m := lib.Model(types...)
	var s string
	var err error
	rt.Assert(!rt.Panics(func() { s, err = graphql.FromSadl(m, conf) }), "the export never crashes")
	return s, err
}

func find(ds []*gdef, name string) *gdef {
	for _, d := range ds {
		if d.name == name {
			return d
		}
	}
	return nil
}

func unique(ds []*gdef) bool {
	for i := range ds {
		for j := 0; j < i; j++ {
			if ds[i].name == ds[j].name {
				return false
			}
		}
	}
	return true
}

func (w *world) standard() {
	w.add("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("RED", "BLUE")})
	w.add("T", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("x", false, sadl.TypeSpec{Type: "String"})}})
	w.add("U", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "T", TypeSpec: sadl.TypeSpec{Type: "T"}}}})
}

func V_Fields() {
	w := &world{}
	conf := w.conf()
	w.standard()
	ts, g := w.field("field", 2)
	req := rt.Bool("required")
	n1 := rt.StrN("name", 1, 2, letters)
	f := []*sadl.StructFieldDef{lib.Field(n1, req, ts)}
	if rt.Choice("first", 2) == 1 {
		w.types = append([]*sadl.TypeDef{lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: f})}, w.types...)
	} else {
		w.add("S", sadl.TypeSpec{Type: "Struct", Fields: f})
	}
	s, err := export(w.types, conf)
	rt.Assert((err != nil) == w.bad, "the export fails exactly when a type has no GraphQL equivalent")
	if err != nil {
		return
	}
	rt.Reach("exported")
	ds, ok := parse(s)
	rt.Assert(ok, "the document is GraphQL")
	if !ok {
		return
	}
	rt.Assert(unique(ds), "no definition is made twice")
	d := find(ds, "S")
	rt.Assert(d != nil && d.kind == "type" && len(d.fields) == 1, "the struct is there with its fields")
	if d == nil || len(d.fields) != 1 {
		return
	}
	rt.Assert(rt.And(d.fields[0].name == n1, d.fields[0].typ == g, d.fields[0].required == req), "the field has its name, its GraphQL type, and is non-null when required")
	n := 0
	for _, d := range ds {
		if d.kind == "scalar" {
			n++
		}
	}
	rt.Assert(n == len(w.used), "exactly the custom scalars used are declared")
	for _, u := range w.used {
		d := find(ds, u)
		rt.Assert(d != nil && d.kind == "scalar", "a custom scalar used is declared")
	}
	rt.Assert(len(ds) == 4+n, "there is one definition for each struct, enum and union")
}

func V_Definitions() {
	w := &world{scalar: map[string]string{}}
	conf := sadl.NewData()
	ne := 1 + rt.Choice("symbols", 3)
	var syms []string
	for i := 0; i < ne; i++ {
		syms = append(syms, rt.StrN("symbol", 1, 2, letters))
	}
	e := lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements(syms...)})
	nu := 1 + rt.Choice("variants", 3)
	u := sadl.TypeSpec{Type: "Union"}
	structs := []string{"T", "S", "R"}
	var vars []string
	for i := 0; i < nu; i++ {
		v := structs[(i+rt.Choice("rotate", 3))%3]
		for in(vars, v) {
			v += "T"
		}
		vars = append(vars, v)
		u.Variants = append(u.Variants, &sadl.UnionVariantDef{Name: rt.StrN("variant", 1, 1, letters), TypeSpec: sadl.TypeSpec{Type: v}})
	}
	w.types = append(w.types, e, lib.Type("U", u))
	for _, v := range vars {
		w.types = append(w.types, lib.Type(v, sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", false, sadl.TypeSpec{Type: "String"})}}))
	}
	s, err := export(w.types, conf)
	rt.Assert(err == nil, "enums and unions are exported")
	if err != nil {
		return
	}
	ds, ok := parse(s)
	rt.Assert(ok && len(ds) == 2+nu, "the document is GraphQL, with one definition for each type")
	if !ok || len(ds) != 2+nu {
		return
	}
	d := find(ds, "E")
	rt.Assert(d != nil && d.kind == "enum" && len(d.names) == ne, "an enum has all its symbols")
	if d != nil && len(d.names) == ne {
		for i := range syms {
			rt.Assert(d.names[i] == syms[i], "an enum has its symbols in order")
		}
	}
	d = find(ds, "U")
	rt.Assert(d != nil && d.kind == "union" && len(d.names) == nu, "a union has all its variants")
	if d != nil && len(d.names) == nu {
		for i := range vars {
			rt.Assert(d.names[i] == vars[i], "a union has the types of its variants in order")
		}
	}
}

// V_UnionOf: GraphQL has unions of structs, and of nothing else
func V_UnionOf() {
	of := []string{"T", "E", "A", "N", "V", "String", "Int32", "Any", "Struct", "Nowhere"}
	n := 1 + rt.Choice("variants", 2)
	u := sadl.TypeSpec{Type: "Union"}
	bad := false
	for i := 0; i < n; i++ {
		v := of[rt.Choice("variant", len(of))]
		bad = bad || v != "T"
		u.Variants = append(u.Variants, &sadl.UnionVariantDef{Name: string([]byte{byte('a' + i)}), TypeSpec: sadl.TypeSpec{Type: v}})
	}
	_, err := export([]*sadl.TypeDef{
		lib.Type("T", sadl.TypeSpec{Type: "Struct"}),
		lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("a")}),
		lib.Type("A", sadl.TypeSpec{Type: "Array", Items: "T"}),
		lib.Type("N", sadl.TypeSpec{Type: "Int32"}),
		lib.Type("V", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "T", TypeSpec: sadl.TypeSpec{Type: "T"}}}}),
		lib.Type("U", u),
	}, sadl.NewData())
	rt.Assert((err != nil) == bad, "the export fails exactly when a union is not one of structs")
	rt.Reach("union")
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// V_Struct: several fields, with comments
func V_Struct() {
	n := 2
	var fs []*sadl.StructFieldDef
	for i := 0; i < n; i++ {
		f := lib.Field(string([]byte{byte('a' + i)})+rt.StrN("name", 0, 1, "aB_9"), rt.Choice("required", 2) == 1, sadl.TypeSpec{Type: []string{"Int32", "T"}[rt.Choice("type", 2)]})
		if i == 0 {
			f.Comment = rt.StrN("comment", 0, 3, "a\n\r}\"#")
		} else if f.Type == "Int32" && rt.Choice("default", 2) == 1 {
			f.Default = lib.Dec("5")
		}
		fs = append(fs, f)
	}
	td := lib.Type("T", sadl.TypeSpec{Type: "Struct", Fields: fs})
	td.Comment = rt.StrN("type comment", 0, 1, "a\n}")
	s, err := export([]*sadl.TypeDef{td}, sadl.NewData())
	rt.Assert(err == nil, "a struct is exported")
	if err != nil {
		return
	}
	ds, ok := parse(s)
	rt.Assert(ok && len(ds) == 1, "comments never leak into the document")
	if !ok || len(ds) != 1 {
		return
	}
	rt.Reach("parsed")
	d := ds[0]
	rt.Assert(d.kind == "type" && d.name == "T" && len(d.fields) == n, "a struct has all its fields")
	if len(d.fields) != n {
		return
	}
	for i, f := range fs {
		t := f.Type
		if t == "Int32" {
			t = "Int"
		}
		rt.Assert(rt.And(d.fields[i].name == f.Name, d.fields[i].typ == t, d.fields[i].required == f.Required), "the fields are in order, each with its type and whether it is required")
	}
}

// V_TypeDefs: a definition of any kind is either exported, replaced where it is used, or refused
func V_TypeDefs() {
	k := rt.Choice("kind", len(scalars)+4)
	ts := sadl.TypeSpec{}
	bad := false
	if k < len(scalars) {
		ts.Type = scalars[k]
	} else {
		ts.Type = others[k-len(scalars)]
		bad = true
	}
	if ts.Type == "Map" {
		ts.Keys, ts.Items = "String", "String"
	}
	name := rt.StrN("name", 1, 2, letters)
	s, err := export([]*sadl.TypeDef{lib.Type(name, ts)}, sadl.NewData())
	rt.Assert((err != nil) == bad, "the export fails exactly when a type has no GraphQL equivalent")
	if err == nil {
		rt.Assert(len(tokens(s)) == 0, "a scalar type is replaced by its GraphQL equivalent, not defined")
	}
}

// V_Recursive: arrays that contain themselves cannot be said in GraphQL
func V_Recursive() {
	names := []string{"A", "B", "String"}
	a := names[rt.Choice("items of A", 3)]
	b := names[rt.Choice("items of B", 3)]
	ta := lib.Type("A", sadl.TypeSpec{Type: "Array", Items: a})
	tb := lib.Type("B", sadl.TypeSpec{Type: "Array", Items: b})
	s := lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("x", false, sadl.TypeSpec{Type: "A"}), lib.Field("y", true, sadl.TypeSpec{Type: "A"})}})
	text, err := export([]*sadl.TypeDef{ta, tb, s}, sadl.NewData())
	want := ""
	if a == "String" {
		want = "[String!]"
	} else if a == "B" && b == "String" {
		want = "[[String!]!]"
	}
	rt.Assert((err != nil) == (want == ""), "the export fails exactly when an array contains itself")
	if err == nil {
		ds, ok := parse(text)
		rt.Assert(ok && len(ds) == 1 && len(ds[0].fields) == 2 && ds[0].fields[0].typ == want && !ds[0].fields[0].required && ds[0].fields[1].typ == want && ds[0].fields[1].required, "a named array is replaced by its list")
	}
}

// V_Same: the same model gives the same text whatever order maps are walked in
func V_Same() {
	w := &world{}
	conf := sadl.NewData()
	m := map[string]interface{}{}
	var fs []*sadl.StructFieldDef
	for i, c := range custom {
		m[c] = "X" + string([]byte{byte('a' + i)})
		if rt.Choice("used", 2) == 1 {
			fs = append(fs, lib.Field("f"+string([]byte{byte('a' + i)}), false, sadl.TypeSpec{Type: c}))
		}
	}
	conf.Put("custom-scalars", m)
	w.add("S", sadl.TypeSpec{Type: "Struct", Fields: fs})
	a, err := export(w.types, conf)
	rt.Assert(err == nil, "custom scalars are exported")
	rt.MapOrder(true)
	b, err := export(w.types, conf)
	rt.MapOrder(false)
	rt.Assert(err == nil && a == b, "the same model gives the same text")
}
