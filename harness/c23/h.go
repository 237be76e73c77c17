package c23

import (
	"os"
	"path/filepath"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound models of one type of every kind, with alias of every base type; structs with 0..3 fields and unions with 1..3 variants of every base type, alias, struct, enum, union and inline array or map of these; enums of 1..3 symbols with and without a value of their own
//verif:bound 0..2 actions with 0..2 inputs, outputs and exceptions each; type, field, symbol and action names of 1..3 symbolic letters in either case; names and packages from the configuration, the model or neither; with and without the sadl runtime
//verif:assume names are Go identifiers that differ from each other and from the names the generator makes up, and are no keywords

const letters = "abAB"

func goType(base string, runtime bool) string {
	switch base {
	case "Bool":
		return "bool"
	case "Int8":
		return "int8"
	case "Int16":
		return "int16"
	case "Int32":
		return "int32"
	case "Int64":
		return "int64"
	case "Float32":
		return "float32"
	case "Float64":
		return "float64"
	case "String", "UUID":
		return "string"
	case "Bytes":
		return "[]byte"
	case "Any":
		return "interface{}"
	case "Decimal", "Timestamp":
		if runtime {
			return "*sadl." + base
		}
		return "*" + base
	}
	return ""
}

var bases = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "UUID", "Timestamp", "Bytes", "Any"}
var without = []string{"Struct", "Enum", "Union", "UnitValue"} // no Go type when used without a name of their own

type world struct {
	types   []*sadl.TypeDef
	runtime bool
	bad     bool // something is used that the generator does not support
}

func (w *world) has(name string) bool {
	for _, t := range w.types {
		if t.Name == name {
			return true
		}
	}
	return false
}

func (w *world) add(name string, ts sadl.TypeSpec) {
	if !w.has(name) {
		w.types = append(w.types, lib.Type(name, ts))
	}
}

func structOf(t string) sadl.TypeSpec {
	return sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("x", false, sadl.TypeSpec{Type: t})}}
}

// named makes a type that can be referred to by its name, and says what it is in Go
func (w *world) named(n string) (string, string) {
	switch rt.Choice(n, 8) {
	case 0:
		b := bases[rt.Choice(n+" base", len(bases))]
		return b, goType(b, w.runtime)
	case 1:
		b := bases[rt.Choice(n+" alias of", len(bases))]
		w.add("My"+b, sadl.TypeSpec{Type: b})
		if b == "Timestamp" {
			return "My" + b, "*My" + b
		}
		return "My" + b, "My" + b
	case 2:
		w.add("Color", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("RED", "BLUE")})
		return "Color", "Color"
	case 3:
		w.add("Thing", structOf("Int32"))
		return "Thing", "*Thing"
	case 4:
		w.add("Either", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "b", TypeSpec: sadl.TypeSpec{Type: "Bool"}}}})
		return "Either", "Either"
	case 5:
		w.add("List", sadl.TypeSpec{Type: "Array", Items: "String"})
		return "List", "List"
	case 6:
		w.add("Nothing", sadl.TypeSpec{Type: "Struct"})
		return "Nothing", "*Nothing"
	}
	w.add("Table", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "Int64"})
	return "Table", "Table"
}

// spec makes a type as a field has it
func (w *world) spec(n string) (sadl.TypeSpec, string) {
	switch rt.Choice(n+" form", 4) {
	case 0:
		name, g := w.named(n)
		return sadl.TypeSpec{Type: name}, g
	case 1:
		items, g := w.named(n + " items")
		return sadl.TypeSpec{Type: "Array", Items: items}, "[]" + g
	case 2:
		items, g := w.named(n + " items")
		key := "String"
		gk := "string"
		if rt.Choice(n+" named key", 2) == 1 {
			key, gk = "Key", "Key"
			w.add("Key", sadl.TypeSpec{Type: "String"})
		}
		return sadl.TypeSpec{Type: "Map", Keys: key, Items: items}, "map[" + gk + "]" + g
	}
	t := without[rt.Choice(n+" not supported", len(without))]
	if t == "UnitValue" && w.runtime {
		return sadl.TypeSpec{Type: t, Value: "Decimal", Unit: "String"}, "*sadl.UnitValue"
	}
	w.bad = true
	return sadl.TypeSpec{Type: t}, ""
}

func conf(w *world) *sadl.Data {
	c := sadl.NewData()
	if rt.Choice("runtime", 2) == 1 {
		c.Put("runtime", true)
		w.runtime = true
	}
	return c
}

// generate exports a model, and returns the declarations of the file made for it
func generate(sc *sadl.Schema, c *sadl.Data, file string) ([]*lib.GoDecl, error) {
	m, err := sadl.NewModel(sc)
	rt.Assert(err == nil, "the model is accepted")
	if err != nil {
		return nil, err
	}
	dir := rt.TempDir()
	rt.Assert(!rt.Panics(func() { err = golang.Export(m, dir, c) }), "the export never crashes")
	if err != nil {
		return nil, err
	}
	b, e := os.ReadFile(filepath.Join(dir, file))
	rt.Assert(e == nil, "the model file is where the package says")
	if e != nil {
		return nil, e
	}
	ds, ok := lib.GoDecls(string(b))
	rt.Assert(ok && len(ds) > 0 && ds[0].Kind == "package", "the file is made of Go declarations and starts with its package")
	rt.Assert(lib.GoImports(ds), "the imports are exactly the packages used")
	return ds, nil
}

func schema(types ...*sadl.TypeDef) *sadl.Schema { return &sadl.Schema{Name: "test", Types: types} }

func export(w *world, c *sadl.Data) []*lib.GoDecl {
	ds, err := generate(schema(w.types...), c, "main/test_model.go")
	rt.Assert((err != nil) == w.bad, "the export fails exactly when a type is not supported")
	if err == nil {
		rt.Assert(lib.GoUnique(ds), "no name is declared twice")
		rt.Reach("exported")
	}
	return ds
}

// needs says that the types which stand for Timestamp and Decimal are there when they are used
func needs(ds []*lib.GoDecl, w *world) {
	for _, n := range []string{"Timestamp", "Decimal"} {
		used, decl := false, false
		for _, d := range ds {
			for i, t := range d.Toks {
				if t == n && d.Toks[i-1] != "." {
					used = true
					if d.Kind == "type" && i == 1 {
						decl = true
					}
				}
			}
		}
		rt.Assert(!used || decl, "the types used for Timestamp and Decimal are declared")
	}
}

func V_TypeDefs() {
	w := &world{}
	c := conf(w)
	name := "X" + rt.StrN("name", 0, 2, letters)
	k := rt.Choice("kind", len(bases)+3)
	var want string
	ts := sadl.TypeSpec{}
	switch {
	case k < len(bases):
		ts.Type = bases[k]
		want = "type " + name + " " + goType(ts.Type, w.runtime)
		switch ts.Type {
		case "Timestamp":
			want = "type " + name + " = " + goType(ts.Type, w.runtime)[1:]
		case "Decimal":
			want = "type " + name + " Decimal"
		}
	case k == len(bases):
		ts.Type = "Array"
		items, g := w.named("items")
		ts.Items = items
		want = "type " + name + " []" + g
	case k == len(bases)+1:
		ts.Type = "Map"
		key, gk := "String", "string"
		if rt.Choice("named key", 2) == 1 {
			key, gk = "Key", "Key"
			w.add("Key", sadl.TypeSpec{Type: "String"})
		}
		items, g := w.named("items")
		ts.Items = items
		ts.Keys = key
		want = "type " + name + " map[" + gk + "]" + g
	default:
		ts = sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"}
		w.bad = true
	}
	w.add(name, ts)
	ds := export(w, c)
	if ds == nil {
		return
	}
	rt.Assert(lib.GoIs(lib.GoFind(ds, "type", name), want), "a type is declared once, as the Go type that corresponds to it")
	switch ts.Type {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64":
		rt.Assert(lib.GoFind(ds, "func", name+"FromString") != nil, "a number type can be made from a string")
	}
	needs(ds, w)
}

func V_Field() {
	w := &world{}
	c := conf(w)
	ts, g := w.spec("field")
	n := rt.StrN("name", 1, 2, letters)
	f := lib.Field(n, rt.Choice("required", 2) == 1, ts)
	if rt.Choice("more", 2) == 1 {
		f.Default = 5
		f.Comment = "a comment"
		f.Annotations = map[string]string{"x_a": "b"}
	}
	w.add("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f}})
	ds := export(w, c)
	if ds == nil {
		return
	}
	rt.Assert(lib.GoIs(lib.GoFind(ds, "type", "S"), "type S struct {\n"+member(f, g)+"}"), "a struct has its fields, with the Go types, JSON names, and omitempty if optional")
	needs(ds, w)
}

func upper(s string) string {
	b := []byte(s)
	if rt.Fork(b[0] >= 'a') {
		b[0] -= 32
	}
	return string(b)
}

func member(f *sadl.StructFieldDef, g string) string {
	tag := f.Name
	if !f.Required {
		tag += ",omitempty"
	}
	return upper(f.Name) + " " + g + " `json:\"" + tag + "\"`\n"
}

func V_Struct() {
	w := &world{}
	n := rt.Choice("fields", 4)
	var fs []*sadl.StructFieldDef
	want := "type S struct {\n"
	for i := 0; i < n; i++ {
		f := lib.Field(string([]byte{byte('a' + i)})+rt.StrN("name", 0, 1, letters), rt.Choice("required", 2) == 1, sadl.TypeSpec{Type: []string{"Int32", "S"}[i%2]})
		fs = append(fs, f)
		want += member(f, []string{"int32", "*S"}[i%2])
	}
	want += "}"
	w.add("S", sadl.TypeSpec{Type: "Struct", Fields: fs})
	ds := export(w, sadl.NewData())
	rt.Assert(lib.GoIs(lib.GoFind(ds, "type", "S"), want), "a struct has its fields in order")
}

func V_Union() {
	w := &world{}
	c := sadl.NewData()
	n := 1 + rt.Choice("variants", 3)
	u := sadl.TypeSpec{Type: "Union"}
	want := "type U struct {\nVariant UVariantTag `json:\"-\"`\n"
	tags := "const (\n_ UVariantTag = iota\n"
	for i := 0; i < n; i++ {
		name := string([]byte{byte('a' + i)}) + rt.StrN("variant", 0, 1, letters)
		ts, g := sadl.TypeSpec{Type: "String"}, "string"
		if i == n-1 {
			ts, g = w.spec("variant")
		}
		u.Variants = append(u.Variants, &sadl.UnionVariantDef{Name: name, TypeSpec: ts})
		want += upper(name) + " " + g + " `json:\"" + name + ",omitempty\"`\n"
		tags += "UVariantTag" + upper(name) + "\n"
	}
	w.add("U", u)
	ds := export(w, c)
	if ds == nil {
		return
	}
	rt.Assert(lib.GoIs(lib.GoFind(ds, "type", "U"), want+"}"), "a union has its tag, and its variants in order with their Go types and JSON names")
	rt.Assert(lib.GoIs(lib.GoFind(ds, "type", "UVariantTag"), "type UVariantTag int"), "a union has a type for its tag")
	ok := false
	for _, d := range ds {
		if d.Kind == "const" && len(d.Toks) > 3 && d.Toks[3] == "UVariantTag" {
			rt.Assert(lib.GoIs(d, tags+")"), "a union has a tag for each variant in order, none of them zero")
			ok = true
		}
	}
	rt.Assert(ok, "a union has its tags")
	needs(ds, w)
}

// quoted reads a Go string literal
func quoted(t string) string {
	var b []byte
	for i := 1; i < len(t)-1; i++ {
		if t[i] == '\\' {
			i++
			if t[i] == 'n' {
				b = append(b, '\n')
				continue
			}
		}
		b = append(b, t[i])
	}
	return string(b)
}

func V_Enum() {
	n := 1 + rt.Choice("symbols", 3)
	var els []*sadl.EnumElementDef
	vals := []string{}
	consts := "const (\n_ E = iota\n"
	for i := 0; i < n; i++ {
		e := &sadl.EnumElementDef{Symbol: string([]byte{byte('A' + i)}) + rt.StrN("symbol", 0, 1, letters)}
		v := e.Symbol
		if i == 0 && rt.Choice("value", 2) == 1 {
			v = rt.StrN("x_enumValue", 1, 2, "a-\"\\\n")
			e.Annotations = map[string]string{"x_enumValue": v}
		}
		vals = append(vals, v)
		els = append(els, e)
		consts += e.Symbol + "\n"
	}
	w := &world{}
	w.add("E", sadl.TypeSpec{Type: "Enum", Elements: els})
	ds := export(w, sadl.NewData())
	rt.Assert(lib.GoIs(lib.GoFind(ds, "type", "E"), "type E int"), "an enum is declared once")
	ok := false
	for _, d := range ds {
		if d.Kind == "const" {
			rt.Assert(!ok && lib.GoIs(d, consts+")"), "an enum has a constant for each symbol in order, none of them zero")
			ok = true
		}
	}
	rt.Assert(ok, "an enum has its constants")
	d := lib.GoFind(ds, "var", "namesE")
	rt.Assert(d != nil, "an enum has its names")
	if d == nil {
		return
	}
	// var namesE = []string{ A: "A", ... }
	t := d.Toks
	rt.Assert(len(t) == 8+4*n && lib.Same(t[2:7], []string{"=", "[", "]", "string", "{"}) && t[len(t)-1] == "}", "the names are a table")
	if len(t) != 8+4*n {
		return
	}
	for i := 0; i < n; i++ {
		e := t[7+4*i:]
		rt.Assert(rt.And(e[0] == els[i].Symbol, e[1] == ":", e[3] == ","), "each symbol has a name")
		rt.Assert(e[2][0] == '"' && quoted(e[2]) == vals[i], "a symbol's JSON value is its x_enumValue, or else itself")
	}
	for _, m := range []string{"String", "MarshalJSON", "UnmarshalJSON"} {
		rt.Assert(lib.GoFind(ds, "func", "E."+m) != nil, "an enum can be read and written")
	}
}

func param(name string, required bool, ts sadl.TypeSpec) *sadl.HttpParamSpec {
	return &sadl.HttpParamSpec{StructFieldDef: *lib.Field(name, required, ts)}
}

func V_Actions() {
	w := &world{}
	w.add("Err", structOf("String"))
	w.add("Fault", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "b", TypeSpec: sadl.TypeSpec{Type: "Bool"}}}})
	n := rt.Choice("actions", 3)
	want := "type Test interface {\n"
	types := []string{}
	thrown := map[string]bool{}
	var acts []*sadl.HttpDef
	for i := 0; i < n; i++ {
		name := string([]byte{byte('p' + i)})
		if i == 0 {
			name += rt.StrN("action", 0, 1, letters)
		}
		up := upper(name)
		want += up + "(req *" + up + "Request) (*" + up + "Response, error)\n"
		hd := &sadl.HttpDef{Name: name, Method: "GET", Path: "/"}
		in := "type " + up + "Request struct {\n"
		ni := 1
		if i == 0 {
			ni = rt.Choice("inputs", 3)
		}
		for j := 0; j < ni; j++ {
			p := param(string([]byte{byte('a' + j)})+rt.StrN("input", 0, 1, letters), rt.Bool("required"), sadl.TypeSpec{Type: "Int32"})
			if j == 0 {
				p.Query = "q"
			}
			hd.Inputs = append(hd.Inputs, p)
			in += member(&p.StructFieldDef, "int32")
		}
		out := "type " + up + "Response struct {\n"
		if i > 0 || rt.Choice("expected", 2) == 1 {
			hd.Expected = &sadl.HttpExpectedSpec{Status: 200}
			if i == 0 {
				for j := rt.Choice("outputs", 3); j > 0; j-- {
					p := param(string([]byte{byte('c' + j)}), rt.Choice("required output", 2) == 1, sadl.TypeSpec{Type: "Err"})
					if j == 2 {
						p.Header = "H"
					}
					hd.Expected.Outputs = append(hd.Expected.Outputs, p)
					out += member(&p.StructFieldDef, "*Err")
				}
			}
		}
		types = append(types, in+"}", out+"}")
		ne := 3
		if i == 1 {
			ne = 2
		}
		for j := rt.Choice("exceptions", ne); j > 0; j-- {
			t := []string{"Err", "Fault"}[(j+i)%2]
			thrown[t] = true
			e := &sadl.HttpExceptionSpec{Type: t, Status: int32(400 + j)}
			if j == 1 && rt.Choice("any other status", 2) == 1 {
				e.Status = 0
			}
			hd.Exceptions = append(hd.Exceptions, e)
		}
		acts = append(acts, hd)
	}
	sc := schema(w.types...)
	sc.Http = acts
	ds, err := generate(sc, sadl.NewData(), "main/test_model.go")
	rt.Assert(err == nil, "actions are exported")
	if err != nil {
		return
	}
	rt.Assert(lib.GoUnique(ds), "no name is declared twice")
	rt.Assert(lib.GoIs(lib.GoFind(ds, "type", "Test"), want+"}"), "the service interface has one method for each action, in order")
	for _, t := range types {
		toks, _ := lib.GoTokens(t)
		rt.Assert(lib.GoIs(lib.GoFind(ds, "type", toks[1]), t), "an action's request and response have its inputs and outputs in order, with omitempty if optional")
	}
	for _, t := range []string{"Err", "Fault"} {
		rt.Assert((lib.GoFind(ds, "func", t+".Error") != nil) == thrown[t], "exactly the types that are thrown are Go errors")
	}
}

func V_Package() {
	c := sadl.NewData()
	sc := schema(lib.Type("T", sadl.TypeSpec{Type: "String"}))
	name := ""
	switch rt.Choice("name", 3) {
	case 0:
		sc.Name = rt.StrN("model name", 1, 2, letters)
		name = sc.Name
	case 1:
		name = rt.StrN("configured name", 1, 2, letters)
		c.Put("name", name)
	case 2:
		name = "test"
	}
	pkg := ""
	switch rt.Choice("package", 4) {
	case 0:
		pkg = "main"
	case 1:
		pkg = dotted("namespace")
		sc.Namespace = pkg
	case 2:
		pkg = dotted("configured package")
		c.Put("package", pkg)
		if rt.Choice("namespace too", 2) == 1 {
			sc.Namespace = "zz"
		}
	case 3:
		pkg = "main"
		c.Put("package", "")
	}
	b := []byte(pkg)
	last := 0
	for i := range b {
		if rt.Fork(b[i] == '.') {
			b[i] = '/'
			last = i + 1
		}
	}
	lower := []byte(name)
	if rt.Fork(lower[0] < 'a') {
		lower[0] += 32
	}
	ds, err := generate(sc, c, string(b)+"/"+string(lower)+"_model.go")
	rt.Assert(err == nil, "a model is exported")
	if err != nil || len(ds) == 0 {
		return
	}
	rt.Assert(ds[0].Name == pkg[last:], "the package is the last part of the configured package, the namespace, or else main")
	rt.Assert(lib.GoFind(ds, "type", upper(name)) != nil, "the service has the name of the model")
}

func dotted(n string) string {
	s := rt.StrN(n, 1, 2, "abA")
	return s + []string{"", ".x", ".xA.b", ".b.x.zz"}[rt.Choice(n+" dots", 4)]
}
