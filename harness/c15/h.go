package c15

import (
	"strings"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:parser
//verif:assume boynton/scanner is not available offline: it is modelled by /verif/stubs/scanner, which scans the text
//verif:assume names are SADL identifiers, and strings have no backslash and no quote (how the missing scanner reads escapes is not known)
//verif:bound source texts with one type of each of 16 kinds (next to a struct, a string and an enum) with every combination of its options in either order, separated in 3 ways, in lower or mixed case; comments before, behind, or both; semicolons; block comments
//verif:bound a struct with a field of every kind and every field option; enums of 3 symbols separated in 4 ways; unions in both forms; annotations with and without value; operations; examples of every kind of literal; files that include one another
//verif:bound every option (16 names, and unknown ones) with a value of its kind, none, and 2..7 others, at 42 places options can be
//verif:bound names, strings, sizes, limits symbolic (1..2 characters, 0..9, 1..2 digits)

const defined = "type Point Struct {\n\tx Int32 (required)\n}\ntype Str String\ntype Colour Enum {\n\tred\n\tgreen\n}\n"

func parse(text string) (*sadl.Model, error) {
	rt.Observe("text", text)
	m, err := sadl.ParseSadlString(text, sadl.NewData())
	rt.Assert((m == nil) == (err != nil), "a model or an error")
	return m, err
}

// accepted parses text, which has to say what want says
func accepted(text string, want *sadl.Schema) {
	m, err := parse(text)
	rt.Assert(err == nil, "the text is accepted")
	lib.SameSchema(want, &m.Schema)
	rt.Reach("compared")
}

func rejected(text string) {
	_, err := parse(text)
	rt.Assert(err != nil, "the text is an error")
	rt.Reach("rejected")
}

func schema(types ...*sadl.TypeDef) *sadl.Schema {
	return &sadl.Schema{Types: append(lib.Defined(), types...)}
}

func list(items []string) string {
	if rt.Choice("listing", 2) == 1 {
		return "[\"" + strings.Join(items, "\",\n \"") + "\"]"
	}
	return "[\"" + strings.Join(items, "\", \"") + "\"]"
}

func num(n int64) string { return string(rune('0' + n)) }

// options writes options the way the layout says: order, separator, case
func options(opts []string) string {
	if len(opts) == 0 {
		return ""
	}
	if len(opts) > 1 && rt.Choice("order", 2) == 1 {
		opts[0], opts[len(opts)-1] = opts[len(opts)-1], opts[0]
	}
	switch rt.Choice("layout", 3) {
	case 0:
		return "(" + strings.Join(opts, ",") + ")"
	case 1:
		return " ( " + strings.Join(opts, " , ") + " ) "
	}
	return " (" + strings.Join(opts, " ") + ")"
}

func name(n string) string {
	if rt.Choice("case", 2) == 1 {
		switch n {
		case "minsize":
			return "minSize"
		case "maxsize":
			return "MaxSize"
		}
		return strings.ToUpper(n[:1]) + n[1:]
	}
	return n
}

func constraints(ts *sadl.TypeSpec) []string {
	var o []string
	if ts.Min != nil {
		o = append(o, "min="+ts.Min.String())
	}
	if ts.Max != nil {
		o = append(o, "max="+ts.Max.String())
	}
	if ts.MinSize != nil {
		o = append(o, name("minsize")+"="+num(*ts.MinSize))
	}
	if ts.MaxSize != nil {
		o = append(o, "maxsize = "+num(*ts.MaxSize))
	}
	if ts.Pattern != "" {
		o = append(o, "pattern=\""+ts.Pattern+"\"")
	}
	if ts.Values != nil {
		o = append(o, "values="+list(ts.Values))
	}
	if ts.Reference != "" {
		o = append(o, "reference="+ts.Reference)
	}
	return o
}

// head is the type without its options
func head(ts *sadl.TypeSpec) string {
	switch ts.Type {
	case "Array":
		kw := []string{"Array", "List"}[rt.Choice("keyword", 2)]
		if ts.Items == "Any" && kw == "Array" && rt.Choice("bare", 2) == 1 {
			return kw
		}
		return kw + "<" + ts.Items + ">"
	case "Map":
		if ts.Items == "Any" && ts.Keys == "String" && rt.Choice("bare", 2) == 1 {
			return "Map"
		}
		return "Map<" + ts.Keys + "," + ts.Items + ">"
	case "UnitValue":
		if ts.Value == "Decimal" && ts.Unit == "String" && rt.Choice("bare", 2) == 1 {
			return "UnitValue"
		}
		return "UnitValue < " + ts.Value + " , " + ts.Unit + " >"
	case "Struct":
		if len(ts.Fields) == 0 {
			return []string{"Struct", "Struct {\n}", "Struct { }"}[rt.Choice("empty", 3)]
		}
		s := "Struct {\n"
		for _, f := range ts.Fields {
			var o []string
			if f.Required {
				o = append(o, "required")
			}
			s += "\t" + f.Name + " " + head(&f.TypeSpec)
			if o = append(o, constraints(&f.TypeSpec)...); len(o) > 0 {
				s += " (" + strings.Join(o, ", ") + ")"
			}
			if f.Comment != "" {
				s += " //" + f.Comment
			}
			s += "\n"
		}
		return s + "}"
	case "Enum":
		sep := []string{"\n", ",\n", " ", "; "}[rt.Choice("separator", 4)]
		s := "Enum {\n"
		for i, e := range ts.Elements {
			s += e.Symbol
			for k, v := range e.Annotations {
				s += " (" + k + "=\"" + v + "\")"
			}
			if e.Comment != "" {
				s += " // " + e.Comment + "\n"
			} else if i < len(ts.Elements)-1 {
				s += sep
			}
		}
		return s + "\n}"
	case "Union":
		s := "Union {\n"
		for _, v := range ts.Variants {
			s += v.Name + " " + head(&v.TypeSpec)
			if o := constraints(&v.TypeSpec); len(o) > 0 {
				s += " (" + strings.Join(o, ", ") + ")"
			}
			if v.Comment != "" {
				s += " //" + v.Comment
			}
			s += "\n"
		}
		return s + "}"
	}
	return ts.Type
}

func end() string {
	return []string{"\n", ";\n", ""}[rt.Choice("end", 3)]
}

func V_types() {
	td := lib.Type("X"+rt.StrN("name", 0, 2, "abZ_1"), lib.Spec(lib.Kinds[rt.Choice("kind", len(lib.Kinds))]))
	accepted(defined+"type "+td.Name+" "+head(&td.TypeSpec)+options(constraints(&td.TypeSpec))+end(), schema(td))
}

// V_shortUnion: Union<A,B> is a union whose variants are named by their types
func V_shortUnion() {
	a, b := []string{"Point", "Str", "Colour"}[rt.Choice("a", 3)], []string{"Int32", "String", "Point"}[rt.Choice("b", 3)]
	td := lib.Type("X", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: a, TypeSpec: sadl.TypeSpec{Type: a}}, {Name: b, TypeSpec: sadl.TypeSpec{Type: b}}}})
	accepted(defined+"type X Union<"+a+","+b+">"+end(), schema(td))
}

// V_comments: comments go to the nearest definition, one line after the other
func V_comments() {
	c1, c2, c3 := rt.StrN("c1", 1, 2, "ab"), rt.StrN("c2", 1, 1, "cd"), rt.StrN("c3", 1, 1, "ef")
	kind := []string{"Bool", "Int32", "String", "Bytes", "Array", "Struct", "Union", "Enum"}[rt.Choice("kind", 8)]
	body := kind
	td := lib.Type("X", sadl.TypeSpec{Type: kind})
	switch kind {
	case "Array":
		body, td.Items = "Array<Str>", "Str"
	case "Struct":
		body, td.Fields = "Struct {\na Bool\n}", []*sadl.StructFieldDef{lib.Field("a", false, sadl.TypeSpec{Type: "Bool"})}
	case "Union":
		body, td.Variants = "Union {\na Str\n}", []*sadl.UnionVariantDef{{Name: "a", TypeSpec: sadl.TypeSpec{Type: "Str"}}}
	case "Enum":
		body, td.Elements = "Enum {\np\n}", lib.Elements("p")
	}
	text := ""
	switch rt.Choice("place", 5) {
	case 0:
		text, td.Comment = "//"+c1+"\ntype X "+body+"\n", c1
	case 1:
		text, td.Comment = "// "+c1+" \n//"+c2+"\ntype X "+body+" //"+c3+"\n", c1+" "+c2+" "+c3
	case 2:
		text, td.Comment = "type X "+body+" // "+c1+"\n", c1
	case 3:
		text, td.Comment = "//"+c1+"\n\n/* not this */type X "+body+"\n/* nor\nthis */", c1
	case 4:
		text = "type X " + body + "\n"
	}
	y := lib.Type("Y", sadl.TypeSpec{Type: "Bool"})
	y.Comment = c3
	accepted(defined+text+"//"+c3+"\ntype Y Bool\n", schema(td, y))
}

// V_annotations: x_ options, with and without value, on every kind of type
func V_annotations() {
	v := rt.StrN("value", 0, 2, "ab ")
	an := "x_" + rt.StrN("anno", 1, 1, "ab")
	kind := []string{"Any", "Bool", "Int8", "Decimal", "String", "Bytes", "Timestamp", "UUID", "UnitValue", "Array", "Map", "Struct", "Enum", "Union"}[rt.Choice("kind", 14)]
	td := lib.Type("X", sadl.TypeSpec{Type: kind})
	tail := ""
	switch kind {
	case "UnitValue":
		td.Value, td.Unit = "Decimal", "String"
	case "Array":
		td.Items = "Any"
	case "Map":
		td.Keys, td.Items = "String", "Any"
	case "Struct":
		tail = " {\nx Bool\n}"
		td.Fields = []*sadl.StructFieldDef{lib.Field("x", false, sadl.TypeSpec{Type: "Bool"})}
	case "Enum":
		tail = " {\np\n}"
		td.Elements = lib.Elements("p")
	case "Union":
		tail = " {\np Str\n}"
		td.Variants = []*sadl.UnionVariantDef{{Name: "p", TypeSpec: sadl.TypeSpec{Type: "Str"}}}
	}
	opt := " (" + an + "=\"" + v + "\", x_flag)"
	td.Annotations = map[string]string{an: v, "x_flag": ""}
	if rt.Choice("where", 2) == 1 {
		accepted(defined+"type X "+kind+opt+tail+"\n", schema(td))
	} else {
		accepted(defined+"type X "+kind+tail+opt+"\n", schema(td))
	}
}

func literal(n, kind string) (string, interface{}) {
	switch kind {
	case "Bool":
		if rt.Fork(rt.Bool(n)) {
			return "true", true
		}
		return "false", false
	case "Int32":
		s := rt.StrN(n, 1, 2, "123")
		if rt.Choice("sign", 2) == 1 {
			s = "-" + s
		}
		return s, lib.Dec(s)
	case "Decimal":
		s := rt.StrN(n, 1, 1, "123") + "." + rt.StrN(n, 1, 1, "123")
		switch rt.Choice("digits", 3) {
		case 1: // more digits than a float64 holds
			s = "1234567890123456789" + s
		case 2:
			s = "0.1" // no binary fraction is exact
		}
		return s, lib.Dec(s)
	case "String":
		s := rt.StrN(n, 0, 2, "ab {:")
		return "\"" + s + "\"", &s
	case "Array":
		a := rt.StrN(n, 1, 1, "ab")
		b := "x"
		switch rt.Choice("elements", 3) {
		case 0:
			return "[]", []interface{}{}
		case 1:
			return "[\"" + a + "\"]", []interface{}{&a}
		}
		return "[\"" + a + "\",\n\"x\"]", []interface{}{&a, &b}
	case "Point":
		d := rt.StrN(n, 1, 1, "123")
		return "{\n \"x\": " + d + "\n}", map[string]interface{}{"x": lib.Dec(d)}
	}
	return "", nil
}

// V_fields: a struct field of every kind, with its options, default and comments
func V_fields() {
	kinds := []string{"Any", "Bool", "Int8", "Decimal", "Bytes", "String", "Timestamp", "UUID", "UnitValue", "Array", "Map", "Struct", "Enum"}
	f := lib.Field(rt.StrN("field", 1, 2, "abZ"), false, lib.Spec(kinds[rt.Choice("kind", len(kinds))]))
	opts := constraints(&f.TypeSpec)
	if rt.Choice("required", 2) == 1 {
		f.Required = true
		opts = append(opts, "required")
	}
	h := head(&f.TypeSpec)
	rt.Assume(!(h == "Struct" && f.Required)) // a bare Struct takes annotations only
	text := f.Name + " " + h + options(opts)
	td := lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f, lib.Field("last", true, sadl.TypeSpec{Type: "Str"})}})
	accepted(defined+"type S Struct {\n"+text+[]string{"\n", ";\n", " ; \n\n"}[rt.Choice("end", 3)]+"last Str (required)\n}\n", schema(td))
}

func V_fieldExtras() {
	kind := []string{"Bool", "Int32", "Decimal", "String", "Array", "Point"}[rt.Choice("kind", 6)]
	f := lib.Field("f", false, sadl.TypeSpec{Type: kind})
	typ := kind
	if kind == "Array" {
		f.Items = "Str"
		typ = "Array<Str>"
	}
	c1, c2, c3 := rt.StrN("c1", 1, 2, "ab"), rt.StrN("c2", 1, 1, "cd"), rt.StrN("c3", 1, 1, "ef")
	text := ""
	switch rt.Choice("vary", 6) {
	case 0:
		s, v := literal("lit", kind)
		f.Default = v
		text = "f " + typ + " (default=" + s + ")\n"
	case 1:
		s, v := literal("lit", kind)
		f.Default = v
		f.Annotations = map[string]string{"x_a": c1, "x_b": ""}
		text = "f " + typ + " (x_a=\"" + c1 + "\", default = " + s + ",x_b) //" + c2 + "\n"
		f.Comment = c2
	case 2:
		f.Comment = c1
		text = "//" + c1 + "\nf " + typ + "\n"
	case 3:
		f.Comment = c1 + " " + c2 + " " + c3
		text = "\n// " + c1 + "\n// " + c2 + "\nf " + typ + " // " + c3 + " \n"
	case 4:
		f.Comment = c1
		text = "f " + typ + "; //" + c1 + "\n"
	case 5:
		f.Comment = c1
		f.Required = true
		text = "f " + typ + " (required) //" + c1 + "\n"
	}
	g := lib.Field("g", false, sadl.TypeSpec{Type: "Bool"})
	g.Comment = c3
	td := lib.Type("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f, g}})
	td.Comment = c2
	accepted(defined+"type S Struct { //"+c2+"\n"+text+"//"+c3+"\ng Bool\n}\n", schema(td))
}

// V_header: the directives about the schema itself
func V_header() {
	s := schema()
	w, v := rt.StrN("w", 1, 2, "ab"), rt.StrN("v", 1, 2, "cd")
	text := ""
	switch rt.Choice("vary", 7) {
	case 0:
		text, s.Name = "name "+w+"\n", w
	case 1:
		text, s.Name, s.Comment = "//"+v+"\nname \""+w+"\"\n", w, v
	case 2:
		text, s.Namespace = "namespace "+w+"."+v+"."+w+"\n", w+"."+v+"."+w
	case 3:
		n := rt.StrN("n", 1, 1, "123")
		text, s.Version = []string{"version " + n + "\n", "version \"" + n + "\"\n"}[rt.Choice("quoted", 2)], n
	case 4:
		text, s.Base = "base \"/"+w+"\";\n", "/"+w
	case 5:
		text, s.Annotations = "x_"+w+" \""+v+"\"\nx_z\n", map[string]string{"x_" + w: v, "x_z": ""}
	case 6:
		text, s.Annotations = "x_"+w+" = \""+v+"\"\n", map[string]string{"x_" + w: v}
	}
	accepted(text+defined, s)
}

func V_operations() {
	op := &sadl.OperationDef{Name: "Do" + rt.StrN("name", 0, 1, "ab")}
	c := rt.StrN("c", 1, 1, "ab")
	text := "operation " + op.Name + " "
	if rt.Choice("annotated", 2) == 1 {
		text += "(x_a=\"" + c + "\") "
		op.Annotations = map[string]string{"x_a": c}
	}
	text += "{\n"
	switch rt.Choice("inputs", 3) {
	case 1:
		in := &sadl.OperationInput{}
		in.Name, in.Type, in.Required = rt.StrN("in", 1, 2, "ab"), "Str", true
		text += "inputs {\n" + in.Name + " Str (required)\n}\n"
		op.Inputs = append(op.Inputs, in)
	case 2:
		in, in2 := &sadl.OperationInput{}, &sadl.OperationInput{}
		in.Name, in.Type, in.Comment = rt.StrN("in", 1, 2, "ab"), "Int32", c
		in2.Name, in2.Type, in2.Required = "second", "Point", true
		text += "inputs {\n//" + c + "\n" + in.Name + " Int32\nsecond Point (required)\n}\n"
		op.Inputs = append(op.Inputs, in, in2)
	}
	switch rt.Choice("outputs", 3) {
	case 1:
		op.Outputs = []*sadl.OperationOutput{{Name: "o", TypeSpec: sadl.TypeSpec{Type: "Point"}}}
		text += "outputs {\no Point\n}\n"
	case 2:
		op.Outputs = []*sadl.OperationOutput{{Name: "o", TypeSpec: sadl.TypeSpec{Type: "Point"}}, {Name: "p", Comment: c, TypeSpec: sadl.TypeSpec{Type: "Str"}}}
		text += "outputs {\no Point\np Str //" + c + "\n}\n"
	}
	switch rt.Choice("exceptions", 3) {
	case 1:
		op.Exceptions = []string{"Point"}
		text += "exceptions {\nPoint\n}\n"
	case 2:
		op.Exceptions = []string{"Str", "Point"}
		text += "exceptions {\nStr\nPoint\n}\n"
	}
	s := schema()
	if rt.Choice("commented", 2) == 1 {
		text = "//" + c + "\n" + text
		op.Comment = c
	}
	s.Operations = []*sadl.OperationDef{op}
	accepted(defined+text+"}"+[]string{"\n", ""}[rt.Choice("end", 2)], s)
}

func V_examples() {
	kind := []string{"Bool", "Int32", "Decimal", "String", "Array", "Point"}[rt.Choice("kind", 6)]
	td := lib.Type("X", sadl.TypeSpec{Type: kind})
	typ := kind
	target := "X"
	switch kind {
	case "Array":
		td.Items = "Str"
		typ = "Array<Str>"
	case "Point":
		td.TypeSpec = sadl.TypeSpec{Type: "Bool"}
		typ = "Bool"
		target = "Point"
	}
	text, v := literal("lit", kind)
	e := &sadl.ExampleDef{Target: target, Example: v}
	head := "example " + target + " "
	switch rt.Choice("vary", 3) {
	case 0:
		e.Name = rt.StrN("name", 1, 2, "ab")
		head += "(name=" + e.Name + ") "
	case 1:
		e.Comment = rt.StrN("c", 1, 2, "ab")
		head = "//" + e.Comment + "\n" + head
	}
	s := schema(td)
	s.Examples = []*sadl.ExampleDef{e, {Target: "Point.x", Example: lib.Dec("3")}}
	accepted(defined+"type X "+typ+"\n"+head+text+"\nexample Point.x 3\n", s)
}

// V_rejected: what is undefined, contradictory or out of place is an error
func V_rejected() {
	n := "N" + rt.StrN("n", 1, 2, "abc") // not defined
	texts := []string{
		"type X Struct {\na " + n + "\n}\n",
		"type X Struct {\na Array<" + n + ">\n}\n",
		"type X Struct {\na Map<String," + n + ">\n}\n",
		"type X Struct {\na Map<" + n + ",Str>\n}\n",
		"type X Array<" + n + ">\n",
		"type X Map<String," + n + ">\n",
		"type X Map<" + n + ",Str>\n",
		"type X Map<" + n + ",Any>\n",
		"type X UnitValue<" + n + ",String>\n",
		"type X UnitValue<Decimal," + n + ">\n",
		"type X UnitValue<String,String>\n",
		"type X UnitValue<Decimal,Int32>\n",
		"type X String (reference=" + n + ")\n",
		"type X UUID (reference=" + n + ")\n",
		"type X Union<Str," + n + ">\n",
		"type X Union {\na " + n + "\n}\n",
		"operation O {\ninputs {\na " + n + "\n}\n}\n",
		"operation O {\noutputs {\na " + n + "\n}\n}\n",
		"operation O {\nexceptions {\n" + n + "\n}\n}\n",
		"http POST \"/\" (operation=o) {\na " + n + "\n}\n",
		"http GET \"/\" (operation=o) {\nexpect 200 " + n + "\n}\n",
		"http GET \"/\" (operation=o) {\nexpect 200 {\na " + n + "\n}\n}\n",
		"http GET \"/\" (operation=o) {\nexcept 404 " + n + "\n}\n",
		"http GET \"/\" (operation=o) {\nexpect 204\nexcept 404 " + n + "\n}\n",
		"example " + n + " 1\n",
		"type X " + n + "\n",
		"type Str String\n",
		"type X String (pattern=\"a\", values=[\"a\"])\n",
		"type X Struct {\na String (pattern=\"a\", values=[\"a\"])\n}\n",
		"type X Struct {\na String (required, default=\"a\")\n}\n",
		"type X Struct {\na Int32 (default=\"a\")\n}\n",
		"type X Struct {\na Int32 (min=5, default=" + rt.StrN("low", 1, 1, "01234") + ")\n}\n",
		"type X Struct {\na String (maxsize=2, default=\"" + rt.StrN("long", 3, 3, "ab") + "\")\n}\n",
		"type X Struct {\na Str (default=1)\n}\n",
		"type X Struct {\na Array<Int32> (default=[\"" + n + "\"])\n}\n",
		"type X Struct {\na Point (default={})\n}\n",
		"example Str 1\n",
		"example Point {}\n",
		"example Point.x \"a\"\n",
		"example Point.y 1\n",
		"base \"" + rt.StrN("base", 1, 2, "ab") + "\"\n",
		"type X Int32 (minsize=1)\n",
		"type X String (min=1)\n",
		"type X Bool (pattern=\"a\")\n",
		"type X String (minsize=\"1\")\n",
		"type X String (minsize=1\n",
		"type X String (values=\"a\")\n",
		"type X Array<Str,Str>\n",
		"type X Map<Str>\n",
		"type X String<Str>\n",
		"type X Struct {\na Str\n",
		"type 1 Str\n",
		"type X\n",
		"version {\n",
		"http FETCH \"/\" {\n}\n",
		"http GET {\n}\n",
		"operation O {\nfoo {\n}\n}\n",
		n + "\n",
		n + " X String\n",
		"type X String\n" + n,
		"Type X String\n",
		"name a " + n + "\n",
	}
	rejected(defined + texts[rt.Choice("case", len(texts))])
}

// place is where options can be written: around them, and which there can be
type place struct{ before, after, can string } // bare: no annotations

var places = []place{
	{"type X Any", "\n", ""},
	{"type X Bool", "\n", ""},
	{"type X Int8", "\n", "min max"},
	{"type X Int16", "\n", "min max"},
	{"type X Int32", "\n", "min max"},
	{"type X Int64", "\n", "min max"},
	{"type X Float32", "\n", "min max"},
	{"type X Float64", "\n", "min max"},
	{"type X Decimal", "\n", "min max"},
	{"type X Bytes", "\n", "minsize maxsize"},
	{"type X String", "\n", "minsize maxsize pattern values reference"},
	{"type X UUID", "\n", "reference"},
	{"type X Timestamp", "\n", ""},
	{"type X UnitValue<Decimal,String>", "\n", ""},
	{"type X Array<Str>", "\n", "minsize maxsize"},
	{"type X Array", "\n", "minsize maxsize"},
	{"type X Map<String,Str>", "\n", "minsize maxsize"},
	{"type X Struct", " {\na Str\n}\n", ""},
	{"type X Enum", " {\na\n}\n", ""},
	{"type X Enum {\na", "\n}\n", ""},
	{"type X Union<Str,Int32>", "\n", ""},
	{"type X Struct {\na Any", "\n}\n", "required default"},
	{"type X Struct {\na Bool", "\n}\n", "required default"},
	{"type X Struct {\na Int16", "\n}\n", "min max required default"},
	{"type X Struct {\na Int64", "\n}\n", "min max required default"},
	{"type X Struct {\na Float64", "\n}\n", "min max required default"},
	{"type X Struct {\na Decimal", "\n}\n", "min max required default"},
	{"type X Struct {\na Bytes", "\n}\n", "minsize maxsize required default"},
	{"type X Struct {\na String", "\n}\n", "minsize maxsize pattern values reference required default"},
	{"type X Struct {\na UUID", "\n}\n", "reference required default"},
	{"type X Struct {\na Timestamp", "\n}\n", "required default"},
	{"type X Struct {\na Array<Str>", "\n}\n", "minsize maxsize required default"},
	{"type X Struct {\na Map<String,Str>", "\n}\n", "minsize maxsize required default"},
	{"type X Struct {\na Str", "\n}\n", "required default"},
	{"operation O {\ninputs {\na Int32", "\n}\n}\n", "required bare"},
	{"operation O {\noutputs {\na String", "\n}\n}\n", "bare"},
	{"http GET \"/\"", " {\nexpect 200\n}\n", "action operation resource"},
	{"http POST \"/\" (operation=o) {\na String", "\nexpect 200\n}\n", "header required default"},
	{"http GET \"/\" (operation=o) {\nexpect 200 {\na String", "\n}\n}\n", "header required default"},
	{"http GET \"/\" (operation=o) {\nexpect 200", "\n}\n", ""},
	{"http GET \"/\" (operation=o) {\nexpect 200\nexcept 404 Str", "\n}\n", ""},
	{"example Str", " \"a\"\n", "name"},
}

// values are what an option's value can be written as, and what it cannot be
var values = []struct {
	option, right string
	wrong         []string
}{
	{"min", "=1", []string{"", "=", "=\"1\"", "=a", "=[1]", "=true", " 1"}},
	{"max", "=1.5", []string{"", "=", "=\"1\"", "=a", "=[1]", "=true", " 1"}},
	{"minsize", "=1", []string{"", "=", "=\"1\"", "=a", "=1.5", "=[1]", "=99999999999999999999", " 1"}},
	{"maxsize", "=2", []string{"", "=", "=\"1\"", "=a", "=1.5", "=[1]", "=99999999999999999999", " 1"}},
	{"pattern", "=\"a\"", []string{"", "=", "=1", "=a", "=[\"a\"]", " \"a\""}},
	{"values", "=[\"a\"]", []string{"", "=", "=\"a\"", "=[1]", "=[a]", "=[\"a\"", "=a", " [\"a\"]"}},
	{"reference", "=Point", []string{"", "=", "=\"Point\"", "=1", "=[Point]", " Point"}},
	{"required", "", []string{"=true", "=1", "=\"a\""}},
	{"default", "=null", []string{"", "=", "=)"}},
	{"action", "=a", []string{"", "=", "=\"a\"", "=1", " a"}},
	{"operation", "=a", []string{"", "=", "=\"a\"", "=1", " a"}},
	{"resource", "=a", []string{"", "=", "=\"a\"", "=1", " a"}},
	{"header", "=\"A\"", []string{"", "=", "=A", "=1", " \"A\""}},
	{"name", "=a", []string{"", "=", "=\"a\"", "=1", " a"}},
	{"x_note", "=\"a\"", []string{"=", "=1", "=a", "=[\"a\"]"}},
	{"x_mark", "", []string{"=", "=1"}},
}

// V_options: everywhere options can be, one that is not for that place is an error, and so is one without the value it has to have, or with another
func V_options() {
	pl := places[rt.Choice("place", len(places))]
	v := values[rt.Choice("option", len(values))]
	text := v.option
	form := rt.Choice("form", len(v.wrong)+1)
	if form == 0 {
		text += v.right
	} else {
		text += v.wrong[form-1]
	}
	can := strings.HasPrefix(v.option, "x_") && !strings.HasSuffix(pl.can, "bare")
	for _, c := range strings.Split(pl.can, " ") {
		can = can || c == v.option
	}
	if can && form == 0 && v.option == "default" {
		rt.Reach("default") // whether it conforms is another matter
		return
	}
	_, err := parse(defined + pl.before + " (" + text + ")" + pl.after)
	rt.Assert((err == nil) == (can && form == 0), "an option is accepted where it has a meaning, with a value of its kind")
	rt.Reach("options")
}

// V_unknownOption: an option of an unknown name is an error everywhere
func V_unknownOption() {
	pl := places[rt.Choice("place", len(places))]
	n := "q" + rt.StrN("n", 1, 2, "abc")
	text := n + []string{"", "=1", "=\"a\""}[rt.Choice("value", 3)]
	if rt.Choice("before", 2) == 1 {
		text = "x_a," + text
	}
	rejected(defined + pl.before + " (" + text + ")" + pl.after)
}

// V_include: types, actions and operations of included files are part of the model; a circular include is an error
func V_include() {
	dir := rt.TempDir()
	a, b := dir+"/a.sadl", dir+"/b.sadl"
	in := rt.StrN("in", 1, 2, "ab")
	textA := "name inc\ntype A" + in + " String\nexample A" + in + " \"e\"\nhttp GET \"/a\" (operation=geta) {\n}\noperation Op {\n}\n"
	textB := "type B Int32\n"
	refs := []string{"", "include \"" + a + "\"\n", "include \"" + b + "\"\n", "include \"" + dir + "/none\"\n"}
	ra, rb := rt.Choice("a includes", 4), rt.Choice("b includes", 4)
	write(a, refs[ra]+textA)
	write(b, refs[rb]+textB)
	m, err := sadl.ParseSadlString("name top\ninclude \""+a+"\"\ntype Top Bool\n", sadl.NewData())
	ok := ra == 0 || ra == 2 && rb == 0
	rt.Assert((err == nil) == ok, "files that include one another in a circle, or are missing, are an error")
	if !ok {
		rt.Reach("rejected")
		return
	}
	want := []string{"A" + in, "Top"}
	if ra == 2 {
		want = []string{"B", "A" + in, "Top"}
	}
	rt.Assert(m.Name == "top" && len(m.Types) == len(want), "the included types are there")
	for i, td := range m.Types {
		rt.Assert(td.Name == want[i], "in order")
		rt.Assert((td.Annotations["x_include"] != "") == (td.Name != "Top"), "and say where they are from")
	}
	rt.Assert(len(m.Http) == 1 && m.Http[0].Name == "geta" && len(m.Operations) == 1 && m.Operations[0].Name == "Op", "actions and operations too")
	rt.Assert(len(m.Examples) == 1 && m.Examples[0].Target == "A"+in, "and examples")
	rt.Reach("included")
}

// V_file: a model from a file is named after it unless it says otherwise
func V_file() {
	dir := rt.TempDir()
	w := rt.StrN("w", 1, 2, "ab")
	path := dir + "/" + w + ".sadl"
	text, want := defined, w
	conf := sadl.NewData()
	switch rt.Choice("vary", 3) {
	case 1:
		text, want = "name x\n"+defined, "x"
	case 2:
		conf.Put("name", "conf")
		want = "conf"
	}
	write(path, text)
	m, err := sadl.ParseSadlFile(path, conf)
	rt.Assert(err == nil, "the file is accepted")
	rt.Assert(m.Name == want, "its name")
	_, err = sadl.ParseSadlFile(dir+"/none.sadl", conf)
	rt.Assert(err != nil, "a missing file is an error")
}
