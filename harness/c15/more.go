package c15

import (
	"strings"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound sizes and limits of up to 4 digits, zeros in front; enums of 1..5 symbols and unions of 1..3 variants each with every subset of comment and annotations; example targets that are types or fields of types, with names of 1..2 characters; included files with every subset of their parts, and files that define a type twice

func d2s(i int) string { return string([]byte{byte('0' + i)}) }

// V_numbers: numbers are decimal, however many digits they have
func V_numbers() {
	s := rt.StrN("digits", 1, 4, "0128")
	n := int64(0)
	for i := 0; i < len(s); i++ {
		n = n*10 + int64(s[i]-'0')
	}
	td := lib.Type("X", sadl.TypeSpec{Type: "String"})
	text := ""
	switch rt.Choice("option", 4) {
	case 0:
		text, td.MinSize = "String (minsize="+s+")", &n
	case 1:
		text, td.MaxSize = "String (maxsize="+s+")", &n
	case 2:
		td.TypeSpec = sadl.TypeSpec{Type: "Array", Items: "Any", MaxSize: &n}
		text = "Array (maxsize=" + s + ")"
	case 3:
		td.TypeSpec = sadl.TypeSpec{Type: "Int32", Max: lib.Dec(s)}
		text = "Int32 (max=" + s + ")"
	}
	accepted(defined+"type X "+text+"\n", schema(td))
}

// V_bigNumbers: sizes of 64 bits
func V_bigNumbers() {
	s := []string{"4294967296", "2147483648", "9223372036854775807", "65536"}[rt.Choice("size", 4)]
	n := []int64{4294967296, 2147483648, 9223372036854775807, 65536}[rt.Choice("size", 4)]
	if len(s) == 5 && n == 65536 || len(s) == 19 && n > 1<<40 || len(s) == 10 && (s == "4294967296") == (n == 4294967296) && n < 1<<40 && n > 1<<20 {
		td := lib.Type("X", sadl.TypeSpec{Type: "String", MaxSize: &n})
		accepted(defined+"type X String (maxsize="+s+")\n", schema(td))
	}
	if rt.Choice("too much", 2) == 1 {
		rejected(defined + "type X String (maxsize=9223372036854775808)\n")
	}
}

// annotated gives the options and comment of a member, and what is expected of them
func annotated(n string) (opts []string, annos map[string]string, comment string) {
	if rt.Choice(n+" annotated", 2) == 1 {
		v := rt.StrN(n+" value", 0, 1, "aB ")
		opts = append(opts, "x_a=\""+v+"\"")
		annos = map[string]string{"x_a": v}
		if rt.Choice(n+" twice", 2) == 1 {
			opts = append(opts, "x_b")
			annos["x_b"] = ""
		}
	}
	if rt.Choice(n+" commented", 2) == 1 {
		comment = rt.StrN(n+" comment", 1, 1, "cD")
	}
	return
}

func tail(opts []string, comment string) string {
	s := ""
	if len(opts) > 0 {
		s = " (" + strings.Join(opts, ", ") + ")"
	}
	if comment != "" {
		s += " // " + comment
	}
	return s + "\n"
}

// V_elements: every symbol of an enum, with its comment and annotations
func V_elements() {
	td := lib.Type("X", sadl.TypeSpec{Type: "Enum"})
	text := "Enum {\n"
	n := 1 + rt.Choice("symbols", 5)
	one := rt.Choice("which", 5)
	for i := 0; i < n; i++ {
		e := &sadl.EnumElementDef{Symbol: []string{"A", "b_1", "CC", "d", "e_"}[i]}
		var o []string
		if i == one {
			o, e.Annotations, e.Comment = annotated("symbol")
		}
		text += e.Symbol + tail(o, e.Comment)
		td.Elements = append(td.Elements, e)
	}
	text += "}"
	if rt.Choice("annotated", 2) == 1 {
		text += " (x_c)"
		td.Annotations = map[string]string{"x_c": ""}
	}
	accepted(defined+"type X "+text+"\n", schema(td))
}

// V_variants: every variant of a union, with its comment and annotations
func V_variants() {
	td := lib.Type("X", sadl.TypeSpec{Type: "Union"})
	text := "Union {\n"
	n := 1 + rt.Choice("variants", 3)
	one := rt.Choice("which", 3)
	for i := 0; i < n; i++ {
		v := &sadl.UnionVariantDef{Name: []string{"a", "b_1", "Cc"}[i], TypeSpec: sadl.TypeSpec{Type: []string{"Str", "Int32", "Point"}[i]}}
		var o []string
		if i == one {
			o, v.Annotations, v.Comment = annotated("variant")
		}
		text += v.Name + " " + v.Type + tail(o, v.Comment)
		td.Variants = append(td.Variants, v)
	}
	accepted(defined+"type X "+text+"}\n", schema(td))
}

// V_members: every field of a struct, with its comment and annotations
func V_members() {
	td := lib.Type("X", sadl.TypeSpec{Type: "Struct"})
	text := "Struct {\n"
	n := 1 + rt.Choice("fields", 4)
	one := rt.Choice("which", 4)
	for i := 0; i < n; i++ {
		f := lib.Field([]string{"a", "b_1", "Cc", "d_"}[i], false, sadl.TypeSpec{Type: []string{"Str", "Int32", "Point", "X"}[i]})
		var o []string
		if i == one {
			o, f.Annotations, f.Comment = annotated("field")
			if rt.Choice("required", 2) == 1 {
				o, f.Required = append(o, "required"), true
			}
		}
		text += f.Name + " " + f.Type + tail(o, f.Comment)
		td.Fields = append(td.Fields, f)
	}
	accepted(defined+"type X "+text+"}\n", schema(td))
}

// V_targets: an example is for the type, or the field of one, that it names
func V_targets() {
	text := "type X Struct {\nfF_1 Struct {\ni Bool\n}\ng Bool\n}\n"
	td := lib.Type("X", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
		lib.Field("fF_1", false, sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("i", false, sadl.TypeSpec{Type: "Bool"})}}),
		lib.Field("g", false, sadl.TypeSpec{Type: "Bool"}),
	}})
	k := rt.Choice("target", 5)
	target := []string{"X", "X.fF_1", "X.g", "Str", "Point.x"}[k]
	lit := []string{"{}", "{}", "true", "\"s\"", "7"}[k]
	val := []interface{}{map[string]interface{}{}, map[string]interface{}{}, true, "s", lib.Dec("7")}[k]
	s := schema(td)
	s.Examples = []*sadl.ExampleDef{{Target: target, Example: val}}
	if rt.Choice("named", 2) == 1 {
		s.Examples[0].Name = rt.StrN("name", 1, 2, "aB_")
		accepted(defined+text+"example "+target+" (name="+s.Examples[0].Name+") "+lit+"\n", s)
	} else {
		accepted(defined+text+"example "+target+" "+lit+"\n", s)
	}
	rejected(defined + text + "example " + []string{"Zz", "X.f", "X.fF_1.i.z", "Point.y", "Colour.red", "X.zz.fF_1"}[rt.Choice("wrong", 6)] + " {}\n")
}

// V_includeParts: each part of an included file is part of the model, whatever else there is
func V_includeParts() {
	dir := rt.TempDir()
	a := dir + "/aB_1.sadl"
	text := ""
	has := func(part string) bool { return rt.Choice(part, 2) == 1 }
	types, http, ops, examples := has("type"), has("http"), has("operation"), has("example")
	if types {
		text += "type A String\n"
	}
	name := ""
	if http {
		if has("named") {
			name = "readIt"
			text += "http GET \"/a\" (operation=readIt) {\n}\n"
		} else {
			name = "getA"
			text += "http GET \"/a\" {\nexpect 200 {\nbody Point\n}\n}\n"
		}
	}
	if ops {
		text += "operation Op {\n}\n"
	}
	if examples {
		text += "example String \"e\"\n"
	}
	write(a, text)
	m, err := sadl.ParseSadlString("name top\ntype Point Struct {\n}\ninclude \""+a+"\"\ntype Top Bool\nexample Top true\nhttp GET \"/t\" (operation=getT) {\n}\n", sadl.NewData())
	rt.Assert(err == nil, "a file with an include is accepted")
	if err != nil {
		return
	}
	rt.Reach("parts")
	n := 2
	if types {
		n++
		rt.Assert(len(m.Types) > 1 && m.Types[1].Name == "A" && m.Types[1].Type == "String", "an included type is in its place")
	}
	rt.Assert(len(m.Types) == n && m.Types[0].Name == "Point" && m.Types[n-1].Name == "Top", "the types are those of both files, in order")
	if http {
		rt.Assert(len(m.Http) == 2 && m.Http[0].Name == name && m.Http[0].Path == "/a" && m.Http[1].Name == "getT", "an included action is in its place")
	} else {
		rt.Assert(len(m.Http) == 1 && m.Http[0].Name == "getT", "there is no other action")
	}
	rt.Assert((len(m.Operations) == 1) == ops && (!ops || m.Operations[0].Name == "Op"), "an included operation is there")
	if examples {
		rt.Assert(len(m.Examples) == 2 && m.Examples[0].Target == "String" && m.Examples[1].Target == "Top", "an included example is in its place")
	} else {
		rt.Assert(len(m.Examples) == 1 && m.Examples[0].Target == "Top", "there is no other example")
	}
}

// V_twice: no type is defined twice, here or in another file
func V_twice() {
	dir := rt.TempDir()
	a := dir + "/a.sadl"
	defs := []string{"Bool", "String", "Struct {\nx Bool\n}", "Enum {\np\n}"}
	d1, d2 := defs[rt.Choice("first", 4)], defs[rt.Choice("second", 4)]
	n1, n2 := "T"+rt.StrN("n1", 0, 1, "tT"), "T"+rt.StrN("n2", 0, 1, "tT")
	first, second := "type "+n1+" "+d1+"\n", "type "+n2+" "+d2+"\n"
	text := ""
	switch rt.Choice("where", 3) {
	case 0:
		text = first + second
	case 1:
		write(a, first)
		text = "include \"" + a + "\"\n" + second
	case 2:
		write(a, second)
		text = first + "include \"" + a + "\"\n"
	}
	_, err := sadl.ParseSadlString(text, sadl.NewData())
	rt.Reach("twice")
	rt.Assert((err != nil) == (n1 == n2), "a type that is defined twice is an error, and nothing else is")
}
