package c24

import (
	"os"
	"path/filepath"

	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/java"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
)

//verif:bound models of one type of every kind; structs with 0..2 fields, required or not, of every base type, alias, struct, enum, union, inline struct and inline array or map of these; enums of 1..3 symbols with and without values of their own of 1..2 symbolic characters; unions of 1..3 variants; unit values of every number and unit type
//verif:bound comments of types, fields, symbols and variants with 1..2 (3 thorough) symbolic characters, among them backslashes, quotes, carriage returns, line ends and what ends a block comment
//verif:bound String fields with and without pattern (symbolic) and sizes, numbers with and without limits, inline and through an alias; type, field, symbol, variant and action names of 1..2 symbolic letters in either case; immutable or not, instants or not, with and without pretty printing, with and without Lombok
//verif:assume names are Java identifiers that differ from each other and from the names the generator makes up, and are no keywords

const letters = "abAB"

type conf struct {
	data                      *sadl.Data
	immutable, instants, json bool
}

func config() *conf {
	c := &conf{data: sadl.NewData(), immutable: true, instants: true}
	c.data.Put("package", "p")
	switch rt.Choice("options", 4) {
	case 1:
		c.data.Put("immutable", false)
		c.immutable = false
	case 2:
		c.data.Put("instants", false)
		c.instants = false
	case 3:
		c.data.Put("json", true)
		c.json = true
	}
	return c
}

// jtype is a SADL type as Java has it: when required, when not, and the annotations that say more
type jtype struct {
	req, opt string
	annos    string
}

func (c *conf) base(b string) jtype {
	switch b {
	case "Bool":
		return jtype{"boolean", "Boolean", ""}
	case "Int8":
		return jtype{"byte", "Byte", ""}
	case "Int16":
		return jtype{"short", "Short", ""}
	case "Int32":
		return jtype{"int", "Integer", ""}
	case "Int64":
		return jtype{"long", "Long", ""}
	case "Float32":
		return jtype{"float", "Float", ""}
	case "Float64":
		return jtype{"double", "Double", ""}
	case "Decimal":
		return jtype{"BigDecimal", "BigDecimal", ""}
	case "Bytes":
		return jtype{"byte[]", "byte[]", ""}
	case "Any":
		return jtype{"Object", "Object", ""}
	case "Timestamp":
		if c.instants {
			return jtype{"Instant", "Instant", "@JsonDeserialize(using = Util.InstantDeserializer.class) @JsonSerialize(using = Util.InstantSerializer.class)"}
		}
	}
	return jtype{b, b, ""} // String, UUID, Timestamp
}

var bases = []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "UUID", "Timestamp", "Bytes", "Any"}

type world struct {
	*conf
	types  []*sadl.TypeDef
	nested []string
}

func (w *world) add(name string, ts sadl.TypeSpec) {
	for _, t := range w.types {
		if t.Name == name {
			return
		}
	}
	w.types = append(w.types, lib.Type(name, ts))
}

func (w *world) named(n string) (string, jtype) {
	switch rt.Choice(n, 7) {
	case 0:
		b := bases[rt.Choice(n+" base", len(bases))]
		return b, w.base(b)
	case 1:
		b := bases[rt.Choice(n+" alias of", len(bases))]
		w.add("My"+b, sadl.TypeSpec{Type: b})
		return "My" + b, w.base(b)
	case 2:
		w.add("Color", sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("RED", "BLUE")})
		return "Color", jtype{"Color", "Color", ""}
	case 3:
		w.add("Thing", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("x", false, sadl.TypeSpec{Type: "Int32"})}})
		return "Thing", jtype{"Thing", "Thing", ""}
	case 4:
		w.add("Either", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "b", TypeSpec: sadl.TypeSpec{Type: "Bool"}}}})
		return "Either", jtype{"Either", "Either", ""}
	case 5:
		w.add("Texts", sadl.TypeSpec{Type: "Array", Items: "String"})
		return "Texts", jtype{"List<String>", "List<String>", ""}
	}
	w.add("Table", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "Int64"})
	return "Table", jtype{"Map<String,Long>", "Map<String,Long>", ""}
}

func (w *world) spec(n string) (sadl.TypeSpec, jtype) {
	switch rt.Choice(n+" form", 3) {
	case 0:
		name, g := w.named(n)
		return sadl.TypeSpec{Type: name}, g
	case 1:
		items, g := w.named(n + " items")
		l := "List<" + g.opt + ">"
		return sadl.TypeSpec{Type: "Array", Items: items}, jtype{l, l, ""}
	}
	items, g := w.named(n + " items")
	key := "String"
	if rt.Choice(n+" named key", 2) == 1 {
		key = "Key"
		w.add("Key", sadl.TypeSpec{Type: "String"})
	}
	l := "Map<String," + g.opt + ">"
	return sadl.TypeSpec{Type: "Map", Keys: key, Items: items}, jtype{l, l, ""}
}

type field struct {
	name, typ, annos string
}

func primitive(t string) bool {
	switch t {
	case "boolean", "byte", "short", "int", "long", "float", "double":
		return true
	}
	return false
}

// field is what a field of a struct is in Java
func (w *world) field(name string, required bool, t jtype) field {
	if required {
		if primitive(t.req) {
			return field{name, t.req, ""}
		}
		return field{name, t.req, "@NotNull " + t.annos}
	}
	return field{name, t.opt, "@JsonInclude(JsonInclude.Include.NON_EMPTY) " + t.annos}
}

func upper(s string) string {
	b := []byte(s)
	if rt.Fork(b[0] >= 'a') {
		b[0] -= 32
	}
	return string(b)
}

// structIs is what the members of a struct's class are
func (c *conf) structIs(name string, fs []field, more ...string) []string {
	var r []string
	ctor, assigns, pass, copies, setters, members := "", "", "", "", "", ""
	for i, f := range fs {
		if c.immutable {
			r = append(r, f.annos+" private final "+f.typ+" "+f.name+";", "@JsonProperty(\""+f.name+"\") public "+f.typ+" get"+upper(f.name)+"() { return "+f.name+"; }")
		} else {
			r = append(r, f.annos+" public "+f.typ+" "+f.name+";", "public "+name+" "+f.name+"("+f.typ+" val) { this."+f.name+" = val; return this; }")
		}
		if i > 0 {
			ctor += ", "
			pass += ", "
		}
		ctor += f.typ + " " + f.name
		pass += f.name
		assigns += "this." + f.name + " = " + f.name + ";"
		copies += "this." + f.name + " = copy.get" + upper(f.name) + "();"
		members += "private " + f.typ + " " + f.name + ";"
		if f.typ == "Instant" {
			setters += "@JsonDeserialize(using = Util.InstantDeserializer.class) "
		}
		setters += "@JsonProperty(\"" + f.name + "\") public " + name + "Builder " + f.name + "(" + f.typ + " " + f.name + ") { this." + f.name + " = " + f.name + "; return this; }"
	}
	if c.immutable {
		b := name + "Builder"
		r = append(r, "public "+name+"("+ctor+") {"+assigns+"}",
			"public "+b+" toBuilder() { return new "+b+"(this); }",
			"public static "+b+" builder() { return new "+b+"(); }",
			"@JsonPOJOBuilder(withPrefix=\"\") public static class "+b+" {"+members+"public "+b+"() {} public "+b+"("+name+" copy) {"+copies+"} "+setters+" public "+name+" build() { return new "+name+"("+pass+"); } }")
	}
	if c.json {
		r = append(r, "@Override public String toString() { return Util.pretty(this); }")
	}
	return append(r, more...)
}

func (c *conf) head(name, extends string) string {
	h := ""
	if c.immutable {
		h = "@JsonDeserialize(builder = " + name + "." + name + "Builder.class) "
	}
	return h + extends
}

func read(dir, file string) *lib.JavaFile {
	b, e := os.ReadFile(filepath.Join(dir, file))
	rt.Assert(e == nil, "each class has its file, in the directory of its package")
	if e != nil {
		return nil
	}
	f := lib.JavaParse(string(b))
	rt.Assert(f != nil, "a file is a package, imports and one type, with balanced brackets")
	return f
}

func export(sc *sadl.Schema, c *sadl.Data) (string, bool) {
	m, err := sadl.NewModel(sc)
	rt.Assert(err == nil, "the model is accepted")
	if err != nil {
		return "", false
	}
	dir := rt.TempDir()
	rt.Assert(!rt.Panics(func() { err = java.Export(m, dir, c) }), "the export never crashes")
	rt.Assert(err == nil, "the model is exported")
	return dir, err == nil
}

// exported exports a model and reads the class of one of its types
func exported(types []*sadl.TypeDef, c *conf, class string) *lib.JavaFile {
	dir, ok := export(&sadl.Schema{Name: "test", Types: types}, c.data)
	if !ok {
		return nil
	}
	f := read(dir, "src/main/java/p/model/"+class+".java")
	if f != nil {
		rt.Assert(f.Package == "p.model", "a class is in the package of the model")
		rt.Reach("exported")
	}
	return f
}

// V_Types: every type of field
func V_Types() {
	w := &world{conf: config()}
	ts, jt := w.spec("type")
	required := rt.Choice("required", 2) == 1
	w.add("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", required, ts)}})
	f := exported(w.types, w.conf, "S")
	if f == nil {
		return
	}
	rt.Assert(lib.JavaIs(f.Type.Head, w.head("S", "public class S")), "a struct is a class")
	rt.Assert(lib.JavaMembers(f.Type, w.structIs("S", []field{w.field("f", required, jt)})...), "a struct has each field with its type, and what sets and gets it")
	rt.Assert(lib.JavaImported(f), "what a class uses is imported")
}

// V_Names: several fields, with any names
func V_Names() {
	w := &world{conf: config()}
	var fds []*sadl.StructFieldDef
	var fs []field
	for i := rt.Choice("fields", 3); i > 0; i-- {
		name := "x" + rt.StrN("name", 0, 1, letters)
		if len(fs) == 0 {
			name = rt.StrN("name", 1, 2, letters)
		}
		for _, f := range fs {
			rt.Assume(rt.Not(upper(f.name) == upper(name)))
		}
		b := []string{"Int32", "Timestamp", "String"}[rt.Choice("type", 2)]
		required := b == "Int32"
		fds = append(fds, lib.Field(name, required, sadl.TypeSpec{Type: b}))
		fs = append(fs, w.field(name, required, w.base(b)))
	}
	name := "S"
	if len(fs) < 2 {
		name = rt.StrN("class", 1, 2, letters)
	}
	w.add(name, sadl.TypeSpec{Type: "Struct", Fields: fds})
	c := upper(name)
	f := exported(w.types, w.conf, c)
	if f == nil {
		return
	}
	rt.Assert(lib.JavaIs(f.Type.Head, w.head(c, "public class "+c)), "a struct is a class")
	rt.Assert(lib.JavaMembers(f.Type, w.structIs(c, fs)...), "a struct has each field with its type, and what sets and gets it")
}

// V_Inline: fields with inline struct types
func V_Inline() {
	w := &world{conf: config()}
	var fds []*sadl.StructFieldDef
	var fs []field
	var nested []string
	for i := rt.Choice("fields", 2) + 1; i > 0; i-- {
		name := rt.StrN("name", 1, 1, "abc")
		for _, f := range fs {
			rt.Assume(rt.Not(f.name == name))
		}
		required := rt.Choice("required", 2) == 1
		in := []string{"Int32", "String"}[rt.Choice("inner", 2)]
		fds = append(fds, lib.Field(name, required, sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("x"+name, false, sadl.TypeSpec{Type: in})}}))
		c := upper(name)
		fs = append(fs, w.field(name, required, jtype{c, c, ""}))
		n := w.head(c, "public static class "+c) + " {"
		for _, m := range w.structIs(c, []field{w.field("x"+name, false, w.base(in))}) {
			n += m
		}
		nested = append(nested, n+"}")
	}
	w.add("S", sadl.TypeSpec{Type: "Struct", Fields: fds})
	f := exported(w.types, w.conf, "S")
	if f == nil {
		return
	}
	want := w.structIs("S", fs)
	rt.Assert(len(f.Type.Members) == len(want)+len(nested), "an inline struct is a nested class, named after its field")
	if len(f.Type.Members) != len(want)+len(nested) {
		return
	}
	k := len(want)
	for i := range nested {
		t := lib.JavaBody(f.Type.Members[k+i])
		rt.Assert(t != nil, "an inline struct is a nested class, named after its field")
		if t != nil {
			x := fds[i].Fields[0]
			c := upper(fds[i].Name)
			rt.Assert(rt.And(lib.JavaIs(t.Head, w.head(c, "public static class "+c)), lib.JavaMembers(t, w.structIs(c, []field{w.field(x.Name, false, w.base(x.Type))})...)), "an inline struct is a nested class, named after its field")
		}
	}
	f.Type.Members = f.Type.Members[:k]
	rt.Assert(lib.JavaMembers(f.Type, want...), "a struct has each field with its type, and what sets and gets it")
}

// quoted is a Java string literal
func quoted(s string) string {
	r := []byte{'"'}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if rt.Fork(rt.Or(c == '"', c == '\\')) {
			r = append(r, '\\')
		} else if rt.Fork(rt.Or(c < ' ', c == 0x7f)) {
			r = append(r, '\\', 'u', '0', '0', "0123456789abcdef"[c/16], "0123456789abcdef"[c%16])
			continue
		}
		r = append(r, c)
	}
	return string(append(r, '"'))
}

// V_Limits: what a type says about its values
func V_Limits() {
	w := &world{conf: config()}
	named := rt.Choice("named", 2) == 1
	required := rt.Choice("required", 2) == 1
	var ts sadl.TypeSpec
	var jt jtype
	if rt.Choice("number", 2) == 0 {
		ts.Type = "String"
		jt = w.base("String")
		if rt.Choice("pattern", 2) == 1 {
			ts.Pattern = rt.StrN("pattern", 1, 2, "au\"\\[\x01\x7f")
			jt.annos += " @Pattern(regexp=" + quoted(ts.Pattern) + ")"
		}
		min := []int64{-1, 0, 7}[rt.Choice("min", 3)]
		max := []int64{-1, 0, 12}[rt.Choice("max", 3)]
		size := ""
		if min >= 0 {
			ts.MinSize = &min
			size = "min=0"
			if min == 7 {
				size = "min=7"
			}
		}
		if max >= 0 {
			ts.MaxSize = &max
			if size != "" {
				size += ", "
			}
			if max == 0 {
				size += "max=0"
			} else {
				size += "max=12"
			}
		}
		if size != "" {
			jt.annos += " @Size(" + size + ")"
		}
	} else {
		b := []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"}[rt.Choice("type", 7)]
		ts.Type = b
		jt = w.base(b)
		lim := []string{"", "3", "-2", "1.5"}
		if min := lim[rt.Choice("min", 4)]; min != "" {
			ts.Min, _ = sadl.ParseDecimal(min)
			jt.annos += " @DecimalMin(\"" + min + "\")"
		}
		if max := lim[rt.Choice("max", 4)]; max != "" {
			ts.Max, _ = sadl.ParseDecimal(max)
			jt.annos += " @DecimalMax(\"" + max + "\")"
		}
		if required && b != "Decimal" {
			jt.annos = ""
		}
	}
	if named {
		w.add("N", ts)
		ts = sadl.TypeSpec{Type: "N"}
	}
	w.add("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", required, ts)}})
	f := exported(w.types, w.conf, "S")
	if f == nil {
		return
	}
	rt.Assert(lib.JavaMembers(f.Type, w.structIs("S", []field{w.field("f", required, jt)})...), "a field says what its values are limited to")
	rt.Assert(lib.JavaImported(f), "what a class uses is imported")
}

func V_Enum() {
	c := config()
	var els []*sadl.EnumElementDef
	text := ""
	for i := rt.Choice("symbols", 3) + 1; i > 0; i-- {
		sym := rt.StrN("symbol", 1, 1, letters)
		if len(els) == 0 {
			sym = rt.StrN("symbol", 1, 2, letters)
		}
		for _, e := range els {
			rt.Assume(rt.Not(e.Symbol == sym))
		}
		el := &sadl.EnumElementDef{Symbol: sym}
		val := sym
		if rt.Choice("value", 2) == 1 {
			val = "v\" w"
			if len(els) == 0 {
				val = rt.StrN("value", 1, 2, "u\"\\ \x01")
			}
			el.Annotations = map[string]string{"x_enumValue": val}
		}
		if rt.Choice("comment", 2) == 1 {
			el.Comment = "one two"
		}
		if len(els) > 0 {
			text += ", "
		}
		text += sym + "(" + quoted(val) + ")"
		els = append(els, el)
	}
	f := exported([]*sadl.TypeDef{lib.Type("E", sadl.TypeSpec{Type: "Enum", Elements: els})}, c, "E")
	if f == nil {
		return
	}
	rt.Assert(lib.JavaIs(f.Type.Head, "public enum E"), "an enum is an enum")
	rt.Assert(lib.JavaMembers(f.Type, text+";", "private String repr;", "private E(String repr) { this.repr = repr; }",
		"@JsonValue @Override public String toString() { return repr; }",
		"@JsonCreator public static E fromString(String repr) { for (E e : values()) { if (e.repr.equals(repr)) { return e; } } throw new IllegalArgumentException(\"Invalid string representation for E: \" + repr); }"),
		"an enum has each symbol, in order, with its value, and reads and writes the values")
	rt.Assert(lib.JavaImported(f), "what a class uses is imported")
}

func V_Union() {
	w := &world{conf: config()}
	var vs []*sadl.UnionVariantDef
	var names []string
	var types []string
	for i := rt.Choice("variants", 3) + 1; i > 0; i-- {
		name := rt.StrN("variant", 1, 1, letters)
		for _, n := range names {
			rt.Assume(rt.Not(upper(n) == upper(name)))
		}
		ts := sadl.TypeSpec{Type: "Int32"}
		jt := w.base("Int32")
		if i == 1 && len(names) == 0 {
			ts, jt = w.spec("type")
		} else if rt.Choice("text", 2) == 1 {
			ts.Type, jt = "String", w.base("String")
		}
		rt.Assume(jt.annos == "")
		vs = append(vs, &sadl.UnionVariantDef{Name: name, TypeSpec: ts})
		names = append(names, name)
		types = append(types, jt.opt)
	}
	w.add("U", sadl.TypeSpec{Type: "Union", Variants: vs})
	f := exported(w.types, w.conf, "U")
	if f == nil {
		return
	}
	enum, ctor, body := "", "", ""
	var want []string
	for i, n := range names {
		if i > 0 {
			enum += ", "
			ctor += ", "
		}
		enum += n
		ctor += "@JsonProperty(\"" + n + "\") " + types[i] + " " + n
		body += "this." + n + " = " + n + "; if (" + n + " != null) { this.variant = Variant." + n + "; }"
		want = append(want, "@JsonInclude(JsonInclude.Include.NON_EMPTY) public final "+types[i]+" "+n+";")
		args := ""
		for j := range names {
			if j > 0 {
				args += ", "
			}
			if i == j {
				args += "v"
			} else {
				args += "null"
			}
		}
		want = append(want, "public static U of"+upper(n)+"("+types[i]+" v) { return new U("+args+"); }")
	}
	want = append(want, "public enum Variant {"+enum+"}", "@JsonIgnore public Variant variant;", "@JsonCreator private U("+ctor+") {"+body+"}")
	if w.json {
		want = append(want, "@Override public String toString() { return Util.pretty(this); }")
	}
	rt.Assert(lib.JavaIs(f.Type.Head, "public class U"), "a union is a class")
	rt.Assert(lib.JavaMembers(f.Type, want...), "a union has each variant with its type, of which one is given")
	rt.Assert(lib.JavaImported(f), "what a class uses is imported")
}

func V_UnitValue() {
	w := &world{conf: config()}
	b := []string{"Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal"}[rt.Choice("value", 7)]
	jt := w.base(b)
	parse := map[string]string{"Int8": "Byte.parseByte", "Int16": "Short.parseShort", "Int32": "Integer.parseInt", "Int64": "Long.parseLong", "Float32": "Float.parseFloat", "Float64": "Double.parseDouble", "Decimal": "new BigDecimal"}[b]
	v := b
	if rt.Choice("named", 2) == 1 {
		v = "V"
		w.add(v, sadl.TypeSpec{Type: b})
	}
	u, ut, up := "String", "String", "tmp[1]"
	switch rt.Choice("unit", 3) {
	case 1:
		u = "T"
		w.add(u, sadl.TypeSpec{Type: "String"})
	case 2:
		u, ut, up = "E", "E", "E.fromString(tmp[1])"
		w.add(u, sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("M", "KM")})
	}
	w.add("Q", sadl.TypeSpec{Type: "UnitValue", Value: v, Unit: u})
	f := exported(w.types, w.conf, "Q")
	if f == nil {
		return
	}
	rt.Assert(lib.JavaIs(f.Type.Head, "public class Q"), "a unit value is a class")
	rt.Assert(lib.JavaMembers(f.Type, "public final "+jt.req+" value;", "public final "+ut+" unit;",
		"public Q("+jt.req+" value, @NotNull "+ut+" unit) { this.value = value; this.unit = unit; }",
		"@JsonCreator public Q(@NotNull String repr) { String[] tmp = repr.split(\" \"); this.value = "+parse+"(tmp[0]); this.unit = "+up+"; }",
		"@JsonValue @Override public String toString() { return value + \" \" + unit; }"), "a unit value has its value and its unit, and reads and writes them as text")
	rt.Assert(lib.JavaImported(f), "what a class uses is imported")
}

func exists(dir, file string) bool {
	_, err := os.ReadFile(filepath.Join(dir, file))
	return err == nil
}

// V_Files: which files there are, and where
func V_Files() {
	c := sadl.NewData()
	sc := &sadl.Schema{Name: "test"}
	pkg := "example"
	switch rt.Choice("package", 5) {
	case 0:
		pkg = rt.StrN("package", 1, 2, "abA") + []string{"", ".x", ".y.z"}[rt.Choice("dots", 3)]
		c.Put("package", pkg)
		if rt.Choice("namespace", 2) == 1 {
			sc.Namespace = "zz"
		}
	case 1:
		sc.Namespace = "com.a" + rt.StrN("namespace", 1, 1, "abA")
		pkg = sc.Namespace
	case 2:
		d := rt.StrN("domain", 1, 1, "abA")
		c.Put("domain", d+".example.com")
		pkg = "com.example." + d
		if rt.Choice("namespace", 2) == 1 {
			sc.Namespace = "zz"
		}
	case 3:
		c.Put("package", "q")
		c.Put("domain", "example.com")
		pkg = "q"
	case 4:
		c.Put("package", "")
		c.Put("domain", "foo.org")
		pkg = "org.foo"
	}
	opt := rt.Choice("option", 4)
	src := "src/main/java"
	if opt == 1 {
		src = "gen"
		c.Put("source", src)
	}
	mp := pkg + ".model"
	if opt == 2 {
		mp = "m.n"
		c.Put("model-package", mp)
	}
	header := "//\n// Generated by sadl\n//\n"
	if opt == 3 {
		header = "// mine\n"
		c.Put("header", header)
	}
	kinds := []sadl.TypeSpec{{Type: "Struct"}, {Type: "Enum", Elements: lib.Elements("A")}, {Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "b", TypeSpec: sadl.TypeSpec{Type: "Bool"}}}}, {Type: "UnitValue", Value: "Decimal", Unit: "String"}, {Type: "String"}, {Type: "Array", Items: "String"}, {Type: "Timestamp"}}
	k := rt.Choice("kind", len(kinds))
	sc.Types = append(sc.Types, lib.Type("T", kinds[k]))
	dir, ok := export(sc, c)
	if !ok {
		return
	}
	b := []byte(mp)
	for i := range b {
		if rt.Fork(b[i] == '.') {
			b[i] = '/'
		}
	}
	d := src + "/" + string(b) + "/"
	rt.Assert(exists(dir, d+"T.java") == (k < 4), "struct, enum, union and unit value types have a class, and others have none")
	if f := read(dir, d+"Test.java"); f != nil {
		rt.Assert(f.Package == mp, "a class is in the package of the model")
		rt.Assert(lib.JavaIs(f.Type.Head, "public interface Test"), "the service is an interface")
		t, _ := os.ReadFile(filepath.Join(dir, d+"Test.java"))
		rt.Assert(len(t) > len(header) && string(t[:len(header)]) == header, "a file starts with the header")
	}
	rt.Assert(!exists(dir, "pom.xml"), "there is a pom.xml when asked for")
}

// V_Actions: the service interface and the classes of its requests and responses
func V_Actions() {
	w := &world{conf: config()}
	sc := &sadl.Schema{Name: "test", Types: []*sadl.TypeDef{
		lib.Type("Item", sadl.TypeSpec{Type: "Struct"}),
		lib.Type("Err", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("message", false, sadl.TypeSpec{Type: "String"}), lib.Field("code", true, sadl.TypeSpec{Type: "Int32"})}}),
	}}
	// what varies: the names, the parameters or the exceptions
	vary := rt.Choice("vary", 3)
	choice := func(v int, n string, k int) int {
		if vary == v || rt.Thorough() {
			return rt.Choice(n, k)
		}
		return k - 1
	}
	name := "test"
	h := &sadl.HttpDef{Method: "POST", Path: "/x", Name: "doIt", Expected: &sadl.HttpExpectedSpec{Status: 200}}
	if vary == 0 {
		h.Name = rt.StrN("action", 1, 2, letters)
	}
	if choice(0, "named", 2) == 1 {
		name = "other"
		if vary == 0 {
			name = rt.StrN("service", 1, 1, letters)
		}
		w.data.Put("name", name)
	}
	se := choice(2, "service exception", 2) == 1
	if se {
		w.data.Put("service-exception", true)
	}
	var in, out []field
	param := func(l []field, n string, t string, where int) (*sadl.HttpParamSpec, field) {
		p := &sadl.HttpParamSpec{StructFieldDef: *lib.Field(n, choice(1, "required", 2) == 1, sadl.TypeSpec{Type: t})}
		switch where {
		case 1:
			p.Header = "X-H"
		case 2:
			p.Query = "qq"
		}
		jt := w.base(t)
		return p, w.field(n, p.Required, jt)
	}
	for i := choice(1, "inputs", 3); i > 0; i-- {
		p, f := param(in, []string{"", "a", "bB"}[i], []string{"", "Item", "Int32"}[i], i-1)
		h.Inputs = append(h.Inputs, p)
		in = append(in, f)
	}
	for i := choice(1, "outputs", 3); i > 0; i-- {
		p, f := param(out, []string{"", "c", "d"}[i], []string{"", "Item", "String"}[i], i-1)
		h.Expected.Outputs = append(h.Expected.Outputs, p)
		out = append(out, f)
	}
	exc := choice(2, "exception", 2) == 1
	if exc {
		h.Exceptions = append(h.Exceptions, &sadl.HttpExceptionSpec{Type: "Err", Status: 404})
	}
	sc.Http = append(sc.Http, h)
	if choice(2, "more", 2) == 1 {
		sc.Http = append(sc.Http, &sadl.HttpDef{Method: "GET", Path: "/y", Name: "other", Expected: &sadl.HttpExpectedSpec{Status: 204}})
	}
	dir, ok := export(sc, w.data)
	if !ok {
		return
	}
	d := "src/main/java/p/model/"
	lower := []byte(h.Name)
	if rt.Fork(lower[0] < 'a') {
		lower[0] += 32
	}
	up := upper(h.Name)
	if f := read(dir, d+upper(name)+".java"); f != nil {
		want := []string{"public " + up + "Response " + string(lower) + "(" + up + "Request req);"}
		if len(sc.Http) > 1 {
			want = append(want, "public OtherResponse other(OtherRequest req);")
		}
		rt.Assert(rt.And(lib.JavaIs(f.Type.Head, "public interface "+upper(name)), lib.JavaMembers(f.Type, want...)), "the service is an interface with a method for each action")
	}
	for i, fs := range [][]field{in, out} {
		c := up + []string{"Request", "Response"}[i]
		if f := read(dir, d+c+".java"); f != nil {
			rt.Assert(rt.And(lib.JavaIs(f.Type.Head, w.head(c, "public class "+c)), lib.JavaMembers(f.Type, w.structIs(c, fs)...)), "a request has the inputs of its action, and a response the outputs")
		}
	}
	if f := read(dir, d+"Err.java"); f != nil {
		head := w.head("Err", "public class Err")
		if exc && !se {
			head = w.head("Err", "@JsonIgnoreProperties({\"stackTrace\", \"cause\", \"localizedMessage\", \"suppressed\"}) public class Err extends RuntimeException")
		}
		rt.Assert(lib.JavaIs(f.Type.Head, head), "a type that an action throws is an exception, with its own fields in JSON, unless there is a ServiceException")
		rt.Assert(lib.JavaMembers(f.Type, w.structIs("Err", []field{w.field("message", false, w.base("String")), w.field("code", true, w.base("Int32"))})...), "a struct has each field with its type, and what sets and gets it")
	}
	rt.Assert(exists(dir, d+"ServiceException.java") == se, "there is a ServiceException when asked for")
	rt.Reach("exported")
}

func contains(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if rt.Fork(s[i:i+len(t)] == t) {
			return true
		}
	}
	return false
}

// V_Pom: the project file
func V_Pom() {
	c := sadl.NewData()
	c.Put("package", "p")
	c.Put("maven", true)
	d := rt.StrN("domain", 1, 1, letters) + ".org"
	sc := &sadl.Schema{Name: "x" + rt.StrN("name", 0, 1, letters)}
	if rt.Choice("namespace", 2) == 1 {
		sc.Namespace = "org." + d[:1]
	} else {
		c.Put("domain", d)
	}
	m, err := sadl.NewModel(sc)
	rt.Assert(err == nil, "the model is accepted")
	if err != nil {
		return
	}
	dir := rt.TempDir()
	lombok := rt.Choice("lombok", 2) == 1
	if lombok {
		c.Put("lombok", true)
	}
	old := rt.Choice("old", 2) == 1
	force := rt.Choice("force", 2) == 1
	if old {
		os.WriteFile(filepath.Join(dir, "pom.xml"), []byte("old"), 0644)
	}
	if force {
		c.Put("force-overwrite", true)
	}
	rt.Output(func() {
		rt.Assert(!rt.Panics(func() { err = java.Export(m, dir, c) }), "the export never crashes")
	})
	rt.Assert(err == nil, "the model is exported")
	b, _ := os.ReadFile(filepath.Join(dir, "pom.xml"))
	s := string(b)
	if old && !force {
		rt.Assert(s == "old", "a pom.xml is not overwritten unless that is asked for")
		return
	}
	rt.Assert(len(s) > 1000, "there is a pom.xml when asked for")
	if len(s) > 1000 {
		rt.Assert(contains(s[600:], "<artifactId>lombok</artifactId>") == lombok, "a pom.xml has Lombok when that is used")
		rt.Assert(contains(s[600:], "<artifactId>jersey-media-json-jackson</artifactId>"), "a pom.xml has what the server and the model use")
		rt.Assert(contains(s[:600], "<groupId>"+d+"</groupId>"), "a pom.xml has the domain")
		rt.Assert(contains(s[:600], "<artifactId>"+upper(sc.Name)+"</artifactId>"), "a pom.xml has the name of the service")
	}
}

func textLen() int {
	if rt.Thorough() {
		return 3
	}
	return 2
}

// V_Comments: whatever a comment says, it is a comment
func V_Comments() {
	w := &world{conf: config()}
	text := "see C:" + rt.StrN("text", 1, textLen(), "\\u\r\n*/ \"") + "0041; int x = 1;"
	if rt.Choice("long", 2) == 1 {
		text += " and many words more, so many that the comment has to be wrapped, after one hundred characters or thereabouts"
	}
	at := rt.Choice("at", 4)
	at0 := func(k int) string {
		if at == k {
			return text
		}
		return ""
	}
	switch rt.Choice("kind", 3) {
	case 0:
		w.add("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", true, sadl.TypeSpec{Type: "Int32"})}})
		w.types[0].Comment, w.types[0].Fields[0].Comment = at0(0), at0(1)
		f := exported(w.types, w.conf, "S")
		if f != nil {
			rt.Assert(lib.JavaMembers(f.Type, w.structIs("S", []field{w.field("f", true, w.base("Int32"))})...), "a struct has each field, whatever its comments say")
		}
	case 1:
		els := lib.Elements("A", "B")
		els[0].Comment, els[1].Comment = at0(0), at0(1)
		w.add("E", sadl.TypeSpec{Type: "Enum", Elements: els})
		w.types[0].Comment = at0(2)
		f := exported(w.types, w.conf, "E")
		if f != nil {
			rt.Assert(len(f.Type.Members) > 0 && lib.JavaIs(f.Type.Members[0], "A(\"A\"), B(\"B\");"), "an enum has each symbol, whatever its comments say")
		}
	case 2:
		w.add("U", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "a", Comment: at0(0), TypeSpec: sadl.TypeSpec{Type: "String"}}, {Name: "b", Comment: at0(1), TypeSpec: sadl.TypeSpec{Type: "Int32"}}}})
		w.types[0].Comment = at0(2)
		g := &world{conf: w.conf}
		g.add("U", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "a", TypeSpec: sadl.TypeSpec{Type: "String"}}, {Name: "b", TypeSpec: sadl.TypeSpec{Type: "Int32"}}}})
		f, p := exported(w.types, w.conf, "U"), exported(g.types, g.conf, "U")
		if f != nil && p != nil {
			same := len(f.Toks) == len(p.Toks)
			if same {
				for i := range f.Toks {
					same = rt.And(same, f.Toks[i] == p.Toks[i])
				}
			}
			rt.Assert(same, "a union has each variant, whatever its comments say")
		}
	}
}

// V_Shape: any few fields, required or not, with comments
func V_Shape() {
	w := &world{conf: config()}
	var fds []*sadl.StructFieldDef
	var fs []field
	for i := rt.Choice("fields", 4); i > 0; i-- {
		name := []string{"", "c", "b", "aA"}[i]
		b := []string{"Int32", "String", "Bool"}[rt.Choice("type", 3)]
		required := rt.Choice("required", 2) == 1
		fd := lib.Field(name, required, sadl.TypeSpec{Type: b})
		if i == 2 {
			fd.Comment = "what b is; } // and */ more"
		}
		if b == "String" {
			fd.Default = "x"
		}
		fds = append(fds, fd)
		fs = append(fs, w.field(name, required, w.base(b)))
	}
	w.add("S", sadl.TypeSpec{Type: "Struct", Fields: fds})
	w.types[0].Comment = "some\ntext {"
	f := exported(w.types, w.conf, "S")
	if f == nil {
		return
	}
	rt.Assert(lib.JavaIs(f.Type.Head, w.head("S", "public class S")), "a struct is a class")
	rt.Assert(lib.JavaMembers(f.Type, w.structIs("S", fs)...), "a struct has each field with its type, and what sets and gets it")
	rt.Assert(lib.JavaImported(f), "what a class uses is imported")
	if w.immutable && len(f.Type.Members) > len(fs) {
		k := 0
		for _, m := range f.Type.Members {
			if k < len(fs) && m[len(m)-1] == ";" {
				rt.Assert(m[len(m)-2] == fs[k].name, "the fields are in order")
				k++
			}
		}
	}
}

// V_Helpers: what a class takes from the helper classes is there
func V_Helpers() {
	w := &world{conf: config()}
	where := rt.Choice("where", 5)
	ts, _ := w.spec("type")
	h := &sadl.HttpDef{Method: "POST", Path: "/x", Name: "doIt", Expected: &sadl.HttpExpectedSpec{Status: 200}}
	required := rt.Choice("required", 2) == 1
	class := "S"
	switch where {
	case 0:
		w.add("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", required, ts)}})
	case 1:
		w.add("S", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "b", TypeSpec: ts}}})
	case 2:
		rt.Assume(ts.Items == "")
		h.Inputs = append(h.Inputs, &sadl.HttpParamSpec{StructFieldDef: *lib.Field("f", required, ts)})
		class = "DoItRequest"
	case 3:
		rt.Assume(ts.Items == "")
		h.Expected.Outputs = append(h.Expected.Outputs, &sadl.HttpParamSpec{StructFieldDef: *lib.Field("f", required, ts)})
		class = "DoItResponse"
	case 4:
		in := sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", required, ts)}}
		w.add("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("g", true, in)}})
	}
	dir, ok := export(&sadl.Schema{Name: "test", Types: w.types, Http: []*sadl.HttpDef{h}}, w.data)
	if !ok {
		return
	}
	d := "src/main/java/p/model/"
	f := read(dir, d+class+".java")
	if f == nil {
		return
	}
	if lib.JavaUses(f, "Util") {
		if u := read(dir, d+"Util.java"); u != nil {
			rt.Assert(u.Package == "p.model" && lib.JavaIs(u.Type.Head, "public class Util"), "the helper class is in the package of the model")
			rt.Assert(lib.JavaHelped(u, f), "the helper class has what a class takes from it")
			rt.Assert(lib.JavaHas(u.Toks, "jgen.writeString(value.toString());") && lib.JavaHas(u.Toks, "String s = jp.getText(); return Instant.parse(s);"), "an Instant is written and read as its text")
		}
	}
	if lib.JavaUses(f, "Timestamp") {
		rt.Assert(!w.instants, "a Timestamp is an Instant unless that is not wanted")
		if t := read(dir, d+"Timestamp.java"); t != nil {
			rt.Assert(t.Package == "p.model" && lib.JavaIs(t.Type.Head, "@JsonSerialize(using = Timestamp.Serializer.class) @JsonDeserialize(using = Timestamp.Deserializer.class) public class Timestamp implements Comparable<Timestamp>"), "the Timestamp class is in the package of the model")
			rt.Assert(lib.JavaHas(t.Toks, "jgen.writeString(value.repr);") && lib.JavaHas(t.Toks, "String s = jp.getText(); return new Timestamp(s);"), "a Timestamp is written and read as its text")
		}
	}
}

// V_Lombok: with Lombok, classes have their fields, and annotations for the rest
func V_Lombok() {
	w := &world{conf: &conf{data: sadl.NewData(), immutable: true, instants: true}}
	w.data.Put("package", "p")
	w.data.Put("lombok", true)
	if rt.Choice("immutable", 2) == 0 {
		w.immutable = false
		w.data.Put("immutable", false)
	}
	if rt.Choice("json", 2) == 1 {
		w.data.Put("json", true)
	}
	member := func(f field) string {
		if w.immutable {
			return f.annos + " private final " + f.typ + " " + f.name + ";"
		}
		return f.annos + " public " + f.typ + " " + f.name + ";"
	}
	builder := func(c string) []string {
		if w.immutable {
			return []string{"@JsonPOJOBuilder(withPrefix=\"\") public static class " + c + "Builder { }"}
		}
		return nil
	}
	annos := "@Data @AllArgsConstructor @Builder @NoArgsConstructor(force=true) "
	switch rt.Choice("kind", 5) {
	case 4: // an exception is none
		w.json = w.data.GetBool("json")
		w.add("Err", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("a", true, sadl.TypeSpec{Type: "Int32"})}})
		h := &sadl.HttpDef{Method: "GET", Path: "/x", Name: "doIt", Expected: &sadl.HttpExpectedSpec{Status: 200}, Exceptions: []*sadl.HttpExceptionSpec{{Type: "Err", Status: 404}}}
		dir, ok := export(&sadl.Schema{Name: "test", Types: w.types, Http: []*sadl.HttpDef{h}}, w.data)
		if !ok {
			return
		}
		if f := read(dir, "src/main/java/p/model/Err.java"); f != nil {
			rt.Assert(rt.And(lib.JavaIs(f.Type.Head, w.head("Err", "@JsonIgnoreProperties({\"message\", \"stackTrace\", \"cause\", \"localizedMessage\", \"suppressed\"}) public class Err extends RuntimeException")), lib.JavaMembers(f.Type, w.structIs("Err", []field{w.field("a", true, w.base("Int32"))})...)), "an exception is no Lombok class")
		}
	case 0:
		ts, jt := w.spec("type")
		required := rt.Choice("required", 2) == 1
		w.add("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("f", required, ts)}})
		if f := exported(w.types, w.conf, "S"); f != nil {
			rt.Assert(lib.JavaIs(f.Type.Head, w.head("S", annos+"public class S")), "a struct is a Lombok class")
			rt.Assert(lib.JavaMembers(f.Type, append(builder("S"), member(w.field("f", required, jt)))...), "a struct has each field with its type")
			rt.Assert(lib.JavaImported(f), "what a class uses is imported")
		}
	case 1:
		w.add("S", sadl.TypeSpec{Type: "Struct"})
		if f := exported(w.types, w.conf, "S"); f != nil {
			rt.Assert(lib.JavaIs(f.Type.Head, w.head("S", "@Data @Builder @NoArgsConstructor(force=true) public class S")), "a struct is a Lombok class")
			rt.Assert(lib.JavaMembers(f.Type, builder("S")...), "a struct has each field with its type")
			rt.Assert(lib.JavaImported(f), "what a class uses is imported")
		}
	case 2:
		name := rt.StrN("name", 1, 2, letters)
		in := sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("x", false, sadl.TypeSpec{Type: "Int32"})}}
		w.add("S", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field(name, true, in), lib.Field("k", true, sadl.TypeSpec{Type: "Int32"})}})
		if f := exported(w.types, w.conf, "S"); f != nil {
			c := upper(name)
			n := w.head(c, annos+"public static class "+c) + " {" + member(w.field("x", false, w.base("Int32")))
			for _, b := range builder(c) {
				n += b
			}
			want := append(builder("S"), member(w.field(name, true, jtype{c, c, ""})), member(w.field("k", true, w.base("Int32"))), n+"}")
			rt.Assert(lib.JavaMembers(f.Type, want...), "an inline struct is a nested Lombok class, named after its field")
		}
	case 3:
		ts, jt := w.spec("type")
		w.add("U", sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "a", TypeSpec: ts}, {Name: "b", TypeSpec: sadl.TypeSpec{Type: "Int32"}}}})
		if f := exported(w.types, w.conf, "U"); f != nil {
			rt.Assert(lib.JavaIs(f.Type.Head, "@Data @AllArgsConstructor @Builder @NoArgsConstructor(force=true) public class U"), "a union is a Lombok class")
			n := 0
			for _, m := range f.Type.Members {
				if lib.JavaIs(m, "@JsonInclude(JsonInclude.Include.NON_EMPTY) "+jt.annos+" public final "+jt.opt+" a;") {
					n++
				}
				if lib.JavaIs(m, "@JsonInclude(JsonInclude.Include.NON_EMPTY) public final Integer b;") {
					n++
				}
			}
			rt.Assert(n == 2, "a union has each variant with its type")
			rt.Assert(lib.JavaImported(f), "what a class uses is imported")
		}
	}
}
