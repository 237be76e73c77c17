// The generator program of C31: exports the fixture models with the Go generator of the working tree.
package main

import (
	"fmt"
	"os"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
)

func ts(t string) sadl.TypeSpec { return sadl.TypeSpec{Type: t} }

func arr(items string) sadl.TypeSpec { return sadl.TypeSpec{Type: "Array", Items: items} }

func field(name, typ string, required bool) *sadl.StructFieldDef {
	return &sadl.StructFieldDef{Name: name, Required: required, TypeSpec: ts(typ)}
}

func strct(name string, fs ...*sadl.StructFieldDef) *sadl.TypeDef {
	return &sadl.TypeDef{Name: name, TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: fs}}
}

func named(name, typ string) *sadl.TypeDef { return &sadl.TypeDef{Name: name, TypeSpec: ts(typ)} }

func in(name string, t sadl.TypeSpec) *sadl.HttpParamSpec {
	return &sadl.HttpParamSpec{StructFieldDef: sadl.StructFieldDef{Name: name, TypeSpec: t}}
}

func path(name, typ string) *sadl.HttpParamSpec {
	p := in(name, ts(typ))
	p.Path = true
	p.Required = true
	return p
}

func query(name, q, typ string, def interface{}) *sadl.HttpParamSpec {
	p := in(name, ts(typ))
	p.Query = q
	p.Default = def
	return p
}

func header(name, h, typ string) *sadl.HttpParamSpec {
	p := in(name, ts(typ))
	p.Header = h
	return p
}

func action(name, method, path string, status int32, inputs []*sadl.HttpParamSpec, outputs []*sadl.HttpParamSpec, exc ...*sadl.HttpExceptionSpec) *sadl.HttpDef {
	return &sadl.HttpDef{Name: name, Method: method, Path: path, Inputs: inputs, Expected: &sadl.HttpExpectedSpec{Status: status, Outputs: outputs}, Exceptions: exc}
}

func exc(status int32, typ string) *sadl.HttpExceptionSpec {
	return &sadl.HttpExceptionSpec{Type: typ, Status: status}
}

func must(p *sadl.HttpParamSpec) *sadl.HttpParamSpec {
	p.Required = true
	return p
}

type ps = []*sadl.HttpParamSpec

func main() {
	color := &sadl.TypeDef{Name: "Color", TypeSpec: sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "RED"}, {Symbol: "BLUE", Annotations: map[string]string{"x_enumValue": "blue-ish"}}}}}
	seven, err := sadl.ParseDecimal("7")
	check(err)
	svc := &sadl.Schema{Name: "svc", Types: []*sadl.TypeDef{
		named("Name", "String"),
		named("Count", "Int16"),
		named("Key", "UUID"),
		named("When", "Timestamp"),
		color,
		strct("Item", field("id", "String", true), field("n", "Int32", false), field("color", "Color", false), field("next", "Item", false)),
		strct("NotFound", field("message", "String", false)),
		strct("Conflict", field("code", "Int32", false)),
	}, Http: []*sadl.HttpDef{
		action("getItem", "GET", "/items/{id}?lim={limit}&o={off}", 200,
			ps{path("id", "String"), query("limit", "lim", "Int32", seven), query("off", "o", "Name", "start"), header("trace", "X-Trace", "String")},
			ps{in("item", ts("Item")), header("tag", "ETag", "String")},
			exc(404, "NotFound"), exc(409, "Conflict")),
		action("putItem", "PUT", "/items/{id}", 200, ps{path("id", "Name"), in("item", ts("Item"))}, ps{in("old", ts("Item"))}, exc(409, "Conflict")),
		action("addItem", "POST", "/items", 201, ps{must(in("item", ts("Item"))), header("count", "X-Count", "Count")}, ps{must(header("location", "Location", "Name")), must(in("item", ts("Item")))}),
		action("deleteItem", "DELETE", "/items/{id}", 204, ps{path("id", "String"), header("match", "If-Match", "Name")}, nil, exc(404, "NotFound")),
		action("listItems", "GET", "/items?n={n}&nn={nn}", 200, ps{query("n", "n", "Int64", nil), query("nn", "nn", "Count", 3)}, ps{must(in("items", arr("Item")))}),
		action("part", "GET", "/items/{id}/parts/{idx}", 200, ps{path("idx", "Int32"), path("id", "String")}, ps{in("text", ts("String"))}),
		action("patchKey", "PATCH", "/keys/{key}", 200, ps{path("key", "Key"), in("names", arr("Name"))}, ps{header("size", "X-Size", "Int32"), in("key", ts("Key"))}),
		action("since", "GET", "/since?t={t}", 304, ps{query("t", "t", "Timestamp", nil), header("u", "If-Since", "When")}, nil),
	}}
	export(svc, sadl.NewData())

	hundred := "a-b"
	two := &sadl.Schema{Name: "zzz", Types: []*sadl.TypeDef{
		strct("A", field("a", "String", false)),
		strct("E1", field("x", "String", false)),
		strct("E2", field("y", "String", false)),
		{Name: "Fault", TypeSpec: sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "s", TypeSpec: ts("String")}, {Name: "a", TypeSpec: ts("A")}}}},
	}, Http: []*sadl.HttpDef{
		action("mixed", "POST", "/m/{b}/x/{a}?qq={q}", 202,
			ps{in("body", ts("A")), query("q", "qq", "String", "say \"hi\" \\"), path("a", "String"), path("b", "Int64"), headerDef("one", "X-One", "Int8", 12.0), headerDef("id", "X-Id", "UUID", &hundred)},
			ps{header("total", "X-Total", "Int64"), header("when", "Last-Modified", "Timestamp"), header("at", "X-At", "Timestamp")},
			exc(400, "E1"), exc(400, "E2"), exc(422, "Fault")),
		action("counts", "GET", "/a", 200, nil, ps{in("m", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "Int32"})}),
		action("literal", "GET", "/a/b", 200, nil, ps{must(in("r", ts("A")))}, exc(500, "E2")),
		action("variable", "GET", "/a/{x}", 200, ps{path("x", "String")}, ps{in("r", ts("A"))}),
		action("when", "GET", "/w?at={at}", 200, ps{query("at", "at", "Timestamp", "2001-02-03T04:05:06Z")}, ps{in("t", ts("Timestamp"))}),
		action("tagOnly", "GET", "/tag", 200, nil, ps{header("tag", "X-Tag", "String")}),
		action("late", "PUT", "/l/{c}?d={d}", 200, ps{query("d", "d", "String", nil), header("e", "X-E", "String"), path("c", "String"), in("body", ts("A"))},
			ps{header("f", "X-F", "String"), in("g", ts("A"))}),
		action("noBody", "POST", "/p", 200, ps{must(query("a", "b", "String", nil)), query("b", "a", "String", nil)}, nil),
	}}
	c := sadl.NewData()
	c.Put("name", "two")
	two.Namespace = "two"
	export(two, c)
}

func headerDef(name, h, typ string, def interface{}) *sadl.HttpParamSpec {
	p := header(name, h, typ)
	p.Default = def
	return p
}

func export(sc *sadl.Schema, c *sadl.Data) {
	m, err := sadl.NewModel(sc)
	check(err)
	if sc.Namespace == "" {
		c.Put("package", sc.Name)
	}
	c.Put("server", true)
	c.Put("client", true)
	check(golang.Export(m, os.Args[1], c))
}

func check(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
