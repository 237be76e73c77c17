// The generator program of C32: exports the fixture types with the Go generator of the working tree.
package main

import (
	"fmt"
	"os"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
)

func ts(t string) sadl.TypeSpec { return sadl.TypeSpec{Type: t} }

func field(name string, required bool, t sadl.TypeSpec) *sadl.StructFieldDef {
	return &sadl.StructFieldDef{Name: name, Required: required, TypeSpec: t}
}

func named(name, typ string) *sadl.TypeDef { return &sadl.TypeDef{Name: name, TypeSpec: ts(typ)} }

func main() {
	types := []*sadl.TypeDef{
		{Name: "E", TypeSpec: sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "A1"}, {Symbol: "B1", Annotations: map[string]string{"x_enumValue": "b-\"1"}}, {Symbol: "AB"}}}},
		{Name: "F", TypeSpec: sadl.TypeSpec{Type: "Enum", Elements: []*sadl.EnumElementDef{{Symbol: "ONE"}}}},
		named("N8", "Int8"), named("N16", "Int16"), named("N32", "Int32"), named("N64", "Int64"), named("R64", "Float64"),
		{Name: "U", TypeSpec: sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: "s", TypeSpec: ts("String")}, {Name: "n", TypeSpec: ts("Int32")}, {Name: "t", TypeSpec: ts("S")}}}},
		{Name: "S", TypeSpec: sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{
			field("s", true, ts("String")),
			field("o", false, ts("String")),
			field("n", true, ts("Int32")),
			field("m", false, ts("N64")),
			field("b", false, ts("Bool")),
			field("e", false, ts("E")),
			field("r", true, ts("E")),
			field("l", false, sadl.TypeSpec{Type: "Array", Items: "Int32"}),
			field("k", false, sadl.TypeSpec{Type: "Map", Keys: "String", Items: "String"}),
			field("t", false, ts("Timestamp")),
			field("d", false, ts("Decimal")),
			field("y", false, ts("Bytes")),
			field("x", false, ts("S")),
			field("v", false, ts("Any")),
		}}},
	}
	m, err := sadl.NewModel(&sadl.Schema{Name: "gt", Types: types})
	check(err)
	c := sadl.NewData()
	c.Put("package", "gt")
	check(golang.Export(m, os.Args[1], c))
}

func check(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
