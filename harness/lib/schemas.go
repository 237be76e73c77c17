package lib

import (
	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

// What a schema says, built from choices and symbolic parts, and compared part by part.

var Kinds = []string{"Any", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "UnitValue", "Array", "Map", "Struct", "Enum", "Union"}

// Word is a symbolic lower case name.
func Word(n string) string { return rt.StrN(n, 1, 2, "aBc") }

func size(n string) *int64 { return I64(rt.Int64(n, 0, 9)) }

// Spec is a type spec of the kind, with the constraints it can have; "Point", "Colour" and "Str" are types that are defined.
func Spec(kind string) sadl.TypeSpec {
	ts := sadl.TypeSpec{Type: kind}
	switch kind {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		switch rt.Choice("limits", 4) {
		case 1:
			ts.Min = Dec(rt.StrN("min", 1, 1, "123"))
		case 2:
			ts.Max = Dec("-" + rt.StrN("max", 1, 1, "123") + ".5")
		case 3:
			ts.Min, ts.Max = Dec("0"), Dec(rt.StrN("max", 2, 2, "123"))
		}
	case "Bytes", "String", "Array", "Map":
		switch rt.Choice("sizes", 4) {
		case 1:
			ts.MinSize = size("minsize")
		case 2:
			ts.MaxSize = size("maxsize")
		case 3:
			ts.MinSize, ts.MaxSize = size("minsize"), size("maxsize")
		}
	}
	switch kind {
	case "String":
		switch rt.Choice("text", 4) {
		case 1:
			ts.Pattern = rt.StrN("pattern", 1, 2, "ab*")
		case 2:
			ts.Values = []string{rt.StrN("v1", 1, 1, "ab "), "a:b"}
		case 3:
			ts.Reference = "Point"
		}
	case "UUID":
		if rt.Choice("reference", 2) == 1 {
			ts.Reference = "Str"
		}
	case "UnitValue":
		ts.Value, ts.Unit = "Decimal", "String"
		if rt.Choice("unit", 2) == 1 {
			ts.Value, ts.Unit = "Int32", "Colour"
		}
	case "Array":
		ts.Items = []string{"Any", "Point", "Str"}[rt.Choice("items", 3)]
	case "Map":
		ts.Keys, ts.Items = "String", "Any"
		if rt.Choice("keys", 2) == 1 {
			ts.Keys, ts.Items = "Str", "Point"
		}
	case "Struct":
		if rt.Choice("fields", 2) == 1 {
			ts.Fields = []*sadl.StructFieldDef{Field(rt.StrN("f", 1, 1, "ab"), true, sadl.TypeSpec{Type: "Str"}), Field("other", false, sadl.TypeSpec{Type: "Array", Items: "Int32", MaxSize: size("maxsize")})}
			ts.Fields[0].Comment = "first"
		}
	case "Enum":
		ts.Elements = []*sadl.EnumElementDef{{Symbol: rt.StrN("sym", 1, 1, "AB"), Comment: "one"}, {Symbol: "two", Annotations: map[string]string{"x_e": "v"}}, {Symbol: "C"}}
	case "Union":
		ts.Variants = []*sadl.UnionVariantDef{{Name: Word("variant"), TypeSpec: sadl.TypeSpec{Type: "Point"}}, {Name: "l", Comment: "many", TypeSpec: sadl.TypeSpec{Type: "Array", Items: "Str", MinSize: size("minsize")}}}
	}
	return ts
}

// Defined are the types that specs refer to.
func Defined() []*sadl.TypeDef {
	return []*sadl.TypeDef{
		Type("Point", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{Field("x", true, sadl.TypeSpec{Type: "Int32"})}}),
		Type("Str", sadl.TypeSpec{Type: "String"}),
		Type("Colour", sadl.TypeSpec{Type: "Enum", Elements: Elements("red", "green")}),
	}
}

// Comment is a comment: none, short, or long enough to be wrapped.
func Comment() string {
	switch rt.Choice("comment", 3) {
	case 1:
		return rt.StrN("com", 1, 2, "aB.") + " word"
	case 2:
		return rt.StrN("com", 1, 1, "ab") + " comment that is made of very many words so that it does not fit on one line and has to be wrapped after about one hundred characters"
	}
	return ""
}

func Annotations() map[string]string {
	switch rt.Choice("annotations", 3) {
	case 1:
		return map[string]string{"x_" + rt.StrN("anno", 1, 1, "aB"): rt.StrN("val", 0, 2, "a B")}
	case 2:
		return map[string]string{"x_one": "1", "x_two": "", "x_three": "3"}
	}
	return nil
}

func SameAnnotations(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

func sameSize(a, b *int64) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

func sameLimit(a, b *sadl.Decimal) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.String() == b.String()
}

func SameTexts(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// SameLiteral compares literal values, whichever Go types stand for them.
func SameLiteral(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if s, ok := text(a); ok {
		t, ok := text(b)
		return ok && s == t
	}
	switch x := a.(type) {
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case *sadl.Decimal:
		y, ok := b.(*sadl.Decimal)
		return ok && x.String() == y.String()
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !SameLiteral(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !SameLiteral(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

// DiffSpec names the first thing in which two specs differ, or "".
func DiffSpec(a, b *sadl.TypeSpec) string {
	switch {
	case a.Type != b.Type:
		return "type"
	case a.Pattern != b.Pattern:
		return "pattern"
	case !SameTexts(a.Values, b.Values):
		return "values"
	case !sameSize(a.MinSize, b.MinSize):
		return "minsize"
	case !sameSize(a.MaxSize, b.MaxSize):
		return "maxsize"
	case !sameLimit(a.Min, b.Min):
		return "min"
	case !sameLimit(a.Max, b.Max):
		return "max"
	case a.Items != b.Items:
		return "items"
	case a.Keys != b.Keys:
		return "keys"
	case a.Unit != b.Unit:
		return "unit"
	case a.Value != b.Value:
		return "value"
	case a.Reference != b.Reference:
		return "reference"
	case len(a.Fields) != len(b.Fields):
		return "number of fields"
	case len(a.Elements) != len(b.Elements):
		return "number of elements"
	case len(a.Variants) != len(b.Variants):
		return "number of variants"
	}
	for i, f := range a.Fields {
		if d := DiffField(f, b.Fields[i]); d != "" {
			return "field " + d
		}
	}
	for i, e := range a.Elements {
		f := b.Elements[i]
		if e.Symbol != f.Symbol {
			return "symbol"
		}
		if e.Comment != f.Comment {
			return "element comment"
		}
		if !SameAnnotations(e.Annotations, f.Annotations) {
			return "element annotations"
		}
	}
	for i, v := range a.Variants {
		w := b.Variants[i]
		if v.Name != w.Name {
			return "variant name"
		}
		if v.Comment != w.Comment {
			return "variant comment"
		}
		if !SameAnnotations(v.Annotations, w.Annotations) {
			return "variant annotations"
		}
		if d := DiffSpec(&v.TypeSpec, &w.TypeSpec); d != "" {
			return "variant " + d
		}
	}
	return ""
}

func DiffField(a, b *sadl.StructFieldDef) string {
	switch {
	case a.Name != b.Name:
		return "name"
	case a.Comment != b.Comment:
		return "comment"
	case a.Required != b.Required:
		return "required"
	case !SameLiteral(a.Default, b.Default):
		return "default"
	case !SameAnnotations(a.Annotations, b.Annotations):
		return "annotations"
	}
	return DiffSpec(&a.TypeSpec, &b.TypeSpec)
}

func diffParams(a, b []*sadl.HttpParamSpec) string {
	if len(a) != len(b) {
		return "number"
	}
	for i := range a {
		if a[i].Header != b[i].Header {
			return "header"
		}
		if a[i].Query != b[i].Query {
			return "query"
		}
		if a[i].Path != b[i].Path {
			return "path"
		}
		if d := DiffField(&a[i].StructFieldDef, &b[i].StructFieldDef); d != "" {
			return d
		}
	}
	return ""
}

func DiffHttp(a, b *sadl.HttpDef) string {
	switch {
	case a.Name != b.Name:
		return "name"
	case a.Resource != b.Resource:
		return "resource"
	case a.Comment != b.Comment:
		return "comment"
	case !SameAnnotations(a.Annotations, b.Annotations):
		return "annotations"
	case a.Method != b.Method:
		return "method"
	case a.Path != b.Path:
		return "path"
	case (a.Expected == nil) != (b.Expected == nil):
		return "expected"
	case len(a.Exceptions) != len(b.Exceptions):
		return "number of exceptions"
	}
	if d := diffParams(a.Inputs, b.Inputs); d != "" {
		return "input " + d
	}
	if a.Expected != nil {
		switch {
		case a.Expected.Status != b.Expected.Status:
			return "status"
		case a.Expected.Comment != b.Expected.Comment:
			return "expected comment"
		case !SameAnnotations(a.Expected.Annotations, b.Expected.Annotations):
			return "expected annotations"
		}
		if d := diffParams(a.Expected.Outputs, b.Expected.Outputs); d != "" {
			return "output " + d
		}
	}
	for i, e := range a.Exceptions {
		f := b.Exceptions[i]
		switch {
		case e.Type != f.Type:
			return "exception type"
		case e.Status != f.Status:
			return "exception status"
		case e.Comment != f.Comment:
			return "exception comment"
		case !SameAnnotations(e.Annotations, f.Annotations):
			return "exception annotations"
		}
	}
	return ""
}

func DiffOperation(a, b *sadl.OperationDef) string {
	switch {
	case a.Name != b.Name:
		return "name"
	case a.Comment != b.Comment:
		return "comment"
	case !SameAnnotations(a.Annotations, b.Annotations):
		return "annotations"
	case len(a.Inputs) != len(b.Inputs):
		return "number of inputs"
	case len(a.Outputs) != len(b.Outputs):
		return "number of outputs"
	case !SameTexts(a.Exceptions, b.Exceptions):
		return "exceptions"
	}
	for i := range a.Inputs {
		if d := DiffField(&a.Inputs[i].StructFieldDef, &b.Inputs[i].StructFieldDef); d != "" {
			return "input " + d
		}
	}
	for i, o := range a.Outputs {
		p := b.Outputs[i]
		switch {
		case o.Name != p.Name:
			return "output name"
		case o.Comment != p.Comment:
			return "output comment"
		}
		if d := DiffSpec(&o.TypeSpec, &p.TypeSpec); d != "" {
			return "output " + d
		}
	}
	return ""
}

// SameSchema asserts that got says what want says.
func SameSchema(want, got *sadl.Schema) {
	rt.Assert(want.Name == got.Name, "name")
	rt.Assert(want.Namespace == got.Namespace, "namespace")
	rt.Assert(want.Version == got.Version, "version")
	rt.Assert(want.Base == got.Base, "base")
	rt.Assert(want.Comment == got.Comment, "schema comment")
	rt.Assert(SameAnnotations(want.Annotations, got.Annotations), "schema annotations")
	rt.Assert(len(want.Types) == len(got.Types) && len(want.Operations) == len(got.Operations) && len(want.Http) == len(got.Http) && len(want.Examples) == len(got.Examples), "number of definitions")
	for i, td := range want.Types {
		t := got.Types[i]
		rt.Assert(td.Name == t.Name, "type name")
		rt.Assert(td.Comment == t.Comment, "type comment")
		rt.Assert(SameAnnotations(td.Annotations, t.Annotations), "type annotations")
		d := DiffSpec(&td.TypeSpec, &t.TypeSpec)
		rt.Assert(d == "", "type definition differs: "+d)
	}
	for i, op := range want.Operations {
		d := DiffOperation(op, got.Operations[i])
		rt.Assert(d == "", "operation differs: "+d)
	}
	for i, h := range want.Http {
		d := DiffHttp(h, got.Http[i])
		rt.Assert(d == "", "action differs: "+d)
	}
	for i, e := range want.Examples {
		f := got.Examples[i]
		rt.Assert(e.Target == f.Target && e.Name == f.Name, "example target and name")
		rt.Assert(e.Comment == f.Comment, "example comment")
		rt.Assert(SameLiteral(e.Example, f.Example), "example value")
	}
}
