package c28

import (
	"strings"

	"encoding/json"
	"regexp"

	"github.com/boynton/data"
	sadl "github.com/boynton/sadl"
	"github.com/boynton/sadl/smithy"
	"github.com/boynton/sadl/zzh/lib"
	rt "github.com/boynton/sadl/zzrt"
	smithylib "github.com/boynton/smithy"
)

//verif:assume boynton/smithy is not available offline: its syntax tree is modelled by /verif/stubs/smithy; the text of the Smithy language is that library's business
//verif:bound one type of each of 17 kinds (an alias included, next to a struct, a string and an enum it refers to) with every combination of its constraints, sizes 0..9, limits of 1..2 digits and a fraction, names, patterns and values of 1..2 symbolic characters; as a type, a required or optional field, a variant, an item, a map value, an input and an output
//verif:bound actions with any of the seven methods, with and without a base path, 1..4 inputs in every place, an expected response (or none) with up to 2 outputs, up to 2 exceptions; symbolic statuses; operations; up to 3 examples; names that collide
//verif:assume items, keys, units and values are named types or base types other than Enum, Union and UnitValue; exception types are structs, each with one status

const ns = "ns"

func export(s *sadl.Schema) (*smithylib.AST, error) {
	m, err := sadl.NewModel(s)
	rt.Assert(err == nil, "the model is accepted")
	ast, err := smithy.FromSADL(m, ns)
	rt.Assert((ast == nil) == (err != nil), "a Smithy model or an error")
	if err == nil {
		references(ast)
		rt.Reach("exported")
	} else {
		rt.Reach("refused")
	}
	return ast, err
}

func schema(types ...*sadl.TypeDef) *sadl.Schema {
	return &sadl.Schema{Name: "test", Types: append(lib.Defined(), types...)}
}

// prelude has the shapes that Smithy itself defines, with the base type they stand for.
var prelude = map[string]string{
	"smithy.api#Boolean": "Bool", "smithy.api#Byte": "Int8", "smithy.api#Short": "Int16", "smithy.api#Integer": "Int32", "smithy.api#Long": "Int64",
	"smithy.api#Float": "Float32", "smithy.api#Double": "Float64", "smithy.api#BigDecimal": "Decimal", "smithy.api#Blob": "Bytes",
	"smithy.api#String": "String", "smithy.api#Timestamp": "Timestamp", "smithy.api#Document": "Any", "smithy.api#Unit": "", "smithy.api#BigInteger": "",
}

// references: what a shape refers to is there
func references(ast *smithylib.AST) {
	target := func(t string) {
		_, ok := prelude[t]
		rt.Assert(ok || ast.GetShape(t) != nil, "every reference leads to a shape")
	}
	for _, k := range ast.Shapes.Keys() {
		sh := ast.GetShape(k)
		for _, m := range []*smithylib.Member{sh.Member, sh.Key, sh.Value} {
			if m != nil {
				target(m.Target)
			}
		}
		for _, n := range sh.Members.Keys() {
			target(sh.Members.Get(n).Target)
		}
		for _, r := range append(append([]*smithylib.ShapeRef{sh.Input, sh.Output}, sh.Errors...), sh.Operations...) {
			if r != nil {
				target(r.Target)
			}
		}
	}
}

var shapeTypes = map[string]string{"Any": "document", "Bool": "boolean", "Int8": "byte", "Int16": "short", "Int32": "integer", "Int64": "long",
	"Float32": "float", "Float64": "double", "Decimal": "bigDecimal", "Bytes": "blob", "String": "string", "Timestamp": "timestamp", "UUID": "string",
	"Array": "list", "Map": "map", "Struct": "structure", "Enum": "enum", "Union": "union"}

func sameLimit(m map[string]interface{}, key string, want *sadl.Decimal) {
	v, ok := m[key]
	rt.Assert(ok == (want != nil), "a limit exactly when there is one")
	if want != nil {
		d, ok := v.(sadl.Decimal)
		if p, isp := v.(*sadl.Decimal); isp {
			d, ok = *p, true
		}
		rt.Assert(ok && d.String() == want.String(), "the limit")
	}
}

func sameSize(m map[string]interface{}, key string, want *int64) {
	v, ok := m[key]
	rt.Assert(ok == (want != nil), "a size exactly when there is one")
	if want != nil {
		n, ok := v.(int64)
		rt.Assert(ok && n == *want, "the size")
	}
}

// shape: the shape says what the type spec says
func shape(ast *smithylib.AST, sh *smithylib.Shape, ts *sadl.TypeSpec) {
	rt.Assert(sh != nil, "the type has a shape")
	if sh == nil {
		return
	}
	want, base := shapeTypes[ts.Type]
	if !base { // an alias: what it stands for
		for _, td := range lib.Defined() {
			if td.Name == ts.Type {
				shape(ast, sh, &td.TypeSpec)
				return
			}
		}
	}
	rt.Assert(sh.Type == want, "kind of shape")
	rng := sh.Traits.GetMap("smithy.api#range")
	sameLimit(rng, "min", ts.Min)
	sameLimit(rng, "max", ts.Max)
	length := sh.Traits.GetMap("smithy.api#length")
	sameSize(length, "min", ts.MinSize)
	sameSize(length, "max", ts.MaxSize)
	if ts.Type == "UUID" {
		re, err := regexp.Compile("^" + sh.Traits.GetString("smithy.api#pattern") + "$")
		rt.Assert(err == nil && re.MatchString("1ce437b0-1dd2-11b2-bc26-003ee1be85f9") && !re.MatchString("1ce437b0-1dd2-11b2-003ee1be85f9"), "a UUID is a string with its pattern")
	} else {
		rt.Assert(sh.Traits.GetString("smithy.api#pattern") == ts.Pattern, "pattern")
	}
	values := sh.Traits.GetArray("smithy.api#enum")
	rt.Assert(len(values) == len(ts.Values), "number of values")
	for i, v := range ts.Values {
		if i < len(values) {
			rt.Assert(data.GetString(data.AsMap(values[i]), "value") == v, "values in order")
		}
	}
	rt.Assert((sh.Member != nil) == (ts.Type == "Array") && (sh.Key != nil) == (ts.Type == "Map") && (sh.Value != nil) == (ts.Type == "Map"), "item, key and value")
	n := 0
	switch ts.Type {
	case "Array":
		target(ast, sh.Member.Target, &sadl.TypeSpec{Type: ts.Items})
	case "Map":
		target(ast, sh.Key.Target, &sadl.TypeSpec{Type: ts.Keys})
		target(ast, sh.Value.Target, &sadl.TypeSpec{Type: ts.Items})
	case "Struct":
		n = len(ts.Fields)
		for i, f := range ts.Fields {
			m := member(sh, i, f.Name, f.Comment, f.Required)
			if m != nil {
				target(ast, m.Target, &f.TypeSpec)
			}
		}
	case "Enum":
		n = len(ts.Elements)
		for i, e := range ts.Elements {
			m := member(sh, i, e.Symbol, e.Comment, false)
			if m != nil {
				rt.Assert(m.Target == "smithy.api#Unit", "an enum member has no type")
				rt.Assert(m.Traits.GetString("smithy.api#enumValue") == e.Annotations["x_enumValue"], "value of the enum member")
			}
		}
	case "Union":
		n = len(ts.Variants)
		for i, v := range ts.Variants {
			m := member(sh, i, v.Name, v.Comment, false)
			if m != nil {
				target(ast, m.Target, &v.TypeSpec)
			}
		}
	}
	rt.Assert(sh.Members.Length() == n, "number of members")
}

func member(sh *smithylib.Shape, i int, name, comment string, required bool) *smithylib.Member {
	keys := sh.Members.Keys()
	rt.Assert(i < len(keys), "a member for each part")
	if i >= len(keys) {
		return nil
	}
	rt.Assert(keys[i] == name, "members in order")
	m := sh.Members.Get(keys[i])
	rt.Assert(m.Traits.GetString("smithy.api#documentation") == comment, "comment of the member")
	rt.Assert(m.Traits.GetBool("smithy.api#required") == required, "required")
	return m
}

// target: what is referred to says what the type spec says
func target(ast *smithylib.AST, t string, ts *sadl.TypeSpec) {
	for _, td := range lib.Defined() {
		if td.Name == ts.Type {
			rt.Assert(t == ns+"#"+td.Name, "reference to the type")
			return
		}
	}
	switch ts.Type {
	case "Any", "UUID", "Bool", "Timestamp", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "String", "Bytes":
		if ts.Min == nil && ts.Max == nil && ts.MinSize == nil && ts.MaxSize == nil && ts.Pattern == "" && len(ts.Values) == 0 {
			kind := ts.Type
			if kind == "UUID" { // Smithy does not have it
				kind = "String"
			}
			rt.Assert(prelude[t] == kind, "reference to the base type")
			return
		}
	case "Struct", "Array", "Map":
		if len(ts.Fields) == 0 && ts.Items == "" { // anything of that kind
			rt.Assert(t == "smithy.api#Document", "a plain Struct is a document")
			return
		}
	}
	shape(ast, ast.GetShape(t), ts)
}

func kind(n string) string {
	kinds := []string{"Any", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Point", "Str", "Colour"}
	return kinds[rt.Choice(n, len(kinds))]
}

func V_types() {
	td := lib.Type("X"+lib.Word("name"), lib.Spec(kind("kind")))
	td.Comment = []string{"", "c"}[rt.Choice("comment", 2)]
	ast, err := export(schema(td))
	rt.Assert(err == nil, "the model is exported")
	if err != nil {
		return
	}
	rt.Assert(ast.Shapes.Length() >= 4, "a shape for each type")
	for _, d := range lib.Defined() {
		shape(ast, ast.GetShape(ns+"#"+d.Name), &d.TypeSpec)
	}
	sh := ast.GetShape(ns + "#" + td.Name)
	shape(ast, sh, &td.TypeSpec)
	rt.Assert(sh.Traits.GetString("smithy.api#documentation") == td.Comment, "comment of the type")
}

func V_fields() {
	f := lib.Field(lib.Word("field"), rt.Fork(rt.Bool("required")), lib.Spec(kind("kind")))
	f.Comment = []string{"", "c"}[rt.Choice("comment", 2)]
	td := lib.Type("X", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{f, lib.Field("last", true, sadl.TypeSpec{Type: "Str"})}})
	if rt.Choice("variant", 2) == 1 && !f.Required {
		td.TypeSpec = sadl.TypeSpec{Type: "Union", Variants: []*sadl.UnionVariantDef{{Name: f.Name, Comment: f.Comment, TypeSpec: f.TypeSpec}, {Name: "last", TypeSpec: sadl.TypeSpec{Type: "Point"}}}}
	}
	ast, err := export(schema(td))
	rt.Assert(err == nil, "the model is exported")
	if err == nil {
		shape(ast, ast.GetShape(ns+"#X"), &td.TypeSpec)
	}
}

func V_items() {
	items := kind("items")
	rt.Assume(items != "Enum" && items != "Union")
	ts := sadl.TypeSpec{Type: "Array", Items: items}
	if rt.Choice("map", 2) == 1 {
		ts = sadl.TypeSpec{Type: "Map", Keys: []string{"String", "Str", "Colour"}[rt.Choice("keys", 3)], Items: items}
	}
	td := lib.Type("X", ts)
	ast, err := export(schema(td))
	rt.Assert(err == nil, "the model is exported")
	if err == nil {
		shape(ast, ast.GetShape(ns+"#X"), &td.TypeSpec)
	}
}

// V_annotations: what annotations say about Smithy
func V_annotations() {
	td := lib.Type("X", sadl.TypeSpec{Type: "Array", Items: "Str"})
	if rt.Choice("kind", 2) == 1 {
		td.TypeSpec = sadl.TypeSpec{Type: "String"}
	}
	tag := rt.StrN("tag", 1, 2, "aB")
	more := []string{"", ",u", ",u,Vv"}[rt.Choice("more tags", 3)]
	td.Annotations = map[string]string{"x_tags": "t," + tag + more, "x_sensitive": "", "x_unique": "", "x_other": "y"}
	rt.MapOrder(true)
	ast, err := export(schema(td))
	rt.MapOrder(false)
	again, err2 := export(schema(td))
	rt.Assert(err == nil && err2 == nil, "the model is exported")
	if err != nil || err2 != nil {
		return
	}
	sh := ast.GetShape(ns + "#X")
	tags, _ := sh.Traits.Get("smithy.api#tags").([]string)
	rt.Assert(len(tags) == 2+strings.Count(more, ",") && tags[0] == "t" && tags[1] == tag && (more == "" || tags[2] == "u") && (len(tags) < 4 || tags[3] == "Vv"), "tags")
	rt.Assert(sh.Traits.GetBool("smithy.api#sensitive"), "sensitive")
	rt.Assert((sh.Type == "set") == (td.Type == "Array"), "a list of unique items is a set")
	k1, k2 := sh.Traits.Keys(), again.GetShape(ns+"#X").Traits.Keys()
	rt.Assert(len(k1) == len(k2), "the same every time")
	for i := range k1 {
		rt.Assert(k1[i] == k2[i], "the same every time")
	}
}

// V_deprecated: a deprecation, with its message and since when, in the form of SADL (since|message) or that of the import
func V_deprecated() {
	kinds := []sadl.TypeSpec{{Type: "String"}, {Type: "Struct"}, {Type: "Enum", Elements: lib.Elements("a")}, {Type: "Int8"}, {Type: "Map", Keys: "Str", Items: "Str"}}
	td := lib.Type("X", kinds[rt.Choice("kind", len(kinds))])
	text := rt.StrN("text", 1, 2, "ab")
	since, message := "", ""
	td.Annotations = map[string]string{}
	form := rt.Choice("form", 7)
	switch form {
	case 1:
		td.Annotations["x_deprecated"] = ""
	case 2:
		td.Annotations["x_deprecated"] = "true"
	case 3:
		td.Annotations["x_deprecated"], message = text, text
	case 4:
		td.Annotations["x_deprecated"], since, message = "1|"+text, "1", text
	case 5:
		td.Annotations["x_deprecated"], td.Annotations["x_deprecated_message"], message = "true", text, text
	case 6:
		td.Annotations["x_deprecated"], td.Annotations["x_deprecated_message"], td.Annotations["x_deprecated_since"] = "true", "m", text
		since, message = text, "m"
	}
	ast, err := export(schema(td))
	rt.Assert(err == nil, "the model is exported")
	if err != nil {
		return
	}
	sh := ast.GetShape(ns + "#X")
	rt.Assert(sh.Traits.Has("smithy.api#deprecated") == (form > 0), "what is deprecated is deprecated in Smithy")
	if form > 0 {
		t := sh.Traits.GetMap("smithy.api#deprecated")
		rt.Assert(len(t) == count(since)+count(message), "with nothing that is not said")
		rt.Assert(since == "" || t["since"] == since, "since when")
		rt.Assert(message == "" || t["message"] == message, "why")
	}
}

func count(s string) int {
	if s == "" {
		return 0
	}
	return 1
}

// V_pages: how the results of an action are paginated
func V_pages() {
	keys := []string{"inputToken", "outputToken", "pageSize", "items"}
	text := rt.StrN("text", 1, 2, "ab.")
	vals := map[string]string{}
	anno := ""
	for _, k := range keys {
		switch rt.Choice(k, 4) {
		case 0:
			continue
		case 1:
			anno += k + "=,"
		case 2:
			anno += k + ","
		case 3:
			anno += k + "=" + text + ","
			vals[k] = text
		}
	}
	if anno != "" && rt.Choice("cut", 2) == 1 {
		anno = anno[:len(anno)-1]
	}
	s := schema()
	s.Http = []*sadl.HttpDef{{Name: "list", Method: "GET", Path: "/l", Annotations: map[string]string{"x_paginated": anno}}}
	ast, err := export(s)
	rt.Assert(err == nil, "the model is exported")
	if err != nil {
		return
	}
	t := ast.GetShape(ns + "#List").Traits.GetMap("smithy.api#paginated")
	rt.Assert(len(t) == len(vals), "the parts of the pagination")
	for k, v := range vals {
		rt.Assert(t[k] == v, "the parts of the pagination")
	}
}

// V_refused: what Smithy cannot say, or would say with a name that is taken
func V_refused() {
	s := schema()
	names := []string{"A", "B"}
	n := names[rt.Choice("n", 2)]
	taken := n == "A"
	switch rt.Choice("case", 8) {
	case 0:
		s.Types = append(s.Types, lib.Type("X", sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"}))
		taken = true
	case 1:
		s.Types = append(s.Types, lib.Type("X", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("u", false, sadl.TypeSpec{Type: "UnitValue", Value: "Decimal", Unit: "String"})}}))
		taken = true
	case 2: // a type with the name made for an inline type
		s.Types = append(s.Types, lib.Type("X"+n, sadl.TypeSpec{Type: "Bool"}), lib.Type("X", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("a", false, sadl.TypeSpec{Type: "Array", Items: "Str"})}}))
	case 3:
		s.Types = append(s.Types, lib.Type("X", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("a", false, sadl.TypeSpec{Type: "Enum", Elements: lib.Elements("p")})}}), lib.Type("X"+n, sadl.TypeSpec{Type: "Bool"}))
	case 4: // an action with the name of a type
		s.Types = append(s.Types, lib.Type(n, sadl.TypeSpec{Type: "Bool"}))
		s.Http = []*sadl.HttpDef{{Name: "a", Method: "GET", Path: "/a"}}
	case 5:
		s.Types = append(s.Types, lib.Type(n+"Request", sadl.TypeSpec{Type: "Bool"}))
		p := &sadl.HttpParamSpec{Query: "q"}
		p.Name, p.Type = "q", "String"
		s.Http = []*sadl.HttpDef{{Name: "a", Method: "GET", Path: "/a?q={q}", Inputs: []*sadl.HttpParamSpec{p}}}
	case 6:
		s.Types = append(s.Types, lib.Type(n+"Response", sadl.TypeSpec{Type: "Bool"}))
		s.Operations = []*sadl.OperationDef{{Name: "a", Outputs: []*sadl.OperationOutput{{Name: "o", TypeSpec: sadl.TypeSpec{Type: "Bool"}}}}}
	case 7: // an exception that is no type
		e := "Point"
		if taken {
			e = "Nope"
		}
		s.Http = []*sadl.HttpDef{{Name: "a", Method: "GET", Path: "/a", Exceptions: []*sadl.HttpExceptionSpec{{Type: e, Status: 404}}}}
	}
	_, err := export(s)
	rt.Assert((err != nil) == taken, "an error exactly when it cannot be said")
}

func param(n string, ts sadl.TypeSpec) *sadl.HttpParamSpec {
	p := &sadl.HttpParamSpec{StructFieldDef: sadl.StructFieldDef{Name: n, TypeSpec: ts}}
	p.Comment = "c " + n
	return p
}

func V_actions() {
	v := rt.Choice("vary", 5)
	pick := func(at int, n string, k int) int { // one thing varies at a time
		if v == at {
			return rt.Choice(n, k)
		}
		return 0
	}
	flag := func(at int, n string) bool { return v == at && rt.Fork(rt.Bool(n)) }
	h := &sadl.HttpDef{Name: "do" + rt.StrN("name", 1, 1, "ab"), Comment: []string{"", "it does"}[pick(0, "comment", 2)]}
	h.Method = []string{"GET", "PUT", "POST", "DELETE", "PATCH", "HEAD", "OPTIONS"}[pick(0, "method", 7)]
	h.Path = "/p/" + rt.StrN("path", 1, 2, "ab/")
	s := schema()
	s.Base = []string{"", "/base", "/p"}[pick(0, "base", 3)]
	uri := s.Base + h.Path
	ins := 3 - pick(1, "inputs", 5)
	param := func(n string, ts sadl.TypeSpec) *sadl.HttpParamSpec {
		p := &sadl.HttpParamSpec{StructFieldDef: sadl.StructFieldDef{Name: n, TypeSpec: ts}}
		p.Comment = []string{"", "c " + n}[pick(2, n+" comment", 2)]
		return p
	}
	if ins >= 0 {
		id := param("id", sadl.TypeSpec{Type: []string{"String", "Int32", "Str"}[pick(1, "type", 3)]})
		id.Path, id.Required = true, true
		h.Path += "/{id}"
		uri += "/{id}"
		h.Inputs = append(h.Inputs, id)
	}
	if ins > 0 {
		p := param("q", sadl.TypeSpec{Type: "Array", Items: "Str"})
		p.Query = rt.StrN("query", 1, 2, "ab")
		p.Required = flag(2, "required q")
		h.Path += "?" + p.Query + "={q}"
		h.Inputs = append(h.Inputs, p)
	}
	if ins > 1 {
		p := param("hd", sadl.TypeSpec{Type: "Timestamp"})
		p.Header = "X-" + rt.StrN("header", 1, 1, "AB")
		p.Required = flag(2, "required hd")
		h.Inputs = append(h.Inputs, p)
	}
	if ins > 2 {
		p := param("thing", sadl.TypeSpec{Type: "Point"})
		p.Required = flag(2, "required thing")
		h.Inputs = append(h.Inputs, p)
	}
	code := 200
	outs := 3 - pick(3, "outputs", 4)
	if outs > 0 {
		h.Expected = &sadl.HttpExpectedSpec{Status: 200 + rt.Int32("status", 0, 99)}
		code = int(h.Expected.Status)
	}
	if outs > 1 {
		p := param("result", sadl.TypeSpec{Type: "Map", Keys: "String", Items: "Point"})
		p.Required = flag(3, "required result")
		h.Expected.Outputs = append(h.Expected.Outputs, p)
	}
	if outs > 2 {
		p := param("tag", sadl.TypeSpec{Type: "String"})
		p.Header = "X-" + rt.StrN("oheader", 1, 1, "AB")
		p.Required = flag(3, "required tag")
		h.Expected.Outputs = append(h.Expected.Outputs, p)
	}
	if pick(4, "exceptions", 2) == 0 {
		s.Types = append(s.Types, lib.Type("Gone", sadl.TypeSpec{Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("at", false, sadl.TypeSpec{Type: "Timestamp"}), lib.Field("by", true, sadl.TypeSpec{Type: "Str"})}}))
		h.Exceptions = []*sadl.HttpExceptionSpec{{Type: "Point", Status: 404}, {Type: "Gone", Status: 410}}
		if v == 4 {
			h.Exceptions[0].Status = 400 + rt.Int32("estatus", 0, 199)
		}
	}
	s.Version = []string{"", "1.2"}[pick(4, "version", 2)]
	more := []string{"", "t", "t,u", "t,u,Vv"}[pick(0, "tags", 4)]
	if more != "" {
		h.Annotations = map[string]string{"x_tags": more}
	}
	s.Http = []*sadl.HttpDef{h, {Name: "other", Method: "GET", Path: "/other"}}
	ast, err := export(s)
	rt.Assert(err == nil, "the model is exported")
	if err != nil {
		return
	}
	name := "Do" + h.Name[2:]
	op := ast.GetShape(ns + "#" + name)
	rt.Assert(op != nil && op.Type == "operation", "an operation for the action")
	if op == nil {
		return
	}
	rt.Assert(op.Traits.GetString("smithy.api#documentation") == h.Comment, "comment of the action")
	tags, _ := op.Traits.Get("smithy.api#tags").([]string)
	rt.Assert((more == "") == (len(tags) == 0) && (more == "" || len(tags) == 1+strings.Count(more, ",") && tags[0] == "t" && (len(tags) < 2 || tags[1] == "u") && (len(tags) < 3 || tags[2] == "Vv")), "tags of the action")
	http := op.Traits.GetMap("smithy.api#http")
	rt.Assert(data.GetString(http, "method") == h.Method, "method")
	rt.Assert(data.GetString(http, "uri") == uri, "path with the base and without the query")
	rt.Assert(data.GetInt(http, "code") == code, "expected status")
	rt.Assert(op.Traits.GetBool("smithy.api#readonly") == (h.Method == "GET"), "GET is read only")
	rt.Assert(op.Traits.GetBool("smithy.api#idempotent") == (h.Method == "PUT" || h.Method == "DELETE"), "PUT and DELETE are idempotent")
	rt.Assert((op.Input != nil) == (len(h.Inputs) > 0) && (op.Output != nil) == (outs > 1), "input and output exactly when there are some")
	if op.Input != nil {
		params(ast, op.Input.Target, h.Inputs)
	}
	if op.Output != nil {
		params(ast, op.Output.Target, h.Expected.Outputs)
	}
	rt.Assert(len(op.Errors) == len(h.Exceptions), "an error for each exception")
	for i, e := range h.Exceptions {
		rt.Assert(op.Errors[i].Target == ns+"#"+e.Type, "type of the error")
		sh := ast.GetShape(op.Errors[i].Target)
		rt.Assert(data.AsInt(sh.Traits.Get("smithy.api#httpError")) == int(e.Status), "status of the error")
		category := "client"
		if rt.Fork(e.Status >= 500) {
			category = "server"
		}
		rt.Assert(sh.Traits.GetString("smithy.api#error") == category, "category of the error")
		keys := sh.Members.Keys()
		for _, k := range keys {
			rt.Assert(sh.Members.Get(k).Traits.GetBool("smithy.api#httpPayload") == (len(keys) == 1), "the only member of an error is its payload")
		}
	}
	sv := ast.GetShape(ns + "#Test")
	rt.Assert(sv != nil && sv.Type == "service", "the service")
	if sv != nil {
		v := s.Version
		if v == "" {
			v = "0.0"
		}
		rt.Assert(sv.Version == v, "version of the service")
		rt.Assert(len(sv.Operations) == 2 && sv.Operations[0].Target == ns+"#"+name && sv.Operations[1].Target == ns+"#Other", "the operations of the service")
	}
}

func params(ast *smithylib.AST, t string, ps []*sadl.HttpParamSpec) {
	sh := ast.GetShape(t)
	rt.Assert(sh != nil && sh.Type == "structure" && sh.Members.Length() == len(ps), "a structure of all parameters")
	if sh == nil {
		return
	}
	for i, p := range ps {
		m := member(sh, i, p.Name, p.Comment, p.Required)
		if m == nil {
			return
		}
		target(ast, m.Target, &p.TypeSpec)
		rt.Assert(m.Traits.GetBool("smithy.api#httpLabel") == p.Path, "in the path")
		rt.Assert(m.Traits.GetString("smithy.api#httpQuery") == p.Query, "in the query")
		rt.Assert(m.Traits.GetString("smithy.api#httpHeader") == p.Header, "in the header")
		rt.Assert(m.Traits.GetBool("smithy.api#httpPayload") == (!p.Path && p.Query == "" && p.Header == ""), "in the body")
	}
}

func V_operations() {
	op := &sadl.OperationDef{Name: "do" + lib.Word("name"), Comment: []string{"", "c"}[rt.Choice("comment", 2)]}
	ins, outs := rt.Choice("inputs", 3), rt.Choice("outputs", 3)
	for i := 0; i < ins; i++ {
		in := &sadl.OperationInput{}
		in.Name, in.TypeSpec, in.Required = []string{"a", "b"}[i], []sadl.TypeSpec{{Type: "Str"}, {Type: "Array", Items: "Point"}}[i], rt.Fork(rt.Bool("required"))
		in.Comment = []string{"", "first"}[rt.Choice("input comment", 2)]
		op.Inputs = append(op.Inputs, in)
	}
	for i := 0; i < outs; i++ {
		op.Outputs = append(op.Outputs, &sadl.OperationOutput{Name: []string{"a", "b"}[i], Comment: []string{"", "second"}[rt.Choice("output comment", 2)], TypeSpec: []sadl.TypeSpec{{Type: []string{"Int64", "String"}[rt.Choice("output type", 2)]}, {Type: "Struct", Fields: []*sadl.StructFieldDef{lib.Field("z", true, sadl.TypeSpec{Type: "Bool"})}}}[i]})
	}
	if rt.Choice("exceptions", 2) == 1 {
		op.Exceptions = []string{"Point"}
	}
	s := schema()
	s.Comment = "about"
	s.Operations = []*sadl.OperationDef{op}
	ast, err := export(s)
	rt.Assert(err == nil, "the model is exported")
	if err != nil {
		return
	}
	sh := ast.GetShape(ns + "#Do" + op.Name[2:])
	rt.Assert(sh != nil && sh.Type == "operation" && sh.Traits.GetString("smithy.api#documentation") == op.Comment && !sh.Traits.Has("smithy.api#http"), "an operation for the operation")
	if sh == nil {
		return
	}
	rt.Assert((sh.Input != nil) == (ins > 0) && (sh.Output != nil) == (outs > 0), "input and output exactly when there are some")
	if sh.Input != nil {
		st := ast.GetShape(sh.Input.Target)
		rt.Assert(st.Type == "structure" && st.Members.Length() == ins, "inputs")
		for i, p := range op.Inputs {
			if m := member(st, i, p.Name, p.Comment, p.Required); m != nil {
				target(ast, m.Target, &p.TypeSpec)
			}
		}
	}
	if sh.Output != nil {
		st := ast.GetShape(sh.Output.Target)
		rt.Assert(st.Type == "structure" && st.Members.Length() == outs, "outputs")
		for i, p := range op.Outputs {
			if m := member(st, i, p.Name, p.Comment, false); m != nil {
				target(ast, m.Target, &p.TypeSpec)
			}
		}
	}
	rt.Assert(len(sh.Errors) == len(op.Exceptions), "an error for each exception")
	for i, e := range op.Exceptions {
		rt.Assert(sh.Errors[i].Target == ns+"#"+e && ast.GetShape(ns+"#"+e).Traits.Has("smithy.api#error"), "the error")
	}
	sv := ast.GetShape(ns + "#Test")
	rt.Assert(sv != nil && sv.Traits.GetString("smithy.api#documentation") == "about" && len(sv.Operations) == 1, "the service")
}

// V_service: its name
func V_service() {
	s := schema(lib.Type("Test", sadl.TypeSpec{Type: "Bool"}))
	s.Name = []string{"test", "Other", ""}[rt.Choice("name", 3)]
	s.Http = []*sadl.HttpDef{{Name: "a", Method: "GET", Path: "/a"}}
	ast, err := export(s)
	rt.Assert(err == nil, "the model is exported")
	if err != nil {
		return
	}
	n := 0
	for _, k := range ast.Shapes.Keys() {
		if ast.GetShape(k).Type == "service" {
			n++
			rt.Assert(len(k) > len(ns)+1, "the service has a name")
		}
	}
	rt.Assert(n == 1 && ast.GetShape(ns+"#Test").Type == "boolean", "one service, in no other's place")
}

// V_options: the command's options, for what the model does not say; what one export is asked for is nothing to the next
func V_options() {
	s := schema()
	s.Name = rt.StrN("model name", 0, 1, "ab")
	s.Namespace = rt.StrN("model namespace", 0, 1, "mn")
	in := param("q", sadl.TypeSpec{Type: "String"})
	in.Query = "q"
	out := param("body", sadl.TypeSpec{Type: "Str"})
	s.Http = []*sadl.HttpDef{{Name: "act", Method: "GET", Path: "/a?q={q}", Inputs: []*sadl.HttpParamSpec{in}, Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{out}}}}
	m, err := sadl.NewModel(s)
	rt.Assert(err == nil, "the model is accepted")
	once := func(tag string, name, space string, inout int) {
		conf := sadl.NewData()
		if name != "" {
			conf.Put("name", name)
		}
		if space != "" {
			conf.Put("namespace", space)
		}
		if inout > 0 {
			conf.Put("useInputOutput", inout == 2)
		}
		if s.Name != "" {
			name = s.Name
		}
		name = sadl.Capitalize(name)
		if name == "" {
			name = "Service"
		}
		if s.Namespace != "" {
			space = s.Namespace
		}
		if space == "" {
			space = "example"
		}
		var err error
		o := rt.Output(func() { err = smithy.Export(m, "", conf, rt.Choice(tag+" ast", 2) == 1) })
		rt.Assert(err == nil, "the model is exported")
		var doc struct {
			Shapes map[string]struct {
				Type          string
				Input, Output struct{ Target string }
			}
		}
		rt.Assert(json.Unmarshal([]byte(o), &doc) == nil, "the model is written")
		rt.Assert(doc.Shapes[space+"#"+name].Type == "service", "the service has the name of the model, or else the one asked for, in the namespace of the model, or else the one asked for")
		suffix := []string{"Request", "Response"}
		if inout == 2 {
			suffix = []string{"Input", "Output"}
		}
		op := doc.Shapes[space+"#Act"]
		rt.Assert(op.Type == "operation" && op.Input.Target == space+"#Act"+suffix[0] && op.Output.Target == space+"#Act"+suffix[1], "the input and output are named as asked for")
		rt.Assert(m.Name == s.Name && m.Namespace == s.Namespace, "the model is as before")
	}
	once("first", rt.StrN("name", 0, 1, "cd"), rt.StrN("namespace", 0, 1, "no"), rt.Choice("input and output", 3))
	once("second", "", "", 0)
	rt.Reach("options")
}

func V_examples() {
	p := param("q", sadl.TypeSpec{Type: "String"})
	p.Query = "q"
	o := param("out", sadl.TypeSpec{Type: "Point"})
	s := schema()
	s.Http = []*sadl.HttpDef{{Name: "get", Method: "GET", Path: "/a?q={q}", Inputs: []*sadl.HttpParamSpec{p},
		Expected: &sadl.HttpExpectedSpec{Status: 200, Outputs: []*sadl.HttpParamSpec{o}}, Exceptions: []*sadl.HttpExceptionSpec{{Type: "Point", Status: 404}}}}
	n1, n2 := rt.StrN("n1", 1, 1, "ab"), rt.StrN("n2", 1, 1, "ab")
	same := rt.Fork(n1 == n2)
	rt.Assume(!same)
	var v interface{} = map[string]interface{}{"q": rt.StrN("value", 0, 2, "ab")}
	if rt.Choice("plain", 2) == 1 {
		v = "just a text"
	}
	s.Examples = []*sadl.ExampleDef{{Target: "GetRequest", Name: n1, Comment: "c", Example: v}, {Target: "GetRequest", Name: n2, Example: v}}
	kind := rt.Choice("answer", 3)
	switch kind {
	case 1:
		s.Examples = append(s.Examples, &sadl.ExampleDef{Target: "GetResponse", Name: n2, Example: map[string]interface{}{"out": "x"}})
	case 2:
		s.Examples = append(s.Examples, &sadl.ExampleDef{Target: "Point", Name: n2, Example: map[string]interface{}{"x": "y"}})
	}
	rt.MapOrder(true)
	ast, err := export(s)
	rt.MapOrder(false)
	rt.Assert(err == nil, "the model is exported")
	if err != nil {
		return
	}
	exs, _ := ast.GetShape(ns + "#Get").Traits.Get("smithy.api#examples").([]map[string]interface{})
	rt.Assert(len(exs) == 2, "every request example")
	if len(exs) != 2 {
		return
	}
	rt.Assert(exs[0]["title"] == n1 && exs[1]["title"] == n2, "examples in order")
	rt.Assert(exs[0]["documentation"] == "c" && exs[1]["documentation"] == nil, "comment of the example")
	for _, e := range exs {
		if w, ok := v.(map[string]interface{}); ok {
			g, ok := e["input"].(map[string]interface{})
			rt.Assert(ok && len(g) == 1 && g["q"] == w["q"], "value of the example")
		} else {
			rt.Assert(e["input"] == v, "value of the example")
		}
	}
	out, isOut := exs[1]["output"].(map[string]interface{})
	rt.Assert(isOut == (kind == 1) && (!isOut || out["out"] == "x"), "response of the example")
	exc, isExc := exs[1]["error"].(map[string]interface{})
	rt.Assert(isExc == (kind == 2), "error of the example")
	if isExc {
		c, ok := exc["content"].(map[string]interface{})
		rt.Assert(exc["shapeId"] == ns+"#Point" && ok && c["x"] == "y", "error of the example")
	}
	rt.Assert(exs[0]["output"] == nil && exs[0]["error"] == nil, "an answer where there is one")
}
