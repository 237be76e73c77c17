// Package lib holds what several harnesses share: builders, and a reference validator that is written
// independently of the implementation.
package lib

import (
	sadl "github.com/boynton/sadl"
	rt "github.com/boynton/sadl/zzrt"
)

func I64(n int64) *int64 { return &n }

func Dec(s string) *sadl.Decimal {
	d, err := sadl.ParseDecimal(s)
	if err != nil {
		panic("lib.Dec " + s)
	}
	return d
}

func Type(name string, ts sadl.TypeSpec) *sadl.TypeDef {
	return &sadl.TypeDef{Name: name, TypeSpec: ts}
}

func Field(name string, required bool, ts sadl.TypeSpec) *sadl.StructFieldDef {
	return &sadl.StructFieldDef{Name: name, Required: required, TypeSpec: ts}
}

func Elements(names ...string) []*sadl.EnumElementDef {
	var r []*sadl.EnumElementDef
	for _, n := range names {
		r = append(r, &sadl.EnumElementDef{Symbol: n})
	}
	return r
}

func Model(types ...*sadl.TypeDef) *sadl.Model {
	m, err := sadl.NewModel(&sadl.Schema{Name: "test", Types: types})
	rt.Assert(err == nil, "the model is accepted")
	rt.Assume(err == nil)
	return m
}

func text(v interface{}) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case *string:
		return *s, true
	}
	return "", false
}

func find(types []*sadl.TypeDef, name string) *sadl.TypeSpec {
	for _, td := range types {
		if td.Name == name {
			return &td.TypeSpec
		}
	}
	for _, b := range []string{"Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Any", "Struct"} {
		if b == name {
			return &sadl.TypeSpec{Type: name}
		}
	}
	return nil
}

// IntLimits are the intrinsic limits of the integer types.
var IntLimits = map[string][2]string{
	"Int8":  {"-128", "127"},
	"Int16": {"-32768", "32767"},
	"Int32": {"-2147483648", "2147483647"},
	"Int64": {"-9223372036854775808", "9223372036854775807"},
}

// Valid is the reference: does v conform to ts? Patterns are not handled here.
func Valid(types []*sadl.TypeDef, ts *sadl.TypeSpec, v interface{}) bool {
	switch ts.Type {
	case "Any", "Bytes":
		return true
	case "Bool":
		switch v.(type) {
		case bool, *bool:
			return true
		}
		return false
	case "String":
		s, ok := text(v)
		if !ok {
			return false
		}
		n := int64(len(s))
		if ts.MinSize != nil && n < *ts.MinSize {
			return false
		}
		if ts.MaxSize != nil && n > *ts.MaxSize {
			return false
		}
		if ts.Values != nil {
			in := false
			for _, x := range ts.Values {
				in = rt.Or(in, x == s)
			}
			return in
		}
		return true
	case "Enum":
		s, ok := text(v)
		if !ok {
			return false
		}
		in := false
		for _, e := range ts.Elements {
			in = rt.Or(in, e.Symbol == s)
		}
		return in
	case "UUID":
		s, ok := text(v)
		if !ok || len(s) != 36 {
			return false
		}
		r := true
		for i := 0; i < 36; i++ {
			if i == 8 || i == 13 || i == 18 || i == 23 {
				r = rt.And(r, s[i] == '-')
			} else {
				r = rt.And(r, rt.In(s[i], "0123456789abcdefABCDEF"))
			}
		}
		return r
	case "Timestamp":
		switch v.(type) {
		case sadl.Timestamp, *sadl.Timestamp:
			return true
		}
		s, ok := text(v)
		if !ok {
			return false
		}
		_, err := sadl.ParseTimestamp(s)
		return err == nil
	case "UnitValue":
		s, ok := text(v)
		if !ok {
			return false
		}
		for i := 0; i < len(s); i++ {
			if s[i] == ' ' {
				d, err := sadl.ParseDecimal(s[:i])
				if err != nil {
					return false
				}
				vt, ut := find(types, ts.Value), find(types, ts.Unit)
				return vt != nil && ut != nil && Valid(types, vt, d) && Valid(types, ut, s[i+1:])
			}
		}
		return false
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
		d, ok := v.(*sadl.Decimal)
		if !ok {
			return false
		}
		lo, hi := ts.Min, ts.Max
		if l, ok := IntLimits[ts.Type]; ok {
			if !d.AsBigFloat().IsInt() {
				return false
			}
			if lo == nil {
				lo = Dec(l[0])
			}
			if hi == nil {
				hi = Dec(l[1])
			}
		}
		if lo != nil && d.AsBigFloat().Cmp(lo.AsBigFloat()) < 0 {
			return false
		}
		if hi != nil && d.AsBigFloat().Cmp(hi.AsBigFloat()) > 0 {
			return false
		}
		return true
	case "Array":
		a, ok := v.([]interface{})
		if !ok || !sized(ts, len(a)) {
			return false
		}
		it := find(types, ts.Items)
		if it == nil {
			return false
		}
		for _, x := range a {
			if !Valid(types, it, x) {
				return false
			}
		}
		return true
	case "Map":
		m, ok := v.(map[string]interface{})
		if !ok || !sized(ts, len(m)) {
			return false
		}
		it, kt := find(types, ts.Items), find(types, ts.Keys)
		if it == nil || kt == nil {
			return false
		}
		for k, x := range m {
			if !Valid(types, kt, k) || !Valid(types, it, x) {
				return false
			}
		}
		return true
	case "Struct":
		m, ok := v.(map[string]interface{})
		if !ok {
			return false
		}
		n := 0
		for _, f := range ts.Fields {
			x, has := m[f.Name]
			if has {
				n++
				if !Valid(types, &f.TypeSpec, x) {
					return false
				}
			} else if f.Required {
				return false
			}
		}
		return n == len(m)
	case "Union":
		m, ok := v.(map[string]interface{})
		if !ok {
			return false
		}
		n := 0
		for _, f := range ts.Variants {
			x, has := m[f.Name]
			if has {
				n++
				if !Valid(types, &f.TypeSpec, x) {
					return false
				}
			}
		}
		return n == len(m)
	}
	t := find(types, ts.Type)
	return t != nil && Valid(types, t, v)
}

func sized(ts *sadl.TypeSpec, n int) bool {
	if ts.MinSize != nil && int64(n) < *ts.MinSize {
		return false
	}
	return ts.MaxSize == nil || int64(n) <= *ts.MaxSize
}
