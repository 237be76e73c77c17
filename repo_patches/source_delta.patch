From c9242953404b0e2a914362d82bd6799ccded6f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:44 +0000
Subject: [PATCH 001/192] fix: print timestamps in UTC with a four digit year

The text ends in Z whatever the zone of the instant, and years before 1000
were printed without leading zeros, which ParseTimestamp then rejects.
---
 timestamp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timestamp.go b/timestamp.go
index 6eecf68..ce42ba4 100644
--- a/timestamp.go
+++ b/timestamp.go
@@ -11,13 +11,14 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
-	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
+	t := ts.UTC()
+	return fmt.Sprintf(RFC3339Milli, t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/1000000)
 }
 
 func (ts Timestamp) MarshalJSON() ([]byte, error) {
-- 
2.43.0


From ebd9462648f71ded44e01d1ac103c056351d6029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:44 +0000
Subject: [PATCH 002/192] fix: enforce the intrinsic range of the integer types

The limits are untyped constants, so they reach DecimalValue as int, which it
did not handle: no limit was applied and 300 validated as an Int8.
---
 decimal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decimal.go b/decimal.go
index 00c00dd..91943aa 100644
--- a/decimal.go
+++ b/decimal.go
@@ -72,6 +72,9 @@ func DecimalValue(val *Decimal, defval interface{}) *Decimal {
 		switch n := defval.(type) {
 		case *Decimal:
 			return n
+		case int:
+			d, _ := ParseDecimal(fmt.Sprint(n))
+			return d
 		case int64:
 			d, _ := ParseDecimal(fmt.Sprint(n))
 			return d
-- 
2.43.0


From d6404301a4540b526383b0f76be72da92f6d6efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:44 +0000
Subject: [PATCH 003/192] fix: a number with a fraction is not a valid integer

---
 model.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model.go b/model.go
index 01bb72a..a659bdc 100644
--- a/model.go
+++ b/model.go
@@ -299,6 +299,12 @@ func (model *Model) ValidateNumber(context string, td *TypeSpec, value interface
 				maxval = DecimalValue(td.Max, math.MaxInt8)
 			}
 			nval := n.AsBigFloat()
+			switch td.Type {
+			case "Int64", "Int32", "Int16", "Int8":
+				if !nval.IsInt() {
+					return fmt.Errorf("%s: Not a valid %s: %v", context, td.Type, n)
+				}
+			}
 			if minval != nil {
 				nmin := minval.AsBigFloat()
 				if nval.Cmp(nmin) < 0 {
-- 
2.43.0


From b3accdabe432c5fa74e03a0ba4054b9cde7251f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:44 +0000
Subject: [PATCH 004/192] fix: validate unit values with short amounts, and
 given as plain strings

"5 USD" was rejected because the amount had to be at least three characters.
---
 model.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/model.go b/model.go
index a659bdc..ff834dd 100644
--- a/model.go
+++ b/model.go
@@ -235,22 +235,25 @@ func (model *Model) ValidateUUID(context string, td *TypeSpec, value interface{}
 }
 
 func (model *Model) ValidateUnitValue(context string, td *TypeSpec, value interface{}) error {
+	var s string
 	switch sp := value.(type) {
 	case *string:
-		s := *sp
-		n := strings.Index(s, " ")
-		if n >= 3 {
-			val := s[:n]
-			unit := s[n+1:]
-			nval, err := ParseDecimal(val)
+		s = *sp
+	case string:
+		s = sp
+	}
+	n := strings.Index(s, " ")
+	if n > 0 {
+		val := s[:n]
+		unit := s[n+1:]
+		nval, err := ParseDecimal(val)
+		if err == nil {
+			err = model.Validate(context+".value", td.Value, nval)
 			if err == nil {
-				err = model.Validate(context+".value", td.Value, nval)
-				if err == nil {
-					err = model.Validate(context+".unit", td.Unit, unit)
-				}
+				err = model.Validate(context+".unit", td.Unit, unit)
 			}
-			return err
 		}
+		return err
 	}
 	return fmt.Errorf("%s: Not a valid UnitValue: %v", context, Pretty(value))
 }
-- 
2.43.0


From b137b4990313efca34b2a45ebca8a3c5bea65c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:44 +0000
Subject: [PATCH 005/192] fix: validate timestamps given as plain strings or
 values

---
 model.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/model.go b/model.go
index ff834dd..ae4958b 100644
--- a/model.go
+++ b/model.go
@@ -465,12 +465,15 @@ func (model *Model) ValidateString(context string, td *TypeSpec, val interface{}
 }
 
 func (model *Model) ValidateTimestamp(tname string, td *TypeSpec, val interface{}) error {
-	if _, ok := val.(*Timestamp); ok {
+	switch t := val.(type) {
+	case *Timestamp, Timestamp:
 		return nil
-	}
-	if s, ok := val.(*string); ok {
-		_, err := ParseTimestamp(*s)
-		if err == nil {
+	case *string:
+		if _, err := ParseTimestamp(*t); err == nil {
+			return nil
+		}
+	case string:
+		if _, err := ParseTimestamp(t); err == nil {
 			return nil
 		}
 	}
-- 
2.43.0


From 8a911ee0ca6ac2abcc00b133397eb9622a508dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:14 +0000
Subject: [PATCH 006/192] fix: validate union values instead of recursing
 forever

"Union" is not an alias: looking it up as one yields the base type of the same
name, so validation never returned and the stack overflowed.
---
 model.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/model.go b/model.go
index ae4958b..3dece93 100644
--- a/model.go
+++ b/model.go
@@ -190,6 +190,8 @@ func (model *Model) ValidateAgainstTypeSpec(context string, td *TypeSpec, value
 		return model.ValidateEnum(context, td, value)
 	case "UnitValue":
 		return model.ValidateUnitValue(context, td, value)
+	case "Union":
+		return model.ValidateUnion(context, td, value)
 	case "UUID":
 		return model.ValidateUUID(context, td, value)
 	case "Bytes":
@@ -362,6 +364,27 @@ func (model *Model) ValidateStruct(context string, td *TypeSpec, value interface
 	return nil
 }
 
+func (model *Model) ValidateUnion(context string, td *TypeSpec, value interface{}) error {
+	m, ok := value.(map[string]interface{})
+	if !ok {
+		return fmt.Errorf("%s: Not a Union: %v", context, Pretty(value))
+	}
+	remaining := len(m)
+	for _, variant := range td.Variants {
+		if v, ok := m[variant.Name]; ok {
+			err := model.ValidateAgainstTypeSpec(context+"."+variant.Name, &variant.TypeSpec, v)
+			if err != nil {
+				return err
+			}
+			remaining--
+		}
+	}
+	if remaining > 0 {
+		return fmt.Errorf("%s: Undefined variant in Union: %v", context, Pretty(value))
+	}
+	return nil
+}
+
 func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case []interface{}:
-- 
2.43.0


From dec9138f81254f82cb8c69fb7b39c6f0af625dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:43 +0000
Subject: [PATCH 007/192] fix: compare the constraints of types by value

Limits were compared as pointers, the maximum size of the first type with
itself, and of structs only the number of fields; an undefined type crashed.
---
 model.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/model.go b/model.go
index 3dece93..fc5dd48 100644
--- a/model.go
+++ b/model.go
@@ -64,6 +64,9 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	}
 	td1 := model.FindType(tname1)
 	td2 := model.FindType(tname2)
+	if td1 == nil || td2 == nil {
+		return false
+	}
 	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
 }
 
@@ -74,7 +77,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	//TODO: check annotations
 	switch ts1.Type {
 	case "String":
-		if ts1.Pattern != ts2.Pattern || ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize || len(ts1.Values) != len(ts2.Values) {
+		if ts1.Pattern != ts2.Pattern || !equalSizes(ts1.MinSize, ts2.MinSize) || !equalSizes(ts1.MaxSize, ts2.MaxSize) || len(ts1.Values) != len(ts2.Values) {
 			return false
 		}
 		if ts1.Reference != ts2.Reference {
@@ -99,8 +102,14 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		if len(ts1.Fields) != len(ts2.Fields) {
 			return false
 		}
+		for i, f1 := range ts1.Fields {
+			f2 := ts2.Fields[i]
+			if f1.Name != f2.Name || f1.Required != f2.Required || !model.EquivalentTypes(&f1.TypeSpec, &f2.TypeSpec) {
+				return false
+			}
+		}
 	case "Bytes":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equalSizes(ts1.MinSize, ts2.MinSize) || !equalSizes(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 	case "UnitValue":
@@ -111,7 +120,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Array", "Map":
-		if ts1.MinSize != ts2.MinSize || ts1.MaxSize != ts1.MaxSize {
+		if !equalSizes(ts1.MinSize, ts2.MinSize) || !equalSizes(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
 		if !model.EquivalentTypesByName(ts1.Items, ts2.Items) {
@@ -121,7 +130,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-		if ts1.Min != ts2.Min || ts1.Max != ts2.Max {
+		if !equalDecimals(ts1.Min, ts2.Min) || !equalDecimals(ts1.Max, ts2.Max) {
 			return false
 		}
 	case "Enum":
@@ -156,6 +165,20 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 	return true
 }
 
+func equalSizes(s1, s2 *int64) bool {
+	if s1 == nil || s2 == nil {
+		return s1 == s2
+	}
+	return *s1 == *s2
+}
+
+func equalDecimals(d1, d2 *Decimal) bool {
+	if d1 == nil || d2 == nil {
+		return d1 == d2
+	}
+	return d1.AsBigFloat().Cmp(d2.AsBigFloat()) == 0
+}
+
 func (model *Model) Validate(context string, typename string, value interface{}) error {
 	td := model.FindType(typename)
 	if td == nil {
-- 
2.43.0


From 43ef5e8f51342480389d23a899c279e938f3d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:43 +0000
Subject: [PATCH 008/192] fix: lift each inline enum into one type definition

A second struct field lifting to the same name, or one lifting to an equivalent
type that already exists, added a duplicate definition, and two different
enums lifting to the same name were not noticed.
---
 model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index fc5dd48..594374d 100644
--- a/model.go
+++ b/model.go
@@ -675,18 +675,19 @@ func (model *Model) ConvertInlineEnums() error {
 							//Alternatively, could prefix the struct type name to the new type `td.Name + tname` to make it unique. Steill not foolproof.
 							return fmt.Errorf("cannot refactor, duplicate type names for non-equivalent types: %s and %s\n", Pretty(prev), Pretty(fdef))
 						}
+					} else {
+						tds = append(tds, ntd)
+						model.typeIndex[tname] = ntd
 					}
 					var blank TypeSpec
 					fdef.TypeSpec = blank
 					fdef.Type = tname
-					tds = append(tds, ntd)
 				}
 			}
 		}
 	}
 	for _, td := range tds {
 		model.Types = append(model.Types, td)
-		model.typeIndex[td.Name] = td
 	}
 	return nil
 }
-- 
2.43.0


From 978d6a31c33d57a509c01421abeffc558afe55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:43 +0000
Subject: [PATCH 009/192] fix: a missing key in a configuration path is not
 skipped

Get("a", "b") returned the top level value of b when there was no a.
---
 data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.go b/data.go
index b72f5ad..c0aa172 100644
--- a/data.go
+++ b/data.go
@@ -112,6 +112,8 @@ func (data *Data) get(keys []string) interface{} {
 					} else {
 						return v
 					}
+				} else {
+					return nil
 				}
 			}
 		}
-- 
2.43.0


From ede34be946bce850ed0a6f7c019c957eb2c1a699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:18 +0000
Subject: [PATCH 010/192] fix: escape the unit when encoding a unit value as
 JSON

---
 unitvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unitvalue.go b/unitvalue.go
index e630886..15be343 100644
--- a/unitvalue.go
+++ b/unitvalue.go
@@ -40,7 +40,7 @@ func NewUnitValue(value float64, unit string) *UnitValue {
 }
 
 func (q *UnitValue) MarshalJSON() ([]byte, error) {
-	return []byte("\"" + q.String() + "\""), nil
+	return json.Marshal(q.String())
 }
 
 func (q *UnitValue) UnmarshalJSON(b []byte) error {
-- 
2.43.0


From 8af62afd1a092a67970a89e469ffc506d737cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:18 +0000
Subject: [PATCH 011/192] fix: report a failure to write a generated file

The content is buffered, so a write error surfaces in Flush.
---
 generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator.go b/generator.go
index 92d1311..f1d4a59 100644
--- a/generator.go
+++ b/generator.go
@@ -75,7 +75,9 @@ func (gen *Generator) WriteFile(path string, content string) {
 	defer f.Close()
 	writer := bufio.NewWriter(f)
 	_, gen.Err = writer.WriteString(content)
-	writer.Flush()
+	if gen.Err == nil {
+		gen.Err = writer.Flush()
+	}
 }
 
 func (gen *Generator) EmitTemplate(name string, tmplSource string, data interface{}, funcMap template.FuncMap) {
-- 
2.43.0


From 5dc20c8b8d83df7f75870595ef261b09bb8cdd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:05 +0000
Subject: [PATCH 012/192] fix: validate the keys of a map against its key type

---
 model.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/model.go b/model.go
index 594374d..3c043eb 100644
--- a/model.go
+++ b/model.go
@@ -442,6 +442,14 @@ func (model *Model) ValidateArray(context string, td *TypeSpec, value interface{
 func (model *Model) ValidateMap(context string, td *TypeSpec, value interface{}) error {
 	switch a := value.(type) {
 	case map[string]interface{}:
+		if td.Keys != "" && td.Keys != "Any" {
+			for k, _ := range a {
+				err := model.Validate(fmt.Sprintf("%s key %q", context, k), td.Keys, k)
+				if err != nil {
+					return err
+				}
+			}
+		}
 		if td.Items != "Any" {
 			tdi := model.FindType(td.Items)
 			if tdi == nil {
-- 
2.43.0


From b7414274d1d4dcddece23628bf472421b528bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:21 +0000
Subject: [PATCH 013/192] fix: a UUID consists of hexadecimal digits

---
 uuid.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/uuid.go b/uuid.go
index b509003..6a9ebf9 100644
--- a/uuid.go
+++ b/uuid.go
@@ -26,8 +26,18 @@ func ParseUUID(text string) UUID {
 	if len(text) != Length {
 		return UUID("")
 	}
-	if text[8] != '-' || text[13] != '-' || text[18] != '-' || text[23] != '-' {
-		return ""
+	for i := 0; i < Length; i++ {
+		c := text[i]
+		switch i {
+		case 8, 13, 18, 23:
+			if c != '-' {
+				return ""
+			}
+		default:
+			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
+				return ""
+			}
+		}
 	}
 	return UUID(text)
 }
-- 
2.43.0


From 4c6bf7f38fcae23cf866dc5bd16d040a9e5f00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:07 +0000
Subject: [PATCH 014/192] fix: a declared pattern applies to a string with
 declared values too

---
 model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 3c043eb..4987f35 100644
--- a/model.go
+++ b/model.go
@@ -498,12 +498,16 @@ func (model *Model) ValidateString(context string, td *TypeSpec, val interface{}
 		}
 	}
 	if td.Values != nil {
+		found := false
 		for _, match := range td.Values {
 			if s == match {
-				return nil
+				found = true
+				break
 			}
 		}
-		return model.fail(td, val, fmt.Sprintf("'values=%v' constraint failed", td.Values))
+		if !found {
+			return model.fail(td, val, fmt.Sprintf("'values=%v' constraint failed", td.Values))
+		}
 	}
 	if td.Pattern != "" {
 		pat := td.Pattern
-- 
2.43.0


From 4974abbbacb319cb1f7a8660ca5c95adfab81ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:07 +0000
Subject: [PATCH 015/192] fix: comparing recursive types terminates

---
 model.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/model.go b/model.go
index 4987f35..baa8f53 100644
--- a/model.go
+++ b/model.go
@@ -59,6 +59,15 @@ func (model *Model) FindHttp(name string) *HttpDef {
 }
 
 func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
+	return model.equivalentTypesByName(tname1, tname2, make(map[string]bool, 0))
+}
+
+func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
+	return model.equivalentTypes(ts1, ts2, make(map[string]bool, 0))
+}
+
+// the pairs of type names already being compared are assumed to be equivalent, so that recursive types terminate
+func (model *Model) equivalentTypesByName(tname1, tname2 string, pairs map[string]bool) bool {
 	if tname1 == tname2 {
 		return true
 	}
@@ -67,10 +76,15 @@ func (model *Model) EquivalentTypesByName(tname1, tname2 string) bool {
 	if td1 == nil || td2 == nil {
 		return false
 	}
-	return model.EquivalentTypes(&td1.TypeSpec, &td2.TypeSpec)
+	pair := tname1 + " " + tname2
+	if pairs[pair] {
+		return true
+	}
+	pairs[pair] = true
+	return model.equivalentTypes(&td1.TypeSpec, &td2.TypeSpec, pairs)
 }
 
-func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
+func (model *Model) equivalentTypes(ts1, ts2 *TypeSpec, pairs map[string]bool) bool {
 	if ts1.Type != ts2.Type {
 		return false
 	}
@@ -104,7 +118,7 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 		}
 		for i, f1 := range ts1.Fields {
 			f2 := ts2.Fields[i]
-			if f1.Name != f2.Name || f1.Required != f2.Required || !model.EquivalentTypes(&f1.TypeSpec, &f2.TypeSpec) {
+			if f1.Name != f2.Name || f1.Required != f2.Required || !model.equivalentTypes(&f1.TypeSpec, &f2.TypeSpec, pairs) {
 				return false
 			}
 		}
@@ -113,20 +127,20 @@ func (model *Model) EquivalentTypes(ts1, ts2 *TypeSpec) bool {
 			return false
 		}
 	case "UnitValue":
-		if !model.EquivalentTypesByName(ts1.Unit, ts2.Unit) {
+		if !model.equivalentTypesByName(ts1.Unit, ts2.Unit, pairs) {
 			return false
 		}
-		if !model.EquivalentTypesByName(ts1.Value, ts2.Value) {
+		if !model.equivalentTypesByName(ts1.Value, ts2.Value, pairs) {
 			return false
 		}
 	case "Array", "Map":
 		if !equalSizes(ts1.MinSize, ts2.MinSize) || !equalSizes(ts1.MaxSize, ts2.MaxSize) {
 			return false
 		}
-		if !model.EquivalentTypesByName(ts1.Items, ts2.Items) {
+		if !model.equivalentTypesByName(ts1.Items, ts2.Items, pairs) {
 			return false
 		}
-		if !model.EquivalentTypesByName(ts1.Keys, ts2.Keys) {
+		if !model.equivalentTypesByName(ts1.Keys, ts2.Keys, pairs) {
 			return false
 		}
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
-- 
2.43.0


From 1ba30f5f9b80178be0a9fb3111f620dd1b4dd140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:29 +0000
Subject: [PATCH 016/192] fix: unions with different variants are not
 equivalent

---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index baa8f53..597fee7 100644
--- a/model.go
+++ b/model.go
@@ -166,12 +166,12 @@ func (model *Model) equivalentTypes(ts1, ts2 *TypeSpec, pairs map[string]bool) b
 		if len(ts1.Variants) != len(ts2.Variants) {
 			return false
 		}
-		m := make(map[string]bool, 0)
+		m := make(map[string]*UnionVariantDef, 0)
 		for _, v := range ts1.Variants {
-			m[v.Type] = true
+			m[v.Name] = v
 		}
 		for _, v := range ts2.Variants {
-			if _, ok := m[v.Type]; !ok {
+			if v1, ok := m[v.Name]; !ok || !model.equivalentTypes(&v1.TypeSpec, &v.TypeSpec, pairs) {
 				return false
 			}
 		}
-- 
2.43.0


From 9cefa59ec10bd98ac775991f13b7a277d9cee46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:30 +0000
Subject: [PATCH 017/192] fix: an example of an output of an action that
 declares none is an error

---
 model.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/model.go b/model.go
index 597fee7..4f1ab62 100644
--- a/model.go
+++ b/model.go
@@ -633,11 +633,13 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 				if len(lst) > 0 {
 					var tmp *TypeSpec
 					fname := lst[0]
-					for _, out := range h.Expected.Outputs {
-						if out.Name == fname {
-							lst = lst[1:]
-							tmp = &out.TypeSpec
-							break
+					if h.Expected != nil {
+						for _, out := range h.Expected.Outputs {
+							if out.Name == fname {
+								lst = lst[1:]
+								tmp = &out.TypeSpec
+								break
+							}
 						}
 					}
 					if tmp == nil {
-- 
2.43.0


From 65303ee8c98a9c7ccb0115a9c30b4afdfa713d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:53 +0000
Subject: [PATCH 018/192] fix: openapi export panicked for an Array of Float64
 items

---
 openapi/export_openapi.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index aa4b750..25351b5 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -555,9 +555,6 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return sch, nil
 	case "Int32", "Int16", "Int8", "Int64", "Float32", "Float64", "Decimal":
-		if td.Type == "Float64" && name != "" {
-			panic("here? " + name + " -> " + sadl.Pretty(td))
-		}
 		stype, sformat, scomment := oasNumericEquivalent(td.Type)
 		sch := &Schema{
 			Type:        stype,
-- 
2.43.0


From 908b370c6d94f4c43155ebb300ab89ee5ae8629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:54 +0000
Subject: [PATCH 019/192] fix: openapi export looked at only one method per
 path when attaching examples

---
 openapi/export_openapi.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 25351b5..dc3e9c2 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -346,24 +346,18 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
-		var op *Operation
-		if pathItem.Get != nil {
-			op = pathItem.Get
-		} else if pathItem.Put != nil {
-			op = pathItem.Put
-		} else if pathItem.Delete != nil {
-			op = pathItem.Delete
-		} else if pathItem.Post != nil {
-			op = pathItem.Post
-		} else if pathItem.Head != nil {
-			op = pathItem.Head
-		} else if pathItem.Patch != nil {
-			op = pathItem.Patch
-		} else {
-			panic("fix me")
-		}
-		if op.OperationId == opId {
-			return op
+		for _, op := range []*Operation{
+			pathItem.Get,
+			pathItem.Put,
+			pathItem.Delete,
+			pathItem.Post,
+			pathItem.Head,
+			pathItem.Patch,
+			pathItem.Options,
+		} {
+			if op != nil && op.OperationId == opId {
+				return op
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From d27488af9b421b8c7ae8f5a7a403154c1f906e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:55 +0000
Subject: [PATCH 020/192] fix: openapi export dropped PATCH, HEAD and OPTIONS
 actions

---
 openapi/export_openapi.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index dc3e9c2..e17f713 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -136,6 +136,21 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
 			}
 			pi.Post = op
+		case "PATCH":
+			if pi.Patch != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Patch = op
+		case "HEAD":
+			if pi.Head != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Head = op
+		case "OPTIONS":
+			if pi.Options != nil {
+				return nil, fmt.Errorf("Duplicate HTTP Method spec (%s %s)", hdef.Method, p)
+			}
+			pi.Options = op
 		}
 		for _, in := range hdef.Inputs {
 			param := &Parameter{
-- 
2.43.0


From 8e99284ee0ec39be6866bde5935b9cb0353fdf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:45 +0000
Subject: [PATCH 021/192] fix: openapi export attached request and response
 examples to the wrong place, or panicked, when the member is not named as on
 the wire

---
 openapi/export_openapi.go | 118 +++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 58 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index e17f713..6d670a4 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -276,34 +276,23 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			//todo: walk the compound name, install at the element if supported.
 			if strings.HasSuffix(ed.Target, "Request") {
 				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-7])
+				hact := model.FindHttp(hdefName)
 				op := gen.FindOperation(oas, hdefName)
-				if op != nil {
-					for k, v := range ed.Example.(map[string]interface{}) {
-						if k == "body" {
-							tmp := op.RequestBody.Content["application/json"]
-							if ed.Name == "" {
-								tmp.Example = v
-							} else {
-								if tmp.Examples == nil {
-									tmp.Examples = make(map[string]*Example, 0)
-								}
-								tmp.Examples[ed.Name] = &Example{
-									Value: v,
-								}
+				if hact != nil && op != nil {
+					for k, v := range exampleMembers(ed) {
+						for _, in := range hact.Inputs {
+							if in.Name != k {
+								continue
+							}
+							if !in.Path && in.Query == "" && in.Header == "" {
+								setMediaExample(op.RequestBody.Content["application/json"], ed.Name, v)
+								continue
 							}
-						} else {
 							for _, param := range op.Parameters {
-								if param.Name == k {
-									if ed.Name == "" {
-										param.Example = v
-									} else {
-										if param.Examples == nil {
-											param.Examples = make(map[string]*Example, 0)
-										}
-										param.Examples[ed.Name] = &Example{
-											Value: v,
-										}
-									}
+								if (in.Path && param.In == "path" && param.Name == in.Name) ||
+									(in.Query != "" && param.In == "query" && param.Name == in.Query) ||
+									(in.Header != "" && param.In == "header" && param.Name == in.Header) {
+									setParameterExample(param, ed.Name, v)
 								}
 							}
 						}
@@ -311,45 +300,24 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 				}
 			} else if strings.HasSuffix(ed.Target, "Response") {
 				hdefName := sadl.Uncapitalize(ed.Target[:len(ed.Target)-8])
+				hact := model.FindHttp(hdefName)
 				op := gen.FindOperation(oas, hdefName)
-				if op != nil {
-					for k, v := range ed.Example.(map[string]interface{}) {
-						if k == "body" {
-							hact := model.FindHttp(hdefName)
-							//FIXME: somehow the example name must include the status to use here
-							//FIXME: currently the parser only handles Request and Response, not Exceptxxx
-							sstatus := fmt.Sprintf("%v", hact.Expected.Status)
-							tmp := op.Responses[sstatus].Content["application/json"]
-							if ed.Name == "" {
-								tmp.Example = v
-							} else {
-								if tmp.Examples == nil {
-									tmp.Examples = make(map[string]*Example, 0)
-								}
-								tmp.Examples[ed.Name] = &Example{
-									Value: v,
-								}
-							}
-
-						} else {
-							for _, param := range op.Parameters {
-								if param.Name == k {
-									if ed.Name == "" {
-										param.Example = v
-									} else {
-										if param.Examples == nil {
-											param.Examples = make(map[string]*Example, 0)
-										}
-										param.Examples[ed.Name] = &Example{
-											Value: v,
-										}
-									}
+				if hact != nil && op != nil {
+					if hact.Expected != nil {
+						//FIXME: somehow the example name must include the status to use here
+						//FIXME: currently the parser only handles Request and Response, not Exceptxxx
+						sstatus := fmt.Sprintf("%v", hact.Expected.Status)
+						for k, v := range exampleMembers(ed) {
+							for _, out := range hact.Expected.Outputs {
+								//note: a Header object has no example here, only the body does
+								if out.Name == k && out.Header == "" {
+									setMediaExample(op.Responses[sstatus].Content["application/json"], ed.Name, v)
 								}
 							}
 						}
 					}
 				} else {
-					panic("no")
+					fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
 				}
 			} else {
 				fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
@@ -359,6 +327,40 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 	return oas, nil
 }
 
+func exampleMembers(ed *sadl.ExampleDef) map[string]interface{} {
+	m, ok := ed.Example.(map[string]interface{})
+	if !ok {
+		fmt.Fprintf(os.Stderr, "[warning: example not exported for %q\n", ed.Target)
+	}
+	return m
+}
+
+func setMediaExample(media *MediaType, name string, value interface{}) {
+	if name == "" {
+		media.Example = value
+	} else {
+		if media.Examples == nil {
+			media.Examples = make(map[string]*Example, 0)
+		}
+		media.Examples[name] = &Example{
+			Value: value,
+		}
+	}
+}
+
+func setParameterExample(param *Parameter, name string, value interface{}) {
+	if name == "" {
+		param.Example = value
+	} else {
+		if param.Examples == nil {
+			param.Examples = make(map[string]*Example, 0)
+		}
+		param.Examples[name] = &Example{
+			Value: value,
+		}
+	}
+}
+
 func (gen *Generator) FindOperation(model *Model, opId string) *Operation {
 	for _, pathItem := range model.Paths {
 		for _, op := range []*Operation{
-- 
2.43.0


From 3d3135678074790507c205dc9adfec7c27459774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 022/192] fix: openapi export crashed for an action with no
 expected response

---
 openapi/export_openapi.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 6d670a4..1ae250b 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -195,7 +195,13 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		responses := make(map[string]*Response, 0)
 		op.Responses = responses
 		content := make(map[string]*MediaType)
-		comment := hdef.Expected.Comment
+		expected := hdef.Expected
+		if expected == nil {
+			expected = &sadl.HttpExpectedSpec{
+				Status: 200,
+			}
+		}
+		comment := expected.Comment
 		if comment == "" {
 			comment = "Expected response"
 		}
@@ -204,7 +210,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 			Content:     content,
 		}
 		var headers map[string]*Header
-		for _, param := range hdef.Expected.Outputs {
+		for _, param := range expected.Outputs {
 			if param.Header != "" {
 				pschema, err := gen.oasSchema(&param.TypeSpec, "")
 				if err != nil {
@@ -232,7 +238,7 @@ func (gen *Generator) ExportToOAS3() (*Model, error) {
 		if len(headers) > 0 {
 			resp.Headers = headers
 		}
-		key := fmt.Sprint(hdef.Expected.Status)
+		key := fmt.Sprint(expected.Status)
 		responses[key] = resp
 		for _, out := range hdef.Exceptions {
 			content := make(map[string]*MediaType)
-- 
2.43.0


From 83a1745aed574ba308da61ddef0c3245a2560207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:26 +0000
Subject: [PATCH 023/192] fix: openapi export referred to schemas the document
 does not define (Any, inline enums, items and variants of base types)

---
 openapi/export_openapi.go | 58 ++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 1ae250b..bec9b20 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -470,8 +470,9 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 		Description: td.Comment,
 	}
 	for _, vd := range td.Variants {
-		v := &Schema{
-			Ref: "#/components/schemas/" + vd.Type,
+		v, err := gen.oasSchema(&vd.TypeSpec, "")
+		if err != nil {
+			return nil, err
 		}
 		schema.OneOf = append(schema.OneOf, v)
 	}
@@ -479,8 +480,7 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+	itemSchema, err := gen.oasItems(td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -493,8 +493,7 @@ func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itd := gen.Model.FindType(td.Items)
-	itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+	itemSchema, err := gen.oasItems(td.Items)
 	if err != nil {
 		return nil, err
 	}
@@ -559,6 +558,21 @@ func oasNumericEquivalent(sadlTypeName string) (string, string, string) {
 	}
 }
 
+// the schema for the items of an Array or Map
+func (gen *Generator) oasItems(items string) (*Schema, error) {
+	if items == "" {
+		return &Schema{}, nil
+	}
+	itd := gen.Model.FindType(items)
+	if itd == nil {
+		return nil, fmt.Errorf("Undefined type: %s", items)
+	}
+	if itd.Type == itd.Name { //a base type, there is no schema to refer to
+		return gen.oasSchema(&itd.TypeSpec, "")
+	}
+	return gen.oasSchema(&itd.TypeSpec, items)
+}
+
 func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error) {
 	//	if name != "" {
 	//		return &Schema{
@@ -631,12 +645,37 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		}
 		return tr, nil
 	case "Enum":
+		if name == "" {
+			sch := &Schema{
+				Type: "string",
+			}
+			for _, el := range td.Elements {
+				sch.Enum = append(sch.Enum, el.Symbol)
+			}
+			return sch, nil
+		}
 		return &Schema{
 			Ref: "#/components/schemas/" + name,
 		}, nil
+	case "Union":
+		if name != "" {
+			return &Schema{
+				Ref: "#/components/schemas/" + name,
+			}, nil
+		}
+		sch := &Schema{}
+		for _, vd := range td.Variants {
+			v, err := gen.oasSchema(&vd.TypeSpec, "")
+			if err != nil {
+				return nil, err
+			}
+			sch.OneOf = append(sch.OneOf, v)
+		}
+		return sch, nil
+	case "Any":
+		return &Schema{}, nil
 	case "Array":
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, td.Items)
+		itemSchema, err := gen.oasItems(td.Items)
 		if err != nil {
 			return nil, err
 		}
@@ -647,8 +686,7 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
-		itd := gen.Model.FindType(td.Items)
-		itemSchema, err := gen.oasSchema(&itd.TypeSpec, "")
+		itemSchema, err := gen.oasItems(td.Items)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 328515638ddf05e24f15b1dde61993380c0e57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:27 +0000
Subject: [PATCH 024/192] fix: openapi export dropped the values of an inline
 String

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index bec9b20..99439f4 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -622,6 +622,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			tmp := uint64(*td.MaxSize)
 			tr.MaxLength = &tmp
 		}
+		for _, s := range td.Values {
+			tr.Enum = append(tr.Enum, s)
+		}
 		return tr, nil
 	case "Timestamp":
 		tr := &Schema{
-- 
2.43.0


From b33d75f576172f44a877847166f36d238b725180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:28 +0000
Subject: [PATCH 025/192] fix: openapi export dropped which fields of an inline
 Struct are required

---
 openapi/export_openapi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 99439f4..5ba79cd 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -713,6 +713,9 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 				if err != nil {
 					return nil, err
 				}
+				if fd.Required {
+					sch.Required = append(sch.Required, fd.Name)
+				}
 				f[fd.Name] = fieldSchema
 			}
 			sch.Properties = f
-- 
2.43.0


From a114fe9f43ddfdc1cc2943ea84dafe9411d5b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:29 +0000
Subject: [PATCH 026/192] fix: openapi export dropped the size limits of arrays
 and maps

---
 openapi/export_openapi.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 5ba79cd..0b649bd 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -480,28 +480,21 @@ func (gen *Generator) exportUnionTypeDef(td *sadl.TypeDef) (*Schema, error) {
 }
 
 func (gen *Generator) exportArrayTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itemSchema, err := gen.oasItems(td.Items)
+	schema, err := gen.oasSchema(&td.TypeSpec, td.Name)
 	if err != nil {
 		return nil, err
 	}
-	schema := &Schema{
-		Type:        "array",
-		Description: td.Comment,
-		Items:       itemSchema,
-	}
+	schema.Description = td.Comment
 	return schema, nil
 }
 
 func (gen *Generator) exportMapTypeDef(td *sadl.TypeDef) (*Schema, error) {
-	itemSchema, err := gen.oasItems(td.Items)
+	schema, err := gen.oasSchema(&td.TypeSpec, td.Name)
 	if err != nil {
 		return nil, err
 	}
-	return &Schema{
-		Type:                 "object",
-		Description:          td.Comment,
-		AdditionalProperties: itemSchema,
-	}, nil
+	schema.Description = td.Comment
+	return schema, nil
 }
 
 func (gen *Generator) exportStringTypeDef(td *sadl.TypeDef) (*Schema, error) {
@@ -686,6 +679,13 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:  "array",
 			Items: itemSchema,
 		}
+		if td.MinSize != nil {
+			tr.MinItems = uint64(*td.MinSize)
+		}
+		if td.MaxSize != nil {
+			tmp := uint64(*td.MaxSize)
+			tr.MaxItems = &tmp
+		}
 		return tr, nil
 	case "Map":
 		//note: keys are always strings
@@ -697,6 +697,13 @@ func (gen *Generator) oasSchema(td *sadl.TypeSpec, name string) (*Schema, error)
 			Type:                 "object",
 			AdditionalProperties: itemSchema,
 		}
+		if td.MinSize != nil {
+			otd.MinProps = uint64(*td.MinSize)
+		}
+		if td.MaxSize != nil {
+			tmp := uint64(*td.MaxSize)
+			otd.MaxProps = &tmp
+		}
 		return otd, nil
 	case "Struct":
 		if name != "" {
-- 
2.43.0


From 3a49784faa27b0bc28de4f579afb9efd85676ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:30 +0000
Subject: [PATCH 027/192] fix: openapi export dropped the comment of a numeric
 type

---
 openapi/export_openapi.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 0b649bd..e78d122 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -411,7 +411,9 @@ func (gen *Generator) exportTypeDef(td *sadl.TypeDef) (*Schema, error) {
 			Type:        stype,
 			Format:      sformat,
 		}
-
+		if td.Comment != "" {
+			otd.Description = td.Comment
+		}
 		if td.Min != nil {
 			v := td.Min.AsFloat64()
 			otd.Min = &v
-- 
2.43.0


From 774682149b2a8012bc5aec018e0bbb316e9a46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:46 +0000
Subject: [PATCH 028/192] fix: openapi export never returned for an Array or
 Map type that contains itself

---
 openapi/export_openapi.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index e78d122..238a935 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -565,6 +565,11 @@ func (gen *Generator) oasItems(items string) (*Schema, error) {
 	if itd.Type == itd.Name { //a base type, there is no schema to refer to
 		return gen.oasSchema(&itd.TypeSpec, "")
 	}
+	if itd.Type == "Array" || itd.Type == "Map" { //may be recursive
+		return &Schema{
+			Ref: "#/components/schemas/" + items,
+		}, nil
+	}
 	return gen.oasSchema(&itd.TypeSpec, items)
 }
 
-- 
2.43.0


From a1422410481cba6d58f80412a667c2e1b0354a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:00 +0000
Subject: [PATCH 029/192] fix: importing an OpenAPI document gave a different
 model each time (map order decided the expected status and the order of
 types, fields and actions)

---
 openapi/import_openapi.go | 44 ++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 034d497..9d3b7ef 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -141,7 +142,13 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
-	for name, oasSchema := range model.Components.Schemas {
+	var names []string
+	for name := range model.Components.Schemas {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		oasSchema := model.Components.Schemas[name]
 		name = validSadlName(name, oasSchema)
 		if name == "" {
 			continue
@@ -174,8 +181,13 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	}
 
 	httpBindings := true
-	for tmpl, path := range model.Paths {
-		path2 := *path
+	var tmpls []string
+	for tmpl := range model.Paths {
+		tmpls = append(tmpls, tmpl)
+	}
+	sort.Strings(tmpls)
+	for _, tmpl := range tmpls {
+		path2 := *model.Paths[tmpl]
 		for _, method := range methods {
 			op := getPathOperation(&path2, method)
 			if op != nil {
@@ -346,7 +358,13 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
-			for fname, fschema := range oasSchema.Properties {
+			var fnames []string
+			for fname := range oasSchema.Properties {
+				fnames = append(fnames, fname)
+			}
+			sort.Strings(fnames)
+			for _, fname := range fnames {
+				fschema := oasSchema.Properties[fname]
 				fd := &sadl.StructFieldDef{
 					Name:    fname,
 					Comment: fschema.Description,
@@ -505,7 +523,12 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	//else: if 201 is in the list, use that
 	//else: ? find a likely candidate.
 	var expectedStatus string = "default"
-	for status, _ := range op.Responses {
+	var statuses []string
+	for status := range op.Responses {
+		statuses = append(statuses, status)
+	}
+	sort.Strings(statuses)
+	for _, status := range statuses {
 		if strings.HasPrefix(status, "2") || strings.HasPrefix(status, "3") {
 			expectedStatus = status
 			break
@@ -531,7 +554,13 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			Status:  int32(code),
 			Comment: eparam.Description,
 		}
-		for header, def := range eparam.Headers {
+		var headers []string
+		for header := range eparam.Headers {
+			headers = append(headers, header)
+		}
+		sort.Strings(headers)
+		for _, header := range headers {
+			def := eparam.Headers[header]
 			param := &sadl.HttpParamSpec{}
 			param.Header = header
 			param.Comment = def.Description
@@ -570,7 +599,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		hact.Expected = ex
 	}
-	for status, param := range op.Responses {
+	for _, status := range statuses {
+		param := op.Responses[status]
 		if status != expectedStatus {
 			//the status can be "default", or "4XX" (where 'X' is a wildcard) or "404". If the latter, it takes precedence.
 			//for SADL, not specifying the response is a bug. So "default" will be turned into "500". The wildcards
-- 
2.43.0


From 6f5fdd75912f5600a989a15b3be1e9d88ae0213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:37 +0000
Subject: [PATCH 030/192] fix: importing an OpenAPI document crashed without
 components or for a reference to a missing schema, and lost types reached
 through two references

---
 openapi/import_openapi.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 9d3b7ef..08d3a96 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -142,13 +142,17 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		Comment: comment,
 		Version: model.Info.Version,
 	}
+	var schemas map[string]*Schema
+	if model.Components != nil {
+		schemas = model.Components.Schemas
+	}
 	var names []string
-	for name := range model.Components.Schemas {
+	for name := range schemas {
 		names = append(names, name)
 	}
 	sort.Strings(names)
 	for _, name := range names {
-		oasSchema := model.Components.Schemas[name]
+		oasSchema := schemas[name]
 		name = validSadlName(name, oasSchema)
 		if name == "" {
 			continue
@@ -158,11 +162,18 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		comment := ""
 		tname := oasTypeRef(oasSchema)
 		if tname != "" {
-			if oasDef, ok := model.Components.Schemas[tname]; ok {
-				ts, err = convertOasType(tname, oasDef) //doesn't handle N levels
-			} else {
-				panic("hmm")
+			oasDef, ok := schemas[tname]
+			for n := 0; ok && oasTypeRef(oasDef) != ""; n++ {
+				if n > len(schemas) {
+					return nil, fmt.Errorf("Schema refers to itself: %s", name)
+				}
+				tname = oasTypeRef(oasDef)
+				oasDef, ok = schemas[tname]
+			}
+			if !ok {
+				return nil, fmt.Errorf("Schema %q refers to a schema that is not defined: %s", name, tname)
 			}
+			ts, err = convertOasType(tname, oasDef)
 		} else {
 			ts, err = convertOasType(name, oasSchema)
 			comment = oasSchema.Description
-- 
2.43.0


From d28e307d8790493f4452cd338ec64848d536d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:37 +0000
Subject: [PATCH 031/192] fix: importing an OpenAPI document panicked for what
 it does not support, or lost an error in a field or item

---
 openapi/import_openapi.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 08d3a96..32e500c 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -331,9 +331,10 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Items = oasTypeRef(oasSchema.Items)
 			} else {
 				its, err := convertOasType(name+".Items", oasSchema.Items)
-				if err == nil {
-					ts.Items = its.Type
+				if err != nil {
+					return ts, err
 				}
+				ts.Items = its.Type
 			}
 		}
 		//minsize, maxsize
@@ -386,13 +387,15 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				fd.Type = oasTypeRef(fschema)
 				if fd.Type == "" {
 					fd.TypeSpec, err = convertOasType(name+"."+fname, fschema)
+					if err != nil {
+						return ts, err
+					}
 				}
 				ts.Fields = append(ts.Fields, fd)
 			}
 		}
 	default:
-		fmt.Printf("oas type is %q\n", oasSchema.Type)
-		panic("oas type not handled")
+		return ts, fmt.Errorf("OpenAPI type not supported: %q", oasSchema.Type)
 	}
 	return ts, err
 }
@@ -618,7 +621,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			if status == "default" {
 				status = "0"
 			} else if strings.Index(status, "X") >= 0 {
-				panic("wildcard response codes not supported")
+				return nil, fmt.Errorf("Wildcard response codes not supported: %q", status)
 			}
 			code, err := strconv.Atoi(status)
 			if err != nil {
@@ -636,7 +639,7 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 						if schref.Ref != "" {
 							ex.Type = oasTypeRef(schref)
 						} else {
-							panic("inline response types not yet supported")
+							return nil, fmt.Errorf("Inline response types not yet supported, for the %s response of %q", status, op.OperationId)
 						}
 						break
 					}
-- 
2.43.0


From be8a019a8743ccb0c784647cc30b2ba3e54932d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:38 +0000
Subject: [PATCH 032/192] fix: importing an OpenAPI document dropped the digits
 of parameter names and panicked for path parameters like {id2} or {pet-id}

---
 openapi/import_openapi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 32e500c..44285ec 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -418,7 +418,7 @@ func uncapitalize(s string) string {
 }
 
 func makeIdentifier(text string) string {
-	reg, _ := regexp.Compile("[^a-zA-Z_][^a-zA-Z_0-9]*")
+	reg, _ := regexp.Compile("^[^a-zA-Z_]+|[^a-zA-Z_0-9]+")
 	return reg.ReplaceAllString(text, "")
 }
 
@@ -465,10 +465,10 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			queries = append(queries, param.Name+"={"+name+"}")
 		case "path":
 			spec.Path = true
-			if strings.Index(path, "{"+name+"}") < 0 {
-				fmt.Println("WARNING: path param is not in path template:", path, name)
-				panic("here")
+			if strings.Index(path, "{"+param.Name+"}") < 0 {
+				return nil, fmt.Errorf("Path parameter %q is not in the path template: %s", param.Name, path)
 			}
+			hact.Path = strings.Replace(hact.Path, "{"+param.Name+"}", "{"+name+"}", -1)
 		case "header":
 			spec.Header = param.Name
 		case "cookie":
-- 
2.43.0


From 0996881852d6764c69acc189bafa3e86cd782ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:39 +0000
Subject: [PATCH 033/192] fix: importing an OpenAPI document dropped PATCH and
 OPTIONS operations

---
 openapi/import_openapi.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 44285ec..5df3e0b 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -122,7 +122,7 @@ func xParse(data []byte, format string) (*Model, error) {
 
 var examples []*sadl.ExampleDef
 
-var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD"} //to do: "PATCH", "OPTIONS", "TRACE"
+var methods = []string{"GET", "PUT", "POST", "DELETE", "HEAD", "PATCH", "OPTIONS"} //to do: "TRACE"
 
 func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	annotations := make(map[string]string, 0)
@@ -667,11 +667,11 @@ func getPathOperation(oasPathItem *PathItem, method string) *Operation {
 		return oasPathItem.Delete
 	case "HEAD":
 		return oasPathItem.Head
+	case "PATCH":
+		return oasPathItem.Patch
+	case "OPTIONS":
+		return oasPathItem.Options
 		/*
-			case "PATCH":
-				return oasPathItem.Patch
-			case "OPTIONS":
-				return oasPathItem.Options
 			case "TRACE":
 				return oasPathItem.Trace
 			case "CONNECT":
-- 
2.43.0


From 85983425ceae40eae25ca17d412f237b82357caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:39 +0000
Subject: [PATCH 034/192] fix: importing an OpenAPI document ignored the
 formats float, double and byte

---
 openapi/import_openapi.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 5df3e0b..bab8b1b 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -309,6 +309,8 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				ts.Type = "UUID"
 			} else if oasSchema.Format == "date-time" {
 				ts.Type = "Timestamp"
+			} else if oasSchema.Format == "byte" {
+				ts.Type = "Bytes"
 			} else {
 				ts.Pattern = oasSchema.Pattern
 				if oasSchema.MinLength > 0 {
@@ -340,7 +342,14 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 		//minsize, maxsize
 		//comment
 	case "number":
-		ts.Type = "Decimal"
+		switch oasSchema.Format {
+		case "float":
+			ts.Type = "Float32"
+		case "double":
+			ts.Type = "Float64"
+		default:
+			ts.Type = "Decimal"
+		}
 		if oasSchema.Min != nil {
 			ts.Min = sadl.NewDecimal(*oasSchema.Min)
 		}
-- 
2.43.0


From 500a40cfd2531cadb2b2bb0ff4c515df6fe57139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:40 +0000
Subject: [PATCH 035/192] fix: importing an OpenAPI document dropped the size
 limits of arrays

---
 openapi/import_openapi.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index bab8b1b..fb54455 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -338,8 +338,17 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				}
 				ts.Items = its.Type
 			}
+		} else {
+			ts.Items = "Any"
+		}
+		if oasSchema.MinItems > 0 {
+			tmpMin := int64(oasSchema.MinItems)
+			ts.MinSize = &tmpMin
+		}
+		if oasSchema.MaxItems != nil {
+			tmpMax := int64(*oasSchema.MaxItems)
+			ts.MaxSize = &tmpMax
 		}
-		//minsize, maxsize
 		//comment
 	case "number":
 		switch oasSchema.Format {
-- 
2.43.0


From ad51a8b5ad5f288a6c039cee7214532d6db7cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:22 +0000
Subject: [PATCH 036/192] fix: importing an OpenAPI document narrowed 64 bit
 parameters, dropped their formats and limits, and panicked for a parameter
 with no type

---
 openapi/import_openapi.go | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index fb54455..db6acbd 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -494,35 +494,24 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		}
 		spec.Type = oasTypeRef(param.Schema)
 		if spec.Type == "" {
-			if param.Schema != nil {
-				spec.Type = sadlPrimitiveType(param.Schema.Type)
+			if param.Schema == nil {
+				return nil, fmt.Errorf("Parameter %q of %q has no schema", param.Name, op.OperationId)
 			}
-			if spec.Type == "Array" {
-				if param.Schema.Items == nil {
-					spec.Items = "Any"
-				} else {
-					schref := param.Schema.Items
-					switch schref.Type {
-					case "string":
-						spec.Items = "String"
-					default:
-						spec.Items = "Any"
-					}
-				}
+			var err error
+			spec.TypeSpec, err = convertOasType(sadl.Capitalize(op.OperationId)+"Request."+name, param.Schema)
+			if err != nil {
+				return nil, err
 			}
 			if spec.Type == "Struct" {
-				panic("Whoops, that can't be right")
+				return nil, fmt.Errorf("Parameter %q of %q cannot be an object", param.Name, op.OperationId)
 			}
-			if param.Schema != nil && param.Schema.Enum != nil {
-				for _, val := range param.Schema.Enum {
-					if s, ok := val.(string); ok {
-						spec.Values = append(spec.Values, s)
-					} else {
-						return nil, fmt.Errorf("String enum values are not strings: %v", param.Schema.Enum)
-					}
+			if spec.Type == "Enum" {
+				spec.Type = "String"
+				for _, el := range spec.Elements {
+					spec.Values = append(spec.Values, el.Symbol)
 				}
+				spec.Elements = nil
 			}
-		} else {
 		}
 		hact.Inputs = append(hact.Inputs, spec)
 	}
-- 
2.43.0


From 47e68606d4bb22e3ae6fa22ffdee80cf7537a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:22 +0000
Subject: [PATCH 037/192] fix: importing an OpenAPI document made examples for
 targets that do not exist

---
 openapi/import_openapi.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index db6acbd..aa8bf5c 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -332,7 +332,9 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			if oasSchema.Items.Ref != "" {
 				ts.Items = oasTypeRef(oasSchema.Items)
 			} else {
+				keep := examples
 				its, err := convertOasType(name+".Items", oasSchema.Items)
+				examples = keep //an item is not a valid example target
 				if err != nil {
 					return ts, err
 				}
@@ -596,7 +598,10 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 				if schref.Ref != "" {
 					param.Type = oasTypeRef(schref)
 				} else {
-					param.TypeSpec, err = convertOasType(hact.Name+".Expected."+param.Name, schref) //fix: example
+					param.TypeSpec, err = convertOasType(sadl.Capitalize(hact.Name)+"Response."+param.Name, schref)
+					if err != nil {
+						return nil, err
+					}
 				}
 				ex.Outputs = append(ex.Outputs, param)
 			}
@@ -610,7 +615,10 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 					if schref.Ref != "" {
 						result.Type = oasTypeRef(schref)
 					} else {
-						result.TypeSpec, err = convertOasType(hact.Name+".Expected.payload", schref) //fix: example
+						result.TypeSpec, err = convertOasType(sadl.Capitalize(hact.Name)+"Response."+result.Name, schref)
+						if err != nil {
+							return nil, err
+						}
 					}
 					ex.Outputs = append(ex.Outputs, result)
 				} else {
-- 
2.43.0


From 8b6aebdce28ae4d2082ea937c68218ce49a0d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:23 +0000
Subject: [PATCH 038/192] fix: importing an OpenAPI document dropped a request
 body whose schema is not a reference

---
 openapi/import_openapi.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index aa8bf5c..842ef31 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -524,13 +524,20 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 		if op.RequestBody != nil {
 			for contentType, mediadef := range op.RequestBody.Content {
 				if contentType == "application/json" { //hack
-					bodyType := oasTypeRef(mediadef.Schema)
-					if bodyType != "" {
+					if mediadef.Schema != nil {
+						ts := sadl.TypeSpec{
+							Type: oasTypeRef(mediadef.Schema),
+						}
+						if ts.Type == "" {
+							var err error
+							ts, err = convertOasType(sadl.Capitalize(op.OperationId)+"Request.body", mediadef.Schema)
+							if err != nil {
+								return nil, err
+							}
+						}
 						spec := &sadl.HttpParamSpec{
 							StructFieldDef: sadl.StructFieldDef{
-								TypeSpec: sadl.TypeSpec{
-									Type: bodyType,
-								},
+								TypeSpec: ts,
 								Comment:  op.RequestBody.Description,
 								Name:     "body",
 								Required: op.RequestBody.Required,
-- 
2.43.0


From 2840fbc8562d356a7d548284d2524d38958c3ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:24 +0000
Subject: [PATCH 039/192] fix: importing an OpenAPI document turned maps and
 unions into empty structs

---
 openapi/import_openapi.go | 66 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 842ef31..2b3f203 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -387,6 +387,42 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 			ts.Max = sadl.NewDecimal(*oasSchema.Max)
 		}
 	case "", "object":
+		if len(oasSchema.OneOf) > 0 {
+			ts.Type = "Union"
+			for _, v := range oasSchema.OneOf {
+				vd := &sadl.UnionVariantDef{}
+				vd.Type = oasTypeRef(v)
+				if vd.Type == "" {
+					vd.TypeSpec, err = convertOasType(name, v)
+					if err != nil {
+						return ts, err
+					}
+				}
+				vd.Name = vd.Type
+				ts.Variants = append(ts.Variants, vd)
+			}
+			return ts, nil
+		}
+		if oasSchema.AdditionalProperties != nil && len(oasSchema.Properties) == 0 {
+			items, err := additionalItems(name, oasSchema.AdditionalProperties)
+			if err != nil {
+				return ts, err
+			}
+			if items != "" {
+				ts.Type = "Map"
+				ts.Keys = "String"
+				ts.Items = items
+				if oasSchema.MinProps > 0 {
+					tmpMin := int64(oasSchema.MinProps)
+					ts.MinSize = &tmpMin
+				}
+				if oasSchema.MaxProps != nil {
+					tmpMax := int64(*oasSchema.MaxProps)
+					ts.MaxSize = &tmpMax
+				}
+				return ts, nil
+			}
+		}
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
@@ -420,6 +456,36 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 	return ts, err
 }
 
+// the type of the values of an object with additionalProperties: a schema, or a boolean. Empty if there are none.
+func additionalItems(name string, additional interface{}) (string, error) {
+	var schema *Schema
+	switch v := additional.(type) {
+	case bool:
+		if v {
+			return "Any", nil
+		}
+		return "", nil
+	case *Schema:
+		schema = v
+	default: //as loaded from a file
+		data, err := json.Marshal(v)
+		if err != nil {
+			return "", err
+		}
+		err = json.Unmarshal(data, &schema)
+		if err != nil {
+			return "", err
+		}
+	}
+	if ref := oasTypeRef(schema); ref != "" {
+		return ref, nil
+	}
+	keep := examples
+	ts, err := convertOasType(name+".Items", schema)
+	examples = keep
+	return ts.Type, err
+}
+
 func containsString(lst []string, val string) bool {
 	for _, s := range lst {
 		if s == val {
-- 
2.43.0


From 98fcd450397d959e90bd19a3f9015fd558be194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:24 +0000
Subject: [PATCH 040/192] fix: importing an OpenAPI document turned an empty
 schema, which allows any value, into an empty struct

---
 openapi/export_openapi.go | 5 +++++
 openapi/import_openapi.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/openapi/export_openapi.go b/openapi/export_openapi.go
index 238a935..4bd786b 100644
--- a/openapi/export_openapi.go
+++ b/openapi/export_openapi.go
@@ -402,6 +402,11 @@ func (gen *Generator) exportTypeDef(td *sadl.TypeDef) (*Schema, error) {
 			Type:        "boolean",
 		}
 		return otd, nil
+	case "Any":
+		otd := &Schema{
+			Description: td.Comment,
+		}
+		return otd, nil
 	case "Enum":
 		return gen.exportEnumTypeDef(td)
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 2b3f203..f6129d4 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -423,6 +423,10 @@ func convertOasType(name string, oasSchema *Schema) (sadl.TypeSpec, error) {
 				return ts, nil
 			}
 		}
+		if oasSchema.Type == "" && oasSchema.Properties == nil && len(oasSchema.AllOf) == 0 && len(oasSchema.AnyOf) == 0 {
+			ts.Type = "Any" //nothing is said about the value
+			return ts, nil
+		}
 		ts.Type = "Struct"
 		if oasSchema.Properties != nil {
 			req := oasSchema.Required
-- 
2.43.0


From 77d1640be8a0864c7e7c1a229a8ae32334bcac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:48 +0000
Subject: [PATCH 041/192] fix: importing a Swagger document ignored the limits
 of numbers

---
 openapi/import_swagger.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index c5648e8..13f18dc 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -228,12 +228,12 @@ func toV3Schema(v2Any interface{}) *Schema {
 		}
 	case "integer", "number":
 		schema.Format = v2.GetString("format")
-		if v2.Has("min") {
-			f := v2.GetFloat64("min")
+		if v2.Has("minimum") {
+			f := v2.GetFloat64("minimum")
 			schema.Min = &f
 		}
-		if v2.Has("max") {
-			f := v2.GetFloat64("max")
+		if v2.Has("maximum") {
+			f := v2.GetFloat64("maximum")
 			schema.Max = &f
 		}
 	case "boolean":
-- 
2.43.0


From 0a0fc7825dee2ed23ba26c72a52a453ffe85e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:48 +0000
Subject: [PATCH 042/192] fix: importing a Swagger document dropped the format,
 limits, values, items and description of parameters and headers

---
 openapi/import_swagger.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 13f18dc..f491857 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -108,15 +108,16 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 			}
 		} else {
 			var tp interface{}
-			tp = paramd.GetString("type")
-			if tp == "" {
+			tp = param
+			if !paramd.Has("type") {
 				tp = paramd.Get("schema")
 			}
 			p := &Parameter{
-				In:       paramd.GetString("in"),
-				Name:     paramd.GetString("name"),
-				Required: paramd.GetBool("required"),
-				Schema:   toV3Schema(tp),
+				In:          paramd.GetString("in"),
+				Name:        paramd.GetString("name"),
+				Description: paramd.GetString("description"),
+				Required:    paramd.GetBool("required"),
+				Schema:      toV3Schema(tp),
 			}
 			params = append(params, p)
 		}
@@ -155,7 +156,7 @@ func toV3Headers(v2 map[string]interface{}) map[string]*Header {
 		vd := sadl.AsData(v)
 		headers[k] = &Header{
 			Description: vd.GetString("description"),
-			Schema:      toV3Schema(vd.GetString("type")),
+			Schema:      toV3Schema(v),
 		}
 	}
 	return headers
-- 
2.43.0


From 0066930917610c741e436c5cef02f4af0fd121f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:49 +0000
Subject: [PATCH 043/192] fix: importing a Swagger document panicked for a
 schema with no type, an unknown type or an array with no items, and dropped
 array sizes

---
 openapi/import_swagger.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index f491857..96b923e 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -192,6 +192,9 @@ func toV3Components(v2 *sadl.Data) *Components {
 
 func toV3Schema(v2Any interface{}) *Schema {
 	schema := &Schema{}
+	if v2Any == nil {
+		return nil
+	}
 	if v2String, ok := v2Any.(string); ok {
 		schema.Type = v2String
 		return schema
@@ -207,7 +210,16 @@ func toV3Schema(v2Any interface{}) *Schema {
 			schema.Properties[k] = toV3Schema(v)
 		}
 	case "array":
-		schema.Items = toV3Schema(v2.Get("items"))
+		if v2.Has("items") {
+			schema.Items = toV3Schema(v2.Get("items"))
+		}
+		if v2.Has("minItems") {
+			schema.MinItems = uint64(v2.GetInt64("minItems"))
+		}
+		if v2.Has("maxItems") {
+			n := uint64(v2.GetInt64("maxItems"))
+			schema.MaxItems = &n
+		}
 	case "string":
 		schema.Format = v2.GetString("format")
 		schema.Pattern = v2.GetString("pattern")
@@ -242,9 +254,11 @@ func toV3Schema(v2Any interface{}) *Schema {
 	default:
 		if v2.Has("$ref") {
 			schema.Ref = strings.Replace(v2.GetString("$ref"), "#/definitions/", "#/components/schemas/", -1)
-		} else {
-			fmt.Printf("type: %q\n%s\n->%v\n", schema.Type, sadl.Pretty(v2), v2.Get("$ref"))
-			panic("fix this schema")
+		} else if v2.Has("properties") {
+			schema.Properties = make(map[string]*Schema, 0)
+			for k, v := range v2.GetData("properties").AsMap() {
+				schema.Properties[k] = toV3Schema(v)
+			}
 		}
 	}
 	return schema
-- 
2.43.0


From deeb6ef227e41148f166fec2d4a915edd420976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:49 +0000
Subject: [PATCH 044/192] fix: importing a Swagger document turned maps into
 empty structs

---
 openapi/import_swagger.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 96b923e..0415772 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -209,6 +209,13 @@ func toV3Schema(v2Any interface{}) *Schema {
 		for k, v := range v2.GetData("properties").AsMap() {
 			schema.Properties[k] = toV3Schema(v)
 		}
+		if v2.Has("additionalProperties") {
+			if b, ok := v2.Get("additionalProperties").(bool); ok {
+				schema.AdditionalProperties = b
+			} else {
+				schema.AdditionalProperties = toV3Schema(v2.Get("additionalProperties"))
+			}
+		}
 	case "array":
 		if v2.Has("items") {
 			schema.Items = toV3Schema(v2.Get("items"))
-- 
2.43.0


From c6d0525d65c886902d1741ccf1cb5c41e8fe14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:50 +0000
Subject: [PATCH 045/192] fix: importing a Swagger document that does not say
 what it consumes or produces dropped every body

---
 openapi/import_swagger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 0415772..ac17800 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -167,6 +167,9 @@ func toV3Content(mediaTypes []string, v2 interface{}) Content {
 		return nil
 	}
 	schema := toV3Schema(v2)
+	if len(mediaTypes) == 0 {
+		mediaTypes = []string{"application/json"}
+	}
 	content := make(map[string]*MediaType, 0)
 	for _, mt := range mediaTypes {
 		md := &MediaType{
-- 
2.43.0


From d25298a525ca86b8c0de3b284a8676dfd5f6dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:51 +0000
Subject: [PATCH 046/192] fix: importing a Swagger document dropped OPTIONS
 operations

---
 openapi/import_swagger.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index ac17800..136ca25 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -69,12 +69,13 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 	for k, v := range v2.AsMap() {
 		vd := sadl.AsData(v)
 		pi := &PathItem{
-			Get:    toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
-			Delete: toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
-			Put:    toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
-			Post:   toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
-			Patch:  toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
-			Head:   toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
+			Get:     toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
+			Delete:  toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
+			Put:     toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
+			Post:    toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
+			Patch:   toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
+			Head:    toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
+			Options: toV3Operation(model, vd.GetData("options"), defConsumes, defProduces),
 			//etc
 		}
 		paths[k] = pi
-- 
2.43.0


From 9f2222cb0c0caf4756c9384344951c3db6972d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:51 +0000
Subject: [PATCH 047/192] fix: importing an OpenAPI document took a parameter
 in an unknown place (formData) for the body

---
 openapi/import_openapi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index f6129d4..92a18de 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -563,6 +563,8 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 			spec.Header = param.Name
 		case "cookie":
 			return nil, fmt.Errorf("Cookie params NYI: %v", sadl.AsString(param))
+		default:
+			return nil, fmt.Errorf("Parameters in %q are not supported: %v", param.In, sadl.AsString(param))
 		}
 		spec.Type = oasTypeRef(param.Schema)
 		if spec.Type == "" {
-- 
2.43.0


From 032f458ccf94658fdf4bd9e016a23af0073870a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:32 +0000
Subject: [PATCH 048/192] fix: importing an OpenAPI or Swagger document dropped
 the parameters given for a whole path

---
 openapi/import_openapi.go | 24 +++++++++++++++++++++++-
 openapi/import_swagger.go | 33 ++++++++++++++++++++-------------
 2 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 92a18de..92815c3 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -206,7 +206,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 					continue
 				}
 				if httpBindings {
-					hact, err := convertOasPath(tmpl, op, method)
+					hact, err := convertOasPath(tmpl, withPathParameters(&path2, op), method)
 					if err != nil {
 						return nil, err
 					}
@@ -746,6 +746,28 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	return hact, nil
 }
 
+// the operation with the parameters of its path, except the ones it overrides
+func withPathParameters(path *PathItem, op *Operation) *Operation {
+	if len(path.Parameters) == 0 {
+		return op
+	}
+	op2 := *op
+	op2.Parameters = nil
+	for _, shared := range path.Parameters {
+		overridden := false
+		for _, param := range op.Parameters {
+			if param.Name == shared.Name && param.In == shared.In {
+				overridden = true
+			}
+		}
+		if !overridden {
+			op2.Parameters = append(op2.Parameters, shared)
+		}
+	}
+	op2.Parameters = append(op2.Parameters, op.Parameters...)
+	return &op2
+}
+
 func getPathOperation(oasPathItem *PathItem, method string) *Operation {
 
 	switch method {
diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 136ca25..b083303 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -78,6 +78,9 @@ func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []
 			Options: toV3Operation(model, vd.GetData("options"), defConsumes, defProduces),
 			//etc
 		}
+		for _, param := range vd.GetArray("parameters") {
+			pi.Parameters = append(pi.Parameters, toV3Parameter(param))
+		}
 		paths[k] = pi
 	}
 	return paths
@@ -108,19 +111,7 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 				Content:     toV3Content(consumes, paramd.Get("schema")),
 			}
 		} else {
-			var tp interface{}
-			tp = param
-			if !paramd.Has("type") {
-				tp = paramd.Get("schema")
-			}
-			p := &Parameter{
-				In:          paramd.GetString("in"),
-				Name:        paramd.GetString("name"),
-				Description: paramd.GetString("description"),
-				Required:    paramd.GetBool("required"),
-				Schema:      toV3Schema(tp),
-			}
-			params = append(params, p)
+			params = append(params, toV3Parameter(param))
 		}
 	}
 	op.Parameters = params
@@ -140,6 +131,22 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 	return op
 }
 
+func toV3Parameter(v2 interface{}) *Parameter {
+	paramd := sadl.AsData(v2)
+	var tp interface{}
+	tp = v2
+	if !paramd.Has("type") {
+		tp = paramd.Get("schema")
+	}
+	return &Parameter{
+		In:          paramd.GetString("in"),
+		Name:        paramd.GetString("name"),
+		Description: paramd.GetString("description"),
+		Required:    paramd.GetBool("required"),
+		Schema:      toV3Schema(tp),
+	}
+}
+
 func toV3Response(mediaTypes []string, v2 *sadl.Data) *Response {
 	return &Response{
 		Description: v2.GetString("description"),
-- 
2.43.0


From 1cd16cda5437d22caf4f17951a95223c8a9474b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:42 +0000
Subject: [PATCH 049/192] fix: graphql export panicked instead of returning its
 error

---
 graphql/export_graphql.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 192d6a6..fc77ffa 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -11,8 +11,7 @@ import (
 func Export(model *sadl.Model, conf *sadl.Data) error {
 	s, err := FromSadl(model, conf)
 	if err != nil {
-		panic(fmt.Sprintf("*** %v\n", err))
-		//		return err
+		return err
 	}
 	fmt.Print(s)
 	return nil
-- 
2.43.0


From 7c9dea8c9cb486cb70e87fa7d692b03a95b06a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:42 +0000
Subject: [PATCH 050/192] fix: graphql export panicked for a UUID or Timestamp
 type definition

---
 graphql/export_graphql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index fc77ffa..0b1fa0b 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -40,7 +40,7 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			err = w.EmitStructDef(td)
 		case "Union":
 			err = w.EmitUnionDef(td)
-		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
+		case "String", "Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "UUID", "Timestamp":
 			//these get replace by the equivalent type, you cannot "subtype" thesein GraphQL
 		case "Array":
 			//skip these. All references to it should be replaced with literal GraphQL list syntax.
-- 
2.43.0


From c746a92942e5f65b94a9456fd58d19661bf424a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:43 +0000
Subject: [PATCH 051/192] fix: graphql export panicked for a type definition
 with no GraphQL equivalent

---
 graphql/export_graphql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 0b1fa0b..591a60a 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -45,7 +45,7 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 		case "Array":
 			//skip these. All references to it should be replaced with literal GraphQL list syntax.
 		default:
-			panic("fixme: " + td.Type)
+			err = fmt.Errorf("Type cannot be represented in GraphQL: %s (%s)", td.Name, td.Type)
 		}
 		if err != nil {
 			return "", err
-- 
2.43.0


From 0afa924bfa448e06716518924e52998b151da78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:43 +0000
Subject: [PATCH 052/192] fix: graphql export declared the custom scalars in a
 random order

---
 graphql/export_graphql.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 591a60a..f2276e6 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
+	"sort"
 
 	"github.com/boynton/sadl"
 )
@@ -51,7 +52,12 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 			return "", err
 		}
 	}
+	var scalars []string
 	for k, _ := range w.customScalars {
+		scalars = append(scalars, k)
+	}
+	sort.Strings(scalars)
+	for _, k := range scalars {
 		w.Emit("scalar %s\n", k)
 	}
 	return w.End(), nil
-- 
2.43.0


From 7b143ef5b4a4e7f9b59cf835b429327bab63db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:44 +0000
Subject: [PATCH 053/192] fix: graphql export let the second line of a field
 comment out of the comment

---
 graphql/export_graphql.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index f2276e6..95fc200 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"strings"
 
 	"github.com/boynton/sadl"
 )
@@ -102,7 +103,9 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 		}
 		if fd.Comment != "" {
 			//TO DO: format as block before the field
-			w.Emit("  # %s\n", fd.Comment)
+			for _, line := range strings.Split(fd.Comment, "\n") {
+				w.Emit("  # %s\n", line)
+			}
 		}
 		ftype := w.typeRef(&fd.TypeSpec)
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
-- 
2.43.0


From 819228d73eae3fe6dfb1ad68380abd066d028cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:44 +0000
Subject: [PATCH 054/192] fix: graphql export left the items of an Array under
 their SADL names

---
 graphql/export_graphql.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 95fc200..0ef9725 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -26,6 +26,7 @@ func FromSadl(model *sadl.Model, conf *sadl.Data) (string, error) {
 		config:        conf,
 		arrays:        make(map[string]*sadl.TypeDef, 0),
 		customScalars: make(map[string]bool, 0),
+		expanding:     make(map[string]bool, 0),
 	}
 	w.Begin()
 	var err error
@@ -74,6 +75,7 @@ type GraphqlWriter struct {
 	name          string
 	version       string
 	customScalars map[string]bool
+	expanding     map[string]bool
 }
 
 func (w *GraphqlWriter) Begin() {
@@ -107,7 +109,10 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 				w.Emit("  # %s\n", line)
 			}
 		}
-		ftype := w.typeRef(&fd.TypeSpec)
+		ftype, err := w.typeRef(&fd.TypeSpec)
+		if err != nil {
+			return err
+		}
 		w.Emit("  %s: %s%s\n", fd.Name, ftype, required)
 	}
 	w.Emit("}\n\n")
@@ -142,26 +147,35 @@ func (w *GraphqlWriter) scalarType(name string) string {
 	}
 }
 
-func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) string {
+func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) (string, error) {
 	if td, ok := w.arrays[ts.Type]; ok {
+		if w.expanding[td.Name] {
+			return "", fmt.Errorf("Recursive Array type cannot be represented in GraphQL: %s", td.Name)
+		}
+		w.expanding[td.Name] = true
+		defer delete(w.expanding, td.Name)
 		ts = &td.TypeSpec
 	}
 	tsName := w.scalarType(ts.Type)
 	if tsName != "" {
-		return tsName
+		return tsName, nil
 	}
 	switch ts.Type {
 	case "Array":
-		return fmt.Sprintf("[%s!]", ts.Items)
+		items, err := w.typeRef(&sadl.TypeSpec{Type: ts.Items})
+		if err != nil {
+			return "", err
+		}
+		return fmt.Sprintf("[%s!]", items), nil
 	default:
 		td := w.model.FindType(ts.Type)
 		if td != nil {
 			tsName = w.scalarType(td.Type)
 			if tsName != "" {
-				return tsName
+				return tsName, nil
 			}
 		}
-		return ts.Type
+		return ts.Type, nil
 	}
 }
 
-- 
2.43.0


From 434285d8fcc0ef2dbb7bcd34ea3ae1ee93f4751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:45 +0000
Subject: [PATCH 055/192] fix: graphql export referred to types that GraphQL
 does not have

---
 graphql/export_graphql.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 0ef9725..f0479e7 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -167,6 +167,8 @@ func (w *GraphqlWriter) typeRef(ts *sadl.TypeSpec) (string, error) {
 			return "", err
 		}
 		return fmt.Sprintf("[%s!]", items), nil
+	case "Bytes", "UnitValue", "Map", "Struct", "Enum", "Union", "Any":
+		return "", fmt.Errorf("Type cannot be represented in GraphQL: inline %s", ts.Type)
 	default:
 		td := w.model.FindType(ts.Type)
 		if td != nil {
-- 
2.43.0


From 618289690ffe76a87768d0af0ba05b140c98f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:16 +0000
Subject: [PATCH 056/192] fix: graphql import ignored the operation types only
 when the schema definition came first

---
 graphql/import_graphql.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index e269216..d42b568 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -67,6 +67,14 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 		},
 	}
 	schema.Types = append(schema.Types, td)
+	for _, def := range doc.Definitions {
+		if sdef, ok := def.(*gql_ast.SchemaDefinition); ok {
+			for _, opt := range sdef.OperationTypes {
+				iname := (*gql_ast.Named)(opt.Type).Name.Value
+				ignore[iname] = true
+			}
+		}
+	}
 	for _, def := range doc.Definitions {
 		switch tdef := def.(type) {
 		case *gql_ast.ObjectDefinition:
@@ -74,10 +82,7 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 				err = gqlStruct(schema, tdef)
 			}
 		case *gql_ast.SchemaDefinition:
-			for _, opt := range tdef.OperationTypes {
-				iname := (*gql_ast.Named)(opt.Type).Name.Value
-				ignore[iname] = true
-			}
+			//handled above: the types it names are ignored, no matter where they are defined
 		case *gql_ast.EnumDefinition:
 			err = gqlEnum(schema, tdef)
 		case *gql_ast.UnionDefinition:
-- 
2.43.0


From 127f68817d0ed035258c99d69de353a1625e5aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:17 +0000
Subject: [PATCH 057/192] fix: graphql import panicked for a list of lists

---
 graphql/import_graphql.go | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index d42b568..1d9c972 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -116,6 +116,8 @@ func typeName(t gql_ast.Type) string {
 		return tt.Name.Value
 	case *gql_ast.List:
 		return "Array"
+	case *gql_ast.NonNull:
+		return typeName(tt.Type)
 	default:
 		panic("FixMe")
 	}
@@ -212,19 +214,7 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 			fd.Type = convertTypeName(t.Name.Value)
 		case *gql_ast.List:
 			fd.Type = "Array"
-			switch it := t.Type.(type) {
-			case *gql_ast.Named:
-				fd.Items = convertTypeName(it.Name.Value)
-			case *gql_ast.NonNull:
-				switch it := it.Type.(type) {
-				case *gql_ast.Named:
-					fd.Items = convertTypeName(it.Name.Value)
-				default:
-					panic("inline list type not supported")
-				}
-			default:
-				panic("list type not supported")
-			}
+			fd.Items = convertTypeName(typeName(t.Type))
 		case *gql_ast.NonNull:
 			fd.Required = true
 			switch t := t.Type.(type) {
@@ -232,14 +222,7 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				fd.Type = convertTypeName(t.Name.Value)
 			case *gql_ast.List:
 				fd.Type = "Array"
-				switch it := t.Type.(type) {
-				case *gql_ast.Named:
-					fd.Items = convertTypeName(it.Name.Value)
-				case *gql_ast.NonNull:
-					fd.Items = convertTypeName(typeName(it.Type))
-				default:
-					panic("inline list type not supported")
-				}
+				fd.Items = convertTypeName(typeName(t.Type))
 			default:
 				fd.Type = convertTypeName(typeName(t))
 			}
-- 
2.43.0


From 5cec87e567010bdc4428af03f6dd8ccb7bc2e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:31 +0000
Subject: [PATCH 058/192] fix: graphql import crashed on, or accepted, a field
 whose type is missing

---
 graphql/import_graphql.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index 1d9c972..2b64677 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -119,7 +119,7 @@ func typeName(t gql_ast.Type) string {
 	case *gql_ast.NonNull:
 		return typeName(tt.Type)
 	default:
-		panic("FixMe")
+		return ""
 	}
 }
 
@@ -227,6 +227,9 @@ func gqlStruct(schema *sadl.Schema, structDef *gql_ast.ObjectDefinition) error {
 				fd.Type = convertTypeName(typeName(t))
 			}
 		}
+		if fd.Type == "" || (fd.Type == "Array" && fd.Items == "") {
+			return fmt.Errorf("Field has no type: %s.%s", td.Name, fd.Name)
+		}
 		td.Fields = append(td.Fields, fd)
 	}
 	schema.Types = append(schema.Types, td)
-- 
2.43.0


From 36e058e888b15e6ee8a0fbc78ed8437c9204ba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:00 +0000
Subject: [PATCH 059/192] fix: http-trace crashed on an example that is not an
 object, and exited instead of returning an error

---
 httptrace/export_http_examples.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 1658685..274219e 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,7 +3,6 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
-	"os"
 	"strings"
 	"time"
 
@@ -14,8 +13,7 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 	for _, hdef := range model.Http {
 		snippet, err := generateHttpTrace(model, hdef)
 		if err != nil {
-			fmt.Println("*** Error:", err)
-			os.Exit(1)
+			return err
 		}
 		fmt.Println(snippet)
 	}
@@ -35,7 +33,7 @@ func stringExample(ex interface{}) string {
 type exampleData struct {
 	req map[string]interface{}
 	exc *sadl.HttpExceptionSpec
-	res map[string]interface{}
+	res interface{}
 }
 
 func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
@@ -43,12 +41,16 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	reqType := sadl.Capitalize(hdef.Name) + "Request"
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
-	var reqExample, resExample map[string]interface{}
+	var reqExample map[string]interface{}
+	var resExample interface{}
 
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range examples {
 		if ex.Target == reqType {
-			tmp := ex.Example.(map[string]interface{})
+			tmp, ok := ex.Example.(map[string]interface{})
+			if !ok {
+				return "", fmt.Errorf("Example is not an object: %s (name=%s)", ex.Target, ex.Name)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -56,11 +58,15 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		if ex.Target != reqType {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
-					data.res = ex.Example.(map[string]interface{})
+					tmp, ok := ex.Example.(map[string]interface{})
+					if !ok {
+						return "", fmt.Errorf("Example is not an object: %s (name=%s)", ex.Target, ex.Name)
+					}
+					data.res = tmp
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
-							data.res = ex.Example.(map[string]interface{})
+							data.res = ex.Example
 							data.exc = exc
 						}
 					}
@@ -110,7 +116,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 
 				if data.exc == nil {
 					for _, out := range hdef.Expected.Outputs {
-						ex := resExample[out.Name]
+						ex := sadl.AsMap(resExample)[out.Name]
 						if out.Header != "" {
 							sex := stringExample(ex)
 							headers = headers + out.Header + ": " + sex + "\n"
-- 
2.43.0


From 5ae0ef60ee9c20005e77776403df1379b8bda1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:01 +0000
Subject: [PATCH 060/192] fix: http-trace crashed on an action with no expected
 response

---
 httptrace/export_http_examples.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 274219e..b8f3878 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -107,14 +107,15 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			s := method + " " + path + " HTTP/1.1\n" + headers + "\n" + bodyExample
 			body = body + "\n" + s + "\n"
 			
-			if resExample != nil {
+			if resExample != nil && (data.exc != nil || hdef.Expected != nil) {
 				body = body + "#   Response:"
-				status := hdef.Expected.Status
+				var status int32
 				bodyExample := ""
 				headers := "Content-Type: application/json; charset=utf-8\n"
 
 
 				if data.exc == nil {
+					status = hdef.Expected.Status
 					for _, out := range hdef.Expected.Outputs {
 						ex := sadl.AsMap(resExample)[out.Name]
 						if out.Header != "" {
-- 
2.43.0


From 9d0fa5d743378b92c2ec140084335c585211ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:01 +0000
Subject: [PATCH 061/192] fix: http-trace printed the examples of an action in
 a random order

---
 httptrace/export_http_examples.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index b8f3878..e671e16 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -41,6 +41,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 	reqType := sadl.Capitalize(hdef.Name) + "Request"
 	resType := sadl.Capitalize(hdef.Name) + "Response"
 	namedExamples := make(map[string]*exampleData, 0)
+	var names []string
 	var reqExample map[string]interface{}
 	var resExample interface{}
 
@@ -51,6 +52,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			if !ok {
 				return "", fmt.Errorf("Example is not an object: %s (name=%s)", ex.Target, ex.Name)
 			}
+			if _, ok := namedExamples[ex.Name]; !ok {
+				names = append(names, ex.Name)
+			}
 			namedExamples[ex.Name] = &exampleData{req: tmp}
 		}
 	}
@@ -75,7 +79,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 		}
 	}
 	body := ""
-	for exName, data := range namedExamples {
+	for _, exName := range names {
+		data := namedExamples[exName]
 		reqExample = data.req
 		resExample = data.res
 		body = body + "#\n# " + exName + " (action=" + hdef.Name + ")\n#\n"
-- 
2.43.0


From b98d5515fb91640fc222b451e28623e3448f6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:02 +0000
Subject: [PATCH 062/192] fix: http-trace lost parameter values that are not a
 *string or *Decimal, such as booleans

---
 httptrace/export_http_examples.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index e671e16..efd537c 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -22,12 +22,16 @@ func Export(model *sadl.Model, conf *sadl.Data) error {
 
 func stringExample(ex interface{}) string {
 	switch v := ex.(type) {
+	case nil:
+		return ""
 	case *string:
 		return *v
+	case string:
+		return v
 	case *sadl.Decimal:
 		return v.String()
 	}
-	return ""
+	return sadl.ToString(ex)
 }
 
 type exampleData struct {
-- 
2.43.0


From d5b2cd0efeddb99f33a2e499ae6f4393d9ac878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:03 +0000
Subject: [PATCH 063/192] fix: http-trace dropped a query parameter whose value
 ends with an equal sign

---
 httptrace/export_http_examples.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index efd537c..19f92a0 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -166,7 +166,7 @@ func stripMissingOptionalQueryParams(uri string) string {
 	items := strings.Split(query, "&")
 	newItems := make([]string, 0)
 	for _, item := range items {
-		if !strings.HasSuffix(item, "=") {
+		if n := strings.Index(item, "="); n < 0 || n < len(item)-1 {
 			newItems = append(newItems, item)
 		}
 	}
-- 
2.43.0


From fb76acb35c609e44d002a93f47f4218bd3f71925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:03 +0000
Subject: [PATCH 064/192] fix: http-trace substituted parameters again inside
 the values of other parameters

---
 httptrace/export_http_examples.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 19f92a0..950e793 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -95,7 +95,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 			path := hdef.Path
 			bodyExample := ""
 			headers := ""
-			
+			var params []string
+
 			for _, in := range hdef.Inputs {
 				ex := reqExample[in.Name]
 				if in.Path || in.Query != "" {
@@ -103,7 +104,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					if in.Path {
 						//inExample = urlEncode(inExample)
 					}
-					path = strings.Replace(path, "{" + in.Name + "}", sex, -1)
+					params = append(params, "{"+in.Name+"}", sex)
 				} else if in.Header != "" {
 					sex := stringExample(ex)
 					headers = headers + in.Header + ": " + sex + "\n"
@@ -111,6 +112,7 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					bodyExample = sadl.Pretty(ex)
 				}
 			}
+			path = strings.NewReplacer(params...).Replace(path)
 			path = stripMissingOptionalQueryParams(path)
 			headers = headers + "Accept: application/json\n"
 			s := method + " " + path + " HTTP/1.1\n" + headers + "\n" + bodyExample
-- 
2.43.0


From 66a38ade8f47e4aa2c9c4a54f512168951f68030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:04 +0000
Subject: [PATCH 065/192] fix: http-trace printed empty headers and a null body
 for what an example does not have

---
 httptrace/export_http_examples.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 950e793..d438cc9 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -105,6 +105,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 						//inExample = urlEncode(inExample)
 					}
 					params = append(params, "{"+in.Name+"}", sex)
+				} else if ex == nil {
+					//optional, and the example does not have it
 				} else if in.Header != "" {
 					sex := stringExample(ex)
 					headers = headers + in.Header + ": " + sex + "\n"
@@ -129,7 +131,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 					status = hdef.Expected.Status
 					for _, out := range hdef.Expected.Outputs {
 						ex := sadl.AsMap(resExample)[out.Name]
-						if out.Header != "" {
+						if ex == nil {
+							//optional, and the example does not have it
+						} else if out.Header != "" {
 							sex := stringExample(ex)
 							headers = headers + out.Header + ": " + sex + "\n"
 						} else { //body
-- 
2.43.0


From 21cd2e79405ead978ef5a9fd53d0e4da248a83bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:04 +0000
Subject: [PATCH 066/192] fix: generated Go enums did not compile, the imports
 they need were missing

---
 golang/golang_model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index fd34161..2e23959 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -208,6 +208,8 @@ func (gen *Generator) EmitEnumType(td *sadl.TypeDef) {
 			return val
 		},
 	}
+	gen.addImport("encoding/json")
+	gen.addImport("fmt")
 	gen.EmitTemplate("enumType", enumTemplate, td, funcMap)
 }
 
-- 
2.43.0


From 47ff6e79ab1ae8b3b1a1f9683430eab5e3f2b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:04 +0000
Subject: [PATCH 067/192] fix: generated Go number types did not compile, and
 floats were parsed as integers

---
 golang/golang_model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 2e23959..f3a96f7 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -2,6 +2,7 @@ package golang
 
 import (
 	"fmt"
+	"strings"
 	"text/template"
 
 	"github.com/boynton/sadl"
@@ -126,7 +127,11 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		name := td.Name
 		gen.Emit("type " + name + " " + sadl.Uncapitalize(td.Type) + "\n")
 		gen.addImport("strconv")
-		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := strconv.ParseInt(s, 10, 64)\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn n\n}\n")
+		parse := "strconv.ParseInt(s, 10, " + strings.TrimPrefix(td.Type, "Int") + ")"
+		if strings.HasPrefix(td.Type, "Float") {
+			parse = "strconv.ParseFloat(s, " + strings.TrimPrefix(td.Type, "Float") + ")"
+		}
+		gen.Emit("func " + name + "FromString(s string) " + name + "{\n\tn, err := " + parse + "\n\tif err != nil {\n\t\treturn 0\n\t}\n\treturn " + name + "(n)\n}\n")
 
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
-- 
2.43.0


From 28f861a1346391869bc6098db30e5a3a293690f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:05 +0000
Subject: [PATCH 068/192] fix: generated Go code used UUID, Bytes and Any
 without defining them

---
 golang/export_golang.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index f5a9f01..2c75b94 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -171,6 +171,12 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 	switch name {
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool", "String":
 		return uncapitalize(name)
+	case "UUID":
+		return "string"
+	case "Bytes":
+		return "[]byte"
+	case "Any":
+		return "interface{}"
 	case "Decimal":
 		if gen.runtime {
 			gen.addImport("github.com/boynton/sadl")
-- 
2.43.0


From 2e5de17ef4f552f50389288efb28634ab19857a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:06 +0000
Subject: [PATCH 069/192] fix: the Go generator panicked, or left types
 undefined, instead of reporting what it does not support

---
 golang/export_golang.go | 13 +++++++++++--
 golang/golang_model.go  |  7 ++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index 2c75b94..ca783d1 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -206,9 +206,12 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 			gen.addImport("github.com/boynton/sadl")
 			return "*sadl." + name
 		} else {
-			//FIXME
-			return "*" + name
+			gen.notSupported(name)
+			return name
 		}
+	case "Struct", "Enum", "Union":
+		gen.notSupported("inline " + name)
+		return name
 	default:
 		//must be a app-defined class. Parser should have already verified its existence
 		td := gen.Model.FindType(name)
@@ -222,6 +225,12 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 	}
 }
 
+func (gen *Generator) notSupported(what string) {
+	if gen.Err == nil {
+		gen.Err = fmt.Errorf("Type not supported by the Go generator: %s", what)
+	}
+}
+
 func capitalize(s string) string {
 	return strings.ToUpper(s[0:1]) + s[1:]
 }
diff --git a/golang/golang_model.go b/golang/golang_model.go
index f3a96f7..193caa5 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -1,7 +1,6 @@
 package golang
 
 import (
-	"fmt"
 	"strings"
 	"text/template"
 
@@ -136,9 +135,7 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		//	case "Int32":
 		//		gen.Emit("type " + td.Name + " int\n")
 	default:
-		fmt.Println(td.Type)
-		panic("EmitType NYI: " + td.Type)
-		//do nothing, i.e. a String subclass
+		gen.notSupported(td.Type)
 	}
 
 }
@@ -417,5 +414,5 @@ func ParseTimestamp(s string) (Timestamp, error) {
 `
 
 func (gen *Generator) EmitUnitValueType(td *sadl.TypeDef) {
-	panic("emitUnitValueType NYI")
+	gen.notSupported(td.Type)
 }
-- 
2.43.0


From 248283f1ad6865112c7a7cb96a1183513d39ecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:07 +0000
Subject: [PATCH 070/192] fix: the Go generator panicked for Bool, Bytes,
 Timestamp and Any type definitions

---
 golang/export_golang.go | 2 +-
 golang/golang_model.go  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index ca783d1..41ac1df 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -218,7 +218,7 @@ func (gen *Generator) nativeTypeName(ts *sadl.TypeSpec, name string) string {
 		if td == nil {
 			panic("Unresolved type, parser should have caught this: " + name)
 		}
-		if td.Type == "Struct" {
+		if td.Type == "Struct" || td.Type == "Timestamp" {
 			name = "*" + name
 		}
 		return name
diff --git a/golang/golang_model.go b/golang/golang_model.go
index 193caa5..2509f5c 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -115,6 +115,10 @@ func (gen *Generator) EmitType(td *sadl.TypeDef, errors map[string]bool) {
 		gen.Emit("type " + td.Name + " string\n")
 	case "UUID":
 		gen.Emit("type " + td.Name + " string //UUID\n")
+	case "Bool", "Bytes", "Any":
+		gen.Emit("type " + td.Name + " " + gen.nativeTypeName(&td.TypeSpec, td.Type) + "\n")
+	case "Timestamp":
+		gen.Emit("type " + td.Name + " = " + strings.TrimPrefix(gen.nativeTypeName(&td.TypeSpec, td.Type), "*") + "\n")
 	case "Decimal":
 		gen.Emit("type " + td.Name + " Decimal\n")
 		gen.createDecimal = true
-- 
2.43.0


From b5e8551d347f43d72fceb613673723fbff4a9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:08 +0000
Subject: [PATCH 071/192] fix: the Go generator crashed on an action with no
 expected response

---
 golang/golang_model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 2509f5c..30bee92 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -79,8 +79,10 @@ func (gen *Generator) EmitResponseType(hd *sadl.HttpDef) {
 	}
 	td.Type = "Struct"
 	fields := make([]*sadl.StructFieldDef, 0)
-	for _, p := range hd.Expected.Outputs {
-		fields = append(fields, &p.StructFieldDef)
+	if hd.Expected != nil {
+		for _, p := range hd.Expected.Outputs {
+			fields = append(fields, &p.StructFieldDef)
+		}
 	}
 	td.Fields = fields
 	gen.EmitStructType(td, nil)
-- 
2.43.0


From 855cad07ccd8b25f2b558cc295952d8d1660d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:08 +0000
Subject: [PATCH 072/192] fix: generated Go servers did not compile unless the
 model uses a Timestamp

---
 golang/golang_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 30bee92..8af1303 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -14,7 +14,7 @@ func (gen *Generator) CreateModel() {
 	gen.Begin()
 	gen.EmitInterface()
 	gen.EmitTypeDefs()
-	if gen.createTimestamp {
+	if gen.createTimestamp || gen.createServer {
 		gen.EmitTimestamp()
 	}
 	if gen.createDecimal {
-- 
2.43.0


From bf6cf5a2ce54e47de9c7f87b3a7e2bd5a6029596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:09 +0000
Subject: [PATCH 073/192] fix: generated Go servers declared err twice for an
 action with query parameters and a body, or with no content

---
 golang/golang_server.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 83ffab9..7c001e6 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -76,7 +76,7 @@ func (gen *Generator) EmitServerAdaptor() {
 			}
 			s := ""
 			if form {
-				s = "\terr := r.ParseForm()\n\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
+				s = "\tif err := r.ParseForm(); err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 			}
 			for _, in := range hd.Inputs {
 				name := sadl.Capitalize(in.Name)
@@ -87,8 +87,7 @@ func (gen *Generator) EmitServerAdaptor() {
 				} else if in.Path {
 					s = s + "\treq." + name + " = " + gen.paramAccessor(in, fmt.Sprintf("mux.Vars(r)[%q]", in.Name)) + "\n"
 				} else {
-					s = s + "\terr := json.NewDecoder(r.Body).Decode(&req." + name + ")\n"
-					s = s + "\tif err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
+					s = s + "\tif err := json.NewDecoder(r.Body).Decode(&req." + name + "); err != nil {\n\t\terrorResponse(w, 400, fmt.Sprint(err))\n\t\treturn\n\t}\n"
 				}
 			}
 			return s
-- 
2.43.0


From aa44e4c683263bf5c9f34d779da37231006f4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:10 +0000
Subject: [PATCH 074/192] fix: generated Go servers did not compile for an
 action without outputs, or with headers and no content

---
 golang/golang_server.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 7c001e6..9924162 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -111,12 +111,10 @@ func (gen *Generator) EmitServerAdaptor() {
 			return s
 		},
 		"expectedResult": func(hd *sadl.HttpDef) string {
-			switch hd.Expected.Status {
-			case 204, 304:
+			if len(hd.Expected.Outputs) == 0 {
 				return "_"
-			default:
-				return "res"
 			}
+			return "res"
 		},
 		"expectedEntity": func(hd *sadl.HttpDef) string {
 			for _, out := range hd.Expected.Outputs {
-- 
2.43.0


From ab40bb45fe060a47d7dccb319c82af3c3ec69267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:11 +0000
Subject: [PATCH 075/192] fix: generated Go servers had the address of a string
 as its default

---
 golang/golang_server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 9924162..1429ca4 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -190,6 +190,8 @@ func stringDefault(any interface{}) string {
 	switch v := any.(type) {
 	case string:
 		return v
+	case *string:
+		return *v
 	default:
 		return fmt.Sprint(any)
 	}
-- 
2.43.0


From dccf425bd7a9b0acbed73722c381accc9ad5a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:12 +0000
Subject: [PATCH 076/192] fix: generated Go servers did not compile for a
 Timestamp parameter with a default

---
 golang/golang_server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index 1429ca4..faf7f84 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -200,11 +200,13 @@ func stringDefault(any interface{}) string {
 func timestampDefault(any interface{}) string {
 	switch v := any.(type) {
 	case *sadl.Timestamp:
-		return fmt.Sprintf("%q", v.String())
+		return fmt.Sprintf("TimestampFromString(%q)", v.String())
+	case *string:
+		return timestampDefault(*v)
 	case string:
 		ts, err := sadl.ParseTimestamp(v)
 		if err == nil {
-			return fmt.Sprintf("%q", ts.String())
+			return fmt.Sprintf("TimestampFromString(%q)", ts.String())
 		}
 	}
 	return "nil"
-- 
2.43.0


From 9b9a7b3b64b9d16e0088e57e02c67f332b6f2749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:12 +0000
Subject: [PATCH 077/192] fix: generated Go servers lost integer defaults of a
 model that was read from JSON

---
 golang/golang_server.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index faf7f84..385fc57 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -217,6 +217,14 @@ func intDefault(v interface{}) int64 {
 		switch n := v.(type) {
 		case *sadl.Decimal:
 			return n.AsInt64()
+		case float64:
+			return int64(n)
+		case int:
+			return int64(n)
+		case int32:
+			return int64(n)
+		case int64:
+			return n
 		}
 	}
 	return 0
-- 
2.43.0


From 5e614b42f796ea3108c49b29c52b6074c9144a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:13 +0000
Subject: [PATCH 078/192] fix: generated Go code did not compile for an
 exception that is a Union

---
 golang/golang_client.go | 5 ++---
 golang/golang_server.go | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 24ff55a..dafc8f6 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -114,10 +114,9 @@ func (gen *Generator) EmitClient() {
 		"exceptionResults": func(hd *sadl.HttpDef) string {
 			s := ""
 			for _, es := range hd.Exceptions {
-				natType := gen.nativeType(es.Type)
 				s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
-				s = s + "\t\tvar errEntity " + natType + "\n"
-				s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&errEntity)\n"
+				s = s + "\t\terrEntity := new(" + es.Type + ")\n"
+				s = s + "\t\terr = json.NewDecoder(res.Body).Decode(errEntity)\n"
 				s = s + "\t\tif err != nil {\n"
 				s = s + "\t\t\treturn nil, err\n"
 				s = s + "\t\t}\n"
diff --git a/golang/golang_server.go b/golang/golang_server.go
index 385fc57..d5d9e1d 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -105,7 +105,7 @@ func (gen *Generator) EmitServerAdaptor() {
 		"exceptions": func(hd *sadl.HttpDef) string {
 			s := ""
 			for _, e := range hd.Exceptions {
-				s = s + "\t\tcase " + gen.nativeType(e.Type) + ":\n"
+				s = s + "\t\tcase *" + e.Type + ":\n"
 				s = s + fmt.Sprintf("\t\t\tjsonResponse(w, %d, err)\n", e.Status)
 			}
 			return s
-- 
2.43.0


From fdb935bed89117d082218a518412f927ca6d84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:19 +0000
Subject: [PATCH 079/192] fix: generated Go clients did not compile unless the
 service is called Crudl

---
 golang/golang_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index dafc8f6..6631f58 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -163,8 +163,8 @@ type {{clientName}} struct {
 	Target string
 }
 
-func NewClient(target string) (*CrudlClient, error) {
-	return &CrudlClient{
+func NewClient(target string) (*{{clientName}}, error) {
+	return &{{clientName}}{
 		Target: target,
 	}, nil
 }
-- 
2.43.0


From 8f7aad9689b1703aa83fab8eddf4e324d23f40e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:20 +0000
Subject: [PATCH 080/192] fix: generated Go clients sent the name of a path
 parameter instead of its value

---
 golang/golang_client.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 6631f58..ab18675 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -78,7 +78,38 @@ func (gen *Generator) EmitClient() {
 			if i >= 0 {
 				path = path[0:i]
 			}
-			return path
+			s := ""
+			for _, in := range hd.Inputs {
+				param := "{" + in.Name + "}"
+				if in.Path && strings.Contains(path, param) {
+					gen.addImport("net/url")
+				}
+			}
+			for path != "" {
+				//a literal up to the next path parameter, then the parameter
+				n := len(path)
+				expr := ""
+				rest := ""
+				for _, in := range hd.Inputs {
+					param := "{" + in.Name + "}"
+					if i := strings.Index(path, param); in.Path && i >= 0 && i < n {
+						n = i
+						expr = "url.PathEscape(fmt.Sprint(req." + sadl.Capitalize(in.Name) + "))"
+						rest = path[i+len(param):]
+					}
+				}
+				if n > 0 {
+					s = s + fmt.Sprintf(" + %q", path[:n])
+				}
+				if expr != "" {
+					s = s + " + " + expr
+				}
+				path = rest
+			}
+			if s == "" {
+				return `""`
+			}
+			return s[3:]
 		},
 		"expectedResults": func(hd *sadl.HttpDef) string {
 			s := fmt.Sprintf("\tcase %d:\n", hd.Expected.Status)
@@ -170,12 +201,12 @@ func NewClient(target string) (*{{clientName}}, error) {
 }
 {{range .Model.Http}}
 func (client *{{clientName}}) {{methodSignature .}} {
-	url := client.Target + "{{methodPath .}}"
+	target := client.Target + {{methodPath .}}
 	var args []string
 {{queryParams .}}	if len(args) > 0 {
-		url = url + "?" + strings.Join(args, "&")
+		target = target + "?" + strings.Join(args, "&")
 	}
-	hreq, err := http.NewRequest("{{.Method}}", url, {{reqBodyReader .}})
+	hreq, err := http.NewRequest("{{.Method}}", target, {{reqBodyReader .}})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a265c6eddc523c5d588bda19ba4db59c99a9647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:21 +0000
Subject: [PATCH 081/192] fix: generated Go clients sent query parameters under
 the wrong name, unescaped, and floats not at all

---
 golang/golang_client.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index ab18675..139fbf6 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -62,7 +62,8 @@ func (gen *Generator) EmitClient() {
 			for _, in := range hd.Inputs {
 				if in.Query != "" {
 					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
-					s = s + "\t\targs = append(args, fmt.Sprintf(\"" + in.Name + "=" + gen.typeFormat(in.Type) + "\", req." + sadl.Capitalize(in.Name) + "))\n"
+					gen.addImport("net/url")
+					s = s + "\t\targs = append(args, \"" + in.Query + "=\" + url.QueryEscape(fmt.Sprintf(\"" + gen.typeFormat(in.Type) + "\", req." + sadl.Capitalize(in.Name) + ")))\n"
 					s = s + "\t}\n"
 				}
 			}
@@ -182,8 +183,8 @@ func (gen *Generator) typeFormat(sadlType string) string {
 		return "%s"
 	case "Int8", "Int16", "Int32", "Int64":
 		return "%d"
-	case "Float32", "Float64", "Decimal":
-		return "&g"
+	case "Float32", "Float64":
+		return "%g"
 	default:
 		return "%v"
 	}
-- 
2.43.0


From 1e71d3e582de75de82ace7561d65a9c28a5c9257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:22 +0000
Subject: [PATCH 082/192] fix: generated Go clients did not compile for UUID,
 Decimal or Enum query parameters

---
 golang/golang_client.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 139fbf6..0052aa2 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -163,14 +163,19 @@ func (gen *Generator) EmitClient() {
 func (gen *Generator) notSet(sadlType string) string {
 	bt := gen.baseType(sadlType)
 	switch bt {
-	case "String":
+	case "String", "UUID":
 		return `""`
-	case "Int8", "Int16", "Int32", "Int64":
+	case "Int8", "Int16", "Int32", "Int64", "Enum":
 		return "0"
-	case "Float32", "Float64", "Decimal":
+	case "Float32", "Float64":
 		return "0.0"
 	case "Bool":
 		return "false"
+	case "Decimal", "Union":
+		if sadlType != "Decimal" {
+			panic("Fix this: " + sadlType)
+		}
+		return "nil"
 	default:
 		return "nil"
 	}
-- 
2.43.0


From b258601e503a7f4f8dbe6fc1fbb0159e4e6d74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:22 +0000
Subject: [PATCH 083/192] fix: generated Go clients did not send header
 parameters

---
 golang/golang_client.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 0052aa2..016bbb0 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -69,6 +69,17 @@ func (gen *Generator) EmitClient() {
 			}
 			return s
 		},
+		"headers": func(hd *sadl.HttpDef) string {
+			s := ""
+			for _, in := range hd.Inputs {
+				if in.Header != "" {
+					s = s + "\tif req." + sadl.Capitalize(in.Name) + " != " + gen.notSet(in.Type) + " {\n"
+					s = s + "\t\threq.Header.Set(" + fmt.Sprintf("%q", in.Header) + ", fmt.Sprint(req." + sadl.Capitalize(in.Name) + "))\n"
+					s = s + "\t}\n"
+				}
+			}
+			return s
+		},
 		"methodSignature": func(hd *sadl.HttpDef) string {
 			name := sadl.Capitalize(hd.Name)
 			return name + "(req *" + name + "Request) (*" + name + "Response, error)"
@@ -217,6 +228,7 @@ func (client *{{clientName}}) {{methodSignature .}} {
 		return nil, err
 	}
 {{requestEntityContentType .}}
+{{headers .}}
 	res, err := http.DefaultClient.Do(hreq)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f4334ebe9bbdcffb1e40778a6a370676795494f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:23 +0000
Subject: [PATCH 084/192] fix: generated Go clients imported packages they do
 not use

---
 golang/golang_client.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 016bbb0..92536c3 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -23,11 +23,11 @@ func (gen *Generator) CreateClient() {
 
 func (gen *Generator) EmitClient() {
 	gen.imports = nil
-	gen.addImport("encoding/json")
-	gen.addImport("fmt")
-	gen.addImport("net/http")
-	//	gen.addImport("net/url")
-	gen.addImport("strings")
+	if len(gen.Model.Http) > 0 {
+		gen.addImport("fmt")
+		gen.addImport("net/http")
+		gen.addImport("strings")
+	}
 	//	gen.addImport("time")
 	funcMap := template.FuncMap{
 		"openBrace":   func() string { return "{" },
@@ -135,6 +135,7 @@ func (gen *Generator) EmitClient() {
 				natType := gen.nativeType(out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
+					gen.addImport("encoding/json")
 					s = s + "\t\tvar entity " + natType + "\n"
 					s = s + "\t\terr = json.NewDecoder(res.Body).Decode(&entity)\n"
 					s = s + "\t\tif err != nil {\n"
@@ -157,6 +158,7 @@ func (gen *Generator) EmitClient() {
 		"exceptionResults": func(hd *sadl.HttpDef) string {
 			s := ""
 			for _, es := range hd.Exceptions {
+				gen.addImport("encoding/json")
 				s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
 				s = s + "\t\terrEntity := new(" + es.Type + ")\n"
 				s = s + "\t\terr = json.NewDecoder(res.Body).Decode(errEntity)\n"
-- 
2.43.0


From 2dee24df609d893b68bcd8f26d339846443a692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:24 +0000
Subject: [PATCH 085/192] fix: generated Go clients did not compile without the
 server when a request has a body

---
 golang/golang_client.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 92536c3..5ba9f6b 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -29,6 +29,7 @@ func (gen *Generator) EmitClient() {
 		gen.addImport("strings")
 	}
 	//	gen.addImport("time")
+	needsJson := false
 	funcMap := template.FuncMap{
 		"openBrace":   func() string { return "{" },
 		"clientName":  func() string { return sadl.Capitalize(gen.Name) + "Client" },
@@ -51,6 +52,7 @@ func (gen *Generator) EmitClient() {
 				for _, in := range hd.Inputs {
 					if !in.Path && in.Query == "" && in.Header == "" {
 						gen.addImport("bytes")
+						needsJson = !gen.createServer //the server has it, too
 						return "bytes.NewReader([]byte(Json(req." + sadl.Capitalize(in.Name) + ")))"
 					}
 				}
@@ -123,6 +125,13 @@ func (gen *Generator) EmitClient() {
 			}
 			return s[3:]
 		},
+		"jsonUtil": func() string {
+			if !needsJson {
+				return ""
+			}
+			gen.addImport("encoding/json")
+			return clientJson
+		},
 		"expectedResults": func(hd *sadl.HttpDef) string {
 			s := fmt.Sprintf("\tcase %d:\n", hd.Expected.Status)
 			//			if hd.Expected.Status == 204 || hd.Expected.Status == 304 {
@@ -243,5 +252,17 @@ func (client *{{clientName}}) {{methodSignature .}} {
    return nil,fmt.Errorf("whoops")
 }
 {{end}}
+{{jsonUtil}}
+`
 
+var clientJson = `
+func Json(obj interface{}) string {
+   buf := new(bytes.Buffer)
+   enc := json.NewEncoder(buf)
+   enc.SetEscapeHTML(false)
+   if err := enc.Encode(&obj); err != nil {
+      return fmt.Sprint(obj)
+   }
+   return string(buf.String())
+}
 `
-- 
2.43.0


From 65753769ff169d4099a1c8f1f1a532fc7b126497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:24 +0000
Subject: [PATCH 086/192] fix: the Go generator failed for clients whose
 response is an inline Array or Map

---
 golang/golang_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 5ba9f6b..cec50d0 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -141,7 +141,7 @@ func (gen *Generator) EmitClient() {
 			//			}
 			s = s + "\t\tresponse := &" + sadl.Capitalize(hd.Name) + "Response{}\n"
 			for _, out := range hd.Expected.Outputs {
-				natType := gen.nativeType(out.Type)
+				natType := gen.nativeTypeName(&out.TypeSpec, out.Type)
 				name := sadl.Capitalize(out.Name)
 				if out.Header == "" {
 					gen.addImport("encoding/json")
-- 
2.43.0


From cdc5701e2ff5e45159df6b8dabf39d545d6b8e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:25 +0000
Subject: [PATCH 087/192] fix: generated Go clients did not compile for
 response headers that are not a plain String

---
 golang/golang_client.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index cec50d0..641514c 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -153,12 +153,19 @@ func (gen *Generator) EmitClient() {
 					s = s + "\t\tresponse." + name + " = entity\n"
 				} else {
 					i := "res.Header.Get(" + fmt.Sprintf("%q", out.Header) + ")" //fold header name consistently?
-					switch natType {
-					case "*Timestamp":
-						i = "TimestampFromString(" + i + ")"
+					switch gen.baseType(out.Type) {
+					case "Timestamp":
+						s = s + "\t\tresponse." + name + " = TimestampFromString(" + i + ")\n"
+					case "String", "UUID":
+						s = s + "\t\tresponse." + name + " = " + natType + "(" + i + ")\n"
+					case "Int8", "Int16", "Int32", "Int64":
+						gen.addImport("strconv")
+						s = s + "\t\tif n, err := strconv.ParseInt(" + i + ", 10, 64); err == nil {\n"
+						s = s + "\t\t\tresponse." + name + " = " + natType + "(n)\n"
+						s = s + "\t\t}\n"
 					default:
+						panic("Fix this: " + out.Type)
 					}
-					s = s + "\t\tresponse." + name + " = " + i + "\n"
 				}
 			}
 			s = s + "\t\treturn response, nil\n"
-- 
2.43.0


From f9ad711c5498854d9a556abd3bf403e6ec08a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:26 +0000
Subject: [PATCH 088/192] fix: generated Go clients did not compile when two
 exceptions have the same status

---
 golang/golang_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/golang/golang_client.go b/golang/golang_client.go
index 641514c..286a774 100644
--- a/golang/golang_client.go
+++ b/golang/golang_client.go
@@ -173,7 +173,12 @@ func (gen *Generator) EmitClient() {
 		},
 		"exceptionResults": func(hd *sadl.HttpDef) string {
 			s := ""
+			seen := map[int32]bool{hd.Expected.Status: true}
 			for _, es := range hd.Exceptions {
+				if seen[es.Status] {
+					continue //several types can have a status, the first one is taken
+				}
+				seen[es.Status] = true
 				gen.addImport("encoding/json")
 				s = s + fmt.Sprintf("\tcase %d:\n", es.Status)
 				s = s + "\t\terrEntity := new(" + es.Type + ")\n"
-- 
2.43.0


From 24c90af5f0f66989310683af376451a6cbd5b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:56 +0000
Subject: [PATCH 089/192] fix: generated Go enums did not compile when an
 x_enumValue has a quote or a backslash in it

---
 golang/golang_model.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index 8af1303..d6f01ce 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -211,9 +212,9 @@ func (gen *Generator) EmitEnumType(td *sadl.TypeDef) {
 		"enumValue": func(el sadl.EnumElementDef) string {
 			val := sadl.GetAnnotation(el.Annotations, "x_enumValue")
 			if val == "" {
-				return el.Symbol
+				val = el.Symbol
 			}
-			return val
+			return strconv.Quote(val)
 		},
 	}
 	gen.addImport("encoding/json")
@@ -229,7 +230,7 @@ const (
 )
 
 var names{{.Name}} = []string{{openBrace}}{{range .Elements}}
-    {{.Symbol}}: "{{enumValue .}}",{{end}}
+    {{.Symbol}}: {{enumValue .}},{{end}}
 }
 
 func (e {{.Name}}) String() string {
-- 
2.43.0


From 6beb2b1bfc63d66a8f4d4399b2f3454fe63dd42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 090/192] fix: generated Go servers crashed when a
 Last-Modified, Date or Expires output is not set

---
 golang/golang_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/golang/golang_server.go b/golang/golang_server.go
index d5d9e1d..f505f5d 100644
--- a/golang/golang_server.go
+++ b/golang/golang_server.go
@@ -336,6 +336,9 @@ func normalizeHeaderValue(key string, value interface{}) string {
       case time.Time:
          return timestampRfc2616(ts)
       case *Timestamp:
+         if ts == nil {
+            return ""
+         }
          return timestampRfc2616(ts.Time)
       case string:
 			return ts //just trust the application
-- 
2.43.0


From 9ce78f334dc93bdc290f1469e276f70dacbaaf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 091/192] fix: generated Go timestamps are printed in UTC with
 a four digit year

---
 golang/golang_model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index d6f01ce..e19972c 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -366,13 +366,14 @@ type Timestamp struct {
 	time.Time
 }
 
-const RFC3339Milli = "%d-%02d-%02dT%02d:%02d:%02d.%03dZ"
+const RFC3339Milli = "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ"
 
 func (ts Timestamp) String() string {
 	if ts.IsZero() {
 		return ""
 	}
-	return fmt.Sprintf(RFC3339Milli, ts.Year(), ts.Month(), ts.Day(), ts.Hour(), ts.Minute(), ts.Second(), ts.Nanosecond()/1000000)
+	t := ts.UTC()
+	return fmt.Sprintf(RFC3339Milli, t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/1000000)
 }
 
 func (ts Timestamp) MarshalJSON() ([]byte, error) {
-- 
2.43.0


From edeeadd61de4a80e509e1ad179d106c4aa6b3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:04 +0000
Subject: [PATCH 092/192] fix: the domain option of the Java generator was
 ignored

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index f760c26..58bfc52 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -97,7 +97,7 @@ func (gen *Generator) AddImport(fullReference string) {
 func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generator {
 	gen := &Generator{}
 	gen.Config = config
-	domain := gen.Config.GetString("domain", "-")
+	domain := gen.GetConfigString("domain", "")
 	if domain == "" {
 		if model.Namespace != "" {
 			domain = strings.Join(reverseStrings(strings.Split(model.Namespace, ".")), ".")
-- 
2.43.0


From 5ce7468fdc7b173c1ae240da33f5d1a91f54f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:05 +0000
Subject: [PATCH 093/192] fix: generated Java exceptions ignored their own
 message field in JSON

---
 java/export_java.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 58bfc52..2b0d319 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -263,11 +263,15 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	if extends != "" {
 		var ignoreFields []string
 		for _, f := range []string{"message", "stackTrace", "cause", "localizedMessage", "suppressed"} {
+			declared := false
 			for _, fd := range ts.Fields {
-				if fd.Name != f {
-					ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
+				if fd.Name == f {
+					declared = true
 				}
 			}
+			if !declared {
+				ignoreFields = append(ignoreFields, fmt.Sprintf("%q", f))
+			}
 		}
 		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
 		gen.Emit(indent + "@JsonIgnoreProperties({" + strings.Join(ignoreFields, ", ") + "})\n")
-- 
2.43.0


From 83c2153abbc722c6f2d140edbe2f8f90a4899a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 094/192] fix: generated Java did not compile for Bytes, and
 for named Bool, Bytes and Any types

---
 java/export_java.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 2b0d319..f19c10c 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -751,6 +751,8 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	case "UUID":
 		gen.AddImport("java.util.UUID")
 		return name, annotations, nil
+	case "Bytes":
+		return "byte[]", annotations, nil
 	case "Any":
 		return "Object", annotations, nil
 	default:
@@ -758,7 +760,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		td := gen.Model.FindType(name)
 		if td != nil {
 			switch td.Type {
-			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Boolean":
+			case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Bool":
 				return gen.TypeName(&td.TypeSpec, td.Type, required)
 			case "String":
 				return gen.TypeName(&td.TypeSpec, "String", required)
@@ -773,6 +775,8 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			case "UUID":
 				gen.AddImport("java.util.UUID")
 				return "UUID", annotations, nil
+			case "Bytes", "Any":
+				return gen.TypeName(&td.TypeSpec, td.Type, required)
 			case "Decimal":
 				gen.AddImport("java.math.BigDecimal")
 				if td.Min != nil {
-- 
2.43.0


From c5d2355cd0d870818681d0a0871dd4c0525d220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 095/192] fix: the Java generator crashed on an Array or Map
 with plain Array or Map items

---
 java/export_java.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index f19c10c..759c5c2 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -732,7 +732,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		return "Timestamp", annotations, nil
 	case "Array":
 		gen.AddImport("java.util.List")
-		if ts == nil {
+		if ts == nil || ts.Items == "" {
 			return "List", annotations, nil
 		}
 		td := gen.Model.FindType(ts.Items)
@@ -740,7 +740,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		return "List<" + items + ">", annotations, nil
 	case "Map":
 		gen.AddImport("java.util.Map")
-		if ts == nil {
+		if ts == nil || ts.Items == "" || ts.Keys == "" {
 			return "Map", annotations, nil
 		}
 		ktd := gen.Model.FindType(ts.Keys)
-- 
2.43.0


From 7c9bf10ca40c022eb00817bd7a912700cc65cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:07 +0000
Subject: [PATCH 096/192] fix: the generated Java Timestamp class was not in
 the package that uses it

---
 java/java_timestamp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/java_timestamp.go b/java/java_timestamp.go
index ecfbb07..41048ea 100644
--- a/java/java_timestamp.go
+++ b/java/java_timestamp.go
@@ -50,7 +50,7 @@ func (gen *Generator) CreateTimestamp() {
 	gen.Emit(javaTimestamp)
 	result := gen.End()
 	if gen.Err == nil {
-		gen.WriteJavaFile("Timestamp", result, gen.Package)
+		gen.WriteJavaFile("Timestamp", result, gen.ModelPackage)
 	}
 }
 
-- 
2.43.0


From d65b4b822604a4622e25cac882b906ad12bb62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 097/192] fix: generated Java UnitValue classes did not
 compile, or the generator crashed on their unit

---
 java/export_java.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 759c5c2..6dfc99e 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -581,6 +581,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 
 func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 	gen.AddImport("javax.validation.constraints.NotNull")
+	gen.AddImport("com.fasterxml.jackson.annotation.JsonCreator")
 	gen.AddImport("com.fasterxml.jackson.annotation.JsonValue")
 	gen.Emit("public class " + className + " {\n\n")
 
@@ -615,7 +616,7 @@ func (gen *Generator) CreateUnitValuePojo(ts *sadl.TypeSpec, className string) {
 		v = "new BigDecimal(tmp[0])"
 	}
 	u := "<bad unit type, must be enum or string>"
-	ut := gen.Model.FindType(unitType)
+	ut := gen.Model.FindType(ts.Unit)
 	switch ut.Type {
 	case "String":
 		u = "tmp[1]"
-- 
2.43.0


From 2eaf4fd1513920e83aae450dc0c0dab0c758ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 098/192] fix: generated Java did not compile for numbers with
 a minimum or maximum

---
 java/export_java.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 6dfc99e..76f3bb4 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -701,10 +701,12 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 	case "Byte", "Short", "Integer", "Long", "Float", "Double":
 		if ts != nil {
 			if ts.Min != nil {
-				annotations = append(annotations, fmt.Sprintf("@Min(%s)", ts.Min.String()))
+				gen.AddImport("javax.validation.constraints.DecimalMin")
+				annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String()))
 			}
 			if ts.Max != nil {
-				annotations = append(annotations, fmt.Sprintf("@Max(%s)", ts.Max.String()))
+				gen.AddImport("javax.validation.constraints.DecimalMax")
+				annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String()))
 			}
 		}
 		return name, annotations, nil
@@ -712,9 +714,11 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		gen.AddImport("java.math.BigDecimal")
 		if ts != nil {
 			if ts.Min != nil {
+				gen.AddImport("javax.validation.constraints.DecimalMin")
 				annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", ts.Min.String()))
 			}
 			if ts.Max != nil {
+				gen.AddImport("javax.validation.constraints.DecimalMax")
 				annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", ts.Max.String()))
 			}
 		}
@@ -781,9 +785,11 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			case "Decimal":
 				gen.AddImport("java.math.BigDecimal")
 				if td.Min != nil {
+					gen.AddImport("javax.validation.constraints.DecimalMin")
 					annotations = append(annotations, fmt.Sprintf("@DecimalMin(%q)", td.Min.String()))
 				}
 				if td.Max != nil {
+					gen.AddImport("javax.validation.constraints.DecimalMax")
 					annotations = append(annotations, fmt.Sprintf("@DecimalMax(%q)", td.Max.String()))
 				}
 				return "BigDecimal", annotations, nil
-- 
2.43.0


From 96032d175ec76ce48a1a562e4c56dd6481192d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:10 +0000
Subject: [PATCH 099/192] fix: generated Java enums did not compile when an
 x_enumValue has a quote or a backslash in it

---
 java/export_java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 76f3bb4..41288b0 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -438,7 +438,7 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 		if val == "" {
 			val = sym
 		}
-		gen.Emit("    " + sym + "(\"" + val + "\")" + delim + comment)
+		gen.Emit("    " + sym + "(" + fmt.Sprintf("%q", val) + ")" + delim + comment)
 	}
 	gen.Emit("\n")
 	gen.Emit("    private String repr;\n\n")
-- 
2.43.0


From dcbf03676fb2b21a3dfee5a6e69daf1c654fc2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:40 +0000
Subject: [PATCH 100/192] fix: generated Java did not compile for a field with
 an inline Struct type, and the order of nested classes was random

---
 java/export_java.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 41288b0..5f8c9cd 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -345,8 +345,9 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
     }
 `)
 		}
-		if len(nested) > 0 {
-			for iname, ispec := range nested {
+		for _, fd := range ts.Fields {
+			iname := gen.Capitalize(fd.Name)
+			if ispec, ok := nested[iname]; ok {
 				gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
 			}
 		}
@@ -354,10 +355,19 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 	gen.Emit("}\n")
 }
 
+// fieldTypeName - the Java type of a field. A field with an inline Struct type has a nested class named after the field.
+func (gen *Generator) fieldTypeName(fd *sadl.StructFieldDef) string {
+	tn, _, anonymous := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	if anonymous != nil {
+		return gen.Capitalize(fd.Name)
+	}
+	return tn
+}
+
 func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSpec, indent string) {
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.fieldTypeName(fd)
 		args = append(args, tn+" "+fd.Name)
 	}
 	gen.Emit(indent + "    public " + className + "(" + strings.Join(args, ", ") + ") {\n")
@@ -368,7 +378,7 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 }
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
-	tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+	tn := gen.fieldTypeName(fd)
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
@@ -385,7 +395,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "@JsonPOJOBuilder(withPrefix=\"\")\n")
 	gen.Emit(indent + "public static class " + builderClass + " {\n")
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.fieldTypeName(fd)
 		gen.Emit(indent + "    private " + tn + " " + fd.Name + ";\n")
 	}
 	gen.Emit("\n")
@@ -398,7 +408,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	gen.Emit(indent + "    }\n\n")
 	var args []string
 	for _, fd := range ts.Fields {
-		tn, _, _ := gen.TypeName(&fd.TypeSpec, fd.Type, fd.Required)
+		tn := gen.fieldTypeName(fd)
 		if fd.Type == "Timestamp" {
 			if gen.UseInstants {
 				gen.NeedUtil = true
-- 
2.43.0


From 1f927a940fbfb441d451503746c13fcfd2c241ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:41 +0000
Subject: [PATCH 101/192] fix: the Java client generator crashed on an action
 without a name

---
 java/java_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/java_client.go b/java/java_client.go
index a2fac2d..68a4f3c 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -137,7 +137,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 						writer.WriteString("            " + tn + " " + out.Name + " = " + osrc + ";\n")
 					}
 				}
-				responseType := gen.ResponseType(hact.Name)
+				responseType := gen.ResponseType(gen.ActionName(hact))
 				writer.WriteString("            return " + responseType + ".builder()\n")
 				if etype != "void" {
 					writer.WriteString("                ." + ename + "(" + ename + ")\n")
-- 
2.43.0


From 06c47d0a3f28203dd5722da159e871e81849e9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 102/192] fix: the Java server and client did not use the
 configured name of the service that the model uses

---
 java/java_client.go | 2 +-
 java/java_server.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 68a4f3c..a2b2523 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -37,7 +37,7 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 	if gen.Err != nil {
 		return
 	}
-	serviceName := gen.Capitalize(gen.Model.Name)
+	serviceName := gen.Name
 	rootPath := gen.Model.Base
 	if rootPath == "" {
 		rootPath = "/"
diff --git a/java/java_server.go b/java/java_server.go
index a63b750..42747d4 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -77,10 +77,10 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 	if gen.ServerData != nil {
 		return
 	}
-	if gen.Model.Name == "" {
+	if gen.Name == "" {
 		panic("no model name!")
 	}
-	serviceName := gen.Capitalize(gen.Model.Name)
+	serviceName := gen.Name
 	rootPath := gen.Model.Base
 	if rootPath == "" {
 		rootPath = "/"
-- 
2.43.0


From ce53cf035bbda7e9add666f6bcfa6d3c7c6abbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 103/192] fix: the Java server generator failed on a String
 default of a parameter

---
 java/java_server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/java_server.go b/java/java_server.go
index 42747d4..e8b65cc 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -202,6 +202,8 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				}
 				if in.Default != nil {
 					switch b := in.Default.(type) {
+					case string:
+						param = fmt.Sprintf("@DefaultValue(%q)", b) + " " + param
 					case *string:
 						param = fmt.Sprintf("@DefaultValue(%q)", *b) + " " + param
 					case *sadl.Decimal:
-- 
2.43.0


From f8ba9ccb7b580d08484b8e9906fa0b01ad51da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 104/192] fix: generated Java servers and clients did not
 compile for Decimal and UUID parameters and response headers that are not a
 String

---
 java/java_client.go | 20 ++++++++++++++++++++
 java/java_server.go |  1 +
 2 files changed, 21 insertions(+)

diff --git a/java/java_client.go b/java/java_client.go
index a2b2523..9c7d1c9 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -67,6 +67,24 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 		switch typename {
 		case "Instant":
 			return "Instant.parse(" + val + ")"
+		case "boolean":
+			return "Boolean.parseBoolean(" + val + ")"
+		case "byte":
+			return "Byte.parseByte(" + val + ")"
+		case "short":
+			return "Short.parseShort(" + val + ")"
+		case "int":
+			return "Integer.parseInt(" + val + ")"
+		case "long":
+			return "Long.parseLong(" + val + ")"
+		case "float":
+			return "Float.parseFloat(" + val + ")"
+		case "double":
+			return "Double.parseDouble(" + val + ")"
+		case "BigDecimal":
+			return "new BigDecimal(" + val + ")"
+		case "UUID":
+			return "UUID.fromString(" + val + ")"
 		default:
 			return val
 		}
@@ -183,7 +201,9 @@ public interface ClientConfig {
 
 const clientTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
+import java.math.BigDecimal;
 import java.time.Instant;
+import java.util.*;
 import javax.ws.rs.client.Client;
 import javax.ws.rs.client.ClientBuilder;
 import javax.ws.rs.client.Entity;
diff --git a/java/java_server.go b/java/java_server.go
index e8b65cc..73b08ba 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -374,6 +374,7 @@ public class {{.MainClass}} {
 
 const resourcesTemplate = `
 {{if .ModelPackage}}import {{.ModelPackage}}.*;{{end}}
+import java.math.BigDecimal;
 import java.util.*;
 import java.time.Instant;
 import javax.inject.Inject;
-- 
2.43.0


From a3348e548e1ebc6a25c37706a37ce6619f302a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:13 +0000
Subject: [PATCH 105/192] fix: the Java client generator failed on PATCH, HEAD
 and OPTIONS actions, and its code did not compile for a PUT or POST without a
 body

---
 java/java_client.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/java/java_client.go b/java/java_client.go
index 9c7d1c9..d257ae2 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -130,14 +130,17 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 				}
 			}
 			switch hact.Method {
-			case "PUT", "POST":
-				ename, _ := gen.ActionInfo(hact)
-				src := "Entity.entity(req.get" + gen.Capitalize(ename) + "(), MediaType.APPLICATION_JSON)"
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "(" + src + ");\n")
-			case "GET", "DELETE":
-				writer.WriteString(";\n        Response response = inv." + strings.ToLower(hact.Method) + "();\n")
+			case "PUT", "POST", "PATCH":
+				src := "Entity.json(\"\")"
+				for _, in := range hact.Inputs {
+					if in.Query == "" && in.Header == "" && !in.Path {
+						src = "Entity.entity(req.get" + gen.Capitalize(in.Name) + "(), MediaType.APPLICATION_JSON)"
+						break
+					}
+				}
+				writer.WriteString(";\n        Response response = inv.method(\"" + hact.Method + "\", " + src + ");\n")
 			default:
-				panic("fix me: method = " + hact.Method)
+				writer.WriteString(";\n        Response response = inv.method(\"" + hact.Method + "\");\n")
 			}
 			writer.WriteString("        switch (response.getStatus()) {\n")
 			writer.WriteString("        case " + fmt.Sprint(hact.Expected.Status) + ":\n")
-- 
2.43.0


From cb8aea8e9349bce8dba7416ab98175998b299750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:14 +0000
Subject: [PATCH 106/192] fix: generated Java clients did not compile for a
 response entity that is a list or a map

---
 java/java_client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/java/java_client.go b/java/java_client.go
index d257ae2..8826931 100644
--- a/java/java_client.go
+++ b/java/java_client.go
@@ -149,7 +149,11 @@ func (gen *Generator) CreateClientDataAndFuncMap(src, rez string) {
 			} else {
 				ename, etype := entityNameType(hact)
 				if etype != "void" {
-					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + etype + ".class);\n")
+					class := etype + ".class"
+					if strings.Contains(etype, "<") {
+						class = "new GenericType<" + etype + ">() {}"
+					}
+					writer.WriteString("            " + etype + " " + ename + " = response.readEntity(" + class + ");\n")
 				}
 				for _, out := range hact.Expected.Outputs {
 					if out.Header != "" {
@@ -212,6 +216,7 @@ import javax.ws.rs.client.ClientBuilder;
 import javax.ws.rs.client.Entity;
 import javax.ws.rs.client.WebTarget;
 import javax.ws.rs.client.Invocation;
+import javax.ws.rs.core.GenericType;
 import javax.ws.rs.core.MediaType;
 import javax.ws.rs.core.Response;
 import javax.ws.rs.WebApplicationException;
-- 
2.43.0


From b35f5abcf6846b294342f05ec9382a58864f8e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:46 +0000
Subject: [PATCH 107/192] fix: generated Java did not mark a required field
 with a named Array or Map type as not null

---
 java/export_java.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 5f8c9cd..1b43f79 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -780,9 +780,9 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			case "String":
 				return gen.TypeName(&td.TypeSpec, "String", required)
 			case "Array":
-				return gen.TypeName(&td.TypeSpec, "Array", false) //FIXME: the "required/optional" state of the field is lost
+				return gen.TypeName(&td.TypeSpec, "Array", required)
 			case "Map":
-				return gen.TypeName(&td.TypeSpec, "Map", false) //FIXME: the "required/optional" state of the field is lost
+				return gen.TypeName(&td.TypeSpec, "Map", required)
 			case "Struct":
 				if name == "Struct" {
 					return name, annotations, ts
-- 
2.43.0


From 49598ea874280522737692e14041239bd3f376eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:46 +0000
Subject: [PATCH 108/192] fix: generated Java could not read JSON with named
 Timestamp fields, or any when not immutable

---
 java/export_java.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/java/export_java.go b/java/export_java.go
index 1b43f79..e7355ac 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -409,7 +409,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 	var args []string
 	for _, fd := range ts.Fields {
 		tn := gen.fieldTypeName(fd)
-		if fd.Type == "Timestamp" {
+		if tn == "Instant" {
 			if gen.UseInstants {
 				gen.NeedUtil = true
 				gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
@@ -738,6 +738,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 			gen.AddImport("java.time.Instant")
 			gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonSerialize")
 			gen.AddImport("com.fasterxml.jackson.databind.annotation.JsonDeserialize")
+			annotations = append(annotations, fmt.Sprintf("@JsonDeserialize(using = Util.InstantDeserializer.class)"))
 			annotations = append(annotations, fmt.Sprintf("@JsonSerialize(using = Util.InstantSerializer.class)"))
 			gen.NeedUtil = true
 			gen.NeedInstant = true
-- 
2.43.0


From 2678a128f5c2e3832079bf75d2c97862a346450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:22 +0000
Subject: [PATCH 109/192] fix: generated Java wrote and read the JSON of fields
 such as eTag or URL under another name

---
 java/export_java.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/export_java.go b/java/export_java.go
index e7355ac..8a16973 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -379,6 +379,8 @@ func (gen *Generator) EmitAllFieldsConstructor(className string, ts *sadl.TypeSp
 
 func (gen *Generator) EmitGetter(className string, ts *sadl.TypeSpec, fd *sadl.StructFieldDef, indent string) {
 	tn := gen.fieldTypeName(fd)
+	gen.AddImport("com.fasterxml.jackson.annotation.JsonProperty")
+	gen.Emit(indent + "    @JsonProperty(\"" + fd.Name + "\")\n")
 	gen.Emit(indent + "    public " + tn + " get" + gen.Capitalize(fd.Name) + "() {\n")
 	gen.Emit(indent + "        return " + fd.Name + ";\n")
 	gen.Emit(indent + "    }\n\n")
@@ -415,6 +417,7 @@ func (gen *Generator) EmitBuilder(className string, ts *sadl.TypeSpec, indent st
 				gen.Emit(indent + "    @JsonDeserialize(using = Util.InstantDeserializer.class)\n")
 			}
 		}
+		gen.Emit(indent + "    @JsonProperty(\"" + fd.Name + "\")\n")
 		gen.Emit(indent + "    public " + builderClass + " " + fd.Name + "(" + tn + " " + fd.Name + ") {\n")
 		gen.Emit(indent + "        this." + fd.Name + " = " + fd.Name + ";\n")
 		gen.Emit(indent + "        return this;\n")
-- 
2.43.0


From 961575ecff4408a0a65291bdad7c25f29f894a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:10 +0000
Subject: [PATCH 110/192] fix: an operation cut short made the parser crash

---
 parser.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 1559f89..fc7c063 100644
--- a/parser.go
+++ b/parser.go
@@ -363,7 +363,9 @@ func (p *Parser) parseOperationDirective(comment string) error {
 
 	//parse operation options here
 	options, err := p.ParseOptions("operation", []string{"http"})
-
+	if err != nil {
+		return err
+	}
 	err = p.expect(scanner.OPEN_BRACE)
 	if err != nil {
 		return err
@@ -410,6 +412,9 @@ func (p *Parser) parseOperationDirective(comment string) error {
 func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 	var inputs []*OperationInput
 	tok := p.GetToken()
+	if tok == nil {
+		return nil, p.EndOfFileError()
+	}
 	if tok.Type != scanner.OPEN_BRACE {
 		return nil, p.SyntaxError()
 	}
@@ -430,16 +435,25 @@ func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 			}
 			in.Name = tok.Text
 			tok = p.GetToken()
+			if tok == nil {
+				return nil, p.EndOfFileError()
+			}
 			if tok.Type != scanner.SYMBOL {
 				return nil, p.SyntaxError()
 			}
 			in.Type = tok.Text
 			tok = p.GetToken()
+			if tok == nil {
+				return nil, p.EndOfFileError()
+			}
 			if tok.Type != scanner.OPEN_PAREN {
 				p.UngetToken()
 			} else {
 				for {
 					tok = p.GetToken()
+					if tok == nil {
+						return nil, p.EndOfFileError()
+					}
 					if tok.Type == scanner.CLOSE_PAREN {
 						break
 					} else if tok.Type == scanner.SYMBOL {
@@ -456,12 +470,15 @@ func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 		}
 		tok = p.GetToken()
 	}
-	return nil, nil
+	return nil, p.EndOfFileError()
 }
 
 func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 	var outputs []*OperationOutput
 	tok := p.GetToken()
+	if tok == nil {
+		return nil, p.EndOfFileError()
+	}
 	if tok.Type != scanner.OPEN_BRACE {
 		return nil, p.SyntaxError()
 	}
@@ -481,6 +498,9 @@ func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 			}
 			outName := tok.Text
 			tok = p.GetToken()
+			if tok == nil {
+				return nil, p.EndOfFileError()
+			}
 			if tok.Type != scanner.SYMBOL {
 				return nil, p.SyntaxError()
 			}
@@ -493,12 +513,15 @@ func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 		}
 		tok = p.GetToken()
 	}
-	return nil, nil
+	return nil, p.EndOfFileError()
 }
 
 func (p *Parser) parseOperationExceptions() ([]string, error) {
 	var exceptions []string
 	tok := p.GetToken()
+	if tok == nil {
+		return nil, p.EndOfFileError()
+	}
 	if tok.Type != scanner.OPEN_BRACE {
 		return nil, p.SyntaxError()
 	}
@@ -520,7 +543,7 @@ func (p *Parser) parseOperationExceptions() ([]string, error) {
 		}
 		tok = p.GetToken()
 	}
-	return nil, nil
+	return nil, p.EndOfFileError()
 }
 
 func (p *Parser) parseActionDirective(comment string) error {
-- 
2.43.0


From a898496bfd1510a27ca71c6f817fa2986470e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:10 +0000
Subject: [PATCH 111/192] fix: an example response of an action that expects
 none made the parser crash

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index fc7c063..a801ebc 100644
--- a/parser.go
+++ b/parser.go
@@ -2230,6 +2230,9 @@ func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDe
 	if !ok {
 		return fmt.Errorf("Example for an HTTP response must be a JSON object")
 	}
+	if hact.Expected == nil {
+		return nil
+	}
 	for k, v := range m {
 		for _, out := range hact.Expected.Outputs {
 			if out.Name == k {
-- 
2.43.0


From d44affe75b4aa4bc5de9d7cf0a800963f9591169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:20 +0000
Subject: [PATCH 112/192] fix: a file that includes itself made the parser
 crash

---
 parser.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index a801ebc..825eb8d 100644
--- a/parser.go
+++ b/parser.go
@@ -11,7 +11,7 @@ import (
 )
 
 func ParseSadlFile(path string, conf *Data, extensions ...Extension) (*Model, error) {
-	p, err := parseFileNoValidate(path, conf, extensions)
+	p, err := parseFileNoValidate(path, conf, extensions, nil)
 	if err != nil {
 		return nil, err
 	}
@@ -68,6 +68,7 @@ type Parser struct {
 	ungottenToken  *scanner.Token
 	currentComment string
 	extensions     map[string]Extension
+	including      []string
 }
 
 type Extension interface {
@@ -77,7 +78,7 @@ type Extension interface {
 	Validate(p *Parser) error
 }
 
-func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Parser, error) {
+func parseFileNoValidate(path string, conf *Data, extensions []Extension, including []string) (*Parser, error) {
 	b, err := ioutil.ReadFile(path)
 	if err != nil {
 		return nil, err
@@ -89,6 +90,8 @@ func parseFileNoValidate(path string, conf *Data, extensions []Extension) (*Pars
 		source:  src,
 		conf:    conf,
 	}
+	p.including = append(p.including, including...)
+	p.including = append(p.including, path)
 	err = p.ParseNoValidate(extensions)
 	if err != nil {
 		return nil, err
@@ -327,8 +330,13 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 	p.schema.Comment = p.MergeComment(p.schema.Comment, comment)
 	fname, err := p.ExpectString()
 	if err == nil {
+		for _, name := range p.including {
+			if name == fname {
+				return p.Error("Circular include: " + fname)
+			}
+		}
 		var incparser *Parser
-		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList())
+		incparser, err = parseFileNoValidate(fname, p.conf, p.extensionList(), p.including)
 		if err == nil {
 			inc := incparser.model
 			tmpModel, err := NewModel(p.schema)
-- 
2.43.0


From 696151f72d2a4016cf4c771dc087f4b95a0f979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 113/192] fix: a struct, enum or union that ended the source
 without a newline was an error

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index 825eb8d..7452678 100644
--- a/parser.go
+++ b/parser.go
@@ -69,6 +69,7 @@ type Parser struct {
 	currentComment string
 	extensions     map[string]Extension
 	including      []string
+	ended          bool
 }
 
 type Extension interface {
@@ -109,6 +110,9 @@ func (p *Parser) Model() *Model {
 
 func (p *Parser) UngetToken() {
 	Debug("UngetToken() -> ", p.lastToken)
+	if p.ended { //the end of the source is not a token, there is nothing to unget
+		return
+	}
 	p.ungottenToken = p.lastToken
 	p.lastToken = p.prevLastToken
 }
@@ -124,6 +128,7 @@ func (p *Parser) GetToken() *scanner.Token {
 	tok := p.scanner.Scan()
 	for {
 		if tok.Type == scanner.EOF {
+			p.ended = true
 			return nil //fixme
 		} else if tok.Type != scanner.BLOCK_COMMENT {
 			break
-- 
2.43.0


From 46357fe5d205bade5766d02c82d601d282ae20d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:22 +0000
Subject: [PATCH 114/192] fix: the comment before a struct field was doubled,
 and only its last line kept

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 7452678..c5806ff 100644
--- a/parser.go
+++ b/parser.go
@@ -1759,7 +1759,7 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 		if tok.Type == scanner.CLOSE_BRACE {
 			return nil, nil
 		} else if tok.Type == scanner.LINE_COMMENT {
-			comment = p.MergeComment("", tok.Text)
+			comment = p.MergeComment(comment, tok.Text)
 			tok = p.GetToken()
 			if tok == nil {
 				return nil, p.EndOfFileError()
@@ -1778,11 +1778,10 @@ func (p *Parser) parseStructFieldDef() (*StructFieldDef, error) {
 	if err != nil {
 		return nil, err
 	}
-	ts, foptions, fcomment, err := p.ParseTypeSpec(comment)
+	ts, foptions, comment, err := p.ParseTypeSpec(comment)
 	if err != nil {
 		return nil, err
 	}
-	comment = p.MergeComment(comment, fcomment)
 	field := &StructFieldDef{
 		Name:     fname,
 		Comment:  comment,
-- 
2.43.0


From 1a1ffcdfdb05c41cfc1bd7ac36220d62a209411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:23 +0000
Subject: [PATCH 115/192] fix: optional headers were required, and the required
 option of a parameter was lost

---
 parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index c5806ff..5dd974e 100644
--- a/parser.go
+++ b/parser.go
@@ -655,7 +655,7 @@ func ensureResourceName(hact *HttpDef) error {
 
 func ensureRequiredParams(hact *HttpDef) {
 	for _, in := range hact.Inputs {
-		if in.Query == "" && in.Header != "" { //body or pathparam
+		if in.Query == "" && in.Header == "" { //body or pathparam
 			in.Required = true
 		}
 	}
@@ -733,6 +733,7 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 			Name:        ename,
 			Annotations: options.Annotations,
 			Comment:     comment,
+			Required:    options.Required,
 			TypeSpec:    *ts,
 		},
 	}
-- 
2.43.0


From aa56570c6f93176eeb9004f66e3a6dc41cb9575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:23 +0000
Subject: [PATCH 116/192] fix: the options, comment and annotations of a union
 variant were lost

---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 5dd974e..4e0d78b 100644
--- a/parser.go
+++ b/parser.go
@@ -1254,7 +1254,9 @@ func (p *Parser) parseUnionDef(td *TypeDef, params []string, fields []*StructFie
 			for _, v := range fields {
 				vd := &UnionVariantDef{}
 				vd.Name = v.Name
-				vd.Type = v.Type
+				vd.Comment = v.Comment
+				vd.Annotations = v.Annotations
+				vd.TypeSpec = v.TypeSpec
 				td.Variants = append(td.Variants, vd)
 			}
 		} else {
-- 
2.43.0


From 5e3b734a049d9b4b105bc6dd2e3f141f6bd9b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:24 +0000
Subject: [PATCH 117/192] fix: undefined map key and exception types went
 unnoticed

---
 parser.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/parser.go b/parser.go
index 4e0d78b..05091c0 100644
--- a/parser.go
+++ b/parser.go
@@ -2328,6 +2328,12 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
+	for _, exc := range hact.Exceptions {
+		t := p.model.FindType(exc.Type)
+		if t == nil {
+			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
+		}
+	}
 	needsBody = false
 	if hact.Expected == nil {
 		return nil
@@ -2350,12 +2356,6 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 			}
 		}
 	}
-	for _, exc := range hact.Exceptions {
-		t := p.model.FindType(exc.Type)
-		if t == nil {
-			return fmt.Errorf("Action '%s' exception type '%s' is not defined", hact.Name, exc.Type)
-		}
-	}
 	return nil
 }
 
@@ -2485,9 +2485,6 @@ func (p *Parser) validateArray(td *TypeDef) error {
 
 func (p *Parser) validateMap(td *TypeDef) error {
 	model := p.model
-	if td.Items == "Any" {
-		return nil
-	}
 	itd := model.FindType(td.Items)
 	if itd == nil {
 		return fmt.Errorf("Undefined type '%s' for Map items '%s'", td.Items, td.Name)
-- 
2.43.0


From e48ec5bb7104aabca5b49ff7349ac237feb55c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:24 +0000
Subject: [PATCH 118/192] fix: undefined types of union variants and operations
 went unnoticed

---
 parser.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 05091c0..2d3325b 100644
--- a/parser.go
+++ b/parser.go
@@ -2111,6 +2111,8 @@ func (p *Parser) Validate() (*Model, error) {
 			err = p.validateStringDef(td)
 		case "UUID":
 			err = p.validateReference(td)
+		case "Union":
+			err = p.validateUnion(td)
 		}
 		if err != nil {
 			return nil, err
@@ -2384,7 +2386,21 @@ func (p *Parser) validateHttp(hact *HttpDef) error {
 */
 
 func (p *Parser) validateOperation(action *OperationDef) error {
-	//fix me
+	for _, in := range action.Inputs {
+		if p.model.FindType(in.Type) == nil {
+			return fmt.Errorf("Operation '%s' input type '%s' is not defined", action.Name, in.Type)
+		}
+	}
+	for _, out := range action.Outputs {
+		if p.model.FindType(out.Type) == nil {
+			return fmt.Errorf("Operation '%s' output type '%s' is not defined", action.Name, out.Type)
+		}
+	}
+	for _, exc := range action.Exceptions {
+		if p.model.FindType(exc) == nil {
+			return fmt.Errorf("Operation '%s' exception type '%s' is not defined", action.Name, exc)
+		}
+	}
 	return nil
 }
 
@@ -2471,6 +2487,15 @@ func (p *Parser) validateStruct(td *TypeDef) error {
 	return nil
 }
 
+func (p *Parser) validateUnion(td *TypeDef) error {
+	for _, v := range td.Variants {
+		if p.model.FindType(v.Type) == nil {
+			return fmt.Errorf("Undefined type '%s' for Union variant '%s.%s'", v.Type, td.Name, v.Name)
+		}
+	}
+	return nil
+}
+
 func (p *Parser) validateArray(td *TypeDef) error {
 	model := p.model
 	if td.Items == "Any" {
-- 
2.43.0


From 3af51e74abd3c8134032c99c15fdf11823b2431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:25 +0000
Subject: [PATCH 119/192] fix: examples of requests and responses were not
 checked against inline types

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 2d3325b..d52fe62 100644
--- a/parser.go
+++ b/parser.go
@@ -2223,7 +2223,7 @@ func (p *Parser) validateExampleAgainstHttpRequest(hact *HttpDef, ex *ExampleDef
 				if td == nil {
 					return fmt.Errorf("Type not found in example: %s", in.Type)
 				}
-				err := p.model.ValidateAgainstTypeSpec("example for "+ex.Target+"."+k, &td.TypeSpec, v)
+				err := p.model.ValidateAgainstTypeSpec("example for "+ex.Target+"."+k, &in.TypeSpec, v)
 				if err != nil {
 					return err
 				}
@@ -2257,7 +2257,7 @@ func (p *Parser) validateExampleAgainstHttpResponse(hact *HttpDef, ex *ExampleDe
 				if td == nil {
 					return fmt.Errorf("Type not found in HTTP response example: %s", out.Type)
 				}
-				err := p.model.ValidateAgainstTypeSpec("HTTP response example for "+ex.Target+"."+k, &td.TypeSpec, v)
+				err := p.model.ValidateAgainstTypeSpec("HTTP response example for "+ex.Target+"."+k, &out.TypeSpec, v)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 517b5c0cadca615c11986449fe2f1d4a0c8f1c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:24 +0000
Subject: [PATCH 120/192] fix: the SADL written for a model had its annotations
 in a different order every time

---
 misc.go     |  8 ++++----
 unparser.go | 38 +++++++++++++++++++-------------------
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/misc.go b/misc.go
index 608b482..6142c55 100644
--- a/misc.go
+++ b/misc.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 	"strings"
 )
 
@@ -177,11 +178,10 @@ func GetAnnotation(annos map[string]string, key string) string {
 
 func AnnotationsAsString(annos map[string]string) string {
 	var opts []string
-	if len(annos) > 0 {
-		for k, v := range annos {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
+	for k, v := range annos {
+		opts = append(opts, fmt.Sprintf("%s=%q", k, v))
 	}
+	sort.Strings(opts)
 	if len(opts) > 0 {
 		return " (" + strings.Join(opts, ", ") + ")"
 	}
diff --git a/unparser.go b/unparser.go
index a243ffd..3ab1345 100644
--- a/unparser.go
+++ b/unparser.go
@@ -3,6 +3,7 @@ package sadl
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
 	"strings"
 	"text/template"
 )
@@ -44,14 +45,16 @@ func (g *SadlGenerator) Generate() string {
 		"annotations": func(annos map[string]string) string {
 			s := ""
 			if len(annos) > 0 {
-				s = "\n"
+				var lines []string
 				for k, v := range annos {
 					if v == "" {
-						s += fmt.Sprintf("%s\n", k)
+						lines = append(lines, fmt.Sprintf("%s\n", k))
 					} else {
-						s += fmt.Sprintf("%s %q\n", k, v)
+						lines = append(lines, fmt.Sprintf("%s %q\n", k, v))
 					}
 				}
+				sort.Strings(lines)
+				s = "\n" + strings.Join(lines, "")
 			}
 			return s
 		},
@@ -179,9 +182,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				if fd.Required {
 					fopts = append(fopts, "required")
 				}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
+				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
 			return s + indent + "}"
@@ -201,9 +202,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 					}
 				}
 				fopts := []string{}
-				for aname, aval := range fd.Annotations {
-					fopts = append(fopts, fmt.Sprintf("%s=%q", aname, aval))
-				}
+				fopts = append(fopts, annotationOptions(fd.Annotations)...)
 				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
 			return s + "}"
@@ -228,11 +227,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 
 func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 	var opts []string
-	if len(op.Annotations) > 0 {
-		for k, v := range op.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
-	}
+	opts = append(opts, annotationOptions(op.Annotations)...)
 	opt := ""
 	if len(opts) > 0 {
 		opt = " (" + strings.Join(opts, ", ") + ")"
@@ -300,11 +295,7 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 			opts = append(opts, "operation="+hact.Name)
 		}
 	}
-	if len(hact.Annotations) > 0 {
-		for k, v := range hact.Annotations {
-			opts = append(opts, fmt.Sprintf("%s=%q", k, v))
-		}
-	}
+	opts = append(opts, annotationOptions(hact.Annotations)...)
 	opt := ""
 	if len(opts) > 0 {
 		opt = " (" + strings.Join(opts, ", ") + ")"
@@ -376,6 +367,15 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
 	return bcom + ps.Name + " " + ts + opt + com + "\n"
 }
 
+func annotationOptions(annos map[string]string) []string {
+	var opts []string
+	for k, v := range annos {
+		opts = append(opts, fmt.Sprintf("%s=%q", k, v))
+	}
+	sort.Strings(opts)
+	return opts
+}
+
 func stringList(lst []string) string {
 	delim := ""
 	end := ""
-- 
2.43.0


From 253b7b72c74a5787ab027f339be266a65fe66b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:12 +0000
Subject: [PATCH 121/192] fix: options, defaults and annotations of types were
 lost when a model was written as SADL

---
 parser.go   | 16 +++++++-----
 unparser.go | 74 ++++++++++++++++++++++++++++++-----------------------
 2 files changed, 52 insertions(+), 38 deletions(-)

diff --git a/parser.go b/parser.go
index d52fe62..7114881 100644
--- a/parser.go
+++ b/parser.go
@@ -971,10 +971,8 @@ func (p *Parser) parseTypeDirective(comment string) error {
 		err = p.parseMapDef(td, params)
 	case "Struct":
 		err = p.parseStructDef(td, fields)
-		td.Annotations = options.Annotations
 	case "Enum":
-		td.Elements = elements
-		td.Annotations = options.Annotations
+		err = p.parseEnumDef(td, elements)
 	case "Union":
 		err = p.parseUnionDef(td, params, fields)
 	default:
@@ -983,6 +981,9 @@ func (p *Parser) parseTypeDirective(comment string) error {
 	if err != nil {
 		return err
 	}
+	for k, v := range options.Annotations {
+		td.Annotations = p.addAnnotation(td.Annotations, k, v)
+	}
 	p.schema.Types = append(p.schema.Types, td)
 	return nil
 }
@@ -1074,7 +1075,7 @@ func (p *Parser) ParseTypeSpecElements() (string, []string, []*StructFieldDef, [
 			}
 			tok = p.GetToken()
 			if tok == nil {
-				return typeName, nil, nil, nil, options, "", p.EndOfFileError()
+				return typeName, nil, nil, nil, options, "", nil
 			}
 		}
 		if tok.Type == scanner.OPEN_BRACE {
@@ -1236,8 +1237,11 @@ func (p *Parser) parseStructDef(td *TypeDef, fields []*StructFieldDef) error {
 }
 
 func (p *Parser) parseEnumDef(td *TypeDef, elements []*EnumElementDef) error {
-	td.Elements = elements
-	return nil
+	err := p.parseTypeOptions(td)
+	if err == nil {
+		td.Elements = elements
+	}
+	return err
 }
 
 func (p *Parser) parseUnionDef(td *TypeDef, params []string, fields []*StructFieldDef) error {
diff --git a/unparser.go b/unparser.go
index 3ab1345..9e105e2 100644
--- a/unparser.go
+++ b/unparser.go
@@ -59,7 +59,7 @@ func (g *SadlGenerator) Generate() string {
 			return s
 		},
 		"typedef": func(td *TypeDef) string {
-			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, nil, ""))
+			return fmt.Sprintf("type %s %s\n", td.Name, g.sadlTypeSpec(&td.TypeSpec, annotationOptions(td.Annotations), ""))
 		},
 		"operation": func(op *OperationDef) string {
 			return g.sadlOperationSpec(op)
@@ -102,7 +102,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 			annos := AnnotationsAsString(el.Annotations)
 			s = s + indent + indentAmount + el.Symbol + annos + com + "\n"
 		}
-		return s + indent + "}"
+		return s + indent + "}" + optionList(opts)
 	case "String":
 		if ts.Pattern != "" {
 			opts = append(opts, fmt.Sprintf("pattern=%q", ts.Pattern))
@@ -116,11 +116,28 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 		if ts.Values != nil {
 			opts = append(opts, fmt.Sprintf("values=%s", stringList(ts.Values)))
 		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
+		if ts.Reference != "" {
+			opts = append(opts, "reference="+ts.Reference)
 		}
-		return fmt.Sprintf("String%s", sopts)
+		return "String" + optionList(opts)
+	case "UUID":
+		if ts.Reference != "" {
+			opts = append(opts, "reference="+ts.Reference)
+		}
+		return "UUID" + optionList(opts)
+	case "Bytes":
+		if ts.MinSize != nil {
+			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
+		}
+		if ts.MaxSize != nil {
+			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
+		}
+		return "Bytes" + optionList(opts)
+	case "UnitValue":
+		if ts.Value == "" || ts.Unit == "" {
+			return "UnitValue" + optionList(opts)
+		}
+		return fmt.Sprintf("UnitValue<%s,%s>%s", ts.Value, ts.Unit, optionList(opts))
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
 		if ts.Min != nil {
 			opts = append(opts, fmt.Sprintf("min=%v", ts.Min.String()))
@@ -128,11 +145,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 		if ts.Max != nil {
 			opts = append(opts, fmt.Sprintf("max=%v", ts.Max.String()))
 		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("%s%s", ts.Type, sopts)
+		return fmt.Sprintf("%s%s", ts.Type, optionList(opts))
 	case "Array":
 		if ts.MinSize != nil {
 			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
@@ -140,11 +153,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 		if ts.MaxSize != nil {
 			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
 		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("List<%s>%s", ts.Items, sopts)
+		return fmt.Sprintf("List<%s>%s", ts.Items, optionList(opts))
 	case "Map":
 		if ts.MinSize != nil {
 			opts = append(opts, fmt.Sprintf("minsize=%d", *ts.MinSize))
@@ -152,15 +161,10 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 		if ts.MaxSize != nil {
 			opts = append(opts, fmt.Sprintf("maxsize=%d", *ts.MaxSize))
 		}
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("Map<%s,%s>%s", ts.Keys, ts.Items, sopts)
+		return fmt.Sprintf("Map<%s,%s>%s", ts.Keys, ts.Items, optionList(opts))
 	case "Struct":
-		sopt := ""
 		if len(ts.Fields) > 0 {
-			s := fmt.Sprintf("Struct%s {\n", sopt)
+			s := "Struct {\n"
 			blockLine := ""
 			for _, fd := range ts.Fields {
 				if len(fd.Comment) > 60 {
@@ -183,11 +187,14 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 					fopts = append(fopts, "required")
 				}
 				fopts = append(fopts, annotationOptions(fd.Annotations)...)
+				if fd.Default != nil {
+					fopts = append(fopts, "default="+ToString(fd.Default))
+				}
 				s += fmt.Sprintf("%s%s%s%s %s%s\n", blockLine, bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
-			return s + indent + "}"
+			return s + indent + "}" + optionList(opts)
 		}
-		return fmt.Sprintf("Struct\n")
+		return "Struct" + optionList(opts)
 	case "Union":
 		if true {
 			s := fmt.Sprintf("Union {\n")
@@ -203,9 +210,9 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 				}
 				fopts := []string{}
 				fopts = append(fopts, annotationOptions(fd.Annotations)...)
-				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
+				s += fmt.Sprintf("%s%s%s %s%s\n", bcom, indent+indentAmount, fd.Name, g.sadlTypeSpec(&fd.TypeSpec, fopts, indent+indentAmount), com)
 			}
-			return s + "}"
+			return s + indent + "}" + optionList(opts)
 		} else {
 			s := fmt.Sprintf("Union<")
 			for i, v := range ts.Variants {
@@ -217,11 +224,7 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 			return s + ">"
 		}
 	default:
-		sopts := ""
-		if len(opts) > 0 {
-			sopts = " (" + strings.Join(opts, ", ") + ")"
-		}
-		return fmt.Sprintf("%s%s", ts.Type, sopts)
+		return fmt.Sprintf("%s%s", ts.Type, optionList(opts))
 	}
 }
 
@@ -367,6 +370,13 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
 	return bcom + ps.Name + " " + ts + opt + com + "\n"
 }
 
+func optionList(opts []string) string {
+	if len(opts) > 0 {
+		return " (" + strings.Join(opts, ", ") + ")"
+	}
+	return ""
+}
+
 func annotationOptions(annos map[string]string) []string {
 	var opts []string
 	for k, v := range annos {
-- 
2.43.0


From 43e14f8e345442e7df98ba912edbf21d20efdbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:12 +0000
Subject: [PATCH 122/192] fix: the outputs of an operation were written with
 the options of its last input

---
 unparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unparser.go b/unparser.go
index 9e105e2..a542710 100644
--- a/unparser.go
+++ b/unparser.go
@@ -270,13 +270,13 @@ func (g *SadlGenerator) sadlOperationSpec(op *OperationDef) string {
 			bcom := ""
 			ts := g.sadlTypeSpec(&out.TypeSpec, nil, indentAmount)
 			if out.Comment != "" {
-				if (len(out.Comment) + len(out.Name) + len(ts) + len(opt)) > 100 {
+				if (len(out.Comment) + len(out.Name) + len(ts)) > 100 {
 					bcom = g.FormatComment("   ", out.Comment, 100, false)[3:] + "   "
 				} else {
 					com = " // " + out.Comment
 				}
 			}
-			s += indentAmount + indentAmount + bcom + out.Name + " " + out.Type + opt + com + "\n"
+			s += indentAmount + indentAmount + bcom + out.Name + " " + out.Type + com + "\n"
 		}
 		s += indentAmount + "}\n"
 	}
-- 
2.43.0


From 17e02ae1636c9d7348b6c1ac7ef18cac20677617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 123/192] fix: an example with no name was written as SADL that
 cannot be read

---
 unparser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unparser.go b/unparser.go
index a542710..120367e 100644
--- a/unparser.go
+++ b/unparser.go
@@ -68,7 +68,11 @@ func (g *SadlGenerator) Generate() string {
 			return g.sadlHttpSpec(hact)
 		},
 		"example": func(ed *ExampleDef) string {
-			return fmt.Sprintf("example %s (name=%s) %s\n", ed.Target, ed.Name, Pretty(ed.Example))
+			name := ""
+			if ed.Name != "" {
+				name = fmt.Sprintf("(name=%s) ", ed.Name)
+			}
+			return fmt.Sprintf("example %s %s%s\n", ed.Target, name, Pretty(ed.Example))
 		},
 	}
 	g.Begin()
-- 
2.43.0


From f06fd18b834f1afc5ce024bebe23256f53d9793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:13 +0000
Subject: [PATCH 124/192] fix: the resource, missing expected response and
 annotations of an HTTP action were lost when written as SADL

---
 unparser.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/unparser.go b/unparser.go
index 120367e..c6cf28d 100644
--- a/unparser.go
+++ b/unparser.go
@@ -302,6 +302,9 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 			opts = append(opts, "operation="+hact.Name)
 		}
 	}
+	if hact.Resource != "" && (hact.Resource != resourceName(hact) || hact.Name != actionName(hact)) {
+		opts = append(opts, "resource="+hact.Resource)
+	}
 	opts = append(opts, annotationOptions(hact.Annotations)...)
 	opt := ""
 	if len(opts) > 0 {
@@ -313,20 +316,17 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 	for _, in := range hact.Inputs {
 		s += indentAmount + g.sadlParamSpec(in)
 	}
-	bcom := ""
-	if hact.Expected == nil {
-		hact.Expected = &HttpExpectedSpec{
-			Status: 200,
+	if hact.Expected != nil {
+		bcom := ""
+		if hact.Expected.Comment != "" {
+			bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
 		}
+		s += fmt.Sprintf("\n%s%sexpect %d%s {\n", bcom, indentAmount, hact.Expected.Status, AnnotationsAsString(hact.Expected.Annotations))
+		for _, out := range hact.Expected.Outputs {
+			s += indentAmount + indentAmount + g.sadlParamSpec(out)
+		}
+		s += indentAmount + "}\n"
 	}
-	if hact.Expected.Comment != "" {
-		bcom = g.FormatComment(indentAmount, hact.Expected.Comment, 100, false)
-	}
-	s += fmt.Sprintf("\n%s%sexpect %d {\n", bcom, indentAmount, hact.Expected.Status)
-	for _, out := range hact.Expected.Outputs {
-		s += indentAmount + indentAmount + g.sadlParamSpec(out)
-	}
-	s += "   }\n"
 	if len(hact.Exceptions) > 0 {
 		s += "\n"
 		for _, exc := range hact.Exceptions {
@@ -335,10 +335,10 @@ func (g *SadlGenerator) sadlHttpSpec(hact *HttpDef) string {
 				bcom = g.FormatComment(indentAmount, exc.Comment, 100, false)
 			}
 			if exc.Status == 0 {
-				s += fmt.Sprintf("%s%sexcept %s\n", bcom, indentAmount, exc.Type)
+				s += fmt.Sprintf("%s%sexcept %s%s\n", bcom, indentAmount, exc.Type, AnnotationsAsString(exc.Annotations))
 			} else {
 				//todo: header outputs
-				s += fmt.Sprintf("%s%sexcept %d %s\n", bcom, indentAmount, exc.Status, exc.Type)
+				s += fmt.Sprintf("%s%sexcept %d %s%s\n", bcom, indentAmount, exc.Status, exc.Type, AnnotationsAsString(exc.Annotations))
 			}
 		}
 	}
@@ -357,6 +357,7 @@ func (g *SadlGenerator) sadlParamSpec(ps *HttpParamSpec) string {
 	if ps.Header != "" {
 		opts = append(opts, fmt.Sprintf("header=%q", ps.Header))
 	}
+	opts = append(opts, annotationOptions(ps.Annotations)...)
 	opt := ""
 	if len(opts) > 0 {
 		opt = " (" + strings.Join(opts, ", ") + ")"
-- 
2.43.0


From 290a997852e3e2266461110291701c10e8d3cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:14 +0000
Subject: [PATCH 125/192] fix: a model with no name that was not read from a
 file was named "."

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 7114881..9c17d12 100644
--- a/parser.go
+++ b/parser.go
@@ -174,7 +174,7 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 	if name != "" {
 		p.schema.Name = name
 	}
-	if p.schema.Name == "" {
+	if p.schema.Name == "" && p.path != "" {
 		p.schema.Name = BaseFileName(p.path)
 	}
 	if p.schema.Namespace == "" {
-- 
2.43.0


From 9e7a8379c40024991cf30d413e497a451a262e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:14 +0000
Subject: [PATCH 126/192] fix: an action whose path has a query or ends in a
 slash was left without a name

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 9c17d12..5365010 100644
--- a/parser.go
+++ b/parser.go
@@ -673,9 +673,9 @@ func ensureRequiredParams(hact *HttpDef) {
 }
 
 func resourceName(hact *HttpDef) string {
-	parts := strings.Split(hact.Path, "/")
+	parts := strings.Split(strings.SplitN(hact.Path, "?", 2)[0], "/")
 	for i := len(parts) - 1; i >= 0; i-- {
-		if strings.Index(parts[i], "{") < 0 {
+		if parts[i] != "" && strings.Index(parts[i], "{") < 0 {
 			return parts[i]
 		}
 	}
-- 
2.43.0


From 58c149d4955f34d275aa4c4524d9e3ce38c866d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:33 +0000
Subject: [PATCH 127/192] fix: a comment in the inputs, outputs or exceptions
 of an operation was a syntax error

---
 parser.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 5365010..d1301bc 100644
--- a/parser.go
+++ b/parser.go
@@ -424,6 +424,7 @@ func (p *Parser) parseOperationDirective(comment string) error {
 
 func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 	var inputs []*OperationInput
+	comment := ""
 	tok := p.GetToken()
 	if tok == nil {
 		return nil, p.EndOfFileError()
@@ -441,6 +442,8 @@ func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 				return nil, p.EndOfFileError()
 			}
 			continue
+		} else if tok.Type == scanner.LINE_COMMENT {
+			comment = p.MergeComment(comment, tok.Text)
 		} else {
 			in := &OperationInput{}
 			if tok.Type != scanner.SYMBOL {
@@ -479,6 +482,8 @@ func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 					}
 				}
 			}
+			in.Comment = p.ParseTrailingComment(comment)
+			comment = ""
 			inputs = append(inputs, in)
 		}
 		tok = p.GetToken()
@@ -488,6 +493,7 @@ func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 
 func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 	var outputs []*OperationOutput
+	comment := ""
 	tok := p.GetToken()
 	if tok == nil {
 		return nil, p.EndOfFileError()
@@ -505,6 +511,8 @@ func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 				return nil, p.EndOfFileError()
 			}
 			continue
+		} else if tok.Type == scanner.LINE_COMMENT {
+			comment = p.MergeComment(comment, tok.Text)
 		} else {
 			if tok.Type != scanner.SYMBOL {
 				return nil, p.SyntaxError()
@@ -518,10 +526,12 @@ func (p *Parser) parseOperationOutputs() ([]*OperationOutput, error) {
 				return nil, p.SyntaxError()
 			}
 			outType := tok.Text
-			//options? comment?
+			//options?
 			out := &OperationOutput{}
 			out.Name = outName
 			out.Type = outType
+			out.Comment = p.ParseTrailingComment(comment)
+			comment = ""
 			outputs = append(outputs, out)
 		}
 		tok = p.GetToken()
@@ -548,6 +558,8 @@ func (p *Parser) parseOperationExceptions() ([]string, error) {
 				return nil, p.EndOfFileError()
 			}
 			continue
+		} else if tok.Type == scanner.LINE_COMMENT {
+			/* ignore */
 		} else {
 			if tok.Type != scanner.SYMBOL {
 				return nil, p.SyntaxError()
-- 
2.43.0


From 94900d2050c7e666a41c7d0375c1f1189f21eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:32 +0000
Subject: [PATCH 128/192] fix: a required struct field with no fields of its
 own was written as SADL that cannot be read

---
 unparser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unparser.go b/unparser.go
index c6cf28d..ed54276 100644
--- a/unparser.go
+++ b/unparser.go
@@ -198,7 +198,10 @@ func (g *SadlGenerator) sadlTypeSpec(ts *TypeSpec, opts []string, indent string)
 			}
 			return s + indent + "}" + optionList(opts)
 		}
-		return "Struct" + optionList(opts)
+		if len(opts) > 0 {
+			return "Struct {\n" + indent + "}" + optionList(opts)
+		}
+		return "Struct"
 	case "Union":
 		if true {
 			s := fmt.Sprintf("Union {\n")
-- 
2.43.0


From 3e17a54ea4375e47ab1f113b5c6d53fd5de8b162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:47 +0000
Subject: [PATCH 129/192] fix: an output named like a path or query parameter
 was taken for that parameter

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index d1301bc..07cb642 100644
--- a/parser.go
+++ b/parser.go
@@ -753,6 +753,9 @@ func (p *Parser) parseHttpSpec(op *HttpDef, comment string, top bool) error {
 		spec.Default = options.Default
 	}
 
+	if !top {
+		pathTemplate = "" //outputs are headers or the body, whatever the path has
+	}
 	paramType, paramName := p.parameterSource(pathTemplate, ename, options)
 	switch paramType {
 	case "path":
-- 
2.43.0


From 2ad4c2b2d2394b035c728d0ad0e04a2d23b7e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 130/192] fix: smithy export crashed on an action with no
 expected response

---
 smithy/export_smithy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index d378185..9a769ff 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -167,7 +167,7 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			ast.Shapes.Put(shape.Input.Target, &inShape)
 		}
 
-		if len(hd.Expected.Outputs) > 0 {
+		if hd.Expected != nil && len(hd.Expected.Outputs) > 0 {
 			//if we have any outputs, define this
 			shape.Output = &smithylib.ShapeRef{Target: prefix + name + outputSuffix}
 			outShape := smithylib.Shape{
-- 
2.43.0


From b522e313721028fc1054075414a485f99b0302d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:57 +0000
Subject: [PATCH 131/192] fix: smithy export panicked on Bool, Bytes, Timestamp
 and Any types, and those it does not support

---
 smithy/export_smithy.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 9a769ff..1a5523a 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -519,9 +519,19 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 		shape = shapeFromMap(model, ns, shapes, name, ts)
 	case "UUID":
 		shape = *uuidShape()
+	case "Bool":
+		shape = smithylib.Shape{Type: "boolean"}
+	case "Timestamp":
+		shape = smithylib.Shape{Type: "timestamp"}
+	case "Any":
+		shape = smithylib.Shape{Type: "document"}
+	case "Bytes":
+		shape = smithylib.Shape{Type: "blob"}
+		if l := lengthTrait(ts.MinSize, ts.MaxSize); l != nil {
+			ensureShapeTraits(&shape).Put("smithy.api#length", l)
+		}
 	default:
-		fmt.Println("So far:", sadl.Pretty(model))
-		panic("handle this type:" + sadl.Pretty(ts))
+		return fmt.Errorf("Smithy has no equivalent for the type of %q: %s", name, ts.Type)
 	}
 	if comment != "" {
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", comment)
-- 
2.43.0


From 0a513e71a45aa565ee40026a1672d2dcd81c1ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:58 +0000
Subject: [PATCH 132/192] fix: smithy export panicked on a type that stands for
 another type

---
 smithy/export_smithy.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 1a5523a..d5ca261 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -95,7 +95,16 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 	}
 
 	for _, td := range model.Types {
-		err := defineShapeFromTypeSpec(model, ns, ast.Shapes, &td.TypeSpec, td.Name, td.Comment, td.Annotations)
+		ts := &td.TypeSpec
+		//Smithy has no alias: such a type has the shape of the type it stands for
+		for n := 0; n <= len(model.Types); n++ {
+			target := definedType(model, ts.Type)
+			if target == nil {
+				break
+			}
+			ts = &target.TypeSpec
+		}
+		err := defineShapeFromTypeSpec(model, ns, ast.Shapes, ts, td.Name, td.Comment, td.Annotations)
 		if err != nil {
 			return nil, err
 		}
@@ -302,6 +311,16 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 	return ast, nil
 }
 
+// definedType returns the definition of a type of the model itself, i.e. one that is not a base type
+func definedType(model *sadl.Model, name string) *sadl.TypeDef {
+	for _, td := range model.Types {
+		if td.Name == name {
+			return td
+		}
+	}
+	return nil
+}
+
 func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]interface{} {
 	opName := sadl.Capitalize(hdef.Name)
 	reqType := opName + "Request"
-- 
2.43.0


From 498c32e8d25c289c2b1fb9d82fe4904f3f36e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:51 +0000
Subject: [PATCH 133/192] fix: smithy export of fields with an inline Array,
 Map, Enum or Struct referred to shapes that do not exist

---
 smithy/export_smithy.go | 95 ++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 67 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index d5ca261..3af5b89 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -435,67 +435,29 @@ func getAnnotation(annos map[string]string, key string) string {
 	return ""
 }
 
-func listTypeReference(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, fd *sadl.StructFieldDef) string {
-	ftype := capitalize(prefix) + capitalize(fd.Name)
-	td := model.FindType(ftype)
-	if td != nil {
-		fmt.Printf("Inline defs not allowed, synthesize %q to refer to: %s\n", ftype, sadl.Pretty(fd))
-		panic("Already have one with that name!!!")
+// memberTarget returns the shape that a member of the given type refers to. An inline type gets a shape of its own,
+// with a name made from those of the structure and the member.
+func memberTarget(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, name string, ts *sadl.TypeSpec, annos map[string]string) (string, error) {
+	if !needsShape(ts) {
+		return typeReference(ns, ts), nil
 	}
-	ltype := "list"
-	if getAnnotation(fd.Annotations, "x_unique") == "true" {
-		ltype = "set"
-	}
-	shape := smithylib.Shape{
-		Type: ltype,
-	}
-	shape.Member = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Items),
+	ftype := capitalize(prefix) + capitalize(name)
+	if definedType(model, ftype) != nil || shapes.Get(ns+"#"+ftype) != nil {
+		return "", fmt.Errorf("Inline defs not allowed, cannot synthesize %q for %q in %q: already have one with that name", ftype, name, prefix)
 	}
-	ensureShapeTraits(&shape).Put("smithy.api#documentation", "[autogenerated for field '"+fd.Name+"' in struct '"+prefix+"']")
-	shapes.Put(ns+"#"+ftype, &shape)
-	return ftype
+	comment := "[autogenerated for field '" + name + "' in struct '" + prefix + "']"
+	err := defineShapeFromTypeSpec(model, ns, shapes, ts, ftype, comment, annos)
+	return ns + "#" + ftype, err
 }
 
-func mapTypeReference(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, fd *sadl.StructFieldDef) string {
-	ftype := capitalize(prefix) + capitalize(fd.Name)
-	td := model.FindType(ftype)
-	if td != nil {
-		fmt.Printf("Inline defs not allowed, synthesize %q to refer to: %s\n", ftype, sadl.Pretty(fd))
-		panic("Already have one with that name!!!")
-	}
-	shape := smithylib.Shape{
-		Type: "map",
-	}
-	shape.Key = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Keys),
-	}
-	shape.Value = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Items),
-	}
-	ensureShapeTraits(&shape).Put("smithy.api#documentation", "[autogenerated for field '"+fd.Name+"' in struct '"+prefix+"']")
-	shapes.Put(ns+"#"+ftype, &shape)
-	return ftype
-}
-
-func enumTypeReference(model *sadl.Model, ns string, shapes *smithylib.Shapes, prefix string, fd *sadl.StructFieldDef) string {
-	ftype := capitalize(prefix) + capitalize(fd.Name)
-	td := model.FindType(ftype)
-	if td != nil {
-		fmt.Printf("Inline defs not allowed, synthesize %q to refer to: %s\n", ftype, sadl.Pretty(fd))
-		panic("Already have one with that name!!!")
-	}
-	ltype := "string"
-	shape := smithylib.Shape{
-		Type: ltype,
-	}
-	shape.Member = &smithylib.Member{
-		Target: typeReferenceByName(ns, fd.Items),
+func needsShape(ts *sadl.TypeSpec) bool {
+	switch ts.Type {
+	case "Array", "Map", "Enum", "Union", "UnitValue":
+		return true
+	case "Struct":
+		return len(ts.Fields) > 0
 	}
-	ensureShapeTraits(&shape).Put("smithy.api#enum", enumTrait(&fd.TypeSpec))
-	ensureShapeTraits(&shape).Put("smithy.api#documentation", "[autogenerated for field '"+fd.Name+"' in struct '"+prefix+"']")
-	shapes.Put(ns+"#"+ftype, &shape)
-	return ftype
+	return false
 }
 
 func capitalize(s string) string {
@@ -521,6 +483,7 @@ func ensureMemberTraits(member *smithylib.Member) *data.Object {
 
 func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Shapes, ts *sadl.TypeSpec, name string, comment string, annos map[string]string) error {
 	var shape smithylib.Shape
+	var err error
 	switch ts.Type {
 	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal":
 		shape = shapeFromNumber(ts)
@@ -529,7 +492,7 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 	case "Enum":
 		shape = shapeFromEnum(ts)
 	case "Struct":
-		shape = shapeFromStruct(model, ns, shapes, name, ts)
+		shape, err = shapeFromStruct(model, ns, shapes, name, ts)
 	case "Array":
 		shape = shapeFromArray(model, ns, shapes, name, ts, annos)
 	case "Union":
@@ -552,6 +515,9 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 	default:
 		return fmt.Errorf("Smithy has no equivalent for the type of %q: %s", name, ts.Type)
 	}
+	if err != nil {
+		return err
+	}
 	if comment != "" {
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", comment)
 	}
@@ -619,20 +585,15 @@ func shapeFromMap(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname
 	return shape
 }
 
-func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) smithylib.Shape {
+func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) (smithylib.Shape, error) {
 	shape := smithylib.Shape{
 		Type: "structure",
 	}
 	members := smithylib.NewMembers()
 	for _, fd := range ts.Fields {
-		ftype := typeReference(ns, &fd.TypeSpec)
-		switch ftype {
-		case "List":
-			ftype = listTypeReference(model, ns, shapes, tname, fd)
-		case "Map":
-			ftype = mapTypeReference(model, ns, shapes, tname, fd)
-		case "Enum":
-			ftype = enumTypeReference(model, ns, shapes, tname, fd)
+		ftype, err := memberTarget(model, ns, shapes, tname, fd.Name, &fd.TypeSpec, fd.Annotations)
+		if err != nil {
+			return shape, err
 		}
 		member := &smithylib.Member{
 			Target: ftype,
@@ -643,7 +604,7 @@ func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tna
 		members.Put(fd.Name, member)
 	}
 	shape.Members = members
-	return shape
+	return shape, nil
 }
 
 func shapeFromUnion(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) smithylib.Shape {
-- 
2.43.0


From 0b1d5d8ee562c1e8c11bd77e07ee1b8e0e5b8384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:52 +0000
Subject: [PATCH 134/192] fix: smithy export of union variants of base types
 referred to shapes that do not exist

---
 smithy/export_smithy.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 3af5b89..aa05957 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -496,7 +496,7 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 	case "Array":
 		shape = shapeFromArray(model, ns, shapes, name, ts, annos)
 	case "Union":
-		shape = shapeFromUnion(model, ns, shapes, name, ts)
+		shape, err = shapeFromUnion(model, ns, shapes, name, ts)
 	case "Map":
 		shape = shapeFromMap(model, ns, shapes, name, ts)
 	case "UUID":
@@ -607,22 +607,24 @@ func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tna
 	return shape, nil
 }
 
-func shapeFromUnion(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) smithylib.Shape {
+func shapeFromUnion(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec) (smithylib.Shape, error) {
 	shape := smithylib.Shape{
 		Type: "union",
 	}
 	members := smithylib.NewMembers()
 	for _, vd := range ts.Variants { //todo: modify SADL to make unions more like structs
-		//		fd := model.FindType(vtype.Type)
-		//		ftype := typeReference(&fd.TypeSpec)
+		vtype, err := memberTarget(model, ns, shapes, tname, vd.Name, &vd.TypeSpec, vd.Annotations)
+		if err != nil {
+			return shape, err
+		}
 		member := &smithylib.Member{
-			Target: EnsureNamespaced(ns, vd.Type),
+			Target: vtype,
 		}
 		ensureMemberTraits(member).Put("smithy.api#documentation", vd.Comment)
 		members.Put(vd.Name, member)
 	}
 	shape.Members = members
-	return shape
+	return shape, nil
 }
 
 func shapeFromString(ts *sadl.TypeSpec) smithylib.Shape {
-- 
2.43.0


From cd6861c93cda8dc0b3259dfbf5225765799a3a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:53 +0000
Subject: [PATCH 135/192] fix: smithy export of Any, and of arrays of plain
 Array or Map, referred to shapes that do not exist

---
 smithy/export_smithy.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index aa05957..26451de 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -412,12 +412,8 @@ func typeReferenceByName(ns string, name string) string {
 		return "smithy.api#Blob"
 	case "String":
 		return "smithy.api#String"
-	case "Array":
-		return "smithy.api#List"
-	case "Map":
-		return "smithy.api#Map"
-	case "Struct":
-		return "smithy.api#Document" //naked struct only.
+	case "Any", "Array", "Map", "Struct":
+		return "smithy.api#Document" //naked Array, Map, Struct only.
 	default:
 		return ns + "#" + name
 	}
-- 
2.43.0


From c44321dbeca54660068562e9f526a0fa8bb6a19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 136/192] fix: smithy export lost the comments of struct fields
 and enum elements

---
 smithy/export_smithy.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 26451de..8843f30 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -597,6 +597,9 @@ func shapeFromStruct(model *sadl.Model, ns string, shapes *smithylib.Shapes, tna
 		if fd.Required {
 			ensureMemberTraits(member).Put("smithy.api#required", true)
 		}
+		if fd.Comment != "" {
+			ensureMemberTraits(member).Put("smithy.api#documentation", fd.Comment)
+		}
 		members.Put(fd.Name, member)
 	}
 	shape.Members = members
@@ -681,6 +684,9 @@ func shapeFromEnum(ts *sadl.TypeSpec) smithylib.Shape {
 		mem := &smithylib.Member{
 			Target: "smithy.api#Unit",
 		}
+		if el.Comment != "" {
+			ensureMemberTraits(mem).Put("smithy.api#documentation", el.Comment)
+		}
 		if el.Annotations != nil {
 			if val, ok := el.Annotations["x_enumValue"]; ok {
 				ensureMemberTraits(mem).Put("smithy.api#enumValue", val)
-- 
2.43.0


From 6196617d712f33f1e73c8958189d08a67fe70b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:55 +0000
Subject: [PATCH 137/192] fix: smithy export lost the size limits of maps

---
 smithy/export_smithy.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 8843f30..153a672 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -574,10 +574,10 @@ func shapeFromMap(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname
 		Key:   &key,
 		Value: &value,
 	}
-	//	l := lengthTrait(ts.MinSize, ts.MaxSize)
-	//	if l != nil {
-	//		ensureShapeTraits(&shape)["smithy.api#length"] = l
-	//	}
+	l := lengthTrait(ts.MinSize, ts.MaxSize)
+	if l != nil {
+		ensureShapeTraits(&shape).Put("smithy.api#length", l)
+	}
 	return shape
 }
 
-- 
2.43.0


From bdeb3f41e86d45ad233582b8eb8210f23c40670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:56 +0000
Subject: [PATCH 138/192] fix: smithy export lost the limits, sizes, pattern
 and values of fields

---
 smithy/export_smithy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 153a672..34d1cc6 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -453,7 +453,7 @@ func needsShape(ts *sadl.TypeSpec) bool {
 	case "Struct":
 		return len(ts.Fields) > 0
 	}
-	return false
+	return ts.Min != nil || ts.Max != nil || ts.MinSize != nil || ts.MaxSize != nil || ts.Pattern != "" || len(ts.Values) > 0
 }
 
 func capitalize(s string) string {
-- 
2.43.0


From 90cb7ac42d969be26088b6971e4b165527ef3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:28 +0000
Subject: [PATCH 139/192] fix: smithy export of inputs and outputs with an
 inline type referred to shapes that do not exist

---
 smithy/export_smithy.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 34d1cc6..6c5fe90 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -158,8 +158,12 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			}
 			ensureShapeTraits(&inShape).Put("smithy.api#input", true)
 			for _, in := range hd.Inputs {
+				target, err := memberTarget(model, ns, ast.Shapes, name+inputSuffix, in.Name, &in.TypeSpec, in.Annotations)
+				if err != nil {
+					return nil, err
+				}
 				mem := &smithylib.Member{
-					Target: typeReferenceByName(ns, in.Type),
+					Target: target,
 				}
 				if in.Path {
 					ensureMemberTraits(mem).Put("smithy.api#httpLabel", true)
@@ -185,8 +189,12 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			}
 			ensureShapeTraits(&outShape).Put("smithy.api#output", true)
 			for _, out := range hd.Expected.Outputs {
+				target, err := memberTarget(model, ns, ast.Shapes, name+outputSuffix, out.Name, &out.TypeSpec, out.Annotations)
+				if err != nil {
+					return nil, err
+				}
 				mem := &smithylib.Member{
-					Target: typeReferenceByName(ns, out.Type),
+					Target: target,
 				}
 				if out.Header != "" {
 					ensureMemberTraits(mem).Put("smithy.api#httpHeader", out.Header)
@@ -253,8 +261,12 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			}
 			//		inShape.Documentation = "[autogenerated for operation '" + name + "']"
 			for _, in := range od.Inputs {
+				target, err := memberTarget(model, ns, ast.Shapes, name+inputSuffix, in.Name, &in.TypeSpec, in.Annotations)
+				if err != nil {
+					return nil, err
+				}
 				mem := &smithylib.Member{
-					Target: typeReferenceByName(ns, in.Type),
+					Target: target,
 				}
 				inShape.Members.Put(in.Name, mem)
 			}
@@ -268,8 +280,12 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			}
 			//		outShape.Documentation = "[autogenerated for operation '" + name + "']"
 			for _, out := range od.Outputs {
+				target, err := memberTarget(model, ns, ast.Shapes, name+outputSuffix, out.Name, &out.TypeSpec, out.Annotations)
+				if err != nil {
+					return nil, err
+				}
 				mem := &smithylib.Member{
-					Target: typeReferenceByName(ns, out.Type),
+					Target: target,
 				}
 				outShape.Members.Put(out.Name, mem)
 			}
-- 
2.43.0


From 65327238c9a39f89c0ffa63ee209385a91122442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:29 +0000
Subject: [PATCH 140/192] fix: smithy export lost which inputs and outputs are
 required, and their comments

---
 smithy/export_smithy.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 6c5fe90..38acb23 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -165,9 +165,14 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				mem := &smithylib.Member{
 					Target: target,
 				}
+				if in.Required || in.Path {
+					ensureMemberTraits(mem).Put("smithy.api#required", true)
+				}
+				if in.Comment != "" {
+					ensureMemberTraits(mem).Put("smithy.api#documentation", in.Comment)
+				}
 				if in.Path {
 					ensureMemberTraits(mem).Put("smithy.api#httpLabel", true)
-					ensureMemberTraits(mem).Put("smithy.api#required", true)
 				} else if in.Query != "" {
 					ensureMemberTraits(mem).Put("smithy.api#httpQuery", in.Query)
 				} else if in.Header != "" {
@@ -196,6 +201,12 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				mem := &smithylib.Member{
 					Target: target,
 				}
+				if out.Required {
+					ensureMemberTraits(mem).Put("smithy.api#required", true)
+				}
+				if out.Comment != "" {
+					ensureMemberTraits(mem).Put("smithy.api#documentation", out.Comment)
+				}
 				if out.Header != "" {
 					ensureMemberTraits(mem).Put("smithy.api#httpHeader", out.Header)
 				} else {
@@ -268,6 +279,12 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				mem := &smithylib.Member{
 					Target: target,
 				}
+				if in.Required {
+					ensureMemberTraits(mem).Put("smithy.api#required", true)
+				}
+				if in.Comment != "" {
+					ensureMemberTraits(mem).Put("smithy.api#documentation", in.Comment)
+				}
 				inShape.Members.Put(in.Name, mem)
 			}
 			ast.Shapes.Put(shape.Input.Target, &inShape)
@@ -287,6 +304,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				mem := &smithylib.Member{
 					Target: target,
 				}
+				if out.Comment != "" {
+					ensureMemberTraits(mem).Put("smithy.api#documentation", out.Comment)
+				}
 				outShape.Members.Put(out.Name, mem)
 			}
 			ast.Shapes.Put(shape.Output.Target, &outShape)
-- 
2.43.0


From b9a78832176f1d4cb220176b6564ad364b89d6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:30 +0000
Subject: [PATCH 141/192] fix: smithy export lost the exceptions of operations

---
 smithy/export_smithy.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 38acb23..a805394 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -312,11 +312,17 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 			ast.Shapes.Put(shape.Output.Target, &outShape)
 		}
 		if len(od.Exceptions) > 0 {
-			var excs []string
 			for _, exc := range od.Exceptions {
-				excs = append(excs, exc)
+				em := &smithylib.ShapeRef{Target: ns + "#" + exc}
+				tmp := ast.Shapes.Get(em.Target)
+				if tmp == nil {
+					return nil, fmt.Errorf("Cannot find shape for error declaration type %q", exc)
+				}
+				if !tmp.Traits.Has("smithy.api#error") {
+					ensureShapeTraits(tmp).Put("smithy.api#error", "client")
+				}
+				shape.Errors = append(shape.Errors, em)
 			}
-			//?
 		}
 
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", od.Comment)
-- 
2.43.0


From e5fa16dd83563b022c3079a66fee5384b437de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:53 +0000
Subject: [PATCH 142/192] fix: smithy export replaced a type by an action, a
 request or a service of the same name

---
 smithy/export_smithy.go | 45 ++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index a805394..6c20f19 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -182,7 +182,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 				inShape.Members.Put(in.Name, mem)
 			}
-			ast.Shapes.Put(shape.Input.Target, &inShape)
+			if err := putShape(ast.Shapes, shape.Input.Target, &inShape); err != nil {
+				return nil, err
+			}
 		}
 
 		if hd.Expected != nil && len(hd.Expected.Outputs) > 0 {
@@ -214,7 +216,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 				outShape.Members.Put(out.Name, mem)
 			}
-			ast.Shapes.Put(shape.Output.Target, &outShape)
+			if err := putShape(ast.Shapes, shape.Output.Target, &outShape); err != nil {
+				return nil, err
+			}
 		}
 
 		//if we have any exceptions, define them
@@ -253,7 +257,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 			}
 		}
-		ast.Shapes.Put(prefix+name, &shape)
+		if err := putShape(ast.Shapes, prefix+name, &shape); err != nil {
+			return nil, err
+		}
 		ops = append(ops, &smithylib.ShapeRef{
 			Target: prefix + name,
 		})
@@ -287,7 +293,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 				inShape.Members.Put(in.Name, mem)
 			}
-			ast.Shapes.Put(shape.Input.Target, &inShape)
+			if err := putShape(ast.Shapes, shape.Input.Target, &inShape); err != nil {
+				return nil, err
+			}
 		}
 		if len(od.Outputs) > 0 {
 			shape.Output = &smithylib.ShapeRef{Target: prefix + name + outputSuffix}
@@ -309,7 +317,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 				}
 				outShape.Members.Put(out.Name, mem)
 			}
-			ast.Shapes.Put(shape.Output.Target, &outShape)
+			if err := putShape(ast.Shapes, shape.Output.Target, &outShape); err != nil {
+				return nil, err
+			}
 		}
 		if len(od.Exceptions) > 0 {
 			for _, exc := range od.Exceptions {
@@ -326,7 +336,9 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		}
 
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", od.Comment)
-		ast.Shapes.Put(prefix+name, &shape)
+		if err := putShape(ast.Shapes, prefix+name, &shape); err != nil {
+			return nil, err
+		}
 		ops = append(ops, &smithylib.ShapeRef{
 			Target: prefix + name,
 		})
@@ -344,8 +356,13 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 		if model.Comment != "" {
 			ensureShapeTraits(service).Put("smithy.api#documentation", model.Comment)
 		}
-		serviceName := sadl.Capitalize(model.Name)
-		ast.Shapes.Put(prefix+serviceName, service)
+		serviceName := capitalize(model.Name)
+		if serviceName == "" || ast.Shapes.Get(prefix+serviceName) != nil {
+			serviceName += "Service"
+		}
+		if err := putShape(ast.Shapes, prefix+serviceName, service); err != nil {
+			return nil, err
+		}
 	}
 	if len(model.Examples) > 0 {
 		examplesFromSADL(ns, ast, model)
@@ -353,6 +370,15 @@ func FromSADL(model *sadl.Model, ns string) (*smithylib.AST, error) {
 	return ast, nil
 }
 
+// putShape adds a shape that is not there yet
+func putShape(shapes *smithylib.Shapes, id string, shape *smithylib.Shape) error {
+	if shapes.Get(id) != nil {
+		return fmt.Errorf("Cannot define shape %q, there is one with that name already", id)
+	}
+	shapes.Put(id, shape)
+	return nil
+}
+
 // definedType returns the definition of a type of the model itself, i.e. one that is not a base type
 func definedType(model *sadl.Model, name string) *sadl.TypeDef {
 	for _, td := range model.Types {
@@ -581,8 +607,7 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 			}
 		}
 	}
-	shapes.Put(ns+"#"+name, &shape)
-	return nil
+	return putShape(shapes, ns+"#"+name, &shape)
 }
 
 func shapeFromArray(model *sadl.Model, ns string, shapes *smithylib.Shapes, tname string, ts *sadl.TypeSpec, annos map[string]string) smithylib.Shape {
-- 
2.43.0


From e88f7fa119468f638bd31cf4a4ba84084960b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 143/192] fix: smithy export listed examples in random order,
 crashed on those that are no objects, and misnamed errors

---
 smithy/export_smithy.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 6c20f19..5d25a0d 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -389,20 +389,24 @@ func definedType(model *sadl.Model, name string) *sadl.TypeDef {
 	return nil
 }
 
-func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]interface{} {
+func sadlExamplesForAction(ns string, model *sadl.Model, hdef *sadl.HttpDef) []map[string]interface{} {
 	opName := sadl.Capitalize(hdef.Name)
 	reqType := opName + "Request"
 	resType := opName + "Response"
 	namedExamples := make(map[string]map[string]interface{}, 0)
+	var names []string
 	//each named example should be a pair of req/res, or req/exc
 	for _, ex := range model.Examples {
 		if ex.Target == reqType {
 			c := ex.Comment
 			e := make(map[string]interface{}, 0)
-			e["input"] = ex.Example.(map[string]interface{})
+			e["input"] = ex.Example
 			if c != "" {
 				e["documentation"] = c
 			}
+			if _, ok := namedExamples[ex.Name]; !ok {
+				names = append(names, ex.Name)
+			}
 			namedExamples[ex.Name] = e
 		}
 	}
@@ -410,13 +414,13 @@ func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]i
 		if ex.Target != reqType {
 			if data, ok := namedExamples[ex.Name]; ok {
 				if ex.Target == resType {
-					data["output"] = ex.Example.(map[string]interface{})
+					data["output"] = ex.Example
 				} else {
 					for _, exc := range hdef.Exceptions {
 						if exc.Type == ex.Target {
 							tmp := make(map[string]interface{}, 0)
-							tmp["error"] = ex.Example.(map[string]interface{})
-							tmp["shapeId"] = ex.Target
+							tmp["content"] = ex.Example
+							tmp["shapeId"] = ns + "#" + ex.Target
 							data["error"] = tmp
 							break
 						}
@@ -426,7 +430,8 @@ func sadlExamplesForAction(model *sadl.Model, hdef *sadl.HttpDef) []map[string]i
 		}
 	}
 	result := make([]map[string]interface{}, 0)
-	for k, v := range namedExamples {
+	for _, k := range names {
+		v := namedExamples[k]
 		v["title"] = k
 		result = append(result, v)
 	}
@@ -439,7 +444,7 @@ func examplesFromSADL(ns string, ast *smithylib.AST, model *sadl.Model) {
 		if ns != "" {
 			name = ns + "#" + name
 		}
-		examples := sadlExamplesForAction(model, hact)
+		examples := sadlExamplesForAction(ns, model, hact)
 		shape := ast.Shapes.Get(name)
 		if shape == nil {
 			continue
-- 
2.43.0


From 153997d571c63076ef522005aaa7e1719d0f85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:13 +0000
Subject: [PATCH 144/192] fix: smithy import of a boolean shape made a type
 that does not exist

---
 smithy/import_smithy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 64d5318..53c6c9f 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -426,7 +426,7 @@ func (i *Importer) importBooleanShape(shapeName string, shape *smithylib.Shape)
 		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
 		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
-	td.Type = "Boolean"
+	td.Type = "Bool"
 	i.schema.Types = append(i.schema.Types, td)
 }
 
-- 
2.43.0


From 8a7384e9d8e5097b10bdee07355ef4e83c05a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:14 +0000
Subject: [PATCH 145/192] fix: smithy import lost the sizes of lists and maps,
 and sizes that are 0

---
 smithy/import_smithy.go | 52 +++++++++++++----------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 53c6c9f..25837cb 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -303,16 +303,7 @@ func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 	} else {
 		td.Type = "String"
 		td.Pattern = pat
-		if l := shape.Traits.GetMap("smithy.api#length"); l != nil {
-			tmp := sadl.GetInt64(l, "min")
-			if tmp != 0 {
-				td.MinSize = &tmp
-			}
-			tmp = sadl.GetInt64(l, "max")
-			if tmp != 0 {
-				td.MaxSize = &tmp
-			}
-		}
+		importLength(td, shape)
 		lst := shape.Traits.GetArray("smithy.api#enum")
 		if lst != nil {
 			var values []string
@@ -327,6 +318,18 @@ func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 	i.schema.Types = append(i.schema.Types, td)
 }
 
+func importLength(td *sadl.TypeDef, shape *smithylib.Shape) {
+	l := shape.Traits.GetMap("smithy.api#length")
+	if _, ok := l["min"]; ok {
+		min := sadl.GetInt64(l, "min")
+		td.MinSize = &min
+	}
+	if _, ok := l["max"]; ok {
+		max := sadl.GetInt64(l, "max")
+		td.MaxSize = &max
+	}
+}
+
 func isSmithyRecommendedEnumName(s string) bool {
 	if s == "" {
 		return false
@@ -406,16 +409,7 @@ func (i *Importer) importBlobShape(shapeName string, shape *smithylib.Shape) {
 		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
 	}
 	td.Type = "Bytes"
-	if l := shape.Traits.GetMap("smithy.api#length"); l != nil {
-		tmp := sadl.GetInt64(l, "min")
-		if tmp != 0 {
-			td.MinSize = &tmp
-		}
-		tmp = sadl.GetInt64(l, "max")
-		if tmp != 0 {
-			td.MaxSize = &tmp
-		}
-	}
+	importLength(td, shape)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
@@ -613,14 +607,7 @@ func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, uni
 	}
 	td.Type = "Array"
 	td.Items = i.shapeRefToTypeRef(shape.Member.Target)
-	tmp := shape.Traits.GetInt64("smithy.api#min")
-	if tmp != 0 {
-		td.MinSize = &tmp
-	}
-	tmp = shape.Traits.GetInt64("smithy.api#max")
-	if tmp != 0 {
-		td.MaxSize = &tmp
-	}
+	importLength(td, shape)
 	if unique {
 		td.Annotations = WithAnnotation(td.Annotations, "x_unique", "true")
 	}
@@ -636,14 +623,7 @@ func (i *Importer) importMapShape(shapeName string, shape *smithylib.Shape) {
 	td.Type = "Map"
 	td.Keys = i.shapeRefToTypeRef(shape.Key.Target)
 	td.Items = i.shapeRefToTypeRef(shape.Value.Target)
-	tmp := shape.Traits.GetInt64("smithy.api#min")
-	if tmp != 0 {
-		td.MinSize = &tmp
-	}
-	tmp = shape.Traits.GetInt64("smithy.api#max")
-	if tmp != 0 {
-		td.MaxSize = &tmp
-	}
+	importLength(td, shape)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
-- 
2.43.0


From 71b3c72058a03f940acf8e95d9a77af747b19534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:31 +0000
Subject: [PATCH 146/192] fix: smithy import lost the range of numbers, which
 JSON gives as float64

---
 smithy/import_smithy.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 25837cb..aaa7465 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -271,14 +271,8 @@ func (i *Importer) importNumericShape(smithyType string, shapeName string, shape
 		panic("whoops")
 	}
 	if l := shape.Traits.GetMap("smithy.api#range"); l != nil {
-		tmp := sadl.GetDecimal(l, "min")
-		if tmp != nil {
-			td.Min = tmp
-		}
-		tmp = sadl.GetDecimal(l, "max")
-		if tmp != nil {
-			td.Max = tmp
-		}
+		td.Min = sadl.DecimalValue(sadl.GetDecimal(l, "min"), l["min"])
+		td.Max = sadl.DecimalValue(sadl.GetDecimal(l, "max"), l["max"])
 	}
 	i.schema.Types = append(i.schema.Types, td)
 }
-- 
2.43.0


From 91070806b432d97f5210c87e7dc79c42e2ab79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:32 +0000
Subject: [PATCH 147/192] fix: smithy import lost the names of query parameters
 that differ from those of the members

---
 smithy/import_smithy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index aaa7465..c6d3e2c 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -811,7 +811,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 						} else {
 							qs = qs + "&"
 						}
-						qs = qs + fname + "={" + fname + "}"
+						qs = qs + in.Query + "={" + fname + "}"
 					}
 					in.Header = fval.Traits.GetString("smithy.api#httpHeader")
 					in.Path = fval.Traits.GetBool("smithy.api#httpLabel")
-- 
2.43.0


From 9be80b2e50bfe87ab1e126153700fd181a6710ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:33 +0000
Subject: [PATCH 148/192] fix: smithy import kept the version that stands for
 none

---
 smithy/import_smithy.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index c6d3e2c..54e1b71 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -146,9 +146,6 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	if schema.Namespace == UnspecifiedNamespace {
 		schema.Namespace = ""
 	}
-	if schema.Version == UnspecifiedVersion {
-		schema.Version = ""
-	}
 	i.schema = schema
 
 	serviceName := ""
@@ -182,6 +179,9 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	if schema.Version == "" {
 		schema.Version = serviceVersion
 	}
+	if schema.Version == UnspecifiedVersion {
+		schema.Version = ""
+	}
 	for _, k := range ast.Shapes.Keys() {
 		v := ast.Shapes.Get(k)
 		if v.Type != "service" || k == serviceName {
-- 
2.43.0


From fce3c1e252cca5914c2bf785bd9101ed368a4906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:34 +0000
Subject: [PATCH 149/192] fix: smithy import gave examples targets that do not
 exist, and lost those of errors

---
 smithy/import_smithy.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 54e1b71..8e81255 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -700,8 +700,8 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		outShapeName = shape.Output.Target
 		outType = i.shapeRefToTypeRef(outShapeName)
 	}
-	reqType := sadl.Capitalize(shapeName) + inputSuffix
-	resType := sadl.Capitalize(shapeName) + outputSuffix
+	reqType := sadl.Capitalize(stripNamespace(shapeName)) + "Request"
+	resType := sadl.Capitalize(stripNamespace(shapeName)) + "Response"
 	if opexes := shape.Traits.GetArray("smithy.api#examples"); opexes != nil {
 		for _, opexr := range opexes {
 			if opex, ok := opexr.(map[string]interface{}); ok {
@@ -723,6 +723,14 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 					}
 					i.schema.Examples = append(i.schema.Examples, ex)
 				}
+				if exc := sadl.GetMap(opex, "error"); exc != nil {
+					ex := &sadl.ExampleDef{
+						Target:  stripNamespace(sadl.GetString(exc, "shapeId")),
+						Name:    title,
+						Example: exc["content"],
+					}
+					i.schema.Examples = append(i.schema.Examples, ex)
+				}
 			}
 		}
 	}
-- 
2.43.0


From b8e9d4338c4487379f657b695ec4c9d12e1ce89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:35 +0000
Subject: [PATCH 150/192] fix: smithy import panicked on shapes that are
 missing, incomplete or not supported, and did not notice undefined members

---
 smithy/import_smithy.go | 74 +++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 8e81255..c1eeeda 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -96,6 +96,7 @@ type Importer struct {
 	ast       *smithylib.AST
 	ioParams  map[string]*smithylib.Shape
 	schema    *sadl.Schema
+	undefined string //a shape that is referred to but not there
 }
 
 func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
@@ -185,15 +186,20 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	for _, k := range ast.Shapes.Keys() {
 		v := ast.Shapes.Get(k)
 		if v.Type != "service" || k == serviceName {
-			i.importShape(k, v)
+			if err := i.importShape(k, v); err != nil {
+				return nil, err
+			}
 		}
 	}
+	if i.undefined != "" {
+		return nil, fmt.Errorf("Smithy shape not found: %s", i.undefined)
+	}
 	return sadl.NewModel(schema)
 }
 
-func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) {
+func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) error {
 	if _, ok := i.ioParams[shapeName]; ok {
-		return
+		return nil
 	}
 	switch shapeDef.Type {
 	case "byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal":
@@ -204,11 +210,15 @@ func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) {
 		i.importTimestampShape(shapeName, shapeDef)
 	case "boolean":
 		i.importBooleanShape(shapeName, shapeDef)
-	case "list":
-		i.importListShape(shapeName, shapeDef, false)
-	case "set":
-		i.importListShape(shapeName, shapeDef, true)
+	case "list", "set":
+		if shapeDef.Member == nil {
+			return fmt.Errorf("Smithy list shape without a member: %s", shapeName)
+		}
+		i.importListShape(shapeName, shapeDef, shapeDef.Type == "set")
 	case "map":
+		if shapeDef.Key == nil || shapeDef.Value == nil {
+			return fmt.Errorf("Smithy map shape without key or value: %s", shapeName)
+		}
 		i.importMapShape(shapeName, shapeDef)
 	case "structure":
 		i.importStructureShape(shapeName, shapeDef)
@@ -221,13 +231,15 @@ func (i *Importer) importShape(shapeName string, shapeDef *smithylib.Shape) {
 	case "service":
 		//FIX schema.Name = shapeName
 	case "operation":
-		i.importOperationShape(shapeName, shapeDef)
+		return i.importOperationShape(shapeName, shapeDef)
 	case "resource":
 		i.importResourceShape(shapeName, shapeDef)
+	case "document":
+		i.importDocumentShape(shapeName, shapeDef)
 	default:
-		fmt.Println("fix me, unhandled shape type: " + shapeDef.Type)
-		panic("whoa")
+		return fmt.Errorf("Smithy shape type not supported: %s (%s)", shapeDef.Type, shapeName)
 	}
+	return nil
 }
 
 func escapeComment(doc string) string {
@@ -418,6 +430,16 @@ func (i *Importer) importBooleanShape(shapeName string, shape *smithylib.Shape)
 	i.schema.Types = append(i.schema.Types, td)
 }
 
+func (i *Importer) importDocumentShape(shapeName string, shape *smithylib.Shape) {
+	td := &sadl.TypeDef{
+		Name:        stripNamespace(shapeName),
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
+	}
+	td.Type = "Any"
+	i.schema.Types = append(i.schema.Types, td)
+}
+
 func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *data.Object) map[string]string {
 	for _, k := range traits.Keys() {
 		v := traits.Get(k)
@@ -662,6 +684,9 @@ func (i *Importer) shapeRefToTypeRef(shapeRef string) string {
 	case "smithy.api#Document", "Document":
 		return "Struct" //todo: introduce a separate type for open structs.
 	default:
+		if i.ast.GetShape(typeRef) == nil && i.undefined == "" {
+			i.undefined = typeRef
+		}
 		if true {
 			typeRef = stripNamespace(typeRef)
 		} else {
@@ -680,7 +705,7 @@ func (i *Importer) importResourceShape(shapeName string, shape *smithylib.Shape)
 	//to do: preserve the resource info as tags on the operations
 }
 
-func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape) {
+func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape) error {
 	var method, uri string
 	var code int
 	if ht := shape.Traits.GetObject("smithy.api#http"); ht != nil {
@@ -690,15 +715,21 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 	}
 	var inType string
 	var inShapeName string
-	if shape.Input != nil {
+	if shape.Input != nil && shape.Input.Target != "smithy.api#Unit" {
 		inShapeName = shape.Input.Target
-		inType = i.shapeRefToTypeRef(inShapeName)
+		inType = stripNamespace(inShapeName)
+		if i.ast.GetShape(inShapeName) == nil {
+			return fmt.Errorf("Smithy shape not found: %s", inShapeName)
+		}
 	}
 	var outType string
 	var outShapeName string
-	if shape.Output != nil {
+	if shape.Output != nil && shape.Output.Target != "smithy.api#Unit" {
 		outShapeName = shape.Output.Target
-		outType = i.shapeRefToTypeRef(outShapeName)
+		outType = stripNamespace(outShapeName)
+		if i.ast.GetShape(outShapeName) == nil {
+			return fmt.Errorf("Smithy shape not found: %s", outShapeName)
+		}
 	}
 	reqType := sadl.Capitalize(stripNamespace(shapeName)) + "Request"
 	resType := sadl.Capitalize(stripNamespace(shapeName)) + "Response"
@@ -742,7 +773,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
 			Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 		}
-		if shape.Input != nil {
+		if inShapeName != "" {
 			inStruct := i.ast.GetShape(inShapeName)
 			var inputs []*sadl.OperationInput
 			for _, fname := range inStruct.Members.Keys() {
@@ -755,7 +786,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			}
 			odef.Inputs = inputs
 		}
-		if shape.Output != nil {
+		if outShapeName != "" {
 			outStruct := i.ast.GetShape(outShapeName)
 			var outputs []*sadl.OperationOutput
 			for _, fname := range outStruct.Members.Keys() {
@@ -775,7 +806,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		}
 		i.schema.Operations = append(i.schema.Operations, odef)
 		//the req/resp types are getting dropped
-		return
+		return nil
 	}
 	hdef := &sadl.HttpDef{
 		Method:      method,
@@ -787,7 +818,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 	if code == 0 {
 		code = 200
 	}
-	if shape.Input != nil && inShapeName != "smithy.api#Unit" {
+	if inShapeName != "" {
 		inStruct := i.ast.GetShape(inShapeName)
 		qs := ""
 		payloadMember := ""
@@ -841,7 +872,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 	expected := &sadl.HttpExpectedSpec{
 		Status: int32(code),
 	}
-	if shape.Output != nil && outShapeName != "smithy.api#Unit" {
+	if outShapeName != "" {
 		outStruct := i.ast.GetShape(outShapeName)
 		//SADL: each output is a header or a (singular) payload.
 		//Smithy: the output struct is the result payload, unless a field is marked as payload, which allows other fields
@@ -882,7 +913,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 			eStruct := i.ast.GetShape(eShapeName)
 			eType := i.shapeRefToTypeRef(eShapeName)
 			if eStruct == nil {
-				panic("error type not found: " + eShapeName)
+				return fmt.Errorf("Smithy shape not found: %s", eShapeName)
 			}
 			exc := &sadl.HttpExceptionSpec{}
 			exc.Type = eType
@@ -896,6 +927,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 	//Annotations map[string]string
 	hdef.Expected = expected
 	i.schema.Http = append(i.schema.Http, hdef)
+	return nil
 }
 
 func WithAnnotation(annos map[string]string, key string, value string) map[string]string {
-- 
2.43.0


From adebbcc54c3d875348b5a05f5aa5ecf32df5c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:10 +0000
Subject: [PATCH 151/192] fix: smithy import left the primitive shapes of
 Smithy 1 and Unit as names that SADL does not have

---
 smithy/import_smithy.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index c1eeeda..700da54 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -659,21 +659,21 @@ func (i *Importer) shapeRefToTypeRef(shapeRef string) string {
 	switch typeRef {
 	case "smithy.api#Blob", "Blob":
 		return "Bytes"
-	case "smithy.api#Boolean", "Boolean":
+	case "smithy.api#Boolean", "smithy.api#PrimitiveBoolean", "Boolean":
 		return "Bool"
 	case "smithy.api#String", "String":
 		return "String"
-	case "smithy.api#Byte", "Byte":
+	case "smithy.api#Byte", "smithy.api#PrimitiveByte", "Byte":
 		return "Int8"
-	case "smithy.api#Short", "Short":
+	case "smithy.api#Short", "smithy.api#PrimitiveShort", "Short":
 		return "Int16"
-	case "smithy.api#Integer", "Integer":
+	case "smithy.api#Integer", "smithy.api#PrimitiveInteger", "Integer":
 		return "Int32"
-	case "smithy.api#Long", "Long":
+	case "smithy.api#Long", "smithy.api#PrimitiveLong", "Long":
 		return "Int64"
-	case "smithy.api#Float", "Float":
+	case "smithy.api#Float", "smithy.api#PrimitiveFloat", "Float":
 		return "Float32"
-	case "smithy.api#Double", "Double":
+	case "smithy.api#Double", "smithy.api#PrimitiveDouble", "Double":
 		return "Float64"
 	case "smithy.api#BigInteger", "BigInteger":
 		return "Decimal" //lossy!
@@ -681,7 +681,7 @@ func (i *Importer) shapeRefToTypeRef(shapeRef string) string {
 		return "Decimal"
 	case "smithy.api#Timestamp", "Timestamp":
 		return "Timestamp"
-	case "smithy.api#Document", "Document":
+	case "smithy.api#Document", "smithy.api#Unit", "Document":
 		return "Struct" //todo: introduce a separate type for open structs.
 	default:
 		if i.ast.GetShape(typeRef) == nil && i.undefined == "" {
-- 
2.43.0


From e4cd56937826a6fe89c7454917ed2e5101fec7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:41 +0000
Subject: [PATCH 152/192] fix: smithy import lost inputs and outputs that are
 bodies or headers, and the comments of parameters

---
 smithy/import_smithy.go | 167 ++++++++++++++++++----------------------
 1 file changed, 77 insertions(+), 90 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 700da54..7e1a125 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -96,6 +96,7 @@ type Importer struct {
 	ast       *smithylib.AST
 	ioParams  map[string]*smithylib.Shape
 	schema    *sadl.Schema
+	bodies    map[string]bool
 	undefined string //a shape that is referred to but not there
 }
 
@@ -103,6 +104,7 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 	i := &Importer{
 		ast:      ast,
 		ioParams: make(map[string]*smithylib.Shape, 0),
+		bodies:   make(map[string]bool, 0),
 	}
 	name := conf.GetString("name")
 	if name != "" {
@@ -450,6 +452,8 @@ func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *da
 			annos = WithAnnotation(annos, "x_"+stripNamespace(k), fmt.Sprintf("%v", v))
 		case "smithy.api#httpPayload", "smithy.api#httpLabel", "smithy.api#httpQuery", "smithy.api#httpHeader":
 			/* ignore, implicit in SADL */
+		case "smithy.api#input", "smithy.api#output":
+			/* ignore, implicit in SADL */
 		case "smithy.api#required", "smithy.api#documentation", "smithy.api#range", "smithy.api#length":
 			/* ignore, implicit in SADL */
 		case "smithy.api#tags":
@@ -573,22 +577,11 @@ func (i *Importer) importUnionShape(shapeName string, shape *smithylib.Shape) {
 }
 
 func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape) {
-	//unless...no httpTraits, in which case is should equivalent to a payload description
-	if _, ok := i.ioParams[shapeName]; ok {
-		shape := i.ast.GetShape(shapeName)
-		for _, k := range shape.Members.Keys() {
-			fval := shape.Members.Get(k)
-			if fval.Traits.GetBool("smithy.api#httpLabel") {
-				return
-			}
-			if fval.Traits.GetBool("smithy.api#httpPayload") {
-				return
-			}
-			if fval.Traits.GetString("smithy.api#httpQuery") != "" {
-				return
-			}
-		}
-	}
+	i.importStructure(shapeName, shape, shape.Members.Keys())
+}
+
+// importStructure defines a struct with the given members of a shape
+func (i *Importer) importStructure(shapeName string, shape *smithylib.Shape, members []string) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
 		Name:        sadlName,
@@ -597,7 +590,7 @@ func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape
 	}
 	td.Type = "Struct"
 	var fields []*sadl.StructFieldDef
-	for _, memberName := range shape.Members.Keys() {
+	for _, memberName := range members {
 		member := shape.Members.Get(memberName)
 		fd := &sadl.StructFieldDef{
 			Name:        memberName,
@@ -615,6 +608,35 @@ func (i *Importer) importStructureShape(shapeName string, shape *smithylib.Shape
 	i.schema.Types = append(i.schema.Types, td)
 }
 
+// bodyParam returns the body made of those members of an input or output that have no other place, if there are any.
+// Its type has the name of the shape.
+func (i *Importer) bodyParam(shapeName string, shape *smithylib.Shape) *sadl.HttpParamSpec {
+	var members []string
+	bound := false
+	for _, k := range shape.Members.Keys() {
+		traits := shape.Members.Get(k).Traits
+		if traits.Has("smithy.api#httpPayload") {
+			return nil
+		}
+		if traits.Has("smithy.api#httpLabel") || traits.Has("smithy.api#httpQuery") || traits.Has("smithy.api#httpHeader") {
+			bound = true
+		} else {
+			members = append(members, k)
+		}
+	}
+	if bound && len(members) == 0 {
+		return nil
+	}
+	if !i.bodies[shapeName] {
+		i.bodies[shapeName] = true
+		i.importStructure(shapeName, shape, members)
+	}
+	body := &sadl.HttpParamSpec{}
+	body.Name = "body"
+	body.Type = stripNamespace(shapeName)
+	return body
+}
+
 func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, unique bool) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
@@ -713,20 +735,16 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 		uri = ht.GetString("uri")
 		code = ht.GetInt("code")
 	}
-	var inType string
 	var inShapeName string
 	if shape.Input != nil && shape.Input.Target != "smithy.api#Unit" {
 		inShapeName = shape.Input.Target
-		inType = stripNamespace(inShapeName)
 		if i.ast.GetShape(inShapeName) == nil {
 			return fmt.Errorf("Smithy shape not found: %s", inShapeName)
 		}
 	}
-	var outType string
 	var outShapeName string
 	if shape.Output != nil && shape.Output.Target != "smithy.api#Unit" {
 		outShapeName = shape.Output.Target
-		outType = stripNamespace(outShapeName)
 		if i.ast.GetShape(outShapeName) == nil {
 			return fmt.Errorf("Smithy shape not found: %s", outShapeName)
 		}
@@ -821,52 +839,34 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 	if inShapeName != "" {
 		inStruct := i.ast.GetShape(inShapeName)
 		qs := ""
-		payloadMember := ""
-		hasLabel := false
-		hasQuery := false
-		if inStruct != nil {
-			for _, fname := range inStruct.Members.Keys() {
-				fval := inStruct.Members.Get(fname)
-				if fval.Traits.GetBool("smithy.api#httpPayload") {
-					payloadMember = fname
-				} else if fval.Traits.GetBool("smithy.api#httpLabel") {
-					hasLabel = true
-				} else if fval.Traits.GetBool("smithy.api#httpQuery") {
-					hasQuery = true
-				}
-			}
-			if hasLabel || hasQuery || payloadMember != "" {
-				//the input might *have* a body
-				for _, fname := range inStruct.Members.Keys() {
-					fval := inStruct.Members.Get(fname)
-					in := &sadl.HttpParamSpec{}
-					in.Name = fname
-					in.Type = i.shapeRefToTypeRef(fval.Target)
-					in.Required = fval.Traits.GetBool("smithy.api#required")
-					in.Query = fval.Traits.GetString("smithy.api#httpQuery")
-					if in.Query != "" {
-						if qs == "" {
-							qs = "?"
-						} else {
-							qs = qs + "&"
-						}
-						qs = qs + in.Query + "={" + fname + "}"
-					}
-					in.Header = fval.Traits.GetString("smithy.api#httpHeader")
-					in.Path = fval.Traits.GetBool("smithy.api#httpLabel")
-					hdef.Inputs = append(hdef.Inputs, in)
+		body := i.bodyParam(inShapeName, inStruct)
+		for _, fname := range inStruct.Members.Keys() {
+			fval := inStruct.Members.Get(fname)
+			in := &sadl.HttpParamSpec{}
+			in.Name = fname
+			in.Query = fval.Traits.GetString("smithy.api#httpQuery")
+			in.Header = fval.Traits.GetString("smithy.api#httpHeader")
+			in.Path = fval.Traits.GetBool("smithy.api#httpLabel")
+			if body != nil && in.Query == "" && in.Header == "" && !in.Path {
+				continue
+			}
+			in.Type = i.shapeRefToTypeRef(fval.Target)
+			in.Required = fval.Traits.GetBool("smithy.api#required")
+			in.Comment = escapeComment(fval.Traits.GetString("smithy.api#documentation"))
+			if in.Query != "" {
+				if qs == "" {
+					qs = "?"
+				} else {
+					qs = qs + "&"
 				}
-			} else {
-				//the input *is* a body. Generate a name for it.
-				in := &sadl.HttpParamSpec{}
-				in.Name = "body"
-				in.Type = inType
-				hdef.Inputs = append(hdef.Inputs, in)
+				qs = qs + in.Query + "={" + fname + "}"
 			}
-			hdef.Path = hdef.Path + qs
+			hdef.Inputs = append(hdef.Inputs, in)
 		}
-	} else {
-		//		fmt.Println("no input:", data.Pretty(shape))
+		if body != nil {
+			hdef.Inputs = append(hdef.Inputs, body)
+		}
+		hdef.Path = hdef.Path + qs
 	}
 
 	expected := &sadl.HttpExpectedSpec{
@@ -875,36 +875,23 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 	if outShapeName != "" {
 		outStruct := i.ast.GetShape(outShapeName)
 		//SADL: each output is a header or a (singular) payload.
-		//Smithy: the output struct is the result payload, unless a field is marked as payload, which allows other fields
-		//to be marked as header.
-		outBodyField := ""
-		hasLabel := false
+		//Smithy: the members of the output struct that are neither header nor payload are the body.
+		body := i.bodyParam(outShapeName, outStruct)
 		for _, fname := range outStruct.Members.Keys() {
 			fval := outStruct.Members.Get(fname)
-			if fval.Traits.GetBool("smithy.api#httpPayload") {
-				outBodyField = fname
-			} else if fval.Traits.GetBool("smithy.api#httpLabel") {
-				hasLabel = true
-			}
-		}
-		if outBodyField == "" && !hasLabel {
-			//the entire output structure is the payload, no headers possible
 			out := &sadl.HttpParamSpec{}
-			out.Name = "body"
-			out.Type = i.shapeRefToTypeRef(outType)
+			out.Name = fname
+			out.Header = fval.Traits.GetString("smithy.api#httpHeader")
+			if body != nil && out.Header == "" {
+				continue
+			}
+			out.Type = i.shapeRefToTypeRef(fval.Target)
+			out.Required = fval.Traits.GetBool("smithy.api#required")
+			out.Comment = escapeComment(fval.Traits.GetString("smithy.api#documentation"))
 			expected.Outputs = append(expected.Outputs, out)
-		} else {
-			for _, fname := range outStruct.Members.Keys() {
-				fval := outStruct.Members.Get(fname)
-				out := &sadl.HttpParamSpec{}
-				out.Name = fname
-				out.Type = i.shapeRefToTypeRef(fval.Target)
-				out.Required = fval.Traits.GetBool("smithy.api#required")
-				out.Header = fval.Traits.GetString("smithy.api#httpHeader")
-				out.Query = fval.Traits.GetString("smithy.api#httpQuery")
-				out.Path = fval.Traits.GetBool("smithy.api#httpLabel")
-				expected.Outputs = append(expected.Outputs, out)
-			}
+		}
+		if body != nil {
+			expected.Outputs = append(expected.Outputs, body)
 		}
 	}
 	if shape.Errors != nil {
-- 
2.43.0


From a5e13df5c8b2d31331d298676142b9dca1151d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:42 +0000
Subject: [PATCH 153/192] fix: smithy import did not define inputs and outputs
 that are used as types, too

---
 smithy/import_smithy.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 7e1a125..e090f67 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -96,7 +96,8 @@ type Importer struct {
 	ast       *smithylib.AST
 	ioParams  map[string]*smithylib.Shape
 	schema    *sadl.Schema
-	bodies    map[string]bool
+	bodies    map[string]bool //the inputs and outputs that are types, too
+	referred  map[string]bool
 	undefined string //a shape that is referred to but not there
 }
 
@@ -105,6 +106,7 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 		ast:      ast,
 		ioParams: make(map[string]*smithylib.Shape, 0),
 		bodies:   make(map[string]bool, 0),
+		referred: make(map[string]bool, 0),
 	}
 	name := conf.GetString("name")
 	if name != "" {
@@ -193,6 +195,17 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 			}
 		}
 	}
+	//inputs and outputs that are used as types, too
+	for again := true; again; {
+		again = false
+		for _, k := range ast.Shapes.Keys() {
+			if shape := i.ioParams[k]; shape != nil && i.referred[k] && !i.bodies[k] {
+				i.bodies[k] = true
+				i.importStructureShape(k, shape)
+				again = true
+			}
+		}
+	}
 	if i.undefined != "" {
 		return nil, fmt.Errorf("Smithy shape not found: %s", i.undefined)
 	}
@@ -709,6 +722,7 @@ func (i *Importer) shapeRefToTypeRef(shapeRef string) string {
 		if i.ast.GetShape(typeRef) == nil && i.undefined == "" {
 			i.undefined = typeRef
 		}
+		i.referred[typeRef] = true
 		if true {
 			typeRef = stripNamespace(typeRef)
 		} else {
-- 
2.43.0


From 57ad2a763eebd73ab093de63fade1c6a137d60ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:03 +0000
Subject: [PATCH 154/192] fix: smithy export gave the traits of a type in a
 different order every time

---
 smithy/export_smithy.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 5d25a0d..e0a7905 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -2,6 +2,7 @@ package smithy
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/boynton/data"
@@ -591,7 +592,13 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 		ensureShapeTraits(&shape).Put("smithy.api#documentation", comment)
 	}
 	if annos != nil {
-		for k, v := range annos {
+		keys := make([]string, 0, len(annos))
+		for k := range annos {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+		for _, k := range keys {
+			v := annos[k]
 			switch k {
 			case "x_tags":
 				ensureShapeTraits(&shape).Put("smithy.api#tags", strings.Split(v, ","))
-- 
2.43.0


From fb7240748414e670044184c5942e4e740d94940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:51 +0000
Subject: [PATCH 155/192] fix: smithy import lost the comments of the service
 and of the inputs and outputs of operations

---
 smithy/import_smithy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index e090f67..20e2096 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -169,6 +169,7 @@ func ToSadl(ast *smithylib.AST, conf *sadl.Data) (*sadl.Model, error) {
 			}
 			serviceName = shapeName
 			serviceVersion = shapeDef.Version
+			schema.Comment = escapeComment(shapeDef.Traits.GetString("smithy.api#documentation"))
 		} else if shapeDef.Type == "operation" {
 			if shapeDef.Input != nil {
 				i.ioParams[shapeDef.Input.Target] = i.ast.GetShape(shapeDef.Input.Target)
@@ -814,6 +815,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 				in.Name = fname
 				in.Type = i.shapeRefToTypeRef(fval.Target)
 				in.Required = fval.Traits.GetBool("smithy.api#required")
+				in.Comment = escapeComment(fval.Traits.GetString("smithy.api#documentation"))
 				inputs = append(inputs, in)
 			}
 			odef.Inputs = inputs
@@ -826,6 +828,7 @@ func (i *Importer) importOperationShape(shapeName string, shape *smithylib.Shape
 				fval := outStruct.Members.Get(fname)
 				out.Name = fname
 				out.Type = i.shapeRefToTypeRef(fval.Target)
+				out.Comment = escapeComment(fval.Traits.GetString("smithy.api#documentation"))
 				outputs = append(outputs, out)
 			}
 			odef.Outputs = outputs
-- 
2.43.0


From c6eb9b61331e853e45afe313f87fedc34372f028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:52 +0000
Subject: [PATCH 156/192] fix: smithy import lost the tags of strings, bytes,
 lists and maps

---
 smithy/import_smithy.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 20e2096..2e306f0 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -316,8 +316,9 @@ func (i *Importer) importStringShape(shapeName string, shape *smithylib.Shape) {
 		return
 	}
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	pat := shape.Traits.GetString("smithy.api#pattern")
 	if pat == "([a-f0-9]{8}(-[a-f0-9]{4}){4}[a-f0-9]{8})" {
@@ -404,8 +405,9 @@ func (i *Importer) importEnum(shapeName string, shape *smithylib.Shape) bool {
 	}
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Enum"
 	td.Elements = elements
@@ -427,8 +429,9 @@ func (i *Importer) importTimestampShape(shapeName string, shape *smithylib.Shape
 func (i *Importer) importBlobShape(shapeName string, shape *smithylib.Shape) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Bytes"
 	importLength(td, shape)
@@ -468,7 +471,7 @@ func (i *Importer) importTraitsAsAnnotations(annos map[string]string, traits *da
 			/* ignore, implicit in SADL */
 		case "smithy.api#input", "smithy.api#output":
 			/* ignore, implicit in SADL */
-		case "smithy.api#required", "smithy.api#documentation", "smithy.api#range", "smithy.api#length":
+		case "smithy.api#required", "smithy.api#documentation", "smithy.api#range", "smithy.api#length", "smithy.api#pattern", "smithy.api#enum":
 			/* ignore, implicit in SADL */
 		case "smithy.api#tags":
 			annos = WithAnnotation(annos, "x_"+stripNamespace(k), strings.Join(sadl.AsStringArray(v), ","))
@@ -654,8 +657,9 @@ func (i *Importer) bodyParam(shapeName string, shape *smithylib.Shape) *sadl.Htt
 func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, unique bool) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Array"
 	td.Items = i.shapeRefToTypeRef(shape.Member.Target)
@@ -669,8 +673,9 @@ func (i *Importer) importListShape(shapeName string, shape *smithylib.Shape, uni
 func (i *Importer) importMapShape(shapeName string, shape *smithylib.Shape) {
 	sadlName := stripNamespace(shapeName)
 	td := &sadl.TypeDef{
-		Name:    sadlName,
-		Comment: escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Name:        sadlName,
+		Comment:     escapeComment(shape.Traits.GetString("smithy.api#documentation")),
+		Annotations: i.importTraitsAsAnnotations(nil, shape.Traits),
 	}
 	td.Type = "Map"
 	td.Keys = i.shapeRefToTypeRef(shape.Key.Target)
-- 
2.43.0


From f41b24a290752297b4a738dc98f3951595d1713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:36 +0000
Subject: [PATCH 157/192] fix: smithy import ignored files of a type it does
 not know, and directories that cannot be read

---
 smithy/import_smithy.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smithy/import_smithy.go b/smithy/import_smithy.go
index 2e306f0..4328a89 100644
--- a/smithy/import_smithy.go
+++ b/smithy/import_smithy.go
@@ -1022,6 +1022,11 @@ func expandPaths(paths []string) ([]string, error) {
 					}
 					return nil
 				})
+				if err != nil {
+					return nil, err
+				}
+			} else {
+				return nil, fmt.Errorf("Cannot import file type %q as Smithy: %s", ext, path)
 			}
 		}
 	}
-- 
2.43.0


From bde07d711e94f54de2b7c41257ca8287faa03be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:50 +0000
Subject: [PATCH 158/192] fix: the options -n, -ns and -b did not override what
 is in the source

---
 cmd/sadl/import.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cmd/sadl/import.go b/cmd/sadl/import.go
index 84cf65d..1750a0f 100644
--- a/cmd/sadl/import.go
+++ b/cmd/sadl/import.go
@@ -90,6 +90,10 @@ func ValidImportFileType(path string) string {
 }
 
 func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension) (*sadl.Model, error) {
+	//these are taken from the configuration first, an importer may change it
+	name := conf.GetString("name")
+	namespace := conf.GetString("namespace")
+	base := conf.GetString("base")
 	chosenType := ""
 	flatPathList, err := expandPaths(paths)
 	if err != nil {
@@ -112,7 +116,20 @@ func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension)
 	if chosenType == "" {
 		return nil, fmt.Errorf("Cannot determine file type for input file(s))\n")
 	}
-	return importFiles(importPaths, chosenType, conf, extensions)
+	model, err := importFiles(importPaths, chosenType, conf, extensions)
+	if err != nil {
+		return nil, err
+	}
+	if name != "" {
+		model.Name = name
+	}
+	if namespace != "" {
+		model.Namespace = namespace
+	}
+	if base != "" {
+		model.Base = base
+	}
+	return model, nil
 }
 
 func importFiles(paths []string, ftype string, conf *sadl.Data, extensions []sadl.Extension) (*sadl.Model, error) {
-- 
2.43.0


From bb5f93a7bf984d42cd934cee4f53654627a93e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:50 +0000
Subject: [PATCH 159/192] fix: the option -t was ignored

---
 cmd/sadl/import.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/sadl/import.go b/cmd/sadl/import.go
index 1750a0f..0bb68cf 100644
--- a/cmd/sadl/import.go
+++ b/cmd/sadl/import.go
@@ -56,10 +56,13 @@ func expandPaths(paths []string) ([]string, error) {
 	return result, nil
 }
 
-func ValidImportFileType(path string) string {
+func ValidImportFileType(path string, onlyType string) string {
 	ext := filepath.Ext(path)
 	if ftypes, ok := ImportFileExtensions[ext]; ok {
 		for _, ftype := range ftypes {
+			if onlyType != "" && ftype != onlyType {
+				continue
+			}
 			switch ftype {
 			case "sadl":
 				if sadl.IsValidFile(path) {
@@ -94,6 +97,7 @@ func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension)
 	name := conf.GetString("name")
 	namespace := conf.GetString("namespace")
 	base := conf.GetString("base")
+	onlyType := conf.GetString("type")
 	chosenType := ""
 	flatPathList, err := expandPaths(paths)
 	if err != nil {
@@ -101,7 +105,7 @@ func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension)
 	}
 	var importPaths []string
 	for _, path := range flatPathList {
-		ftype := ValidImportFileType(path)
+		ftype := ValidImportFileType(path, onlyType)
 		if ftype != "" {
 			if chosenType == "" {
 				chosenType = ftype
-- 
2.43.0


From bf67cd904aab2a5180e96f602ffd801e3d2aa5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 160/192] fix: input files that cannot be read or are of no
 known type were ignored when there was another file

---
 cmd/sadl/import.go | 56 +++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/cmd/sadl/import.go b/cmd/sadl/import.go
index 0bb68cf..1ab982e 100644
--- a/cmd/sadl/import.go
+++ b/cmd/sadl/import.go
@@ -28,32 +28,39 @@ var ImportFileExtensions = map[string][]string{
 	".yaml":    []string{"openapi"},
 }
 
-func expandPaths(paths []string) ([]string, error) {
-	var result []string
+// expandPaths gives the files to read: those named, and those below the directories named that have a known extension
+func expandPaths(paths []string) (named []string, found []string, err error) {
 	for _, path := range paths {
-		ext := filepath.Ext(path)
-		if _, ok := ImportFileExtensions[ext]; ok {
-			result = append(result, path)
-		} else {
-			fi, err := os.Stat(path)
-			if err != nil {
-				return nil, err
+		fi, err := os.Stat(path)
+		if err != nil {
+			return nil, nil, err
+		}
+		if !fi.IsDir() {
+			ext := filepath.Ext(path)
+			if _, ok := ImportFileExtensions[ext]; !ok {
+				return nil, nil, fmt.Errorf("Cannot import file type %q: %s", ext, path)
+			}
+			named = append(named, path)
+			continue
+		}
+		err = filepath.Walk(path, func(wpath string, info os.FileInfo, errIncoming error) error {
+			if errIncoming != nil {
+				return errIncoming
 			}
-			if fi.IsDir() {
-				err = filepath.Walk(path, func(wpath string, info os.FileInfo, errIncoming error) error {
-					if errIncoming != nil {
-						return errIncoming
-					}
-					ext := filepath.Ext(wpath)
-					if _, ok := ImportFileExtensions[ext]; ok {
-						result = append(result, wpath)
-					}
-					return nil
-				})
+			if info.IsDir() {
+				return nil
 			}
+			ext := filepath.Ext(wpath)
+			if _, ok := ImportFileExtensions[ext]; ok {
+				found = append(found, wpath)
+			}
+			return nil
+		})
+		if err != nil {
+			return nil, nil, err
 		}
 	}
-	return result, nil
+	return named, found, nil
 }
 
 func ValidImportFileType(path string, onlyType string) string {
@@ -99,13 +106,16 @@ func ImportFiles(paths []string, conf *sadl.Data, extensions ...sadl.Extension)
 	base := conf.GetString("base")
 	onlyType := conf.GetString("type")
 	chosenType := ""
-	flatPathList, err := expandPaths(paths)
+	named, found, err := expandPaths(paths)
 	if err != nil {
 		return nil, err
 	}
 	var importPaths []string
-	for _, path := range flatPathList {
+	for i, path := range append(named, found...) {
 		ftype := ValidImportFileType(path, onlyType)
+		if ftype == "" && onlyType == "" && i < len(named) {
+			return nil, fmt.Errorf("Cannot determine file type of %s", path)
+		}
 		if ftype != "" {
 			if chosenType == "" {
 				chosenType = ftype
-- 
2.43.0


From 0dc04805fa865b350db81ad12adfd78b0e17e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:27 +0000
Subject: [PATCH 161/192] fix: a config file that cannot be read did not stop
 the command

---
 cmd/sadl/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/sadl/main.go b/cmd/sadl/main.go
index 3027ab6..1e781c5 100644
--- a/cmd/sadl/main.go
+++ b/cmd/sadl/main.go
@@ -144,6 +144,7 @@ Supported generators and options used from config if present
 		conf, err = sadl.DataFromFile(configPath)
 		if err != nil {
 			fmt.Printf("Cannot read config file %q: %v\n", configPath, err)
+			os.Exit(3)
 		}
 	} else {
 		conf = sadl.NewData()
-- 
2.43.0


From da5fb7594559502baf427767aa4dd7af357e0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:27 +0000
Subject: [PATCH 162/192] fix: the go, java-client and smithy-ast generators
 ignored the options of the config file

---
 cmd/sadl/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/sadl/main.go b/cmd/sadl/main.go
index 1e781c5..636174e 100644
--- a/cmd/sadl/main.go
+++ b/cmd/sadl/main.go
@@ -150,8 +150,13 @@ Supported generators and options used from config if present
 		conf = sadl.NewData()
 	}
 	gc := gen
-	if gen == "java-server" { //todo: get rid of this hack
+	switch gen { //the shorthands have the options of the generator they stand for
+	case "java-model", "java-server", "java-client":
 		gc = "java"
+	case "go-model", "go-server", "go-client":
+		gc = "go"
+	case "smithy-ast":
+		gc = "smithy"
 	}
 	genConf := conf.GetData(gc)
 	genConf.Put("force-overwrite", force)
-- 
2.43.0


From 8fa24aa6635aec83016f53edd03709fc399b21ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:28 +0000
Subject: [PATCH 163/192] fix: the value of an option was cut at a second =

---
 cmd/sadl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/sadl/main.go b/cmd/sadl/main.go
index 636174e..9fcb6da 100644
--- a/cmd/sadl/main.go
+++ b/cmd/sadl/main.go
@@ -164,7 +164,7 @@ Supported generators and options used from config if present
 		k := kv
 		var v interface{}
 		v = true
-		kvs := strings.Split(kv, "=")
+		kvs := strings.SplitN(kv, "=", 2)
 		if len(kvs) > 1 {
 			k = kvs[0]
 			v = kvs[1]
-- 
2.43.0


From 4139bd7fe1e39ab6b3735203469112334dd9671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:29 +0000
Subject: [PATCH 164/192] fix: models made from OpenAPI and GraphQL lacked the
 SADL version, their JSON could not be read

---
 graphql/import_graphql.go | 1 +
 openapi/import_openapi.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/graphql/import_graphql.go b/graphql/import_graphql.go
index 2b64677..870817e 100644
--- a/graphql/import_graphql.go
+++ b/graphql/import_graphql.go
@@ -54,6 +54,7 @@ func gqlSchema(doc *gql_ast.Document, conf *sadl.Data) (*sadl.Schema, error) {
 	}
 	namespace := conf.GetString("namespace")
 	schema := &sadl.Schema{
+		Sadl:      sadl.Version,
 		Name:      name,
 		Namespace: namespace,
 	}
diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 92815c3..f59bc8a 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -138,6 +138,7 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 		}
 	}
 	schema := &sadl.Schema{
+		Sadl:    sadl.Version,
 		Name:    name,
 		Comment: comment,
 		Version: model.Info.Version,
-- 
2.43.0


From ba7cbcbe293d860b142d6bcfaa6adc015f6c2dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:03 +0000
Subject: [PATCH 165/192] fix: the go generator ignored its option header

---
 golang/export_golang.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/export_golang.go b/golang/export_golang.go
index 41ac1df..6e4f53c 100644
--- a/golang/export_golang.go
+++ b/golang/export_golang.go
@@ -52,7 +52,7 @@ func NewGenerator(model *sadl.Model, outdir string, config *sadl.Data) *Generato
 	gen.Config = config
 	gen.OutDir = outdir
 	gen.Model = model
-	gen.Header = "//\n// Generated by sadl\n//\n"
+	gen.Header = gen.GetConfigString("header", "//\n// Generated by sadl\n//\n")
 	gen.createModel = gen.GetConfigBool("model", true)
 	gen.createServer = gen.GetConfigBool("server", false)
 	gen.createClient = gen.GetConfigBool("client", false)
-- 
2.43.0


From 525cd1a389ae2cbbc541f088030c1d547eae26e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:37 +0000
Subject: [PATCH 166/192] fix: a Swagger map without a type became an empty
 schema

---
 openapi/import_swagger.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index b083303..48f8b13 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -277,6 +277,12 @@ func toV3Schema(v2Any interface{}) *Schema {
 			for k, v := range v2.GetData("properties").AsMap() {
 				schema.Properties[k] = toV3Schema(v)
 			}
+		} else if v2.Has("additionalProperties") {
+			if b, ok := v2.Get("additionalProperties").(bool); ok {
+				schema.AdditionalProperties = b
+			} else {
+				schema.AdditionalProperties = toV3Schema(v2.Get("additionalProperties"))
+			}
 		}
 	}
 	return schema
-- 
2.43.0


From 12c77eb4161d958fa3b73e542b2edb1158d9408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:23 +0000
Subject: [PATCH 167/192] fix: anything but a symbol was ignored in an
 operation input's options

---
 parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.go b/parser.go
index 07cb642..df5ae8a 100644
--- a/parser.go
+++ b/parser.go
@@ -479,6 +479,8 @@ func (p *Parser) parseOperationInputs() ([]*OperationInput, error) {
 						default:
 							return nil, p.SyntaxError()
 						}
+					} else if tok.Type != scanner.COMMA && tok.Type != scanner.NEWLINE {
+						return nil, p.SyntaxError()
 					}
 				}
 			}
-- 
2.43.0


From 6ffa8cea539ececd7ece043fec289df253aae18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:22 +0000
Subject: [PATCH 168/192] fix: GraphQL unions of types other than structs were
 exported, which GraphQL does not have

---
 graphql/export_graphql.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index f0479e7..1e625b6 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -190,6 +190,10 @@ func (w *GraphqlWriter) EmitUnionDef(td *sadl.TypeDef) error {
 			w.Emit("    ")
 		}
 		vtype := uv.Type
+		vtd := w.model.FindType(vtype)
+		if vtd == nil || vtd.Type != "Struct" || vtype == "Struct" {
+			return fmt.Errorf("Type cannot be represented in GraphQL: %s (Union of %s)", td.Name, vtype)
+		}
 		w.Emit("%s\n", vtype)
 	}
 	w.Emit("\n")
-- 
2.43.0


From 55cf77222152fd5534fc70f9934745d9e2c380bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:22 +0000
Subject: [PATCH 169/192] fix: directives that do not exist were ignored

---
 parser.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index df5ae8a..e94cd9a 100644
--- a/parser.go
+++ b/parser.go
@@ -213,13 +213,11 @@ func (p *Parser) ParseNoValidate(extensions []Extension) error {
 					p.schema.Comment = p.MergeComment(p.schema.Comment, comment)
 					p.schema.Annotations, comment, err = p.parseExtendedOptionTopLevel(p.schema.Annotations, tok.Text)
 					p.schema.Comment = p.MergeComment(p.schema.Comment, comment)
+				} else if handler, ok := p.extensions[tok.Text]; ok {
+					p.currentComment = comment
+					err = handler.Parse(p)
 				} else {
-					if p.extensions != nil {
-						if handler, ok := p.extensions[tok.Text]; ok {
-							p.currentComment = comment
-							err = handler.Parse(p)
-						}
-					}
+					err = p.expectedDirectiveError()
 				}
 			}
 			comment = ""
-- 
2.43.0


From e4b9b0e091ddc2ebd70b2db60191105e7faf677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:23 +0000
Subject: [PATCH 170/192] fix: the examples of included files were lost

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index e94cd9a..71052fb 100644
--- a/parser.go
+++ b/parser.go
@@ -361,6 +361,7 @@ func (p *Parser) parseIncludeDirective(comment string) error {
 				op.Annotations = p.addAnnotation(op.Annotations, "x_include", fname)
 				p.schema.Operations = append(p.schema.Operations, op)
 			}
+			p.schema.Examples = append(p.schema.Examples, inc.Examples...)
 		}
 	}
 	return err
-- 
2.43.0


From 82b2da15ae14373d9645512d4e5b3e4ab14d4908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 171/192] fix: smithy export lost the deprecations that the
 import made, and those without a message

---
 smithy/export_smithy.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index e0a7905..5ba4d2c 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -606,7 +606,7 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 				ensureShapeTraits(&shape).Put("smithy.api#sensitive", true)
 			case "x_deprecated":
 				dep := make(map[string]interface{}, 0)
-				if v != "" {
+				if v != "" && v != "true" {
 					n := strings.Index(v, "|")
 					if n >= 0 {
 						dep["since"] = v[:n]
@@ -614,8 +614,15 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 					} else {
 						dep["message"] = v
 					}
-					ensureShapeTraits(&shape).Put("smithy.api#deprecated", dep)
 				}
+				//the import keeps these apart
+				if since := annos["x_deprecated_since"]; since != "" {
+					dep["since"] = since
+				}
+				if message := annos["x_deprecated_message"]; message != "" {
+					dep["message"] = message
+				}
+				ensureShapeTraits(&shape).Put("smithy.api#deprecated", dep)
 			}
 		}
 	}
-- 
2.43.0


From 31838f0c83a00d2131ea82ec97df0c2ff7a5aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:55 +0000
Subject: [PATCH 172/192] fix: smithy export crashed on x_paginated without an
 =, and kept the empty parts that the import writes

---
 smithy/export_smithy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 5ba4d2c..9835cb0 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -811,8 +811,10 @@ func paginatedTrait(sval string) map[string]interface{} {
 	lst := strings.Split(sval, ",")
 	m := make(map[string]interface{}, 0)
 	for _, item := range lst {
-		kv := strings.Split(item, "=")
-		m[kv[0]] = kv[1]
+		kv := strings.SplitN(item, "=", 2)
+		if len(kv) == 2 && kv[1] != "" {
+			m[strings.TrimSpace(kv[0])] = kv[1]
+		}
 	}
 	return m
 }
-- 
2.43.0


From 272d2e6df52ff74f1bec1561bbaa3cfd5c81a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:41 +0000
Subject: [PATCH 173/192] fix: smithy export lost the big integers and
 timestamp formats that the import keeps as annotations

---
 smithy/export_smithy.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index 9835cb0..f872dae 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -602,6 +602,14 @@ func defineShapeFromTypeSpec(model *sadl.Model, ns string, shapes *smithylib.Sha
 			switch k {
 			case "x_tags":
 				ensureShapeTraits(&shape).Put("smithy.api#tags", strings.Split(v, ","))
+			case "x_integer":
+				if ts.Type == "Decimal" && v == "true" {
+					shape.Type = "bigInteger"
+				}
+			case "x_timestampFormat":
+				if ts.Type == "Timestamp" && v != "" {
+					ensureShapeTraits(&shape).Put("smithy.api#timestampFormat", v)
+				}
 			case "x_sensitive":
 				ensureShapeTraits(&shape).Put("smithy.api#sensitive", true)
 			case "x_deprecated":
-- 
2.43.0


From 37ffb6b70de0b8f791e6e3032c9443a6dd9d1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:50 +0000
Subject: [PATCH 174/192] fix: equivalence of types with a repeated symbol,
 value or variant depended on the order of the two types

---
 model.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/model.go b/model.go
index 4f1ab62..386054f 100644
--- a/model.go
+++ b/model.go
@@ -106,6 +106,12 @@ func (model *Model) equivalentTypes(ts1, ts2 *TypeSpec, pairs map[string]bool) b
 				if _, ok := m[v]; !ok {
 					return false
 				}
+				m[v] = false
+			}
+			for _, missing := range m {
+				if missing {
+					return false
+				}
 			}
 		}
 	case "UUID":
@@ -161,6 +167,12 @@ func (model *Model) equivalentTypes(ts1, ts2 *TypeSpec, pairs map[string]bool) b
 			if _, ok := m[v.Symbol]; !ok {
 				return false
 			}
+			m[v.Symbol] = false
+		}
+		for _, missing := range m {
+			if missing {
+				return false
+			}
 		}
 	case "Union":
 		if len(ts1.Variants) != len(ts2.Variants) {
@@ -170,10 +182,15 @@ func (model *Model) equivalentTypes(ts1, ts2 *TypeSpec, pairs map[string]bool) b
 		for _, v := range ts1.Variants {
 			m[v.Name] = v
 		}
+		found := make(map[string]bool, 0)
 		for _, v := range ts2.Variants {
 			if v1, ok := m[v.Name]; !ok || !model.equivalentTypes(&v1.TypeSpec, &v.TypeSpec, pairs) {
 				return false
 			}
+			found[v.Name] = true
+		}
+		if len(found) != len(m) {
+			return false
 		}
 	}
 	return true
-- 
2.43.0


From d9e42b34ec2b809368f1b2ddc952464ea5cbaef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:06 +0000
Subject: [PATCH 175/192] fix: capitalizing a name damaged a first letter that
 is not ASCII, and an empty name crashed the generators

---
 generator.go | 5 ++---
 misc.go      | 5 +++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/generator.go b/generator.go
index f1d4a59..07ba842 100644
--- a/generator.go
+++ b/generator.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"os"
-	"strings"
 	"text/template"
 )
 
@@ -102,11 +101,11 @@ func (gen *Generator) EmitTemplate(name string, tmplSource string, data interfac
 }
 
 func (gen *Generator) Capitalize(s string) string {
-	return strings.ToUpper(s[0:1]) + s[1:]
+	return Capitalize(s)
 }
 
 func (gen *Generator) Uncapitalize(s string) string {
-	return strings.ToLower(s[0:1]) + s[1:]
+	return Uncapitalize(s)
 }
 
 func (gen *Generator) FileExists(path string) bool {
diff --git a/misc.go b/misc.go
index 6142c55..ed13a3b 100644
--- a/misc.go
+++ b/misc.go
@@ -8,17 +8,18 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+	"unicode/utf8"
 )
 
 func Capitalize(s string) string {
-	if s == "" {
+	if s == "" || s[0] >= utf8.RuneSelf {
 		return s
 	}
 	return strings.ToUpper(s[0:1]) + s[1:]
 }
 
 func Uncapitalize(s string) string {
-	if s == "" {
+	if s == "" || s[0] >= utf8.RuneSelf {
 		return s
 	}
 	return strings.ToLower(s[0:1]) + s[1:]
-- 
2.43.0


From fa55027cdca7e33dd5f80cb1bfff86d9b8f4f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:00 +0000
Subject: [PATCH 176/192] fix: Java comments and strings with a backslash u, a
 carriage return or a control character did not compile

---
 java/export_java.go |  4 ++--
 java/java_server.go |  4 ++--
 java/java_util.go   | 56 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 8a16973..68b1b84 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -451,7 +451,7 @@ func (gen *Generator) CreateEnumPojo(ts *sadl.TypeSpec, className string) {
 		if val == "" {
 			val = sym
 		}
-		gen.Emit("    " + sym + "(" + fmt.Sprintf("%q", val) + ")" + delim + comment)
+		gen.Emit("    " + sym + "(" + javaString(val) + ")" + delim + comment)
 	}
 	gen.Emit("\n")
 	gen.Emit("    private String repr;\n\n")
@@ -690,7 +690,7 @@ func (gen *Generator) TypeName(ts *sadl.TypeSpec, name string, required bool) (s
 		if ts != nil {
 			if ts.Pattern != "" {
 				gen.AddImport("javax.validation.constraints.Pattern")
-				annotations = append(annotations, fmt.Sprintf("@Pattern(regexp=%q)", ts.Pattern))
+				annotations = append(annotations, "@Pattern(regexp=" + javaString(ts.Pattern) + ")")
 			} else if ts.Values != nil {
 				//?
 			}
diff --git a/java/java_server.go b/java/java_server.go
index 73b08ba..4c680f4 100644
--- a/java/java_server.go
+++ b/java/java_server.go
@@ -203,9 +203,9 @@ func (gen *Generator) CreateServerDataAndFuncMap(src, rez string) {
 				if in.Default != nil {
 					switch b := in.Default.(type) {
 					case string:
-						param = fmt.Sprintf("@DefaultValue(%q)", b) + " " + param
+						param = "@DefaultValue(" + javaString(b) + ")" + " " + param
 					case *string:
-						param = fmt.Sprintf("@DefaultValue(%q)", *b) + " " + param
+						param = "@DefaultValue(" + javaString(*b) + ")" + " " + param
 					case *sadl.Decimal:
 						param = fmt.Sprintf("@DefaultValue(%q)", (*b).String()) + " " + param
 					case bool:
diff --git a/java/java_util.go b/java/java_util.go
index 09db33e..09c72db 100644
--- a/java/java_util.go
+++ b/java/java_util.go
@@ -1,5 +1,61 @@
 package java
 
+import (
+	"fmt"
+	"strings"
+)
+
+// javaString is the Java literal of a string. Most escapes of %q are those of Java, but not all.
+func javaString(s string) string {
+	var b strings.Builder
+	b.WriteByte('"')
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; c {
+		case '"', '\\':
+			b.WriteByte('\\')
+			b.WriteByte(c)
+		case '\n':
+			b.WriteString("\\n")
+		case '\r':
+			b.WriteString("\\r")
+		case '\t':
+			b.WriteString("\\t")
+		default:
+			if c < ' ' || c == 0x7f {
+				b.WriteString(fmt.Sprintf("\\u%04x", c))
+			} else {
+				b.WriteByte(c)
+			}
+		}
+	}
+	b.WriteByte('"')
+	return b.String()
+}
+
+// FormatComment - a carriage return ends a Java comment, and javac reads \u escapes in comments, too
+func (gen *Generator) FormatComment(indent, comment string, maxcol int, extraPad bool) string {
+	comment = strings.Replace(comment, "\r\n", "\n", -1)
+	comment = strings.Replace(comment, "\r", "\n", -1)
+	if strings.Contains(comment, "\\u") {
+		var b strings.Builder
+		slashes := 0
+		for i := 0; i < len(comment); i++ {
+			c := comment[i]
+			if c == '\\' {
+				slashes++
+			} else {
+				if c == 'u' && slashes%2 == 1 {
+					b.WriteByte('\\')
+				}
+				slashes = 0
+			}
+			b.WriteByte(c)
+		}
+		comment = b.String()
+	}
+	return gen.Generator.FormatComment(indent, comment, maxcol, extraPad)
+}
+
 func (gen *Generator) CreateUtil() {
 	if gen.Err != nil {
 		return
-- 
2.43.0


From 94963be98984a21be49df878c165b99d5954fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:41 +0000
Subject: [PATCH 177/192] fix: a carriage return in the comment of a field got
 the rest of it out of the comment in the GraphQL export

---
 graphql/export_graphql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphql/export_graphql.go b/graphql/export_graphql.go
index 1e625b6..88d35b1 100644
--- a/graphql/export_graphql.go
+++ b/graphql/export_graphql.go
@@ -105,7 +105,8 @@ func (w *GraphqlWriter) EmitStructDef(td *sadl.TypeDef) error {
 		}
 		if fd.Comment != "" {
 			//TO DO: format as block before the field
-			for _, line := range strings.Split(fd.Comment, "\n") {
+			//a carriage return ends a GraphQL comment, too
+			for _, line := range strings.FieldsFunc(fd.Comment, func(c rune) bool { return c == '\n' || c == '\r' }) {
 				w.Emit("  # %s\n", line)
 			}
 		}
-- 
2.43.0


From 4ce4ec94a408966ee31a474a9c72a8b0d84c99aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:09 +0000
Subject: [PATCH 178/192] fix: Java classes with Lombok lacked the classes of
 inline structs, unions did not compile and builders were not found by Jackson

---
 java/export_java.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/java/export_java.go b/java/export_java.go
index 68b1b84..c6d97ba 100644
--- a/java/export_java.go
+++ b/java/export_java.go
@@ -276,19 +276,19 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
 		gen.AddImport("com.fasterxml.jackson.annotation.JsonIgnoreProperties")
 		gen.Emit(indent + "@JsonIgnoreProperties({" + strings.Join(ignoreFields, ", ") + "})\n")
 	}
-	if indent == "" {
-		if lombok {
-			gen.Emit(indent + "@Data\n")
-			gen.AddImport("lombok.Data")
-			if len(ts.Fields) > 0 {
-				gen.Emit(indent + "@AllArgsConstructor\n")
-				gen.AddImport("lombok.AllArgsConstructor")
-			}
-			gen.Emit(indent + "@Builder\n")
-			gen.AddImport("lombok.Builder")
-			gen.Emit(indent + "@NoArgsConstructor(force=true)\n")
-			gen.AddImport("lombok.NoArgsConstructor")
+	if lombok {
+		gen.Emit(indent + "@Data\n")
+		gen.AddImport("lombok.Data")
+		if len(ts.Fields) > 0 {
+			gen.Emit(indent + "@AllArgsConstructor\n")
+			gen.AddImport("lombok.AllArgsConstructor")
 		}
+		gen.Emit(indent + "@Builder\n")
+		gen.AddImport("lombok.Builder")
+		gen.Emit(indent + "@NoArgsConstructor(force=true)\n")
+		gen.AddImport("lombok.NoArgsConstructor")
+	}
+	if indent == "" {
 		gen.Emit(indent + "public class " + className + extends + " {\n")
 	} else {
 		gen.Emit(indent + "public static class " + className + extends + " {\n")
@@ -345,11 +345,15 @@ func (gen *Generator) CreateStructPojo(ts *sadl.TypeSpec, className string, inde
     }
 `)
 		}
-		for _, fd := range ts.Fields {
-			iname := gen.Capitalize(fd.Name)
-			if ispec, ok := nested[iname]; ok {
-				gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
-			}
+	} else if gen.UseImmutable {
+		//Lombok fills in the builder. The names of its setters have no prefix
+		gen.Emit(indent + "    @JsonPOJOBuilder(withPrefix=\"\")\n")
+		gen.Emit(indent + "    public static class " + className + "Builder {\n" + indent + "    }\n")
+	}
+	for _, fd := range ts.Fields {
+		iname := gen.Capitalize(fd.Name)
+		if ispec, ok := nested[iname]; ok {
+			gen.CreateStructPojo(ispec, iname, indent+"    ", nil)
 		}
 	}
 	gen.Emit("}\n")
@@ -490,7 +494,7 @@ func (gen *Generator) CreateUnionPojo(td *sadl.TypeSpec, className string) {
 			gen.AddImport("lombok.AllArgsConstructor")
 			gen.Emit("@Builder\n")
 			gen.AddImport("lombok.Builder")
-			gen.Emit("@NoArgsConstructor\n")
+			gen.Emit("@NoArgsConstructor(force=true)\n")
 			gen.AddImport("lombok.NoArgsConstructor")
 		}
 		gen.Emit("public class " + className + extends + " {\n")
-- 
2.43.0


From 38d797a849312a643ba3005314db2ba59c23b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:14 +0000
Subject: [PATCH 179/192] fix: swagger-ui: requests for the document do not
 share one reader

---
 cmd/sadl/serve.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/sadl/serve.go b/cmd/sadl/serve.go
index 50a44a0..181da86 100644
--- a/cmd/sadl/serve.go
+++ b/cmd/sadl/serve.go
@@ -25,7 +25,6 @@ func serveSwaggerUi(model *sadl.Model, conf *sadl.Data) error {
 		return err
 	}
 	docPretty := sadl.Pretty(doc)
-	docContent := bytes.NewReader([]byte(docPretty))
 	modTime := time.Now()
 	apiName := model.Name + ".json"
 	fmt.Println("show swagger-ui for:", apiName, "at http://localhost:8080/")
@@ -62,7 +61,7 @@ func serveSwaggerUi(model *sadl.Model, conf *sadl.Data) error {
 		if path == "/" {
 			path = "/index.html"
 		} else if strings.HasSuffix(path, ".json") {
-			http.ServeContent(w, r, path, modTime, docContent)
+			http.ServeContent(w, r, path, modTime, strings.NewReader(docPretty))
 			return
 		}
 		if f, ok := files[path]; ok {
-- 
2.43.0


From 9f5ebfac13f102308b375eadfde48904740761e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:15 +0000
Subject: [PATCH 180/192] fix: swagger-ui: a file that cannot be read is a
 server error, not a crash

---
 cmd/sadl/serve.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/sadl/serve.go b/cmd/sadl/serve.go
index 181da86..20cca19 100644
--- a/cmd/sadl/serve.go
+++ b/cmd/sadl/serve.go
@@ -68,13 +68,18 @@ func serveSwaggerUi(model *sadl.Model, conf *sadl.Data) error {
 			rc, err := f.Open()
 			if err != nil {
 				w.WriteHeader(http.StatusInternalServerError)
+				return
 			}
 			data, err := ioutil.ReadAll(rc)
+			rc.Close()
+			if err != nil {
+				w.WriteHeader(http.StatusInternalServerError)
+				return
+			}
 			if path == "/index.html" {
 				fmt.Println("index file detected, rewrite the default URL to", apiName)
 				data = []byte(strings.Replace(string(data), "https://petstore.swagger.io/v2/swagger.json", apiName, -1))
 			}
-			rc.Close()
 			http.ServeContent(w, r, path, f.Modified, bytes.NewReader(data))
 		} else {
 			w.WriteHeader(http.StatusNotFound)
-- 
2.43.0


From 3e891459b456aafee74d1a6e08a2a37012156215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:16 +0000
Subject: [PATCH 181/192] fix: swagger-ui: an error page is not kept as the
 distribution

---
 cmd/sadl/serve.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/sadl/serve.go b/cmd/sadl/serve.go
index 20cca19..b8c2d8b 100644
--- a/cmd/sadl/serve.go
+++ b/cmd/sadl/serve.go
@@ -107,6 +107,9 @@ func cacheSwaggerDist() (string, error) {
 		return "", err
 	}
 	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return "", fmt.Errorf("%s: %s", swaggerUrl(version), resp.Status)
+	}
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 4ccca0e48954d9f99467aa2fb7d508e2051fa387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 182/192] fix: Swagger import: the servers have the schemes of
 the document, and its base path without a host

---
 openapi/import_swagger.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index 48f8b13..e1fb27c 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -290,12 +290,20 @@ func toV3Schema(v2Any interface{}) *Schema {
 
 func toV3Servers(v2 *sadl.Data) []*Server {
 	var servers []*Server
+	bp := v2.GetString("basePath")
 	if v2.Has("host") {
-		bp := v2.GetString("basePath")
-		server := &Server{
-			URL: "https://" + v2.GetString("host") + bp,
+		schemes := v2.GetStringArray("schemes")
+		if len(schemes) == 0 {
+			schemes = []string{"https"}
 		}
-		servers = append(servers, server)
+		for _, scheme := range schemes {
+			server := &Server{
+				URL: scheme + "://" + v2.GetString("host") + bp,
+			}
+			servers = append(servers, server)
+		}
+	} else if bp != "" {
+		servers = append(servers, &Server{URL: bp})
 	}
 	return servers
 }
-- 
2.43.0


From 8fce7cc72591429680e855e1d252cc29d3aadec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 183/192] fix: an infinity is not a decimal number

---
 decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decimal.go b/decimal.go
index 91943aa..39db9b2 100644
--- a/decimal.go
+++ b/decimal.go
@@ -31,7 +31,7 @@ func (d *Decimal) UnmarshalJSON(b []byte) error {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
 	return &Decimal{Float: *num}, nil
-- 
2.43.0


From 77be4a4c985e0f4f3f1d57dcd42742e636b65668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 184/192] fix: HTTP trace: encode the values of path and query
 parameters

---
 httptrace/export_http_examples.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index d438cc9..7b07cc6 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -3,6 +3,7 @@ package httptrace
 import (
 	"fmt"
 	"net/http"
+	"net/url"
 	"strings"
 	"time"
 
@@ -102,7 +103,9 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 				if in.Path || in.Query != "" {
 					sex := stringExample(ex)
 					if in.Path {
-						//inExample = urlEncode(inExample)
+						sex = url.PathEscape(sex)
+					} else {
+						sex = url.QueryEscape(sex)
 					}
 					params = append(params, "{"+in.Name+"}", sex)
 				} else if ex == nil {
-- 
2.43.0


From a10654eaa7309bda3c77351f7ee279673568e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 185/192] fix: HTTP trace: the date is in GMT

---
 httptrace/export_http_examples.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/httptrace/export_http_examples.go b/httptrace/export_http_examples.go
index 7b07cc6..c9341e9 100644
--- a/httptrace/export_http_examples.go
+++ b/httptrace/export_http_examples.go
@@ -161,8 +161,8 @@ func generateHttpTrace(model *sadl.Model, hdef *sadl.HttpDef) (string, error) {
 }
 
 func dateHeader() string {
-	t := time.Now()
-	return t.Format("Mon, 2 Jan 2006 15:04:05 GMT")
+	t := time.Now().UTC()
+	return t.Format(http.TimeFormat)
 }
 
 func stripMissingOptionalQueryParams(uri string) string {
-- 
2.43.0


From e242571c40c5f21af516c984da7e8a3a2d513b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 186/192] fix: declared limits do not extend the range of an
 integer type

---
 model.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/model.go b/model.go
index 386054f..de7e4f3 100644
--- a/model.go
+++ b/model.go
@@ -363,6 +363,13 @@ func (model *Model) ValidateNumber(context string, td *TypeSpec, value interface
 				if !nval.IsInt() {
 					return fmt.Errorf("%s: Not a valid %s: %v", context, td.Type, n)
 				}
+				if td.Min != nil || td.Max != nil {
+					//declared limits do not extend the range of the type
+					err := model.ValidateNumber(context, &TypeSpec{Type: td.Type}, value)
+					if err != nil {
+						return err
+					}
+				}
 			}
 			if minval != nil {
 				nmin := minval.AsBigFloat()
-- 
2.43.0


From e090d04212d0b9d5372b3833c65eb5344ecf584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 187/192] fix: smithy export: the options name and namespace
 are for a model that has none

---
 smithy/export_smithy.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/smithy/export_smithy.go b/smithy/export_smithy.go
index f872dae..63e897a 100644
--- a/smithy/export_smithy.go
+++ b/smithy/export_smithy.go
@@ -14,14 +14,19 @@ var inputSuffix = "Request"
 var outputSuffix = "Response"
 
 func Export(model *sadl.Model, out string, conf *sadl.Data, exportAst bool) error {
+	inputSuffix, outputSuffix = "Request", "Response"
 	if conf.GetBool("useInputOutput") {
 		inputSuffix = "Input"
 		outputSuffix = "Output"
 	}
+	if name := conf.GetString("name"); model.Name == "" && name != "" {
+		named := *model
+		named.Name = name
+		model = &named
+	}
 	ns := model.Namespace
-	ns2 := conf.GetString("namespace")
-	if ns2 != "" {
-		ns = ns2
+	if ns == "" {
+		ns = conf.GetString("namespace")
 	}
 	if ns == "" {
 		ns = "example"
-- 
2.43.0


From c9cd136fda42994e0ffa9a6e0734972880cf3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:23 +0000
Subject: [PATCH 188/192] fix: generated Go: an infinity is not a decimal
 number

---
 golang/golang_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golang/golang_model.go b/golang/golang_model.go
index e19972c..aafab69 100644
--- a/golang/golang_model.go
+++ b/golang/golang_model.go
@@ -314,7 +314,7 @@ func DecimalFromString(text string) *Decimal {
 
 func ParseDecimal(text string) (*Decimal, error) {
 	num, _, err := big.ParseFloat(text, 10, DecimalPrecision, big.ToNearestEven)
-	if err != nil {
+	if err != nil || num.IsInf() {
 		return nil, fmt.Errorf("Bad Decimal number: %s", text)
 	}
    return &Decimal{Float:*num}, nil
-- 
2.43.0


From d8213da71dd63e5b3b794f94cf9b2adb4899b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:24 +0000
Subject: [PATCH 189/192] fix: Swagger import: the sizes of maps

---
 openapi/import_swagger.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index e1fb27c..a2261b7 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -227,6 +227,13 @@ func toV3Schema(v2Any interface{}) *Schema {
 				schema.AdditionalProperties = toV3Schema(v2.Get("additionalProperties"))
 			}
 		}
+		if v2.Has("minProperties") {
+			schema.MinProps = uint64(v2.GetInt64("minProperties"))
+		}
+		if v2.Has("maxProperties") {
+			n := uint64(v2.GetInt64("maxProperties"))
+			schema.MaxProps = &n
+		}
 	case "array":
 		if v2.Has("items") {
 			schema.Items = toV3Schema(v2.Get("items"))
-- 
2.43.0


From e51cf8b2543f03db8ef98fa7eb8da15f23eea094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:25 +0000
Subject: [PATCH 190/192] fix: OpenAPI and Swagger import: references to
 parameters, bodies, responses and headers

---
 openapi/import_openapi.go | 82 +++++++++++++++++++++++++++++++++++++++
 openapi/import_swagger.go | 39 +++++++++++++------
 openapi/model.go          |  4 ++
 3 files changed, 113 insertions(+), 12 deletions(-)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index f59bc8a..6163569 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -200,6 +200,11 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	sort.Strings(tmpls)
 	for _, tmpl := range tmpls {
 		path2 := *model.Paths[tmpl]
+		var err error
+		path2.Parameters, err = model.resolveParameters(path2.Parameters)
+		if err != nil {
+			return nil, err
+		}
 		for _, method := range methods {
 			op := getPathOperation(&path2, method)
 			if op != nil {
@@ -207,6 +212,10 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 					continue
 				}
 				if httpBindings {
+					op, err = model.resolveOperation(op)
+					if err != nil {
+						return nil, err
+					}
 					hact, err := convertOasPath(tmpl, withPathParameters(&path2, op), method)
 					if err != nil {
 						return nil, err
@@ -747,6 +756,79 @@ func convertOasPath(path string, op *Operation, method string) (*sadl.HttpDef, e
 	return hact, nil
 }
 
+// the name of the component of that kind that is referred to
+func componentName(ref string, kind string) string {
+	prefix := "#/components/" + kind + "/"
+	if strings.HasPrefix(ref, prefix) {
+		return ref[len(prefix):]
+	}
+	return ""
+}
+
+// the parameters, with what is referred to in the place of each reference
+func (model *Model) resolveParameters(params []*Parameter) ([]*Parameter, error) {
+	var resolved []*Parameter
+	for _, param := range params {
+		if param.Ref != "" {
+			var def *Parameter
+			if model.Components != nil {
+				def = model.Components.Parameters[componentName(param.Ref, "parameters")]
+			}
+			if def == nil || def.Ref != "" {
+				return nil, fmt.Errorf("Cannot resolve parameter reference: %q", param.Ref)
+			}
+			param = def
+		}
+		resolved = append(resolved, param)
+	}
+	return resolved, nil
+}
+
+// the operation, with what is referred to in the place of each reference
+func (model *Model) resolveOperation(op *Operation) (*Operation, error) {
+	components := model.Components
+	if components == nil {
+		components = &Components{}
+	}
+	var err error
+	op2 := *op
+	op2.Parameters, err = model.resolveParameters(op.Parameters)
+	if err != nil {
+		return nil, err
+	}
+	if op.RequestBody != nil && op.RequestBody.Ref != "" {
+		def := components.RequestBodies[componentName(op.RequestBody.Ref, "requestBodies")]
+		if def == nil || def.Ref != "" {
+			return nil, fmt.Errorf("Cannot resolve request body reference: %q", op.RequestBody.Ref)
+		}
+		op2.RequestBody = def
+	}
+	op2.Responses = make(map[string]*Response, 0)
+	for status, resp := range op.Responses {
+		if resp.Ref != "" {
+			def := components.Responses[componentName(resp.Ref, "responses")]
+			if def == nil || def.Ref != "" {
+				return nil, fmt.Errorf("Cannot resolve response reference: %q", resp.Ref)
+			}
+			resp = def
+		}
+		resp2 := *resp
+		resp2.Headers = make(map[string]*Header, 0)
+		for name, header := range resp.Headers {
+			if header.Ref != "" {
+				def := components.Headers[componentName(header.Ref, "headers")]
+				if def == nil || def.Ref != "" {
+					return nil, fmt.Errorf("Cannot resolve header reference: %q", header.Ref)
+				}
+				header = def
+			}
+			resp2.Headers[name] = header
+		}
+		op2.Responses[status] = &resp2
+	}
+	return &op2, nil
+}
+
 // the operation with the parameters of its path, except the ones it overrides
 func withPathParameters(path *PathItem, op *Operation) *Operation {
 	if len(path.Parameters) == 0 {
diff --git a/openapi/import_swagger.go b/openapi/import_swagger.go
index a2261b7..42b5eff 100644
--- a/openapi/import_swagger.go
+++ b/openapi/import_swagger.go
@@ -50,7 +50,7 @@ func toV3(v2 *sadl.Data) (*Model, error) {
 		}
 		model.Info = toV3Info(v2.GetData("info"))
 		model.Components = toV3Components(v2)
-		model.Paths = toV3Paths(model, v2.GetData("paths"), defConsumes, defProduces)
+		model.Paths = toV3Paths(v2, v2.GetData("paths"), defConsumes, defProduces)
 		model.Servers = toV3Servers(v2)
 		return model, nil
 	}
@@ -64,29 +64,29 @@ func toV3ExternalDocs(v2 *sadl.Data) *ExternalDocumentation {
 	}
 }
 
-func toV3Paths(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []string) map[string]*PathItem {
+func toV3Paths(root *sadl.Data, v2 *sadl.Data, defConsumes []string, defProduces []string) map[string]*PathItem {
 	paths := make(map[string]*PathItem, 0)
 	for k, v := range v2.AsMap() {
 		vd := sadl.AsData(v)
 		pi := &PathItem{
-			Get:     toV3Operation(model, vd.GetData("get"), defConsumes, defProduces),
-			Delete:  toV3Operation(model, vd.GetData("delete"), defConsumes, defProduces),
-			Put:     toV3Operation(model, vd.GetData("put"), defConsumes, defProduces),
-			Post:    toV3Operation(model, vd.GetData("post"), defConsumes, defProduces),
-			Patch:   toV3Operation(model, vd.GetData("patch"), defConsumes, defProduces),
-			Head:    toV3Operation(model, vd.GetData("head"), defConsumes, defProduces),
-			Options: toV3Operation(model, vd.GetData("options"), defConsumes, defProduces),
+			Get:     toV3Operation(root, vd.GetData("get"), defConsumes, defProduces),
+			Delete:  toV3Operation(root, vd.GetData("delete"), defConsumes, defProduces),
+			Put:     toV3Operation(root, vd.GetData("put"), defConsumes, defProduces),
+			Post:    toV3Operation(root, vd.GetData("post"), defConsumes, defProduces),
+			Patch:   toV3Operation(root, vd.GetData("patch"), defConsumes, defProduces),
+			Head:    toV3Operation(root, vd.GetData("head"), defConsumes, defProduces),
+			Options: toV3Operation(root, vd.GetData("options"), defConsumes, defProduces),
 			//etc
 		}
 		for _, param := range vd.GetArray("parameters") {
-			pi.Parameters = append(pi.Parameters, toV3Parameter(param))
+			pi.Parameters = append(pi.Parameters, toV3Parameter(resolveV2(root, "parameters", param)))
 		}
 		paths[k] = pi
 	}
 	return paths
 }
 
-func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduces []string) *Operation {
+func toV3Operation(root *sadl.Data, v2 *sadl.Data, defConsumes []string, defProduces []string) *Operation {
 	if v2.IsNil() {
 		return nil
 	}
@@ -103,6 +103,7 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 	}
 	var params []*Parameter
 	for _, param := range v2.GetArray("parameters") {
+		param = resolveV2(root, "parameters", param)
 		paramd := sadl.AsData(param)
 		if paramd.GetString("in") == "body" {
 			op.RequestBody = &RequestBody{
@@ -124,13 +125,25 @@ func toV3Operation(model *Model, v2 *sadl.Data, defConsumes []string, defProduce
 	if len(v2Responses) > 0 {
 		responses := make(map[string]*Response, 0)
 		for k, v := range v2Responses {
-			responses[k] = toV3Response(produces, sadl.AsData(v))
+			responses[k] = toV3Response(produces, sadl.AsData(resolveV2(root, "responses", v)))
 		}
 		op.Responses = responses
 	}
 	return op
 }
 
+// what a reference to a parameter or a response refers to. Anything else is returned as is.
+func resolveV2(root *sadl.Data, kind string, v2 interface{}) interface{} {
+	ref := sadl.AsData(v2).GetString("$ref")
+	prefix := "#/" + kind + "/"
+	if strings.HasPrefix(ref, prefix) {
+		if def := root.Get(kind, ref[len(prefix):]); def != nil {
+			return def
+		}
+	}
+	return v2
+}
+
 func toV3Parameter(v2 interface{}) *Parameter {
 	paramd := sadl.AsData(v2)
 	var tp interface{}
@@ -139,6 +152,7 @@ func toV3Parameter(v2 interface{}) *Parameter {
 		tp = paramd.Get("schema")
 	}
 	return &Parameter{
+		Ref:         paramd.GetString("$ref"),
 		In:          paramd.GetString("in"),
 		Name:        paramd.GetString("name"),
 		Description: paramd.GetString("description"),
@@ -149,6 +163,7 @@ func toV3Parameter(v2 interface{}) *Parameter {
 
 func toV3Response(mediaTypes []string, v2 *sadl.Data) *Response {
 	return &Response{
+		Ref:         v2.GetString("$ref"),
 		Description: v2.GetString("description"),
 		Headers:     toV3Headers(v2.GetMap("headers")),
 		Content:     toV3Content(mediaTypes, v2.Get("schema")),
diff --git a/openapi/model.go b/openapi/model.go
index dcafb69..100fa27 100644
--- a/openapi/model.go
+++ b/openapi/model.go
@@ -164,6 +164,7 @@ type Operation struct {
 
 type Parameter struct {
 	Extensions      map[string]interface{} `json:"-"`
+	Ref             string                 `json:"$ref,omitempty"`
 	Name            string                 `json:"name,omitempty"`
 	In              string                 `json:"in,omitempty"`
 	Description     string                 `json:"description,omitempty"`
@@ -181,6 +182,7 @@ type Parameter struct {
 
 type Response struct {
 	Extensions  map[string]interface{} `json:"-"`
+	Ref         string                 `json:"$ref,omitempty"`
 	Description string                 `json:"description,omitempty"`
 	Headers     map[string]*Header     `json:"headers,omitempty"`
 	Content     Content                `json:"content,omitempty"`
@@ -225,6 +227,7 @@ type Encoding struct {
 
 type Header struct {
 	Extensions  map[string]interface{} `json:"-"`
+	Ref         string                 `json:"$ref,omitempty"`
 	Description string                 `json:"description,omitempty"`
 	Schema      *Schema                `json:"schema,omitempty"`
 }
@@ -331,6 +334,7 @@ type Callback map[string]*PathItem
 
 type RequestBody struct {
 	Extensions  map[string]interface{} `json:"-"`
+	Ref         string                 `json:"$ref,omitempty"`
 	Description string                 `json:"description,omitempty"`
 	Required    bool                   `json:"required,omitempty"`
 	Content     Content                `json:"content,omitempty"`
-- 
2.43.0


From b32e08ad3cea2e2e1b293d0b155acd4f3b984631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 191/192] fix: an example target goes through fields of named
 types

---
 model.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/model.go b/model.go
index de7e4f3..0002b94 100644
--- a/model.go
+++ b/model.go
@@ -682,6 +682,13 @@ func (model *Model) FindExampleType(ex *ExampleDef) (*TypeSpec, error) {
 		return nil, fmt.Errorf("Undefined type '%s' in example: %s", theType, Pretty(ex))
 	}
 	for len(lst) > 0 {
+		for n := 0; ts.Type != "Struct" && n < len(model.Types); n++ { //the type named, perhaps by other names
+			td := model.FindType(ts.Type)
+			if td == nil {
+				break
+			}
+			ts = &td.TypeSpec
+		}
 		if ts.Type != "Struct" {
 			return nil, fmt.Errorf("Cannot dereference a non-struct in example target: %v", ex)
 		}
-- 
2.43.0


From 1cecb80883de37b23ba2e2403245a1f43fab1abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 192/192] fix: OpenAPI import: a title without a description is
 the comment as it is

---
 openapi/import_openapi.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openapi/import_openapi.go b/openapi/import_openapi.go
index 6163569..189567c 100644
--- a/openapi/import_openapi.go
+++ b/openapi/import_openapi.go
@@ -133,6 +133,8 @@ func (model *Model) ToSadl(name string) (*sadl.Model, error) {
 	if model.Info.Title != "" {
 		if sadl.IsSymbol(model.Info.Title) {
 			name = model.Info.Title
+		} else if comment == "" {
+			comment = model.Info.Title
 		} else {
 			comment = model.Info.Title + " - " + comment
 		}
-- 
2.43.0

