From c564a6aa6f73eba2e6191225e327a21261edc39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 01/59] fix: reject fractional and overflowing numbers for
 integer types

---
 scalars.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 2d39039..0783f51 100644
--- a/scalars.go
+++ b/scalars.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"regexp"
 	"time"
@@ -113,11 +114,18 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 	switch v := v.(type) {
 	case int:
 		val.SetInt64(int64(v))
+	case int64:
+		val.SetInt64(v)
 	case uint:
 		val.SetUint64(uint64(v))
+	case uint64:
+		val.SetUint64(v)
 	// json unmarshals numbers as float64
 	case float64:
-		val.SetInt64(int64(v))
+		if math.IsInf(v, 0) || v != math.Trunc(v) {
+			return fmt.Errorf("invalid value %v, expected integer", v)
+		}
+		big.NewFloat(v).Int(&val)
 	default:
 		return fmt.Errorf("invalid type, got %T, expected int, uint or float64", v)
 	}
-- 
2.43.0


From 6485da366abb93d495fea2c2589e3af9af757546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 02/59] fix: compare numeric enum members by value

---
 scalars.go | 52 +++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/scalars.go b/scalars.go
index 0783f51..f67c2b7 100644
--- a/scalars.go
+++ b/scalars.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"reflect"
 	"regexp"
 	"time"
 
@@ -37,12 +38,43 @@ func (r *RAML) MakeEnum(v *yaml.Node, location string) (Nodes, error) {
 	return enums, nil
 }
 
+// ratFromNumber returns the exact value of a decoded number.
+func ratFromNumber(v any) (*big.Rat, bool) {
+	r := new(big.Rat)
+	switch v := v.(type) {
+	case int:
+		return r.SetInt64(int64(v)), true
+	case int64:
+		return r.SetInt64(v), true
+	case uint:
+		return r.SetUint64(uint64(v)), true
+	case uint64:
+		return r.SetUint64(v), true
+	case float64:
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return nil, false
+		}
+		return r.SetFloat64(v), true
+	}
+	return nil, false
+}
+
+// isSameEnumValue compares numbers by their value regardless of the type they were decoded to.
+func isSameEnumValue(a, b any) bool {
+	ra, okA := ratFromNumber(a)
+	rb, okB := ratFromNumber(b)
+	if okA && okB {
+		return ra.Cmp(rb) == 0
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 func isCompatibleEnum(source Nodes, target Nodes) bool {
 	// Target enum must be a subset of source enum
 	for _, v := range target {
 		found := false
 		for _, e := range source {
-			if v.Value == e.Value {
+			if isSameEnumValue(v.Value, e.Value) {
 				found = true
 				break
 			}
@@ -140,15 +172,9 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 	// TODO: Implement format validation
 	if s.Enum != nil {
 		// TODO: Probably enum values should be stored as big.Int to simplify validation
-		var num any
-		if val.IsInt64() {
-			num = int(val.Int64())
-		} else if val.IsUint64() {
-			num = uint(val.Uint64())
-		}
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == num {
+			if isSameEnumValue(e.Value, v) {
 				found = true
 				break
 			}
@@ -217,7 +243,7 @@ func (s *IntegerShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint:
+			case int, int64, uint, uint64:
 			default:
 				return StacktraceNew("enum value must be int or uint", s.Location,
 					stacktrace.WithPosition(&e.Position))
@@ -347,8 +373,12 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 	// go-yaml unmarshals integers as int
 	case int:
 		val = float64(v)
+	case int64:
+		val = float64(v)
 	case uint:
 		val = float64(v)
+	case uint64:
+		val = float64(v)
 	case float64:
 		val = v
 	default:
@@ -366,7 +396,7 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 	if s.Enum != nil {
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == val {
+			if isSameEnumValue(e.Value, v) {
 				found = true
 				break
 			}
@@ -435,7 +465,7 @@ func (s *NumberShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint, float64:
+			case int, int64, uint, uint64, float64:
 			default:
 				return StacktraceNew("enum value must be int, uint, float64", s.Location,
 					stacktrace.WithPosition(&e.Position))
-- 
2.43.0


From fa2906431cd17f33b1366bd1e8c0fabdd63afa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 03/59] fix: count string length in characters instead of bytes

---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index f67c2b7..9516eaa 100644
--- a/scalars.go
+++ b/scalars.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"regexp"
 	"time"
+	"unicode/utf8"
 
 	"gopkg.in/yaml.v3"
 
@@ -573,7 +574,7 @@ func (s *StringShape) validate(v interface{}, _ string) error {
 		return fmt.Errorf("invalid type, got %T, expected string", v)
 	}
 
-	strLen := uint64(len(i))
+	strLen := uint64(utf8.RuneCountInString(i))
 	if s.MinLength != nil && strLen < *s.MinLength {
 		return fmt.Errorf("length must be greater than %d", *s.MinLength)
 	}
-- 
2.43.0


From 6643dfca48e9f6cbefb881cf71d988003de621fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 04/59] fix: keep enum of an aliased boolean type

---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 9516eaa..3ad6ee5 100644
--- a/scalars.go
+++ b/scalars.go
@@ -875,13 +875,14 @@ func (s *BooleanShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
 }
 
 func (s *BooleanShape) alias(source Shape) (Shape, error) {
-	_, ok := source.(*BooleanShape)
+	ss, ok := source.(*BooleanShape)
 	if !ok {
 		return nil, StacktraceNew("cannot make alias from different type", s.Location,
 			stacktrace.WithPosition(&s.Position),
 			stacktrace.WithInfo("source", source.Base().Type),
 			stacktrace.WithInfo("target", s.Base().Type))
 	}
+	s.Enum = ss.Enum
 	return s, nil
 }
 
-- 
2.43.0


From 8666bd349dcadaf0bef8f6102cf22f529559ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 05/59] fix: let a derived number type override multipleOf

---
 scalars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 3ad6ee5..c028f54 100644
--- a/scalars.go
+++ b/scalars.go
@@ -435,7 +435,7 @@ func (s *NumberShape) inherit(source Shape) (Shape, error) {
 			stacktrace.WithInfo("target", *s.Maximum))
 	}
 	// TODO: multipleOf validation
-	if ss.MultipleOf != nil {
+	if s.MultipleOf == nil {
 		// TODO: Disallow multipleOf 0 to avoid division by zero during validation
 		s.MultipleOf = ss.MultipleOf
 	}
-- 
2.43.0


From 6949fbc2869398cffb49c08d68d7dcd53bd8134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 06/59] fix: reject a datetime format that conflicts with the
 default format of the parent

---
 scalars.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scalars.go b/scalars.go
index c028f54..9b72957 100644
--- a/scalars.go
+++ b/scalars.go
@@ -1029,9 +1029,15 @@ func (s *DateTimeShape) inherit(source Shape) (Shape, error) {
 	}
 	if s.Format == nil {
 		s.Format = ss.Format
-	} else if ss.Format != nil && *s.Format != *ss.Format {
-		return nil, StacktraceNew("format constraint violation", s.Location, stacktrace.WithPosition(&s.Position),
-			stacktrace.WithInfo("source", *ss.Format), stacktrace.WithInfo("target", *s.Format))
+	} else {
+		sourceFormat := DateTimeFormatRFC3339 // Format of datetime is RFC3339 unless specified otherwise
+		if ss.Format != nil {
+			sourceFormat = *ss.Format
+		}
+		if *s.Format != sourceFormat {
+			return nil, StacktraceNew("format constraint violation", s.Location, stacktrace.WithPosition(&s.Position),
+				stacktrace.WithInfo("source", sourceFormat), stacktrace.WithInfo("target", *s.Format))
+		}
 	}
 	return s, nil
 }
-- 
2.43.0


From 0c4487dd107090c2d104dfcac4e1d5cc86f3687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 07/59] fix: reset the visited mark of the inherited shape on
 every return path

---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 09e7252..cb483aa 100644
--- a/shape.go
+++ b/shape.go
@@ -134,6 +134,7 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return sourceBase, nil
 	}
 	sourceBase.ShapeVisited = true
+	defer func() { sourceBase.ShapeVisited = false }()
 
 	source := sourceBase.Shape
 	target := s.Shape
@@ -175,7 +176,6 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return nil, StacktraceNewWrapped("merge shapes", err, target.Base().Location,
 			stacktrace.WithPosition(&target.Base().Position))
 	}
-	sourceBase.ShapeVisited = false
 	return s, nil
 }
 
-- 
2.43.0


From f53552c5326a5769c251426d9e9d3b9e927f54b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:48 +0000
Subject: [PATCH 08/59] fix: merge overridden properties, items and union
 members into copies

Aliases and inherited properties share their children with the types that
declare them, so overriding a child in one type changed the others. Multiple
inheritance modified the first parent, and the result of merging a child with
a union was lost. A union was also merged with itself instead of its source.
---
 complex.go | 36 ++++++++++++++++++++++-------
 shape.go   | 66 ++++++++++++++++++++++++++++++++++++++++++++++--------
 unwrap.go  |  8 +++++--
 3 files changed, 91 insertions(+), 19 deletions(-)

diff --git a/complex.go b/complex.go
index d1537b8..d679429 100644
--- a/complex.go
+++ b/complex.go
@@ -130,11 +130,12 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 	if s.Items == nil {
 		s.Items = ss.Items
 	} else if ss.Items != nil {
-		_, err := s.Items.Inherit(ss.Items)
+		items, err := s.Items.inheritCopy(ss.Items)
 		if err != nil {
 			return nil, StacktraceNewWrapped("merge array items", err, s.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
+		s.Items = items
 	}
 	if s.MinItems == nil {
 		s.MinItems = ss.MinItems
@@ -507,6 +508,24 @@ func (s *ObjectShape) validate(v interface{}, ctxPath string) error {
 	return nil
 }
 
+// ownProperties replaces property maps, which may be shared with other shapes, with their copies.
+func (s *ObjectShape) ownProperties() {
+	if s.Properties != nil {
+		props := orderedmap.New[string, Property](s.Properties.Len())
+		for pair := s.Properties.Oldest(); pair != nil; pair = pair.Next() {
+			props.Set(pair.Key, pair.Value)
+		}
+		s.Properties = props
+	}
+	if s.PatternProperties != nil {
+		props := orderedmap.New[string, PatternProperty](s.PatternProperties.Len())
+		for pair := s.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
+			props.Set(pair.Key, pair.Value)
+		}
+		s.PatternProperties = props
+	}
+}
+
 func (s *ObjectShape) inheritMinProperties(source *ObjectShape) error {
 	if s.MinProperties == nil {
 		s.MinProperties = source.MinProperties
@@ -552,13 +571,15 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 					stacktrace.WithInfo("target", targetProp.Required),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			_, err := targetProp.Base.Inherit(sourceProp.Base)
+			base, err := targetProp.Base.inheritCopy(sourceProp.Base)
 			if err != nil {
 				return StacktraceNewWrapped("inherit property", err, s.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
+			targetProp.Base = base
+			s.Properties.Set(k, targetProp)
 		} else {
 			s.Properties.Set(k, sourceProp)
 		}
@@ -575,13 +596,15 @@ func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 		for pair := source.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 			k, sourceProp := pair.Key, pair.Value
 			if targetProp, present := s.PatternProperties.Get(k); present {
-				_, err := targetProp.Base.Inherit(sourceProp.Base)
+				base, err := targetProp.Base.inheritCopy(sourceProp.Base)
 				if err != nil {
 					return StacktraceNewWrapped("inherit pattern property", err, s.Location,
 						stacktrace.WithPosition(&targetProp.Base.Position),
 						stacktrace.WithInfo("property", k),
 						stacktrace.WithType(StacktraceTypeUnwrapping))
 				}
+				targetProp.Base = base
+				s.PatternProperties.Set(k, targetProp)
 			} else {
 				s.PatternProperties.Set(k, sourceProp)
 			}
@@ -888,11 +911,8 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		var filtered []*BaseShape
 		for _, targetMember := range s.AnyOf {
 			if sourceMember.Type == targetMember.Type {
-				// Clone is required to avoid modifying the original target member shape.
-				cs := targetMember.CloneDetached()
-				// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-				cs.ID = s.raml.generateShapeID()
-				ms, err := cs.Inherit(sourceMember)
+				// Copy is required to avoid modifying the original target member shape.
+				ms, err := targetMember.inheritCopy(sourceMember)
 				if err != nil {
 					// TODO: Collect errors
 					// StacktraceNewWrapped("merge union member", err, s.Location)
diff --git a/shape.go b/shape.go
index cb483aa..d3e5e43 100644
--- a/shape.go
+++ b/shape.go
@@ -70,6 +70,8 @@ type BaseShape struct {
 	unwrapped bool
 	// NOTE: Not thread safe and should be used only in one method simultaneously.
 	ShapeVisited bool
+	// Targets that are currently inheriting from this shape mapped to the result of the merge.
+	inheritors map[*BaseShape]*BaseShape
 
 	raml *RAML
 
@@ -133,8 +135,52 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		// NOTE: We do not mark any recursions here. External code must handle this case.
 		return sourceBase, nil
 	}
+	return s.inheritFrom(sourceBase, s)
+}
+
+// inheritCopy merges the source into a copy of the shape and returns the copy.
+//
+// Properties, items and union members may be shared between several types (for example, by aliases),
+// so the shape itself must stay intact when only one of these types overrides it.
+func (s *BaseShape) inheritCopy(sourceBase *BaseShape) (*BaseShape, error) {
+	if s == sourceBase {
+		return s, nil
+	}
+	// The same pair is already being merged: recursive types refer to the result of that merge.
+	if merged, ok := sourceBase.inheritors[s]; ok {
+		return merged, nil
+	}
+	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, sourceBase); err != nil {
+		return nil, err
+	}
+	return s.copyForInherit().inheritFrom(sourceBase, s)
+}
+
+// copyForInherit creates a copy of the shape that does not share any mutable state with the original shape
+// except its children.
+func (s *BaseShape) copyForInherit() *BaseShape {
+	c := s.CloneShallow()
+	if s.raml != nil {
+		c.ID = s.raml.generateShapeID()
+	}
+	if obj, ok := c.Shape.(*ObjectShape); ok {
+		obj.ownProperties()
+	}
+	return c
+}
+
+// inheritFrom merges the source into the shape, where the original is the shape that was declared as the target.
+func (s *BaseShape) inheritFrom(sourceBase *BaseShape, original *BaseShape) (*BaseShape, error) {
+	visited := sourceBase.ShapeVisited
 	sourceBase.ShapeVisited = true
-	defer func() { sourceBase.ShapeVisited = false }()
+	if sourceBase.inheritors == nil {
+		sourceBase.inheritors = make(map[*BaseShape]*BaseShape)
+	}
+	sourceBase.inheritors[original] = s
+	defer func() {
+		sourceBase.ShapeVisited = visited
+		delete(sourceBase.inheritors, original)
+	}()
 
 	source := sourceBase.Shape
 	target := s.Shape
@@ -168,7 +214,7 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return s.inheritUnionSource(sourceUnion)
 
 	case isTargetUnion && !isSourceUnion:
-		return s.inheritUnionTarget(targetUnion)
+		return sourceBase.inheritUnionTarget(targetUnion)
 	}
 	// Homogenous types produce same type
 	_, err := target.inherit(source)
@@ -193,12 +239,8 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 			return s, nil
 		}
 		if source.Type == s.Type {
-			// Deep copy with ID change is required since we create new union members from source members
-			tc := s.CloneDetached()
-			tc.ID = s.raml.generateShapeID()
-			// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-			// tc.ID = generateShapeID()
-			is, err := tc.Inherit(source)
+			// Copy with ID change is required since we create new union members from source members
+			is, err := s.inheritCopy(source)
 			if err != nil {
 				se := StacktraceNewWrapped("merge shapes", err, s.Location,
 					stacktrace.WithPosition(&s.Position))
@@ -238,14 +280,16 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 
 const HookBeforeBaseShapeInheritUnionTarget = "BaseShape.inheritUnionTarget"
 
+// inheritUnionTarget merges the shape into every member of the target union.
 func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, error) {
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInheritUnionTarget, targetUnion); err != nil {
 		return nil, err
 	}
 	var st *stacktrace.StackTrace
+	anyOf := make([]*BaseShape, 0, len(targetUnion.AnyOf))
 	for _, item := range targetUnion.AnyOf {
 		// Merge will raise an error in case any of union members has incompatible type
-		_, err := item.Inherit(s)
+		is, err := item.inheritCopy(s)
 		if err != nil {
 			se := StacktraceNewWrapped("merge shapes", err, targetUnion.Base().Location,
 				stacktrace.WithPosition(&targetUnion.Base().Position))
@@ -256,10 +300,12 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 			}
 			continue
 		}
+		anyOf = append(anyOf, is)
 	}
 	if st != nil {
 		return nil, st
 	}
+	targetUnion.AnyOf = anyOf
 	return targetUnion.Base(), nil
 }
 
@@ -287,6 +333,7 @@ func (s *BaseShape) AliasTo(source *BaseShape) (*BaseShape, error) {
 func (s *BaseShape) CloneShallow() *BaseShape {
 	c := *s
 	ptr := &c
+	c.inheritors = nil
 
 	c.CustomDomainProperties = orderedmap.New[string, *DomainExtension](s.CustomDomainProperties.Len())
 	for pair := s.CustomDomainProperties.Oldest(); pair != nil; pair = pair.Next() {
@@ -335,6 +382,7 @@ func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	}
 
 	c := *s
+	c.inheritors = nil
 	clonedMap[s.ID] = &c
 
 	// TODO: Node is not deep copied yet, but it's not mutated anyway
diff --git a/unwrap.go b/unwrap.go
index 13c6410..6b19502 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -356,17 +356,21 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
 		inherits[0] = ss
+		if len(inherits) > 1 {
+			// Parents are merged into a copy since the first parent may be used by other types as is.
+			ss = ss.copyForInherit()
+		}
 		for i := 1; i < len(inherits); i++ {
 			us, errUnwrap := r.UnwrapShape(inherits[i])
 			if errUnwrap != nil {
 				return nil, errUnwrap
 			}
-			us, errUnwrap = ss.Inherit(us)
+			inherits[i] = us
+			ss, errUnwrap = ss.Inherit(us)
 			if errUnwrap != nil {
 				return nil, StacktraceNewWrapped("multiple parents unwrap", errUnwrap, base.Location,
 					stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			inherits[i] = us
 		}
 		source = ss
 	}
-- 
2.43.0


From 6acd43509dfa8b92d9d2c41539a69f108d6ca9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 09/59] fix: report types that are defined through themselves
 instead of overflowing the stack

---
 complex.go | 2 ++
 resolve.go | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/complex.go b/complex.go
index d679429..8cc31b3 100644
--- a/complex.go
+++ b/complex.go
@@ -1014,6 +1014,8 @@ type UnknownShape struct {
 	*BaseShape
 
 	facets []*yaml.Node
+	// Set while the shape is being resolved to detect types that are defined through themselves.
+	resolving bool
 }
 
 func (s *UnknownShape) Base() *BaseShape {
diff --git a/resolve.go b/resolve.go
index 7a5869a..6029213 100644
--- a/resolve.go
+++ b/resolve.go
@@ -151,6 +151,12 @@ func (r *RAML) resolveShape(base *BaseShape) error {
 	if !ok {
 		return nil
 	}
+	if unknownShape.resolving {
+		return StacktraceNew("type is defined through itself", base.Location,
+			stacktrace.WithPosition(&base.Position), stacktrace.WithInfo("name", base.Name))
+	}
+	unknownShape.resolving = true
+	defer func() { unknownShape.resolving = false }()
 
 	if base.Link != nil {
 		err := r.resolveLink(base, unknownShape)
-- 
2.43.0


From 9ca56c4425cf866ce075bea23591b74856122b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 10/59] fix: report a union that is a member of itself instead
 of overflowing the stack

---
 unwrap.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/unwrap.go b/unwrap.go
index 6b19502..adfc31f 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -270,7 +270,29 @@ func (r *RAML) findAndMarkRecursionInObjectShape(t *ObjectShape) error {
 	return nil
 }
 
+// checkUnionRecursion reports a union that is its own member, directly or through other unions.
+// Such a union does not describe any value and cannot be validated against.
+func (r *RAML) checkUnionRecursion(t *UnionShape, visited map[*UnionShape]struct{}) error {
+	if _, ok := visited[t]; ok {
+		return StacktraceNew("union is a member of itself", t.Location,
+			stacktrace.WithPosition(&t.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+	}
+	visited[t] = struct{}{}
+	for _, item := range t.AnyOf {
+		if u, ok := item.Shape.(*UnionShape); ok {
+			if err := r.checkUnionRecursion(u, visited); err != nil {
+				return err
+			}
+		}
+	}
+	delete(visited, t)
+	return nil
+}
+
 func (r *RAML) findAndMarkRecursionInUnionShape(t *UnionShape) error {
+	if err := r.checkUnionRecursion(t, make(map[*UnionShape]struct{})); err != nil {
+		return fmt.Errorf("check union recursion: %w", err)
+	}
 	for i, item := range t.AnyOf {
 		rs, err := r.FindAndMarkRecursion(item)
 		if err != nil {
-- 
2.43.0


From 037cd3128b1f30d9a64090b8395eac3736d15143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 11/59] fix: apply custom facet definitions of an included data
 type to types derived from it

---
 unwrap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unwrap.go b/unwrap.go
index adfc31f..d685986 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -369,6 +369,8 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 		}
 		source = us
 		base.Link = nil
+		// Keep the linked type as a parent since it defines custom facets of the shape.
+		base.Inherits = append(base.Inherits, us)
 	case len(base.Inherits) > 0:
 		inherits := base.Inherits
 		// FIXME: Multiple inheritance members must be checked for compatibility with each other before unwrapping.
-- 
2.43.0


From f624ba3affc8ed1e19bfe14f84b353e9b20be402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 12/59] fix: give recursive types all facets of the types they
 refer to

A type that refers to itself took facets of a type that was still being
unwrapped, so constraints inherited by this type were lost. Such types now take
facets again when unwrapping is complete. Property maps are not shared between
a type and its parent anymore.
---
 complex.go |  18 ++++---
 raml.go    |   4 ++
 shape.go   |   4 ++
 unwrap.go  | 148 +++++++++++++++++++++++++++++++++++++++++------------
 4 files changed, 133 insertions(+), 41 deletions(-)

diff --git a/complex.go b/complex.go
index 8cc31b3..16a7676 100644
--- a/complex.go
+++ b/complex.go
@@ -551,13 +551,12 @@ func (s *ObjectShape) inheritMaxProperties(source *ObjectShape) error {
 }
 
 func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
-	if s.Properties == nil {
-		s.Properties = source.Properties
+	if source.Properties == nil {
 		return nil
 	}
 
-	if source.Properties == nil {
-		return nil
+	if s.Properties == nil {
+		s.Properties = orderedmap.New[string, Property](source.Properties.Len())
 	}
 
 	for pair := source.Properties.Oldest(); pair != nil; pair = pair.Next() {
@@ -588,11 +587,10 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 }
 
 func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
-	if s.PatternProperties == nil {
-		s.PatternProperties = source.PatternProperties
-		return nil
-	}
 	if source.PatternProperties != nil {
+		if s.PatternProperties == nil {
+			s.PatternProperties = orderedmap.New[string, PatternProperty](source.PatternProperties.Len())
+		}
 		for pair := source.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 			k, sourceProp := pair.Key, pair.Value
 			if targetProp, present := s.PatternProperties.Get(k); present {
@@ -905,6 +903,10 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		s.AnyOf = ss.AnyOf
 		return s, nil
 	}
+	// Members are already inherited.
+	if len(s.AnyOf) == len(ss.AnyOf) && &s.AnyOf[0] == &ss.AnyOf[0] {
+		return s, nil
+	}
 	// TODO: Implement enum facets inheritance
 	var finalFiltered []*BaseShape
 	for _, sourceMember := range ss.AnyOf {
diff --git a/raml.go b/raml.go
index 683fc5e..d2efbec 100644
--- a/raml.go
+++ b/raml.go
@@ -25,6 +25,10 @@ type RAML struct {
 	shapes []*BaseShape
 	// Temporary storage for unresolved shapes.
 	unresolvedShapes list.List
+	// Recursive types may take facets from shapes that are still being unwrapped.
+	// These facets are taken again when the outermost shape is unwrapped.
+	incompleteShapes []*incompleteShape
+	unwrapDepth      int
 
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
diff --git a/shape.go b/shape.go
index d3e5e43..d91ef04 100644
--- a/shape.go
+++ b/shape.go
@@ -68,6 +68,8 @@ type BaseShape struct {
 
 	// Controlled by UnwrapShape
 	unwrapped bool
+	// Set by UnwrapShape until the shape has all facets of its parents.
+	incomplete bool
 	// NOTE: Not thread safe and should be used only in one method simultaneously.
 	ShapeVisited bool
 	// Targets that are currently inheriting from this shape mapped to the result of the merge.
@@ -334,6 +336,7 @@ func (s *BaseShape) CloneShallow() *BaseShape {
 	c := *s
 	ptr := &c
 	c.inheritors = nil
+	c.incomplete = false
 
 	c.CustomDomainProperties = orderedmap.New[string, *DomainExtension](s.CustomDomainProperties.Len())
 	for pair := s.CustomDomainProperties.Oldest(); pair != nil; pair = pair.Next() {
@@ -383,6 +386,7 @@ func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 
 	c := *s
 	c.inheritors = nil
+	c.incomplete = false
 	clonedMap[s.ID] = &c
 
 	// TODO: Node is not deep copied yet, but it's not mutated anyway
diff --git a/unwrap.go b/unwrap.go
index d685986..430c2fb 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -358,47 +358,103 @@ func (r *RAML) unwrapUnionShape(unionShape *UnionShape) error {
 	return nil
 }
 
-func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
-	var source *BaseShape
-	switch {
-	case base.Link != nil:
+// unwrapParents unwraps shapes that are the source of the inheritance for the base shape.
+func (r *RAML) unwrapParents(base *BaseShape) ([]*BaseShape, error) {
+	if base.Link != nil {
 		us, err := r.UnwrapShape(base.Link.Shape)
 		if err != nil {
 			return nil, StacktraceNewWrapped("link unwrap", err, base.Location,
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
-		source = us
 		base.Link = nil
 		// Keep the linked type as a parent since it defines custom facets of the shape.
 		base.Inherits = append(base.Inherits, us)
-	case len(base.Inherits) > 0:
-		inherits := base.Inherits
-		// FIXME: Multiple inheritance members must be checked for compatibility with each other before unwrapping.
-		ss, err := r.UnwrapShape(inherits[0])
+		return base.Inherits, nil
+	}
+	for i, parent := range base.Inherits {
+		us, err := r.UnwrapShape(parent)
 		if err != nil {
 			return nil, StacktraceNewWrapped("parent unwrap", err, base.Location,
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
-		inherits[0] = ss
-		if len(inherits) > 1 {
-			// Parents are merged into a copy since the first parent may be used by other types as is.
-			ss = ss.copyForInherit()
+		base.Inherits[i] = us
+	}
+	return base.Inherits, nil
+}
+
+// inheritParents merges unwrapped parents into the base shape in-place.
+func (r *RAML) inheritParents(base *BaseShape, parents []*BaseShape) (*BaseShape, error) {
+	// FIXME: Multiple inheritance members must be checked for compatibility with each other before unwrapping.
+	source := parents[0]
+	if len(parents) > 1 {
+		// Parents are merged into a copy since the first parent may be used by other types as is.
+		source = source.copyForInherit()
+	}
+	for _, parent := range parents[1:] {
+		ss, err := source.Inherit(parent)
+		if err != nil {
+			return nil, StacktraceNewWrapped("multiple parents unwrap", err, base.Location,
+				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
-		for i := 1; i < len(inherits); i++ {
-			us, errUnwrap := r.UnwrapShape(inherits[i])
-			if errUnwrap != nil {
-				return nil, errUnwrap
-			}
-			inherits[i] = us
-			ss, errUnwrap = ss.Inherit(us)
-			if errUnwrap != nil {
-				return nil, StacktraceNewWrapped("multiple parents unwrap", errUnwrap, base.Location,
-					stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+		source = ss
+	}
+	is, err := base.Inherit(source)
+	if err != nil {
+		return nil, StacktraceNewWrapped("merge shapes", err, base.Location,
+			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+	}
+	return is, nil
+}
+
+// incompleteShape is a shape that took facets from the sources before they were completely unwrapped.
+type incompleteShape struct {
+	base    *BaseShape
+	sources []*BaseShape
+	update  func() error
+}
+
+// postponeIncomplete schedules an update of the shape if any of its sources is not completely unwrapped yet.
+func (r *RAML) postponeIncomplete(base *BaseShape, sources []*BaseShape, update func() error) {
+	base.incomplete = false
+	for _, source := range sources {
+		if source.incomplete {
+			base.incomplete = true
+			r.incompleteShapes = append(r.incompleteShapes, &incompleteShape{base, sources, update})
+			return
+		}
+	}
+}
+
+// completeShapes updates all postponed shapes after their sources are updated.
+func (r *RAML) completeShapes() error {
+	shapes := r.incompleteShapes
+	r.incompleteShapes = nil
+
+	postponed := make(map[*BaseShape]*incompleteShape, len(shapes))
+	for _, shape := range shapes {
+		postponed[shape.base] = shape
+	}
+	var complete func(base *BaseShape) error
+	complete = func(base *BaseShape) error {
+		shape, ok := postponed[base]
+		if !ok {
+			return nil
+		}
+		delete(postponed, base)
+		for _, source := range shape.sources {
+			if err := complete(source); err != nil {
+				return err
 			}
 		}
-		source = ss
+		base.incomplete = false
+		return shape.update()
+	}
+	for _, shape := range shapes {
+		if err := complete(shape.base); err != nil {
+			return err
+		}
 	}
-	return source, nil
+	return nil
 }
 
 func (r *RAML) UnwrapTarget(target Shape) error {
@@ -427,8 +483,7 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 	if err := r.callHooks(HookBeforeUnwrapShape, base); err != nil {
 		return nil, err
 	}
-	s := base.Shape
-	if s == nil {
+	if base.Shape == nil {
 		return nil, fmt.Errorf("shape is nil")
 	}
 
@@ -437,7 +492,24 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 		return base, nil
 	}
 	base.SetUnwrapped()
+	base.incomplete = true
+
+	r.unwrapDepth++
+	us, err := r.unwrapBaseShape(base)
+	r.unwrapDepth--
+	if r.unwrapDepth == 0 {
+		if errComplete := r.completeShapes(); errComplete != nil && err == nil {
+			err = StacktraceNewWrapped("complete recursive shapes", errComplete, base.Location,
+				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+		}
+	}
+	if err != nil {
+		return nil, err
+	}
+	return us, nil
+}
 
+func (r *RAML) unwrapBaseShape(base *BaseShape) (*BaseShape, error) {
 	// NOTE: Type aliasing is not inheritance and is not used as a source. It must be unwrapped and returned as is.
 	if base.Alias != nil {
 		us, err := r.UnwrapShape(base.Alias)
@@ -446,16 +518,23 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
 		r.PutShape(base)
+		r.postponeIncomplete(base, []*BaseShape{us}, func() error {
+			// Facet definitions may be reset if the shape is a trait.
+			defs := base.CustomShapeFacetDefinitions
+			_, errAlias := base.AliasTo(us)
+			base.CustomShapeFacetDefinitions = defs
+			return errAlias
+		})
 		return base.AliasTo(us)
 	}
 
-	source, err := r.unwrapParents(base)
+	parents, err := r.unwrapParents(base)
 	if err != nil {
 		return nil, StacktraceNewWrapped("unwrap parents", err, base.Location,
 			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 	}
 
-	if err = r.UnwrapTarget(s); err != nil {
+	if err = r.UnwrapTarget(base.Shape); err != nil {
 		return nil, StacktraceNewWrapped("unwrap target", err, base.Location,
 			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 	}
@@ -473,15 +552,18 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 		base.CustomShapeFacetDefinitions.Set(pair.Key, prop)
 	}
 
-	if source != nil {
+	if len(parents) > 0 {
 		// Base shape inherits properties of the source shape in-place.
-		is, errInherit := base.Inherit(source)
+		is, errInherit := r.inheritParents(base, parents)
 		if errInherit != nil {
-			return nil, StacktraceNewWrapped("merge shapes", errInherit, base.Location,
-				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+			return nil, fmt.Errorf("inherit parents: %w", errInherit)
 		}
 		base = is
 	}
+	r.postponeIncomplete(base, parents, func() error {
+		_, errInherit := r.inheritParents(base, parents)
+		return errInherit
+	})
 	r.PutShape(base)
 	return base, nil
 }
-- 
2.43.0


From a4e93bb2f237f674422cf640f161f5eab7e1979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 13/59] fix: take custom facet definitions from all parents in
 a stable order

---
 validate.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/validate.go b/validate.go
index 9275a5e..8a13950 100644
--- a/validate.go
+++ b/validate.go
@@ -334,29 +334,32 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	if err := r.callHooks(HookBeforeValidateShapeFacets, base); err != nil {
 		return err
 	}
-	// TODO: Doesn't support multiple inheritance.
-	inherits := base.Inherits
 	shapeFacetDefs := base.CustomShapeFacetDefinitions
-	validationFacetDefs := make(map[string]Property)
-	for {
-		if len(inherits) == 0 {
-			break
-		}
+	validationFacetDefs := orderedmap.New[string, Property]()
+	visited := make(map[*BaseShape]struct{})
+	inherits := append([]*BaseShape(nil), base.Inherits...)
+	for len(inherits) > 0 {
 		parent := inherits[0]
+		inherits = inherits[1:]
+		if _, ok := visited[parent]; ok {
+			continue
+		}
+		visited[parent] = struct{}{}
 		for pair := parent.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
 			f := pair.Value
 			if _, ok := shapeFacetDefs.Get(f.Name); ok {
 				return StacktraceNew("duplicate custom facet", f.Base.Location,
 					stacktrace.WithPosition(&f.Base.Position), stacktrace.WithInfo("facet", f.Name))
 			}
-			validationFacetDefs[f.Name] = f
+			validationFacetDefs.Set(f.Name, f)
 		}
-		inherits = parent.Inherits
+		inherits = append(inherits, parent.Inherits...)
 	}
 
 	// Validate all unknown facets against facet definitions
 	shapeFacets := base.CustomShapeFacets
-	for k, facetDef := range validationFacetDefs {
+	for pair := validationFacetDefs.Oldest(); pair != nil; pair = pair.Next() {
+		k, facetDef := pair.Key, pair.Value
 		f, ok := shapeFacets.Get(k)
 		if !ok {
 			if facetDef.Required {
@@ -374,7 +377,7 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	// If we encounter an undefined facet - it's an error.
 	for pair := shapeFacets.Oldest(); pair != nil; pair = pair.Next() {
 		k, f := pair.Key, pair.Value
-		if _, ok := validationFacetDefs[k]; !ok {
+		if _, ok := validationFacetDefs.Get(k); !ok {
 			return StacktraceNew("unknown facet", f.Location, stacktrace.WithPosition(&f.Position),
 				stacktrace.WithInfo("facet", k))
 		}
-- 
2.43.0


From fab43d422f364d21b8aa08b6fe0dafee5a1b0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 14/59] fix: accept custom facets on types that refer to
 themselves

---
 validate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validate.go b/validate.go
index 8a13950..b8e1f29 100644
--- a/validate.go
+++ b/validate.go
@@ -334,6 +334,10 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	if err := r.callHooks(HookBeforeValidateShapeFacets, base); err != nil {
 		return err
 	}
+	// Custom facets of a recursive shape are the facets of its head, which are validated there.
+	if _, ok := base.Shape.(*RecursiveShape); ok {
+		return nil
+	}
 	shapeFacetDefs := base.CustomShapeFacetDefinitions
 	validationFacetDefs := orderedmap.New[string, Property]()
 	visited := make(map[*BaseShape]struct{})
-- 
2.43.0


From 2a2c3e6a67ca1c2dc2e82833a25856aa646e7fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 15/59] fix: resolve circular includes to one fragment and
 reject empty fragments

---
 parse.go | 28 +++++++++++++++++++++-------
 raml.go  |  7 +++++++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/parse.go b/parse.go
index a50be10..78903b0 100644
--- a/parse.go
+++ b/parse.go
@@ -57,6 +57,18 @@ func ReadRawFile(path string) (io.ReadCloser, error) {
 	return f, nil
 }
 
+// decodeFragment decodes the YAML document of the fragment.
+func decodeFragment(decoder *yaml.Decoder, fragment yaml.Unmarshaler) error {
+	var node yaml.Node
+	if err := decoder.Decode(&node); err != nil {
+		return fmt.Errorf("decode yaml: %w", err)
+	}
+	if len(node.Content) != 1 {
+		return fmt.Errorf("unexpected number of nodes in the document: %d", len(node.Content))
+	}
+	return fragment.UnmarshalYAML(node.Content[0])
+}
+
 // decodeDataType decodes a data type (*DataType) from a file.
 func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 	// TODO: This is a temporary workaround for JSON data types.
@@ -78,13 +90,14 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 	decoder := yaml.NewDecoder(f)
 
 	dt := r.MakeDataType(path)
-	if err := decoder.Decode(&dt); err != nil {
+	// Fragments included by the data type may refer back to it.
+	r.PutFragment(path, dt)
+	if err := decodeFragment(decoder, dt); err != nil {
+		r.removeFragment(path, dt)
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 
-	r.PutFragment(path, dt)
-
 	baseDir := filepath.Dir(dt.Location)
 	for pair := dt.Uses.Oldest(); pair != nil; pair = pair.Next() {
 		include := pair.Value
@@ -182,15 +195,16 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 	decoder := yaml.NewDecoder(f)
 
 	lib := r.MakeLibrary(path)
-	if err := decoder.Decode(&lib); err != nil {
+	// Fragments included by the types of the library may refer back to it.
+	r.PutFragment(path, lib)
+	if err := decodeFragment(decoder, lib); err != nil {
+		r.removeFragment(path, lib)
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 
 	var st *stacktrace.StackTrace
 
-	r.PutFragment(path, lib)
-
 	// Resolve included libraries in a separate stage.
 	baseDir := filepath.Dir(lib.Location)
 	for pair := lib.Uses.Oldest(); pair != nil; pair = pair.Next() {
@@ -258,7 +272,7 @@ func (r *RAML) decodeNamedExample(f io.Reader, path string) (*NamedExample, erro
 	decoder := yaml.NewDecoder(f)
 
 	ne := r.MakeNamedExample(path)
-	if err := decoder.Decode(&ne); err != nil {
+	if err := decodeFragment(decoder, ne); err != nil {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
diff --git a/raml.go b/raml.go
index d2efbec..8026cb8 100644
--- a/raml.go
+++ b/raml.go
@@ -212,6 +212,13 @@ func (r *RAML) PutFragment(location string, fragment Fragment) {
 	}
 }
 
+// removeFragment removes the fragment unless its location belongs to another fragment.
+func (r *RAML) removeFragment(location string, fragment Fragment) {
+	if r.fragmentsCache[location] == fragment {
+		delete(r.fragmentsCache, location)
+	}
+}
+
 func (r *RAML) GetReferencedType(refName string, location string) (*BaseShape, error) {
 	frag := r.GetFragment(location)
 	if frag == nil {
-- 
2.43.0


From 2273a2a4929c66e8a5ca5d696753429101d4e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:58 +0000
Subject: [PATCH 16/59] fix: report a fragment that is used as a fragment of
 another kind instead of panicking

---
 parse.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 78903b0..e4149fa 100644
--- a/parse.go
+++ b/parse.go
@@ -144,7 +144,12 @@ func (r *RAML) parseDataType(path string) (*DataType, error) {
 
 	if dt := r.GetFragment(path); dt != nil {
 		// log.Printf("reusing fragment %s", path)
-		return dt.(*DataType), nil
+		cached, ok := dt.(*DataType)
+		if !ok {
+			return nil, StacktraceNew("fragment is not a data type", path,
+				stacktrace.WithType(StacktraceTypeParsing))
+		}
+		return cached, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -238,7 +243,12 @@ func (r *RAML) parseLibrary(path string) (*Library, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*Library), nil
+		cached, ok := lib.(*Library)
+		if !ok {
+			return nil, StacktraceNew("fragment is not a library", path,
+				stacktrace.WithType(StacktraceTypeParsing))
+		}
+		return cached, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -288,7 +298,12 @@ func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*NamedExample), nil
+		cached, ok := lib.(*NamedExample)
+		if !ok {
+			return nil, StacktraceNew("fragment is not a named example", path,
+				stacktrace.WithType(StacktraceTypeParsing))
+		}
+		return cached, nil
 	}
 
 	f, err := openFragmentFile(path)
-- 
2.43.0


From 3020b603c6a98cdd25094c18ec8b9083e978966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 17/59] fix: return hook errors from type expressions instead
 of panicking

---
 rdt_visitor.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index 9d235e8..50a8ca6 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -52,7 +52,10 @@ func (visitor *RdtVisitor) VisitUnionMembers(node antlr.RuleNode, target *Unknow
 	// ^     ^ ^     ^ ^
 	// 0     1 2     3 4
 	for i := 0; i < len(children); i += 2 {
-		baseResolved, implicitAnonShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		baseResolved, implicitAnonShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		if err != nil {
+			return nil, fmt.Errorf("make union member: %w", err)
+		}
 		s, err := visitor.Visit(children[i].(antlr.ParseTree), implicitAnonShape.(*UnknownShape))
 		if err != nil {
 			return nil, fmt.Errorf("visit children: %w", err)
@@ -94,7 +97,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	unionShape := shape.(*UnionShape)
 
 	// Create new anonymous shape for union member and continue resolving the expression for it.
-	baseResolved, anonResolvedShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	baseResolved, anonResolvedShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make optional member: %w", err)
+	}
 	s, err := visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), anonResolvedShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
@@ -103,7 +109,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	baseResolved.SetShape(s)
 
 	// Nil shape is also anonymous here and doesn't share the base shape with the target.
-	baseNil, _, _ := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	baseNil, _, err := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make nil member: %w", err)
+	}
 
 	unionShape.UnionFacets.AnyOf = []*BaseShape{baseResolved, baseNil}
 	return unionShape, nil
@@ -119,7 +128,10 @@ func (visitor *RdtVisitor) VisitArray(ctx *rdt.ArrayContext, target *UnknownShap
 	arrayShape := shape.(*ArrayShape)
 
 	// Create new anonymous shape for items and continue resolving the expression for it.
-	itemsBase, itemsShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	itemsBase, itemsShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make array items: %w", err)
+	}
 	itemsShape, err = visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), itemsShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
-- 
2.43.0


From ea9f7005f77d186759e0fcd75e1ed358bf2e7167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:47 +0000
Subject: [PATCH 18/59] fix: keep facets of a type given as a grouped or padded
 primitive expression

---
 rdt_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index 50a8ca6..110d51b 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -80,7 +80,7 @@ func (visitor *RdtVisitor) VisitType(ctx *rdt.TypeContext, target *UnknownShape)
 }
 
 func (visitor *RdtVisitor) VisitPrimitive(ctx *rdt.PrimitiveContext, target *UnknownShape) (Shape, error) {
-	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ctx.GetText(), nil)
+	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ctx.GetText(), target.facets)
 	if err != nil {
 		return nil, fmt.Errorf("make concrete shape: %w", err)
 	}
-- 
2.43.0


From a3b6cf12695e77980918ce24d584af5d5f4afc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 19/59] fix: report empty lists of types and internal type
 names instead of panicking

---
 shape.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shape.go b/shape.go
index d91ef04..afd4ea2 100644
--- a/shape.go
+++ b/shape.go
@@ -721,6 +721,9 @@ func (r *RAML) makeShapeType(
 						WithNodePosition(shapeTypeNode))
 				}
 				return shapeType, s, nil
+			} else if shapeType == TypeJSON || shapeType == TypeComposite {
+				return "", nil, StacktraceNew("type is internal and cannot be used", location,
+					WithNodePosition(shapeTypeNode), stacktrace.WithInfo("type", shapeType))
 			}
 		case TagInclude:
 			baseDir := filepath.Dir(location)
@@ -738,6 +741,10 @@ func (r *RAML) makeShapeType(
 				WithNodePosition(shapeTypeNode))
 		}
 	case yaml.SequenceNode:
+		if len(shapeTypeNode.Content) == 0 {
+			return "", nil, StacktraceNew("list of types must not be empty", location,
+				WithNodePosition(shapeTypeNode))
+		}
 		var inherits = make([]*BaseShape, len(shapeTypeNode.Content))
 		for i, node := range shapeTypeNode.Content {
 			if node.Kind != yaml.ScalarNode {
-- 
2.43.0


From de40cc50b5afd57c089dc461954e2a5fba44158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:07 +0000
Subject: [PATCH 20/59] fix: report facets, properties and uses that are not
 maps

---
 complex.go  | 3 +++
 fragment.go | 4 ++++
 shape.go    | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/complex.go b/complex.go
index 16a7676..6c31ea8 100644
--- a/complex.go
+++ b/complex.go
@@ -306,6 +306,9 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 				stacktrace.WithInfo("facet", FacetMaxProperties))
 		}
 	case FacetProperties:
+		if valueNode.Tag != TagNull && valueNode.Kind != yaml.MappingNode {
+			return StacktraceNew("properties must be map", s.Location, WithNodePosition(valueNode))
+		}
 		if len(valueNode.Content)%2 != 0 {
 			return StacktraceNew("odd number of nodes", s.Location, stacktrace.WithPosition(&s.Position))
 		}
diff --git a/fragment.go b/fragment.go
index 05e1a1d..05750a4 100644
--- a/fragment.go
+++ b/fragment.go
@@ -345,6 +345,10 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 				break
 			}
 
+			if valueNode.Kind != yaml.MappingNode {
+				return StacktraceNew("uses must be map", dt.Location, WithNodePosition(valueNode))
+			}
+
 			dt.Uses = orderedmap.New[string, *LibraryLink](len(valueNode.Content) / 2)
 			// Map nodes come in pairs in order [key, value]
 			for j := 0; j != len(valueNode.Content); j += 2 {
diff --git a/shape.go b/shape.go
index afd4ea2..5ac9319 100644
--- a/shape.go
+++ b/shape.go
@@ -862,6 +862,9 @@ func (s *BaseShape) decodeExamples(valueNode *yaml.Node) error {
 
 // decodeFacets decodes the facet: "facets" from the YAML node.
 func (s *BaseShape) decodeFacets(valueNode *yaml.Node) error {
+	if valueNode.Tag != TagNull && valueNode.Kind != yaml.MappingNode {
+		return StacktraceNew("facets must be map", s.Location, WithNodePosition(valueNode))
+	}
 	s.CustomShapeFacetDefinitions = orderedmap.New[string, Property](len(valueNode.Content) / 2)
 	for j := 0; j != len(valueNode.Content); j += 2 {
 		nodeName := valueNode.Content[j].Value
-- 
2.43.0


From 998323a8b5e5a5907d96dd32b23d768cfe032039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:52 +0000
Subject: [PATCH 21/59] fix: give recursive types with the same name separate
 JSON schema definitions

---
 jsonschemaconv.go | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 97f747a..675dfab 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"net/url"
 	"strconv"
+	"strings"
 
 	orderedmap "github.com/wk8/go-ordered-map/v2"
 )
@@ -41,12 +43,17 @@ type JSONSchemaConverter[T jsonSchemaWrapper[T]] struct {
 	ShapeVisitor[T]
 
 	definitions map[string]T
+	// Names of the shapes in definitions. Shapes are not required to have unique names.
+	definitionNames map[*BaseShape]string
 
 	opts JSONSchemaConverterOptions[T]
 }
 
 func NewJSONSchemaConverter[T jsonSchemaWrapper[T]](opt ...JSONSchemaConverterOpt[T]) (*JSONSchemaConverter[T], error) {
-	c := &JSONSchemaConverter[T]{definitions: make(map[string]T)}
+	c := &JSONSchemaConverter[T]{
+		definitions:     make(map[string]T),
+		definitionNames: make(map[*BaseShape]string),
+	}
 	for _, o := range opt {
 		o.apply(&c.opts)
 	}
@@ -67,13 +74,14 @@ func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 
 	entrypointName := s.Base().Name
 	c.definitions = make(map[string]T)
+	c.definitionNames = map[*BaseShape]string{s.Base(): entrypointName}
 	// NOTE: Assign empty schema before traversing to definitions to occupy the name.
 	c.definitions[entrypointName] = zero
 	c.definitions[entrypointName] = c.Visit(s)
 
 	core := &JSONSchemaGeneric[T]{
 		Version:     JSONSchemaVersion,
-		Ref:         "#/definitions/" + entrypointName,
+		Ref:         makeDefinitionRef(entrypointName),
 		Definitions: c.definitions,
 	}
 
@@ -344,19 +352,43 @@ func (c *JSONSchemaConverter[T]) VisitRecursiveShape(s *RecursiveShape) T {
 
 	head := s.Head.Shape
 	baseHead := head.Base()
-	// TODO: Type name is not unique, need pretty naming to avoid collisions.
-	definition := baseHead.Name
-	if _, ok := c.definitions[definition]; !ok {
+	definition, ok := c.definitionNames[baseHead]
+	if !ok {
+		definition = c.makeDefinitionName(baseHead)
 		// NOTE: Assign empty schema to definitions to occupy the name before traversing.
 		var placeholder T
 		c.definitions[definition] = placeholder
 		c.definitions[definition] = c.Visit(head)
 	}
-	schema.Ref = "#/definitions/" + definition
+	schema.Ref = makeDefinitionRef(definition)
 
 	return node
 }
 
+// makeDefinitionName occupies a name in definitions that does not belong to any other shape.
+func (c *JSONSchemaConverter[T]) makeDefinitionName(base *BaseShape) string {
+	name := base.Name
+	// TODO: Need pretty naming of the shapes with the same name.
+	for i := 2; ; i++ {
+		if _, ok := c.definitions[name]; !ok {
+			break
+		}
+		name = base.Name + "_" + strconv.Itoa(i)
+	}
+	if c.definitionNames == nil {
+		c.definitionNames = make(map[*BaseShape]string)
+	}
+	c.definitionNames[base] = name
+	return name
+}
+
+var jsonPointerEscaper = strings.NewReplacer("~", "~0", "/", "~1")
+
+// makeDefinitionRef makes a reference to the definition: a JSON pointer encoded as URI fragment.
+func makeDefinitionRef(definition string) string {
+	return "#/definitions/" + url.PathEscape(jsonPointerEscaper.Replace(definition))
+}
+
 func (c *JSONSchemaConverter[T]) VisitJSONShape(s *JSONShape) T {
 	// Base RAML meta (annotations, facets) first …
 	node := c.makeSchemaFromBaseShape(s.Base())
-- 
2.43.0


From ad96fd8eb7c70cbc03e4fe895b3074b7539b6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 22/59] fix: do not share facets and values between a JSON
 schema and its deep copy

---
 schema.go | 80 ++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 15 deletions(-)

diff --git a/schema.go b/schema.go
index f0d4b2c..f915f96 100644
--- a/schema.go
+++ b/schema.go
@@ -98,36 +98,48 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 	}
 	newJs := js.ShallowCopy()
 
-	if len(js.Required) > 0 {
+	if js.Required != nil {
 		newJs.Required = make([]string, len(js.Required))
 		copy(newJs.Required, js.Required)
 	}
 
-	if len(js.Examples) > 0 {
-		newJs.Examples = make([]any, len(js.Examples))
-		copy(newJs.Examples, js.Examples)
+	if js.Examples != nil {
+		newJs.Examples = deepCopyValues(js.Examples)
 	}
 
-	if len(js.Enum) > 0 {
-		newJs.Enum = make([]any, len(js.Enum))
-		copy(newJs.Enum, js.Enum)
+	if js.Enum != nil {
+		newJs.Enum = deepCopyValues(js.Enum)
 	}
 
-	if len(js.AnyOf) > 0 {
+	newJs.Const = deepCopyValue(js.Const)
+	newJs.Default = deepCopyValue(js.Default)
+
+	newJs.AdditionalProperties = copyPtr(js.AdditionalProperties)
+	newJs.UniqueItems = copyPtr(js.UniqueItems)
+	newJs.MaxLength = copyPtr(js.MaxLength)
+	newJs.MinLength = copyPtr(js.MinLength)
+	newJs.MaxItems = copyPtr(js.MaxItems)
+	newJs.MinItems = copyPtr(js.MinItems)
+	newJs.MaxContains = copyPtr(js.MaxContains)
+	newJs.MinContains = copyPtr(js.MinContains)
+	newJs.MaxProperties = copyPtr(js.MaxProperties)
+	newJs.MinProperties = copyPtr(js.MinProperties)
+
+	if js.AnyOf != nil {
 		newJs.AnyOf = make([]T, len(js.AnyOf))
 		for i, v := range js.AnyOf {
 			newJs.AnyOf[i] = v.DeepCopy()
 		}
 	}
 
-	if len(js.AllOf) > 0 {
+	if js.AllOf != nil {
 		newJs.AllOf = make([]T, len(js.AllOf))
 		for i, v := range js.AllOf {
 			newJs.AllOf[i] = v.DeepCopy()
 		}
 	}
 
-	if (len(js.OneOf)) > 0 {
+	if js.OneOf != nil {
 		newJs.OneOf = make([]T, len(js.OneOf))
 		for i, v := range js.OneOf {
 			newJs.OneOf[i] = v.DeepCopy()
@@ -141,21 +153,21 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 	newJs.Items = js.Items.DeepCopy()
 	newJs.PropertyNames = js.PropertyNames.DeepCopy()
 
-	if js.Properties.Len() > 0 {
+	if js.Properties != nil {
 		newJs.Properties = orderedmap.New[string, T](js.Properties.Len())
 		for p := js.Properties.Oldest(); p != nil; p = p.Next() {
 			newJs.Properties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if js.PatternProperties.Len() > 0 {
+	if js.PatternProperties != nil {
 		newJs.PatternProperties = orderedmap.New[string, T](js.PatternProperties.Len())
 		for p := js.PatternProperties.Oldest(); p != nil; p = p.Next() {
 			newJs.PatternProperties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if len(js.Definitions) > 0 {
+	if js.Definitions != nil {
 		newJs.Definitions = make(map[string]T, len(js.Definitions))
 		for k, v := range js.Definitions {
 			newJs.Definitions[k] = v.DeepCopy()
@@ -425,7 +437,7 @@ func (js *JSONSchemaRAML) DeepCopy() *JSONSchemaRAML {
 	if js.Annotations != nil {
 		newJs.Annotations = orderedmap.New[string, any](js.Annotations.Len())
 		for p := js.Annotations.Oldest(); p != nil; p = p.Next() {
-			newJs.Annotations.Set(p.Key, p.Value)
+			newJs.Annotations.Set(p.Key, deepCopyValue(p.Value))
 		}
 	}
 	if js.FacetDefinitions != nil {
@@ -437,7 +449,7 @@ func (js *JSONSchemaRAML) DeepCopy() *JSONSchemaRAML {
 	if js.FacetData != nil {
 		newJs.FacetData = orderedmap.New[string, any](js.FacetData.Len())
 		for p := js.FacetData.Oldest(); p != nil; p = p.Next() {
-			newJs.FacetData.Set(p.Key, p.Value)
+			newJs.FacetData.Set(p.Key, deepCopyValue(p.Value))
 		}
 	}
 	return newJs
@@ -517,3 +529,41 @@ func boolPtr(p *bool) any {
 	}
 	return *p
 }
+
+func copyPtr[T any](p *T) *T {
+	if p == nil {
+		return nil
+	}
+	v := *p
+	return &v
+}
+
+// deepCopyValue creates a deep copy of a decoded JSON or YAML value.
+func deepCopyValue(v any) any {
+	switch v := v.(type) {
+	case map[string]any:
+		if v == nil {
+			return v
+		}
+		m := make(map[string]any, len(v))
+		for k, item := range v {
+			m[k] = deepCopyValue(item)
+		}
+		return m
+	case []any:
+		if v == nil {
+			return v
+		}
+		return deepCopyValues(v)
+	default:
+		return v
+	}
+}
+
+func deepCopyValues(values []any) []any {
+	c := make([]any, len(values))
+	for i, item := range values {
+		c[i] = deepCopyValue(item)
+	}
+	return c
+}
-- 
2.43.0


From c188badc92bb8b8fc820604c141efb8e94744066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 23/59] fix: include empty maps of a JSON schema in its Map

---
 schema.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/schema.go b/schema.go
index f915f96..5e110fc 100644
--- a/schema.go
+++ b/schema.go
@@ -330,14 +330,14 @@ func (js *JSONSchemaGeneric[T]) Map() map[string]any {
 		out["items"] = v
 	}
 
-	if js.Properties.Len() > 0 {
+	if js.Properties != nil {
 		o := make(map[string]any, js.Properties.Len())
 		for el := js.Properties.Oldest(); el != nil; el = el.Next() {
 			o[el.Key] = el.Value.Map()
 		}
 		out["properties"] = o
 	}
-	if js.PatternProperties.Len() > 0 {
+	if js.PatternProperties != nil {
 		o := make(map[string]any, js.PatternProperties.Len())
 		for el := js.PatternProperties.Oldest(); el != nil; el = el.Next() {
 			o[el.Key] = el.Value.Map()
@@ -460,21 +460,21 @@ func (js *JSONSchemaRAML) Map() map[string]any {
 		return nil
 	}
 	m := js.JSONSchemaGeneric.Map()
-	if js.Annotations != nil && js.Annotations.Len() > 0 {
+	if js.Annotations != nil {
 		annotations := make(map[string]any, js.Annotations.Len())
 		for p := js.Annotations.Oldest(); p != nil; p = p.Next() {
 			annotations[p.Key] = p.Value
 		}
 		m["x-annotations"] = annotations
 	}
-	if js.FacetDefinitions != nil && js.FacetDefinitions.Len() > 0 {
+	if js.FacetDefinitions != nil {
 		facetDefs := make(map[string]any, js.FacetDefinitions.Len())
 		for p := js.FacetDefinitions.Oldest(); p != nil; p = p.Next() {
 			facetDefs[p.Key] = p.Value.Map()
 		}
 		m["x-facet-definitions"] = facetDefs
 	}
-	if js.FacetData != nil && js.FacetData.Len() > 0 {
+	if js.FacetData != nil {
 		facetData := make(map[string]any, js.FacetData.Len())
 		for p := js.FacetData.Oldest(); p != nil; p = p.Next() {
 			facetData[p.Key] = p.Value
-- 
2.43.0


From 8d6e08393853b399f0d3d9390d08a6bdb59c9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:07 +0000
Subject: [PATCH 24/59] fix: validate and convert examples included from a
 NamedExample fragment

---
 jsonschemaconv.go | 2 +-
 shape.go          | 8 ++++++++
 validate.go       | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 675dfab..d9e8016 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -531,7 +531,7 @@ func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
 		core.Default = base.Default.Value
 	}
 	if base.Examples != nil {
-		for pair := base.Examples.Map.Oldest(); pair != nil; pair = pair.Next() {
+		for pair := base.Examples.values().Oldest(); pair != nil; pair = pair.Next() {
 			ex := pair.Value
 			core.Examples = append(core.Examples, ex.Data.Value)
 		}
diff --git a/shape.go b/shape.go
index 5ac9319..83672ce 100644
--- a/shape.go
+++ b/shape.go
@@ -468,6 +468,14 @@ type Examples struct {
 	stacktrace.Position
 }
 
+// values returns the examples, either own or included from NamedExample fragment.
+func (e *Examples) values() *orderedmap.OrderedMap[string, *Example] {
+	if e.Link != nil {
+		return e.Link.Map
+	}
+	return e.Map
+}
+
 // ShapeBaser is the interface that represents a retriever of a base shape.
 type ShapeBaser interface {
 	Base() *BaseShape
diff --git a/validate.go b/validate.go
index b8e1f29..9fcafe0 100644
--- a/validate.go
+++ b/validate.go
@@ -311,7 +311,7 @@ func (r *RAML) validateExamples(base *BaseShape) error {
 		}
 	}
 	if base.Examples != nil {
-		for pair := base.Examples.Map.Oldest(); pair != nil; pair = pair.Next() {
+		for pair := base.Examples.values().Oldest(); pair != nil; pair = pair.Next() {
 			ex := pair.Value
 			if err := base.Validate(ex.Data.Value); err != nil {
 				return StacktraceNewWrapped("validate example", err, ex.Location,
-- 
2.43.0


From 5e07352ba809f5837af976d11f70a9388a062109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 25/59] fix: convert file types without usable media types
 instead of panicking

---
 jsonschemaconv.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index d9e8016..750fc19 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -261,12 +261,11 @@ func (c *JSONSchemaConverter[T]) VisitFileShape(s *FileShape) T {
 	schema.ContentEncoding = "base64"
 
 	// TODO: JSON Schema allows for only one content media type
-	if s.FileTypes != nil {
-		maybeStr, ok := s.FileTypes[0].Value.(string)
-		if !ok {
-			panic("file type must be a string")
+	if len(s.FileTypes) > 0 {
+		// NOTE: Types that are not validated may have a value of another type.
+		if mediaType, ok := s.FileTypes[0].Value.(string); ok {
+			schema.ContentMediaType = mediaType
 		}
-		schema.ContentMediaType = maybeStr
 	}
 	return node
 }
-- 
2.43.0


From c84414e3d98e3b657616f3c2185d1b3fc0e16bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 26/59] fix: process fragments in the same order on every run

---
 raml.go     | 15 +++++++++++++++
 unwrap.go   |  4 ++--
 validate.go |  2 +-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/raml.go b/raml.go
index 8026cb8..fbe1a56 100644
--- a/raml.go
+++ b/raml.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"sort"
 )
 
 type HookKey string
@@ -212,6 +213,20 @@ func (r *RAML) PutFragment(location string, fragment Fragment) {
 	}
 }
 
+// sortedFragments returns all fragments ordered by their locations.
+func (r *RAML) sortedFragments() []Fragment {
+	locations := make([]string, 0, len(r.fragmentsCache))
+	for location := range r.fragmentsCache {
+		locations = append(locations, location)
+	}
+	sort.Strings(locations)
+	fragments := make([]Fragment, len(locations))
+	for i, location := range locations {
+		fragments[i] = r.fragmentsCache[location]
+	}
+	return fragments
+}
+
 // removeFragment removes the fragment unless its location belongs to another fragment.
 func (r *RAML) removeFragment(location string, fragment Fragment) {
 	if r.fragmentsCache[location] == fragment {
diff --git a/unwrap.go b/unwrap.go
index 430c2fb..1547dd0 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -76,7 +76,7 @@ func (r *RAML) unwrapDataType(f *DataType) *stacktrace.StackTrace {
 
 func (r *RAML) unwrapFragments() *stacktrace.StackTrace {
 	var st *stacktrace.StackTrace
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.sortedFragments() {
 		switch f := frag.(type) {
 		case *Library:
 			se := r.unwrapLibrary(f)
@@ -146,7 +146,7 @@ func (r *RAML) UnwrapShapes() error {
 // markShapeRecursions marks recursive shapes by replacing the beginning of recursion with RecursiveShape in the RAML.
 func (r *RAML) markShapeRecursions() error {
 	// TODO: Maybe count shapes here?
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.sortedFragments() {
 		switch f := frag.(type) {
 		case *Library:
 			for pair := f.AnnotationTypes.Oldest(); pair != nil; pair = pair.Next() {
diff --git a/validate.go b/validate.go
index 9fcafe0..fe23e29 100644
--- a/validate.go
+++ b/validate.go
@@ -136,7 +136,7 @@ func (r *RAML) validateFragments(unwrapCache map[int64]*BaseShape) *stacktrace.S
 		return StacktraceNewWrapped("handle step", err, r.GetLocation())
 	}
 	var st *stacktrace.StackTrace
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.sortedFragments() {
 		switch f := frag.(type) {
 		case *Library:
 			if err := r.validateLibrary(f, unwrapCache); err != nil {
-- 
2.43.0


From 0e076ceddfeaacca3e7e6d6a638c1c828830e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:38 +0000
Subject: [PATCH 27/59] fix: do not modify hooks of other instances when hooks
 are added or removed

---
 raml.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raml.go b/raml.go
index fbe1a56..ee9df22 100644
--- a/raml.go
+++ b/raml.go
@@ -62,7 +62,8 @@ func (r *RAML) setHooks(key HookKey, hooks []HookFunc) {
 
 func (r *RAML) AppendHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
-	hooks = append(hooks, hook)
+	// Hooks may be shared with the parent context and with the call in progress.
+	hooks = append(hooks[:len(hooks):len(hooks)], hook)
 	r.setHooks(key, hooks)
 }
 
@@ -76,7 +77,7 @@ func (r *RAML) RemoveHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
 	for i, h := range hooks {
 		if reflect.ValueOf(h).Pointer() == reflect.ValueOf(hook).Pointer() {
-			hooks = append(hooks[:i], hooks[i+1:]...)
+			hooks = append(hooks[:i:i], hooks[i+1:]...)
 			break
 		}
 	}
-- 
2.43.0


From ff6feaf6dcef3c63417ddfd68a832791e662131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 28/59] fix: fail the validate command if any of the files is
 invalid

---
 cmd/raml/validate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/raml/validate.go b/cmd/raml/validate.go
index b20bdb9..2e5ccd3 100644
--- a/cmd/raml/validate.go
+++ b/cmd/raml/validate.go
@@ -27,21 +27,22 @@ func NewValidateCmd(opts ValidateOptions, args []string) *ValidateCommand {
 }
 
 func (v ValidateCommand) Execute(ctx context.Context) error {
-	var err error
+	var hasErrors bool
 	var stOpts []stacktrace.TracesOpt
 	if v.Opts.EnsureDuplicates {
 		stOpts = append(stOpts, stacktrace.WithEnsureDuplicates())
 	}
 	for _, arg := range v.Args {
 		slog.Info("Validating RAML...", slog.String("path", arg))
-		_, err = raml.ParseFromPathCtx(ctx, arg, raml.OptWithUnwrap(), raml.OptWithValidate())
+		_, err := raml.ParseFromPathCtx(ctx, arg, raml.OptWithUnwrap(), raml.OptWithValidate())
 		if err != nil {
+			hasErrors = true
 			slog.Error("RAML is invalid", slogex.ErrToSlogAttr(err, stOpts...))
 		} else {
 			slog.Info("RAML is valid", slog.String("path", arg))
 		}
 	}
-	if err != nil {
+	if hasErrors {
 		return fmt.Errorf("errors have been found in the RAML files")
 	}
 	return nil
-- 
2.43.0


From 3e7e757a4ef24bee7edf582940cc8894d8eb6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 29/59] fix: accept and apply the ensure-duplicates flag of the
 validate command

---
 cmd/raml/raml.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/raml/raml.go b/cmd/raml/raml.go
index 6797873..1fe65b3 100644
--- a/cmd/raml/raml.go
+++ b/cmd/raml/raml.go
@@ -57,14 +57,14 @@ func mainFn() int {
 	defer stop()
 
 	cmdValidate := func() *cobra.Command {
-		opts := ValidateOptions{
-			EnsureDuplicates: ensureDuplicates,
-		}
 		cmd := &cobra.Command{
 			Use:   "validate",
 			Short: "validate raml files",
 			Args:  cobra.MinimumNArgs(1),
 			RunE: func(_ *cobra.Command, args []string) error {
+				opts := ValidateOptions{
+					EnsureDuplicates: ensureDuplicates,
+				}
 				return InitLoggingAndRun(ctx, verbosity, NewValidateCmd(opts, args))
 			},
 		}
@@ -84,7 +84,7 @@ func mainFn() int {
 		}
 
 		cmd.PersistentFlags().CountVarP(&verbosity, "verbosity", "v", "increase verbosity level: -v for debug")
-		cmd.Flags().BoolVarP(&ensureDuplicates, "ensure-duplicates", "d", false,
+		cmd.PersistentFlags().BoolVarP(&ensureDuplicates, "ensure-duplicates", "d", false,
 			"ensure that there are no duplicates in tracebacks")
 
 		cmd.AddCommand(
-- 
2.43.0


From da68b0b7c7fb70c90972da9f8ebf77097afd4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:44 +0000
Subject: [PATCH 30/59] fix: narrow a type derived from a union in-place

---
 shape.go | 56 +++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/shape.go b/shape.go
index 83672ce..94b01cf 100644
--- a/shape.go
+++ b/shape.go
@@ -233,29 +233,37 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInheritUnionSource, sourceUnion); err != nil {
 		return nil, err
 	}
-	var filtered []*BaseShape
-	var st *stacktrace.StackTrace
+	var candidates []*BaseShape
 	for _, source := range sourceUnion.AnyOf {
 		// If at least one union member has any type, the whole union is considered as any type.
 		if _, ok := source.Shape.(*AnyShape); ok {
 			return s, nil
 		}
 		if source.Type == s.Type {
-			// Copy with ID change is required since we create new union members from source members
-			is, err := s.inheritCopy(source)
-			if err != nil {
-				se := StacktraceNewWrapped("merge shapes", err, s.Location,
-					stacktrace.WithPosition(&s.Position))
-				if st == nil {
-					st = se
-				} else {
-					st = st.Append(se)
-				}
-				// Skip shapes that didn't pass inheritance check
-				continue
+			candidates = append(candidates, source)
+		}
+	}
+	if len(candidates) == 1 {
+		return s.inheritUnionMember(candidates[0])
+	}
+	var filtered, sources []*BaseShape
+	var st *stacktrace.StackTrace
+	for _, source := range candidates {
+		// Copy with ID change is required since we create new union members from source members
+		is, err := s.inheritCopy(source)
+		if err != nil {
+			se := StacktraceNewWrapped("merge shapes", err, s.Location,
+				stacktrace.WithPosition(&s.Position))
+			if st == nil {
+				st = se
+			} else {
+				st = st.Append(se)
 			}
-			filtered = append(filtered, is)
+			// Skip shapes that didn't pass inheritance check
+			continue
 		}
+		filtered = append(filtered, is)
+		sources = append(sources, source)
 	}
 	if len(filtered) == 0 {
 		se := StacktraceNew("failed to find compatible union member", s.Location,
@@ -265,9 +273,10 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		}
 		return nil, se
 	}
-	// If only one union member remains - simplify to target type
+	// If only one union member remains - simplify to target type.
+	// The target is updated in-place since other shapes may refer to it.
 	if len(filtered) == 1 {
-		return filtered[0], nil
+		return s.inheritUnionMember(sources[0])
 	}
 	// Convert target to union
 	s.Type = TypeUnion
@@ -280,6 +289,19 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	return s, nil
 }
 
+// inheritUnionMember merges the only compatible union member into the shape in-place.
+func (s *BaseShape) inheritUnionMember(member *BaseShape) (*BaseShape, error) {
+	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, member); err != nil {
+		return nil, err
+	}
+	is, err := s.inheritFrom(member, s)
+	if err != nil {
+		return nil, StacktraceNewWrapped("merge shapes", err, s.Location,
+			stacktrace.WithPosition(&s.Position))
+	}
+	return is, nil
+}
+
 const HookBeforeBaseShapeInheritUnionTarget = "BaseShape.inheritUnionTarget"
 
 // inheritUnionTarget merges the shape into every member of the target union.
-- 
2.43.0


From 333739d9a9699c48c52fe2924023fa34edbc902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 31/59] fix: complete overrides of recursive types after the
 types are unwrapped

---
 shape.go  | 20 +++++++++++++++++++-
 unwrap.go | 51 ++++++++++++++++++++++++++++++---------------------
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/shape.go b/shape.go
index 94b01cf..4bda640 100644
--- a/shape.go
+++ b/shape.go
@@ -155,7 +155,19 @@ func (s *BaseShape) inheritCopy(sourceBase *BaseShape) (*BaseShape, error) {
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, sourceBase); err != nil {
 		return nil, err
 	}
-	return s.copyForInherit().inheritFrom(sourceBase, s)
+	c := s.copyForInherit()
+	if s.raml != nil {
+		// The copy must be made again if the shape or the source is not completely unwrapped yet.
+		s.raml.postponeIncomplete(c, []*BaseShape{s, sourceBase}, func() error {
+			id := c.ID
+			*c = *s.copyForInherit()
+			c.ID = id
+			c.SetShape(c.Shape.cloneShallow(c))
+			_, err := c.inheritFrom(sourceBase, s)
+			return err
+		})
+	}
+	return c.inheritFrom(sourceBase, s)
 }
 
 // copyForInherit creates a copy of the shape that does not share any mutable state with the original shape
@@ -294,6 +306,12 @@ func (s *BaseShape) inheritUnionMember(member *BaseShape) (*BaseShape, error) {
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, member); err != nil {
 		return nil, err
 	}
+	if s.raml != nil && member.incomplete {
+		s.raml.postponeIncomplete(s, []*BaseShape{member}, func() error {
+			_, err := s.inheritFrom(member, s)
+			return err
+		})
+	}
 	is, err := s.inheritFrom(member, s)
 	if err != nil {
 		return nil, StacktraceNewWrapped("merge shapes", err, s.Location,
diff --git a/unwrap.go b/unwrap.go
index 1547dd0..b0686a2 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -427,32 +427,41 @@ func (r *RAML) postponeIncomplete(base *BaseShape, sources []*BaseShape, update
 
 // completeShapes updates all postponed shapes after their sources are updated.
 func (r *RAML) completeShapes() error {
-	shapes := r.incompleteShapes
-	r.incompleteShapes = nil
-
-	postponed := make(map[*BaseShape]*incompleteShape, len(shapes))
-	for _, shape := range shapes {
-		postponed[shape.base] = shape
-	}
-	var complete func(base *BaseShape) error
-	complete = func(base *BaseShape) error {
-		shape, ok := postponed[base]
-		if !ok {
+	// Updates may postpone the shapes created in the process.
+	for len(r.incompleteShapes) > 0 {
+		shapes := r.incompleteShapes
+		r.incompleteShapes = nil
+
+		postponed := make(map[*BaseShape][]*incompleteShape, len(shapes))
+		for _, shape := range shapes {
+			postponed[shape.base] = append(postponed[shape.base], shape)
+		}
+		var complete func(base *BaseShape) error
+		complete = func(base *BaseShape) error {
+			updates := postponed[base]
+			delete(postponed, base)
+			for _, shape := range updates {
+				for _, source := range shape.sources {
+					if err := complete(source); err != nil {
+						return err
+					}
+				}
+			}
+			if len(updates) > 0 {
+				base.incomplete = false
+			}
+			for _, shape := range updates {
+				if err := shape.update(); err != nil {
+					return err
+				}
+			}
 			return nil
 		}
-		delete(postponed, base)
-		for _, source := range shape.sources {
-			if err := complete(source); err != nil {
+		for _, shape := range shapes {
+			if err := complete(shape.base); err != nil {
 				return err
 			}
 		}
-		base.incomplete = false
-		return shape.update()
-	}
-	for _, shape := range shapes {
-		if err := complete(shape.base); err != nil {
-			return err
-		}
 	}
 	return nil
 }
-- 
2.43.0


From 5acdf62bef951b2235ed465bd397f3d59af31d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:17 +0000
Subject: [PATCH 32/59] fix: check the types of custom facet definitions

---
 validate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validate.go b/validate.go
index fe23e29..b406832 100644
--- a/validate.go
+++ b/validate.go
@@ -289,6 +289,10 @@ func (r *RAML) validateShapeCommons(s *BaseShape) error {
 	// Validate trait definition shapes
 	for pair := s.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
 		facetDef := pair.Value
+		if err := facetDef.Base.Check(); err != nil {
+			return StacktraceNewWrapped("check custom facet definition", err, facetDef.Base.Location,
+				stacktrace.WithPosition(&facetDef.Base.Position), stacktrace.WithInfo("facet", pair.Key))
+		}
 		if err := r.validateShapeCommons(facetDef.Base); err != nil {
 			return StacktraceNewWrapped("validate custom facet definition", err, facetDef.Base.Location,
 				stacktrace.WithPosition(&facetDef.Base.Position), stacktrace.WithInfo("facet", pair.Key))
-- 
2.43.0


From 63a54ae1a6e88e6765d3a51aa77df88a59ba3ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 33/59] fix: do not copy the visited mark of a shape that is
 being merged

---
 shape.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/shape.go b/shape.go
index 4bda640..0784dc5 100644
--- a/shape.go
+++ b/shape.go
@@ -159,9 +159,9 @@ func (s *BaseShape) inheritCopy(sourceBase *BaseShape) (*BaseShape, error) {
 	if s.raml != nil {
 		// The copy must be made again if the shape or the source is not completely unwrapped yet.
 		s.raml.postponeIncomplete(c, []*BaseShape{s, sourceBase}, func() error {
-			id := c.ID
+			id, visited, inheritors := c.ID, c.ShapeVisited, c.inheritors
 			*c = *s.copyForInherit()
-			c.ID = id
+			c.ID, c.ShapeVisited, c.inheritors = id, visited, inheritors
 			c.SetShape(c.Shape.cloneShallow(c))
 			_, err := c.inheritFrom(sourceBase, s)
 			return err
@@ -177,6 +177,9 @@ func (s *BaseShape) copyForInherit() *BaseShape {
 	if s.raml != nil {
 		c.ID = s.raml.generateShapeID()
 	}
+	// The original may be in the middle of a merge.
+	c.ShapeVisited = false
+	c.inheritors = nil
 	if obj, ok := c.Shape.(*ObjectShape); ok {
 		obj.ownProperties()
 	}
-- 
2.43.0


From 3152557492a7da40f1e655496ae57c221d3fd349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 34/59] fix: accept unions that keep only some of the inherited
 alternatives

---
 complex.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/complex.go b/complex.go
index 6c31ea8..326c631 100644
--- a/complex.go
+++ b/complex.go
@@ -912,9 +912,13 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 	}
 	// TODO: Implement enum facets inheritance
 	var finalFiltered []*BaseShape
-	for _, sourceMember := range ss.AnyOf {
+	for _, targetMember := range s.AnyOf {
 		var filtered []*BaseShape
-		for _, targetMember := range s.AnyOf {
+		for _, sourceMember := range ss.AnyOf {
+			// If at least one union member has any type, the whole union is considered as any type.
+			if _, ok := sourceMember.Shape.(*AnyShape); ok {
+				return s, nil
+			}
 			if sourceMember.Type == targetMember.Type {
 				// Copy is required to avoid modifying the original target member shape.
 				ms, err := targetMember.inheritCopy(sourceMember)
-- 
2.43.0


From fa66e7c9fdf0b268e36c387821af0657cb3d918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 35/59] fix: repeat merges of recursive types from the declared
 state

---
 shape.go  | 15 +++++++++++----
 unwrap.go | 10 ++++++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/shape.go b/shape.go
index 0784dc5..8011665 100644
--- a/shape.go
+++ b/shape.go
@@ -159,10 +159,7 @@ func (s *BaseShape) inheritCopy(sourceBase *BaseShape) (*BaseShape, error) {
 	if s.raml != nil {
 		// The copy must be made again if the shape or the source is not completely unwrapped yet.
 		s.raml.postponeIncomplete(c, []*BaseShape{s, sourceBase}, func() error {
-			id, visited, inheritors := c.ID, c.ShapeVisited, c.inheritors
-			*c = *s.copyForInherit()
-			c.ID, c.ShapeVisited, c.inheritors = id, visited, inheritors
-			c.SetShape(c.Shape.cloneShallow(c))
+			c.restore(s)
 			_, err := c.inheritFrom(sourceBase, s)
 			return err
 		})
@@ -186,6 +183,14 @@ func (s *BaseShape) copyForInherit() *BaseShape {
 	return c
 }
 
+// restore replaces the contents of the shape with the contents of a copy that was made before a merge.
+func (s *BaseShape) restore(original *BaseShape) {
+	id, visited, inheritors, incomplete := s.ID, s.ShapeVisited, s.inheritors, s.incomplete
+	*s = *original.copyForInherit()
+	s.ID, s.ShapeVisited, s.inheritors, s.incomplete = id, visited, inheritors, incomplete
+	s.SetShape(s.Shape.cloneShallow(s))
+}
+
 // inheritFrom merges the source into the shape, where the original is the shape that was declared as the target.
 func (s *BaseShape) inheritFrom(sourceBase *BaseShape, original *BaseShape) (*BaseShape, error) {
 	visited := sourceBase.ShapeVisited
@@ -310,7 +315,9 @@ func (s *BaseShape) inheritUnionMember(member *BaseShape) (*BaseShape, error) {
 		return nil, err
 	}
 	if s.raml != nil && member.incomplete {
+		original := s.copyForInherit()
 		s.raml.postponeIncomplete(s, []*BaseShape{member}, func() error {
+			s.restore(original)
 			_, err := s.inheritFrom(member, s)
 			return err
 		})
diff --git a/unwrap.go b/unwrap.go
index b0686a2..99afbc9 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -561,7 +561,14 @@ func (r *RAML) unwrapBaseShape(base *BaseShape) (*BaseShape, error) {
 		base.CustomShapeFacetDefinitions.Set(pair.Key, prop)
 	}
 
+	var original *BaseShape
 	if len(parents) > 0 {
+		for _, parent := range parents {
+			if parent.incomplete {
+				original = base.copyForInherit()
+				break
+			}
+		}
 		// Base shape inherits properties of the source shape in-place.
 		is, errInherit := r.inheritParents(base, parents)
 		if errInherit != nil {
@@ -570,6 +577,9 @@ func (r *RAML) unwrapBaseShape(base *BaseShape) (*BaseShape, error) {
 		base = is
 	}
 	r.postponeIncomplete(base, parents, func() error {
+		if original != nil {
+			base.restore(original)
+		}
 		_, errInherit := r.inheritParents(base, parents)
 		return errInherit
 	})
-- 
2.43.0


From bf5daf1147ee628dca6cdb3a093f39ee08bed20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 36/59] fix: clone the head of recursive shapes

---
 complex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 326c631..259830d 100644
--- a/complex.go
+++ b/complex.go
@@ -1085,9 +1085,12 @@ func (s *RecursiveShape) cloneShallow(base *BaseShape) Shape {
 	return &c
 }
 
-func (s *RecursiveShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
+func (s *RecursiveShape) clone(base *BaseShape, clonedMap map[int64]*BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	if c.Head != nil {
+		c.Head = c.Head.clone(clonedMap)
+	}
 	return &c
 }
 
-- 
2.43.0


From 636f4fab7071d58e8561d2d16dc3b73504af0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:01 +0000
Subject: [PATCH 37/59] fix: visit shared types once when types are marked,
 checked and validated

---
 complex.go  | 32 ++++++++++++++++++++++++++------
 raml.go     |  2 ++
 shape.go    | 20 +++++++++++++++++++-
 unwrap.go   | 23 ++++++++++++++++++-----
 validate.go | 26 ++++++++++++++++++++------
 5 files changed, 85 insertions(+), 18 deletions(-)

diff --git a/complex.go b/complex.go
index 259830d..28ce62e 100644
--- a/complex.go
+++ b/complex.go
@@ -162,12 +162,16 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 }
 
 func (s *ArrayShape) check() error {
+	return s.checkOnce(make(map[*BaseShape]struct{}))
+}
+
+func (s *ArrayShape) checkOnce(visited map[*BaseShape]struct{}) error {
 	if s.MinItems != nil && s.MaxItems != nil && *s.MinItems > *s.MaxItems {
 		return StacktraceNew("minItems must be less than or equal to maxItems", s.Location,
 			stacktrace.WithPosition(&s.Position))
 	}
 	if s.Items != nil {
-		if err := s.Items.Check(); err != nil {
+		if err := s.Items.checkOnce(visited); err != nil {
 			return StacktraceNewWrapped("check items", err, s.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
@@ -655,6 +659,10 @@ func (s *ObjectShape) inherit(source Shape) (Shape, error) {
 }
 
 func (s *ObjectShape) checkPatternProperties() error {
+	return s.checkPatternPropertiesOnce(make(map[*BaseShape]struct{}))
+}
+
+func (s *ObjectShape) checkPatternPropertiesOnce(visited map[*BaseShape]struct{}) error {
 	if s.PatternProperties == nil {
 		return nil
 	}
@@ -668,7 +676,7 @@ func (s *ObjectShape) checkPatternProperties() error {
 	}
 	for pair := s.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 		prop := pair.Value
-		if err := prop.Base.Check(); err != nil {
+		if err := prop.Base.checkOnce(visited); err != nil {
 			return StacktraceNewWrapped("check pattern property", err, s.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("property", prop.Pattern.String()))
@@ -678,13 +686,17 @@ func (s *ObjectShape) checkPatternProperties() error {
 }
 
 func (s *ObjectShape) checkProperties() error {
+	return s.checkPropertiesOnce(make(map[*BaseShape]struct{}))
+}
+
+func (s *ObjectShape) checkPropertiesOnce(visited map[*BaseShape]struct{}) error {
 	if s.Properties == nil {
 		return nil
 	}
 
 	for pair := s.Properties.Oldest(); pair != nil; pair = pair.Next() {
 		prop := pair.Value
-		if err := prop.Base.Check(); err != nil {
+		if err := prop.Base.checkOnce(visited); err != nil {
 			return StacktraceNewWrapped("check property", err, s.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("property", prop.Name))
@@ -720,14 +732,18 @@ func (s *ObjectShape) checkProperties() error {
 }
 
 func (s *ObjectShape) check() error {
+	return s.checkOnce(make(map[*BaseShape]struct{}))
+}
+
+func (s *ObjectShape) checkOnce(visited map[*BaseShape]struct{}) error {
 	if s.MinProperties != nil && s.MaxProperties != nil && *s.MinProperties > *s.MaxProperties {
 		return StacktraceNew("minProperties must be less than or equal to maxProperties",
 			s.Location, stacktrace.WithPosition(&s.Position))
 	}
-	if err := s.checkPatternProperties(); err != nil {
+	if err := s.checkPatternPropertiesOnce(visited); err != nil {
 		return fmt.Errorf("check pattern properties: %w", err)
 	}
-	if err := s.checkProperties(); err != nil {
+	if err := s.checkPropertiesOnce(visited); err != nil {
 		return fmt.Errorf("check properties: %w", err)
 	}
 	if s.Discriminator != nil && s.Properties == nil {
@@ -941,8 +957,12 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 }
 
 func (s *UnionShape) check() error {
+	return s.checkOnce(make(map[*BaseShape]struct{}))
+}
+
+func (s *UnionShape) checkOnce(visited map[*BaseShape]struct{}) error {
 	for _, item := range s.AnyOf {
-		if err := item.Check(); err != nil {
+		if err := item.checkOnce(visited); err != nil {
 			return StacktraceNewWrapped("check union member", err, s.Location,
 				stacktrace.WithPosition(&item.Position))
 		}
diff --git a/raml.go b/raml.go
index ee9df22..1796463 100644
--- a/raml.go
+++ b/raml.go
@@ -30,6 +30,8 @@ type RAML struct {
 	// These facets are taken again when the outermost shape is unwrapped.
 	incompleteShapes []*incompleteShape
 	unwrapDepth      int
+	// Shapes that do not need to be visited again until the outermost search for recursions is finished.
+	recursionMarked map[*BaseShape]struct{}
 
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
diff --git a/shape.go b/shape.go
index 8011665..c4facd7 100644
--- a/shape.go
+++ b/shape.go
@@ -479,7 +479,25 @@ func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 
 // Check returns an error if type shape is invalid.
 func (s *BaseShape) Check() error {
-	return s.Shape.check()
+	return s.checkOnce(make(map[*BaseShape]struct{}))
+}
+
+// checkOnce checks the shape unless it has been visited: the same shape may be reached in many ways.
+func (s *BaseShape) checkOnce(visited map[*BaseShape]struct{}) error {
+	if _, ok := visited[s]; ok {
+		return nil
+	}
+	visited[s] = struct{}{}
+	switch shape := s.Shape.(type) {
+	case *ArrayShape:
+		return shape.checkOnce(visited)
+	case *ObjectShape:
+		return shape.checkOnce(visited)
+	case *UnionShape:
+		return shape.checkOnce(visited)
+	default:
+		return s.Shape.check()
+	}
 }
 
 // IsUnwrapped returns true if the shape is unwrapped.
diff --git a/unwrap.go b/unwrap.go
index 99afbc9..7730fbc 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -184,6 +184,14 @@ func (r *RAML) FindAndMarkRecursion(base *BaseShape) (*BaseShape, error) {
 		s.unwrapped = true
 		return s, nil
 	}
+	// Recursions that are reachable from the shape are already marked.
+	if _, ok := r.recursionMarked[base]; ok {
+		return nil, ErrNil
+	}
+	if r.recursionMarked == nil {
+		r.recursionMarked = make(map[*BaseShape]struct{})
+		defer func() { r.recursionMarked = nil }()
+	}
 	base.ShapeVisited = true
 
 	var err error
@@ -208,6 +216,7 @@ func (r *RAML) FindAndMarkRecursion(base *BaseShape) (*BaseShape, error) {
 	if err != nil {
 		return nil, err
 	}
+	r.recursionMarked[base] = struct{}{}
 
 	return nil, ErrNil
 }
@@ -272,12 +281,16 @@ func (r *RAML) findAndMarkRecursionInObjectShape(t *ObjectShape) error {
 
 // checkUnionRecursion reports a union that is its own member, directly or through other unions.
 // Such a union does not describe any value and cannot be validated against.
-func (r *RAML) checkUnionRecursion(t *UnionShape, visited map[*UnionShape]struct{}) error {
-	if _, ok := visited[t]; ok {
+// The visited unions are mapped to true while their members are being checked.
+func (r *RAML) checkUnionRecursion(t *UnionShape, visited map[*UnionShape]bool) error {
+	if inProgress, ok := visited[t]; ok {
+		if !inProgress {
+			return nil
+		}
 		return StacktraceNew("union is a member of itself", t.Location,
 			stacktrace.WithPosition(&t.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 	}
-	visited[t] = struct{}{}
+	visited[t] = true
 	for _, item := range t.AnyOf {
 		if u, ok := item.Shape.(*UnionShape); ok {
 			if err := r.checkUnionRecursion(u, visited); err != nil {
@@ -285,12 +298,12 @@ func (r *RAML) checkUnionRecursion(t *UnionShape, visited map[*UnionShape]struct
 			}
 		}
 	}
-	delete(visited, t)
+	visited[t] = false
 	return nil
 }
 
 func (r *RAML) findAndMarkRecursionInUnionShape(t *UnionShape) error {
-	if err := r.checkUnionRecursion(t, make(map[*UnionShape]struct{})); err != nil {
+	if err := r.checkUnionRecursion(t, make(map[*UnionShape]bool)); err != nil {
 		return fmt.Errorf("check union recursion: %w", err)
 	}
 	for i, item := range t.AnyOf {
diff --git a/validate.go b/validate.go
index b406832..314e0c2 100644
--- a/validate.go
+++ b/validate.go
@@ -228,13 +228,17 @@ func (r *RAML) ValidateShapes() error {
 const HookBeforeValidateObjectShape HookKey = "RAML.validateObjectShape"
 
 func (r *RAML) validateObjectShape(s *ObjectShape) error {
+	return r.validateObjectShapeOnce(s, make(map[*BaseShape]struct{}))
+}
+
+func (r *RAML) validateObjectShapeOnce(s *ObjectShape, visited map[*BaseShape]struct{}) error {
 	if err := r.callHooks(HookBeforeValidateObjectShape, s); err != nil {
 		return err
 	}
 	if s.Properties != nil {
 		for pair := s.Properties.Oldest(); pair != nil; pair = pair.Next() {
 			base := pair.Value.Base
-			if err := r.validateShapeCommons(base); err != nil {
+			if err := r.validateShapeCommonsOnce(base, visited); err != nil {
 				return StacktraceNewWrapped("validate property", err, base.Location,
 					stacktrace.WithPosition(&base.Position), stacktrace.WithInfo("property", pair.Key))
 			}
@@ -243,7 +247,7 @@ func (r *RAML) validateObjectShape(s *ObjectShape) error {
 	if s.PatternProperties != nil {
 		for pair := s.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 			base := pair.Value.Base
-			if err := r.validateShapeCommons(base); err != nil {
+			if err := r.validateShapeCommonsOnce(base, visited); err != nil {
 				return StacktraceNewWrapped("validate pattern property", err, base.Location,
 					stacktrace.WithPosition(&base.Position), stacktrace.WithInfo("property", pair.Key))
 			}
@@ -255,6 +259,16 @@ func (r *RAML) validateObjectShape(s *ObjectShape) error {
 const HookBeforeValidateShapeCommons HookKey = "RAML.validateShapeCommons"
 
 func (r *RAML) validateShapeCommons(s *BaseShape) error {
+	return r.validateShapeCommonsOnce(s, make(map[*BaseShape]struct{}))
+}
+
+// validateShapeCommonsOnce validates the shapes that have not been visited yet: the same shape may be reached in
+// many ways.
+func (r *RAML) validateShapeCommonsOnce(s *BaseShape, visited map[*BaseShape]struct{}) error {
+	if _, ok := visited[s]; ok {
+		return nil
+	}
+	visited[s] = struct{}{}
 	if err := r.callHooks(HookBeforeValidateShapeCommons, s); err != nil {
 		return err
 	}
@@ -267,19 +281,19 @@ func (r *RAML) validateShapeCommons(s *BaseShape) error {
 
 	switch shape := s.Shape.(type) {
 	case *ObjectShape:
-		if err := r.validateObjectShape(shape); err != nil {
+		if err := r.validateObjectShapeOnce(shape, visited); err != nil {
 			return fmt.Errorf("validate object shape: %w", err)
 		}
 	case *ArrayShape:
 		if shape.Items != nil {
-			if err := r.validateShapeCommons(shape.Items); err != nil {
+			if err := r.validateShapeCommonsOnce(shape.Items, visited); err != nil {
 				return StacktraceNewWrapped("validate items", err, shape.Base().Location,
 					stacktrace.WithPosition(&shape.Base().Position))
 			}
 		}
 	case *UnionShape:
 		for _, item := range shape.AnyOf {
-			if err := r.validateShapeCommons(item); err != nil {
+			if err := r.validateShapeCommonsOnce(item, visited); err != nil {
 				return StacktraceNewWrapped("validate union item", err, shape.Base().Location,
 					stacktrace.WithPosition(&shape.Base().Position))
 			}
@@ -293,7 +307,7 @@ func (r *RAML) validateShapeCommons(s *BaseShape) error {
 			return StacktraceNewWrapped("check custom facet definition", err, facetDef.Base.Location,
 				stacktrace.WithPosition(&facetDef.Base.Position), stacktrace.WithInfo("facet", pair.Key))
 		}
-		if err := r.validateShapeCommons(facetDef.Base); err != nil {
+		if err := r.validateShapeCommonsOnce(facetDef.Base, visited); err != nil {
 			return StacktraceNewWrapped("validate custom facet definition", err, facetDef.Base.Location,
 				stacktrace.WithPosition(&facetDef.Base.Position), stacktrace.WithInfo("facet", pair.Key))
 		}
-- 
2.43.0


From 98a0a1053c4763b3a430d02a5188832eb5fa2a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 38/59] fix: try each alternative of nested unions once

---
 complex.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 28ce62e..477fc1f 100644
--- a/complex.go
+++ b/complex.go
@@ -885,15 +885,28 @@ func (s *UnionShape) alias(source Shape) (Shape, error) {
 }
 
 func (s *UnionShape) validate(v interface{}, ctxPath string) error {
+	return s.validateOnce(v, ctxPath, make(map[*BaseShape]struct{}))
+}
+
+// validateOnce skips the members that have already rejected the value: unions may share their members.
+func (s *UnionShape) validateOnce(v interface{}, ctxPath string, rejected map[*BaseShape]struct{}) error {
 	st := StacktraceNew("value does not match any type", s.Location,
 		stacktrace.WithPosition(&s.Position))
 	var err error
 
 	for _, item := range s.AnyOf {
-		err = item.Shape.validate(v, ctxPath)
+		if _, ok := rejected[item]; ok {
+			continue
+		}
+		if union, ok := item.Shape.(*UnionShape); ok {
+			err = union.validateOnce(v, ctxPath, rejected)
+		} else {
+			err = item.Shape.validate(v, ctxPath)
+		}
 		if err == nil {
 			return nil
 		}
+		rejected[item] = struct{}{}
 		st = st.Append(
 			StacktraceNewWrapped(
 				"validate union member",
-- 
2.43.0


From 0de9b472ccc3dda425572d77b820287ccf06220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:49 +0000
Subject: [PATCH 39/59] fix: report fractional and negative sizes instead of
 truncating them

---
 complex.go |  8 ++++----
 node.go    | 15 +++++++++++++++
 scalars.go |  8 ++++----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/complex.go b/complex.go
index 477fc1f..86cb485 100644
--- a/complex.go
+++ b/complex.go
@@ -190,13 +190,13 @@ func (s *ArrayShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinItems:
-			if err := valueNode.Decode(&s.MinItems); err != nil {
+			if err := decodeUint(valueNode, &s.MinItems); err != nil {
 				return StacktraceNewWrapped("decode", err, s.Location,
 					WithNodePosition(valueNode),
 					stacktrace.WithInfo("facet", FacetMinItems))
 			}
 		case FacetMaxItems:
-			if err := valueNode.Decode(&s.MaxItems); err != nil {
+			if err := decodeUint(valueNode, &s.MaxItems); err != nil {
 				return StacktraceNewWrapped("decode", err, s.Location,
 					WithNodePosition(valueNode),
 					stacktrace.WithInfo("facet", FacetMaxItems))
@@ -298,13 +298,13 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 				stacktrace.WithInfo("facet", FacetDiscriminatorValue))
 		}
 	case FacetMinProperties:
-		if err := valueNode.Decode(&s.MinProperties); err != nil {
+		if err := decodeUint(valueNode, &s.MinProperties); err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
 				WithNodePosition(valueNode),
 				stacktrace.WithInfo("facet", FacetMinProperties))
 		}
 	case FacetMaxProperties:
-		if err := valueNode.Decode(&s.MaxProperties); err != nil {
+		if err := decodeUint(valueNode, &s.MaxProperties); err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
 				WithNodePosition(valueNode),
 				stacktrace.WithInfo("facet", FacetMaxProperties))
diff --git a/node.go b/node.go
index 728ab77..42921df 100644
--- a/node.go
+++ b/node.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"path/filepath"
 	"strings"
 
@@ -219,3 +220,17 @@ func yamlNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any,
 		return items, nil
 	}
 }
+
+// decodeUint decodes a non-negative integer. YAML decoder drops the fraction and the sign of floating point numbers.
+func decodeUint(node *yaml.Node, v **uint64) error {
+	if node.ShortTag() == "!!float" {
+		var f float64
+		if err := node.Decode(&f); err != nil {
+			return fmt.Errorf("decode number: %w", err)
+		}
+		if f < 0 || f != math.Trunc(f) {
+			return fmt.Errorf("value must be a non-negative integer")
+		}
+	}
+	return node.Decode(v)
+}
diff --git a/scalars.go b/scalars.go
index 9b72957..b5c40c5 100644
--- a/scalars.go
+++ b/scalars.go
@@ -665,11 +665,11 @@ func (s *StringShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinLength:
-			if err := valueNode.Decode(&s.MinLength); err != nil {
+			if err := decodeUint(valueNode, &s.MinLength); err != nil {
 				return StacktraceNewWrapped("decode minLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetMaxLength:
-			if err := valueNode.Decode(&s.MaxLength); err != nil {
+			if err := decodeUint(valueNode, &s.MaxLength); err != nil {
 				return StacktraceNewWrapped("decode maxLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetPattern:
@@ -819,11 +819,11 @@ func (s *FileShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinLength:
-			if err := valueNode.Decode(&s.MinLength); err != nil {
+			if err := decodeUint(valueNode, &s.MinLength); err != nil {
 				return StacktraceNewWrapped("decode minLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetMaxLength:
-			if err := valueNode.Decode(&s.MaxLength); err != nil {
+			if err := decodeUint(valueNode, &s.MaxLength); err != nil {
 				return StacktraceNewWrapped("decode maxLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetFileTypes:
-- 
2.43.0


From 8ae074a96f74bb1901bfd38570874f2a29fdea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:08 +0000
Subject: [PATCH 40/59] fix: report references through libraries that failed to
 load instead of panicking

---
 fragment.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fragment.go b/fragment.go
index 05750a4..b2ec04d 100644
--- a/fragment.go
+++ b/fragment.go
@@ -81,6 +81,9 @@ func (l *Library) GetReferenceType(refName string) (*BaseShape, error) {
 			if !ok {
 				return nil, fmt.Errorf("library \"%s\" not found", before)
 			}
+			if lib.Link == nil {
+				return nil, fmt.Errorf("library \"%s\" is not loaded", before)
+			}
 			rr, ok = lib.Link.Types.Get(after)
 			if !ok {
 				return nil, fmt.Errorf("reference \"%s\" not found", after)
@@ -115,6 +118,9 @@ func (l *Library) GetReferenceAnnotationType(refName string) (*BaseShape, error)
 			if !ok {
 				return nil, fmt.Errorf("library \"%s\" not found", before)
 			}
+			if lib.Link == nil {
+				return nil, fmt.Errorf("library \"%s\" is not loaded", before)
+			}
 			rr, ok = lib.Link.AnnotationTypes.Get(after)
 			if !ok {
 				return nil, fmt.Errorf("reference \"%s\" not found", after)
@@ -291,6 +297,9 @@ func (dt *DataType) GetReferenceType(refName string) (*BaseShape, error) {
 	if !ok {
 		return nil, fmt.Errorf("library \"%s\" not found", before)
 	}
+	if lib.Link == nil {
+		return nil, fmt.Errorf("library \"%s\" is not loaded", before)
+	}
 	ref, ok = lib.Link.Types.Get(after)
 	if !ok {
 		return nil, fmt.Errorf("reference \"%s\" not found", after)
@@ -314,6 +323,9 @@ func (dt *DataType) GetReferenceAnnotationType(refName string) (*BaseShape, erro
 	if !ok {
 		return nil, fmt.Errorf("library \"%s\" not found", before)
 	}
+	if lib.Link == nil {
+		return nil, fmt.Errorf("library \"%s\" is not loaded", before)
+	}
 	ref, ok = lib.Link.AnnotationTypes.Get(after)
 	if !ok {
 		return nil, fmt.Errorf("reference \"%s\" not found", after)
-- 
2.43.0


From 657c8f52c1eeaace96df8941cf3863df9c79b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:46 +0000
Subject: [PATCH 41/59] fix: use the clean path of the entry point

---
 parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index e4149fa..b01d760 100644
--- a/parse.go
+++ b/parse.go
@@ -354,7 +354,8 @@ func (r *RAML) ParseFromPath(path string, opts ...ParseOpt) error {
 		}
 	}(f)
 
-	return r.parseFragment(f, f.Name(), pOpts)
+	// Fragments that refer back to the entry point name it by its clean path.
+	return r.parseFragment(f, filepath.Clean(f.Name()), pOpts)
 }
 
 func (r *RAML) ParseFromString(content string, fileName string, baseDir string, opts ...ParseOpt) error {
-- 
2.43.0


From b07e74bbbd43844a83b1f0a8ddb5aee36125a4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:11 +0000
Subject: [PATCH 42/59] fix: resolve references in items and members of type
 expressions independently of the order of types

---
 complex.go     |  2 ++
 rdt_visitor.go | 25 ++++++++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/complex.go b/complex.go
index 86cb485..e0ea6b2 100644
--- a/complex.go
+++ b/complex.go
@@ -1058,6 +1058,8 @@ type UnknownShape struct {
 	facets []*yaml.Node
 	// Set while the shape is being resolved to detect types that are defined through themselves.
 	resolving bool
+	// Set if the shape is an anonymous item or member of a type expression.
+	nested bool
 }
 
 func (s *UnknownShape) Base() *BaseShape {
diff --git a/rdt_visitor.go b/rdt_visitor.go
index 110d51b..5998fe8 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -56,7 +56,7 @@ func (visitor *RdtVisitor) VisitUnionMembers(node antlr.RuleNode, target *Unknow
 		if err != nil {
 			return nil, fmt.Errorf("make union member: %w", err)
 		}
-		s, err := visitor.Visit(children[i].(antlr.ParseTree), implicitAnonShape.(*UnknownShape))
+		s, err := visitor.visitNested(children[i].(antlr.ParseTree), implicitAnonShape)
 		if err != nil {
 			return nil, fmt.Errorf("visit children: %w", err)
 		}
@@ -67,6 +67,16 @@ func (visitor *RdtVisitor) VisitUnionMembers(node antlr.RuleNode, target *Unknow
 	return shapes, nil
 }
 
+// visitNested resolves an anonymous item or member of the expression that is being visited.
+func (visitor *RdtVisitor) visitNested(tree antlr.ParseTree, shape Shape) (Shape, error) {
+	target, ok := shape.(*UnknownShape)
+	if !ok {
+		return nil, fmt.Errorf("unexpected shape type %T", shape)
+	}
+	target.nested = true
+	return visitor.Visit(tree, target)
+}
+
 func (visitor *RdtVisitor) VisitEntrypoint(ctx *rdt.EntrypointContext, target *UnknownShape) (Shape, error) {
 	return visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), target)
 }
@@ -101,7 +111,7 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	if err != nil {
 		return nil, fmt.Errorf("make optional member: %w", err)
 	}
-	s, err := visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), anonResolvedShape.(*UnknownShape))
+	s, err := visitor.visitNested(ctx.GetChildren()[0].(antlr.ParseTree), anonResolvedShape)
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
 	}
@@ -132,7 +142,7 @@ func (visitor *RdtVisitor) VisitArray(ctx *rdt.ArrayContext, target *UnknownShap
 	if err != nil {
 		return nil, fmt.Errorf("make array items: %w", err)
 	}
-	itemsShape, err = visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), itemsShape.(*UnknownShape))
+	itemsShape, err = visitor.visitNested(ctx.GetChildren()[0].(antlr.ParseTree), itemsShape)
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
 	}
@@ -178,6 +188,15 @@ func (visitor *RdtVisitor) VisitReference(ctx *rdt.ReferenceContext, target *Unk
 	if ref.ID == target.ID {
 		return nil, fmt.Errorf("self recursion %s", shapeType)
 	}
+	if _, ok := ref.Shape.(*UnknownShape); ok && target.nested {
+		// The referenced type may depend on the type that is being resolved, but that type does not depend on the kind
+		// of its items or members: resolve the reference later.
+		if _, err = visitor.raml.MakeConcreteShapeYAML(target.Base(), shapeType, target.facets); err != nil {
+			return nil, fmt.Errorf("make unresolved shape: %w", err)
+		}
+		visitor.raml.unresolvedShapes.PushBack(target.Base())
+		return target.Base().Shape, nil
+	}
 	if errResolveShape := visitor.raml.resolveShape(ref); errResolveShape != nil {
 		return nil, fmt.Errorf("resolve: %w", errResolveShape)
 	}
-- 
2.43.0


From 99b4afaeac266dce6a0a3d829bfb932a092029a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:45 +0000
Subject: [PATCH 43/59] fix: make merges of recursive types finite

---
 raml.go   |  2 ++
 shape.go  | 89 +++++++++++++++++++++++++++++++++++++++++++++++++++++--
 unwrap.go | 13 ++++++--
 3 files changed, 99 insertions(+), 5 deletions(-)

diff --git a/raml.go b/raml.go
index 1796463..57df51d 100644
--- a/raml.go
+++ b/raml.go
@@ -30,6 +30,8 @@ type RAML struct {
 	// These facets are taken again when the outermost shape is unwrapped.
 	incompleteShapes []*incompleteShape
 	unwrapDepth      int
+	// Merges of recursive types that were made since the outermost shape is being unwrapped.
+	merges *mergedShapes
 	// Shapes that do not need to be visited again until the outermost search for recursions is finished.
 	recursionMarked map[*BaseShape]struct{}
 
diff --git a/shape.go b/shape.go
index c4facd7..42cccef 100644
--- a/shape.go
+++ b/shape.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"path/filepath"
+	"strings"
 	"sync/atomic"
 
 	orderedmap "github.com/wk8/go-ordered-map/v2"
@@ -74,6 +75,8 @@ type BaseShape struct {
 	ShapeVisited bool
 	// Targets that are currently inheriting from this shape mapped to the result of the merge.
 	inheritors map[*BaseShape]*BaseShape
+	// Declared shapes that were merged into the shape by UnwrapShape, or nil if the shape is not a result of a merge.
+	origins []*BaseShape
 
 	raml *RAML
 
@@ -156,6 +159,27 @@ func (s *BaseShape) inheritCopy(sourceBase *BaseShape) (*BaseShape, error) {
 		return nil, err
 	}
 	c := s.copyForInherit()
+	if s.raml != nil && s.raml.merges != nil {
+		c.origins = s.mergedOrigins(sourceBase)
+		if len(c.origins) == len(s.getOrigins()) {
+			// The shape already has everything that is declared by the source.
+			return s, nil
+		}
+		merged, forget := s.raml.merges.getOrPut(c)
+		if merged != c {
+			return merged, nil
+		}
+		is, err := s.inheritToCopy(c, sourceBase)
+		if err != nil {
+			forget()
+		}
+		return is, err
+	}
+	return s.inheritToCopy(c, sourceBase)
+}
+
+// inheritToCopy merges the source into c, which is a copy of the shape.
+func (s *BaseShape) inheritToCopy(c, sourceBase *BaseShape) (*BaseShape, error) {
 	if s.raml != nil {
 		// The copy must be made again if the shape or the source is not completely unwrapped yet.
 		s.raml.postponeIncomplete(c, []*BaseShape{s, sourceBase}, func() error {
@@ -167,6 +191,63 @@ func (s *BaseShape) inheritCopy(sourceBase *BaseShape) (*BaseShape, error) {
 	return c.inheritFrom(sourceBase, s)
 }
 
+// getOrigins returns declared shapes that the shape consists of.
+func (s *BaseShape) getOrigins() []*BaseShape {
+	if s.origins == nil {
+		return []*BaseShape{s}
+	}
+	return s.origins
+}
+
+// mergedOrigins returns declared shapes that a merge of the source into the shape consists of.
+func (s *BaseShape) mergedOrigins(sourceBase *BaseShape) []*BaseShape {
+	sources := sourceBase.getOrigins()
+	targets := s.getOrigins()
+	merged := make(map[*BaseShape]struct{}, len(targets)+len(sources))
+	origins := make([]*BaseShape, 0, len(targets)+len(sources))
+	for _, list := range [][]*BaseShape{targets, sources} {
+		for _, origin := range list {
+			if _, ok := merged[origin]; !ok {
+				merged[origin] = struct{}{}
+				origins = append(origins, origin)
+			}
+		}
+	}
+	return origins
+}
+
+// mergedShapes contains results of merges by the declared shapes that they consist of.
+//
+// Overrides of recursive types lead to merges of other overrides. Every combination of declared shapes
+// must be merged once to make the number of merges finite.
+type mergedShapes struct {
+	shapes map[string]*BaseShape
+	keys   []string
+}
+
+// getOrPut returns the result of the merge that consists of the same shapes, or saves the passed one.
+// The returned function removes the saved result and all results that were saved after it
+// since they may refer to it.
+func (m *mergedShapes) getOrPut(s *BaseShape) (*BaseShape, func()) {
+	var sb strings.Builder
+	for _, origin := range s.origins {
+		fmt.Fprintf(&sb, "%p ", origin)
+	}
+	key := sb.String()
+	if merged, ok := m.shapes[key]; ok {
+		return merged, nil
+	}
+	m.shapes[key] = s
+	saved := len(m.keys)
+	m.keys = append(m.keys, key)
+	return s, func() {
+		for _, k := range m.keys[saved:] {
+			delete(m.shapes, k)
+		}
+		m.keys = m.keys[:saved]
+	}
+}
+
 // copyForInherit creates a copy of the shape that does not share any mutable state with the original shape
 // except its children.
 func (s *BaseShape) copyForInherit() *BaseShape {
@@ -185,9 +266,9 @@ func (s *BaseShape) copyForInherit() *BaseShape {
 
 // restore replaces the contents of the shape with the contents of a copy that was made before a merge.
 func (s *BaseShape) restore(original *BaseShape) {
-	id, visited, inheritors, incomplete := s.ID, s.ShapeVisited, s.inheritors, s.incomplete
+	id, visited, inheritors, incomplete, origins := s.ID, s.ShapeVisited, s.inheritors, s.incomplete, s.origins
 	*s = *original.copyForInherit()
-	s.ID, s.ShapeVisited, s.inheritors, s.incomplete = id, visited, inheritors, incomplete
+	s.ID, s.ShapeVisited, s.inheritors, s.incomplete, s.origins = id, visited, inheritors, incomplete, origins
 	s.SetShape(s.Shape.cloneShallow(s))
 }
 
@@ -314,7 +395,7 @@ func (s *BaseShape) inheritUnionMember(member *BaseShape) (*BaseShape, error) {
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, member); err != nil {
 		return nil, err
 	}
-	if s.raml != nil && member.incomplete {
+	if s.raml != nil && s.raml.isIncomplete(member) {
 		original := s.copyForInherit()
 		s.raml.postponeIncomplete(s, []*BaseShape{member}, func() error {
 			s.restore(original)
@@ -387,6 +468,7 @@ func (s *BaseShape) CloneShallow() *BaseShape {
 	ptr := &c
 	c.inheritors = nil
 	c.incomplete = false
+	c.origins = nil
 
 	c.CustomDomainProperties = orderedmap.New[string, *DomainExtension](s.CustomDomainProperties.Len())
 	for pair := s.CustomDomainProperties.Oldest(); pair != nil; pair = pair.Next() {
@@ -437,6 +519,7 @@ func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	c := *s
 	c.inheritors = nil
 	c.incomplete = false
+	c.origins = nil
 	clonedMap[s.ID] = &c
 
 	// TODO: Node is not deep copied yet, but it's not mutated anyway
diff --git a/unwrap.go b/unwrap.go
index 7730fbc..90bb2ca 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -426,11 +426,16 @@ type incompleteShape struct {
 	update  func() error
 }
 
+// isIncomplete returns true if the shape does not have all facets yet.
+func (r *RAML) isIncomplete(base *BaseShape) bool {
+	return base.incomplete || r.unwrapDepth > 0 && !base.unwrapped
+}
+
 // postponeIncomplete schedules an update of the shape if any of its sources is not completely unwrapped yet.
 func (r *RAML) postponeIncomplete(base *BaseShape, sources []*BaseShape, update func() error) {
 	base.incomplete = false
 	for _, source := range sources {
-		if source.incomplete {
+		if r.isIncomplete(source) {
 			base.incomplete = true
 			r.incompleteShapes = append(r.incompleteShapes, &incompleteShape{base, sources, update})
 			return
@@ -516,6 +521,10 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 	base.SetUnwrapped()
 	base.incomplete = true
 
+	if r.unwrapDepth == 0 {
+		r.merges = &mergedShapes{shapes: make(map[string]*BaseShape)}
+		defer func() { r.merges = nil }()
+	}
 	r.unwrapDepth++
 	us, err := r.unwrapBaseShape(base)
 	r.unwrapDepth--
@@ -577,7 +586,7 @@ func (r *RAML) unwrapBaseShape(base *BaseShape) (*BaseShape, error) {
 	var original *BaseShape
 	if len(parents) > 0 {
 		for _, parent := range parents {
-			if parent.incomplete {
+			if r.isIncomplete(parent) {
 				original = base.copyForInherit()
 				break
 			}
-- 
2.43.0


From ca36cde35fc96c2c8b257bdf7f6702e14dc374ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:25 +0000
Subject: [PATCH 44/59] fix: repeat merges with members of unions in recursive
 types

---
 complex.go |  4 ++++
 shape.go   | 37 ++++++++++++++++++++++++++++++++++---
 unwrap.go  | 15 ++++++++++++---
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/complex.go b/complex.go
index e0ea6b2..38fa88d 100644
--- a/complex.go
+++ b/complex.go
@@ -935,6 +935,10 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		s.AnyOf = ss.AnyOf
 		return s, nil
 	}
+	// Members of the source are not known yet, the merge is repeated later.
+	if len(ss.AnyOf) == 0 && ss.incomplete {
+		return s, nil
+	}
 	// Members are already inherited.
 	if len(s.AnyOf) == len(ss.AnyOf) && &s.AnyOf[0] == &ss.AnyOf[0] {
 		return s, nil
diff --git a/shape.go b/shape.go
index 42cccef..5d10077 100644
--- a/shape.go
+++ b/shape.go
@@ -77,6 +77,8 @@ type BaseShape struct {
 	inheritors map[*BaseShape]*BaseShape
 	// Declared shapes that were merged into the shape by UnwrapShape, or nil if the shape is not a result of a merge.
 	origins []*BaseShape
+	// Copy of the shape that was merged with union members before the shape itself was converted to the union.
+	unionTarget *BaseShape
 
 	raml *RAML
 
@@ -266,9 +268,10 @@ func (s *BaseShape) copyForInherit() *BaseShape {
 
 // restore replaces the contents of the shape with the contents of a copy that was made before a merge.
 func (s *BaseShape) restore(original *BaseShape) {
-	id, visited, inheritors, incomplete, origins := s.ID, s.ShapeVisited, s.inheritors, s.incomplete, s.origins
+	saved := *s
 	*s = *original.copyForInherit()
-	s.ID, s.ShapeVisited, s.inheritors, s.incomplete, s.origins = id, visited, inheritors, incomplete, origins
+	s.ID, s.ShapeVisited, s.inheritors, s.incomplete = saved.ID, saved.ShapeVisited, saved.inheritors, saved.incomplete
+	s.origins, s.unionTarget = saved.origins, saved.unionTarget
 	s.SetShape(s.Shape.cloneShallow(s))
 }
 
@@ -334,6 +337,10 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInheritUnionSource, sourceUnion); err != nil {
 		return nil, err
 	}
+	// Members of the source are not known yet, the merge is repeated later.
+	if len(sourceUnion.AnyOf) == 0 && sourceUnion.incomplete {
+		return s, nil
+	}
 	var candidates []*BaseShape
 	for _, source := range sourceUnion.AnyOf {
 		// If at least one union member has any type, the whole union is considered as any type.
@@ -347,11 +354,12 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	if len(candidates) == 1 {
 		return s.inheritUnionMember(candidates[0])
 	}
+	target := s.copyForUnion()
 	var filtered, sources []*BaseShape
 	var st *stacktrace.StackTrace
 	for _, source := range candidates {
 		// Copy with ID change is required since we create new union members from source members
-		is, err := s.inheritCopy(source)
+		is, err := target.inheritCopy(source)
 		if err != nil {
 			se := StacktraceNewWrapped("merge shapes", err, s.Location,
 				stacktrace.WithPosition(&s.Position))
@@ -363,6 +371,10 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 			// Skip shapes that didn't pass inheritance check
 			continue
 		}
+		// The shape already inherits this member and does not need the other ones.
+		if is == target {
+			return s, nil
+		}
 		filtered = append(filtered, is)
 		sources = append(sources, source)
 	}
@@ -390,6 +402,23 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	return s, nil
 }
 
+// copyForUnion returns a copy of the shape that is merged with members of a union.
+// The shape itself is converted to the union and must not be used as a target when merges are repeated.
+func (s *BaseShape) copyForUnion() *BaseShape {
+	if s.raml == nil || s.raml.merges == nil {
+		return s
+	}
+	if s.unionTarget != nil {
+		s.unionTarget.restore(s)
+		return s.unionTarget
+	}
+	s.unionTarget = s.copyForInherit()
+	s.unionTarget.origins = s.getOrigins()
+	// The copy is updated with the shape.
+	s.raml.postponeIncomplete(s.unionTarget, []*BaseShape{s}, func() error { return nil })
+	return s.unionTarget
+}
+
 // inheritUnionMember merges the only compatible union member into the shape in-place.
 func (s *BaseShape) inheritUnionMember(member *BaseShape) (*BaseShape, error) {
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, member); err != nil {
@@ -469,6 +498,7 @@ func (s *BaseShape) CloneShallow() *BaseShape {
 	c.inheritors = nil
 	c.incomplete = false
 	c.origins = nil
+	c.unionTarget = nil
 
 	c.CustomDomainProperties = orderedmap.New[string, *DomainExtension](s.CustomDomainProperties.Len())
 	for pair := s.CustomDomainProperties.Oldest(); pair != nil; pair = pair.Next() {
@@ -520,6 +550,7 @@ func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	c.inheritors = nil
 	c.incomplete = false
 	c.origins = nil
+	c.unionTarget = nil
 	clonedMap[s.ID] = &c
 
 	// TODO: Node is not deep copied yet, but it's not mutated anyway
diff --git a/unwrap.go b/unwrap.go
index 90bb2ca..ac78f5f 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -465,14 +465,23 @@ func (r *RAML) completeShapes() error {
 					}
 				}
 			}
-			if len(updates) > 0 {
-				base.incomplete = false
-			}
+			// The shape is incomplete until the update is finished: shapes that take facets from it meanwhile are postponed.
+			saved := len(r.incompleteShapes)
 			for _, shape := range updates {
+				base.incomplete = true
 				if err := shape.update(); err != nil {
 					return err
 				}
 			}
+			if len(updates) > 0 {
+				base.incomplete = false
+			}
+			// The shape itself may be postponed again.
+			for _, shape := range r.incompleteShapes[saved:] {
+				if shape.base == base {
+					base.incomplete = true
+				}
+			}
 			return nil
 		}
 		for _, shape := range shapes {
-- 
2.43.0


From f890e3d3f33cbaaf9c04c5f83cb9756041463bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:34 +0000
Subject: [PATCH 45/59] fix: exclude members that turn out to be incompatible
 from unions of recursive types

---
 complex.go |   2 +-
 shape.go   |  20 ++++++++--
 unwrap.go  | 112 +++++++++++++++++++++++++++++++++--------------------
 3 files changed, 87 insertions(+), 47 deletions(-)

diff --git a/complex.go b/complex.go
index 38fa88d..dd76128 100644
--- a/complex.go
+++ b/complex.go
@@ -936,7 +936,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		return s, nil
 	}
 	// Members of the source are not known yet, the merge is repeated later.
-	if len(ss.AnyOf) == 0 && ss.incomplete {
+	if len(ss.AnyOf) == 0 && ss.isIncomplete() {
 		return s, nil
 	}
 	// Members are already inherited.
diff --git a/shape.go b/shape.go
index 5d10077..c510cb7 100644
--- a/shape.go
+++ b/shape.go
@@ -77,6 +77,8 @@ type BaseShape struct {
 	inheritors map[*BaseShape]*BaseShape
 	// Declared shapes that were merged into the shape by UnwrapShape, or nil if the shape is not a result of a merge.
 	origins []*BaseShape
+	// Error of the merge that could not be completed, see origins.
+	mergeError error
 	// Copy of the shape that was merged with union members before the shape itself was converted to the union.
 	unionTarget *BaseShape
 
@@ -169,11 +171,16 @@ func (s *BaseShape) inheritCopy(sourceBase *BaseShape) (*BaseShape, error) {
 		}
 		merged, forget := s.raml.merges.getOrPut(c)
 		if merged != c {
-			return merged, nil
+			return merged, merged.mergeError
 		}
 		is, err := s.inheritToCopy(c, sourceBase)
 		if err != nil {
+			// The failed merge is not repeated but it may succeed when all shapes are unwrapped.
+			c.mergeError = err
 			forget()
+			if s.raml.unwrapDepth == 0 {
+				s.raml.merges.getOrPut(c)
+			}
 		}
 		return is, err
 	}
@@ -225,6 +232,9 @@ func (s *BaseShape) mergedOrigins(sourceBase *BaseShape) []*BaseShape {
 type mergedShapes struct {
 	shapes map[string]*BaseShape
 	keys   []string
+	// Updates of all shapes that inherit from other shapes.
+	updates []*incompleteShape
+	updated map[*BaseShape]bool
 }
 
 // getOrPut returns the result of the merge that consists of the same shapes, or saves the passed one.
@@ -271,7 +281,7 @@ func (s *BaseShape) restore(original *BaseShape) {
 	saved := *s
 	*s = *original.copyForInherit()
 	s.ID, s.ShapeVisited, s.inheritors, s.incomplete = saved.ID, saved.ShapeVisited, saved.inheritors, saved.incomplete
-	s.origins, s.unionTarget = saved.origins, saved.unionTarget
+	s.origins, s.unionTarget, s.mergeError = saved.origins, saved.unionTarget, saved.mergeError
 	s.SetShape(s.Shape.cloneShallow(s))
 }
 
@@ -338,7 +348,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		return nil, err
 	}
 	// Members of the source are not known yet, the merge is repeated later.
-	if len(sourceUnion.AnyOf) == 0 && sourceUnion.incomplete {
+	if len(sourceUnion.AnyOf) == 0 && sourceUnion.isIncomplete() {
 		return s, nil
 	}
 	var candidates []*BaseShape
@@ -424,7 +434,7 @@ func (s *BaseShape) inheritUnionMember(member *BaseShape) (*BaseShape, error) {
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, member); err != nil {
 		return nil, err
 	}
-	if s.raml != nil && s.raml.isIncomplete(member) {
+	if member.isIncomplete() {
 		original := s.copyForInherit()
 		s.raml.postponeIncomplete(s, []*BaseShape{member}, func() error {
 			s.restore(original)
@@ -498,6 +508,7 @@ func (s *BaseShape) CloneShallow() *BaseShape {
 	c.inheritors = nil
 	c.incomplete = false
 	c.origins = nil
+	c.mergeError = nil
 	c.unionTarget = nil
 
 	c.CustomDomainProperties = orderedmap.New[string, *DomainExtension](s.CustomDomainProperties.Len())
@@ -550,6 +561,7 @@ func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	c.inheritors = nil
 	c.incomplete = false
 	c.origins = nil
+	c.mergeError = nil
 	c.unionTarget = nil
 	clonedMap[s.ID] = &c
 
diff --git a/unwrap.go b/unwrap.go
index ac78f5f..848678b 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -427,17 +427,22 @@ type incompleteShape struct {
 }
 
 // isIncomplete returns true if the shape does not have all facets yet.
-func (r *RAML) isIncomplete(base *BaseShape) bool {
-	return base.incomplete || r.unwrapDepth > 0 && !base.unwrapped
+func (s *BaseShape) isIncomplete() bool {
+	return s.raml != nil && (s.incomplete || s.raml.unwrapDepth > 0 && !s.unwrapped)
 }
 
 // postponeIncomplete schedules an update of the shape if any of its sources is not completely unwrapped yet.
 func (r *RAML) postponeIncomplete(base *BaseShape, sources []*BaseShape, update func() error) {
 	base.incomplete = false
+	shape := &incompleteShape{base, sources, update}
+	if r.merges != nil && len(sources) > 0 && !r.merges.updated[base] {
+		r.merges.updated[base] = true
+		r.merges.updates = append(r.merges.updates, shape)
+	}
 	for _, source := range sources {
-		if r.isIncomplete(source) {
+		if source.isIncomplete() {
 			base.incomplete = true
-			r.incompleteShapes = append(r.incompleteShapes, &incompleteShape{base, sources, update})
+			r.incompleteShapes = append(r.incompleteShapes, shape)
 			return
 		}
 	}
@@ -445,52 +450,80 @@ func (r *RAML) postponeIncomplete(base *BaseShape, sources []*BaseShape, update
 
 // completeShapes updates all postponed shapes after their sources are updated.
 func (r *RAML) completeShapes() error {
+	failed := false
 	// Updates may postpone the shapes created in the process.
 	for len(r.incompleteShapes) > 0 {
 		shapes := r.incompleteShapes
 		r.incompleteShapes = nil
+		fail, err := r.updateShapes(shapes)
+		if err != nil {
+			return err
+		}
+		failed = failed || fail
+	}
+	// Shapes that took part in a merge that failed in the end must be merged without its result.
+	for failed {
+		fail, err := r.updateShapes(r.merges.updates)
+		if err != nil {
+			return err
+		}
+		failed = fail
+		r.incompleteShapes = nil
+	}
+	return nil
+}
 
-		postponed := make(map[*BaseShape][]*incompleteShape, len(shapes))
-		for _, shape := range shapes {
-			postponed[shape.base] = append(postponed[shape.base], shape)
-		}
-		var complete func(base *BaseShape) error
-		complete = func(base *BaseShape) error {
-			updates := postponed[base]
-			delete(postponed, base)
-			for _, shape := range updates {
-				for _, source := range shape.sources {
-					if err := complete(source); err != nil {
-						return err
-					}
-				}
-			}
-			// The shape is incomplete until the update is finished: shapes that take facets from it meanwhile are postponed.
-			saved := len(r.incompleteShapes)
-			for _, shape := range updates {
-				base.incomplete = true
-				if err := shape.update(); err != nil {
+// updateShapes runs updates of the shapes after updates of their sources.
+// It returns true if any of merges has failed and fails if the failed merge is not a result of another merge.
+func (r *RAML) updateShapes(shapes []*incompleteShape) (bool, error) {
+	failed := false
+	postponed := make(map[*BaseShape][]*incompleteShape, len(shapes))
+	for _, shape := range shapes {
+		postponed[shape.base] = append(postponed[shape.base], shape)
+	}
+	var complete func(base *BaseShape) error
+	complete = func(base *BaseShape) error {
+		updates := postponed[base]
+		delete(postponed, base)
+		for _, shape := range updates {
+			for _, source := range shape.sources {
+				if err := complete(source); err != nil {
 					return err
 				}
 			}
-			if len(updates) > 0 {
-				base.incomplete = false
+		}
+		// The shape is incomplete until the update is finished: shapes that take facets from it meanwhile are postponed.
+		saved := len(r.incompleteShapes)
+		for _, shape := range updates {
+			if base.mergeError != nil {
+				break
 			}
-			// The shape itself may be postponed again.
-			for _, shape := range r.incompleteShapes[saved:] {
-				if shape.base == base {
-					base.incomplete = true
+			base.incomplete = true
+			if err := shape.update(); err != nil {
+				if base.origins == nil {
+					return err
 				}
+				base.mergeError = err
+				failed = true
 			}
-			return nil
 		}
-		for _, shape := range shapes {
-			if err := complete(shape.base); err != nil {
-				return err
+		if len(updates) > 0 {
+			base.incomplete = false
+		}
+		// The shape itself may be postponed again.
+		for _, shape := range r.incompleteShapes[saved:] {
+			if shape.base == base {
+				base.incomplete = true
 			}
 		}
+		return nil
 	}
-	return nil
+	for _, shape := range shapes {
+		if err := complete(shape.base); err != nil {
+			return failed, err
+		}
+	}
+	return failed, nil
 }
 
 func (r *RAML) UnwrapTarget(target Shape) error {
@@ -531,7 +564,7 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 	base.incomplete = true
 
 	if r.unwrapDepth == 0 {
-		r.merges = &mergedShapes{shapes: make(map[string]*BaseShape)}
+		r.merges = &mergedShapes{shapes: make(map[string]*BaseShape), updated: make(map[*BaseShape]bool)}
 		defer func() { r.merges = nil }()
 	}
 	r.unwrapDepth++
@@ -594,12 +627,7 @@ func (r *RAML) unwrapBaseShape(base *BaseShape) (*BaseShape, error) {
 
 	var original *BaseShape
 	if len(parents) > 0 {
-		for _, parent := range parents {
-			if r.isIncomplete(parent) {
-				original = base.copyForInherit()
-				break
-			}
-		}
+		original = base.copyForInherit()
 		// Base shape inherits properties of the source shape in-place.
 		is, errInherit := r.inheritParents(base, parents)
 		if errInherit != nil {
-- 
2.43.0


From 72076c471524b9131f07d24d0a0e958dfd79e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:35 +0000
Subject: [PATCH 46/59] fix: check and validate heads of recursive shapes

---
 shape.go    | 3 +++
 validate.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/shape.go b/shape.go
index c510cb7..c747013 100644
--- a/shape.go
+++ b/shape.go
@@ -621,6 +621,9 @@ func (s *BaseShape) checkOnce(visited map[*BaseShape]struct{}) error {
 		return shape.checkOnce(visited)
 	case *UnionShape:
 		return shape.checkOnce(visited)
+	case *RecursiveShape:
+		// The head may not be reachable in other ways.
+		return shape.Head.checkOnce(visited)
 	default:
 		return s.Shape.check()
 	}
diff --git a/validate.go b/validate.go
index 314e0c2..81212c7 100644
--- a/validate.go
+++ b/validate.go
@@ -298,6 +298,12 @@ func (r *RAML) validateShapeCommonsOnce(s *BaseShape, visited map[*BaseShape]str
 					stacktrace.WithPosition(&shape.Base().Position))
 			}
 		}
+	case *RecursiveShape:
+		// The head may not be reachable in other ways.
+		if err := r.validateShapeCommonsOnce(shape.Head, visited); err != nil {
+			return StacktraceNewWrapped("validate recursive shape", err, shape.Base().Location,
+				stacktrace.WithPosition(&shape.Base().Position))
+		}
 	}
 
 	// Validate trait definition shapes
-- 
2.43.0


From f6888988aa71205fe2cabb1cfb6bf838ec03cf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:22 +0000
Subject: [PATCH 47/59] fix: convert to plain JSON schemas without a wrapper
 instead of panicking

---
 jsonschemaconv.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 750fc19..81f483b 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -58,13 +58,23 @@ func NewJSONSchemaConverter[T jsonSchemaWrapper[T]](opt ...JSONSchemaConverterOp
 		o.apply(&c.opts)
 	}
 	if c.opts.wrap == nil {
-		if _, ok := any((*JSONSchema)(nil)).(T); !ok {
+		// Only the plain schema does not need a wrapper.
+		wrap, ok := any(WrapperFunc[*JSONSchema](wrapPlainJSONSchema)).(WrapperFunc[T])
+		if !ok {
 			return nil, errors.New("NewJSONSchemaConverter requires WithWrapper for customized schemas")
 		}
+		c.opts.wrap = wrap
 	}
 	return c, nil
 }
 
+func wrapPlainJSONSchema(_ *JSONSchemaConverter[*JSONSchema], core *JSONSchemaGeneric[*JSONSchema], _ *BaseShape) *JSONSchema {
+	if core == nil {
+		return nil
+	}
+	return &JSONSchema{JSONSchemaGeneric: *core}
+}
+
 func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 	// TODO: Need to pass *BaseShape
 	var zero T
-- 
2.43.0


From b933b4620cd8b8c940462367d6bf60c0533c1732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:27 +0000
Subject: [PATCH 48/59] fix: keep empty properties of JSON schemas that are
 given as types

---
 jsonschemaconv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 81f483b..7834250 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -496,13 +496,13 @@ func (c *JSONSchemaConverter[T]) recast(src *JSONSchema) T {
 			core.OneOf[i] = c.recast(it)
 		}
 	}
-	if src.Properties.Len() > 0 {
+	if src.Properties != nil {
 		core.Properties = orderedmap.New[string, T](src.Properties.Len())
 		for p := src.Properties.Oldest(); p != nil; p = p.Next() {
 			core.Properties.Set(p.Key, c.recast(p.Value))
 		}
 	}
-	if src.PatternProperties.Len() > 0 {
+	if src.PatternProperties != nil {
 		core.PatternProperties = orderedmap.New[string, T](src.PatternProperties.Len())
 		for p := src.PatternProperties.Oldest(); p != nil; p = p.Next() {
 			core.PatternProperties.Set(p.Key, c.recast(p.Value))
-- 
2.43.0


From af920d2637faf1813aeb00085155bdd268085abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:58 +0000
Subject: [PATCH 49/59] fix: return errors of hooks called while a type is
 merged with members of a union

---
 raml.go   | 11 +++++++++++
 shape.go  |  5 +++++
 unwrap.go |  3 ++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/raml.go b/raml.go
index 57df51d..c9aea77 100644
--- a/raml.go
+++ b/raml.go
@@ -37,6 +37,8 @@ type RAML struct {
 
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
+	// hookFailures is the number of hook calls that returned an error.
+	hookFailures int
 	// ctx is a context of the RAML, for future use.
 	ctx context.Context
 }
@@ -103,12 +105,21 @@ func (r *RAML) callHooks(key HookKey, params ...any) error {
 		}
 		err := hook(r.ctx, r, params...)
 		if err != nil {
+			r.hookFailures++
 			return err
 		}
 	}
 	return nil
 }
 
+// countHookFailures returns the number of hook calls that returned an error.
+func (r *RAML) countHookFailures() int {
+	if r == nil {
+		return 0
+	}
+	return r.hookFailures
+}
+
 // EntryPoint returns the entry point of the RAML.
 func (r *RAML) EntryPoint() Fragment {
 	return r.entryPoint
diff --git a/shape.go b/shape.go
index c747013..efb3a7d 100644
--- a/shape.go
+++ b/shape.go
@@ -369,8 +369,13 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	var st *stacktrace.StackTrace
 	for _, source := range candidates {
 		// Copy with ID change is required since we create new union members from source members
+		hookFailures := s.raml.countHookFailures()
 		is, err := target.inheritCopy(source)
 		if err != nil {
+			// A failed hook does not tell that the member is incompatible.
+			if s.raml.countHookFailures() != hookFailures {
+				return nil, err
+			}
 			se := StacktraceNewWrapped("merge shapes", err, s.Location,
 				stacktrace.WithPosition(&s.Position))
 			if st == nil {
diff --git a/unwrap.go b/unwrap.go
index 848678b..45ca360 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -499,8 +499,9 @@ func (r *RAML) updateShapes(shapes []*incompleteShape) (bool, error) {
 				break
 			}
 			base.incomplete = true
+			hookFailures := r.hookFailures
 			if err := shape.update(); err != nil {
-				if base.origins == nil {
+				if base.origins == nil || r.hookFailures != hookFailures {
 					return err
 				}
 				base.mergeError = err
-- 
2.43.0


From eb2a70ac0cf2d481d9ad4c928dabd5da5e10952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:03 +0000
Subject: [PATCH 50/59] fix: keep custom facets of union types and types given
 as JSON schema

---
 complex.go |  8 ++++----
 shape.go   | 27 +++++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/complex.go b/complex.go
index dd76128..e6ece9b 100644
--- a/complex.go
+++ b/complex.go
@@ -846,8 +846,8 @@ type UnionShape struct {
 }
 
 // UnmarshalYAMLNodes unmarshals the union shape from YAML nodes.
-func (s *UnionShape) unmarshalYAMLNodes(_ []*yaml.Node) error {
-	return nil
+func (s *UnionShape) unmarshalYAMLNodes(v []*yaml.Node) error {
+	return s.unmarshalCustomFacets(v)
 }
 
 // Base returns the base shape.
@@ -1016,8 +1016,8 @@ func (s *JSONShape) validate(_ interface{}, _ string) error {
 	return nil
 }
 
-func (s *JSONShape) unmarshalYAMLNodes(_ []*yaml.Node) error {
-	return nil
+func (s *JSONShape) unmarshalYAMLNodes(v []*yaml.Node) error {
+	return s.unmarshalCustomFacets(v)
 }
 
 func (s *JSONShape) inherit(source Shape) (Shape, error) {
diff --git a/shape.go b/shape.go
index efb3a7d..f6397e4 100644
--- a/shape.go
+++ b/shape.go
@@ -729,6 +729,33 @@ type Shape interface {
 	IsScalar() bool
 }
 
+// unmarshalCustomFacets collects custom facets of a shape that has no facets of its kind. Built-in facets of other kinds
+// are ignored.
+func (s *BaseShape) unmarshalCustomFacets(v []*yaml.Node) error {
+	if len(v)%2 != 0 {
+		return StacktraceNew("odd number of nodes", s.Location, stacktrace.WithPosition(&s.Position))
+	}
+	for i := 0; i != len(v); i += 2 {
+		node := v[i]
+		valueNode := v[i+1]
+
+		switch node.Value {
+		case FacetFormat, FacetEnum, FacetMinimum, FacetMaximum, FacetMultipleOf,
+			FacetMinLength, FacetMaxLength, FacetPattern, FacetFileTypes,
+			FacetMinItems, FacetMaxItems, FacetUniqueItems, FacetItems,
+			FacetMinProperties, FacetMaxProperties, FacetAdditionalProperties, FacetProperties,
+			FacetDiscriminator, FacetDiscriminatorValue:
+			continue
+		}
+		n, err := s.raml.makeRootNode(valueNode, s.Location)
+		if err != nil {
+			return StacktraceNewWrapped("make node", err, s.Location, WithNodePosition(valueNode))
+		}
+		s.CustomShapeFacets.Set(node.Value, n)
+	}
+	return nil
+}
+
 // identifyShapeType identifies the type of the shape by facets.
 func identifyShapeType(shapeFacets []*yaml.Node) (string, error) {
 	var t = ""
-- 
2.43.0


From 5da511658a44fbebdd708cb2dc1e4bc816f42fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:55 +0000
Subject: [PATCH 51/59] fix: keep custom facets written on types given as JSON
 schema

---
 shape.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shape.go b/shape.go
index f6397e4..e0d7065 100644
--- a/shape.go
+++ b/shape.go
@@ -1049,6 +1049,10 @@ func (r *RAML) makeNewShapeYAML(v *yaml.Node, name string, location string) (*Ba
 		}
 		if shape != nil {
 			base.SetShape(shape)
+			if err = shape.unmarshalYAMLNodes(shapeFacets); err != nil {
+				return nil, StacktraceNewWrapped("unmarshal yaml nodes", err, base.Location,
+					stacktrace.WithPosition(&base.Position))
+			}
 			return base, nil
 		}
 	}
-- 
2.43.0


From d9e83379e081e42fc355159ac374cce692ae46ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:55 +0000
Subject: [PATCH 52/59] fix: report included values at the position of the
 include

---
 node.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/node.go b/node.go
index 42921df..d0f4378 100644
--- a/node.go
+++ b/node.go
@@ -60,31 +60,34 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 	default:
 		v, errDecode := io.ReadAll(rdr)
 		if errDecode != nil {
-			return nil, StacktraceNewWrapped("include: read all", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: read all", errDecode, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 		value = string(v)
 	case ".json":
 		var data any
 		d := json.NewDecoder(rdr)
 		if errDecode := d.Decode(&data); errDecode != nil {
-			return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: json decode", errDecode, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 		value = data
 	case ".yaml", ".yml":
 		var data yaml.Node
 		d := yaml.NewDecoder(rdr)
 		if errDecode := d.Decode(&data); errDecode != nil {
-			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 		value, err = yamlNodeToDataNode(&data, fragmentPath, false)
 		if err != nil {
-			return nil, StacktraceNewWrapped("include: yaml node to data node", err, fragmentPath,
-				WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: yaml node to data node", err, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 	}
 	return &Node{
 		Value:    value,
-		Location: fragmentPath,
+		Location: location,
 		Position: stacktrace.Position{Line: node.Line, Column: node.Column},
 		raml:     r,
 	}, nil
@@ -164,16 +167,16 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 		default:
 			v, errRead := io.ReadAll(r)
 			if errRead != nil {
-				return nil, StacktraceNewWrapped("include: read all", errRead, fragmentPath,
-					WithNodePosition(node))
+				return nil, StacktraceNewWrapped("include: read all", errRead, location, WithNodePosition(node),
+					stacktrace.WithInfo("path", fragmentPath))
 			}
 			return string(v), nil
 		case ".yaml", ".yml":
 			var data yaml.Node
 			d := yaml.NewDecoder(r)
 			if errDecode := d.Decode(&data); errDecode != nil {
-				return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath,
-					WithNodePosition(node))
+				return nil, StacktraceNewWrapped("include: yaml decode", errDecode, location, WithNodePosition(node),
+					stacktrace.WithInfo("path", fragmentPath))
 			}
 			return yamlNodeToDataNode(&data, fragmentPath, true)
 		}
-- 
2.43.0


From 6350ca6f6f67fa2c48edf930b51ec52f3efc0ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:07 +0000
Subject: [PATCH 53/59] fix: report properties, union members and enum values
 in the files they are written in

---
 complex.go | 18 +++++++++---------
 parse.go   |  2 +-
 scalars.go |  8 ++++----
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/complex.go b/complex.go
index e6ece9b..339f944 100644
--- a/complex.go
+++ b/complex.go
@@ -419,7 +419,7 @@ func (s *ObjectShape) validatePatternProperty(
 		if err == nil {
 			return true, nil
 		}
-		se := StacktraceNewWrapped("validate pattern property", err, s.Location,
+		se := StacktraceNewWrapped("validate pattern property", err, pp.Base.Location,
 			stacktrace.WithPosition(&pp.Base.Position),
 			stacktrace.WithInfo("property", pp.Pattern.String()))
 		if st == nil {
@@ -570,7 +570,7 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 		k, sourceProp := pair.Key, pair.Value
 		if targetProp, present := s.Properties.Get(k); present {
 			if sourceProp.Required && !targetProp.Required {
-				return StacktraceNew("cannot make required property optional", s.Location,
+				return StacktraceNew("cannot make required property optional", targetProp.Base.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithInfo("source", sourceProp.Required),
@@ -579,7 +579,7 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 			}
 			base, err := targetProp.Base.inheritCopy(sourceProp.Base)
 			if err != nil {
-				return StacktraceNewWrapped("inherit property", err, s.Location,
+				return StacktraceNewWrapped("inherit property", err, targetProp.Base.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
@@ -603,7 +603,7 @@ func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 			if targetProp, present := s.PatternProperties.Get(k); present {
 				base, err := targetProp.Base.inheritCopy(sourceProp.Base)
 				if err != nil {
-					return StacktraceNewWrapped("inherit pattern property", err, s.Location,
+					return StacktraceNewWrapped("inherit pattern property", err, targetProp.Base.Location,
 						stacktrace.WithPosition(&targetProp.Base.Position),
 						stacktrace.WithInfo("property", k),
 						stacktrace.WithType(StacktraceTypeUnwrapping))
@@ -677,7 +677,7 @@ func (s *ObjectShape) checkPatternPropertiesOnce(visited map[*BaseShape]struct{}
 	for pair := s.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 		prop := pair.Value
 		if err := prop.Base.checkOnce(visited); err != nil {
-			return StacktraceNewWrapped("check pattern property", err, s.Location,
+			return StacktraceNewWrapped("check pattern property", err, prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("property", prop.Pattern.String()))
 		}
@@ -697,7 +697,7 @@ func (s *ObjectShape) checkPropertiesOnce(visited map[*BaseShape]struct{}) error
 	for pair := s.Properties.Oldest(); pair != nil; pair = pair.Next() {
 		prop := pair.Value
 		if err := prop.Base.checkOnce(visited); err != nil {
-			return StacktraceNewWrapped("check property", err, s.Location,
+			return StacktraceNewWrapped("check property", err, prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("property", prop.Name))
 		}
@@ -713,7 +713,7 @@ func (s *ObjectShape) checkPropertiesOnce(visited map[*BaseShape]struct{}) error
 				stacktrace.WithInfo("discriminator", *s.Discriminator))
 		}
 		if !prop.Base.IsScalar() {
-			return StacktraceNew("discriminator property must be a scalar", s.Location,
+			return StacktraceNew("discriminator property must be a scalar", prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("discriminator", *s.Discriminator))
 		}
@@ -911,7 +911,7 @@ func (s *UnionShape) validateOnce(v interface{}, ctxPath string, rejected map[*B
 			StacktraceNewWrapped(
 				"validate union member",
 				err,
-				s.Location,
+				item.Location,
 				stacktrace.WithPosition(&item.Position),
 				stacktrace.WithInfo("type", item.Type),
 				stacktrace.WithInfo("name", item.Name),
@@ -980,7 +980,7 @@ func (s *UnionShape) check() error {
 func (s *UnionShape) checkOnce(visited map[*BaseShape]struct{}) error {
 	for _, item := range s.AnyOf {
 		if err := item.checkOnce(visited); err != nil {
-			return StacktraceNewWrapped("check union member", err, s.Location,
+			return StacktraceNewWrapped("check union member", err, item.Location,
 				stacktrace.WithPosition(&item.Position))
 		}
 	}
diff --git a/parse.go b/parse.go
index b01d760..ac67c88 100644
--- a/parse.go
+++ b/parse.go
@@ -104,7 +104,7 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 		sublib, err := r.parseLibrary(filepath.Join(baseDir, include.Value))
 		if err != nil {
 			return nil, StacktraceNewWrapped("parse library", err, dt.Location,
-				stacktrace.WithType(StacktraceTypeParsing))
+				stacktrace.WithType(StacktraceTypeParsing), stacktrace.WithPosition(&include.Position))
 		}
 		include.Link = sublib
 	}
diff --git a/scalars.go b/scalars.go
index b5c40c5..2e9c5f9 100644
--- a/scalars.go
+++ b/scalars.go
@@ -246,7 +246,7 @@ func (s *IntegerShape) check() error {
 			switch e.Value.(type) {
 			case int, int64, uint, uint64:
 			default:
-				return StacktraceNew("enum value must be int or uint", s.Location,
+				return StacktraceNew("enum value must be int or uint", e.Location,
 					stacktrace.WithPosition(&e.Position))
 			}
 		}
@@ -468,7 +468,7 @@ func (s *NumberShape) check() error {
 			switch e.Value.(type) {
 			case int, int64, uint, uint64, float64:
 			default:
-				return StacktraceNew("enum value must be int, uint, float64", s.Location,
+				return StacktraceNew("enum value must be int, uint, float64", e.Location,
 					stacktrace.WithPosition(&e.Position))
 			}
 		}
@@ -648,7 +648,7 @@ func (s *StringShape) check() error {
 		for _, e := range s.Enum {
 			if _, ok := e.Value.(string); !ok {
 				return StacktraceNew("enum value must be string",
-					s.Location, stacktrace.WithPosition(&e.Position))
+					e.Location, stacktrace.WithPosition(&e.Position))
 			}
 		}
 	}
@@ -927,7 +927,7 @@ func (s *BooleanShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			if _, ok := e.Value.(bool); !ok {
-				return StacktraceNew("enum value must be boolean", s.Location, stacktrace.WithPosition(&e.Position))
+				return StacktraceNew("enum value must be boolean", e.Location, stacktrace.WithPosition(&e.Position))
 			}
 		}
 	}
-- 
2.43.0


From 8b52b2a2d8d6c43fcdda9b1e2566290856d4e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:17 +0000
Subject: [PATCH 54/59] fix: report properties, items, union members and enum
 values in the files they are written in

---
 complex.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/complex.go b/complex.go
index 339f944..59b2b12 100644
--- a/complex.go
+++ b/complex.go
@@ -132,7 +132,7 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 	} else if ss.Items != nil {
 		items, err := s.Items.inheritCopy(ss.Items)
 		if err != nil {
-			return nil, StacktraceNewWrapped("merge array items", err, s.Location,
+			return nil, StacktraceNewWrapped("merge array items", err, s.Items.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
 		s.Items = items
@@ -172,7 +172,7 @@ func (s *ArrayShape) checkOnce(visited map[*BaseShape]struct{}) error {
 	}
 	if s.Items != nil {
 		if err := s.Items.checkOnce(visited); err != nil {
-			return StacktraceNewWrapped("check items", err, s.Location,
+			return StacktraceNewWrapped("check items", err, s.Items.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
 	}
-- 
2.43.0


From fb4382e25e769c599c813f5fd453a69b45ae6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:56 +0000
Subject: [PATCH 55/59] fix: reject included JSON files with data after the
 value

---
 node.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/node.go b/node.go
index d0f4378..af7d04d 100644
--- a/node.go
+++ b/node.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"log"
@@ -71,6 +72,10 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 			return nil, StacktraceNewWrapped("include: json decode", errDecode, location, WithNodePosition(node),
 				stacktrace.WithInfo("path", fragmentPath))
 		}
+		if _, errDecode := d.Token(); !errors.Is(errDecode, io.EOF) {
+			return nil, StacktraceNew("include: json decode: unexpected data after the value", location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
+		}
 		value = data
 	case ".yaml", ".yml":
 		var data yaml.Node
-- 
2.43.0


From da83145f15a26acce222a939db022b1e1cc42503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:07 +0000
Subject: [PATCH 56/59] fix: reject NaN where a number has a minimum or a
 maximum

---
 scalars.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scalars.go b/scalars.go
index 2e9c5f9..5d642fe 100644
--- a/scalars.go
+++ b/scalars.go
@@ -386,6 +386,9 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 		return fmt.Errorf("invalid type, got %T, expected int, uint, float64", v)
 	}
 
+	if math.IsNaN(val) && (s.Minimum != nil || s.Maximum != nil) {
+		return fmt.Errorf("value %v is not within minimum and maximum", val)
+	}
 	if s.Minimum != nil && val < *s.Minimum {
 		return fmt.Errorf("value must be greater than %f", *s.Minimum)
 	}
-- 
2.43.0


From d69bec7a34317326ee4b6edaafcd36a5b737f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:05 +0000
Subject: [PATCH 57/59] fix: do not leave the copies made by ValidateShapes in
 the list of shapes

---
 validate.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/validate.go b/validate.go
index 81212c7..1d62f32 100644
--- a/validate.go
+++ b/validate.go
@@ -208,6 +208,13 @@ func (r *RAML) ValidateShapes() error {
 	// Unwrap cache stores the mapping of original IDs to unwrapped shapes
 	// to ensure the original references (aliases and links) match.
 	unwrapCache := make(map[int64]*BaseShape)
+	// Shapes that are not unwrapped yet are validated in unwrapped copies that do not belong to the RAML.
+	count := len(r.shapes)
+	defer func() {
+		if len(r.shapes) > count {
+			r.shapes = r.shapes[:count:count]
+		}
+	}()
 
 	st := r.validateFragments(unwrapCache)
 
-- 
2.43.0


From 982ea8d9491a6f29a1e56fb5d104c97bdb8b45b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:15 +0000
Subject: [PATCH 58/59] fix: keep the shapes that are already unwrapped in the
 list of shapes when unwrapping again

---
 unwrap.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unwrap.go b/unwrap.go
index 45ca360..47ea94d 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -126,7 +126,16 @@ func (r *RAML) UnwrapShapes() error {
 	// We need to invalidate old cache and re-populate it because references will no longer be valid after unwrapping.
 	r.fragmentTypes = make(map[string]map[string]*BaseShape)
 	r.fragmentAnnotationTypes = make(map[string]map[string]*BaseShape)
-	r.shapes = make([]*BaseShape, 0, len(r.shapes))
+	// Unwrapped shapes are not visited again and stay in the list, once.
+	shapes := make([]*BaseShape, 0, len(r.shapes))
+	listed := make(map[*BaseShape]struct{}, len(r.shapes))
+	for _, shape := range r.shapes {
+		if _, ok := listed[shape]; !ok && shape.IsUnwrapped() {
+			listed[shape] = struct{}{}
+			shapes = append(shapes, shape)
+		}
+	}
+	r.shapes = shapes
 	st := r.unwrapFragments()
 	if st != nil {
 		return st
-- 
2.43.0


From cfb3279b4a779e53c35c94dca8945b05f542420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:39 +0000
Subject: [PATCH 59/59] fix: detect duplicate items that are equal numbers of
 different types

---
 complex.go |  2 +-
 scalars.go | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 59b2b12..91a1350 100644
--- a/complex.go
+++ b/complex.go
@@ -104,7 +104,7 @@ func (s *ArrayShape) validate(v interface{}, ctxPath string) error {
 			}
 		}
 		if validateUniqueItems {
-			itemHash, err := hashInterfaceFast(item)
+			itemHash, err := hashInterfaceFast(exactNumbers(item))
 			if err != nil {
 				return fmt.Errorf("hash array item %s: %w", ctxPathA, err)
 			}
diff --git a/scalars.go b/scalars.go
index 5d642fe..047480e 100644
--- a/scalars.go
+++ b/scalars.go
@@ -60,6 +60,30 @@ func ratFromNumber(v any) (*big.Rat, bool) {
 	return nil, false
 }
 
+// exactNumbers replaces floating point numbers that are encoded differently from equal integers.
+func exactNumbers(v any) any {
+	switch v := v.(type) {
+	case float64:
+		if (v == 0 || math.Abs(v) >= 1<<53) && !math.IsInf(v, 0) {
+			i, _ := big.NewFloat(v).Int(nil)
+			return i
+		}
+	case []any:
+		items := make([]any, len(v))
+		for i, item := range v {
+			items[i] = exactNumbers(item)
+		}
+		return items
+	case map[string]any:
+		props := make(map[string]any, len(v))
+		for k, item := range v {
+			props[k] = exactNumbers(item)
+		}
+		return props
+	}
+	return v
+}
+
 // isSameEnumValue compares numbers by their value regardless of the type they were decoded to.
 func isSameEnumValue(a, b any) bool {
 	ra, okA := ratFromNumber(a)
-- 
2.43.0

