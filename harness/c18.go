package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/acronis/go-raml/v2"
)

// schemaGen makes random schema documents over the keywords the schema structures support.
type schemaGen struct {
	r    *Rand
	used map[string]bool
	ext  bool
	json bool // restrict strings and keys to what survives as a RAML type text
}

var schemaStrings = []string{"a", "b c", "x-y", "$id", "items", "é✓", "quote\"d", "back\\slash", "<tag>&", "tab\there", "new\nline", "\u2028sep", "123", "true", "a/b~c", "😀", "", "%41", "type", "properties"}

func (g *schemaGen) str() string { return schemaStrings[g.r.N(len(schemaStrings))] }
func (g *schemaGen) nestr() string {
	for {
		if s := g.str(); s != "" {
			return s
		}
	}
}

func (g *schemaGen) val(d int) any {
	switch g.r.N(9) {
	case 0:
		return g.r.P(50)
	case 1:
		return float64(g.r.N(2000) - 1000)
	case 2:
		return float64(g.r.N(2000)) / 8
	case 3, 4:
		return g.str()
	case 5:
		if d > 0 {
			return nil
		}
		return 0.0
	case 6:
		return []float64{1e21, -1e-7, 123456789012, math.MaxInt32}[g.r.N(4)]
	case 7:
		if d > 2 {
			return "deep"
		}
		n := g.r.N(4)
		a := make([]any, 0, n)
		for i := 0; i < n; i++ {
			a = append(a, g.val(d+1))
		}
		return a
	default:
		if d > 2 {
			return false
		}
		m := map[string]any{}
		for i := g.r.N(4); i > 0; i-- {
			m[g.str()] = g.val(d + 1)
		}
		return m
	}
}

func (g *schemaGen) num() json.Number {
	return json.Number(g.r.Pick("0", "1", "-5", "0.1", "12345678901234567890", "1e3", "-2.5e-3", "100000000000000000000000", "3.0"))
}

func (g *schemaGen) vals() []any {
	n := g.r.Range(1, 4)
	a := make([]any, n)
	for i := range a {
		a[i] = g.val(1)
	}
	return a
}

func (g *schemaGen) subs(d int) []any {
	n := g.r.Range(1, 3)
	a := make([]any, n)
	for i := range a {
		a[i] = g.doc(d + 1)
	}
	return a
}

func (g *schemaGen) named(d int, min int) map[string]any {
	m := map[string]any{}
	for i := g.r.Range(min, 3); i > 0; i-- {
		m[g.str()] = g.doc(d + 1)
	}
	if len(m) == 0 && min > 0 {
		m["k"] = g.doc(d + 1)
	}
	return m
}

// doc makes one schema: every keyword has a small independent chance.
func (g *schemaGen) doc(d int) map[string]any {
	m := map[string]any{}
	p := 13
	if d == 0 {
		p = g.r.Pick2(8, 20, 45, 100)
	}
	sub := 12
	switch {
	case d == 0:
		sub = 40
	case d > 3:
		sub = 0
	case d > 1:
		sub = 5
	}
	on := func(k string) bool {
		if g.r.P(p) {
			g.used[k] = true
			return true
		}
		return false
	}
	nest := func(k string) bool {
		if g.r.P(sub) {
			g.used[k] = true
			return true
		}
		return false
	}
	for _, k := range []string{"$id", "$ref", "$comment", "pattern", "contentEncoding", "contentMediaType", "format", "title", "description", "type"} {
		if on(k) {
			m[k] = g.nestr()
		}
	}
	if d == 0 && g.r.P(30) || on("$schema") && !g.json {
		m["$schema"] = "http://json-schema.org/draft-07/schema"
	}
	for _, k := range []string{"maxLength", "minLength", "maxItems", "minItems", "maxContains", "minContains", "maxProperties", "minProperties"} {
		if on(k) {
			m[k] = json.Number(g.r.Pick("0", "1", "7", "18446744073709551615", "9007199254740993"))
		}
	}
	for _, k := range []string{"multipleOf", "maximum", "minimum"} {
		if on(k) {
			m[k] = g.num()
		}
	}
	for _, k := range []string{"additionalProperties", "uniqueItems"} {
		if on(k) {
			m[k] = g.r.P(50)
		}
	}
	for _, k := range []string{"enum", "examples"} {
		if on(k) {
			m[k] = g.vals()
		}
	}
	for _, k := range []string{"const", "default"} {
		if on(k) {
			m[k] = g.val(0)
		}
	}
	if on("required") {
		m["required"] = []any{g.str(), "z"}
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if nest(k) {
			m[k] = g.subs(d)
		}
	}
	for _, k := range []string{"not", "if", "then", "else", "items", "propertyNames"} {
		if nest(k) {
			m[k] = g.doc(d + 1)
		}
	}
	for _, k := range []string{"properties", "patternProperties"} {
		if nest(k) {
			m[k] = g.named(d, 0)
		}
	}
	if nest("definitions") {
		m["definitions"] = g.named(d, 1)
	}
	if g.ext {
		if on("x-annotations") {
			m["x-annotations"] = map[string]any{g.str(): g.val(1), "k": g.val(1)}
		}
		if on("x-facet-data") {
			m["x-facet-data"] = map[string]any{g.str(): g.val(1)}
		}
		if nest("x-facet-definitions") {
			m["x-facet-definitions"] = g.named(d, 1)
		}
	}
	return m
}

func (r *Rand) Pick2(a ...int) int { return a[r.N(len(a))] }

// parts collects the addresses of all memory a value may be modified through.
func parts(v reflect.Value, path string, out map[uintptr]string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Type().Elem().Size() > 0 {
			if _, ok := out[v.Pointer()]; ok {
				return
			}
			out[v.Pointer()] = path
		}
		parts(v.Elem(), path+"*", out)
	case reflect.Interface:
		if !v.IsNil() {
			parts(v.Elem(), path, out)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		if _, ok := out[v.Pointer()]; ok {
			return
		}
		out[v.Pointer()] = path
		for _, k := range v.MapKeys() {
			parts(v.MapIndex(k), fmt.Sprintf("%s[%v]", path, k), out)
		}
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		out[v.Pointer()] = path
		for i := 0; i < v.Len(); i++ {
			parts(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			parts(v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			parts(v.Index(i), path, out)
		}
	}
}

func sharedPart(a, z any) string {
	m, n := map[uintptr]string{}, map[uintptr]string{}
	parts(reflect.ValueOf(a), "", m)
	parts(reflect.ValueOf(z), "", n)
	for p, what := range n {
		if w, ok := m[p]; ok {
			return fmt.Sprintf("%s is shared with %s of the copy", w, what)
		}
	}
	return ""
}

// wreck overwrites everything that is reachable through exported fields, maps and slices.
func wreck(v reflect.Value, seen map[uintptr]bool) int {
	n := 0
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		n += wreck(v.Elem(), seen)
		// ordered maps: overwrite through their methods
		if m := v.MethodByName("Oldest"); m.IsValid() {
			for p := m.Call(nil)[0]; !p.IsNil(); p = p.MethodByName("Next").Call(nil)[0] {
				n += wreck(p.Elem().FieldByName("Value"), seen)
				p.Elem().FieldByName("Value").Set(reflect.Zero(p.Elem().FieldByName("Value").Type()))
			}
		}
	case reflect.Interface:
		if v.IsNil() {
			return 0
		}
		n += wreck(v.Elem(), seen)
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
			n++
		}
	case reflect.Map:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		for _, k := range v.MapKeys() {
			n += wreck(v.MapIndex(k), seen)
			v.SetMapIndex(k, reflect.Value{})
			n++
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += wreck(v.Index(i), seen)
			if e := v.Index(i); e.CanSet() {
				e.Set(reflect.Zero(e.Type()))
				n++
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !v.Type().Field(i).IsExported() {
				continue
			}
			n += wreck(f, seen)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("wrecked")
			n++
		}
	case reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 77)
			n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			n++
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 77)
			n++
		}
	}
	return n
}

type schemaLike[T any] interface {
	DeepCopy() T
	ShallowCopy() T
	Map() map[string]any
}

func marshalText(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

// views checks one schema object: Map, DeepCopy, ShallowCopy against its JSON text; the object is destroyed at the end.
func views[T schemaLike[T]](c *Case, what string, s T) bool {
	text := marshalText(s)
	bad := func(f string, a ...any) bool {
		c.Violate("%s: %s\nschema: %s", what, fmt.Sprintf(f, a...), clip(text, 2500))
		return false
	}
	if strings.HasPrefix(text, "error:") {
		return bad("cannot be marshalled")
	}
	c.Eval(1)
	// Map is the document
	m := s.Map()
	if mt := marshalText(m); !sameValue(plain(m), plain(s)) {
		return bad("Map() is another document:\n%s", mt)
	}
	if bad2 := rawLoadable(m, ""); bad2 != "" {
		return bad("Map(): %s", bad2)
	}
	c.Count("maps", 1)
	if t := marshalText(s); t != text {
		return bad("marshalling again gives another text:\n%s", t)
	}
	// what Map returns may be extended at will by the caller
	for k := range m {
		delete(m, k)
	}
	if t := marshalText(s); t != text {
		return bad("the map shares its keys with the schema")
	}
	d := s.DeepCopy()
	if t := marshalText(d); t != text {
		return bad("DeepCopy() is another document:\n%s", t)
	}
	if !reflect.DeepEqual(any(s), any(d)) {
		return bad("DeepCopy() is not equal to the original")
	}
	if p := sharedPart(s, d); p != "" {
		return bad("DeepCopy(): %s", p)
	}
	e := d.DeepCopy()
	sh := s.ShallowCopy()
	if t := marshalText(sh); t != text {
		return bad("ShallowCopy() is another document:\n%s", t)
	}
	if any(sh) == any(s) {
		return bad("ShallowCopy() is the original")
	}
	// own fields of a shallow copy are independent
	f := reflect.ValueOf(sh).Elem()
	f.Set(reflect.Zero(f.Type()))
	if t := marshalText(s); t != text {
		return bad("clearing a shallow copy changes the original")
	}
	c.Count("copies", 3)
	n := wreck(reflect.ValueOf(d), map[uintptr]bool{})
	if t := marshalText(s); t != text {
		return bad("modifying the copy changes the original to\n%s", t)
	}
	n += wreck(reflect.ValueOf(s), map[uintptr]bool{})
	if t := marshalText(e); t != text {
		return bad("modifying the original changes the copy of the copy to\n%s", t)
	}
	c.Count("mutations", n)
	return true
}

// rawLoadable: the map consists of plain JSON values, except for values the user supplied.
func rawLoadable(v any, at string) string {
	switch v := v.(type) {
	case nil, bool, string, float64, json.Number, int, int64, uint64:
	case map[string]any:
		for k, x := range v {
			if (k == "default" || k == "const" || k == "enum" || k == "examples" || strings.HasPrefix(k, "x-")) && !strings.HasSuffix(at, "ies") {
				continue
			}
			if s := rawLoadable(x, at+"/"+k); s != "" {
				return s
			}
		}
	case []any:
		for i, x := range v {
			if s := rawLoadable(x, fmt.Sprintf("%s/%d", at, i)); s != "" {
				return s
			}
		}
	default:
		return fmt.Sprintf("%s is a %T", at, v)
	}
	return ""
}

func roundTrip[T schemaLike[T]](c *Case, what string, doc map[string]any, s T) bool {
	src := jsonText(doc)
	if err := json.Unmarshal([]byte(src), s); err != nil {
		c.Violate("%s: unmarshalling fails: %v\n%s", what, err, clip(src, 3000))
		return false
	}
	if !sameValue(plain(s), plain(doc)) {
		c.Violate("%s: a document over supported keywords is changed by unmarshalling and marshalling\n%s\nto\n%s", what, clip(src, 1900), clip(marshalText(s), 1900))
		return false
	}
	c.Count("round_trips", 1)
	return views(c, what, s)
}

func init() {
	register(&Check{ID: "C18", Rule: "case A (60%): random schema document over all supported keywords (nested in every position, odd keys and strings, big and fractional numbers), unmarshalled into the plain and the x- extended structure. Case B (25%): schemas converted from random RAML projects with both converters. Case C (15%): a random document embedded as a RAML type (as text or included), converted. Monitors: marshalling gives the source document back; Map() marshals to the same document and holds only plain JSON containers; DeepCopy is equal, shares no pointer, map or slice with the original (reflection walk over all memory), and overwriting everything reachable in either leaves the other's text as it was; the embedded document reappears in the converted schema except for $schema and the documentation the RAML type overrides. Distinct: (source, keyword) pairs in one document",
		Quick: 5000, Thorough: 180000,
		Require: map[string]int{"round_trips": 5000, "copies": 20000, "mutations": 100000, "maps": 8000, "embedded": 500, "converted": 2000},
		Run: func(c *Case) {
			switch x := c.R.N(100); {
			case x < 60:
				g := &schemaGen{r: c.R, used: map[string]bool{}}
				doc := g.doc(0)
				if !roundTrip(c, "plain schema", doc, &raml.JSONSchema{}) {
					return
				}
				roundTrip(c, "extended schema without extensions", doc, &raml.JSONSchemaRAML{})
				g.ext = true
				doc = g.doc(0)
				roundTrip(c, "extended schema", doc, &raml.JSONSchemaRAML{})
				keysOf(c, "document", g.used)
			case x < 85:
				o := fullOpts()
				o.Types, o.Recursion = 5, c.R.P(30)
				pr, ref := genProject(c.R.Fork("gen"), o)
				if len(ref.Verdict()) > 0 {
					return
				}
				files := pr.Render(randStyle(c.R))
				c.Source(files)
				l, err := c.load(files, pr.Frags[0].Path, true, false)
				if err != nil {
					c.Violate("valid project rejected: %v", err)
					return
				}
				for _, d := range l.all(pr, ref) {
					cv, err := raml.NewJSONSchemaConverter[*raml.JSONSchema]()
					if err != nil {
						panic(err)
					}
					s, err := cv.Convert(d.b.Shape)
					if err != nil {
						continue
					}
					cx, err := raml.NewJSONSchemaConverter[*raml.JSONSchemaRAML](raml.WithWrapper(raml.JSONSchemaWrapper))
					if err != nil {
						panic(err)
					}
					x, err := cx.Convert(d.b.Shape)
					if err != nil {
						continue
					}
					// Copies are made first: destroying a converted schema may reach values of the model.
					s, x = s.DeepCopy(), x.DeepCopy()
					c.Count("converted", 2)
					var back raml.JSONSchemaRAML
					if err := json.Unmarshal([]byte(marshalText(x)), &back); err != nil {
						c.Violate("%s: the converted schema cannot be unmarshalled: %v\n%s", d.name, err, marshalText(x))
						return
					}
					if !sameValue(plain(&back), plain(x)) {
						c.Violate("%s: the converted schema is changed by a round trip\n%s\n%s", d.name, clip(marshalText(x), 1900), clip(marshalText(&back), 1900))
						return
					}
					c.Key("converted", d.e.Kind)
					if !views(c, d.name, s) || !views(c, d.name, x) {
						return
					}
				}
			default:
				c18Embedded(c)
			}
		}})
}

func keysOf(c *Case, tag string, used map[string]bool) {
	var ks []string
	for k := range used {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i := range ks {
		for j := i + 1; j < len(ks) && j < i+6; j++ {
			c.Key(tag, ks[i], ks[j])
		}
	}
}

func c18Embedded(c *Case) {
	g := &schemaGen{r: c.R, used: map[string]bool{}, json: true}
	doc := g.doc(0)
	text := jsonText(doc)
	files := map[string]string{}
	doc2 := map[string]any{}
	for k, v := range doc {
		if k != "$schema" {
			doc2[k] = v
		}
	}
	var w strings.Builder
	w.WriteString("#%RAML 1.0 Library\ntypes:\n  E:\n")
	if c.R.P(50) {
		files["schemas/e.json"] = text
		w.WriteString("    type: !include schemas/e.json\n")
	} else {
		w.WriteString("    type: " + jsonText(text) + "\n")
	}
	if c.R.P(25) {
		w.WriteString("    description: own text\n")
		doc2["description"] = "own text"
	}
	if c.R.P(25) {
		w.WriteString("    displayName: Own\n")
		doc2["title"] = "Own"
	}
	place := c.R.N(3)
	switch place {
	case 1:
		w.WriteString("  O:\n    properties:\n      e: E\n")
	case 2:
		w.WriteString("  O:\n    type: array\n    items: E\n")
	}
	files["lib.raml"] = w.String()
	c.Source(files)
	l, err := c.load(files, "lib.raml", true, false)
	if err != nil {
		c.Violate("embedded schema rejected: %v", err)
		return
	}
	lib := l.lib("lib.raml")
	name := "E"
	if place > 0 {
		name = "O"
	}
	b, _ := lib.Types.Get(name)
	for _, ext := range []bool{false, true} {
		t, err := convert(b, ext)
		if err != nil {
			c.Violate("conversion fails: %v", err)
			return
		}
		var out struct {
			Definitions map[string]any `json:"definitions"`
		}
		dec := json.NewDecoder(strings.NewReader(t))
		dec.UseNumber()
		if err := dec.Decode(&out); err != nil {
			c.Violate("converted schema is not JSON: %v\n%s", err, t)
			return
		}
		at := out.Definitions[name]
		dig := func(k string) {
			if m, ok := at.(map[string]any); ok {
				at = m[k]
			} else {
				at = nil
			}
		}
		switch place {
		case 1:
			dig("properties")
			dig("e")
		case 2:
			dig("items")
		}
		want := plain(doc2)
		if place > 0 {
			// a reference without facets takes over the documentation of the type
			if m, ok := at.(map[string]any); ok && m["title"] == nil && doc2["title"] != nil && doc["title"] == nil {
				m["title"] = doc2["title"]
			}
		}
		if !sameValue(at, want) {
			c.Violate("the embedded schema is not what the conversion (extended=%v, place %d) contains\n%s\nwant\n%s", ext, place, clip(jsonText(at), 1900), clip(jsonText(want), 1900))
			return
		}
		c.Eval(1)
		c.Count("embedded", 1)
	}
	// The converted schema does not change the type's own schema.
	js, ok := deref(b).Shape.(*raml.JSONShape)
	if ok && place == 0 {
		if !sameValue(plain(js.Schema), plain(doc)) {
			c.Violate("the schema of the type is not the embedded document\n%s\nwant\n%s", clip(marshalText(js.Schema), 1900), clip(text, 1900))
			return
		}
		if js.Raw != text {
			c.Violate("raw text of the schema is\n%s\nwant\n%s", js.Raw, text)
			return
		}
		views(c, "schema of the type", js.Schema)
	}
	keysOf(c, "embedded", g.used)
}
