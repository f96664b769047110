package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/acronis/go-raml/v2"
)

// convert gives the text of the schema of a shape; raw uses the wrapper that adds x- annotations.
func convert(b *raml.BaseShape, ext bool) (string, error) {
	if ext {
		cv, err := raml.NewJSONSchemaConverter[*raml.JSONSchemaRAML](raml.WithWrapper(raml.JSONSchemaWrapper))
		if err != nil {
			return "", err
		}
		s, err := cv.Convert(b.Shape)
		if err != nil {
			return "", err
		}
		t, err := json.Marshal(s)
		return string(t), err
	}
	cv, err := raml.NewJSONSchemaConverter[*raml.JSONSchema]()
	if err != nil {
		return "", err
	}
	s, err := cv.Convert(b.Shape)
	if err != nil {
		return "", err
	}
	t, err := json.Marshal(s)
	return string(t), err
}

func plainWrapper(_ *raml.JSONSchemaConverter[*raml.JSONSchema], core *raml.JSONSchemaGeneric[*raml.JSONSchema], _ *raml.BaseShape) *raml.JSONSchema {
	if core == nil {
		return nil
	}
	return &raml.JSONSchema{JSONSchemaGeneric: *core}
}

type metaCmp struct {
	doc  *schemaDoc
	seen map[[2]any]bool
	ext  bool
	n    int
	anns int
}

func numEq(v any, q string) bool {
	n, ok := v.(json.Number)
	if !ok {
		return false
	}
	a, ok1 := ratOf(n)
	c, ok2 := ratOf(json.Number(q))
	return ok1 && ok2 && a.Cmp(c) == 0
}

// meta compares the annotations of a schema node with the effective declaration.
func (m *metaCmp) meta(at string, s any, e *Eff) string {
	e.get()
	x, ok := s.(map[string]any)
	if !ok {
		return fmt.Sprintf("%s: schema is %T", at, s)
	}
	if r, ok := x["$ref"].(string); ok {
		if len(x) != 1 && at != "" {
			return fmt.Sprintf("%s: keywords beside $ref are lost: %s", at, jsonText(x))
		}
		t, err := m.doc.resolve(r)
		if err != nil {
			return err.Error()
		}
		k := [2]any{fmt.Sprintf("%p", t), e}
		if m.seen[k] {
			return ""
		}
		m.seen[k] = true
		return m.meta(at+"->"+r, t, e)
	}
	m.n++
	str := func(key string, want *string) string {
		g, has := x[key]
		w := ""
		if want != nil {
			w = *want
		}
		if has && g != any(w) || !has && w != "" {
			return fmt.Sprintf("%s: %s is %s, declared %q", at, key, jsonText(g), w)
		}
		return ""
	}
	if d := str("title", e.DisplayName); d != "" {
		return d
	}
	if d := str("description", e.Description); d != "" {
		return d
	}
	if e.Default != nil && e.Default.V != nil {
		if g, has := x["default"]; !has || !sameValue(rounded(g), rounded(e.Default.V)) {
			return fmt.Sprintf("%s: default is %s, declared %s", at, jsonText(g), jsonText(e.Default.V))
		}
	} else if _, has := x["default"]; has {
		return at + ": undeclared default"
	}
	var exs []any
	for _, v := range e.Examples {
		exs = append(exs, v.V)
	}
	if e.Example != nil {
		exs = []any{e.Example.V}
	}
	g, _ := x["examples"].([]any)
	if len(g) != len(exs) {
		return fmt.Sprintf("%s: examples %s, declared %s", at, jsonText(g), jsonText(exs))
	}
	for i := range g {
		if !sameValue(rounded(g[i]), rounded(exs[i])) {
			return fmt.Sprintf("%s: examples %s, declared %s", at, jsonText(g), jsonText(exs))
		}
	}
	if e.Kind == "json" {
		return ""
	}
	if e.MultipleOf != nil != (x["multipleOf"] != nil) || e.MultipleOf != nil && !numEq(x["multipleOf"], jsonText(*e.MultipleOf)) {
		return fmt.Sprintf("%s: multipleOf is %v", at, x["multipleOf"])
	}
	wantFmt := ""
	switch e.Kind {
	case "datetime":
		if e.Format == nil || *e.Format == "rfc3339" {
			wantFmt = "date-time"
		}
	case "date-only":
		wantFmt = "date"
	case "time-only":
		wantFmt = "time"
	}
	if e.Kind != "integer" && e.Kind != "number" && e.Kind != "string" {
		if f, _ := x["format"].(string); f != wantFmt {
			return fmt.Sprintf("%s: format is %q, should be %q", at, f, wantFmt)
		}
	}
	if e.Kind == "file" {
		if x["contentEncoding"] != any("base64") {
			return at + ": contentEncoding is missing"
		}
		if len(e.FileTypes) > 0 && x["contentMediaType"] != any(e.FileTypes[0]) {
			return fmt.Sprintf("%s: contentMediaType is %v, declared %v", at, x["contentMediaType"], e.FileTypes)
		}
	} else if x["contentEncoding"] != nil {
		return at + ": contentEncoding on " + e.Kind
	}
	if m.ext {
		fd, _ := x["x-facet-data"].(map[string]any)
		if len(fd) != len(e.Custom) {
			return fmt.Sprintf("%s: x-facet-data %s, declared %d facets", at, jsonText(fd), len(e.Custom))
		}
		for _, c := range e.Custom {
			if v, has := fd[c.Name]; !has || !sameValue(rounded(v), rounded(c.V)) {
				return fmt.Sprintf("%s: x-facet-data %s, declared %s=%s", at, jsonText(fd), c.Name, jsonText(c.V))
			}
		}
		an, _ := x["x-annotations"].(map[string]any)
		if len(an) != len(e.Annots) {
			return fmt.Sprintf("%s: x-annotations %s, declared %d", at, jsonText(an), len(e.Annots))
		}
		for _, a := range e.Annots {
			if v, has := an[a.Name]; !has || a.Raw == "" && !sameValue(rounded(v), rounded(a.V)) {
				return fmt.Sprintf("%s: x-annotations %s, declared %s=%s", at, jsonText(an), a.Name, jsonText(a.V))
			}
			m.anns++
		}
		fdef, _ := x["x-facet-definitions"].(map[string]any)
		if len(fdef) != len(e.FacetDefs) {
			return fmt.Sprintf("%s: x-facet-definitions %s, declared %d", at, jsonText(fdef), len(e.FacetDefs))
		}
		for _, d := range e.FacetDefs {
			if fdef[d.Name] == nil {
				return fmt.Sprintf("%s: x-facet-definitions lack %s", at, d.Name)
			}
			if r := m.meta(at+"/x-facet "+d.Name, fdef[d.Name], d.E); r != "" {
				return r
			}
		}
	}
	sub := func(k string, c any, e *Eff) string {
		return m.meta(at+"/"+k, c, e)
	}
	switch e.Kind {
	case "array":
		if (e.Items != nil) != (x["items"] != nil) {
			return at + ": items"
		}
		if e.Items != nil {
			return sub("items", x["items"], e.Items)
		}
	case "object":
		ps, _ := x["properties"].(map[string]any)
		if len(ps) != len(e.Props) {
			return fmt.Sprintf("%s: %d properties, declared %d", at, len(ps), len(e.Props))
		}
		var want []string
		for _, p := range e.Props {
			want = append(want, p.Name)
			if r := sub(p.Name, ps[p.Name], p.E); r != "" {
				return r
			}
		}
		if len(want) > 0 {
			if got := m.doc.order[reflect.ValueOf(ps).Pointer()]; strings.Join(got, "\x00") != strings.Join(want, "\x00") {
				return fmt.Sprintf("%s: properties in order %q, declared %q", at, got, want)
			}
		}
		pp, _ := x["patternProperties"].(map[string]any)
		if len(pp) != len(e.PProps) {
			return fmt.Sprintf("%s: %d pattern properties, declared %d", at, len(pp), len(e.PProps))
		}
		for _, p := range e.PProps {
			if r := sub("/"+p.Name+"/", pp[p.Name], p.E); r != "" {
				return r
			}
		}
	case "union":
		a, _ := x["anyOf"].([]any)
		if len(a) != len(e.Members) && repeatedKinds(e.Members) {
			return "" // a merge may repeat equal members or not; the verdicts are compared all the same
		}
		if len(a) != len(e.Members) {
			return fmt.Sprintf("%s: %d alternatives, declared %d", at, len(a), len(e.Members))
		}
		for i, q := range e.Members {
			if r := sub(fmt.Sprint(i), a[i], q); r != "" {
				return r
			}
		}
	}
	return ""
}

func repeatedKinds(ms []*Eff) bool {
	n := map[string]int{}
	for _, x := range ms {
		if n[x.get().Kind]++; n[x.Kind] > 1 {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C07", Rule: "case = random valid project (40% with recursive types); every declared type is converted with the plain and the x- extending converter. Monitors: the document is well-formed draft-07 and every $ref resolves; an independent draft-07 validator accepts exactly the values the declaration accepts (format kinds as annotations, values with overlapping patterns or embedded schemas left out); title, description, default, examples, multipleOf, format, content keywords, x- annotations and property order equal the declared ones at every node; the type is unchanged by conversion; the same and a fresh converter give the same bytes again, also after converting other types. Distinct: (kind, facets in force, has $ref, verdict)",
		Quick: 2500, Thorough: 250000, Fixed: 1,
		Require: map[string]int{"schemas": 10000, "accepted": 15000, "rejected": 15000, "refs_followed": 300, "nodes": 30000},
		Run: func(c *Case) {
			if c.Idx == 0 {
				embeddedRefCase(c)
				return
			}
			if c.Idx%20 == 0 {
				sameNameCase(c)
				if c.Failed() {
					return
				}
			}
			o := fullOpts()
			o.Types = 8
			o.Recursion = c.R.P(40)
			pr, ref, l, ok := c.prepare(o, randStyle(c.R))
			if !ok {
				return
			}
			fail := func(d declShape, f string, a ...any) {
				c.Violate("%s: %s\n%s", d.name, fmt.Sprintf(f, a...), clip(allFiles(c.files), 3000))
			}
			cv, err := raml.NewJSONSchemaConverter(raml.WithWrapper(plainWrapper))
			if err != nil {
				c.Violate("no converter: %v", err)
				return
			}
			ds := l.all(pr, ref)
			texts := make([]string, len(ds))
			for i, d := range ds {
				before := dump(d.b, viewOpts{pos: true})
				for _, ext := range []bool{false, true} {
					t, err := convert(d.b, ext)
					if err != nil {
						fail(d, "conversion fails: %v", err)
						return
					}
					c.Eval(1)
					c.Count("schemas", 1)
					doc, err := parseSchema([]byte(t))
					if err != nil {
						fail(d, "the schema is not JSON: %v\n%s", err, t)
						return
					}
					root, _ := doc.root.(map[string]any)
					if root["$schema"] != any("http://json-schema.org/draft-07/schema") && root["$schema"] != any("http://json-schema.org/draft-07/schema#") {
						fail(d, "$schema is %v", root["$schema"])
						return
					}
					d.e.get()
					if !strings.Contains(t, "contains") && !hasJSONKind(d.e) {
						if err := doc.wellFormed("", doc.root, ext); err != nil {
							fail(d, "not a draft-07 schema: %v\n%s", err, t)
							return
						}
					}
					mc := &metaCmp{doc: doc, seen: map[[2]any]bool{}, ext: ext}
					if m := mc.meta("", doc.root, d.e); m != "" {
						fail(d, "schema and declaration differ (extended=%v): %s\n%s", ext, m, clip(t, 1500))
						return
					}
					c.Count("nodes", mc.n)
					c.Count("annotations", mc.anns)
					if t2, _ := convert(d.b, ext); t2 != t {
						fail(d, "a second conversion gives another document:\n%s\n%s", t, t2)
						return
					}
					if ext {
						continue
					}
					texts[i] = t
					for _, v := range genValues(c.R, d.e, 10) {
						want, known := schemaAccept(d.e, v)
						if !known {
							c.Count("values_left_open", 1)
							continue
						}
						doc.refs = 0
						got, err := doc.valid(doc.root, v, 0)
						if err != nil {
							fail(d, "schema cannot be evaluated: %v\n%s", err, t)
							return
						}
						c.Count("refs_followed", doc.refs-1)
						c.Key(d.e.Kind, facetKey(d.e), fmt.Sprint(want, doc.refs > 1))
						if want {
							c.Count("accepted", 1)
						} else {
							c.Count("rejected", 1)
						}
						if got != want {
							fail(d, "value %s: the schema says %v, the declaration says %v\n%s", jsonText(v), got, want, clip(t, 1500))
							return
						}
					}
				}
				if after := dump(d.b, viewOpts{pos: true}); after != before {
					fail(d, "conversion changes the type:\n%s\n%s", before, after)
					return
				}
			}
			for _, i := range c.R.Perm(len(ds)) { // one converter used for everything
				s, err := cv.Convert(ds[i].b.Shape)
				if err != nil {
					fail(ds[i], "conversion by a used converter fails: %v", err)
					return
				}
				t, _ := json.Marshal(s)
				c.Eval(1)
				if string(t) != texts[i] {
					fail(ds[i], "a used converter gives another document:\n%s\n%s", texts[i], t)
					return
				}
			}
			if c.Idx < 3 && len(texts) > 0 {
				c.Sample(clip(texts[0], 1000))
			}
		}})
}

func hasJSONKind(e *Eff) bool {
	has := false
	e.walk(map[*Eff]bool{}, func(x *Eff) { has = has || x.Kind == "json" })
	return has
}

// sameNameCase: recursive types whose names coincide (in different libraries, or with awkward characters) must keep
// separate definitions.
func sameNameCase(c *Case) {
	r := c.R.Fork("same")
	a := &Frag{Kind: FLibrary, Path: "main.raml"}
	bl := &Frag{Kind: FLibrary, Path: "other.raml"}
	a.Uses = []*Use{{Alias: "o", To: bl}}
	name := r.Pick("Node", "T_2", "x y", "a%b", "ünï", "a~1b", "N", "q?z#f")
	leaf := []string{"string", "integer", "boolean"}
	mk := func(f *Frag, n, prop string, kind string) *Decl {
		d := f.add(n, nil)
		d.T = &TNode{Ref: b("object"), HasProps: true, AddlProps: pt(false), Props: []*Prop{{Name: prop, Required: true, T: bi(kind)}, oprop("next", inl(rn(d)))}}
		return d
	}
	n1 := mk(a, name, "v", leaf[r.N(3)])
	n2 := mk(bl, name, "w", leaf[r.N(3)])
	n3 := mk(a, name+"_2", "u", leaf[r.N(3)])
	root := a.add("Root", &TNode{Ref: b("object"), HasProps: true, Props: []*Prop{oprop("p1", inl(rn(n1))), oprop("p2", inl(rn(n2))), oprop("p3", inl(rn(n3)))}})
	if plainKey.FindString(name) == "" || strings.ContainsAny(name, " %~?#ü") { // not usable in type expressions
		nm := "N1"
		n1.Name, n2.Name, n3.Name = nm, nm, nm+"_2"
	}
	pr := &Project{Frags: []*Frag{a, bl}}
	ref := NewRef(pr)
	files := pr.Render(randStyle(r))
	c.Source(files)
	l, err := c.load(files, "main.raml", true, true)
	if err != nil {
		c.Violate("a valid project with recursive types is rejected: %v", err)
		return
	}
	for _, d := range []*Decl{n1, n2, n3, root} {
		t, err := convert(l.decl(d), false)
		if err != nil {
			c.Violate("conversion fails: %v", err)
			return
		}
		doc, err := parseSchema([]byte(t))
		if err == nil {
			err = doc.wellFormed("", doc.root, false)
		}
		if err != nil {
			c.Violate("%s: %v\n%s", d.Name, err, t)
			return
		}
		for _, v := range genValues(r, ref.decl(d), 24) {
			want := ref.accept(ref.decl(d), v)
			got, err := doc.valid(doc.root, v, 0)
			c.Count("same_name_values", 1)
			if err != nil || got != want {
				c.Violate("%s: value %s: the schema says %v (%v), the declaration says %v\n%s", d.Name, jsonText(v), got, err, want, t)
				return
			}
		}
	}
}

// embeddedRefCase is a recorded finding: references inside an embedded schema are relative to that schema, but Convert
// places it deeper in its document without adjusting them.
func embeddedRefCase(c *Case) {
	files := map[string]string{"main.raml": "#%RAML 1.0 Library\ntypes:\n  T: |\n    {\"type\":\"object\",\"properties\":{\"p\":{\"$ref\":\"#/definitions/a\"}},\"definitions\":{\"a\":{\"type\":\"string\"}}}\n"}
	c.Source(files)
	l, err := c.load(files, "main.raml", true, true)
	if err != nil {
		c.Violate("an embedded JSON schema is rejected: %v", err)
		return
	}
	for p := l.lib("main.raml").Types.Oldest(); p != nil; p = p.Next() {
		t, err := convert(p.Value, false)
		if err != nil {
			c.Violate("conversion fails: %v", err)
			return
		}
		c.Eval(1)
		doc, err := parseSchema([]byte(t))
		if err == nil {
			err = doc.wellFormed("", doc.root, false)
		}
		if err != nil {
			c.ViolateSig("embedded-ref", "%v\n%s", err, t)
		}
	}
}
