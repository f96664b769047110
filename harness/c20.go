package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/acronis/go-raml/v2"
	orderedmap "github.com/wk8/go-ordered-map/v2"
	"gopkg.in/yaml.v3"
)

// mirror walks the public model next to the project that was printed.
type mirror struct {
	l      *Loaded
	out    []string
	n      map[string]int
	seen   map[*raml.BaseShape]bool
	anns   map[*raml.DomainExtension]bool
	frags  map[string]bool
	shapes map[*raml.BaseShape]bool   // shapes that the source accounts for
	at     map[string]map[[2]int]bool // where the YAML nodes of a file begin
}

func (m *mirror) bad(at, f string, a ...any) {
	if len(m.out) < 6 {
		m.out = append(m.out, at+": "+fmt.Sprintf(f, a...))
	}
}

func (m *mirror) eq(at, what string, got, want any) {
	m.n["facts"]++
	if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
		m.bad(at, "%s: got %s, declared %s", what, g, w)
	}
}

func (m *mirror) val(at, what string, n *raml.Node, want any) {
	m.n["facts"]++
	if n == nil {
		m.bad(at, "%s is missing, declared %s", what, jsonText(want))
		return
	}
	if !sameValue(plain(n.Value), plain(want)) || !sameShape(n.Value, want) {
		m.bad(at, "%s: got %s (%T), declared %s", what, jval(n.Value), n.Value, jsonText(want))
	}
}

// sameShape: the decoded value consists of plain data of the same kinds.
func sameShape(got, want any) bool {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for k, v := range w {
			x, has := g[k]
			if !has || !sameShape(x, v) {
				return false
			}
		}
		return true
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !sameShape(g[i], w[i]) {
				return false
			}
		}
		return true
	case string:
		_, ok := got.(string)
		return ok
	case bool:
		_, ok := got.(bool)
		return ok
	case nil:
		return got == nil
	}
	switch reflect.ValueOf(got).Kind() {
	case reflect.Int, reflect.Int64, reflect.Uint64, reflect.Float64:
		return true
	}
	return false
}

func omKeys[V any](m *orderedmap.OrderedMap[string, V]) []string {
	var out []string
	if m != nil {
		for p := m.Oldest(); p != nil; p = p.Next() {
			out = append(out, p.Key)
		}
	}
	return out
}

// pos checks that a position is one of a YAML node of the file.
func (m *mirror) pos(at, what, loc string, line, col int) {
	if !strings.HasSuffix(loc, ".raml") {
		return
	}
	at0, ok := m.at[loc]
	if !ok {
		if d, err := os.ReadFile(loc); err == nil {
			var n yaml.Node
			if yaml.Unmarshal(d, &n) == nil {
				at0 = map[[2]int]bool{}
				var walk func(n *yaml.Node)
				walk = func(n *yaml.Node) {
					at0[[2]int{n.Line, n.Column}] = true
					for _, x := range n.Content {
						walk(x)
					}
				}
				walk(&n)
			}
		}
		if m.at == nil {
			m.at = map[string]map[[2]int]bool{}
		}
		m.at[loc] = at0
	}
	if at0 == nil {
		return
	}
	m.n["positions"]++
	if !at0[[2]int{line, col}] {
		m.bad(at, "%s is at %s:%d:%d: nothing begins there", what, loc, line, col)
	}
}

func (m *mirror) abs(p string) string { return filepath.Join(m.l.Root, p) }

// order returns the names of the declarations sorted by the lines they were printed at.
func order[T any](xs []T, line func(T) int, name func(T) string) []string {
	ys := append([]T{}, xs...)
	sort.SliceStable(ys, func(i, j int) bool { return line(ys[i]) < line(ys[j]) })
	var out []string
	for _, y := range ys {
		out = append(out, name(y))
	}
	return out
}

func (m *mirror) annots(at, file string, got *orderedmap.OrderedMap[string, *raml.DomainExtension], want []*AnnApply) {
	if got == nil {
		m.bad(at, "annotations are nil")
		return
	}
	m.eq(at, "annotations", omKeys(got), order(want, func(a *AnnApply) int { return a.Line }, func(a *AnnApply) string { return a.Name }))
	for _, a := range want {
		de, ok := got.Get(a.Name)
		if !ok || de == nil {
			continue
		}
		m.n["annotations"]++
		m.anns[de] = true
		m.eq(at, "annotation name", de.Name, a.Name)
		m.val(at, "annotation "+a.Name, de.Extension, a.V)
		m.eq(at, "annotation position", fmt.Sprintf("%s:%d", de.Location, de.Line), fmt.Sprintf("%s:%d", m.abs(file), a.Line))
		m.pos(at, "annotation "+a.Name, de.Location, de.Line, de.Column)
		if de.DefinedBy != m.l.decl(a.Decl) {
			m.bad(at, "annotation %s is defined by %v, declared %s", a.Name, de.DefinedBy, a.Decl.Name)
		}
	}
}

func (m *mirror) example(at string, got *raml.Example, want *Ex) {
	if (got == nil) != (want == nil) {
		m.bad(at, "example: present %v, declared %v", got != nil, want != nil)
		return
	}
	if got == nil {
		return
	}
	m.n["examples"]++
	m.eq(at, "example name", got.Name, want.Name)
	m.val(at, "example "+want.Name, got.Data, want.V)
	s := func(p *string) string {
		if p == nil {
			return ""
		}
		return *p
	}
	wrapped := want.Form == 3
	dn, ds, strict := "", "", true
	if wrapped {
		dn, ds = s(want.DispNm), s(want.Descr)
		if want.Strict != nil {
			strict = *want.Strict
		}
	}
	m.eq(at, "example displayName", got.DisplayName, dn)
	m.eq(at, "example description", got.Description, ds)
	m.eq(at, "example strict", got.Strict, strict)
	m.eq(at, "example location", got.Location, m.abs(want.InFile))
	if got.Line < want.Line || got.Line > want.End {
		m.bad(at, "example %s is at line %d, declared at %d..%d", want.Name, got.Line, want.Line, want.End)
	}
	m.pos(at, "example "+want.Name, got.Location, got.Line, got.Column)
	if got.Data != nil && got.Data.Location == got.Location {
		m.pos(at, "example value "+want.Name, got.Data.Location, got.Data.Line, got.Data.Column)
	}
	var as []*AnnApply
	if wrapped {
		as = want.Annots
	}
	m.annots(at+" example", want.InFile, got.CustomDomainProperties, as)
}

func (m *mirror) kindOf(t *TNode) string {
	if t.Null {
		return "string"
	}
	if t.Ref == nil {
		return inferKind(t)
	}
	return m.kindOfRef(t.Ref, t)
}

func (m *mirror) kindOfRef(x *TRef, t *TNode) string {
	switch x.K {
	case RBuiltin:
		return x.Name
	case RJSON:
		return "json"
	case RNamed:
		return m.kindOf(x.Decl.T)
	case RInclude:
		return m.kindOf(x.Frag.DT)
	case RGroup, RMulti:
		return m.kindOfRef(x.Sub[0], t)
	case RArray:
		return "array"
	}
	return "union"
}

// node compares one declaration.
func (m *mirror) node(at string, f *Frag, name string, t *TNode, b *raml.BaseShape) {
	if b == nil || b.Shape == nil {
		m.bad(at, "no shape")
		return
	}
	if m.seen[b] {
		m.bad(at, "shape %q is used for two declarations", b.Name)
		return
	}
	m.seen[b] = true
	m.shapes[b] = true
	m.n["declarations"]++
	m.eq(at, "name", b.Name, name)
	m.eq(at, "location", b.Location, m.abs(f.Path))
	line, col := t.VLine, t.Col
	if f.DT == t {
		line, col = 1, 0
	}
	m.eq(at, "line", b.Line, line)
	if t.Null {
		col = b.Column
	}
	m.eq(at, "column", b.Column, col)
	if b.Base() != b {
		m.bad(at, "the shape does not point back to its base")
	}
	body := !t.Inline && !t.Null
	z := &TNode{}
	if body {
		z = t
	}
	m.eq(at, "displayName", strp(b.DisplayName), strp(z.DisplayName))
	m.eq(at, "description", strp(b.Description), strp(z.Description))
	m.eq(at, "required", boolp(b.Required), boolp(z.RequiredFacet))
	m.example(at, b.Example, z.Example)
	if (b.Default == nil) != (z.Default == nil) {
		m.bad(at, "default: present %v, declared %v", b.Default != nil, z.Default != nil)
	} else if z.Default != nil {
		m.n["examples"]++
		m.val(at, "default", b.Default, z.Default.V)
		if b.Default.Line < z.Default.Line || b.Default.Line > z.Default.End {
			m.bad(at, "default is at line %d, declared at %d..%d", b.Default.Line, z.Default.Line, z.Default.End)
		}
		m.pos(at, "default", b.Default.Location, b.Default.Line, b.Default.Column)
	}
	xs := exampleMap(b)
	m.eq(at, "examples are present", b.Examples != nil, len(z.Examples) > 0)
	if b.Examples != nil && len(z.Examples) > 0 {
		m.eq(at, "examples location", b.Examples.Location, m.abs(f.Path))
		m.eq(at, "examples are included", b.Examples.Link != nil, z.NamedEx)
		if z.NamedEx && b.Examples.Link != nil {
			m.eq(at, "examples file", b.Examples.Link.Location, m.abs(z.NamedFile))
			m.frags[m.abs(z.NamedFile)] = true
			if m.l.R.GetFragment(m.abs(z.NamedFile)) != raml.Fragment(b.Examples.Link) {
				m.bad(at, "the included examples are not the fragment %s", z.NamedFile)
			}
		}
		var want []string
		for _, x := range z.Examples {
			want = append(want, x.Name)
		}
		m.eq(at, "examples", omKeys(xs), want)
		for _, x := range z.Examples {
			if xs != nil {
				g, _ := xs.Get(x.Name)
				m.example(at, g, x)
			}
		}
	}
	m.annots(at, f.Path, b.CustomDomainProperties, z.Annots)
	m.facetDefs(at, f, b, z.FacetDefs)
	if t.Null {
		m.eq(at, "kind", b.Type, "string")
		m.own(at, f, &TNode{}, b, false)
		return
	}
	if t.Ref == nil {
		m.eq(at, "kind", b.Type, inferKind(t))
		m.own(at, f, t, b, true)
		m.links(at, b, nil, nil, nil)
		return
	}
	m.ref(at, f, name, t, t.Ref, b, body)
}

func (m *mirror) facetDefs(at string, f *Frag, b *raml.BaseShape, want []*Prop) {
	var names []string
	for _, p := range want {
		names = append(names, p.Name)
	}
	m.eq(at, "facet definitions", omKeys(b.CustomShapeFacetDefinitions), names)
	for _, p := range want {
		if b.CustomShapeFacetDefinitions == nil {
			return
		}
		if g, ok := b.CustomShapeFacetDefinitions.Get(p.Name); ok {
			m.n["properties"]++
			m.eq(at, "facet definition name", g.Name, p.Name)
			m.eq(at, "facet definition "+p.Name+" required", g.Required, p.Required)
			m.node(at+".facets."+p.Name, f, propKey(p), p.T, g.Base)
		}
	}
}

func propKey(p *Prop) string {
	switch {
	case p.Pattern:
		return "/" + p.Name + "/"
	case !p.explicit() && !p.Required:
		return p.Name + "?"
	}
	return p.Name
}

// links compares what the declaration refers to.
func (m *mirror) links(at string, b, alias *raml.BaseShape, inherits []*raml.BaseShape, link *raml.DataType) {
	m.n["references"]++
	nm := func(x *raml.BaseShape) string {
		if x == nil {
			return "nothing"
		}
		return fmt.Sprintf("%s %s:%d", x.Name, x.Location, x.Line)
	}
	if b.Alias != alias {
		m.bad(at, "alias of %s, declared %s", nm(b.Alias), nm(alias))
	}
	if b.Link != link {
		m.bad(at, "includes %v, declared %v", b.Link, link)
	}
	if len(b.Inherits) != len(inherits) {
		m.bad(at, "%d parents, declared %d", len(b.Inherits), len(inherits))
		return
	}
	for i := range inherits {
		if b.Inherits[i] != inherits[i] {
			m.bad(at, "parent %d is %s, declared %s", i, nm(b.Inherits[i]), nm(inherits[i]))
		}
	}
}

// ref compares a declaration that is defined by a type expression. body: it may have facets of its own.
func (m *mirror) ref(at string, f *Frag, name string, t *TNode, x *TRef, b *raml.BaseShape, body bool) {
	for x.K == RGroup {
		x = x.Sub[0]
	}
	m.eq(at, "kind", b.Type, m.kindOfRef(x, t))
	own := t
	if !body {
		own = &TNode{}
	}
	switch x.K {
	case RBuiltin:
		m.links(at, b, nil, nil, nil)
		m.own(at, f, own, b, true)
	case RJSON:
		m.links(at, b, nil, nil, nil)
		if js, ok := b.Shape.(*raml.JSONShape); !ok || js.Raw != x.Name {
			m.bad(at, "JSON schema: got %T", b.Shape)
		} else {
			m.n["facts"]++
			if js.Schema == nil {
				m.bad(at, "the JSON schema is not decoded")
			}
		}
		m.own(at, f, own, b, false)
	case RNamed:
		target := m.l.decl(x.Decl)
		m.eq(at, "type label", b.TypeLabel, exprText(f, x, nil))
		if body {
			m.links(at, b, nil, []*raml.BaseShape{target}, nil)
		} else {
			m.links(at, b, target, nil, nil)
		}
		m.own(at, f, own, b, true)
	case RInclude:
		dt := m.l.dt(x.Frag.Path)
		if dt == nil {
			m.bad(at, "fragment %s is not loaded", x.Frag.Path)
		}
		m.links(at, b, nil, nil, dt)
		m.eq(at, "type label", b.TypeLabel, relPath(f.Path, x.Frag.Path))
		m.own(at, f, own, b, true)
	case RMulti:
		if b.Alias != nil || b.Link != nil || len(b.Inherits) != len(x.Sub) {
			m.bad(at, "%d parents, declared %d", len(b.Inherits), len(x.Sub))
			return
		}
		for i, s := range x.Sub {
			p := b.Inherits[i]
			m.anon(fmt.Sprintf("%s.parent %d", at, i), f, name, t, s, p, false)
		}
		m.own(at, f, own, b, true)
	case RArray:
		m.links(at, b, nil, nil, nil)
		if as, ok := b.Shape.(*raml.ArrayShape); !ok || as.Items == nil {
			m.bad(at, "%T without items", b.Shape)
		} else {
			m.anon(at+"[]", f, "", t, x.Sub[0], as.Items, true)
		}
		m.own(at, f, own, b, false)
	case ROpt, RUnion:
		m.links(at, b, nil, nil, nil)
		subs := x.Sub
		if x.K == ROpt {
			subs = []*TRef{x.Sub[0], {K: RBuiltin, Name: "nil"}}
		}
		us, ok := b.Shape.(*raml.UnionShape)
		if !ok || len(us.AnyOf) != len(subs) {
			m.bad(at, "%T is not a union of %d", b.Shape, len(subs))
			return
		}
		for i, s := range subs {
			m.anon(fmt.Sprintf("%s|%d", at, i), f, "", t, s, us.AnyOf[i], true)
		}
		m.own(at, f, own, b, false)
	}
}

// anon compares an anonymous item, member or parent of a type expression.
func (m *mirror) anon(at string, f *Frag, name string, t *TNode, x *TRef, b *raml.BaseShape, inBase bool) {
	if b == nil || b.Shape == nil {
		m.bad(at, "no shape")
		return
	}
	m.seen[b] = true
	m.shapes[b] = true
	m.eq(at, "name", b.Name, name)
	m.eq(at, "location", b.Location, m.abs(f.Path))
	if l := t.Line; b.Line < l && !(f.DT == t && b.Line == 1) || b.Line > t.End {
		m.bad(at, "line %d is outside of the declaration %d..%d", b.Line, l, t.End)
	}
	if f.DT != t {
		m.pos(at, "anonymous type", b.Location, b.Line, b.Column)
	}
	m.ref(at, f, name, t, x, b, false)
	m.eq(at, "documentation", strp(b.DisplayName)+strp(b.Description)+boolp(b.Required), "---")
	if b.Example != nil || b.Examples != nil || b.Default != nil || b.CustomDomainProperties.Len()+b.CustomShapeFacetDefinitions.Len() > 0 {
		m.bad(at, "an anonymous type has contents of its own")
	}
}

// own compares the facets of the kind written on the declaration and the facets of other types.
func (m *mirror) own(at string, f *Frag, t *TNode, b *raml.BaseShape, items bool) {
	m.n["facets"]++
	enum := func(ns raml.Nodes) {
		m.eq(at, "enum is present", ns != nil, t.HasEnum)
		m.eq(at, "enum length", len(ns), len(t.Enum))
		for i, n := range ns {
			if i < len(t.Enum) {
				m.val(at, fmt.Sprintf("enum %d", i), n, t.Enum[i])
				if n != nil && (n.Location != m.abs(f.Path) || n.Line < t.FacetLine["enum"] || n.Line > t.End) {
					m.bad(at, "enum member %d is at %s:%d", i, n.Location, n.Line)
				}
				if n != nil {
					m.pos(at, "enum member", n.Location, n.Line, n.Column)
				}
			}
		}
	}
	{
		cfs := t.Custom
		if _, js := b.Shape.(*raml.JSONShape); b.Type == "union" || js { // these take no other facets
			cfs = customOnly(t)
		}
		m.eq(at, "custom facets", omKeys(b.CustomShapeFacets), order(cfs, func(c *CF) int { return c.Line }, func(c *CF) string { return c.Name }))
		for _, cf := range cfs {
			if n, ok := b.CustomShapeFacets.Get(cf.Name); ok {
				m.val(at, "facet "+cf.Name, n, cf.V)
				if n != nil {
					m.pos(at, "facet "+cf.Name, n.Location, n.Line, n.Column)
					m.eq(at, "facet "+cf.Name+" position", fmt.Sprintf("%s:%d", n.Location, n.Line), fmt.Sprintf("%s:%d", m.abs(f.Path), cf.Line))
				}
			}
		}
	}
	switch s := b.Shape.(type) {
	case *raml.StringShape:
		m.eq(at, "length", u64p(s.MinLength)+".."+u64p(s.MaxLength), u64p(t.MinLength)+".."+u64p(t.MaxLength))
		p := "-"
		if s.Pattern != nil {
			p = "'" + s.Pattern.String() + "'"
		}
		m.eq(at, "pattern", p, strp(t.Pattern))
		enum(s.Enum)
	case *raml.FileShape:
		m.eq(at, "length", u64p(s.MinLength)+".."+u64p(s.MaxLength), u64p(t.MinLength)+".."+u64p(t.MaxLength))
		var w []any
		for _, x := range t.FileTypes {
			w = append(w, x)
		}
		m.eq(at, "fileTypes", enumText(nodesVals(s.FileTypes)), enumText(w))
	case *raml.IntegerShape:
		lo, hi := "-", "-"
		if s.Minimum != nil {
			lo = s.Minimum.String()
		}
		if s.Maximum != nil {
			hi = s.Maximum.String()
		}
		m.eq(at, "range", lo+".."+hi, ratp(numFacet(t.Minimum, false))+".."+ratp(numFacet(t.Maximum, false)))
		m.eq(at, "multipleOf", f64p(s.MultipleOf), f64p(t.MultipleOf))
		m.eq(at, "format", strp(s.Format), strp(t.Format))
		enum(s.Enum)
	case *raml.NumberShape:
		lo, hi := numFacet(t.Minimum, true), numFacet(t.Maximum, true)
		fl := func(f *float64) string {
			if f == nil {
				return "-"
			}
			return ratp(numFacet(pt(jsonText(*f)), true))
		}
		m.eq(at, "range", fl(s.Minimum)+".."+fl(s.Maximum), ratp(lo)+".."+ratp(hi))
		m.eq(at, "multipleOf", f64p(s.MultipleOf), f64p(t.MultipleOf))
		m.eq(at, "format", strp(s.Format), strp(t.Format))
		enum(s.Enum)
	case *raml.BooleanShape:
		enum(s.Enum)
	case *raml.DateTimeShape:
		m.eq(at, "format", strp(s.Format), strp(t.Format))
	case *raml.ArrayShape:
		m.eq(at, "items count", u64p(s.MinItems)+".."+u64p(s.MaxItems)+boolp(s.UniqueItems), u64p(t.MinItems)+".."+u64p(t.MaxItems)+boolp(t.Unique))
		if items {
			m.eq(at, "items are present", s.Items != nil, t.Items != nil)
			if t.Items != nil && s.Items != nil {
				m.node(at+".items", f, "items", t.Items, s.Items)
			}
		}
	case *raml.ObjectShape:
		m.eq(at, "size", u64p(s.MinProperties)+".."+u64p(s.MaxProperties)+boolp(s.AdditionalProperties), u64p(t.MinProps)+".."+u64p(t.MaxProps)+boolp(t.AddlProps))
		m.eq(at, "discriminator", strp(s.Discriminator), strp(t.Discriminator))
		m.eq(at, "discriminatorValue", fmt.Sprint(s.DiscriminatorValue), fmt.Sprint(t.DiscValue))
		var names, pats []string
		for _, p := range t.Props {
			if p.Pattern {
				pats = append(pats, p.Name)
			} else {
				names = append(names, p.Name)
			}
		}
		m.eq(at, "properties", omKeys(s.Properties), names)
		var got []string
		if s.PatternProperties != nil {
			for p := s.PatternProperties.Oldest(); p != nil; p = p.Next() {
				got = append(got, p.Value.Pattern.String())
			}
		}
		m.eq(at, "pattern properties", got, pats)
		for _, p := range t.Props {
			m.n["properties"]++
			if !p.Pattern {
				if s.Properties == nil {
					continue
				}
				if g, ok := s.Properties.Get(p.Name); ok {
					m.eq(at, "property name", g.Name, p.Name)
					m.eq(at, "property "+p.Name+" required", g.Required, p.Required)
					m.node(at+"."+p.Name, f, propKey(p), p.T, g.Base)
				}
				continue
			}
			if s.PatternProperties == nil {
				continue
			}
			for q := s.PatternProperties.Oldest(); q != nil; q = q.Next() {
				if q.Value.Pattern.String() == p.Name {
					m.node(at+"./"+p.Name+"/", f, propKey(p), p.T, q.Value.Base)
				}
			}
		}
	}
}

func (m *mirror) uses(at string, f *Frag, got *orderedmap.OrderedMap[string, *raml.LibraryLink]) {
	var names []string
	for _, u := range f.Uses {
		names = append(names, u.Alias)
	}
	m.eq(at, "uses", omKeys(got), names)
	for _, u := range f.Uses {
		if got == nil {
			return
		}
		g, ok := got.Get(u.Alias)
		if !ok || g == nil {
			continue
		}
		m.n["uses"]++
		m.eq(at, "uses "+u.Alias, g.Value, relPath(f.Path, u.To.Path))
		m.eq(at, "uses "+u.Alias+" position", fmt.Sprintf("%s:%d", g.Location, g.Line), fmt.Sprintf("%s:%d", m.abs(f.Path), u.Line))
		m.pos(at, "uses "+u.Alias, g.Location, g.Line, g.Column)
		if g.Link == nil || g.Link != m.l.lib(u.To.Path) {
			m.bad(at, "uses %s is not the library %s", u.Alias, u.To.Path)
		}
	}
}

func (m *mirror) frag(f *Frag) {
	at := f.Path
	m.frags[m.abs(f.Path)] = true
	if f.Kind != FLibrary {
		dt := m.l.dt(f.Path)
		if dt == nil {
			m.bad(at, "the data type is missing")
			return
		}
		m.eq(at, "location", dt.Location, m.abs(f.Path))
		m.eq(at, "usage", dt.Usage, f.Usage)
		m.uses(at, f, dt.Uses)
		if f.Kind == FJSON {
			if dt.Shape == nil {
				m.bad(at, "no shape")
				return
			}
			m.shapes[dt.Shape] = true
			js, ok := dt.Shape.Shape.(*raml.JSONShape)
			if !ok || js.Raw != f.DT.Ref.Name || dt.Shape.Location != m.abs(f.Path) || dt.Shape.Name != filepath.Base(f.Path) {
				m.bad(at, "JSON data type: %s", dt.Shape)
			}
			return
		}
		m.node(at, f, filepath.Base(f.Path), f.DT, dt.Shape)
		return
	}
	lib := m.l.lib(f.Path)
	if lib == nil {
		m.bad(at, "the library is missing")
		return
	}
	m.eq(at, "location", lib.Location, m.abs(f.Path))
	m.eq(at, "usage", lib.Usage, f.Usage)
	m.uses(at, f, lib.Uses)
	m.annots(at, f.Path, lib.CustomDomainProperties, f.Apply)
	for _, sec := range []struct {
		what string
		ds   []*Decl
		got  *orderedmap.OrderedMap[string, *raml.BaseShape]
		get  func(string, string) (*raml.BaseShape, error)
	}{{"types", f.Types, lib.Types, m.l.R.GetTypeFromFragmentPtr}, {"annotationTypes", f.Anns, lib.AnnotationTypes, m.l.R.GetAnnotationTypeFromFragmentPtr}} {
		var names []string
		for _, d := range sec.ds {
			names = append(names, d.Name)
		}
		m.eq(at, sec.what, omKeys(sec.got), names)
		for _, d := range sec.ds {
			if sec.got == nil {
				break
			}
			b, ok := sec.got.Get(d.Name)
			if !ok {
				continue
			}
			m.node(at+"#"+d.Name, f, d.Name, d.T, b)
			if x, err := sec.get(m.abs(f.Path), d.Name); err != nil || x != b {
				m.bad(at+"#"+d.Name, "lookup by file and name gives %v, %v", x, err)
			}
		}
	}
	ptrs := m.l.R.GetFragmentTypePtrs(m.abs(f.Path))
	m.eq(at, "number of types by file", len(ptrs), len(f.Types))
}

func c20Run(c *Case) {
	o := fullOpts()
	o.Types = c.R.Range(2, 12)
	o.Depth = c.R.Range(1, 4)
	o.Recursion = c.R.P(30)
	o.Derive = c.R.N(60)
	pr, ref := genProject(c.R.Fork("gen"), o)
	if len(ref.Verdict()) > 0 {
		c.Count("generator_rejects", 1)
		return
	}
	if r := c.R.Fork("entry"); r.P(15) && dataTypeEntry(r, pr, true) != nil {
		c.Count("datatype_entries", 1)
	}
	for _, f := range pr.Frags {
		if f.Kind == FDataType && c.R.P(30) {
			f.Usage = c.R.Pick("use it", "multi\nline", " spaces ", "q: \"x\"")
		}
	}
	if r := c.R.Fork("names"); r.P(30) { // names that no expression can mention
		for _, f := range pr.Frags {
			if f.Kind != FLibrary || !r.P(50) {
				continue
			}
			base := "Odd"
			if len(f.Types) > 0 && r.P(70) {
				base = f.Types[r.N(len(f.Types))].Name
			}
			n := r.Pick(base+" ", " "+base, base+"  x", base+"?", base+"[]", base+"|b", base+"\t", base+"#", base+": ", "("+base+")", strings.ToLower(base)+".", "."+base, "/"+base+"/", base+"\n")
			t := bi(r.Pick("string", "integer", "boolean", "nil", "any"))
			if r.P(50) {
				f.add(n, t)
			} else {
				f.ann(n, t)
			}
			c.Count("odd_names", 1)
		}
	}
	if r := c.R.Fork("breaks"); r.P(40) {
		pr.walk(func(f *Frag, t *TNode) {
			for _, x := range append([]*Ex{t.Example, t.Default}, t.Examples...) {
				if x != nil && r.P(30) {
					x.V = addBreak(r, x.V)
				}
			}
			for _, a := range t.Annots {
				if r.P(30) {
					a.V = addBreak(r, a.V)
				}
			}
		})
	}
	respellAll(c.R.Fork("spell"), pr)
	if c.R.P(25) {
		for i := 0; i < c.R.Range(1, 3); i++ {
			breakProject(c.R, pr, ref)
		}
		c.Count("invalid_but_well_formed", 1)
	}
	files := pr.Render(randStyle(c.R))
	c.Source(files)
	entry := pr.Frags[0].Path
	root := c.newRoot()
	writeFiles(root, files)
	for i, ld := range []func(string, string, bool, bool) (*Loaded, error){loadPath, loadString} {
		l, err := ld(root, entry, false, false)
		c.Eval(1)
		if err != nil {
			c.Violate("a well-formed project is not parsed (%d): %v\n%s", i, err, clip(allFiles(files), 3000))
			return
		}
		m := &mirror{l: l, n: map[string]int{}, seen: map[*raml.BaseShape]bool{}, anns: map[*raml.DomainExtension]bool{}, frags: map[string]bool{}, shapes: map[*raml.BaseShape]bool{}}
		reached := pr.fragsReached()
		for _, f := range reached {
			m.frag(f)
		}
		// nothing else
		for _, b := range l.R.GetShapes() {
			if !m.shapes[b] {
				m.bad("GetShapes", "shape %q (%s) at %s:%d was not declared", b.Name, b.Type, b.Location, b.Line)
			}
			delete(m.shapes, b)
		}
		for b := range m.shapes {
			m.bad("GetShapes", "shape %q at %s:%d is missing", b.Name, b.Location, b.Line)
		}
		m.eq("annotations", "number", len(l.R.GetAllAnnotationsPtr()), len(m.anns))
		for _, de := range l.R.GetAllAnnotationsPtr() {
			if !m.anns[de] {
				m.bad("annotations", "%s at %s:%d was not declared", de.Name, de.Location, de.Line)
			}
		}
		ptrs := l.R.GetAllAnnotationsPtr()
		for i, de := range l.R.GetAllAnnotations() {
			if i >= len(ptrs) || de.Name != ptrs[i].Name || de.Line != ptrs[i].Line || de.Column != ptrs[i].Column || de.Location != ptrs[i].Location ||
				de.Extension != ptrs[i].Extension || de.DefinedBy != ptrs[i].DefinedBy {
				m.bad("annotations", "%d by value is %s at %s:%d", i, de.Name, de.Location, de.Line)
			}
		}
		m.eq("annotations", "number by value", len(l.R.GetAllAnnotations()), len(ptrs))
		for p := range files {
			if p := m.abs(p); (l.R.GetFragment(p) != nil) != m.frags[p] {
				m.bad(p, "fragment is loaded: %v, used: %v", l.R.GetFragment(p) != nil, m.frags[p])
			}
		}
		if l.R.EntryPoint() != l.R.GetFragment(m.abs(entry)) || l.R.GetLocation() != m.abs(entry) {
			m.bad("entry point", "is %s", l.R.GetLocation())
		}
		for k, v := range m.n {
			c.Count(k, v)
		}
		c.Key(fmt.Sprint(len(reached), m.n["declarations"]/4, m.n["examples"], m.n["annotations"], m.n["uses"]))
		if len(m.out) > 0 {
			c.Violate("the model differs from the source (%d): %v\n%s", i, m.out, clip(allFiles(files), 3500))
			return
		}
	}
	for _, d := range pr.decls() {
		c.Key("kind", ref.decl(d).get().Kind, facetKey(ref.decl(d)))
	}
	if c.Idx < 3 {
		c.Sample(clip(allFiles(files), 1200))
	}
}

func init() {
	register(&Check{ID: "C20", Rule: "case = random project (libraries, data types, JSON schema files, NamedExample fragments; 25% with semantic edits that make it invalid but leave it well-formed), printed in a random layout, parsed without unwrapping from its path and from a string. Monitor: a walk of the whole public model next to the abstract project that was printed: names, order, required flags, kinds (given, referenced or determined by facets), every own facet, enum members, examples, defaults, annotations with the type that defines them, facet definitions and values, documentation, aliases, parents, includes, uses, files and lines (columns for declarations), and that GetShapes, GetAllAnnotations, the fragment cache and the lookups by file contain exactly what was declared. Distinct: (fragments, declarations, examples, annotations, uses) and (kind, facets)",
		Quick: 20000, Thorough: 800000,
		Require: map[string]int{"declarations": 300000, "facts": 5000000, "properties": 100000, "examples": 30000, "annotations": 20000, "references": 200000, "uses": 20000},
		Run:     c20Run})
}
