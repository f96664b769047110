package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/acronis/go-raml/v2"
	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---------------------------------------------------------------- running the code under test

func writeFiles(dir string, files map[string]string) {
	for p, s := range files {
		full := filepath.Join(dir, filepath.FromSlash(p))
		if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(full, []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
}

func opts(unwrap, validate bool) []raml.ParseOpt {
	var o []raml.ParseOpt
	if unwrap {
		o = append(o, raml.OptWithUnwrap())
	}
	if validate {
		o = append(o, raml.OptWithValidate())
	}
	return o
}

// Loaded is a project on disk and the model made from it.
type Loaded struct {
	Root  string
	Entry string
	R     *raml.RAML
}

var dirSeq int

func (c *Case) newRoot() string {
	dirSeq++
	d := filepath.Join(c.Dir(), fmt.Sprintf("p%d", dirSeq))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func loadPath(root, entry string, unwrap, validate bool) (*Loaded, error) {
	r, err := raml.ParseFromPath(filepath.Join(root, entry), opts(unwrap, validate)...)
	return &Loaded{root, entry, r}, err
}

func loadString(root, entry string, unwrap, validate bool) (*Loaded, error) {
	b, err := os.ReadFile(filepath.Join(root, entry))
	if err != nil {
		panic(err)
	}
	dir := filepath.Dir(filepath.Join(root, entry))
	r, err := raml.ParseFromString(string(b), filepath.Base(entry), dir, opts(unwrap, validate)...)
	return &Loaded{root, entry, r}, err
}

// load writes the files to a fresh directory and parses the entry point.
func (c *Case) load(files map[string]string, entry string, unwrap, validate bool) (*Loaded, error) {
	root := c.newRoot()
	writeFiles(root, files)
	return loadPath(root, entry, unwrap, validate)
}

func (l *Loaded) lib(path string) *raml.Library {
	f, _ := l.R.GetFragment(filepath.Join(l.Root, path)).(*raml.Library)
	return f
}

func (l *Loaded) dt(path string) *raml.DataType {
	f, _ := l.R.GetFragment(filepath.Join(l.Root, path)).(*raml.DataType)
	return f
}

func (l *Loaded) decl(d *Decl) *raml.BaseShape {
	f := l.lib(d.Frag.Path)
	if f == nil {
		return nil
	}
	m := f.Types
	if d.Ann {
		m = f.AnnotationTypes
	}
	if m == nil {
		return nil
	}
	b, _ := m.Get(d.Name)
	return b
}

// fragsReached lists the fragments the entry point reaches.
func (pr *Project) fragsReached() []*Frag {
	seen := map[*Frag]bool{}
	var out []*Frag
	var rec func(f *Frag)
	refs := map[*Frag][]*Frag{}
	pr.walk(func(f *Frag, t *TNode) {
		if t.Ref != nil && t.Ref.K == RInclude {
			refs[f] = append(refs[f], t.Ref.Frag)
		}
	})
	rec = func(f *Frag) {
		if seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, u := range f.Uses {
			if u.To != nil {
				rec(u.To)
			}
		}
		for _, x := range refs[f] {
			rec(x)
		}
	}
	rec(pr.Frags[0])
	return out
}

func (pr *Project) decls() []*Decl {
	var out []*Decl
	for _, f := range pr.fragsReached() {
		out = append(out, f.Types...)
	}
	return out
}

// ---------------------------------------------------------------- comparing the public model with the reference

type modelCmp struct {
	seen  map[[2]any]bool
	nodes int
}

func nodeVal(n *raml.Node) any {
	if n == nil {
		return nil
	}
	return n.Value
}

// plain turns a decoded value (possibly with ordered maps, ints) into plain JSON data.
func plain(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("unmarshallable %T: %v", v, err)
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var out any
	if err := d.Decode(&out); err != nil {
		return err.Error()
	}
	return out
}

func deref(b *raml.BaseShape) *raml.BaseShape {
	for i := 0; b != nil && i < 100; i++ {
		rs, ok := b.Shape.(*raml.RecursiveShape)
		if !ok {
			return b
		}
		b = rs.Head
	}
	return b
}

func strp(s *string) string {
	if s == nil {
		return "-"
	}
	return "'" + *s + "'"
}
func u64p(s *uint64) string {
	if s == nil {
		return "-"
	}
	return fmt.Sprint(*s)
}
func boolp(s *bool) string {
	if s == nil {
		return "-"
	}
	return fmt.Sprint(*s)
}
func f64p(s *float64) string {
	if s == nil {
		return "-"
	}
	return fmt.Sprint(*s)
}
func ratp(s *big.Rat) string {
	if s == nil {
		return "-"
	}
	return s.RatString()
}

func enumText(vs []any) string {
	var ss []string
	for _, v := range vs {
		if q, ok := ratOf(v); ok {
			ss = append(ss, q.RatString())
			continue
		}
		ss = append(ss, jsonText(v))
	}
	return "[" + strings.Join(ss, ",") + "]"
}

func nodesVals(ns raml.Nodes) []any {
	var out []any
	for _, n := range ns {
		out = append(out, nodeVal(n))
	}
	return out
}

// cmp describes the first differences between the model and its expected meaning.
func (m *modelCmp) cmp(at string, base *raml.BaseShape, e *Eff, out *[]string) {
	if len(*out) > 5 {
		return
	}
	bad := func(f string, a ...any) { *out = append(*out, at+": "+fmt.Sprintf(f, a...)) }
	base = deref(base)
	if base == nil || base.Shape == nil {
		bad("nil shape")
		return
	}
	e.get()
	k := [2]any{base, e}
	if m.seen[k] {
		return
	}
	m.seen[k] = true
	m.nodes++
	eq := func(what, got, want string) {
		if got != want {
			bad("%s: got %s, want %s", what, got, want)
		}
	}
	if base.Base() != base {
		bad("concrete shape does not point back to its base")
	}
	eq("description", strp(base.Description), strp(e.Description))
	eq("displayName", strp(base.DisplayName), strp(e.DisplayName))
	if e.Kind != "union" || base.Type == "union" {
		eq("kind", base.Type, e.Kind)
	}
	ex := func(what string, x *raml.Example, w *Ex) {
		switch {
		case (x == nil) != (w == nil):
			bad("%s: present %v, want %v", what, x != nil, w != nil)
		case x != nil && !sameValue(plain(nodeVal(x.Data)), plain(w.V)):
			bad("%s: got %v, want %v", what, jval(nodeVal(x.Data)), jval(w.V))
		}
	}
	ex("example", base.Example, e.Example)
	if (base.Default == nil) != (e.Default == nil) {
		bad("default: present %v, want %v", base.Default != nil, e.Default != nil)
	} else if e.Default != nil && !sameValue(plain(nodeVal(base.Default)), plain(e.Default.V)) {
		bad("default: got %v, want %v", jval(nodeVal(base.Default)), jval(e.Default.V))
	}
	xs := exampleMap(base)
	if n := len(e.Examples); (xs == nil) != (n == 0) || xs != nil && xs.Len() != n {
		bad("examples: present %v, want %d", xs != nil, n)
	} else if n > 0 {
		for _, w := range e.Examples {
			x, _ := xs.Get(w.Name)
			ex("examples "+w.Name, x, w)
		}
	}
	if base.CustomDomainProperties == nil || base.CustomDomainProperties.Len() != len(e.Annots) {
		bad("annotations: got %v, want %d", base.CustomDomainProperties, len(e.Annots))
	} else {
		for _, a := range e.Annots {
			de, ok := base.CustomDomainProperties.Get(a.Name)
			if !ok || !sameValue(plain(nodeVal(de.Extension)), plain(a.V)) {
				bad("annotation %s: got %v, want %v", a.Name, de, jval(a.V))
			}
		}
	}
	// custom facets and their definitions
	gotC := map[string]any{}
	if base.CustomShapeFacets != nil {
		for p := base.CustomShapeFacets.Oldest(); p != nil; p = p.Next() {
			gotC[p.Key] = nodeVal(p.Value)
		}
	}
	if e.Kind != "union" && e.Kind != "json" {
		for _, c := range e.Custom {
			v, ok := gotC[c.Name]
			if !ok {
				bad("custom facet %s missing", c.Name)
			} else if !sameValue(plain(v), plain(c.V)) {
				bad("custom facet %s: got %v, want %v", c.Name, v, c.V)
			}
			delete(gotC, c.Name)
		}
		for k := range gotC {
			bad("custom facet %s not declared", k)
		}
	}
	gotD := map[string]raml.Property{}
	if base.CustomShapeFacetDefinitions != nil {
		for p := base.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
			gotD[p.Key] = p.Value
		}
	}
	for _, d := range e.FacetDefs {
		q, ok := gotD[d.Name]
		if !ok {
			bad("facet definition %s missing", d.Name)
			continue
		}
		delete(gotD, d.Name)
		if q.Required != d.Required {
			bad("facet definition %s: required %v", d.Name, q.Required)
		}
		m.cmp(at+".facets."+d.Name, q.Base, d.E, out)
	}
	for k := range gotD {
		bad("facet definition %s not declared", k)
	}
	enum := func(ns raml.Nodes) {
		if (ns != nil) != e.HasEnum && (len(ns) > 0 || len(e.Enum) > 0) {
			bad("enum: got %v, want %v", enumText(nodesVals(ns)), enumText(e.Enum))
			return
		}
		eq("enum", enumText(nodesVals(ns)), enumText(e.Enum))
	}
	switch s := base.Shape.(type) {
	case *raml.AnyShape:
		eq("shape", "any", e.Kind)
	case *raml.NilShape:
		eq("shape", "nil", e.Kind)
	case *raml.StringShape:
		eq("shape", "string", e.Kind)
		eq("minLength", u64p(s.MinLength), u64p(e.MinLength))
		eq("maxLength", u64p(s.MaxLength), u64p(e.MaxLength))
		got := "-"
		if s.Pattern != nil {
			got = "'" + s.Pattern.String() + "'"
		}
		eq("pattern", got, strp(e.Pattern))
		enum(s.Enum)
	case *raml.FileShape:
		eq("shape", "file", e.Kind)
		eq("minLength", u64p(s.MinLength), u64p(e.MinLength))
		eq("maxLength", u64p(s.MaxLength), u64p(e.MaxLength))
		var w []any
		for _, t := range e.FileTypes {
			w = append(w, t)
		}
		eq("fileTypes", enumText(nodesVals(s.FileTypes)), enumText(w))
	case *raml.IntegerShape:
		eq("shape", "integer", e.Kind)
		ip := func(b *big.Int) string {
			if b == nil {
				return "-"
			}
			return b.String()
		}
		eq("minimum", ip(s.Minimum), ratp(e.Min))
		eq("maximum", ip(s.Maximum), ratp(e.Max))
		eq("multipleOf", f64p(s.MultipleOf), f64p(e.MultipleOf))
		eq("format", strp(s.Format), strp(e.Format))
		enum(s.Enum)
	case *raml.NumberShape:
		eq("shape", "number", e.Kind)
		fp := func(f *float64) string {
			if f == nil {
				return "-"
			}
			return new(big.Rat).SetFloat64(*f).RatString()
		}
		eq("minimum", fp(s.Minimum), ratp(e.Min))
		eq("maximum", fp(s.Maximum), ratp(e.Max))
		eq("multipleOf", f64p(s.MultipleOf), f64p(e.MultipleOf))
		eq("format", strp(s.Format), strp(e.Format))
		enum(s.Enum)
	case *raml.BooleanShape:
		eq("shape", "boolean", e.Kind)
		enum(s.Enum)
	case *raml.DateTimeShape:
		eq("shape", "datetime", e.Kind)
		eq("format", strp(s.Format), strp(e.Format))
	case *raml.DateTimeOnlyShape:
		eq("shape", "datetime-only", e.Kind)
	case *raml.DateOnlyShape:
		eq("shape", "date-only", e.Kind)
	case *raml.TimeOnlyShape:
		eq("shape", "time-only", e.Kind)
	case *raml.JSONShape:
		eq("shape", "json", e.Kind)
		eq("raw schema", s.Raw, e.JSON)
	case *raml.ArrayShape:
		eq("shape", "array", e.Kind)
		if e.Kind != "array" {
			return
		}
		eq("minItems", u64p(s.MinItems), u64p(e.MinItems))
		eq("maxItems", u64p(s.MaxItems), u64p(e.MaxItems))
		eq("uniqueItems", boolp(s.UniqueItems), boolp(e.Unique))
		if (s.Items == nil) != (e.Items == nil) {
			bad("items: got %v, want %v", s.Items != nil, e.Items != nil)
		} else if s.Items != nil {
			m.cmp(at+"[]", s.Items, e.Items, out)
		}
	case *raml.ObjectShape:
		eq("shape", "object", e.Kind)
		if e.Kind != "object" {
			return
		}
		eq("minProperties", u64p(s.MinProperties), u64p(e.MinProps))
		eq("maxProperties", u64p(s.MaxProperties), u64p(e.MaxProps))
		eq("additionalProperties", boolp(s.AdditionalProperties), boolp(e.Addl))
		eq("discriminator", strp(s.Discriminator), strp(e.Disc))
		var got, want []string
		if s.Properties != nil {
			for p := s.Properties.Oldest(); p != nil; p = p.Next() {
				got = append(got, p.Key)
				if p.Value.Name != p.Key {
					bad("property %s is called %s", p.Key, p.Value.Name)
				}
				if q := findEP(e.Props, p.Key); q != nil {
					if q.Required != p.Value.Required {
						bad("property %s: required %v, want %v", p.Key, p.Value.Required, q.Required)
					}
					m.cmp(at+"."+p.Key, p.Value.Base, q.E, out)
				}
			}
		}
		for _, p := range e.Props {
			want = append(want, p.Name)
		}
		sort.Strings(got)
		sort.Strings(want)
		eq("property names", fmt.Sprintf("%q", got), fmt.Sprintf("%q", want))
		got, want = nil, nil
		if s.PatternProperties != nil {
			for p := s.PatternProperties.Oldest(); p != nil; p = p.Next() {
				re := p.Value.Pattern.String()
				got = append(got, re)
				if q := findEP(e.PProps, re); q != nil {
					m.cmp(at+"./"+re+"/", p.Value.Base, q.E, out)
				}
			}
		}
		for _, p := range e.PProps {
			want = append(want, p.Name)
		}
		sort.Strings(got)
		sort.Strings(want)
		eq("patterns", fmt.Sprintf("%q", got), fmt.Sprintf("%q", want))
	case *raml.UnionShape:
		eq("shape", "union", e.Kind)
		if len(s.AnyOf) != len(e.Members) {
			// a merge may be repeated or not: equal members count once
			if !m.sameMembers(at, s.AnyOf, e.Members) {
				bad("union: %d members, want %d", len(s.AnyOf), len(e.Members))
			}
			return
		}
		for i := range s.AnyOf {
			m.cmp(fmt.Sprintf("%s|%d", at, i), s.AnyOf[i], e.Members[i], out)
		}
	default:
		bad("unexpected shape %T", base.Shape)
	}
}

// sameMembers: every member of one side is equal to a member of the other.
func (m *modelCmp) sameMembers(at string, got []*raml.BaseShape, want []*Eff) bool {
	hit := map[int]bool{}
	for _, g := range got {
		found := false
		for i, w := range want {
			t := &modelCmp{seen: map[[2]any]bool{}}
			for k := range m.seen {
				t.seen[k] = true
			}
			var out []string
			t.cmp(at, g, w, &out)
			if len(out) == 0 {
				found, hit[i] = true, true
			}
		}
		if !found {
			return false
		}
	}
	return len(hit) == len(want)
}

func exampleMap(b *raml.BaseShape) *orderedmap.OrderedMap[string, *raml.Example] {
	if b.Examples == nil {
		return nil
	}
	if b.Examples.Link != nil {
		return b.Examples.Link.Map
	}
	return b.Examples.Map
}

func compareModel(at string, base *raml.BaseShape, e *Eff) ([]string, int) {
	m := &modelCmp{seen: map[[2]any]bool{}}
	var out []string
	m.cmp(at, base, e, &out)
	return out, m.nodes
}

// ---------------------------------------------------------------- local view of a shape, dump and bisimulation

type kid struct {
	key string
	b   *raml.BaseShape
}

type viewOpts struct {
	pos    bool // ids, positions, marks, links
	sorted bool // ignore the order of properties and facets
	facets bool // ignore the order of custom facets and annotations
	base   string
	// ignore library aliases in the names of annotations
	noAlias bool
	noID    bool
}

type bsh = raml.BaseShape

func jval(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

func exText(w *strings.Builder, x *raml.Example, o viewOpts) {
	if x == nil {
		w.WriteString("nil")
		return
	}
	fmt.Fprintf(w, "ex{%q %q %q strict=%v %s", x.Name, x.DisplayName, x.Description, x.Strict, jval(nodeVal(x.Data)))
	if x.CustomDomainProperties != nil {
		for p := x.CustomDomainProperties.Oldest(); p != nil; p = p.Next() {
			k := p.Key
			if o.noAlias {
				k = k[strings.LastIndexByte(k, '.')+1:]
			}
			fmt.Fprintf(w, " %s=%s", k, jval(nodeVal(p.Value.Extension)))
		}
	}
	w.WriteString("}")
}

// local describes a shape without its children, and lists the children.
func local(b *raml.BaseShape, o viewOpts) (string, []kid) {
	var w strings.Builder
	if b == nil {
		return "nil", nil
	}
	rel := func(l string) string {
		if o.base != "" {
			if r, err := filepath.Rel(o.base, l); err == nil {
				return r
			}
		}
		return l
	}
	w.WriteString(b.Type)
	if o.pos {
		if !o.noID {
			fmt.Fprintf(&w, " id=%d", b.ID)
		}
		fmt.Fprintf(&w, " name=%s loc=%s:%d:%d visited=%v unwrapped=%v label=%s", b.Name, rel(b.Location), b.Line, b.Column, b.ShapeVisited, b.IsUnwrapped(), b.TypeLabel)
		for _, i := range b.Inherits {
			if !o.noID {
				fmt.Fprintf(&w, " inh=%d:%s", i.ID, i.Name)
			}
		}
		if b.Alias != nil && !o.noID {
			fmt.Fprintf(&w, " alias=%d", b.Alias.ID)
		}
		if b.Link != nil {
			fmt.Fprintf(&w, " link=%s", rel(b.Link.Location))
		}
		if b.Required != nil {
			fmt.Fprintf(&w, " req=%v", *b.Required)
		}
	}
	fmt.Fprintf(&w, " dn=%s ds=%s", strp(b.DisplayName), strp(b.Description))
	if b.Default != nil {
		fmt.Fprintf(&w, " default=%s", jval(b.Default.Value))
	}
	if b.Example != nil {
		w.WriteString(" example=")
		exText(&w, b.Example, o)
	}
	if b.Examples != nil {
		w.WriteString(" examples[")
		mp := b.Examples.Map
		if mp == nil && b.Examples.Link != nil {
			mp = b.Examples.Link.Map
		}
		if mp != nil {
			for p := mp.Oldest(); p != nil; p = p.Next() {
				w.WriteString(p.Key + "=")
				exText(&w, p.Value, o)
			}
		}
		w.WriteString("]")
	}
	list := func(tag string, ss []string) {
		if o.sorted || o.facets {
			sort.Strings(ss)
		}
		if len(ss) > 0 {
			fmt.Fprintf(&w, " %s{%s}", tag, strings.Join(ss, ";"))
		}
	}
	var kids []kid
	var ss []string
	if b.CustomShapeFacets != nil {
		for p := b.CustomShapeFacets.Oldest(); p != nil; p = p.Next() {
			ss = append(ss, p.Key+"="+jval(nodeVal(p.Value)))
		}
	}
	list("custom", ss)
	ss = nil
	if b.CustomShapeFacetDefinitions != nil {
		for p := b.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
			kids = append(kids, kid{fmt.Sprintf("facet %s required=%v", p.Key, p.Value.Required), p.Value.Base})
		}
	}
	if b.CustomDomainProperties != nil {
		for p := b.CustomDomainProperties.Oldest(); p != nil; p = p.Next() {
			k := p.Key
			if o.noAlias {
				k = k[strings.LastIndexByte(k, '.')+1:]
			}
			t := k + "=" + jval(nodeVal(p.Value.Extension))
			if p.Value.DefinedBy != nil {
				t += " by " + p.Value.DefinedBy.Name
			}
			ss = append(ss, t)
		}
	}
	list("ann", ss)
	enum := func(n raml.Nodes) {
		if n != nil {
			fmt.Fprintf(&w, " enum=%s", jval(nodesVals(n)))
		}
	}
	switch s := b.Shape.(type) {
	case *raml.StringShape:
		fmt.Fprintf(&w, " len=%s..%s", u64p(s.MinLength), u64p(s.MaxLength))
		if s.Pattern != nil {
			fmt.Fprintf(&w, " pat=%s", s.Pattern)
		}
		enum(s.Enum)
	case *raml.FileShape:
		fmt.Fprintf(&w, " len=%s..%s ft=%s", u64p(s.MinLength), u64p(s.MaxLength), jval(nodesVals(s.FileTypes)))
	case *raml.IntegerShape:
		fmt.Fprintf(&w, " %v..%v mult=%s fmt=%s", s.Minimum, s.Maximum, f64p(s.MultipleOf), strp(s.Format))
		enum(s.Enum)
	case *raml.NumberShape:
		fmt.Fprintf(&w, " %s..%s mult=%s fmt=%s", f64p(s.Minimum), f64p(s.Maximum), f64p(s.MultipleOf), strp(s.Format))
		enum(s.Enum)
	case *raml.BooleanShape:
		enum(s.Enum)
	case *raml.DateTimeShape:
		fmt.Fprintf(&w, " fmt=%s", strp(s.Format))
	case *raml.JSONShape:
		fmt.Fprintf(&w, " raw=%q", s.Raw)
	case *raml.ArrayShape:
		fmt.Fprintf(&w, " n=%s..%s u=%s", u64p(s.MinItems), u64p(s.MaxItems), boolp(s.UniqueItems))
		if s.Items != nil {
			kids = append(kids, kid{"items", s.Items})
		}
	case *raml.ObjectShape:
		fmt.Fprintf(&w, " n=%s..%s add=%s disc=%s/%v", u64p(s.MinProperties), u64p(s.MaxProperties), boolp(s.AdditionalProperties), strp(s.Discriminator), s.DiscriminatorValue)
		if s.Properties != nil {
			for p := s.Properties.Oldest(); p != nil; p = p.Next() {
				kids = append(kids, kid{fmt.Sprintf("prop %s required=%v", p.Key, p.Value.Required), p.Value.Base})
			}
		}
		if s.PatternProperties != nil {
			for p := s.PatternProperties.Oldest(); p != nil; p = p.Next() {
				kids = append(kids, kid{"pattern " + p.Value.Pattern.String(), p.Value.Base})
			}
		}
	case *raml.UnionShape:
		for i, x := range s.AnyOf {
			kids = append(kids, kid{fmt.Sprintf("member %03d", i), x})
		}
	case *raml.UnknownShape:
		w.WriteString(" UNKNOWN")
	case *raml.RecursiveShape:
		kids = append(kids, kid{"head", s.Head})
	case nil:
		w.WriteString(" NIL-SHAPE")
	}
	if o.sorted {
		sort.SliceStable(kids, func(i, j int) bool { return kids[i].key < kids[j].key })
	}
	return w.String(), kids
}

// bisim compares two models as (possibly infinite) trees: recursion markers are transparent, sharing is invisible.
func bisim(at string, a, c *raml.BaseShape, o viewOpts, seen map[[2]*raml.BaseShape]bool) string {
	a, c = deref(a), deref(c)
	if seen[[2]*raml.BaseShape{a, c}] {
		return ""
	}
	seen[[2]*raml.BaseShape{a, c}] = true
	la, ka := local(a, o)
	lc, kc := local(c, o)
	if la != lc {
		return fmt.Sprintf("%s: %s <> %s", at, la, lc)
	}
	if len(ka) != len(kc) {
		return fmt.Sprintf("%s: %d children <> %d children", at, len(ka), len(kc))
	}
	for i := range ka {
		if ka[i].key != kc[i].key {
			return fmt.Sprintf("%s: child %q <> %q", at, ka[i].key, kc[i].key)
		}
		if d := bisim(at+"/"+ka[i].key, ka[i].b, kc[i].b, o, seen); d != "" {
			return d
		}
	}
	return ""
}

func same(at string, a, c *raml.BaseShape, sorted bool) string {
	return bisim(at, a, c, viewOpts{sorted: sorted}, map[[2]*raml.BaseShape]bool{})
}

// dump writes the whole object graph of a model, with sharing.
func dump(b *raml.BaseShape, o viewOpts) string {
	var w strings.Builder
	seen := map[*raml.BaseShape]int{}
	var rec func(b *raml.BaseShape)
	rec = func(b *raml.BaseShape) {
		if n, ok := seen[b]; ok {
			fmt.Fprintf(&w, "@%d", n)
			return
		}
		seen[b] = len(seen)
		l, ks := local(b, o)
		fmt.Fprintf(&w, "(%s", l)
		for _, k := range ks {
			fmt.Fprintf(&w, " <%s: ", k.key)
			rec(k.b)
			w.WriteString(">")
		}
		w.WriteString(")")
	}
	rec(b)
	return w.String()
}

// reach visits every shape reachable from b, through children, parents, aliases and links too.
func reach(b *raml.BaseShape, seen map[*raml.BaseShape]bool, f func(*raml.BaseShape)) {
	if b == nil || seen[b] {
		return
	}
	seen[b] = true
	f(b)
	_, ks := local(b, viewOpts{})
	for _, k := range ks {
		reach(k.b, seen, f)
	}
	for _, i := range b.Inherits {
		reach(i, seen, f)
	}
	reach(b.Alias, seen, f)
	if b.Link != nil {
		reach(b.Link.Shape, seen, f)
	}
}

func readFile(p string) ([]byte, error) { return os.ReadFile(p) }
