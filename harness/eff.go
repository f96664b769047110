package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---------------------------------------------------------------- reference flattener

// Eff is the effective (flattened) meaning of a declaration. Children are forced on demand, so recursive declarations
// are finite graphs.
type Eff struct {
	T     *TNode
	frag  *Frag
	force func(e *Eff)
	state int

	Kind                     string
	DisplayName, Description *string
	Example                  *Ex
	Examples                 []*Ex
	Default                  *Ex
	Custom                   []*CF
	Annots                   []*AnnApply
	FacetDefs                []*EProp
	parents                  []*Eff // for the facet definition chain
	MinLength, MaxLength     *uint64
	Pattern                  *string
	Enum                     []any
	HasEnum                  bool
	Min, Max                 *big.Rat
	MultipleOf               *float64
	Format                   *string
	FileTypes                []string
	Items                    *Eff
	MinItems, MaxItems       *uint64
	Unique                   *bool
	Props                    []*EProp
	PProps                   []*EProp
	Addl                     *bool
	MinProps, MaxProps       *uint64
	Disc                     *string
	DiscValue                any
	Members                  []*Eff
	orig                     map[*Eff]bool
	JSON                     string

	Errs []RefErr
}

type EProp struct {
	Name     string
	Required bool
	E        *Eff
}

type RefErr struct {
	Kind string // merge, check, facet, cycle, unresolved
	What string
	T    *TNode
}

type Ref struct {
	pr    *Project
	memo  map[*TNode]*Eff
	merge map[[2]*Eff]*Eff
	depth int
}

func NewRef(pr *Project) *Ref {
	pr.Normalize()
	return &Ref{pr: pr, memo: map[*TNode]*Eff{}, merge: map[[2]*Eff]*Eff{}}
}

// Normalize makes printing decisions that change the meaning explicit.
func (pr *Project) Normalize() {
	pr.walk(func(f *Frag, t *TNode) {
		fix := func(ps []*Prop) {
			for _, q := range ps {
				if q.explicit() && !q.Pattern {
					v := q.Required
					q.T.RequiredFacet = &v
					q.T.Inline = false
					q.T.Null = false
				} else if q.Style == 2 {
					q.T.RequiredFacet = nil
				}
			}
		}
		fix(t.Props)
		fix(t.FacetDefs)
	})
}

func (pr *Project) walk(fn func(f *Frag, t *TNode)) {
	for _, f := range pr.Frags {
		var rec func(t *TNode)
		rec = func(t *TNode) {
			if t == nil {
				return
			}
			fn(f, t)
			for _, p := range t.Props {
				rec(p.T)
			}
			for _, p := range t.FacetDefs {
				rec(p.T)
			}
			rec(t.Items)
		}
		for _, d := range f.Anns {
			rec(d.T)
		}
		for _, d := range f.Types {
			rec(d.T)
		}
		rec(f.DT)
	}
}

func (e *Eff) get() *Eff {
	switch e.state {
	case 0:
		e.state = 1
		e.force(e)
		e.state = 2
	case 1:
		e.Errs = append(e.Errs, RefErr{"cycle", "inheritance or alias cycle", e.T})
	}
	return e
}

func (e *Eff) err(kind, f string, a ...any) {
	e.Errs = append(e.Errs, RefErr{kind, fmt.Sprintf(f, a...), e.T})
}

func (r *Ref) decl(d *Decl) *Eff { return r.node(d.T, d.Frag) }

func (r *Ref) node(t *TNode, f *Frag) *Eff {
	if e, ok := r.memo[t]; ok {
		return e
	}
	e := &Eff{T: t, frag: f}
	e.force = func(e *Eff) { r.fill(e) }
	r.memo[t] = e
	return e
}

// expr is the meaning of an anonymous occurrence of a type expression.
func (r *Ref) expr(x *TRef, f *Frag, t *TNode) *Eff {
	return &Eff{T: t, frag: f, force: func(e *Eff) { r.fillExpr(e, x, true) }}
}

func (r *Ref) props(ps []*Prop, f *Frag) (props, pprops []*EProp) {
	for _, p := range ps {
		q := &EProp{Name: p.Name, Required: p.Required, E: r.node(p.T, f)}
		if p.Pattern {
			pprops = append(pprops, q)
		} else {
			props = append(props, q)
		}
	}
	return
}

func inferKind(t *TNode) string {
	switch {
	case t.FileTypes != nil:
		return "file"
	case t.MinLength != nil || t.MaxLength != nil || t.Pattern != nil:
		return "string"
	case t.Minimum != nil || t.Maximum != nil || t.MultipleOf != nil:
		return "number"
	case t.Items != nil || t.MinItems != nil || t.MaxItems != nil || t.Unique != nil:
		return "array"
	case t.HasProps || t.AddlProps != nil || t.MinProps != nil || t.MaxProps != nil || t.Discriminator != nil:
		return "object"
	}
	return "string"
}

func (r *Ref) fill(e *Eff) {
	t := e.T
	if t.Null {
		e.Kind = "string"
		return
	}
	if t.Inline {
		r.fillExpr(e, t.Ref, true)
		return
	}
	e.DisplayName, e.Description = t.DisplayName, t.Description
	e.Annots = t.Annots
	e.Example, e.Examples, e.Default = t.Example, t.Examples, t.Default
	e.FacetDefs, _ = r.props(t.FacetDefs, e.frag)
	if t.Ref == nil {
		e.Kind = inferKind(t)
		r.own(e, t)
		return
	}
	r.fillExpr(e, t.Ref, false)
}

// own copies the kind facets written on the declaration itself.
func (r *Ref) own(e *Eff, t *TNode) {
	if e.Kind == "union" || e.Kind == "json" { // no facets of their own
		e.Custom = append(e.Custom, customOnly(t)...)
		return
	}
	e.Custom = append(e.Custom, t.Custom...)
	switch e.Kind {
	case "string", "file":
		e.MinLength, e.MaxLength = t.MinLength, t.MaxLength
		if e.Kind == "string" {
			e.Pattern, e.Enum, e.HasEnum = t.Pattern, t.Enum, t.HasEnum
		} else {
			e.FileTypes = t.FileTypes
		}
	case "integer":
		e.Min, e.Max = numFacet(t.Minimum, false), numFacet(t.Maximum, false)
		e.MultipleOf, e.Format, e.Enum, e.HasEnum = t.MultipleOf, t.Format, t.Enum, t.HasEnum
	case "number":
		e.Min, e.Max = numFacet(t.Minimum, true), numFacet(t.Maximum, true)
		e.MultipleOf, e.Format, e.Enum, e.HasEnum = t.MultipleOf, t.Format, t.Enum, t.HasEnum
	case "boolean":
		e.Enum, e.HasEnum = t.Enum, t.HasEnum
	case "datetime":
		e.Format = t.Format
	case "array":
		e.MinItems, e.MaxItems, e.Unique = t.MinItems, t.MaxItems, t.Unique
		if t.Items != nil {
			e.Items = r.node(t.Items, e.frag)
		}
	case "object":
		e.Props, e.PProps = r.props(t.Props, e.frag)
		e.Addl, e.MinProps, e.MaxProps = t.AddlProps, t.MinProps, t.MaxProps
		e.Disc, e.DiscValue = t.Discriminator, t.DiscValue
	}
}

// customOnly: built-in facets have no meaning in unions and JSON types.
func customOnly(t *TNode) []*CF {
	var out []*CF
	for _, c := range t.Custom {
		switch c.Name {
		case "format", "enum", "minimum", "maximum", "multipleOf", "minLength", "maxLength", "pattern", "fileTypes", "minItems", "maxItems", "uniqueItems",
			"items", "minProperties", "maxProperties", "additionalProperties", "properties", "discriminator", "discriminatorValue":
		default:
			out = append(out, c)
		}
	}
	return out
}

func numFacet(s *string, asFloat bool) *big.Rat {
	if s == nil {
		return nil
	}
	if asFloat {
		f, err := strconv.ParseFloat(*s, 64)
		if err != nil {
			panic(err)
		}
		return new(big.Rat).SetFloat64(f)
	}
	return rat(*s)
}

func (r *Ref) fillExpr(e *Eff, x *TRef, inline bool) {
	switch x.K {
	case RGroup:
		r.fillExpr(e, x.Sub[0], inline)
	case RBuiltin:
		e.Kind = x.Name
		if !inline {
			r.own(e, e.T)
		}
	case RJSON:
		e.Kind, e.JSON = "json", x.Name
		if !inline {
			r.own(e, e.T)
		}
	case RNamed:
		src := r.decl(x.Decl).get()
		if src.state == 1 {
			e.err("cycle", "alias or inheritance cycle")
			e.Kind = "any"
			return
		}
		if inline {
			t, f, st, fo, errs := e.T, e.frag, e.state, e.force, e.Errs
			*e = *src
			e.T, e.frag, e.state, e.force, e.Errs = t, f, st, fo, errs
			return
		}
		e.Kind = src.Kind
		r.own(e, e.T)
		e.parents = []*Eff{src}
		r.absorb(e, src)
	case RInclude:
		src := r.node(x.Frag.DT, x.Frag).get()
		if src.state == 1 {
			e.err("cycle", "include cycle")
			e.Kind = "any"
			return
		}
		e.Kind = src.Kind
		if !inline {
			r.own(e, e.T)
		}
		e.parents = []*Eff{src}
		r.absorb(e, src)
	case RMulti:
		var ps []*Eff
		for _, s := range x.Sub {
			p := r.expr(s, e.frag, e.T).get()
			ps = append(ps, p)
		}
		first := *ps[0]
		first.Errs = nil
		for _, p := range ps[1:] {
			r.absorb(&first, p)
		}
		e.Errs = append(e.Errs, first.Errs...)
		e.Kind = first.Kind
		if !inline {
			r.own(e, e.T)
		}
		e.parents = ps
		r.absorb(e, &first)
	case RArray:
		e.Kind = "array"
		if !inline {
			r.own(e, e.T)
		}
		e.Items = r.expr(x.Sub[0], e.frag, e.T)
	case ROpt, RUnion:
		e.Kind = "union"
		if !inline {
			r.own(e, e.T)
		}
		subs := x.Sub
		if x.K == ROpt {
			subs = []*TRef{x.Sub[0], b("nil")}
		}
		for _, s := range subs {
			e.Members = append(e.Members, r.expr(s, e.frag, e.T))
		}
	default:
		panic("fillExpr")
	}
}

// merged is the meaning of child node c placed where parent node p is inherited (property, item, ... overrides).
func (r *Ref) merged(c, p *Eff) *Eff {
	if c == p {
		return c
	}
	k := [2]*Eff{c, p}
	if e, ok := r.merge[k]; ok {
		return e
	}
	e := &Eff{T: c.T, frag: c.frag}
	e.force = func(e *Eff) {
		c.get()
		p.get()
		f, st := e.force, e.state
		*e = *c
		e.force, e.state, e.Errs = f, st, append([]RefErr{}, c.Errs...)
		e.orig = map[*Eff]bool{}
		for x := range c.origins() {
			e.orig[x] = true
		}
		n := len(e.orig)
		for x := range p.origins() {
			e.orig[x] = true
		}
		if len(e.orig) > n { // otherwise it has already absorbed everything that p consists of
			r.absorb(e, p)
		}
	}
	r.merge[k] = e
	return e
}

// origins are the nodes written down that the meaning is merged from.
func (e *Eff) origins() map[*Eff]bool {
	if e.orig == nil {
		return map[*Eff]bool{e: true}
	}
	return e.orig
}

func enumHas(set []any, v any) bool {
	for _, x := range set {
		if sameScalar(x, v) {
			return true
		}
	}
	return false
}

func sameScalar(a, c any) bool {
	ra, oka := ratOf(a)
	rb, okb := ratOf(c)
	if oka && okb {
		return ra.Cmp(rb) == 0
	}
	if oka != okb {
		return false
	}
	ja, _ := json.Marshal(a)
	jb, _ := json.Marshal(c)
	return string(ja) == string(jb)
}

// absorb makes e inherit from p.
func (r *Ref) absorb(e, p *Eff) {
	p.get()
	if e.Description == nil {
		e.Description = p.Description
	}
	own := e.Custom
	e.Custom = append([]*CF{}, own...)
	for _, c := range p.Custom {
		if findCF(own, c.Name) == nil {
			e.Custom = append(e.Custom, c)
		}
	}
	if p.Kind == "any" {
		return
	}
	switch {
	case p.Kind == "union" && e.Kind != "union":
		r.absorbUnionSource(e, p)
		return
	case e.Kind == "union" && p.Kind != "union":
		var ms []*Eff
		for _, m := range e.Members {
			mm := r.merged(m, p)
			if r.deepMergeErr(mm) {
				e.err("merge", "union member does not fit the parent")
			}
			ms = append(ms, mm)
		}
		e.Members = ms
		return
	}
	if e.Kind != p.Kind {
		e.err("merge", "kind %s vs parent kind %s", e.Kind, p.Kind)
		return
	}
	umin := func(name string, c, q *uint64) *uint64 {
		if c == nil {
			return q
		}
		if q != nil && *c < *q {
			e.err("merge", "%s %d < %d", name, *c, *q)
		}
		return c
	}
	umax := func(name string, c, q *uint64) *uint64 {
		if c == nil {
			return q
		}
		if q != nil && *c > *q {
			e.err("merge", "%s %d > %d", name, *c, *q)
		}
		return c
	}
	enum := func() {
		if !e.HasEnum {
			e.Enum, e.HasEnum = p.Enum, p.HasEnum
		} else if p.HasEnum {
			for _, v := range e.Enum {
				if !enumHas(p.Enum, v) {
					e.err("merge", "enum member %v not in parent", v)
					break
				}
			}
		}
	}
	switch e.Kind {
	case "union":
		if len(e.Members) == 0 {
			e.Members = p.Members
			return
		}
		same := len(e.Members) == len(p.Members) // both have the very alternatives of one declaration
		for i := 0; same && i < len(e.Members); i++ {
			same = e.Members[i] == p.Members[i]
		}
		if same {
			return
		}
		var out []*Eff
		for _, s := range p.Members {
			if s.get().Kind == "any" {
				return
			}
		}
		for _, m := range e.Members {
			n := 0
			for _, s := range p.Members {
				if m.get().Kind != s.get().Kind {
					continue
				}
				mm := r.merged(m, s)
				if r.deepMergeErr(mm) {
					continue
				}
				out = append(out, mm)
				n++
			}
			if n == 0 {
				e.err("merge", "alternative %s does not fit the parent", m.Kind)
			}
		}
		e.Members = out
	case "string", "file":
		e.MinLength = umin("minLength", e.MinLength, p.MinLength)
		e.MaxLength = umax("maxLength", e.MaxLength, p.MaxLength)
		if e.Kind == "string" {
			if e.Pattern == nil {
				e.Pattern = p.Pattern
			}
			enum()
		} else if e.FileTypes == nil {
			e.FileTypes = p.FileTypes
		} else if p.FileTypes != nil {
			for _, v := range e.FileTypes {
				ok := false
				for _, w := range p.FileTypes {
					ok = ok || w == v
				}
				if !ok {
					e.err("merge", "fileTypes member %v not in parent", v)
					break
				}
			}
		}
	case "integer", "number":
		if e.Min == nil {
			e.Min = p.Min
		} else if p.Min != nil && e.Min.Cmp(p.Min) < 0 {
			e.err("merge", "minimum lowered")
		}
		if e.Max == nil {
			e.Max = p.Max
		} else if p.Max != nil && e.Max.Cmp(p.Max) > 0 {
			e.err("merge", "maximum raised")
		}
		if e.MultipleOf == nil {
			e.MultipleOf = p.MultipleOf
		}
		enum()
		if e.Format == nil {
			e.Format = p.Format
		} else if p.Format != nil && fmtClass(e.Kind, *e.Format) != fmtClass(e.Kind, *p.Format) {
			e.err("merge", "format %s vs %s", *e.Format, *p.Format)
		}
	case "boolean":
		enum()
	case "datetime":
		if e.Format == nil {
			e.Format = p.Format
		} else {
			pf := "rfc3339"
			if p.Format != nil {
				pf = *p.Format
			}
			if *e.Format != pf {
				e.err("merge", "datetime format %s vs %s", *e.Format, pf)
			}
		}
	case "array":
		e.MinItems = umin("minItems", e.MinItems, p.MinItems)
		e.MaxItems = umax("maxItems", e.MaxItems, p.MaxItems)
		if e.Unique == nil {
			e.Unique = p.Unique
		} else if p.Unique != nil && *p.Unique && !*e.Unique {
			e.err("merge", "uniqueItems turned off")
		}
		if e.Items == nil {
			e.Items = p.Items
		} else if p.Items != nil {
			e.Items = r.merged(e.Items, p.Items)
		}
	case "object":
		if e.Addl == nil {
			e.Addl = p.Addl
		}
		if e.Disc == nil {
			e.Disc = p.Disc
		}
		e.MinProps = umin("minProperties", e.MinProps, p.MinProps)
		e.MaxProps = umax("maxProperties", e.MaxProps, p.MaxProps)
		e.Props = r.mergeProps(e, e.Props, p.Props)
		e.PProps = r.mergeProps(e, e.PProps, p.PProps)
	case "json":
		if e.JSON != "" && p.JSON != "" && e.JSON != p.JSON {
			e.err("merge", "different JSON schemas")
		}
		if e.JSON == "" {
			e.JSON = p.JSON
		}
	}
}

func (r *Ref) mergeProps(e *Eff, c, p []*EProp) []*EProp {
	var out []*EProp
	for _, q := range c {
		if pp := findEP(p, q.Name); pp != nil {
			if pp.Required && !q.Required {
				e.err("merge", "required property %s made optional", q.Name)
			}
			out = append(out, &EProp{q.Name, q.Required, r.merged(q.E, pp.E)})
			continue
		}
		out = append(out, q)
	}
	for _, q := range p {
		if findEP(c, q.Name) == nil {
			out = append(out, q)
		}
	}
	return out
}

func findEP(ps []*EProp, n string) *EProp {
	for _, p := range ps {
		if p.Name == n {
			return p
		}
	}
	return nil
}

func findCF(ps []*CF, n string) *CF {
	for _, p := range ps {
		if p.Name == n {
			return p
		}
	}
	return nil
}

func fmtClass(kind, f string) string {
	if kind != "integer" {
		return f
	}
	switch f {
	case "int":
		return "int32"
	case "long":
		return "int64"
	}
	return f
}

// absorbUnionSource: the declaration replaces a union; it keeps those alternatives of its own kind that it narrows.
func (r *Ref) absorbUnionSource(e, p *Eff) {
	r.depth++
	defer func() { r.depth-- }()
	if r.depth > 60 {
		e.err("cycle", "infinite merge of unions")
		return
	}
	var ms []*Eff
	for _, m := range p.Members {
		if m.get().Kind == "any" {
			return
		}
		if m.Kind != e.Kind {
			continue
		}
		c := *e
		c.Errs = nil
		r.absorb(&c, m)
		cc := c
		cc.state = 2
		if !r.deepMergeErr(&cc) {
			ms = append(ms, &cc)
		}
	}
	switch len(ms) {
	case 0:
		e.err("merge", "no alternative of the parent union fits kind %s", e.Kind)
	case 1:
		t, f, st, fo, errs, or := e.T, e.frag, e.state, e.force, e.Errs, e.orig
		*e = *ms[0]
		e.T, e.frag, e.state, e.force, e.Errs, e.orig = t, f, st, fo, errs, or
	default:
		d, cu, fd := e.Description, e.Custom, e.FacetDefs
		t, f, st, fo, errs, pa := e.T, e.frag, e.state, e.force, e.Errs, e.parents
		*e = Eff{T: t, frag: f, state: st, force: fo, Errs: errs, orig: e.orig, parents: pa, Kind: "union", Members: ms, Description: d,
			Custom: cu, FacetDefs: fd, DisplayName: e.DisplayName, Annots: e.Annots, Example: e.Example, Examples: e.Examples, Default: e.Default}
	}
}

// deepMergeErr: merging e failed somewhere.
func (r *Ref) deepMergeErr(e *Eff) bool {
	bad := false
	e.walk(map[*Eff]bool{}, func(x *Eff) {
		for _, q := range x.Errs {
			if q.Kind == "merge" {
				bad = true
			}
		}
	})
	return bad
}

func (e *Eff) children() []*Eff {
	var out []*Eff
	if e.Items != nil {
		out = append(out, e.Items)
	}
	for _, p := range e.Props {
		out = append(out, p.E)
	}
	for _, p := range e.PProps {
		out = append(out, p.E)
	}
	return append(out, e.Members...)
}

// walkLimit bounds walks: a recursive type that overrides a recursive property can have an infinite flattened form.
// The generator drops declarations that reach the limit.
const walkLimit = 1500

func (e *Eff) walk(seen map[*Eff]bool, fn func(*Eff)) {
	if seen[e] || len(seen) > walkLimit {
		return
	}
	seen[e] = true
	e.get()
	fn(e)
	for _, c := range e.children() {
		c.walk(seen, fn)
	}
	for _, d := range e.FacetDefs {
		d.E.walk(seen, fn)
	}
}

// ---------------------------------------------------------------- declaration-level verdict

// Check appends what is wrong with the effective type itself.
func (r *Ref) check(e *Eff) []RefErr {
	var out []RefErr
	bad := func(f string, a ...any) { out = append(out, RefErr{"check", fmt.Sprintf(f, a...), e.T}) }
	gt := func(n string, a, c *uint64) {
		if a != nil && c != nil && *a > *c {
			bad("%s: min %d > max %d", n, *a, *c)
		}
	}
	gt("length", e.MinLength, e.MaxLength)
	gt("items", e.MinItems, e.MaxItems)
	gt("properties", e.MinProps, e.MaxProps)
	if e.Min != nil && e.Max != nil && e.Min.Cmp(e.Max) > 0 {
		bad("minimum > maximum")
	}
	for _, v := range e.Enum {
		ok := false
		switch e.Kind {
		case "string":
			_, ok = v.(string)
		case "boolean":
			_, ok = v.(bool)
		case "number":
			_, ok = ratOf(v)
		case "integer":
			q, isn := ratOf(v)
			ok = isn && q.IsInt()
		default:
			ok = true
		}
		if !ok {
			bad("enum member %v of wrong kind", v)
		}
	}
	if e.Kind == "object" {
		if len(e.PProps) > 0 && e.Addl != nil && !*e.Addl {
			bad("pattern properties with additionalProperties: false")
		}
		if e.Disc != nil {
			p := findEP(e.Props, *e.Disc)
			if p == nil {
				bad("discriminator property missing")
			} else {
				switch p.E.get().Kind {
				case "object", "array", "union", "json":
					bad("discriminator not scalar")
				default:
					if e.DiscValue != nil && !r.accept(p.E, e.DiscValue) {
						bad("discriminatorValue does not fit")
					}
				}
			}
		}
	}
	return append(out, r.checkFacets(e)...)
}

func (r *Ref) facetChain(e *Eff) (defs []*EProp) {
	for _, p := range e.parents {
		p.get()
		defs = append(defs, p.FacetDefs...)
		defs = append(defs, r.facetChain(p)...)
	}
	return
}

func (r *Ref) checkFacets(e *Eff) []RefErr {
	var out []RefErr
	bad := func(f string, a ...any) { out = append(out, RefErr{"facet", fmt.Sprintf(f, a...), e.T}) }
	defs := r.facetChain(e)
	for _, d := range defs {
		if findEP(e.FacetDefs, d.Name) != nil {
			bad("facet %s redeclared", d.Name)
			continue
		}
		c := findCF(e.Custom, d.Name)
		if c == nil {
			if d.Required {
				bad("required facet %s missing", d.Name)
			}
			continue
		}
		if !r.accept(d.E, c.V) {
			bad("facet %s value does not fit", d.Name)
		}
	}
	for _, c := range e.Custom {
		if findEP(defs, c.Name) == nil {
			bad("facet %s unknown", c.Name)
		}
	}
	return out
}

func (r *Ref) exampleErrs(e *Eff) []RefErr {
	var out []RefErr
	chk := func(x *Ex, what string) {
		if x != nil && !r.accept(e, x.V) {
			out = append(out, RefErr{"example", what, e.T})
		}
	}
	chk(e.Example, "example")
	chk(e.Default, "default")
	for _, x := range e.Examples {
		chk(x, "examples "+x.Name)
	}
	return out
}

// Verdict lists everything that makes the project invalid.
func (r *Ref) Verdict() []RefErr {
	var out []RefErr
	seen := map[*Eff]bool{}
	root := func(e *Eff) {
		e.walk(seen, func(x *Eff) {
			out = append(out, x.Errs...)
			if len(x.Errs) == 0 {
				out = append(out, r.check(x)...)
				out = append(out, r.exampleErrs(x)...)
			}
		})
	}
	for _, f := range r.pr.Frags {
		for _, d := range f.Anns {
			root(r.decl(d))
		}
		for _, d := range f.Types {
			root(r.decl(d))
		}
		if f.DT != nil {
			root(r.node(f.DT, f))
		}
	}
	ann := func(as []*AnnApply, t *TNode) {
		for _, a := range as {
			if !r.accept(r.decl(a.Decl), a.V) {
				out = append(out, RefErr{"annotation", a.Decl.Name, t})
			}
		}
	}
	for _, f := range r.pr.Frags {
		ann(f.Apply, nil)
	}
	r.pr.walk(func(f *Frag, t *TNode) {
		ann(t.Annots, t)
		for _, x := range append([]*Ex{t.Example}, t.Examples...) {
			if x != nil {
				ann(x.Annots, t)
			}
		}
	})
	return out
}

// ---------------------------------------------------------------- reference evaluator

func (r *Ref) accept(e *Eff, v any) bool { return acceptDepth(e, v, 0) }

var reCache = map[string]*regexp.Regexp{}

func re(p string) *regexp.Regexp {
	x := reCache[p]
	if x == nil {
		x = regexp.MustCompile(p)
		reCache[p] = x
	}
	return x
}

func acceptDepth(e *Eff, v any, unionDepth int) bool {
	e.get()
	inU := func(lo, hi *uint64, n int) bool {
		return (lo == nil || uint64(n) >= *lo) && (hi == nil || uint64(n) <= *hi)
	}
	switch e.Kind {
	case "any", "json":
		return true
	case "nil":
		return v == nil
	case "boolean":
		x, ok := v.(bool)
		return ok && (!e.HasEnum || enumHas(e.Enum, x))
	case "string":
		s, ok := v.(string)
		if !ok || !inU(e.MinLength, e.MaxLength, utf8.RuneCountInString(s)) {
			return false
		}
		if e.Pattern != nil && !re(*e.Pattern).MatchString(s) {
			return false
		}
		return !e.HasEnum || enumHas(e.Enum, s)
	case "file":
		s, ok := v.(string)
		return ok && inU(e.MinLength, e.MaxLength, len(s))
	case "integer", "number":
		q, ok := ratOf(v)
		if !ok || (e.Kind == "integer" && !q.IsInt()) {
			return false
		}
		if (e.Min != nil && q.Cmp(e.Min) < 0) || (e.Max != nil && q.Cmp(e.Max) > 0) {
			return false
		}
		return !e.HasEnum || enumHas(e.Enum, v)
	case "datetime", "datetime-only", "date-only", "time-only":
		s, ok := v.(string)
		return ok && dateOK(e.Kind, e.Format, s)
	case "array":
		a, ok := v.([]any)
		if !ok || !inU(e.MinItems, e.MaxItems, len(a)) {
			return false
		}
		if e.Items != nil {
			for _, x := range a {
				if !acceptDepth(e.Items, x, 0) {
					return false
				}
			}
		}
		if e.Unique != nil && *e.Unique {
			for i := range a {
				for j := 0; j < i; j++ {
					if sameValue(a[i], a[j]) {
						return false
					}
				}
			}
		}
		return true
	case "object":
		m, ok := v.(map[string]any)
		if !ok || !inU(e.MinProps, e.MaxProps, len(m)) {
			return false
		}
		for _, p := range e.Props {
			x, has := m[p.Name]
			if !has {
				if p.Required {
					return false
				}
				continue
			}
			if !acceptDepth(p.E, x, 0) {
				return false
			}
		}
		for k, x := range m {
			if findEP(e.Props, k) != nil {
				continue
			}
			if e.Addl != nil && !*e.Addl {
				return false
			}
			matched, good := false, false
			for _, p := range e.PProps {
				if re(p.Name).MatchString(k) {
					matched = true
					if acceptDepth(p.E, x, 0) {
						good = true
						break
					}
				}
			}
			if matched && !good {
				return false
			}
		}
		return true
	case "union":
		if unionDepth > 50 {
			return false
		}
		for _, m := range e.Members {
			if acceptDepth(m, v, unionDepth+1) {
				return true
			}
		}
		return false
	}
	panic("kind " + e.Kind)
}

func sameValue(a, c any) bool {
	switch x := a.(type) {
	case []any:
		y, ok := c.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := c.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			z, has := y[k]
			if !has || !sameValue(x[k], z) {
				return false
			}
		}
		return true
	}
	switch c.(type) {
	case []any, map[string]any:
		return false
	}
	return sameScalar(a, c)
}

var (
	dateRe = `(\d{4})-(\d{2})-(\d{2})`
	timeRe = `(\d{2}):(\d{2}):(\d{2})`
	reDO   = regexp.MustCompile(`^` + dateRe + `$`)
	reTO   = regexp.MustCompile(`^` + timeRe + `$`)
	reDTO  = regexp.MustCompile(`^` + dateRe + `T` + timeRe + `$`)
	re3339 = regexp.MustCompile(`^` + dateRe + `T` + timeRe + `(Z|[+-]\d{2}:\d{2})$`)
	re2616 = regexp.MustCompile(`^(Mon|Tue|Wed|Thu|Fri|Sat|Sun), (\d{2}) (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) (\d{4}) ` + timeRe + ` GMT$`)
)

func validDate(y, m, d string) bool {
	yi, _ := strconv.Atoi(y)
	mi, _ := strconv.Atoi(m)
	di, _ := strconv.Atoi(d)
	if mi < 1 || mi > 12 || di < 1 {
		return false
	}
	n := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[mi-1]
	if mi == 2 && yi%4 == 0 && (yi%100 != 0 || yi%400 == 0) {
		n = 29
	}
	return di <= n
}

func validTime(h, m, s string) bool {
	hi, _ := strconv.Atoi(h)
	mi, _ := strconv.Atoi(m)
	si, _ := strconv.Atoi(s)
	return hi < 24 && mi < 60 && si < 60
}

func dateOK(kind string, format *string, s string) bool {
	switch kind {
	case "date-only":
		m := reDO.FindStringSubmatch(s)
		return m != nil && validDate(m[1], m[2], m[3])
	case "time-only":
		m := reTO.FindStringSubmatch(s)
		return m != nil && validTime(m[1], m[2], m[3])
	case "datetime-only":
		m := reDTO.FindStringSubmatch(s)
		return m != nil && validDate(m[1], m[2], m[3]) && validTime(m[4], m[5], m[6])
	}
	if format == nil || *format == "rfc3339" {
		m := re3339.FindStringSubmatch(s)
		return m != nil && validDate(m[1], m[2], m[3]) && validTime(m[4], m[5], m[6])
	}
	m := re2616.FindStringSubmatch(s)
	if m == nil {
		return false
	}
	mon := strings.Index("JanFebMarAprMayJunJulAugSepOctNovDec", m[3])/3 + 1
	return validDate(m[4], fmt.Sprintf("%02d", mon), m[2]) && validTime(m[5], m[6], m[7])
}
