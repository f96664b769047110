package main

import (
	"fmt"
)

// ambiguousFacets: two unrelated ancestors of a type declare the same facet.
func ambiguousFacets(pr *Project, ref *Ref) bool {
	bad := false
	seen := map[*Eff]bool{}
	root := func(e *Eff) {
		e.walk(seen, func(x *Eff) {
			by := map[string]*TNode{}
			for _, d := range ref.facetChain(x) {
				if t, ok := by[d.Name]; ok && t != d.E.T {
					bad = true
				}
				by[d.Name] = d.E.T
			}
		})
	}
	for _, f := range pr.fragsReached() {
		for _, d := range append(append([]*Decl{}, f.Anns...), f.Types...) {
			root(ref.decl(d))
		}
		if f.DT != nil && f.Kind != FJSON {
			root(ref.node(f.DT, f))
		}
	}
	return bad
}

// chainDecls adds a chain of derived types that declare and set facets, spread over the libraries.
func chainDecls(r *Rand, pr *Project) {
	var libs, dts []*Frag
	for _, f := range pr.fragsReached() {
		switch f.Kind {
		case FLibrary:
			libs = append(libs, f)
		case FDataType:
			dts = append(dts, f)
		}
	}
	scal := func() *TNode {
		switch r.N(7) {
		case 0:
			return bi("integer")
		case 1:
			return bi("boolean")
		case 2:
			return &TNode{Ref: b("string"), MaxLength: pt(uint64(r.Range(1, 5)))}
		case 3:
			return &TNode{Ref: b("number"), Minimum: pt(fmt.Sprint(r.Range(-5, 5)))}
		case 4:
			return inl(arr(b("integer")))
		case 5:
			return obj(prop("a", bi("string")), oprop("b", bi("integer")))
		}
		return inl(uni(b("string"), b("integer")))
	}
	kind := r.Pick("string", "integer", "number", "boolean", "object", "array", "file", "datetime", "date-only", "nil", "any", "union", "json")
	mk := func() *TNode {
		switch kind {
		case "union":
			return &TNode{Ref: uni(b("string"), b("integer"))}
		case "json":
			return &TNode{Ref: &TRef{K: RJSON, Name: `{"type": "string"}`}}
		}
		return &TNode{Ref: b(kind)}
	}
	n := r.Range(2, 7)
	var prev *Decl
	for i := 0; i < n; i++ {
		f := libs[r.N(len(libs))]
		var t *TNode
		switch {
		case prev == nil:
			t = mk()
		case r.P(12):
			t = inl(rn(prev)) // alias
		case r.P(10) && i > 1 && kind != "union":
			other := &TNode{Ref: b(kind)}
			if kind == "json" {
				other = mk()
			}
			if r.P(60) {
				other.FacetDefs = append(other.FacetDefs, &Prop{Name: fmt.Sprintf("mf%d", i), Required: r.P(30), T: scal()})
			}
			d := f.add(fmt.Sprintf("Mix%d", i), other)
			sub := []*TRef{rn(prev), rn(d)}
			if r.P(50) {
				sub[0], sub[1] = sub[1], sub[0]
			}
			t = &TNode{Ref: &TRef{K: RMulti, Sub: sub}}
		default:
			t = &TNode{Ref: rn(prev)}
		}
		if prev != nil {
			useLib(f, prev.Frag, 70+i)
		}
		if !t.Inline {
			for k := r.N(3); k > 0; k-- {
				name := fmt.Sprintf("cf%d-%d", i, k)
				if r.P(20) {
					name = r.Pick("x-unit", "f acet", "größe", "deprecated2", "Minimum", "value", "strict2") + fmt.Sprint(i, k)
				}
				t.FacetDefs = append(t.FacetDefs, &Prop{Name: name, Required: r.P(35), T: scal()})
			}
		}
		var d *Decl
		switch {
		case len(dts) > 0 && prev != nil && r.P(15) && !t.Inline && t.Ref.K == RNamed:
			// through a data type fragment of its own
			dt := &Frag{Kind: FDataType, Path: fmt.Sprintf("chain%d.raml", i), DT: t}
			useLib(dt, prev.Frag, 80)
			t.Ref = rn(prev)
			pr.Frags = append(pr.Frags, dt)
			d = f.add(fmt.Sprintf("Chain%d", i), inl(&TRef{K: RInclude, Frag: dt}))
		default:
			d = f.add(fmt.Sprintf("Chain%d", i), t)
		}
		prev = d
		// also used as a property, an item or a facet's type with facets of its own
		if r.P(25) {
			u := &TNode{Ref: rn(prev)}
			host := libs[r.N(len(libs))]
			useLib(host, prev.Frag, 90+i)
			switch r.N(3) {
			case 0:
				host.add(fmt.Sprintf("Host%d", i), obj(&Prop{Name: "in", Required: r.P(50), T: u}))
			case 1:
				host.add(fmt.Sprintf("Host%d", i), &TNode{Ref: b("array"), Items: u})
			default:
				host.add(fmt.Sprintf("Host%d", i), obj(&Prop{Name: "^p", Pattern: true, T: u}))
			}
		}
	}
	// set the facets that are declared
	ref := NewRef(pr)
	for _, s := range sites(pr) {
		if s.t.Inline || s.t.Ref == nil {
			continue
		}
		e := ref.node(s.t, s.f).get()
		for _, d := range ref.facetChain(e) {
			if findTCF(s.t.Custom, d.Name) != nil {
				continue
			}
			// a value may be inherited; values set here override it
			if (d.Required && !inheritedCF(ref, e, d.Name)) || r.P(25) {
				if v, ok := pickValue(r, ref, d.E, true); ok {
					cf := &CF{Name: d.Name, V: v}
					cf.Form, cf.Raw = valForm(r, v)
					s.t.Custom = append(s.t.Custom, cf)
				}
			}
		}
		ref = NewRef(pr)
	}
}

func inheritedCF(ref *Ref, e *Eff, name string) bool {
	for _, p := range e.parents {
		if findCF(p.get().Custom, name) != nil {
			return true
		}
	}
	return false
}

// breakFacet edits the declarations and values of facets; the reference decides what that means.
func breakFacet(r *Rand, pr *Project, n int) string {
	ss := sites(pr)
	ref := NewRef(pr)
	for try := 0; try < 20; try++ {
		s := ss[r.N(len(ss))]
		if s.t.Inline || s.t.Ref == nil || s.inDef {
			continue
		}
		e := ref.node(s.t, s.f).get()
		defs := ref.facetChain(e)
		switch k := r.N(8); k {
		case 0, 1: // a value
			if len(defs) == 0 {
				continue
			}
			d := defs[r.N(len(defs))]
			want := r.P(30)
			v, ok := pickValue(r, ref, d.E, want)
			if !ok {
				continue
			}
			cf := findTCF(s.t.Custom, d.Name)
			if cf == nil {
				cf = &CF{Name: d.Name}
				s.t.Custom = append(s.t.Custom, cf)
			}
			cf.V = v
			cf.Form, cf.Raw = valForm(r, v)
			return fmt.Sprintf("value %v", want)
		case 2: // omit
			if len(s.t.Custom) == 0 {
				continue
			}
			i := r.N(len(s.t.Custom))
			s.t.Custom = append(s.t.Custom[:i:i], s.t.Custom[i+1:]...)
			return "omit"
		case 3: // redeclare
			if len(defs) == 0 {
				continue
			}
			d := defs[r.N(len(defs))]
			if findProp(s.t.FacetDefs, d.Name) != nil {
				continue
			}
			s.t.FacetDefs = append(s.t.FacetDefs, &Prop{Name: d.Name, Required: r.P(30), T: bi(r.Pick("string", "integer", "any"))})
			return "redeclare"
		case 4: // unknown
			name := fmt.Sprintf("unknown%d", n)
			switch r.N(3) {
			case 0:
				if len(s.t.FacetDefs) == 0 {
					continue
				}
				name = s.t.FacetDefs[r.N(len(s.t.FacetDefs))].Name // its own, which only derived types may set
			case 1:
				o := ss[r.N(len(ss))]
				if len(o.t.FacetDefs) == 0 {
					continue
				}
				name = o.t.FacetDefs[r.N(len(o.t.FacetDefs))].Name
			}
			if findTCF(s.t.Custom, name) != nil {
				continue
			}
			v := randValue(r, 1)
			if !plainValue(v) || hasLenientDate(v) {
				continue
			}
			s.t.Custom = append(s.t.Custom, &CF{Name: name, V: v})
			return "set unknown"
		case 5, 6: // declare
			s.t.FacetDefs = append(s.t.FacetDefs, &Prop{Name: fmt.Sprintf("late%d", n), Required: k == 6, T: bi(r.Pick("string", "integer", "any"))})
			return "declare"
		case 7: // required
			if len(s.t.FacetDefs) == 0 {
				continue
			}
			p := s.t.FacetDefs[r.N(len(s.t.FacetDefs))]
			if p.explicit() {
				continue
			}
			p.Required = !p.Required
			return "required"
		}
	}
	return ""
}

func findProp(ps []*Prop, n string) *Prop {
	for _, p := range ps {
		if p.Name == n {
			return p
		}
	}
	return nil
}

func c14Run(c *Case) {
	o := fullOpts()
	o.Types = c.R.Range(1, 8)
	o.Depth = c.R.Range(1, 2)
	o.Recursion = c.R.P(20)
	o.Derive = c.R.N(70)
	pr, ref := genProject(c.R.Fork("gen"), o)
	if len(ref.Verdict()) > 0 {
		c.Count("generator_rejects", 1)
		return
	}
	if r := c.R.Fork("entry"); r.P(15) && dataTypeEntry(r, pr, true) != nil {
		c.Count("datatype_entries", 1)
	}
	r := c.R.Fork("facets")
	if r.P(70) {
		chainDecls(r, pr)
	}
	var done []string
	for k := r.N(3); k > 0; k-- {
		if w := breakFacet(r, pr, k); w != "" {
			done = append(done, w)
		}
	}
	pr.Normalize()
	ref = NewRef(pr)
	verdict := ref.Verdict()
	if ambiguousFacets(pr, ref) {
		c.Count("ambiguous", 1)
		return
	}
	files := pr.Render(randStyle(c.R))
	c.Source(files)
	entry := pr.Frags[0].Path
	root := c.newRoot()
	writeFiles(root, files)
	kinds := map[string]bool{}
	for _, v := range verdict {
		kinds[v.Kind] = true
	}
	for _, s := range sites(pr) {
		if s.t.Inline || s.t.Ref == nil {
			continue
		}
		e := ref.node(s.t, s.f).get()
		if defs := ref.facetChain(e); len(defs)+len(e.Custom) > 0 {
			c.Count("types_with_facets", 1)
			c.Key(s.place, e.Kind, fmt.Sprint(min(len(defs), 5), min(len(e.Custom), 5), facetDepth(e, 0), len(verdict) > 0), fmt.Sprint(done))
		}
	}
	pick := r.N(len(modes))
	for i, m := range modes {
		if i >= 4 && i != pick {
			continue
		}
		l, err := m.run(root, entry)
		c.Eval(1)
		if (err == nil) != (len(verdict) == 0) {
			c.Violate("mode %q: accepted: %v (%v), expected problems: %v; edits: %v\n%s", m.name, err == nil, err, verdict, done, clip(allFiles(files), 3500))
			return
		}
		if err != nil {
			c.Count("rejected", 1)
			for k := range kinds {
				c.Count("fault_"+k, 1)
			}
			continue
		}
		c.Count("accepted", 1)
		if !m.full {
			continue
		}
		for _, d := range l.all(pr, ref) {
			diff, n := compareModel(d.name, d.b, d.e)
			c.Count("shapes_compared", n)
			if len(diff) > 0 {
				c.Violate("mode %q: %s differs: %v\n%s", m.name, d.name, diff, clip(allFiles(files), 3500))
				return
			}
		}
	}
	if c.Idx < 3 {
		c.Sample(clip(allFiles(files), 1500))
	}
}

// facetDepth: how many generations above a facet of the type is declared.
func facetDepth(e *Eff, n int) int {
	m := 0
	if n > 12 {
		return n
	}
	for _, p := range e.parents {
		if len(p.FacetDefs) > 0 {
			m = max(m, n+1)
		}
		m = max(m, facetDepth(p, n+1))
	}
	return m
}

func init() {
	register(&Check{ID: "C14", Rule: "case = random project, in 70% with an added chain of up to 7 derived types of one of 13 kinds over several files (aliases, multiple parents, data type fragments, uses as property, item, pattern property) that declare facets of scalar, array, object and union types and set them (values in all written forms), then 0..2 random edits of facet declarations and values. Monitor: accepted if and only if the reference finds no fault in five modes; in accepted projects values and definitions on every unwrapped type equal the reference. Distinct: (place, kind, declared, set, generations, validity, edits)",
		Quick: 14000, Thorough: 500000,
		Require: map[string]int{"accepted": 10000, "rejected": 5000, "fault_facet": 4000, "types_with_facets": 20000, "shapes_compared": 100000},
		Run:     c14Run})
}
