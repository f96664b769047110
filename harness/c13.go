package main

import (
	"fmt"
	"strings"
)

// site is a place of the project that can carry an example, a default or an annotation.
type site struct {
	f     *Frag
	t     *TNode
	place string
	depth int
	top   *TNode // the declaration of the section it is in
	inDef bool   // below a facet definition
}

// sites lists the type declarations of the reached fragments with the kind of place they are in.
func sites(pr *Project) []site {
	var out []site
	for _, f := range pr.fragsReached() {
		if f.Kind == FJSON {
			continue
		}
		inDef := false
		var top *TNode
		var rec func(t *TNode, place string, d int)
		rec = func(t *TNode, place string, d int) {
			if t == nil {
				return
			}
			if d == 0 {
				top = t
			}
			if !t.Null {
				out = append(out, site{f: f, t: t, place: place, depth: d, inDef: inDef, top: top})
			}
			for _, p := range t.Props {
				w := "property"
				if p.Pattern {
					w = "pattern property"
				}
				rec(p.T, w, d+1)
			}
			for _, p := range t.FacetDefs {
				was := inDef
				inDef = true
				rec(p.T, "facet definition", d+1)
				inDef = was
			}
			rec(t.Items, "items", d+1)
		}
		for _, x := range f.Anns {
			rec(x.T, "annotation type", 0)
		}
		for _, x := range f.Types {
			rec(x.T, "type", 0)
		}
		if f.DT != nil {
			rec(f.DT, "data type", 0)
		}
	}
	return out
}

// usedAnns lists the annotation types of the libraries that are loaded.
func usedAnns(pr *Project) []*Decl {
	var out []*Decl
	for _, f := range pr.fragsReached() {
		out = append(out, f.Anns...)
	}
	return out
}

// useLib makes sure that f can name library to.
func useLib(f, to *Frag, n int) {
	if _, ok := f.aliasOf(to); ok || f == to && f.Kind == FLibrary {
		return
	}
	f.Uses = append(f.Uses, &Use{Alias: fmt.Sprintf("inj%d", n), To: to})
}

// pickValue looks for a value the type accepts or rejects.
func pickValue(r *Rand, ref *Ref, e *Eff, want bool) (any, bool) {
	for i := 0; i < 3; i++ {
		for _, v := range genValues(r, e, 6) {
			if plainValue(v) && len(jsonText(v)) < 2000 && !(depthOf(v) > 3 && branchy(e)) && !strings.ContainsRune(jsonText(v), '�') && ref.accept(e, v) == want {
				return v, true
			}
		}
	}
	return nil, false
}

// respellAll uses other ways of writing the values.
func respellAll(r *Rand, pr *Project) {
	pr.walk(func(f *Frag, t *TNode) {
		for _, x := range append([]*Ex{t.Example}, t.Examples...) {
			if x != nil && r.P(50) {
				respell(r, x, false)
				for _, a := range x.Annots {
					a.Form, a.Raw = valForm(r, a.V)
				}
			}
		}
		if t.Default != nil && r.P(50) {
			respell(r, t.Default, true)
		}
		for _, a := range t.Annots {
			if r.P(50) {
				a.Form, a.Raw = valForm(r, a.V)
			}
		}
	})
}

func c13Run(c *Case) {
	if c.Idx < c.Check.Fixed {
		c13Strict(c)
		return
	}
	o := fullOpts()
	o.Types = c.R.Range(2, 10)
	o.Depth = c.R.Range(1, 3)
	o.Recursion = c.R.P(25)
	o.Derive = c.R.N(50)
	pr, ref := genProject(c.R.Fork("gen"), o)
	if len(ref.Verdict()) > 0 {
		c.Count("generator_rejects", 1)
		return
	}
	if r := c.R.Fork("entry"); r.P(15) && dataTypeEntry(r, pr, true) != nil {
		c.Count("datatype_entries", 1)
	}
	r := c.R.Fork("inject")
	respellAll(r, pr)
	ss := sites(pr)
	anns := usedAnns(pr)
	var done []string
	for k := r.N(4); k > 0 && len(ss) > 0; k-- {
		s := ss[r.N(len(ss))]
		if r.P(60) { // prefer the deeper places
			for i := 0; i < 4 && s.depth == 0; i++ {
				s = ss[r.N(len(ss))]
			}
		}
		want := r.P(55)
		ref = NewRef(pr)
		if len(anns) > 0 && r.P(35) {
			a := &AnnApply{Decl: anns[r.N(len(anns))]}
			e := ref.decl(a.Decl)
			v, ok := pickValue(r, ref, e, want)
			if !ok {
				c.Count("no_value", 1)
				continue
			}
			if r.P(20) {
				v = addBreak(r, v)
			}
			a.V = v
			a.Form, a.Raw = valForm(r, v)
			dup := func(as []*AnnApply) bool {
				for _, x := range as {
					if x.Decl == a.Decl {
						return true
					}
				}
				return false
			}
			where := s.place
			switch {
			case r.P(20):
				if s.f.Kind != FLibrary || dup(s.f.Apply) {
					continue
				}
				s.f.Apply = append(s.f.Apply, a)
				where = "library"
			case s.t.Example != nil && r.P(60):
				if dup(s.t.Example.Annots) {
					continue
				}
				s.t.Example.Form = 3
				s.t.Example.Inner, s.t.Example.Raw = valForm(r, s.t.Example.V)
				s.t.Example.Annots = append(s.t.Example.Annots, a)
				where = "example of " + where
			default:
				if dup(s.t.Annots) || s.t.Ref == nil && !s.t.hasFacets() {
					continue
				}
				s.t.Inline = false
				s.t.Annots = append(s.t.Annots, a)
			}
			useLib(s.f, a.Decl.Frag, k)
			done = append(done, fmt.Sprintf("annotation in %s", where))
			c.Key("annotation", where, fmt.Sprint(s.depth, want, a.Form), e.Kind)
			continue
		}
		if s.t.Ref == nil && !s.t.hasFacets() {
			continue
		}
		s.t.Inline = false
		e := NewRef(pr).node(s.t, s.f)
		e.get()
		v, ok := pickValue(r, ref, e, want)
		if !ok {
			c.Count("no_value", 1)
			continue
		}
		if r.P(20) {
			v = addBreak(r, v)
		}
		x := &Ex{V: v}
		what := ""
		switch r.N(6) {
		case 0, 1:
			what = "default"
			s.t.Default = x
		case 2, 3:
			what = "example"
			s.t.Example, s.t.Examples, s.t.NamedEx = x, nil, false
		default:
			what = "examples"
			s.t.Example = nil
			x.Name = fmt.Sprintf("inj%d", k)
			i := r.N(len(s.t.Examples) + 1)
			s.t.Examples = append(s.t.Examples[:i:i], append([]*Ex{x}, s.t.Examples[i:]...)...)
			if len(s.t.Examples) == 1 {
				s.t.NamedEx = r.P(40)
			}
			if s.t.NamedEx {
				what = "named examples"
			}
		}
		if what != "default" && r.P(35) {
			x.Form = 3
			if r.P(30) {
				x.Strict = pt(true)
			}
		}
		respell(r, x, what == "default")
		done = append(done, what+" of "+s.place)
		c.Key(what, s.place, fmt.Sprint(min(s.depth, 4), want, x.Form, x.Inner), e.Kind)
	}
	ref = NewRef(pr)
	verdict := ref.Verdict()
	files := pr.Render(randStyle(c.R))
	c.Source(files)
	entry := pr.Frags[0].Path
	root := c.newRoot()
	writeFiles(root, files)
	pick := r.N(len(modes))
	for i, m := range modes {
		if i >= 4 && i != pick {
			continue
		}
		l, err := m.run(root, entry)
		c.Eval(1)
		if (err == nil) != (len(verdict) == 0) {
			c.Violate("mode %q: accepted: %v (%v), expected problems: %v; injected: %v\n%s", m.name, err == nil, err, verdict, done, clip(allFiles(files), 3500))
			return
		}
		if err != nil {
			c.Count("rejected", 1)
			for _, v := range verdict {
				c.Count("fault_"+v.Kind, 1)
			}
			continue
		}
		c.Count("accepted", 1)
		if !m.full || i > 1 && i != pick {
			continue
		}
		for _, d := range l.all(pr, ref) {
			diff, n := compareModel(d.name, d.b, d.e)
			c.Count("shapes_compared", n)
			if len(diff) > 0 {
				c.Violate("mode %q: %s differs: %v\n%s", m.name, d.name, diff, clip(allFiles(files), 3500))
				return
			}
		}
	}
	if len(done) > 0 {
		c.Count("injections", len(done))
	}
	if c.Idx < 3 {
		c.Sample(clip(allFiles(files), 1200))
	}
}

// c13Strict: an example that opts out of validation.
func c13Strict(c *Case) {
	src := "#%RAML 1.0 Library\ntypes:\n  A:\n    type: string\n    minLength: 10\n    example:\n      value: abc\n      strict: false\n"
	files := map[string]string{"main.raml": src}
	c.Source(files)
	_, err := c.load(files, "main.raml", false, true)
	c.Eval(1)
	if err != nil {
		c.ViolateSig("strict-false", "an example marked strict: false is validated: %v\n%s", err, src)
	}
}

func init() {
	register(&Check{ID: "C13", Rule: "case = random valid project in which 0..3 examples, members of examples, NamedExample members, defaults or annotation values, valid or invalid by the reference evaluator, are put at random places (types, annotation types, data type fragments, properties, pattern properties, items, facet definitions, libraries, examples), written as flow, block, JSON text, block scalar, included JSON/YAML/text, nested include, other spellings of the same scalars, or wrapped in value:. Monitor: accepted if and only if the reference finds no fault, in five modes; in accepted projects the decoded values equal the source. Distinct: (what, place, depth, validity, form, kind)",
		Quick: 15000, Thorough: 600000, Fixed: 1,
		Require: map[string]int{"accepted": 8000, "rejected": 5000, "injections": 4000, "fault_example": 3000, "fault_annotation": 1000, "shapes_compared": 100000},
		Run:     c13Run})
}
