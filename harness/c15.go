package main

import (
	"context"
	"fmt"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/acronis/go-raml/v2"
)

// graph writes the whole object graph of a shape: children, parents, alias and link, with sharing; no identifiers.
func graph(roots []*bsh, o viewOpts) string {
	var w strings.Builder
	seen := map[*bsh]int{}
	o.pos, o.noID = true, true
	var rec func(b *bsh)
	rec = func(b *bsh) {
		if b == nil {
			w.WriteString("nil")
			return
		}
		if n, ok := seen[b]; ok {
			fmt.Fprintf(&w, "@%d", n)
			return
		}
		seen[b] = len(seen)
		l, ks := local(b, o)
		fmt.Fprintf(&w, "(%s %T", l, b.Shape)
		for _, k := range ks {
			fmt.Fprintf(&w, " <%s: ", k.key)
			rec(k.b)
			w.WriteString(">")
		}
		for _, p := range b.Inherits {
			w.WriteString(" <parent: ")
			rec(p)
			w.WriteString(">")
		}
		if b.Alias != nil {
			w.WriteString(" <alias: ")
			rec(b.Alias)
			w.WriteString(">")
		}
		if b.Link != nil {
			w.WriteString(" <link: ")
			rec(b.Link.Shape)
			w.WriteString(">")
		}
		w.WriteString(")\n")
	}
	for _, b := range roots {
		rec(b)
	}
	return w.String()
}

// structure collects the addresses of everything a shape graph may be modified through.
func structure(roots ...*bsh) map[uintptr]string {
	out := map[uintptr]string{}
	seen := map[*bsh]bool{}
	add := func(what string, b *bsh, p any) {
		v := reflect.ValueOf(p)
		if v.Kind() == reflect.Slice && v.Len() == 0 || v.IsZero() {
			return
		}
		out[v.Pointer()] = fmt.Sprintf("%s of %q (%T, line %d)", what, b.Name, b.Shape, b.Line)
	}
	for _, r := range roots {
		reach(r, seen, func(b *bsh) {
			add("shape", b, b)
			add("custom facets", b, b.CustomShapeFacets)
			add("facet definitions", b, b.CustomShapeFacetDefinitions)
			add("annotations", b, b.CustomDomainProperties)
			add("parents", b, b.Inherits)
			if b.Link != nil {
				add("link", b, b.Link)
			}
			if b.Shape != nil {
				add("kind facets", b, b.Shape)
			}
			switch s := b.Shape.(type) {
			case *raml.ObjectShape:
				add("properties", b, s.Properties)
				add("pattern properties", b, s.PatternProperties)
			case *raml.UnionShape:
				add("alternatives", b, s.AnyOf)
			}
		})
	}
	return out
}

// vandalizeOwn changes the attributes of a shape itself, none of its properties, items, members or parents.
func vandalizeOwn(b *bsh) {
	b.Name, b.Description, b.DisplayName = "changed", pt("changed"), nil
	b.Required, b.Default, b.Example, b.Examples = pt(false), nil, nil, nil
	b.Inherits, b.Alias, b.Link = nil, nil, nil
	for _, k := range []string{"", "added"} {
		if p := b.CustomShapeFacets.Oldest(); p != nil && k == "" {
			b.CustomShapeFacets.Delete(p.Key)
		}
		if p := b.CustomDomainProperties.Oldest(); p != nil && k == "" {
			b.CustomDomainProperties.Delete(p.Key)
		}
		if p := b.CustomShapeFacetDefinitions.Oldest(); p != nil && k == "" {
			b.CustomShapeFacetDefinitions.Delete(p.Key)
		}
		if k != "" {
			b.CustomShapeFacets.Set(k, &raml.Node{Value: 1.0})
			b.CustomDomainProperties.Set(k, &raml.DomainExtension{Name: k, Extension: &raml.Node{Value: "x"}})
			b.CustomShapeFacetDefinitions.Set(k, raml.Property{Name: k, Base: b})
		}
	}
	switch s := b.Shape.(type) {
	case *raml.StringShape:
		s.MinLength, s.Pattern, s.Enum = pt(uint64(77)), nil, nil
	case *raml.IntegerShape:
		s.Minimum, s.Maximum, s.Enum = nil, nil, nil
	case *raml.NumberShape:
		s.Minimum, s.Maximum, s.Enum = pt(77.0), nil, nil
	case *raml.ArrayShape:
		s.Items, s.UniqueItems, s.MinItems = nil, pt(true), pt(uint64(77))
	case *raml.ObjectShape:
		s.MinProperties, s.Properties, s.AdditionalProperties = pt(uint64(77)), nil, nil
	case *raml.UnionShape:
		s.AnyOf = nil
	case *raml.RecursiveShape:
		s.Head = nil
	}
}

// vandalize modifies a graph in every way its fields allow.
func vandalize(r *Rand, rt *raml.RAML, root *bsh) int {
	n := 0
	var all []*bsh
	reach(root, map[*bsh]bool{}, func(b *bsh) { all = append(all, b) })
	for _, b := range all {
		if r.P(30) {
			continue
		}
		n++
		b.Description = pt("changed")
		b.DisplayName = nil
		b.Required = pt(!(b.Required != nil && *b.Required))
		b.Default = nil
		b.Example = nil
		if p := b.CustomShapeFacets.Oldest(); p != nil {
			b.CustomShapeFacets.Delete(p.Key)
		} else {
			b.CustomShapeFacets.Set("added", &raml.Node{Value: 1.0})
		}
		if p := b.CustomDomainProperties.Oldest(); p != nil {
			b.CustomDomainProperties.Delete(p.Key)
		} else {
			b.CustomDomainProperties.Set("added", &raml.DomainExtension{Name: "added", Extension: &raml.Node{Value: "x"}})
		}
		for i := range b.Inherits {
			b.Inherits[i] = root
		}
		if b.Link != nil {
			b.Link.Location = "changed"
		}
		other := rt.MakeBaseShape("other", "nowhere", b.Position)
		os, err := rt.MakeConcreteShapeYAML(other, "boolean", nil)
		if err != nil {
			panic(err)
		}
		other.SetShape(os)
		switch s := b.Shape.(type) {
		case *raml.StringShape:
			s.MinLength, s.Pattern, s.Enum = pt(uint64(77)), nil, nil
		case *raml.IntegerShape:
			s.Minimum, s.Maximum, s.Enum = nil, nil, nil
			s.MultipleOf = pt(77.0)
		case *raml.NumberShape:
			s.Minimum, s.Maximum, s.Enum = pt(77.0), nil, nil
		case *raml.FileShape:
			s.FileTypes, s.MaxLength = nil, pt(uint64(1))
		case *raml.BooleanShape:
			s.Enum = nil
		case *raml.DateTimeShape:
			s.Format = pt("changed")
		case *raml.ArrayShape:
			s.Items, s.UniqueItems, s.MinItems = other, pt(true), pt(uint64(77))
		case *raml.ObjectShape:
			s.MinProperties = pt(uint64(77))
			if s.Properties != nil {
				for p := s.Properties.Oldest(); p != nil; p = p.Next() {
					q := p.Value
					q.Required = !q.Required
					q.Base = other
					s.Properties.Set(p.Key, q)
				}
				s.Properties.Set("added", raml.Property{Name: "added", Base: other})
			}
			if s.PatternProperties != nil {
				if p := s.PatternProperties.Oldest(); p != nil {
					s.PatternProperties.Delete(p.Key)
				}
			}
		case *raml.UnionShape:
			for i := range s.AnyOf {
				s.AnyOf[i] = other
			}
		case *raml.RecursiveShape:
			s.Head = other
		}
		if p := b.CustomShapeFacetDefinitions.Oldest(); p != nil {
			q := p.Value
			q.Base = other
			b.CustomShapeFacetDefinitions.Set(p.Key, q)
		}
		if r.P(20) {
			b.SetShape(os)
		}
	}
	return n
}

func init() {
	register(&Check{ID: "C15", Rule: "case = random valid project (45% recursive), in one of the states parsed / validated only / unwrapped. For its types, CloneDetached and Clone with one shared map are monitored: the clone's object graph (children, parents, aliases, links, sharing) equals the original's; the sets of addresses through which the graphs can be modified are disjoint; unwrapping the clone, or modifying every field of every shape of the clone, leaves the original's graph as it was, and the reverse; the unwrapped clone of a parsed type means the same as the unwrapped type. ValidateShapes without unwrapping leaves the graph of every declared type, and the lookup results, as they were; what is unwrapped afterwards equals what is unwrapped without it. Distinct: (state, kind, size of the graph, recursive)",
		Quick: 12000, Thorough: 150000,
		Require: map[string]int{"clones": 20000, "addresses": 500000, "modified_shapes": 20000, "validated_untouched": 3000, "shallow_clones": 500, "unwrapped_clones": 3000},
		Run: func(c *Case) {
			o := fullOpts()
			o.Types = c.R.Range(3, 9)
			o.Recursion = c.R.P(45)
			o.Derive = c.R.N(60)
			pr, ref := genProject(c.R.Fork("gen"), o)
			if len(ref.Verdict()) > 0 {
				c.Count("generator_rejects", 1)
				return
			}
			files := pr.Render(randStyle(c.R))
			c.Source(files)
			entry := pr.Frags[0].Path
			root := c.newRoot()
			writeFiles(root, files)
			fail := func(f string, a ...any) {
				c.Violate("%s\n%s", clip(fmt.Sprintf(f, a...), 2500), clip(allFiles(files), 2000))
			}
			state := c.R.N(3)
			stateName := []string{"parsed", "validated", "unwrapped"}[state]
			load := func() *Loaded {
				r := raml.New(context.Background())
				if err := r.ParseFromPath(filepath.Join(root, entry)); err != nil {
					fail("a valid project is rejected: %v", err)
					return nil
				}
				l := &Loaded{root, entry, r}
				switch state {
				case 1:
					ds := l.all(pr, ref)
					before := make([]string, len(ds))
					dup := make([]string, len(ds))
					for i, d := range ds {
						before[i] = graph([]*bsh{d.b}, viewOpts{})
						dup[i] = dump(d.b, viewOpts{pos: true})
					}
					listed := append([]*bsh{}, r.GetShapes()...)
					if err := r.ValidateShapes(); err != nil {
						fail("a valid project is rejected: %v", err)
						return nil
					}
					for i, b := range r.GetShapes() {
						if i >= len(listed) || b != listed[i] {
							fail("validation adds the shape %q at %s:%d to GetShapes", b.Name, b.Location, b.Line)
							return nil
						}
					}
					if len(r.GetShapes()) < len(listed) {
						fail("validation removes %d shapes from GetShapes", len(listed)-len(r.GetShapes()))
						return nil
					}
					for i, d := range l.all(pr, ref) {
						if d.b != ds[i].b {
							fail("validation replaces the type %s", d.name)
							return nil
						}
						if g := graph([]*bsh{d.b}, viewOpts{}); g != before[i] || dup[i] != dump(d.b, viewOpts{pos: true}) {
							fail("validation changes the type %s:\n%s\n%s", d.name, before[i], g)
							return nil
						}
						c.Count("validated_untouched", 1)
					}
					for _, f := range pr.fragsReached() {
						for _, d := range f.Types {
							if p, err := r.GetTypeFromFragmentPtr(filepath.Join(root, f.Path), d.Name); err != nil || p != l.decl(d) {
								fail("after validation %s is looked up as %v, %v", d.Name, p, err)
								return nil
							}
						}
					}
				case 2:
					if err := r.UnwrapShapes(); err != nil {
						fail("a valid project is rejected: %v", err)
						return nil
					}
				}
				return l
			}
			l := load()
			if l == nil {
				return
			}
			ds := l.all(pr, ref)
			var roots []*bsh
			for _, d := range ds {
				if d.b == nil {
					fail("%s is missing", d.name)
					return
				}
				roots = append(roots, d.b)
			}
			own := structure(roots...)
			whole := graph(roots, viewOpts{})

			// one map for all types: sharing between them is preserved
			m := map[int64]*bsh{}
			var clones []*bsh
			for _, b := range roots {
				clones = append(clones, b.Clone(m))
			}
			c.Eval(1)
			if g := graph(clones, viewOpts{}); g != whole {
				fail("%s: types cloned with one map differ from the originals:\n%s\n%s", stateName, clip(whole, 1000), clip(g, 1000))
				return
			}
			for p, what := range structure(clones...) {
				c.Count("addresses", 1)
				if w, ok := own[p]; ok {
					fail("%s: clones made with one map share the %s with the original (%s)", stateName, what, w)
					return
				}
			}
			for i, d := range ds {
				if cl := d.b.Clone(m); cl != clones[i] {
					fail("%s: cloning %s again with the same map gives another clone", stateName, d.name)
					return
				}
			}

			for _, d := range ds {
				g0 := graph([]*bsh{d.b}, viewOpts{})
				c.Key(stateName, d.e.get().Kind, fmt.Sprint(strings.Count(g0, "\n")), fmt.Sprint(strings.Contains(g0, "<head")))
				cl := d.b.CloneDetached()
				c.Eval(1)
				c.Count("clones", 1)
				if g := graph([]*bsh{cl}, viewOpts{}); g != g0 {
					fail("%s: the clone of %s differs:\n%s\n%s", stateName, d.name, clip(g0, 1000), clip(g, 1000))
					return
				}
				if x := same(d.name, d.b, cl, false); x != "" {
					fail("%s: the clone differs: %s", stateName, x)
					return
				}
				for p, what := range structure(cl) {
					c.Count("addresses", 1)
					if w, ok := own[p]; ok {
						fail("%s: the clone of %s shares the %s with the original (%s)", stateName, d.name, what, w)
						return
					}
				}
				sh := d.b.CloneShallow()
				if x := same(d.name, d.b, sh, false); x != "" {
					fail("%s: the shallow clone differs: %s", stateName, x)
					return
				}
			}
			// what a shallow clone holds itself is its own
			{
				d := ds[c.R.N(len(ds))]
				sh := d.b.CloneShallow()
				if sh.Shape == d.b.Shape || sh.Shape.Base() != sh {
					fail("%s: the shape of a shallow clone of %s belongs to the original", stateName, d.name)
					return
				}
				c.Count("shallow_clones", 1)
				vandalizeOwn(sh)
				if g := graph(roots, viewOpts{}); g != whole {
					fail("%s: modifying what a shallow clone of %s holds itself changes the originals:\n%s", stateName, d.name, firstDiff(whole, g))
					return
				}
			}
			if graph(roots, viewOpts{}) != whole {
				fail("%s: cloning changes the originals", stateName)
				return
			}

			// changes of a clone do not reach the original
			d := ds[c.R.N(len(ds))]
			cl := d.b.CloneDetached()
			n := vandalize(c.R, l.R, cl)
			c.Count("modified_shapes", n)
			if g := graph(roots, viewOpts{}); g != whole {
				fail("%s: modifying a clone of %s changes the originals:\n%s", stateName, d.name, firstDiff(whole, g))
				return
			}
			if state < 2 {
				for _, d := range ds {
					cl := d.b.CloneDetached()
					us, err := l.R.UnwrapShape(cl)
					if err == nil {
						_, err = l.R.FindAndMarkRecursion(us)
						if err != nil && err == raml.ErrNil {
							err = nil
						}
					}
					if err != nil {
						fail("%s: unwrapping a clone of %s fails: %v", stateName, d.name, err)
						return
					}
					c.Count("unwrapped_clones", 1)
					diffs, _ := compareModel(d.name, us, d.e)
					if len(diffs) > 0 {
						fail("%s: the unwrapped clone of %s has another meaning: %s", stateName, d.name, strings.Join(diffs, "; "))
						return
					}
				}
				if g := graph(roots, viewOpts{}); g != whole {
					fail("%s: unwrapping clones changes the originals:\n%s", stateName, firstDiff(whole, g))
					return
				}
			}
			// changes of the originals do not reach the clones
			gc := graph(clones, viewOpts{})
			if state < 2 && c.R.P(60) {
				if err := l.R.UnwrapShapes(); err != nil {
					fail("%s: unwrapping fails after clones were made: %v", stateName, err)
					return
				}
				for _, d := range l.all(pr, ref) {
					diffs, _ := compareModel(d.name, d.b, d.e)
					if len(diffs) > 0 {
						fail("%s: unwrapping after cloning gives another type: %s: %s", stateName, d.name, strings.Join(diffs, "; "))
						return
					}
				}
				if g := graph(clones, viewOpts{}); g != gc {
					fail("%s: unwrapping the originals changes the clones:\n%s", stateName, firstDiff(gc, g))
					return
				}
			}
			for _, b := range roots {
				c.Count("modified_shapes", vandalize(c.R, l.R, b))
			}
			if g := graph(clones, viewOpts{}); g != gc {
				fail("%s: modifying the originals changes the clones:\n%s", stateName, firstDiff(gc, g))
				return
			}
		}})
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return clip(x[i], 900) + "\n" + clip(y[i], 900)
		}
	}
	return fmt.Sprintf("%d <> %d lines", len(x), len(y))
}
