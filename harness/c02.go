package main

import (
	"fmt"

	"github.com/acronis/go-raml/v2"
)

// subsetExact says whether "accepted by the child implies accepted by the parent" holds without exception: the parent
// restricts neither unknown property names (a child may add properties) nor patterns (a child may replace them).
func subsetExact(p *Eff) bool {
	ok := true
	p.walk(map[*Eff]bool{}, func(x *Eff) {
		if x.Pattern != nil || len(x.PProps) > 0 || (x.Addl != nil && !*x.Addl) {
			ok = false
		}
	})
	return ok
}

func parentsOf(d *Decl) []*TRef {
	t := d.T
	if t.Null || t.Ref == nil {
		return nil
	}
	x := t.Ref
	for x.K == RGroup {
		x = x.Sub[0]
	}
	switch x.K {
	case RNamed, RInclude:
		return []*TRef{x}
	case RMulti:
		return x.Sub
	}
	return nil
}

func init() {
	register(&Check{ID: "C02", Rule: "case = random valid project rich in derivation (single, multiple, alias, include, type expressions, nested overrides, several libraries and DataType fragments); after unwrapping, every declared type, annotation type and DataType fragment is compared node by node with an independent flattener over the printed declarations, and values accepted by a derived type are given to its parents. Distinct: (kind, facets in force, number of parents, depth of the derivation)",
		Quick: 12000, Thorough: 120000,
		Require: map[string]int{"shapes_compared": 100000, "projects": 5000, "derived_types": 20000, "values_child_to_parent": 10000},
		Run: func(c *Case) {
			o := fullOpts()
			o.Types = 12
			o.Depth = 2
			if c.R.P(30) {
				o.Depth = 3
			}
			o.Recursion = c.R.P(30)
			o.Derive = 40
			pr, ref, l, ok := c.prepare(o, randStyle(c.R))
			if !ok {
				return
			}
			report := func(what string, diffs []string) bool {
				if len(diffs) == 0 {
					return false
				}
				c.Violate("%s differs from what its declarations say: %v\n%s", what, diffs, clip(allFiles(c.files), 3000))
				return true
			}
			r := c.R.Fork("values")
			for _, f := range pr.fragsReached() {
				if f.Kind != FLibrary {
					dt := l.dt(f.Path)
					if dt == nil {
						c.Violate("fragment %s missing", f.Path)
						return
					}
					d, n := compareModel(f.Path, dt.Shape, ref.node(f.DT, f))
					c.Eval(1)
					c.Count("shapes_compared", n)
					if report(f.Path, d) {
						return
					}
					continue
				}
				for _, d := range append(append([]*Decl{}, f.Anns...), f.Types...) {
					base := l.decl(d)
					if base == nil {
						c.Violate("declared type %s missing", d.Name)
						return
					}
					e := ref.decl(d)
					diff, n := compareModel(d.Name, base, e)
					c.Eval(1)
					c.Count("shapes_compared", n)
					if report(f.Path+" "+d.Name, diff) {
						return
					}
					ps := parentsOf(d)
					if len(ps) == 0 {
						continue
					}
					c.Count("derived_types", 1)
					c.Key(e.Kind, facetKey(e), fmt.Sprint(len(ps), derivDepth(d, 0)))
					for _, p := range ps {
						var pe *Eff
						var pb *raml.BaseShape
						if p.K == RInclude {
							pe = ref.node(p.Frag.DT, p.Frag)
							if dt := l.dt(p.Frag.Path); dt != nil {
								pb = dt.Shape
							}
						} else if p.K == RNamed {
							pe, pb = ref.decl(p.Decl), l.decl(p.Decl)
						}
						if pb == nil || !subsetExact(pe) {
							continue
						}
						for _, v := range genValues(r, e, 6) {
							if base.Validate(v) != nil {
								continue
							}
							c.Count("values_child_to_parent", 1)
							if err := pb.Validate(v); err != nil {
								c.Violate("%s accepts %s but its parent %s rejects it: %v\n%s", d.Name, jsonText(v), pb.Name, err, clip(allFiles(c.files), 3000))
								return
							}
						}
					}
				}
			}
			if c.Idx < 3 {
				c.Sample(clip(allFiles(c.files), 1500))
			}
		}})
}

// derivDepth is the longest chain of declared parents.
func derivDepth(d *Decl, n int) int {
	if n > 30 {
		return n
	}
	m := 0
	for _, p := range parentsOf(d) {
		if p.K == RNamed {
			m = max(m, 1+derivDepth(p.Decl, n+1))
		} else {
			m = max(m, 1)
		}
	}
	return m
}
