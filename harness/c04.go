package main

import (
	"fmt"
	"strings"
)

// closure collects the declarations and fragments that a type node depends on.
type closure struct {
	decls map[*Decl]bool
	frags map[*Frag]bool
}

func (cl *closure) node(t *TNode) {
	if t == nil {
		return
	}
	cl.ref(t.Ref)
	for _, p := range t.Props {
		cl.node(p.T)
	}
	for _, p := range t.FacetDefs {
		cl.node(p.T)
	}
	for _, a := range t.Annots {
		cl.decl(a.Decl)
	}
	for _, x := range append([]*Ex{t.Example}, t.Examples...) {
		if x != nil {
			for _, a := range x.Annots {
				cl.decl(a.Decl)
			}
		}
	}
	cl.node(t.Items)
}

func (cl *closure) ref(x *TRef) {
	if x == nil {
		return
	}
	if x.Decl != nil {
		cl.decl(x.Decl)
	}
	if x.Frag != nil && !cl.frags[x.Frag] {
		cl.frags[x.Frag] = true
		cl.node(x.Frag.DT)
	}
	for _, s := range x.Sub {
		cl.ref(s)
	}
}

func (cl *closure) decl(d *Decl) {
	if cl.decls[d] {
		return
	}
	cl.decls[d] = true
	cl.frags[d.Frag] = true
	cl.node(d.T)
}

// restrict leaves only the closure in the project and returns a function that puts everything back.
func restrict(pr *Project, cl *closure, dropUses bool) func() {
	var undo []func()
	for _, f := range pr.Frags {
		f := f
		ts, as, us, ap := f.Types, f.Anns, f.Uses, f.Apply
		undo = append(undo, func() { f.Types, f.Anns, f.Uses, f.Apply = ts, as, us, ap })
		f.Types, f.Anns, f.Apply = nil, nil, nil
		for _, d := range ts {
			if cl.decls[d] {
				f.Types = append(f.Types, d)
			}
		}
		for _, d := range as {
			if cl.decls[d] {
				f.Anns = append(f.Anns, d)
			}
		}
		if dropUses && (f.Kind == FLibrary || cl.frags[f]) {
			f.Uses = nil
			for _, u := range us {
				if cl.frags[u.To] {
					f.Uses = append(f.Uses, u)
				}
			}
		}
	}
	return func() {
		for _, u := range undo {
			u()
		}
	}
}

func init() {
	register(&Check{ID: "C04", Rule: "case = random valid project rich in derivation (50-90% of the types derive, alias, combine or use others, some recursive); for several declared types the project is reduced to the type and what it refers to, loaded on its own, and the type is compared with its meaning in the whole project. Monitors: bisimilar effective model (facets, descriptions, properties, examples, custom facets), equal verdict on values, equal JSON schema (meaning, when recursive). A subset closed under dependencies is compared the same way. Distinct: (kind, facets in force, number of dependents left out)",
		Quick: 9000, Thorough: 120000,
		Require: map[string]int{"types_compared": 8000, "dependents_removed": 8000, "values": 30000},
		Run: func(c *Case) {
			o := fullOpts()
			o.Types = c.R.Range(4, 12)
			o.Recursion = c.R.P(30)
			o.Derive = c.R.Range(50, 90)
			pr, ref := genProject(c.R.Fork("gen"), o)
			if len(ref.Verdict()) > 0 {
				c.Count("generator_rejects", 1)
				return
			}
			if r := c.R.Fork("entry"); r.P(15) && dataTypeEntry(r, pr, true) != nil {
				c.Count("datatype_entries", 1)
			}
			if c.R.P(50) {
				reorder(c.R, pr)
			}
			sty := randStyle(c.R)
			seed := *sty.R
			files := pr.Render(sty)
			c.Source(files)
			full, err := c.load(files, pr.Frags[0].Path, true, true)
			if err != nil {
				c.Violate("a valid project is rejected: %v", err)
				return
			}
			ds := pr.decls()
			if len(ds) == 0 {
				return
			}
			for k := 0; k < 4; k++ {
				cl := &closure{map[*Decl]bool{}, map[*Frag]bool{}}
				n := 1
				if k == 3 {
					n = 3
				}
				var picked []*Decl
				for i := 0; i < n; i++ {
					d := ds[c.R.N(len(ds))]
					picked = append(picked, d)
					cl.decl(d)
				}
				entry := pr.Frags[0].Path
				drop := false
				if n == 1 && c.R.P(60) {
					entry, drop = picked[0].Frag.Path, true
				}
				if f := pr.Frags[0]; !drop && f.Kind == FDataType {
					cl.ref(&TRef{Frag: f})
				}
				left := 0
				for _, d := range ds {
					if !cl.decls[d] {
						left++
					}
				}
				undo := restrict(pr, cl, drop)
				sty.R = &Rand{}
				*sty.R = seed
				if c.R.P(50) {
					sty = randStyle(c.R)
				}
				sub := pr.Render(sty)
				undo()
				l, err := c.load(sub, entry, true, true)
				c.Eval(1)
				fail := func(f string, a ...any) {
					c.Violate("%s\n%s\n======== alone\n%s", fmt.Sprintf(f, a...), clip(allFiles(files), 2500), clip(allFiles(sub), 1200))
				}
				if err != nil {
					fail("%s is accepted in the project but rejected alone: %v", picked[0].Name, err)
					return
				}
				for _, d := range ds {
					if !cl.decls[d] {
						continue
					}
					a, z := full.decl(d), l.decl(d)
					if a == nil || z == nil {
						fail("%s is missing", d.Name)
						return
					}
					e := ref.decl(d).get()
					c.Count("types_compared", 1)
					c.Count("dependents_removed", left)
					c.Key(e.Kind, facetKey(e), fmt.Sprint(left))
					if x := bisim(d.Name, a, z, viewOpts{noAlias: true, facets: true}, map[[2]*bsh]bool{}); x != "" {
						fail("the meaning of a type depends on types it does not refer to (project <> alone): %s", x)
						return
					}
					for _, v := range genValues(c.R, e, 5) {
						c.Count("values", 1)
						if (a.Validate(v) == nil) != (z.Validate(v) == nil) {
							fail("%s: value %s: accepted=%v in the project but not alone", d.Name, jsonText(v), a.Validate(v) == nil)
							return
						}
					}
					t1, e1 := convert(a, false)
					t2, e2 := convert(z, false)
					if e1 != nil || e2 != nil {
						fail("%s: conversion fails: %v %v", d.Name, e1, e2)
						return
					}
					if strings.Count(t1, `"$ref"`) == 1 && strings.Count(t2, `"$ref"`) == 1 && t1 != t2 {
						fail("%s: another schema:\n%s\n%s", d.Name, t1, t2)
						return
					}
				}
			}
			if c.Idx < 2 {
				c.Sample(clip(allFiles(files), 1200))
			}
		}})
}
