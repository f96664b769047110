package main

import (
	"fmt"
	"github.com/acronis/go-raml/v2"
	"sort"
	"strings"
)

// C06: type graphs in which everything may refer to everything.

type cycGen struct {
	r     *Rand
	pr    *Project
	libs  []*Frag
	dts   []*Frag
	decls []*Decl
	kind  map[*Decl]string // obj, any
	prods bool             // only cycles through properties and items
}

var cycNames = []string{"A", "B", "C", "D", "E", "F", "G", "n", "items"}

// tx is a random type expression over all declarations.
func (g *cycGen) tx(d int) *TRef {
	r := g.r
	switch x := r.N(100); {
	case x < 55 || d > 2:
		return rn(g.decls[r.N(len(g.decls))])
	case x < 66:
		return b(r.Pick("string", "integer", "boolean", "nil"))
	case x < 76:
		return arr(g.grp(g.tx(d + 1)))
	case x < 86:
		return optT(g.grp(g.tx(d + 1)))
	default:
		u := []*TRef{g.tx(d + 1), g.tx(d + 1)}
		if r.P(25) {
			u = append(u, g.tx(d+1))
		}
		return uni(g.grp(u[0]), g.grp(u[1]))
	}
}

func (g *cycGen) grp(x *TRef) *TRef {
	if x.K == RUnion {
		return &TRef{K: RGroup, Sub: []*TRef{x}}
	}
	return x
}

// node is a declaration body somewhere below a declared type: recursion through it consumes a level of the value.
func (g *cycGen) node(d int) *TNode {
	r := g.r
	switch x := r.N(100); {
	case x < 70 || d > 1:
		return inl(g.tx(0))
	case x < 78:
		return g.object(d + 1)
	case x < 86:
		t := &TNode{Ref: b("array"), Items: g.node(d + 1)}
		if r.P(30) {
			t.MaxItems = pt(uint64(r.Range(1, 3)))
		}
		return t
	case x < 92 && len(g.dts) > 0:
		return inl(&TRef{K: RInclude, Frag: g.dts[r.N(len(g.dts))]})
	default:
		t := &TNode{Ref: g.tx(0)}
		t.Description = pt("d")
		return t
	}
}

func (g *cycGen) object(d int) *TNode {
	r := g.r
	t := obj()
	if r.P(60) {
		t.Ref = b("object")
	}
	used := map[string]bool{}
	for i := r.Range(1, 3); i > 0; i-- {
		n := r.Pick("v", "n", "l", "r", "k", "items", "x-1")
		if used[n] {
			continue
		}
		used[n] = true
		p := oprop(n, g.node(d))
		p.Required = r.P(20)
		t.Props = append(t.Props, p)
	}
	if r.P(12) {
		t.Props = append(t.Props, &Prop{Name: r.Pick("^y", "^z", "^[0-9]+$"), Pattern: true, Required: true, T: g.node(d)})
		if r.P(40) {
			t.AddlProps = pt(true)
		}
	} else if r.P(15) {
		t.AddlProps = pt(r.P(30))
	}
	if r.P(10) {
		t.MaxProps = pt(uint64(r.Range(1, 4)))
	}
	return t
}

func (g *cycGen) alias(f, to *Frag) {
	if f == to {
		return
	}
	for _, u := range f.Uses {
		if u.To == to {
			return
		}
	}
	f.Uses = append(f.Uses, &Use{Alias: "u" + fmt.Sprint(len(f.Uses)), To: to})
}

func genCyclic(r *Rand) (*Project, *cycGen) {
	g := &cycGen{r: r, pr: &Project{Data: map[string]string{}}, kind: map[*Decl]string{}}
	nl := 1
	if r.P(45) {
		nl = r.Range(2, 3)
	}
	for i := 0; i < nl; i++ {
		g.libs = append(g.libs, &Frag{Kind: FLibrary, Path: r.Pick("", "d/", "d/e/") + fmt.Sprintf("l%d.raml", i)})
	}
	for i := r.N(3); i > 0; i-- {
		g.dts = append(g.dts, &Frag{Kind: FDataType, Path: r.Pick("", "d/", "t/") + fmt.Sprintf("t%d.raml", i)})
	}
	g.pr.Frags = append(append([]*Frag{}, g.libs...), g.dts...)
	for _, f := range g.pr.Frags {
		for _, to := range g.libs {
			g.alias(f, to)
		}
	}
	n := r.Range(1, 5)
	if r.P(15) {
		n = r.Range(5, 8)
	}
	for i := 0; i < n; i++ {
		f := g.libs[r.N(nl)]
		if i == 0 {
			f = g.libs[0]
		}
		d := f.add(cycNames[i], nil)
		g.decls = append(g.decls, d)
		g.kind[d] = "any"
		if i == 0 || r.P(55) {
			g.kind[d] = "obj"
		}
	}
	g.prods = r.P(50)
	var objs []*Decl
	for _, d := range g.decls {
		if g.kind[d] == "obj" {
			objs = append(objs, d)
		}
	}
	done := []*Decl{}
	for _, i := range r.Perm(n) {
		d := g.decls[i]
		parents := objs
		if g.prods { // no cycles of inheritance
			parents = nil
			for _, x := range done {
				if g.kind[x] == "obj" {
					parents = append(parents, x)
				}
			}
		}
		switch x := r.N(100); {
		case g.kind[d] == "obj" && x < 25 && len(parents) > 0:
			d.T = g.object(0)
			d.T.Ref = rn(parents[r.N(len(parents))])
			if r.P(20) && len(parents) > 1 {
				d.T.Ref = &TRef{K: RMulti, Sub: []*TRef{d.T.Ref, rn(parents[r.N(len(parents))])}}
			}
			if r.P(30) {
				d.T.Props, d.T.HasProps = nil, false
				d.T.Description = pt("derived")
				d.T.MaxProps, d.T.AddlProps = nil, nil
			}
		case g.kind[d] == "obj":
			d.T = g.object(0)
		case g.prods || x < 40: // consumes
			switch r.N(3) {
			case 0:
				d.T = inl(arr(g.grp(g.tx(0))))
			case 1:
				d.T = &TNode{Ref: b("array"), Items: g.node(0)}
				if r.P(30) {
					d.T.Unique = pt(true)
				}
			default:
				d.T = inl(uni(b(r.Pick("string", "nil", "integer")), arr(g.grp(g.tx(0)))))
			}
		case x < 85 || len(g.dts) == 0:
			d.T = inl(g.tx(0))
			if r.P(25) {
				d.T = &TNode{Ref: d.T.Ref, Description: pt("own")}
			}
		default:
			d.T = inl(&TRef{K: RInclude, Frag: g.dts[r.N(len(g.dts))]})
			d.T.Inline = r.P(50)
		}
		done = append(done, d)
	}
	for i, f := range g.dts {
		f.DT = g.object(0)
		if r.P(20) && !g.prods {
			f.DT = &TNode{Ref: g.tx(0)}
		}
		// the fragment is reached from the entry point
		d := g.libs[0].add(fmt.Sprintf("I%d", i), obj(oprop("i", inl(&TRef{K: RInclude, Frag: f}))))
		g.decls = append(g.decls, d)
	}
	for i := 0; r.P(30) && i < 2; i++ { // annotation types whose type is recursive
		t := inl(g.tx(0))
		if d := objs[r.N(len(objs))]; r.P(50) {
			t = g.object(0)
			t.Ref = rn(d)
			if r.P(40) { // narrows a recursive property to another recursive type
				n := r.Pick("next", "more")
				x, y := g.libs[0].add(fmt.Sprintf("R%d", i), nil), g.libs[0].add(fmt.Sprintf("S%d", i), nil)
				x.T = obj(oprop(n, inl(rn(x))), oprop("v", inl(b("string"))))
				y.T = obj(oprop(n, inl(rn(y))), oprop("w", inl(b("string"))))
				g.decls = append(g.decls, x, y)
				t = obj(oprop(n, inl(rn(y))))
				t.Ref = rn(x)
			}
		}
		g.libs[0].ann(fmt.Sprintf("ann%d", i), t)
	}
	if r.P(25) { // custom facets whose type is recursive
		d := objs[r.N(len(objs))]
		d.T.FacetDefs = append(d.T.FacetDefs, oprop("fc", inl(rn(g.decls[r.N(n)]))))
		if d.T.Inline {
			d.T.Inline = false
		}
	}
	return g.pr, g
}

// branchy: a union below e has several alternatives that can hold other values, so that the number of ways to read a
// value can grow with every level (known finding union-branching of C10): such types get shallow values.
func branchy(e *Eff) bool {
	seen := map[*Eff]bool{e: true}
	for todo := []*Eff{e}; len(todo) > 0; todo = todo[1:] {
		x := todo[0].get()
		n := 0
		for _, m := range x.Members {
			if k := m.get().Kind; k == "object" || k == "array" || k == "union" {
				n++
			}
		}
		if n > 1 || len(seen) > 1500 {
			return true
		}
		for _, c := range x.children() {
			if !seen[c] {
				seen[c] = true
				todo = append(todo, c)
			}
		}
	}
	return false
}

// deepVal builds a value that follows the recursion down to depth d, valid as far as possible.
func deepVal(r *Rand, e *Eff, d, fuel int) any {
	nodes := 400
	return deepV(r, e, d, fuel, &nodes)
}

func deepV(r *Rand, e *Eff, d, fuel int, nodes *int) any {
	e.get()
	if *nodes--; fuel <= 0 || *nodes <= 0 {
		return nil
	}
	switch e.Kind {
	case "string":
		return r.Pick("s", "", "x")
	case "integer", "number":
		return r.N(3)
	case "boolean":
		return r.P(50)
	case "nil":
		return nil
	case "array":
		n := 0
		if d > 0 {
			n = 1
			if r.P(25) {
				n = r.Range(1, 3)
			}
		}
		out := []any{}
		for i := 0; i < n; i++ {
			dd := d - 1
			if i > 0 {
				dd = r.N(2)
			}
			if e.Items != nil {
				out = append(out, deepV(r, e.Items, dd, fuel-1, nodes))
			} else {
				out = append(out, r.N(5))
			}
		}
		return out
	case "object":
		m := map[string]any{}
		spine := -1
		if len(e.Props) > 0 {
			spine = r.N(len(e.Props))
			for try := 0; try < 3; try++ { // prefer what goes deeper
				if x := e.Props[spine].E.get(); x.Kind == "object" || x.Kind == "array" || x.Kind == "union" {
					break
				}
				spine = r.N(len(e.Props))
			}
		}
		for i, p := range e.Props {
			switch {
			case i == spine && d > 0:
				m[p.Name] = deepV(r, p.E, d-1, fuel-1, nodes)
			case p.Required || (d > 0 && r.P(15)):
				m[p.Name] = deepV(r, p.E, min(r.N(2), d-1), min(fuel-1, 5), nodes)
			}
		}
		if len(e.PProps) > 0 && d > 0 && (spine < 0 || r.P(40)) {
			p := e.PProps[r.N(len(e.PProps))]
			k := map[string]string{"^y": "ya", "^z": "zb", "^[0-9]+$": "7"}[p.Name]
			if k != "" {
				m[k] = deepV(r, p.E, d-1, fuel-1, nodes)
			}
		} else if (e.Addl == nil || *e.Addl) && r.P(10) {
			m["q"] = r.N(3)
		}
		return m
	case "union":
		if len(e.Members) == 0 {
			return nil
		}
		k := r.N(len(e.Members))
		for try := 0; try < 3; try++ {
			x := e.Members[k].get()
			deep := x.Kind == "object" || x.Kind == "array" || x.Kind == "union"
			if deep == (d > 0) {
				break
			}
			k = r.N(len(e.Members))
		}
		return deepV(r, e.Members[k], d, fuel-1, nodes)
	}
	return "any"
}

// corrupt replaces one place of the value, preferably a deep one.
func corrupt(r *Rand, v any) any {
	type place struct {
		depth int
		set   func(any)
		old   any
	}
	root := v
	places := []place{{0, func(x any) { root = x }, v}}
	deepest := 0
	var rec func(v any, d int)
	rec = func(v any, d int) {
		deepest = max(deepest, d)
		switch x := v.(type) {
		case map[string]any:
			for _, k := range sortedKeys(x) {
				places = append(places, place{d + 1, func(n any) { x[k] = n }, x[k]})
				rec(x[k], d+1)
			}
		case []any:
			for i := range x {
				places = append(places, place{d + 1, func(n any) { x[i] = n }, x[i]})
				rec(x[i], d+1)
			}
		}
	}
	rec(v, 0)
	var cand []place
	for _, p := range places {
		if p.depth >= deepest-1 || r.P(10) {
			cand = append(cand, p)
		}
	}
	p := cand[r.N(len(cand))]
	switch m, isMap := p.old.(map[string]any); {
	case isMap && r.P(40):
		n := map[string]any{}
		for k, x := range m {
			n[k] = x
		}
		n[r.Pick("v", "n", "l", "ya", "7", "zb", "q")] = []any{nil, "w", 1, map[string]any{}, []any{}, []any{1}}[r.N(6)]
		p.set(n)
	case isMap && r.P(40) && len(m) > 0:
		n := map[string]any{}
		drop := sortedKeys(m)[r.N(len(m))]
		for k, x := range m {
			if k != drop {
				n[k] = x
			}
		}
		p.set(n)
	default:
		p.set([]any{nil, "w", 1, 2.5, true, map[string]any{}, []any{}, []any{nil}, []any{1, 1}, map[string]any{"v": 1}}[r.N(10)])
	}
	return root
}

func valDepth(v any) int {
	m := 0
	switch x := v.(type) {
	case map[string]any:
		for _, y := range x {
			m = max(m, 1+valDepth(y))
		}
	case []any:
		for _, y := range x {
			m = max(m, 1+valDepth(y))
		}
	}
	return m
}

// cyclicErr: some alias or derivation leads back to itself, so that the declaration has no meaning.
func cyclicErr(e *Eff) bool {
	bad := false
	e.walk(map[*Eff]bool{}, func(x *Eff) {
		for _, q := range x.Errs {
			bad = bad || q.Kind == "cycle"
		}
	})
	return bad
}

func c06Run(c *Case) {
	r := c.R
	pr, g := genCyclic(r.Fork("graph"))
	ref := NewRef(pr)
	files := pr.Render(randStyle(r))
	c.Source(files)
	root := c.newRoot()
	writeFiles(root, files)
	entry := pr.Frags[0].Path
	text := func() string { return clip(allFiles(files), 3000) }
	var errs [4]error
	var l *Loaded
	for mode := 0; mode < 4; mode++ {
		x, err := loadPath(root, entry, mode&1 != 0, mode&2 != 0)
		c.Eval(1)
		errs[mode] = err
		if mode == 3 {
			l = x
		}
		if err == nil {
			for _, s := range x.R.GetShapes() {
				_ = s.CloneDetached()
				_ = s.String()
				_ = s.Check()
			}
		}
	}
	if errs[3] != nil {
		c.Count("rejected_graphs", 1)
		c.Key("rejected", fmt.Sprint(errs[0] == nil, errs[1] == nil, errs[2] == nil, len(g.decls), g.prods))
		if g.prods {
			c.Count("rejected_guarded", 1)
		}
		return
	}
	c.Count("accepted_graphs", 1)
	cut := map[*raml.BaseShape]bool{}
	for _, b := range l.R.GetShapes() {
		if bad := unmarked(b.Name, b, cut); bad != "" {
			c.Violate("%s\n%s", bad, text())
			return
		}
	}
	c.Count("shapes_cut", len(cut))
	budget := 14
	for _, d := range l.all(pr, ref) {
		if d.b == nil {
			c.Violate("%s is missing\n%s", d.name, text())
			return
		}
		if cyclicErr(d.e) {
			c.Count("accepted_without_meaning", 1)
			if c.Tier == "debug" {
				c.Violate("DEBUG accepted without meaning %s\n%s", d.name, text())
			}
			continue
		}
		if !reachesItself(d.e) {
			continue
		}
		c.Count("recursive_types", 1)
		schema := ""
		var doc *schemaDoc
		if len(g.decls) <= 4 {
			t, err := convert(d.b, false)
			if err != nil {
				c.Violate("%s: conversion of a recursive type fails: %v\n%s", d.name, err, text())
				return
			}
			schema = t
			if doc, err = parseSchema([]byte(t)); err != nil {
				c.Violate("%s: the schema is not JSON: %v\n%s", d.name, err, text())
				return
			}
			c.Count("schemas", 1)
		}
		thick := branchy(d.e)
		if thick {
			c.Count("branching_types", 1)
		}
		for i := 0; i < budget; i++ {
			depth := r.N(7)
			if thick {
				depth = r.N(4)
			} else if r.P(15) {
				depth = r.Range(7, 60)
			}
			v := deepVal(r, d.e, depth, depth*3+20)
			if i%2 == 1 {
				v = corrupt(r, v)
			}
			want := ref.accept(d.e, v)
			got := d.b.Validate(v)
			c.Eval(1)
			dd := valDepth(v)
			c.Key(d.e.Kind, facetKey(d.e), fmt.Sprint(want, min(dd, 12)))
			if want {
				c.Count("accepted_values", 1)
			} else {
				c.Count("rejected_values", 1)
			}
			if dd >= 5 {
				c.Count("deep_values", 1)
			}
			if (got == nil) != want {
				c.Violate("%s: value %s: the unfolding of the declaration says %v, the library says %v\n%s", d.name, clip(jsonText(v), 600), want, got, text())
				return
			}
			if doc != nil {
				sw, known := schemaAccept(d.e, v)
				if known {
					sg, err := doc.valid(doc.root, v, 0)
					if err != nil || sg != sw {
						c.Violate("%s: value %s: the declaration says %v, its schema says %v (%v)\n%s\n%s", d.name, clip(jsonText(v), 600), sw, sg, err, clip(schema, 1200), text())
						return
					}
					c.Count("schema_verdicts", 1)
				}
			}
		}
	}
	c.cyclicValues(r.Fork("values"), pr, g, ref)
	if c.Idx < 3 {
		c.Sample(clip(allFiles(files), 1500))
	}
}

// reachesItself: the type is recursive or uses a recursive type.
func reachesItself(e *Eff) bool {
	on, done := map[*Eff]bool{}, map[*Eff]bool{}
	n := 0
	var rec func(x *Eff) bool
	rec = func(x *Eff) bool {
		if on[x] {
			return true
		}
		if n++; done[x] || n > 3000 {
			return n > 3000
		}
		on[x] = true
		x.get()
		for _, k := range x.children() {
			if rec(k) {
				return true
			}
		}
		on[x] = false
		done[x] = true
		return false
	}
	return rec(e)
}

// cyclicValues adds an example, default, annotation or custom facet value of a recursive type and expects the verdict of
// the value to be the verdict of the project.
func (c *Case) cyclicValues(r *Rand, pr *Project, g *cycGen, ref *Ref) {
	var rec []*Decl
	for _, d := range g.decls {
		if e := ref.decl(d); !cyclicErr(e) && reachesItself(e) {
			rec = append(rec, d)
		}
	}
	if len(rec) == 0 {
		return
	}
	for i := 0; i < 3; i++ {
		d := rec[r.N(len(rec))]
		e := ref.decl(d)
		depth := r.N(6)
		if branchy(e) {
			depth = r.N(4)
		}
		v := deepVal(r, e, depth, 30)
		if r.P(50) {
			v = corrupt(r, v)
		}
		if v == nil {
			continue
		}
		want := ref.accept(e, v)
		form := r.N(3)
		if _, isMap := v.(map[string]any); !isMap && form == 2 {
			form = 1 // only objects are read from text
		}
		what := ""
		undo := func() {}
		if m, ok := v.(map[string]any); ok && len(m) == 1 { // {value: ...} is the long form of an example
			if _, x := m["value"]; x {
				continue
			}
		}
		switch r.N(3) {
		case 0:
			h := g.libs[0].add("Holder", &TNode{Ref: rn(d), Example: &Ex{V: v, Form: form}})
			what = "example " + h.Name
			undo = func() { h.Frag.Types = h.Frag.Types[:len(h.Frag.Types)-1] }
		case 1:
			h := g.libs[0].add("Holder", obj(oprop("h", &TNode{Ref: rn(d), Default: &Ex{V: v, Form: form}})))
			what = "default " + h.Name
			undo = func() { h.Frag.Types = h.Frag.Types[:len(h.Frag.Types)-1] }
		default:
			a := g.libs[0].ann("note", inl(rn(d)))
			h := g.libs[0].add("Holder", &TNode{Ref: b("string"), Annots: []*AnnApply{{Decl: a, V: v}}})
			what = "annotation of " + h.Name
			undo = func() {
				h.Frag.Types = h.Frag.Types[:len(h.Frag.Types)-1]
				h.Frag.Anns = h.Frag.Anns[:len(h.Frag.Anns)-1]
			}
		}
		files := pr.Render(Style{Step: 2})
		undo()
		c.Source(files)
		root := c.newRoot()
		writeFiles(root, files)
		for _, unwrap := range []bool{false, true} {
			_, err := loadPath(root, pr.Frags[0].Path, unwrap, true)
			c.Eval(1)
			if (err == nil) != want {
				c.Violate("%s with value %s: expected valid=%v (unwrap=%v), got %v\n%s", what, clip(jsonText(v), 600), want, unwrap, err, clip(allFiles(files), 3000))
				return
			}
		}
		c.Count("declared_values", 1)
		c.Key("declared", strings.Fields(what)[0], fmt.Sprint(want))
	}
}

func init() {
	register(&Check{ID: "C06", Rule: "case = random graph of 1-8 declarations in 1-3 libraries that use each other and 0-2 DataType fragments, in which every property, item, union member, optional, alias, parent, include and custom facet may refer to any declaration. Crashes, hangs and stack exhaustion are monitored in all 4 modes, with clones, checks and conversion; when the project is accepted, values following the recursion to depth 0-60 and damaged copies of them get the verdict of a reference evaluator that unfolds the declarations lazily, from Validate, from the converted schema (own draft-07 evaluator) and as example, default and annotation value. Distinct: (kind, facets, verdict, depth)",
		Quick: 6000, Thorough: 200000, CPU: 25e9,
		Require: map[string]int{"accepted_graphs": 1500, "rejected_graphs": 300, "recursive_types": 4000, "accepted_values": 15000, "rejected_values": 10000, "deep_values": 3000, "schema_verdicts": 10000, "declared_values": 2000},
		Run:     c06Run})
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
