package main

import (
	"context"
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"
	"strconv"

	"github.com/acronis/go-raml/v2"
	"github.com/acronis/go-stacktrace"
	orderedmap "github.com/wk8/go-ordered-map/v2"
)

// ---------------------------------------------------------------- building models through the exported API

// assembler builds the model of an abstract project from exported constructors and fields only: no RAML text is read.
type assembler struct {
	r    *Rand
	pr   *Project
	ref  *Ref
	rt   *raml.RAML
	root string
	decl map[*Decl]*bsh
	dts  map[*Frag]*raml.DataType
	made int

	direct bool // properties and items may be declared types themselves
}

func (a *assembler) loc(f *Frag) string { return filepath.Join(a.root, f.Path) }

func (a *assembler) shape(f *Frag, name, kind string) *bsh {
	a.made++
	pos := stacktrace.Position{}
	if a.r.P(70) {
		pos = stacktrace.Position{Line: a.r.Range(1, 90), Column: a.r.Range(1, 20)}
	}
	if a.r.P(50) {
		base := a.rt.MakeBaseShape(name, a.loc(f), pos)
		if _, err := a.rt.MakeConcreteShapeYAML(base, kind, nil); err != nil {
			panic(err)
		}
		return base
	}
	base, _, err := a.rt.MakeNewShape(name, kind, a.loc(f), pos)
	if err != nil {
		panic(err)
	}
	return base
}

// val is a value as a program would write it down.
func (a *assembler) val(v any) any {
	switch x := v.(type) {
	case float64:
		if x == float64(int64(x)) && x > -1e15 && x < 1e15 {
			switch a.r.N(3) {
			case 0:
				return int(x)
			case 1:
				return int64(x)
			}
		}
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = a.val(x[i])
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k := range x {
			out[k] = a.val(x[k])
		}
		return out
	}
	return v
}

func (a *assembler) node(f *Frag, v any) *raml.Node {
	return &raml.Node{Value: a.val(v), Location: a.loc(f)}
}

func (a *assembler) nodes(f *Frag, vs []any) raml.Nodes {
	out := raml.Nodes{}
	for _, v := range vs {
		if x, ok := v.(float64); ok && x == float64(int64(x)) && x > -1e15 && x < 1e15 {
			v = int(x) // as the parser has it: enums of integers are not taken as floating point numbers
		}
		out = append(out, &raml.Node{Value: v, Location: a.loc(f)})
	}
	return out
}

func (a *assembler) kind(t *TNode, f *Frag) string { return a.ref.node(t, f).get().Kind }

func (a *assembler) exprKind(x *TRef, f *Frag) string {
	switch x.K {
	case RGroup, RMulti:
		return a.exprKind(x.Sub[0], f)
	case RNamed:
		return a.kind(x.Decl.T, x.Decl.Frag)
	case RInclude:
		return a.kind(x.Frag.DT, x.Frag)
	case RArray:
		return "array"
	case ROpt, RUnion:
		return "union"
	case RJSON:
		return "json"
	}
	return x.Name
}

// expr builds an anonymous occurrence of a type.
func (a *assembler) expr(x *TRef, f *Frag, name string) *bsh {
	base := a.shape(f, name, a.exprKind(x, f))
	a.link(base, x, f, true)
	return base
}

// link connects a shape with what its type expression refers to.
func (a *assembler) link(base *bsh, x *TRef, f *Frag, inline bool) {
	switch x.K {
	case RGroup:
		a.link(base, x.Sub[0], f, inline)
	case RJSON:
		s, err := a.rt.MakeJSONShape(base, x.Name)
		if err != nil {
			panic(err)
		}
		base.SetShape(s)
	case RNamed:
		if inline {
			base.Alias = a.decl[x.Decl]
		} else {
			base.Inherits = []*bsh{a.decl[x.Decl]}
		}
	case RInclude:
		base.Link = a.dts[x.Frag]
	case RMulti:
		for _, s := range x.Sub {
			base.Inherits = append(base.Inherits, a.expr(s, f, base.Name))
		}
	case RArray:
		base.Shape.(*raml.ArrayShape).Items = a.expr(x.Sub[0], f, "")
	case ROpt:
		base.Shape.(*raml.UnionShape).AnyOf = []*bsh{a.expr(x.Sub[0], f, ""), a.shape(f, "", "nil")}
	case RUnion:
		u := base.Shape.(*raml.UnionShape)
		for _, s := range x.Sub {
			u.AnyOf = append(u.AnyOf, a.expr(s, f, ""))
		}
	}
}

func (a *assembler) example(f *Frag, x *Ex) *raml.Example {
	e := &raml.Example{Name: x.Name, Data: a.node(f, x.V), Strict: x.Strict == nil || *x.Strict, Location: a.loc(f),
		CustomDomainProperties: a.annots(f, x.Annots)}
	if x.DispNm != nil {
		e.DisplayName = *x.DispNm
	}
	if x.Descr != nil {
		e.Description = *x.Descr
	}
	return e
}

func (a *assembler) annots(f *Frag, as []*AnnApply) *orderedmap.OrderedMap[string, *raml.DomainExtension] {
	out := orderedmap.New[string, *raml.DomainExtension]()
	for _, x := range as {
		out.Set(x.Name, &raml.DomainExtension{Name: x.Name, Extension: a.node(f, x.V), DefinedBy: a.decl[x.Decl], Location: a.loc(f)})
	}
	return out
}

func (a *assembler) child(t *TNode, f *Frag, name string) *bsh {
	if t.Inline && t.Ref.K == RNamed && a.direct && a.r.P(50) {
		return a.decl[t.Ref.Decl] // the declared type itself
	}
	base := a.shape(f, name, a.kind(t, f))
	a.fill(base, t, f)
	return base
}

func intFacet(s *string) *big.Int {
	if s == nil {
		return nil
	}
	q := rat(*s)
	return new(big.Int).Set(q.Num())
}

func floatFacet(s *string) *float64 {
	if s == nil {
		return nil
	}
	f, err := strconv.ParseFloat(*s, 64)
	if err != nil {
		panic(err)
	}
	return &f
}

// fill sets what the declaration says on its shape.
func (a *assembler) fill(base *bsh, t *TNode, f *Frag) {
	if t.Null {
		return
	}
	if t.Inline {
		a.link(base, t.Ref, f, true)
		return
	}
	if t.Ref != nil {
		a.link(base, t.Ref, f, false)
	}
	base.DisplayName, base.Description, base.Required = t.DisplayName, t.Description, t.RequiredFacet
	base.CustomDomainProperties = a.annots(f, t.Annots)
	if t.Example != nil {
		base.Example = a.example(f, t.Example)
	}
	if len(t.Examples) > 0 {
		m := orderedmap.New[string, *raml.Example]()
		for _, x := range t.Examples {
			m.Set(x.Name, a.example(f, x))
		}
		base.Examples = &raml.Examples{Map: m, Location: a.loc(f)}
		if t.NamedEx {
			ne := a.rt.MakeNamedExample(a.loc(f) + ".examples")
			ne.Map = m
			base.Examples = &raml.Examples{Link: ne, Location: a.loc(f)}
		}
	}
	if t.Default != nil {
		base.Default = a.node(f, t.Default.V)
	}
	for _, p := range t.FacetDefs {
		base.CustomShapeFacetDefinitions.Set(p.Name, raml.Property{Name: p.Name, Required: p.Required, Base: a.child(p.T, f, p.Name)})
	}
	custom := t.Custom
	if base.Type == "union" || base.Type == "json" {
		custom = customOnly(t)
	}
	for _, c := range custom {
		base.CustomShapeFacets.Set(c.Name, a.node(f, c.V))
	}
	switch s := base.Shape.(type) {
	case *raml.StringShape:
		s.MinLength, s.MaxLength = t.MinLength, t.MaxLength
		if t.Pattern != nil {
			s.Pattern = regexp.MustCompile(*t.Pattern)
		}
		if t.HasEnum {
			s.Enum = a.nodes(f, t.Enum)
		}
	case *raml.FileShape:
		s.MinLength, s.MaxLength = t.MinLength, t.MaxLength
		if t.FileTypes != nil {
			s.FileTypes = raml.Nodes{}
			for _, x := range t.FileTypes {
				s.FileTypes = append(s.FileTypes, a.node(f, x))
			}
		}
	case *raml.IntegerShape:
		s.Minimum, s.Maximum, s.MultipleOf, s.Format = intFacet(t.Minimum), intFacet(t.Maximum), t.MultipleOf, t.Format
		if t.HasEnum {
			s.Enum = a.nodes(f, t.Enum)
		}
	case *raml.NumberShape:
		s.Minimum, s.Maximum, s.MultipleOf, s.Format = floatFacet(t.Minimum), floatFacet(t.Maximum), t.MultipleOf, t.Format
		if t.HasEnum {
			s.Enum = a.nodes(f, t.Enum)
		}
	case *raml.BooleanShape:
		if t.HasEnum {
			s.Enum = a.nodes(f, t.Enum)
		}
	case *raml.DateTimeShape:
		s.Format = t.Format
	case *raml.ArrayShape:
		s.MinItems, s.MaxItems, s.UniqueItems = t.MinItems, t.MaxItems, t.Unique
		if t.Items != nil {
			s.Items = a.child(t.Items, f, "items")
		}
	case *raml.ObjectShape:
		s.AdditionalProperties, s.MinProperties, s.MaxProperties = t.AddlProps, t.MinProps, t.MaxProps
		s.Discriminator, s.DiscriminatorValue = t.Discriminator, t.DiscValue
		for _, p := range t.Props {
			name := p.Name
			switch {
			case p.Pattern:
				name = "/" + name + "/"
			case !p.Required && !p.explicit():
				name += "?"
			}
			b := a.child(p.T, f, name)
			if p.Pattern {
				if s.PatternProperties == nil {
					s.PatternProperties = orderedmap.New[string, raml.PatternProperty]()
				}
				s.PatternProperties.Set("/"+p.Name+"/", raml.PatternProperty{Pattern: regexp.MustCompile(p.Name), Base: b})
				continue
			}
			if s.Properties == nil {
				s.Properties = orderedmap.New[string, raml.Property]()
			}
			s.Properties.Set(p.Name, raml.Property{Name: p.Name, Required: p.Required, Base: b})
		}
	}
}

func assemble(r *Rand, pr *Project, ref *Ref, root string) *assembler {
	a := &assembler{r: r, pr: pr, ref: ref, rt: raml.New(context.Background()), root: root, decl: map[*Decl]*bsh{}, dts: map[*Frag]*raml.DataType{}, direct: r.P(30)}
	frags := pr.fragsReached()
	for _, f := range frags {
		switch f.Kind {
		case FJSON:
			dt, err := a.rt.MakeJSONDataType([]byte(f.DT.Ref.Name), a.loc(f))
			if err != nil {
				panic(err)
			}
			a.dts[f] = dt
			a.rt.PutFragment(a.loc(f), dt)
		case FDataType:
			dt := a.rt.MakeDataType(a.loc(f))
			dt.Shape = a.shape(f, filepath.Base(f.Path), a.kind(f.DT, f))
			a.dts[f] = dt
			a.rt.PutFragment(a.loc(f), dt)
			a.rt.PutTypeIntoFragment(dt.Shape.Name, a.loc(f), dt.Shape)
		default:
			lib := a.rt.MakeLibrary(a.loc(f))
			a.rt.PutFragment(a.loc(f), lib)
			for _, d := range append(append([]*Decl{}, f.Anns...), f.Types...) {
				b := a.shape(f, d.Name, a.kind(d.T, f))
				a.decl[d] = b
				if d.Ann {
					lib.AnnotationTypes.Set(d.Name, b)
					a.rt.PutAnnotationTypeIntoFragment(d.Name, a.loc(f), b)
				} else {
					lib.Types.Set(d.Name, b)
					a.rt.PutTypeIntoFragment(d.Name, a.loc(f), b)
				}
			}
		}
	}
	order := a.r.Perm(len(frags))
	for _, i := range order {
		f := frags[i]
		if f.Kind == FDataType {
			a.fill(a.dts[f].Shape, f.DT, f)
		}
		for _, d := range append(append([]*Decl{}, f.Anns...), f.Types...) {
			a.fill(a.decl[d], d.T, f)
		}
	}
	a.rt.SetEntryPoint(a.rt.GetFragment(a.loc(frags[0])))
	return a
}

// ---------------------------------------------------------------- check

func init() {
	register(&Check{ID: "C21", Rule: "case = random project (60% valid, otherwise with one random semantic edit) assembled from exported constructors and fields (MakeBaseShape, MakeNewShape, MakeConcreteShapeYAML, MakeLibrary, MakeDataType, MakeJSONShape, facet structs) and, next to it, parsed from RAML text. Monitors: equal verdicts; equal models against the reference and against the parsed model; equal value verdicts and JSON Schemas; BaseShape.Inherit on finished types against the reference meaning of a type derived from both, parent untouched. Distinct: (kinds of the declared types, verdict, edit)",
		Quick: 12000, Thorough: 200000,
		Require: map[string]int{"built_shapes": 150000, "models_compared": 40000, "rejected": 1500, "values": 150000, "schemas": 10000, "inherit_ok": 10000, "inherit_rejected": 9000},
		Run:     c21Run})
}

func c21Run(c *Case) {
	o := fullOpts()
	o.Types = c.R.Range(2, 9)
	o.Recursion = c.R.P(35)
	o.Derive = c.R.N(60)
	pr, ref := genProject(c.R.Fork("gen"), o)
	if len(ref.Verdict()) > 0 {
		c.Count("generator_rejects", 1)
		return
	}
	what := ""
	if c.R.P(40) {
		what = breakProject(c.R, pr, ref)
		ref = NewRef(pr)
	}
	files := pr.Render(randStyle(c.R))
	c.Source(files)
	entry := pr.Frags[0].Path
	root := c.newRoot()
	writeFiles(root, files)
	fail := func(f string, args ...any) {
		c.Violate("%s (edit %q)\n%s", clip(fmt.Sprintf(f, args...), 2500), what, clip(allFiles(files), 3000))
	}
	for _, e := range ref.Verdict() {
		if e.Kind == "annotation" { // values of annotations are only registered by the parser
			c.Count("annotation_rejected", 1)
			return
		}
	}
	if _, err := loadPath(root, entry, false, false); err != nil {
		c.Count("rejected_when_parsed", 1) // the text itself is malformed
		return
	}
	parsed, perr := loadPath(root, entry, true, true)
	a := assemble(c.R.Fork("build"), pr, ref, filepath.Join(root, "assembled"))
	c.Count("built_shapes", a.made)
	if n := len(a.rt.GetShapes()); n < a.made {
		fail("%d shapes are made, %d are listed", a.made, n)
		return
	}
	var err error
	mode := c.R.N(3)
	switch mode {
	case 0:
		if err = a.rt.UnwrapShapes(); err == nil {
			err = a.rt.ValidateShapes()
		}
	case 1:
		if err = a.rt.ValidateShapes(); err == nil {
			err = a.rt.UnwrapShapes()
		}
	default: // one by one first
		fs := pr.fragsReached()
		for k := c.R.Range(1, 4); k > 0 && err == nil; k-- {
			f := fs[c.R.N(len(fs))]
			if ds := f.Types; len(ds) > 0 {
				_, err = a.rt.UnwrapShape(a.decl[ds[c.R.N(len(ds))]])
			}
		}
		if err == nil {
			if err = a.rt.UnwrapShapes(); err == nil {
				err = a.rt.ValidateShapes()
			}
		}
	}
	c.Eval(1)
	verdict := "accepted"
	if err != nil {
		verdict = "rejected"
	}
	c.Count(verdict, 1)
	var kinds string
	for _, d := range pr.decls() {
		kinds += ref.decl(d).get().Kind + ","
	}
	c.Key(kinds, verdict, what, fmt.Sprint(mode))
	if (err == nil) != (perr == nil) {
		fail("assembled (mode %d): %v, parsed: %v", mode, err, perr)
		return
	}
	if err != nil {
		return
	}
	got := &Loaded{a.root, entry, a.rt}
	ds, ps := got.all(pr, ref), parsed.all(pr, ref)
	seen := map[*bsh]bool{}
	clean := len(ref.Verdict()) == 0
	for i, d := range ds {
		if d.b == nil {
			fail("%s is missing", d.name)
			return
		}
		if bad := unwrappedFault(d.name, d.b, seen); bad != "" {
			fail("%s", bad)
			return
		}
		if diff := same(d.name, d.b, ps[i].b, true); diff != "" {
			fail("assembled and parsed models differ: %s", diff)
			return
		}
		if clean {
			if diffs, _ := compareModel(d.name, d.b, d.e); len(diffs) > 0 {
				fail("assembled model: %v", diffs)
				return
			}
		}
		c.Count("models_compared", 1)
		vs := genValues(c.R, d.e, 4)
		for _, v := range vs {
			v = normJSON(v)
			e1, e2 := d.b.Validate(v), ps[i].b.Validate(v)
			c.Eval(1)
			c.Count("values", 1)
			if (e1 == nil) != (e2 == nil) {
				fail("%s: value %s: assembled type says %v, parsed type says %v", d.name, jval(v), e1, e2)
				return
			}
		}
	}
	c.Count("schemas", c21Schemas(c, ds, ps, fail))
	if clean {
		if !o.Recursion {
			c21Inherit(c, pr, [][]declShape{ds, ps}, a.direct, fail)
		}
	}
}

func c21Schemas(c *Case, ds, ps []declShape, fail func(string, ...any)) int {
	n := 0
	for k := 0; k < 2 && len(ds) > 0; k++ {
		i := c.R.N(len(ds))
		rec := false
		reach(ds[i].b, map[*bsh]bool{}, func(x *bsh) {
			if _, ok := x.Shape.(*raml.RecursiveShape); ok {
				rec = true
			}
		})
		if rec { // where the marks are depends on the order of unwrapping
			continue
		}
		ext := c.R.P(50)
		s1, e1 := convert(ds[i].b, ext)
		s2, e2 := convert(ps[i].b, ext)
		c.Eval(1)
		if (e1 == nil) != (e2 == nil) || e1 == nil && canonSchema(s1) != canonSchema(s2) {
			fail("%s: JSON Schemas differ: %v %v\n%s\n%s", ds[i].name, e1, e2, s1, s2)
			return n
		}
		n++
	}
	return n
}

var unionCount = regexp.MustCompile(`union: \d+ members, want \d+$`)

// c21Inherit merges copies of finished types into one another.
func c21Inherit(c *Case, pr *Project, lists [][]declShape, detach bool, fail func(string, ...any)) {
	for k := 0; k < 6; k++ {
		ds := lists[c.R.N(len(lists))]
		i, j := c.R.N(len(ds)), c.R.N(len(ds))
		for t := 0; t < 8 && (i == j || c.R.P(80) && ds[i].b.Type != ds[j].b.Type); t++ {
			i, j = c.R.N(len(ds)), c.R.N(len(ds))
		}
		if i == j {
			continue
		}
		js := []int{j} // several parents one after another
		for r, t := c.R.Fork("parents"), 0; t < 8 && len(js) < 3; t++ {
			x := r.N(len(ds))
			if r.P(50) && x != i && x != j && ds[x].b.Type == ds[j].b.Type && (len(js) == 1 || js[1] != x) {
				js = append(js, x)
			}
		}
		ref := NewRef(pr) // merging changes the reference
		sub := ds[i]
		e := *ref.node(sub.e.T, sub.e.frag).get()
		e.Errs = nil
		m := map[int64]*bsh{}
		res := sub.b.Clone(m)
		alone := detach || c.R.P(30) && sub.b.Type != "union"
		if alone {
			res = sub.b.CloneDetached()
		}
		var cps []*bsh
		var befores []string
		for _, j := range js {
			cp := ds[j].b.Clone(m)
			if alone {
				cp = ds[j].b.CloneDetached()
			}
			cps = append(cps, cp)
			befores = append(befores, dump(cp, viewOpts{pos: true}))
		}
		par := ds[j]
		failed := false
		for n, j := range js {
			par = ds[j]
			ref.absorb(&e, ref.node(par.e.T, par.e.frag))
			want := !ref.deepMergeErr(&e)
			next, err := res.Inherit(cps[n])
			c.Eval(1)
			c.Key("inherit", sub.b.Type, par.b.Type, fmt.Sprint(want, n))
			if (err == nil) != want {
				fail("%s inheriting from %s (parent %d): %v, expected success %v: %v", sub.name, par.name, n, err, want, e.Errs)
				return
			}
			for o := range js {
				if g := dump(cps[o], viewOpts{pos: true}); g != befores[o] {
					fail("%s inheriting from %s changes %s:\n%s\n%s", sub.name, par.name, ds[js[o]].name, befores[o], g)
					return
				}
			}
			if err != nil {
				failed = true
				break
			}
			if res = next; n > 0 {
				c.Count("inherit_more", 1)
			}
		}
		if failed {
			c.Count("inherit_rejected", 1)
			continue
		}
		c.Count("inherit_ok", 1)
		diffs, _ := compareModel(sub.name+"+"+par.name, res, &e)
		var real []string
		for _, d := range diffs {
			if !unionCount.MatchString(d) { // alternatives merged pairwise with themselves mean the same
				real = append(real, d)
			}
		}
		if len(real) > 0 {
			fail("%s inheriting from %s: %v", sub.name, par.name, diffs)
			return
		}
		for _, v := range genValues(c.R, &e, 3) {
			v = normJSON(v)
			if hasLenientDate(v) {
				continue
			}
			c.Eval(1)
			if want, err := ref.accept(&e, v), res.Validate(v); (err == nil) != want {
				fail("%s inheriting from %s: value %s: %v, want accepted=%v", sub.name, par.name, jval(v), err, want)
				return
			}
		}
	}
}
