package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"

	"github.com/acronis/go-raml/v2"
)

// declShapes lists every declared type of the project with its model.
type declShape struct {
	name string
	e    *Eff
	b    *raml.BaseShape
	frag *Frag
}

func (l *Loaded) all(pr *Project, ref *Ref) []declShape {
	var out []declShape
	for _, f := range pr.fragsReached() {
		if f.Kind != FLibrary {
			var b *raml.BaseShape
			if d := l.dt(f.Path); d != nil {
				b = d.Shape
			}
			out = append(out, declShape{f.Path, ref.node(f.DT, f), b, f})
			continue
		}
		for _, d := range append(append([]*Decl{}, f.Anns...), f.Types...) {
			out = append(out, declShape{f.Path + "#" + d.Name, ref.decl(d), l.decl(d), f})
		}
	}
	return out
}

// unwrappedFault walks everything reachable and returns what is left unresolved.
func unwrappedFault(at string, b *raml.BaseShape, seen map[*raml.BaseShape]bool) string {
	bad := ""
	visitModel(b, seen, func(x *raml.BaseShape) {
		if bad != "" {
			return
		}
		switch {
		case x.Shape == nil:
			bad = fmt.Sprintf("%s: shape without kind at %s:%d", at, x.Location, x.Line)
		case !x.IsUnwrapped():
			if _, rec := x.Shape.(*raml.RecursiveShape); !rec {
				bad = fmt.Sprintf("%s: shape %q (%T) at %s:%d is not unwrapped", at, x.Name, x.Shape, x.Location, x.Line)
			}
		case x.ShapeVisited:
			bad = fmt.Sprintf("%s: shape %q at %s:%d is still marked as visited", at, x.Name, x.Location, x.Line)
		}
		if _, unk := x.Shape.(*raml.UnknownShape); unk && bad == "" {
			bad = fmt.Sprintf("%s: unresolved shape %q at %s:%d", at, x.Name, x.Location, x.Line)
		}
		if bad == "" {
			bad = misfit(at, x)
		}
		if x.Link != nil && bad == "" {
			bad = fmt.Sprintf("%s: shape %q at %s:%d still has a link", at, x.Name, x.Location, x.Line)
		}
	})
	return bad
}

// misfit tells where a shape and its base disagree.
func misfit(at string, x *raml.BaseShape) string {
	want := ""
	switch x.Shape.(type) {
	case *raml.AnyShape:
		want = "any"
	case *raml.NilShape:
		want = "nil"
	case *raml.StringShape:
		want = "string"
	case *raml.IntegerShape:
		want = "integer"
	case *raml.NumberShape:
		want = "number"
	case *raml.BooleanShape:
		want = "boolean"
	case *raml.FileShape:
		want = "file"
	case *raml.DateTimeShape:
		want = "datetime"
	case *raml.DateTimeOnlyShape:
		want = "datetime-only"
	case *raml.DateOnlyShape:
		want = "date-only"
	case *raml.TimeOnlyShape:
		want = "time-only"
	case *raml.ArrayShape:
		want = "array"
	case *raml.ObjectShape:
		want = "object"
	case *raml.UnionShape:
		want = "union"
	case *raml.JSONShape:
		want = "json"
	case *raml.RecursiveShape:
		want = "recursive"
	}
	if want != "" && x.Type != want {
		return fmt.Sprintf("%s: shape %q at %s:%d has type %q and is a %T", at, x.Name, x.Location, x.Line, x.Type, x.Shape)
	}
	if x.Shape.Base() != x {
		return fmt.Sprintf("%s: the %T of shape %q at %s:%d belongs to another one", at, x.Shape, x.Name, x.Location, x.Line)
	}
	if s, ok := x.Shape.(*raml.RecursiveShape); ok {
		h := s.Head
		if h == nil {
			return fmt.Sprintf("%s: recursion %q at %s:%d leads nowhere", at, x.Name, x.Location, x.Line)
		}
		if x.Name != h.Name || x.Location != h.Location || x.Position != h.Position || strp(x.Description) != strp(h.Description) ||
			x.CustomDomainProperties.Len() != h.CustomDomainProperties.Len() || x.CustomShapeFacets.Len() != h.CustomShapeFacets.Len() {
			return fmt.Sprintf("%s: recursion %q at %s:%d does not describe %q at %s:%d", at, x.Name, x.Location, x.Line, h.Name, h.Location, h.Line)
		}
	}
	return ""
}

// unmarked finds a way from a shape back to itself through children only, without a recursion mark on it: whoever walks
// the model does not end there. done has the shapes from which there is none.
func unmarked(at string, b *raml.BaseShape, done map[*raml.BaseShape]bool) string {
	on := map[*raml.BaseShape]bool{}
	var rec func(at string, x *raml.BaseShape) string
	rec = func(at string, x *raml.BaseShape) string {
		if x == nil || done[x] {
			return ""
		}
		if on[x] {
			return fmt.Sprintf("%s: shape %q at %s:%d contains itself and no mark of recursion is on the way", at, x.Name, x.Location, x.Line)
		}
		if _, ok := x.Shape.(*raml.RecursiveShape); !ok {
			on[x] = true
			_, ks := local(x, viewOpts{})
			for _, k := range ks {
				if bad := rec(at+"/"+k.key, k.b); bad != "" {
					return bad
				}
			}
			delete(on, x)
		}
		done[x] = true
		return ""
	}
	return rec(at, b)
}

// visitModel visits the children of a shape transitively (not parents and aliases).
func visitModel(b *raml.BaseShape, seen map[*raml.BaseShape]bool, f func(*raml.BaseShape)) {
	if b == nil || seen[b] {
		return
	}
	seen[b] = true
	f(b)
	_, ks := local(b, viewOpts{})
	for _, k := range ks {
		visitModel(k.b, seen, f)
	}
}

type mode struct {
	name string
	run  func(root, entry string) (*Loaded, error)
	full bool // leaves an unwrapped model
}

func stepwise(steps string) func(root, entry string) (*Loaded, error) {
	return func(root, entry string) (*Loaded, error) {
		r := raml.New(context.Background())
		l := &Loaded{root, entry, r}
		if err := r.ParseFromPath(filepath.Join(root, entry)); err != nil {
			return l, err
		}
		for _, s := range steps {
			var err error
			switch s {
			case 'u':
				err = r.UnwrapShapes()
			case 'v':
				err = r.ValidateShapes()
			}
			if err != nil {
				return l, err
			}
		}
		return l, nil
	}
}

var modes = []mode{
	{"path unwrap+validate", func(r, e string) (*Loaded, error) { return loadPath(r, e, true, true) }, true},
	{"string unwrap+validate", func(r, e string) (*Loaded, error) { return loadString(r, e, true, true) }, true},
	{"path validate", func(r, e string) (*Loaded, error) { return loadPath(r, e, false, true) }, false},
	{"string validate", func(r, e string) (*Loaded, error) { return loadString(r, e, false, true) }, false},
	{"parse; unwrap; validate", stepwise("uv"), true},
	{"parse; validate; unwrap", stepwise("vu"), true},
	{"parse; validate; validate; unwrap; validate", stepwise("vvuv"), true},
	{"parse; unwrap; unwrap; validate", stepwise("uuv"), true},
	{"parse; unwrap some types; unwrap; validate", func(r, e string) (*Loaded, error) {
		l, err := loadPath(r, e, false, false)
		if err == nil {
			for i, b := range l.R.GetShapes() {
				if i%3 == 0 && b.Alias == nil { // some of them are declared types, some are parts of them
					if _, err = l.R.UnwrapShape(b); err != nil {
						return l, err
					}
				}
			}
			if err = l.R.UnwrapShapes(); err == nil {
				err = l.R.ValidateShapes()
			}
		}
		return l, err
	}, true},
	{"unwrap option; validate", func(r, e string) (*Loaded, error) {
		l, err := loadPath(r, e, true, false)
		if err == nil {
			err = l.R.ValidateShapes()
		}
		return l, err
	}, true},
	{"path with a context, options in the other order", func(r, e string) (*Loaded, error) {
		rt, err := raml.ParseFromPathCtx(context.WithValue(context.Background(), ctxMark{}, 1), filepath.Join(r, e), raml.OptWithValidate(), raml.OptWithUnwrap())
		return &Loaded{r, e, rt}, err
	}, true},
	{"string with a context, options in the other order", func(r, e string) (*Loaded, error) {
		t, err := os.ReadFile(filepath.Join(r, e))
		if err != nil {
			return nil, err
		}
		rt, err := raml.ParseFromStringCtx(context.WithValue(context.Background(), ctxMark{}, 1), string(t), filepath.Base(e), filepath.Dir(filepath.Join(r, e)),
			raml.OptWithValidate(), raml.OptWithUnwrap())
		return &Loaded{r, e, rt}, err
	}, true},
}

type ctxMark struct{}

// breakProject makes one random semantic change that often invalidates the project; the reference verdict follows it.
func breakProject(r *Rand, pr *Project, ref *Ref) string {
	var nodes []*TNode
	pr.walk(func(f *Frag, t *TNode) {
		if !t.Inline && !t.Null && f.Kind != FJSON {
			nodes = append(nodes, t)
		}
	})
	if len(nodes) == 0 {
		return ""
	}
	t := nodes[r.N(len(nodes))]
	switch r.N(4) {
	case 0: // an example
		v := randValue(r, 1)
		if s, ok := v.(string); ok && len(s) > 0 && s[0] == '{' || hasLenientDate(v) {
			return ""
		}
		t.Example = &Ex{V: v}
		t.Examples = nil
		return "example"
	case 1:
		for _, cf := range t.Custom {
			if cf.Name == "undeclaredFacet" {
				return ""
			}
		}
		t.Custom = append(t.Custom, &CF{Name: "undeclaredFacet", V: 1.0})
		return "custom facet"
	}
	for i := 0; i < 5; i++ {
		if w, _ := editFacet(r, ref, t); w != "" {
			return w
		}
	}
	return ""
}

// byFile compares the types listed by file with those of the fragment.
func byFile(r *raml.RAML, at string) string {
	ps := r.GetFragmentTypePtrs(at)
	switch f := r.GetFragment(at).(type) {
	case *raml.Library:
		if len(ps) != f.Types.Len() {
			return fmt.Sprintf("%d types by file, %d types of the library", len(ps), f.Types.Len())
		}
		for p := f.Types.Oldest(); p != nil; p = p.Next() {
			if ps[p.Key] != p.Value {
				return "another type by file: " + p.Key
			}
		}
		for p := f.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
			if b, err := r.GetAnnotationTypeFromFragmentPtr(at, p.Key); err != nil || b != p.Value {
				return "another annotation type by file: " + p.Key
			}
		}
	case *raml.DataType:
		if len(ps) != 1 || ps[f.Shape.Name] != f.Shape {
			return "the type by file is not that of the fragment"
		}
	}
	return ""
}

// dataTypeEntry makes one of the DataType fragments the entry point; with all, one from which everything is still reached.
func dataTypeEntry(r *Rand, pr *Project, all bool) *Frag {
	var is []int
	for i, f := range pr.Frags {
		if f.Kind == FDataType {
			is = append(is, i)
		}
	}
	if len(is) == 0 {
		return nil
	}
	i := is[r.N(len(is))]
	f, n := pr.Frags[i], len(pr.fragsReached())
	pr.Frags[0], pr.Frags[i] = pr.Frags[i], pr.Frags[0]
	if all && len(pr.fragsReached()) < n {
		pr.Frags[0], pr.Frags[i] = pr.Frags[i], pr.Frags[0]
		return nil
	}
	return f
}

func init() {
	register(&Check{ID: "C19", Rule: "case = random project (60% valid, otherwise with one random semantic edit; sometimes a DataType fragment is the entry point), processed in 12 modes (path/string, context, options, step by step in different orders, repeated). Monitors: equal accept/reject verdicts in all modes; after unwrapping every shape reachable from every fragment, from GetShapes and the fragment type maps is unwrapped, resolved, not left as visited, and no shape contains itself without a mark of recursion; a second UnwrapShapes leaves an identical dump; all unwrapped modes give bisimilar models and equal value verdicts. Distinct: (mode, verdict, kinds of the declared types)",
		Quick: 9000, Thorough: 120000,
		Require: map[string]int{"accepted": 5000, "rejected": 1500, "shapes_walked": 100000, "models_compared": 10000, "values": 10000, "marks": 2000, "datatype_entries": 200},
		Run: func(c *Case) {
			o := fullOpts()
			o.Types = 8
			o.Recursion = c.R.P(30)
			o.Derive = c.R.N(50)
			pr, ref := genProject(c.R.Fork("gen"), o)
			if len(ref.Verdict()) > 0 {
				c.Count("generator_rejects", 1)
				return
			}
			var dt *Frag
			if r := c.R.Fork("entry"); r.P(20) {
				dt = dataTypeEntry(r, pr, false)
			}
			what := ""
			if c.R.P(40) {
				if r := c.R.Fork("break"); dt != nil && !dt.DT.Inline && !dt.DT.Null && r.P(70) {
					what, _ = editFacet(r, ref, dt.DT)
				}
				if what == "" {
					what = breakProject(c.R, pr, ref)
				}
				ref = NewRef(pr)
			}
			files := pr.Render(randStyle(c.R))
			c.Source(files)
			if dt != nil {
				c.Count("datatype_entries", 1)
			}
			entry := pr.Frags[0].Path
			root := c.newRoot()
			writeFiles(root, files)
			fail := func(f string, a ...any) {
				c.Violate("%s (edit %q)\n%s", fmt.Sprintf(f, a...), what, clip(allFiles(files), 3000))
			}
			var first error
			var base *Loaded
			var kinds string
			for i, m := range modes {
				l, err := m.run(root, entry)
				c.Eval(1)
				if err == nil {
					c.Count("accepted", 1)
				} else {
					c.Count("rejected", 1)
				}
				if i == 0 {
					first, base = err, l
					for _, d := range pr.decls() {
						kinds += ref.decl(d).get().Kind + ","
					}
				}
				c.Key(m.name, fmt.Sprint(err == nil), what, kinds)
				if (err == nil) != (first == nil) {
					fail("mode %q accepted=%v, mode %q accepted=%v: %v / %v", modes[0].name, first == nil, m.name, err == nil, first, err)
					return
				}
				if err != nil || !m.full {
					continue
				}
				seen, cut := map[*raml.BaseShape]bool{}, map[*raml.BaseShape]bool{}
				ds := l.all(pr, ref)
				for _, d := range ds {
					if d.b == nil {
						fail("mode %q: %s is missing", m.name, d.name)
						return
					}
					if bad := unwrappedFault(d.name, d.b, seen); bad != "" {
						fail("mode %q: %s", m.name, bad)
						return
					}
				}
				for _, f := range pr.fragsReached() {
					for n, b := range l.R.GetFragmentTypePtrs(filepath.Join(root, f.Path)) {
						if bad := unwrappedFault("type map entry "+n, b, seen); bad != "" {
							fail("mode %q: %s", m.name, bad)
							return
						}
					}
					if bad := byFile(l.R, filepath.Join(root, f.Path)); bad != "" {
						fail("mode %q: %s: %s", m.name, f.Path, bad)
						return
					}
				}
				listed := map[*raml.BaseShape]bool{}
				for _, b := range l.R.GetShapes() {
					if bad := unwrappedFault("GetShapes", b, seen); bad != "" {
						fail("mode %q: %s", m.name, bad)
						return
					}
					if bad := unmarked("GetShapes "+b.Name, b, cut); bad != "" {
						fail("mode %q: %s", m.name, bad)
						return
					}
					if listed[b] {
						fail("mode %q: GetShapes lists %q at %s:%d twice", m.name, b.Name, b.Location, b.Line)
						return
					}
					listed[b] = true
				}
				for _, d := range ds {
					if !listed[d.b] {
						fail("mode %q: GetShapes does not list %s", m.name, d.name)
						return
					}
				}
				for x := range cut {
					if _, ok := x.Shape.(*raml.RecursiveShape); ok {
						c.Count("marks", 1)
					}
				}
				c.Count("shapes_walked", len(seen))
				if i == 0 || m.name == "parse; validate; unwrap" {
					before := make([]string, len(ds))
					for j, d := range ds {
						before[j] = dump(d.b, viewOpts{pos: true})
					}
					if err := l.R.UnwrapShapes(); err != nil {
						fail("mode %q: unwrapping again fails: %v", m.name, err)
						return
					}
					for j, d := range l.all(pr, ref) {
						if after := dump(d.b, viewOpts{pos: true}); after != before[j] {
							fail("mode %q: unwrapping again changes %s:\n%s\n%s", m.name, d.name, before[j], after)
							return
						}
					}
				}
				if i > 0 {
					bs := base.all(pr, ref)
					for j, d := range ds {
						if x := same(d.name, bs[j].b, d.b, false); x != "" {
							fail("modes %q and %q give different types: %s", modes[0].name, m.name, x)
							return
						}
						c.Count("models_compared", 1)
					}
					if i == 1 || i == 5 {
						for j, d := range ds {
							for _, v := range genValues(c.R, d.e, 3) {
								c.Count("values", 1)
								if (bs[j].b.Validate(v) == nil) != (d.b.Validate(v) == nil) {
									fail("modes %q and %q disagree on value %s of %s", modes[0].name, m.name, jsonText(v), d.name)
									return
								}
							}
						}
					}
				}
			}
			if first == nil && c.Idx < 3 {
				c.Sample(clip(allFiles(files), 1200))
			}
		}})
}
