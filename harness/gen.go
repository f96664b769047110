package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"path"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// ---------------------------------------------------------------- project generator

type GenOpts struct {
	MaxLibs, MaxDT int
	Types          int // declarations to add
	Depth          int
	Recursion      bool // add self-references through optional properties, items
	Examples       bool
	Rich           bool // JSON data types, NamedExample fragments, annotated examples
	Annotations    bool
	CustomFacets   bool
	Multi          bool
	Docs           bool
	NoUnionDerive  bool
	NoFile         bool
	JSONSafe       bool // only what JSON Schema can express
	WeirdNames     bool
	JSONTypes      bool
	NoOverride     bool
	Overlap        bool // several patterns for the same names
	Derive         int  // percent of declarations that derive from an earlier one in any case
}

func fullOpts() GenOpts {
	return GenOpts{MaxLibs: 3, MaxDT: 2, Types: 9, Depth: 3, Examples: true, Annotations: true, CustomFacets: true, Multi: true,
		Docs: true, WeirdNames: true, JSONTypes: true, Rich: true}
}

type Gen struct {
	R     *Rand
	O     GenOpts
	Pr    *Project
	n     int
	ref   *Ref
	avail []*Decl // usable as references, already valid
	dts   []*Frag
	libs  []*Frag
	wide  map[string]bool // what there is much of
}

var wideKinds = []string{"props", "enum", "union", "length", "types", "names", "texts", "libs", "chain", "examples", "annotations", "parents"}

func genProject(r *Rand, o GenOpts) (*Project, *Ref) {
	g := &Gen{R: r, O: o, Pr: &Project{}, wide: map[string]bool{}}
	if w := r.Fork("wide"); w.P(6) {
		for n := w.Range(1, 2); n > 0; n-- {
			g.wide[wideKinds[w.N(len(wideKinds))]] = true
		}
	}
	nl := 1
	if o.MaxLibs > 1 {
		nl = r.Range(1, o.MaxLibs)
		if g.wide["libs"] {
			nl = r.Range(9, 24)
		}
	}
	for i := 0; i < nl; i++ {
		f := &Frag{Kind: FLibrary, Path: libPath(r, i)}
		if i > 1 && r.P(10) { // differs from another one in case only
			p := g.libs[i-1].Path
			q := path.Join(path.Dir(p), strings.ToUpper(path.Base(p[:len(p)-5]))+".raml")
			if q != p {
				f.Path = q
			}
		}
		g.libs = append(g.libs, f)
		g.Pr.Frags = append(g.Pr.Frags, f)
	}
	g.ref = NewRef(g.Pr)
	if o.Annotations {
		na := r.Range(1, 3)
		if g.wide["annotations"] {
			na = r.Range(10, 30)
		}
		for i := 0; i < na; i++ {
			f := g.libs[r.N(nl)]
			t := g.validNode(f, func() *TNode { return g.scalarNode(r.Pick("string", "integer", "boolean", "number")) })
			f.ann(g.name("Ann"), t)
		}
	}
	nt := r.Range(o.Types/2+1, o.Types)
	if o.Multi && nt > 3 && r.P(25) {
		nt -= g.family()
	}
	if g.wide["types"] {
		nt *= r.Range(3, 6)
	}
	if g.wide["chain"] {
		g.chain(r.Range(10, 24))
	}
	for i := 0; i < nt; i++ {
		if o.MaxDT > 0 && len(g.dts) < o.MaxDT && r.P(15) {
			if o.Rich && o.JSONTypes && r.P(20) {
				f := &Frag{Kind: FJSON, Path: fmt.Sprintf("%sschema%d.json", r.Pick("", "dts/", "sub/deep/"), i), DT: &TNode{Ref: &TRef{K: RJSON, Name: g.jsonSchemaText()}}}
				g.Pr.Frags = append(g.Pr.Frags, f)
				g.ref = NewRef(g.Pr)
				g.dts = append(g.dts, f)
				continue
			}
			f := &Frag{Kind: FDataType, Path: fmt.Sprintf("%sdt%d.raml", r.Pick("", "dts/", "sub/deep/"), i)}
			g.Pr.Frags = append(g.Pr.Frags, f)
			t := g.validNode(f, func() *TNode {
				t := g.genNode(f, o.Depth)
				if t.Inline || t.Null { // DataType fragments are mappings
					t = &TNode{Ref: t.Ref}
				}
				return t
			})
			f.DT = t
			g.ref = NewRef(g.Pr)
			g.dts = append(g.dts, f)
			continue
		}
		f := g.libs[r.N(nl)]
		d := f.add(g.name("T"), nil)
		rec := o.Recursion && r.P(40)
		d.T = g.validNode(f, func() *TNode {
			t := g.genNode(f, o.Depth)
			if rec {
				d.T = t
				g.addRecursion(t, d)
			}
			return t
		})
		g.avail = append(g.avail, d)
	}
	if o.Annotations && o.Rich && r.P(30) {
		// annotation types that use and derive from the types
		f := g.libs[r.N(nl)]
		t := g.validNode(f, func() *TNode { return g.genNode(f, o.Depth) })
		f.ann(g.name("Ann"), t)
	}
	g.finish()
	g.ref = NewRef(g.Pr)
	return g.Pr, g.ref
}

// family adds a type, types derived from it, and one derived from several of these.
func (g *Gen) family() int {
	r := g.R
	add := func(mk func(f *Frag) *TNode) *Decl {
		f := g.libs[r.N(len(g.libs))]
		d := f.add(g.name("T"), nil)
		d.T = g.validNode(f, func() *TNode { return mk(f) })
		g.avail = append(g.avail, d)
		return d
	}
	base := add(func(f *Frag) *TNode {
		t := g.objectNode(f, g.O.Depth)
		if r.P(30) {
			switch k := r.Pick("string", "integer", "number", "file", "datetime", "array"); {
			case k == "array":
				t = &TNode{Ref: b("array"), Items: g.genNode(f, 1)}
				g.arrayFacets(t, nil)
			case k == "file" && g.O.NoFile:
			default:
				t = g.scalarNode(k)
			}
		}
		for n := r.N(4); g.O.CustomFacets && n > 0; n-- {
			t.FacetDefs = append(t.FacetDefs, &Prop{Name: g.name("fct"), T: g.scalarNode(r.Pick("string", "integer", "boolean"))})
		}
		return t
	})
	kind := g.ref.decl(base).get().Kind
	sub := []*Decl{}
	for n := r.Range(2, 3); n > 0; n-- {
		sub = append(sub, add(func(f *Frag) *TNode {
			g.touch(f, base)
			t := g.narrowNode(f, g.ref.decl(base), g.O.Depth)
			t.Ref = rn(base)
			return g.docs(t)
		}))
	}
	for n := r.Range(1, 2); n > 0; n-- {
		add(func(f *Frag) *TNode {
			m := &TRef{K: RMulti}
			for _, i := range r.Perm(len(sub)) {
				if g.ref.decl(sub[i]).get().Kind == kind {
					g.touch(f, sub[i])
					m.Sub = append(m.Sub, rn(sub[i]))
				}
			}
			if len(m.Sub) < 2 {
				return bi("string")
			}
			if r.P(40) {
				return inl(m)
			}
			return g.docs(&TNode{Ref: m})
		})
	}
	return 3
}

// chain adds a long line of types, each derived from the previous one.
func (g *Gen) chain(n int) {
	r := g.R
	var last *Decl
	for i := 0; i < n; i++ {
		f := g.libs[r.N(len(g.libs))]
		d := f.add(g.name("T"), nil)
		d.T = g.validNode(f, func() *TNode {
			if last == nil {
				return g.objectNode(f, 2)
			}
			g.touch(f, last)
			t := &TNode{}
			if r.P(60) {
				t = g.narrowNode(f, g.ref.decl(last), 1)
			}
			t.Ref = rn(last)
			return g.docs(t)
		})
		g.avail = append(g.avail, d)
		last = d
	}
}

func libPath(r *Rand, i int) string {
	if i == 0 {
		return r.Pick("api.raml", "main.raml", "root/main.raml")
	}
	return fmt.Sprintf("%s%s%d.raml", r.Pick("", "libs/", "libs/", "x/y/"), r.Pick("lib", "lib", "lib", "lib", "Lib", "lib%20", "l#", "l b", "ü", "l.raml.", "l+"), i)
}

func (g *Gen) name(p string) string {
	g.n++
	if g.wide["names"] && g.R.P(15) {
		return fmt.Sprintf("%s%d%s", p, g.n, rep("abcxyzABC", g.R, g.R.Near(40, 130, 300)))
	}
	return fmt.Sprintf("%s%d", p, g.n)
}

// validNode generates until the reference finds no fault in the declaration.
func (g *Gen) validNode(f *Frag, mk func() *TNode) *TNode {
	for i := 0; i < 40; i++ {
		t := mk()
		if g.okNode(f, t) {
			return t
		}
	}
	return bi("string")
}

func (g *Gen) okNode(f *Frag, t *TNode) bool {
	tmp := &Project{Frags: []*Frag{{Kind: FDataType, Path: "tmp", DT: t}}}
	tmp.Normalize()
	ref := g.ref
	e := ref.node(t, f)
	ok := true
	seen := map[*Eff]bool{}
	e.walk(seen, func(x *Eff) {
		if len(x.Errs) > 0 || len(ref.check(x)) > 0 || len(ref.exampleErrs(x)) > 0 {
			ok = false
		}
	})
	if !ok || len(seen) > walkLimit {
		ok = false
		delete(ref.memo, t)
	}
	return ok
}

func (g *Gen) finish() {
	r := g.R
	entry := g.Pr.Frags[0]
	for _, f := range g.libs[1:] {
		g.use(entry, f)
	}
	inc := map[*Frag]bool{}
	g.Pr.walk(func(_ *Frag, t *TNode) {
		if t.Ref != nil && t.Ref.K == RInclude {
			inc[t.Ref.Frag] = true
		}
	})
	for _, f := range g.dts {
		if !inc[f] {
			d := g.libs[r.N(len(g.libs))].add(g.name("Inc"), inl(&TRef{K: RInclude, Frag: f}))
			g.avail = append(g.avail, d)
		}
	}
	// libraries may use each other in cycles
	if len(g.libs) > 1 && r.P(30) {
		a, c := g.libs[r.N(len(g.libs))], g.libs[r.N(len(g.libs))]
		if a != c {
			g.use(a, c)
			g.use(c, a)
		}
	}
	if g.O.Examples {
		g.examples()
	}
	if g.O.Annotations {
		g.annotate()
	}
	for _, f := range g.libs {
		if r.P(60) {
			p := r.Perm(len(f.Types))
			ts := make([]*Decl, len(p))
			for i, j := range p {
				ts[i] = f.Types[j]
			}
			f.Types = ts
		}
		if g.O.Docs && r.P(30) {
			f.Usage = "usage of " + f.Path
		}
	}
}

// plainValue tells that every way of writing the value down means the same.
func plainValue(v any) bool {
	switch x := v.(type) {
	case string:
		return !strings.HasPrefix(x, "{")
	case []any:
		for _, y := range x {
			if !plainValue(y) {
				return false
			}
		}
	case map[string]any:
		for _, y := range x {
			if !plainValue(y) {
				return false
			}
		}
	}
	return true
}

func depthOf(v any) int {
	n := 0
	switch x := v.(type) {
	case []any:
		for _, y := range x {
			n = max(n, depthOf(y)+1)
		}
	case map[string]any:
		for _, y := range x {
			n = max(n, depthOf(y)+1)
		}
	}
	return n
}

// exForm chooses how the value is written.
func exForm(r *Rand, x *Ex, deflt bool) {
	m, isMap := x.V.(map[string]any)
	_, wrapped := m["value"]
	forms := []int{0, 0, 4, 5}
	if isMap {
		forms = append(forms, 1, 2)
	}
	if _, l := x.V.([]any); l {
		forms = append(forms, 1)
	}
	if !deflt {
		if l, _ := x.V.([]any); len(m)+len(l) > 0 && r.P(50) {
			forms = append(forms, 7)
		}
		forms = append(forms, 3, 3)
	}
	x.Form = forms[r.N(len(forms))]
	if wrapped && !deflt && (x.Form == 0 || x.Form == 1 || x.Form == 7) {
		x.Form = 3
	}
	if x.Form == 3 {
		if r.P(40) {
			x.DispNm = pt("shown as")
		}
		if r.P(40) {
			x.Descr = pt("what it is")
		}
		if r.P(20) {
			x.Strict = pt(true)
		}
	}
}

func (g *Gen) newEx(e *Eff, name string, deflt bool) *Ex {
	v, ok := genValid(g.R, e, 0)
	if !ok || !plainValue(v) || len(jsonText(v)) > 2000 || depthOf(v) > 3 && branchy(e) {
		return nil
	}
	x := &Ex{Name: name, V: v}
	exForm(g.R, x, deflt)
	return x
}

// examples gives some of the declarations examples and defaults.
func (g *Gen) examples() {
	ref := NewRef(g.Pr)
	r := g.R
	g.Pr.walk(func(f *Frag, t *TNode) {
		if f.Kind == FJSON || t.Inline || t.Null || !r.P(15) {
			return
		}
		e := ref.node(t, f).get()
		switch r.N(4) {
		case 0:
			t.Default = g.newEx(e, "", true)
			return
		case 1, 2:
			t.Example = g.newEx(e, "", false)
			return
		}
		n := r.Range(1, 3)
		if g.wide["examples"] && r.P(30) {
			n = r.Range(9, 25)
		}
		for i := 0; i < n; i++ {
			if x := g.newEx(e, g.name("ex"), false); x != nil {
				t.Examples = append(t.Examples, x)
			}
		}
		t.NamedEx = g.O.Rich && len(t.Examples) > 0 && r.P(35)
	})
}

func (g *Gen) annotate() {
	var anns []*Decl
	for _, f := range g.libs {
		anns = append(anns, f.Anns...)
	}
	if len(anns) == 0 {
		return
	}
	ref, r := NewRef(g.Pr), g.R
	mk := func(f *Frag) *AnnApply {
		d := anns[g.R.N(len(anns))]
		if d.Frag != f || f.Kind == FDataType {
			g.use(f, d.Frag)
		}
		e := ref.decl(d)
		v, ok := genValid(g.R, e, 0)
		if !ok || !plainValue(v) || len(jsonText(v)) > 2000 || depthOf(v) > 3 && branchy(e) {
			return nil
		}
		return &AnnApply{Decl: d, V: v}
	}
	for _, f := range g.libs {
		if g.R.P(25) {
			if a := mk(f); a != nil {
				f.Apply = append(f.Apply, a)
			}
		}
	}
	g.Pr.walk(func(f *Frag, t *TNode) {
		for _, x := range append([]*Ex{t.Example}, t.Examples...) {
			if g.O.Rich && x != nil && x.Form == 3 && !t.NamedEx && g.R.P(25) {
				if a := mk(f); a != nil {
					x.Annots = append(x.Annots, a)
				}
			}
		}
		if f.Kind != FJSON && !t.Inline && !t.Null && t.Ref != nil && g.R.P(12) {
			n := 1
			if g.wide["annotations"] && r.P(30) {
				n = r.Range(9, 25)
			}
			for ; n > 0; n-- {
				if a := mk(f); a != nil && !hasAnn(t.Annots, a.Decl) {
					t.Annots = append(t.Annots, a)
				}
			}
		}
	})
}

func hasAnn(as []*AnnApply, d *Decl) bool {
	for _, a := range as {
		if a.Decl == d {
			return true
		}
	}
	return false
}

// use makes sure that f can name library `to`.
func (g *Gen) use(f, to *Frag) {
	if _, ok := f.aliasOf(to); ok {
		return
	}
	for i := 0; ; i++ {
		a := g.R.Pick("l", "lib", "common", "a.b", "x-y") + strconv.Itoa(len(f.Uses)%3+i)
		dup := false
		for _, u := range f.Uses {
			dup = dup || u.Alias == a
		}
		if !dup {
			f.Uses = append(f.Uses, &Use{Alias: a, To: to})
			return
		}
	}
}

func (g *Gen) pickDecl(f *Frag, pred func(*Eff) bool) *Decl {
	for i := 0; i < 8 && len(g.avail) > 0; i++ {
		d := g.avail[g.R.N(len(g.avail))]
		if pred != nil && !pred(g.ref.decl(d).get()) {
			continue
		}
		g.touch(f, d)
		return d
	}
	return nil
}

func (g *Gen) touch(f *Frag, d *Decl) {
	if d.Frag != f || f.Kind == FDataType {
		g.use(f, d.Frag)
	}
}

var scalarKinds = []string{"string", "integer", "number", "boolean", "datetime", "datetime-only", "date-only", "time-only", "file", "nil", "any"}

func (g *Gen) builtinName() string {
	for {
		k := scalarKinds[g.R.N(len(scalarKinds))]
		if g.R.P(40) {
			k = g.R.Pick("string", "integer", "number", "boolean")
		}
		if g.O.NoFile && k == "file" {
			continue
		}
		return k
	}
}

func (g *Gen) genNode(f *Frag, depth int) *TNode {
	r := g.R
	x := r.N(100)
	if depth == g.O.Depth && r.P(g.O.Derive) {
		x = 70 + r.N(30)
	}
	switch {
	case depth <= 0 || x < 8:
		if r.P(25) {
			if d := g.pickDecl(f, nil); d != nil {
				return inl(rn(d))
			}
		}
		if r.P(4) {
			return &TNode{Null: true}
		}
		return inl(b(g.builtinName()))
	case x < 24:
		return g.docs(g.scalarNode(g.builtinName()))
	case x < 46:
		return g.docs(g.objectNode(f, depth))
	case x < 56:
		t := &TNode{Ref: b("array")}
		if r.P(20) {
			t.Ref = nil
		}
		if r.P(90) || t.Ref == nil {
			t.Items = g.genNode(f, depth-1)
		}
		g.arrayFacets(t, nil)
		return g.docs(t)
	case x < 66:
		t := &TNode{Ref: g.genExpr(f, 2), Inline: true}
		if r.P(30) && t.Ref.K != RNamed && t.Ref.K != RBuiltin && t.Ref.K != RGroup {
			t.Inline = false
			if t.Ref.K == RArray {
				g.arrayFacets(t, nil)
			}
			return g.docs(t)
		}
		return t
	case x < 70:
		if d := g.pickDecl(f, nil); d != nil {
			return inl(rn(d))
		}
	case x < 73:
		if len(g.dts) > 0 {
			dt := g.dts[r.N(len(g.dts))]
			if dt != f {
				if r.P(50) {
					return inl(&TRef{K: RInclude, Frag: dt})
				}
				t := g.narrowNode(f, g.ref.node(dt.DT, dt), depth)
				t.Ref = &TRef{K: RInclude, Frag: dt}
				return g.docs(t)
			}
		}
	case x < 80:
		if g.O.Multi {
			if t := g.multiNode(f, depth); t != nil {
				return t
			}
		}
	case x < 82:
		if g.O.JSONTypes {
			return inl(&TRef{K: RJSON, Name: g.jsonSchemaText()})
		}
	default:
		if d := g.pickDecl(f, func(e *Eff) bool { return e.Kind != "union" || !g.O.NoUnionDerive }); d != nil {
			t := g.narrowNode(f, g.ref.decl(d), depth)
			t.Ref = rn(d)
			return g.docs(t)
		}
	}
	return g.docs(g.objectNode(f, depth))
}

func (g *Gen) jsonSchemaText() string {
	return g.R.Pick(
		`{"type": "object", "properties": {"a": {"type": "string", "minLength": 1}}, "required": ["a"]}`,
		`{"type": "array", "items": {"type": "integer"}}`,
		`{"type": "string", "enum": ["x", "y"]}`)
}

func (g *Gen) multiNode(f *Frag, depth int) *TNode {
	isObj := func(e *Eff) bool { return e.Kind == "object" }
	a := g.pickDecl(f, isObj)
	if g.R.P(25) {
		// other kinds: the parents must agree about the kind
		if a = g.pickDecl(f, func(e *Eff) bool { return e.Kind != "union" && e.Kind != "json" }); a != nil {
			kind := g.ref.decl(a).get().Kind
			isObj = func(e *Eff) bool { return e.Kind == kind }
		}
	}
	c := g.pickDecl(f, isObj)
	if a == nil || c == nil || a == c {
		return nil
	}
	subs := []*TRef{rn(a), rn(c)}
	if g.R.P(20) {
		// parents that declare pattern properties after one that does not
		pats := func(n bool) *Decl {
			return g.pickDecl(f, func(e *Eff) bool { return e.Kind == "object" && (len(e.PProps) > 0) == n })
		}
		if x, y, z := pats(false), pats(true), pats(true); x != nil && y != nil && z != nil && y != z {
			subs = []*TRef{rn(x), rn(y), rn(z)}
			a = x
		}
	} else if g.R.P(30) {
		if d := g.pickDecl(f, isObj); d != nil && d != a && d != c {
			subs = append(subs, rn(d))
		}
	}
	for i := 0; i < 12 && g.wide["parents"]; i++ {
		if d := g.pickDecl(f, isObj); d != nil {
			dup := false
			for _, s := range subs {
				dup = dup || s.Decl == d
			}
			if !dup {
				subs = append(subs, rn(d))
			}
		}
	}
	m := &TRef{K: RMulti, Sub: subs}
	if g.R.P(40) {
		return inl(m)
	}
	t := &TNode{Ref: m}
	if g.R.P(60) && g.ref.decl(a).get().Kind == "object" {
		t.HasProps = true
		t.Props = append(t.Props, prop(g.name("own"), g.genNode(f, depth-1)))
	}
	return g.docs(t)
}

func (g *Gen) genExpr(f *Frag, depth int) *TRef {
	r := g.R
	if depth <= 0 || r.P(25) {
		if r.P(50) {
			if d := g.pickDecl(f, nil); d != nil {
				return rn(d)
			}
		}
		return b(g.builtinName())
	}
	switch r.N(4) {
	case 0:
		return arr(g.genExpr(f, depth-1))
	case 1:
		return optT(g.genExpr(f, depth-1))
	case 2:
		return &TRef{K: RGroup, Sub: []*TRef{g.genExpr(f, depth-1)}}
	}
	n := r.Range(2, 3)
	u := &TRef{K: RUnion}
	if g.wide["union"] && r.P(30) {
		n = r.Range(8, 30)
		depth = 1
	}
	for i := 0; i < n; i++ {
		if n > 3 {
			if d := g.pickDecl(f, func(e *Eff) bool { return len(e.children()) == 0 && e.Kind != "union" && e.Kind != "json" }); d != nil && r.P(60) {
				u.Sub = append(u.Sub, rn(d))
			} else {
				u.Sub = append(u.Sub, b(g.builtinName()))
			}
			continue
		}
		u.Sub = append(u.Sub, g.genExpr(f, depth-1))
	}
	return u
}

func (g *Gen) docs(t *TNode) *TNode {
	r := g.R
	if t.Inline || t.Null {
		return t
	}
	if g.O.Docs {
		if r.P(20) {
			t.DisplayName = pt(r.Pick("", "", "", "", " ") + g.name("Display ") + r.Pick("", "", "", "", " ", "\n"))
		}
		if g.wide["texts"] && r.P(20) {
			t.Description = pt(strings.Repeat(r.Pick("long text ", "line\n", "é", "x"), r.Range(100, 3000)) + ".")
		} else if r.P(3) {
			t.Description = pt("")
		} else if r.P(20) {
			t.Description = pt(r.Pick("text ", "multi\nline ", "quote \" and 'x' # ", "ünï ", " ", "\n") + g.name("d") + r.Pick("", "", "", "", "", "\n", " ", "\n\n", "\t"))
		}
	}
	if g.O.CustomFacets && r.P(8) {
		t.FacetDefs = append(t.FacetDefs, &Prop{Name: g.name("fct"), Required: r.P(25), T: g.scalarNode(r.Pick("string", "integer", "boolean"))})
	}
	return t
}

// ---- facets by kind

type patInfo struct {
	re  string
	gen func(r *Rand, n int) string
}

func rep(alpha string, r *Rand, n int) string {
	rs := []rune(alpha)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(rs[r.N(len(rs))])
	}
	return sb.String()
}

var patterns = []patInfo{
	{`^[a-z]+$`, func(r *Rand, n int) string { return rep("abcxyz", r, max(n, 1)) }},
	{`^[A-Z]{2,4}$`, func(r *Rand, n int) string { return rep("ABC", r, min(max(n, 2), 4)) }},
	{`[0-9]`, func(r *Rand, n int) string { return rep("abc", r, max(n-1, 0)) + "7" }},
	{`^x`, func(r *Rand, n int) string { return "x" + rep("abé", r, max(n-1, 0)) }},
	{`^(foo|bar)-[0-9]+$`, func(r *Rand, n int) string { return "foo-" + rep("0123", r, max(n-4, 1)) }},
	{`^.{2,}$`, func(r *Rand, n int) string { return rep("aéß", r, max(n, 2)) }},
	{`a|b`, func(r *Rand, n int) string { return rep("ab", r, max(n, 1)) }},
	{`^\w*$`, func(r *Rand, n int) string { return rep("a_1", r, n) }},
}

func patOf(re string) *patInfo {
	for i := range patterns {
		if patterns[i].re == re {
			return &patterns[i]
		}
	}
	return nil
}

func (g *Gen) scalarNode(kind string) *TNode {
	t := &TNode{Ref: b(kind)}
	g.scalarFacets(t, kind, nil)
	if kind == "string" && g.R.P(15) || (kind == "number" && t.Format == nil && g.R.P(40)) || (kind == "file" && t.FileTypes != nil) {
		t.Ref = nil
	}
	if t.Ref == nil && inferKind(t) != kind {
		t.Ref = b(kind)
	}
	return t
}

func randNum(r *Rand, integer bool) string {
	if integer {
		switch r.N(12) {
		case 0:
			return r.Pick("9223372036854775807", "-9223372036854775808", "9007199254740993", "18446744073709551615")
		case 1:
			return "0"
		}
		return strconv.Itoa(r.Range(-60, 60))
	}
	switch r.N(10) {
	case 0:
		return r.Pick("1e10", "-2.5e3", "0.1", "1e-7", "123456789.125")
	case 1, 2, 3:
		return strconv.Itoa(r.Range(-60, 60))
	}
	return jsonText(float64(r.Range(-400, 400)) / 8)
}

// scalarFacets adds kind facets; with a parent, facets that narrow it.
func (g *Gen) scalarFacets(t *TNode, kind string, p *Eff) {
	r := g.R
	if p == nil {
		p = &Eff{}
	}
	switch kind {
	case "string", "file":
		lo, hi := uint64(0), uint64(12)
		if p.MinLength != nil {
			lo = *p.MinLength
		}
		if p.MaxLength != nil {
			hi = *p.MaxLength
		}
		if g.wide["length"] && p.MinLength == nil && p.MaxLength == nil && r.P(40) {
			n := uint64(r.Near(60, 250, 600))
			t.MinLength, t.MaxLength = pt(n), pt(n+uint64(r.N(10)))
			if r.P(30) {
				t.MinLength = nil
			}
			return
		}
		if r.P(35) && hi >= lo {
			t.MinLength = pt(lo + uint64(r.N(int(min(hi-lo, 5))+1)))
			lo = *t.MinLength
		}
		if r.P(35) && hi >= lo {
			t.MaxLength = pt(hi - uint64(r.N(int(min(hi-lo, 6))+1)))
		} else if p.MaxLength == nil && r.P(4) {
			t.MaxLength = huge(r)
		}
		if kind == "file" {
			if r.P(40) {
				if p.FileTypes != nil {
					t.FileTypes = p.FileTypes[:1+r.N(len(p.FileTypes))]
				} else {
					t.FileTypes = []string{"image/png", "image/jpeg", "*/*"}[:r.Range(1, 3)]
				}
			}
			return
		}
		if r.P(25) {
			t.Pattern = pt(patterns[r.N(len(patterns))].re)
		}
		if r.P(18) {
			if p.HasEnum {
				t.Enum, t.HasEnum = subset(r, p.Enum), true
			} else {
				t.Enum, t.HasEnum = []any{"foo-1", "bar-22", "xa7", "AB", "abé", "x", "true", "5", ""}[:r.Range(2, 9)], true
				t.Enum = subset(r, t.Enum)
				if g.wide["enum"] && t.Pattern == nil {
					for i := r.Range(20, 150); i > 0; i-- {
						t.Enum = append(t.Enum, rep("abcdé", r, 3)+strconv.Itoa(i))
					}
				}
			}
		}
	case "integer", "number":
		in := kind == "integer"
		if r.P(40) {
			s := narrowNum(r, in, p.Min, p.Max, true)
			t.Minimum = &s
		}
		if r.P(40) {
			lo := p.Min
			if t.Minimum != nil {
				lo = rat(*t.Minimum)
			}
			s := narrowNum(r, in, lo, p.Max, false)
			t.Maximum = &s
		}
		if r.P(12) {
			t.MultipleOf = pt([]float64{1, 2, 0.5, 10}[r.N(4)])
		}
		if r.P(20) {
			if p.Format != nil {
				t.Format = p.Format
				if *p.Format == "int" && r.P(50) {
					t.Format = pt("int32")
				}
			} else if in {
				t.Format = pt(r.Pick("int8", "int16", "int32", "int", "int64", "long"))
			} else {
				t.Format = pt(r.Pick("float", "double"))
			}
		}
		if r.P(15) {
			if p.HasEnum {
				t.Enum, t.HasEnum = subset(r, p.Enum), true
			} else {
				var e []any
				for i := 0; i < r.Range(1, 5); i++ {
					if in || r.P(40) {
						e = append(e, float64(r.Range(-20, 20)))
					} else {
						e = append(e, float64(r.Range(-80, 80))/4)
					}
				}
				t.Enum, t.HasEnum = e, true
			}
		}
	case "boolean":
		if r.P(20) {
			if p.HasEnum {
				t.Enum, t.HasEnum = subset(r, p.Enum), true
			} else {
				t.Enum, t.HasEnum = [][]any{{true}, {false}, {true, false}}[r.N(3)], true
			}
		}
	case "datetime":
		if r.P(40) && (p.T == nil || p.Format != nil) {
			t.Format = pt(r.Pick("rfc3339", "rfc2616"))
			if p.Format != nil {
				t.Format = p.Format
			}
		}
	}
}

func subset(r *Rand, v []any) []any {
	var out []any
	for _, x := range v {
		if r.P(65) {
			out = append(out, x)
		}
	}
	if len(out) == 0 && len(v) > 0 {
		out = v[:1]
	}
	return out
}

// narrowNum picks a bound between lo and hi (when given).
func narrowNum(r *Rand, integer bool, lo, hi *big.Rat, lower bool) string {
	for i := 0; i < 20; i++ {
		s := randNum(r, integer)
		q := rat(s)
		if !integer {
			f, _ := strconv.ParseFloat(s, 64)
			q = new(big.Rat).SetFloat64(f)
		}
		if (lo == nil || q.Cmp(lo) >= 0) && (hi == nil || q.Cmp(hi) <= 0) {
			return s
		}
	}
	q := lo
	if q == nil || (!lower && hi != nil) {
		q = hi
	}
	return ratText(q)
}

func ratText(q *big.Rat) string {
	if q.IsInt() {
		return q.Num().String()
	}
	f, _ := q.Float64()
	return jsonText(f)
}

func (g *Gen) arrayFacets(t *TNode, p *Eff) {
	r := g.R
	if p == nil {
		p = &Eff{}
	}
	lo, hi := uint64(0), uint64(6)
	if p.MinItems != nil {
		lo = *p.MinItems
	}
	if p.MaxItems != nil {
		hi = *p.MaxItems
	}
	if g.wide["length"] && p.MinItems == nil && p.MaxItems == nil && r.P(30) {
		n := uint64(r.Range(15, 120))
		t.MinItems, t.MaxItems = pt(n), pt(n+uint64(r.N(3)))
		if r.P(50) {
			t.MinItems = nil
		}
	}
	if t.MaxItems != nil {
		lo, hi = 1, 0
	}
	if r.P(30) && hi >= lo {
		t.MinItems = pt(lo + uint64(r.N(int(min(hi-lo, 3))+1)))
		lo = *t.MinItems
	}
	if r.P(30) && hi >= lo {
		t.MaxItems = pt(hi - uint64(r.N(int(min(hi-lo, 4))+1)))
	} else if p.MaxItems == nil && t.MaxItems == nil && r.P(5) {
		t.MaxItems = huge(r)
	}
	if r.P(25) {
		t.Unique = pt(r.P(70) || (p.Unique != nil && *p.Unique))
	}
}

var propNames = []string{"a", "b", "c", "id", "name", "value", "x1", "type", "properties", "items", "kind"}
var weirdProps = []string{"a b", "x-y", "ünï", "1", "q\"t", "$ref", "dot.ted", "/slash", "@at", "k:v", "slash/", "/", "why?", "?", "a?b", "(x)"}
var propPatterns = []string{"^x-", "^[0-9]+$", "_id$", "^opt", "/api", "w/$", "^.?/v[0-9]", "/"}

func (g *Gen) propName(used map[string]bool) string {
	for i := 0; ; i++ {
		n := propNames[g.R.N(len(propNames))]
		if g.O.WeirdNames && g.R.P(8) {
			n = weirdProps[g.R.N(len(weirdProps))]
		}
		if i > 6 || g.R.P(30) {
			n = g.name("p")
		}
		if !used[n] {
			used[n] = true
			return n
		}
	}
}

func (g *Gen) objectNode(f *Frag, depth int) *TNode {
	r := g.R
	t := &TNode{HasProps: true}
	if r.P(60) {
		t.Ref = b("object")
	}
	used := map[string]bool{}
	n := r.N(4)
	if g.wide["props"] && r.P(30) {
		n = r.Range(12, 60)
	}
	for i := 0; i < n; i++ {
		if n > 3 && i > 3 {
			depth = 1
		}
		p := &Prop{Name: g.propName(used), Required: r.P(55), T: g.genNode(f, depth-1)}
		if r.P(20) {
			p.Style = 1
		}
		if r.P(3) && g.O.WeirdNames && !used[p.Name+"?"] {
			p.Name += "?"
			used[p.Name] = true
		}
		if strings.HasSuffix(p.Name, "?") && r.P(50) {
			p.Required, p.Style = false, 2
		}
		t.Props = append(t.Props, p)
	}
	if r.P(18) {
		t.Props = append(t.Props, &Prop{Name: propPatterns[r.N(len(propPatterns))], Pattern: true, T: g.genNode(f, depth-1)})
		if r.P(20) {
			t.Props = append(t.Props, &Prop{Name: "^zz", Pattern: true, T: g.genNode(f, depth-1)})
		}
		if r.P(40) {
			t.AddlProps = pt(true)
		}
	} else if r.P(25) {
		t.AddlProps = pt(r.P(35))
	}
	g.objFacets(t, nil)
	if r.P(25) {
		for _, p := range t.Props {
			if !p.Pattern && p.T.Ref != nil && p.T.Ref.K == RBuiltin && p.T.Ref.Name == "string" && p.T.Inline {
				t.Discriminator = pt(p.Name)
				if r.P(40) {
					t.DiscValue = "disc"
				}
				break
			}
		}
	}
	if len(t.Props) == 0 && r.P(30) {
		t.HasProps = false
		if t.Ref == nil {
			t.Ref = b("object")
		}
	}
	return t
}

// huge is a bound that nothing reaches.
func huge(r *Rand) *uint64 {
	return pt([]uint64{1 << 31, 1<<32 + 1, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.N(6)])
}

func (g *Gen) objFacets(t *TNode, p *Eff) {
	r := g.R
	if p == nil {
		p = &Eff{}
	}
	lo, hi := uint64(0), uint64(5)
	if p.MinProps != nil {
		lo = *p.MinProps
	}
	if p.MaxProps != nil {
		hi = *p.MaxProps
	}
	if r.P(15) && hi >= lo {
		t.MinProps = pt(lo + uint64(r.N(int(min(hi-lo, 2))+1)))
		lo = *t.MinProps
	}
	if r.P(15) && hi >= lo {
		t.MaxProps = pt(hi - uint64(r.N(int(min(hi-lo, 2))+1)))
	} else if p.MaxProps == nil && r.P(4) {
		t.MaxProps = huge(r)
	}
}

// narrowNode makes a declaration body that may be derived from (or override) something meaning p. Its Ref is a builtin
// of the same kind; callers deriving from a named type replace it.
func (g *Gen) narrowNode(f *Frag, p *Eff, depth int) *TNode {
	r := g.R
	p.get()
	t := &TNode{Ref: b(p.Kind)}
	switch p.Kind {
	case "object":
		g.objFacets(t, p)
		if r.P(65) {
			t.HasProps = true
			used := map[string]bool{}
			for _, q := range p.Props {
				used[q.Name] = true
			}
			for i := 0; i < r.N(3); i++ {
				t.Props = append(t.Props, &Prop{Name: g.propName(used), Required: r.P(40), T: g.genNode(f, depth-1)})
			}
			for _, q := range p.Props {
				if depth > 0 && !g.O.NoOverride && r.P(35) {
					if o := g.override(f, q.E, depth-1); o != nil {
						t.Props = append(t.Props, &Prop{Name: q.Name, Required: q.Required || r.P(40), T: o})
					}
				}
			}
			for _, q := range p.PProps {
				if depth > 0 && !g.O.NoOverride && r.P(30) {
					if o := g.override(f, q.E, depth-1); o != nil {
						t.Props = append(t.Props, &Prop{Name: q.Name, Pattern: true, T: o})
					}
				}
			}
		}
		if r.P(15) && len(p.PProps) == 0 {
			t.AddlProps = pt(p.Addl == nil || *p.Addl && r.P(50))
		} else if r.P(15) && (p.Addl == nil || *p.Addl) {
			t.AddlProps = pt(true)
		}
	case "array":
		g.arrayFacets(t, p)
		if depth > 0 && r.P(35) && !g.O.NoOverride {
			if p.Items != nil {
				t.Items = g.override(f, p.Items, depth-1)
			} else {
				t.Items = g.genNode(f, depth-1)
			}
		}
	case "union", "any", "nil", "json":
		if p.Kind == "json" || p.Kind == "union" {
			t.Ref = b("any") // replaced by the caller
		}
	default:
		g.scalarFacets(t, p.Kind, p)
	}
	if g.O.CustomFacets {
		for _, d := range append(append([]*EProp{}, p.FacetDefs...), g.ref.facetChain(p)...) {
			if findCF(p.Custom, d.Name) == nil && (d.Required || r.P(50)) {
				if v, ok := genValid(r, d.E, 0); ok && findTCF(t.Custom, d.Name) == nil {
					t.Custom = append(t.Custom, &CF{Name: d.Name, V: v})
				}
			}
		}
	}
	return t
}

func findTCF(cs []*CF, n string) *CF {
	for _, c := range cs {
		if c.Name == n {
			return c
		}
	}
	return nil
}

// override makes a declaration for a property, pattern property or item that replaces something meaning p.
func (g *Gen) override(f *Frag, p *Eff, depth int) *TNode {
	p.get()
	r := g.R
	switch p.Kind {
	case "any":
		return g.genNode(f, depth)
	case "union":
		var ms []*Eff
		for _, m := range p.Members {
			if k := m.get().Kind; k != "union" && k != "any" && k != "json" {
				ms = append(ms, m)
			}
		}
		if len(ms) == 0 {
			return nil
		}
		t := g.narrowNode(f, ms[r.N(len(ms))], depth)
		t.Custom = nil
		return t
	case "json":
		return nil
	}
	// an alias of, or a type derived from, a declared type of the same kind
	if r.P(30) {
		if d := g.pickDecl(f, func(e *Eff) bool { return e.Kind == p.Kind }); d != nil {
			if r.P(50) {
				return inl(rn(d))
			}
			t := g.narrowNode(f, g.ref.decl(d), depth)
			t.Ref = rn(d)
			return t
		}
	}
	t := g.narrowNode(f, p, depth)
	t.Custom = nil
	if r.P(15) && !t.hasFacets() {
		t.Inline = true
	}
	return t
}

// addRecursion lets the declaration refer to itself through something optional.
func (g *Gen) addRecursion(t *TNode, d *Decl) {
	r := g.R
	if t.Inline || t.Null {
		return
	}
	self := rn(d)
	switch {
	case t.HasProps:
		var n *TNode
		switch r.N(5) {
		case 0:
			n = inl(self)
		case 1:
			n = inl(arr(self))
		case 2:
			n = &TNode{Ref: b("array"), Items: inl(self)}
		case 3:
			n = inl(uni(self, b("nil")))
		default:
			n = inl(optT(self))
		}
		used := map[string]bool{}
		for _, p := range t.Props {
			used[p.Name] = true
		}
		if r.P(20) && !used["^rec"] {
			t.AddlProps = nil
			t.Props = append(t.Props, &Prop{Name: "^rec", Pattern: true, T: n})
			return
		}
		name := "rec" + strconv.Itoa(len(t.Props))
		for used[name] {
			name += "x"
		}
		t.Props = append(t.Props, oprop(name, n))
	case t.Ref != nil && t.Ref.K == RBuiltin && t.Ref.Name == "array":
		t.Items = inl(uni(self, b(g.builtinName())))
		t.MinItems = nil
	}
}

// ---------------------------------------------------------------- values

// genValid tries to build a value that the type accepts.
func genValid(r *Rand, e *Eff, depth int) (any, bool) {
	for i := 0; i < 12; i++ {
		v := genValue(r, e, depth)
		if acceptDepth(e, v, 0) {
			return v, true
		}
	}
	return nil, false
}

var genFuel int

func genValue(r *Rand, e *Eff, depth int) any {
	e.get()
	if depth == 0 {
		genFuel = 4000
	}
	if genFuel--; depth > 40 || genFuel < 0 {
		return nil
	}
	if e.HasEnum && len(e.Enum) > 0 && r.P(85) {
		return normJSON(e.Enum[r.N(len(e.Enum))])
	}
	switch e.Kind {
	case "nil":
		return nil
	case "boolean":
		return r.P(50)
	case "any", "json":
		return randValue(r, 2)
	case "string", "file":
		n := lenFor(r, e.MinLength, e.MaxLength, 8)
		if e.Pattern != nil {
			if p := patOf(*e.Pattern); p != nil {
				return p.gen(r, n)
			}
		}
		if e.Kind == "file" {
			return rep("abcDEF12+/=", r, n)
		}
		return rep(r.Pick("abc xyz", "aé€😀", "0123", "AB_-"), r, n)
	case "integer", "number":
		return numFor(r, e)
	case "datetime", "datetime-only", "date-only", "time-only":
		return dateFor(r, e)
	case "array":
		n := lenFor(r, e.MinItems, e.MaxItems, 3)
		if depth > 5 {
			n = lenFor(r, e.MinItems, e.MinItems, 0)
		}
		out := []any{}
		top := 12
		if depth <= 1 && (e.Items == nil || len(e.Items.get().children()) == 0) {
			top = 150
		}
		for i := 0; i < n && i < top; i++ {
			var v any
			if e.Items != nil {
				v = genValue(r, e.Items, depth+1)
			} else {
				v = randValue(r, 1)
			}
			if e.Unique != nil && *e.Unique && r.P(90) {
				dup := false
				for _, w := range out {
					dup = dup || sameValue(v, w)
				}
				if dup && i < 30 {
					continue
				}
			}
			out = append(out, v)
		}
		return out
	case "object":
		m := map[string]any{}
		p := 50
		if depth > 3 {
			p = 10
		}
		if depth > 6 {
			p = 0
		}
		for _, q := range e.Props {
			if q.Required && depth < 12 || r.P(p) {
				m[q.Name] = genValue(r, q.E, depth+1)
			}
		}
		for _, q := range e.PProps {
			if r.P(p) {
				m[keyOf(r, e, q)] = genValue(r, q.E, depth+1)
			}
		}
		need := 0
		if e.MinProps != nil {
			need = int(min(*e.MinProps, 8))
		}
		for _, q := range e.Props {
			if len(m) >= need {
				break
			}
			if _, has := m[q.Name]; !has {
				m[q.Name] = genValue(r, q.E, depth+1)
			}
		}
		if e.Addl == nil || *e.Addl {
			for i := 0; len(m) < need || (i == 0 && r.P(20)); i++ {
				m["extra"+strconv.Itoa(i)] = randValue(r, 1)
			}
		}
		return m
	case "union":
		if len(e.Members) == 0 {
			return nil
		}
		if depth > 5 { // prefer an alternative without children
			for _, m := range e.Members {
				if len(m.get().children()) == 0 {
					return genValue(r, m, depth+1)
				}
			}
		}
		if depth > 40 {
			return nil
		}
		return genValue(r, e.Members[r.N(len(e.Members))], depth+1)
	}
	return nil
}

func lenFor(r *Rand, lo, hi *uint64, def int) int {
	a, c := 0, def
	if lo != nil {
		a = int(min(*lo, 700))
		if c < a {
			c = a + 2
		}
	}
	if hi != nil && int(min(*hi, 1000)) < c {
		c = int(*hi)
	}
	if c < a {
		c = a
	}
	if hi == nil && r.P(2) {
		return a + r.Near(20, 100, 300)
	}
	if hi != nil && *hi < 1000 && int(*hi) > c && r.P(50) {
		return int(*hi)
	}
	switch r.N(4) {
	case 0:
		return a
	case 1:
		return c
	}
	return r.Range(a, c)
}

// keyOf is a name that the pattern matches, and often one of the other patterns, too.
func keyOf(r *Rand, e *Eff, q *EProp) string {
	k := keyFor(r, q.Name)
	if len(e.PProps) < 2 || r.P(40) {
		return k
	}
	for i := 0; i < 6; i++ {
		o := e.PProps[r.N(len(e.PProps))]
		if o == q {
			continue
		}
		for _, x := range []string{k + keyFor(r, o.Name), keyFor(r, o.Name) + k} {
			if re(q.Name).MatchString(x) && re(o.Name).MatchString(x) {
				return x
			}
		}
	}
	return k
}

func keyFor(r *Rand, pat string) string {
	switch pat {
	case "^x-":
		return "x-" + rep("abc", r, r.N(3))
	case "^[0-9]+$":
		return rep("0123456789", r, r.Range(1, 3))
	case "_id$":
		return rep("abc", r, r.N(3)) + "_id"
	case "^opt":
		return "opt" + rep("abc", r, r.N(3))
	case "/api":
		return r.Pick("/api", "x/api", "http://a/api/") + rep("abc", r, r.N(2))
	case "w/$":
		return rep("abc", r, r.N(2)) + "w/"
	case "^.?/v[0-9]":
		return r.Pick("", "a") + "/v" + rep("123", r, r.Range(1, 2))
	case "/":
		return r.Pick("/", "q/", "/w", "a/b")
	case "^zz":
		return "zz" + rep("abc", r, r.N(3))
	case "^rec":
		return "rec-" + rep("abc", r, r.N(3))
	}
	return "k"
}

func numFor(r *Rand, e *Eff) any {
	in := e.Kind == "integer"
	var f float64
	lo, hi := e.Min, e.Max
	x := r.N(6)
	switch {
	case lo != nil && x < 2:
		f, _ = lo.Float64()
	case hi != nil && x < 4:
		f, _ = hi.Float64()
	case lo != nil:
		f, _ = lo.Float64()
		f += float64(r.N(20))
	case hi != nil:
		f, _ = hi.Float64()
		f -= float64(r.N(20))
	default:
		f = float64(r.Range(-100, 100))
	}
	if !in && r.P(40) {
		f += float64(r.Range(-4, 4)) / 8
	}
	return f
}

func dateFor(r *Rand, e *Eff) any {
	y, mo, day := r.Range(1970, 2040), r.Range(1, 12), r.Range(1, 28)
	if r.P(20) {
		y = []int{1, 99, 999, 1000, 1582, 1600, 1899, 1900, 1969, 2000, 2038, 2100, 2400, 9999}[r.N(14)]
	}
	if r.P(25) {
		day = time.Date(y, time.Month(mo+1), 0, 0, 0, 0, 0, time.UTC).Day() // the last one
	}
	d := fmt.Sprintf("%04d-%02d-%02d", y, mo, day)
	t := fmt.Sprintf("%02d:%02d:%02d", r.N(24), r.N(60), r.N(60))
	switch e.Kind {
	case "date-only":
		return d
	case "time-only":
		return t
	case "datetime-only":
		return d + "T" + t
	}
	if e.Format == nil || *e.Format == "rfc3339" {
		return d + "T" + t + r.Pick("Z", "+01:00", "-05:30", "+14:00", "-12:00", "+00:00", "-00:00", "+05:45", "+23:59")
	}
	if r.P(60) && y >= 1000 {
		return time.Date(y, time.Month(mo), day, r.N(24), r.N(60), r.N(60), 0, time.UTC).Format("Mon, 02 Jan 2006 15:04:05") + " GMT"
	}
	return r.Pick("Sun, 06 Nov 1994 08:49:37 GMT", "Mon, 02 Jan 2006 15:04:05 GMT", "Tue, 29 Feb 2000 00:00:00 GMT")
}

var strayStrings = []string{"", "a", "x", "xa7", "AB", "ABCDE", "foo-1", "foo-", "5", "true", "null", "é", "ééé", "a b", "2020-02-30", "2021-02-29",
	"2020-02-29", "24:00:00", "23:59:59", "12:60:00", "2020-01-01T00:00:00", "2020-01-01T00:00:00Z", "2020-13-01T00:00:00Z",
	"2020-01-01 00:00:00", "Mon, 02 Jan 2006 15:04:05 GMT", "{not json", "[]", "abcdefghijklmnop", "\n", "x\n"}
var strayNums = []float64{0, 1, -1, 0.5, 1.5, -0.25, 5, 10, 100, 1e6, 9007199254740991, 9007199254740993, 1e15, 1e19, -1e19, 1e20, 9.3e18, 1.8446744073709552e19, 1e300, -1e300, 2.5, 3}

func randValue(r *Rand, depth int) any {
	x := r.N(10)
	if depth <= 0 && x >= 8 {
		x = r.N(8)
	}
	switch x {
	case 0:
		return nil
	case 1:
		return true
	case 2:
		return false
	case 3, 4, 5:
		return strayStrings[r.N(len(strayStrings))]
	case 6, 7:
		return strayNums[r.N(len(strayNums))]
	case 8:
		a := []any{}
		for i := 0; i < r.N(4); i++ {
			a = append(a, randValue(r, depth-1))
		}
		return a
	}
	m := map[string]any{}
	for i := 0; i < r.N(4); i++ {
		m[r.Pick("a", "b", "x-q", "12", "k_id", "id", "rec0")] = randValue(r, depth-1)
	}
	return m
}

// mutate changes a value at one place, preferring the edge of a constraint.
func mutate(r *Rand, e *Eff, v any, depth int) any {
	e.get()
	if e.Kind == "union" && len(e.Members) > 0 {
		for i := 0; i < 4; i++ {
			m := e.Members[r.N(len(e.Members))]
			if depth < 20 && acceptDepth(m, v, 0) {
				return mutate(r, m, v, depth+1)
			}
		}
		return randValue(r, 1)
	}
	if r.P(8) {
		return randValue(r, 1)
	}
	switch x := v.(type) {
	case string:
		n := utf8.RuneCountInString(x)
		rs := []rune(x)
		switch r.N(5) {
		case 0:
			if n > 0 {
				return string(rs[:n-1])
			}
		case 1:
			return x + r.Pick("a", "é", "0", " ", "Z")
		case 2:
			if e.MaxLength != nil && *e.MaxLength < 1000 {
				return padTo(r, e, x, int(*e.MaxLength)+1)
			}
		case 3:
			if e.MinLength != nil && *e.MinLength > 0 && int(*e.MinLength) <= n {
				return string(rs[:*e.MinLength-1])
			}
		case 4:
			if n > 0 {
				i := r.N(n)
				rs[i] = []rune("aZ0-é ")[r.N(6)]
				return string(rs)
			}
		}
		return r.Pick(strayStrings...)
	case float64:
		step := []float64{1, 0.5, 0.125, 2, 1e-3}[r.N(5)]
		f := x
		if e.Min != nil && r.P(40) {
			f, _ = e.Min.Float64()
		} else if e.Max != nil && r.P(60) {
			f, _ = e.Max.Float64()
		}
		if r.P(50) {
			step = -step
		}
		return f + step
	case bool:
		return !x
	case []any:
		c := append([]any{}, x...)
		switch {
		case len(c) > 0 && r.P(45):
			i := r.N(len(c))
			if e.Items != nil {
				c[i] = mutate(r, e.Items, c[i], depth+1)
			} else {
				c[i] = randValue(r, 1)
			}
		case len(c) > 0 && r.P(40):
			c = append(c, c[r.N(len(c))])
		case len(c) > 0 && r.P(50):
			c = c[:len(c)-1]
		case e.Items != nil && depth < 12:
			c = append(c, genValue(r, e.Items, depth+1))
		default:
			c = append(c, randValue(r, 1))
		}
		return c
	case map[string]any:
		m := map[string]any{}
		var ks []string
		for _, q := range e.Props {
			if _, ok := x[q.Name]; ok {
				ks = append(ks, q.Name)
			}
		}
		for k, w := range x {
			m[k] = w
		}
		switch {
		case len(ks) > 0 && r.P(55):
			k := ks[r.N(len(ks))]
			m[k] = mutate(r, findEP(e.Props, k).E, m[k], depth+1)
		case len(ks) > 0 && r.P(40):
			delete(m, ks[r.N(len(ks))])
		case len(e.PProps) > 0 && r.P(60) && depth < 12:
			q := e.PProps[r.N(len(e.PProps))]
			w := genValue(r, q.E, depth+1)
			if r.P(60) {
				w = mutate(r, q.E, w, depth+1)
			}
			m[keyOf(r, e, q)] = w
		case len(e.Props) > 0 && r.P(40) && depth < 12:
			q := e.Props[r.N(len(e.Props))]
			m[q.Name] = genValue(r, q.E, depth+1)
		default:
			m[r.Pick("zextra", "x-1", "77", "u_id", "optx", "zz1")] = randValue(r, 1)
		}
		return m
	}
	return randValue(r, 1)
}

func padTo(r *Rand, e *Eff, x string, n int) string {
	if e.Pattern != nil {
		if p := patOf(*e.Pattern); p != nil {
			return p.gen(r, n)
		}
	}
	for utf8.RuneCountInString(x) < n {
		x += r.Pick("a", "b")
	}
	return x
}

// normJSON is the value a JSON decoder produces.
func normJSON(v any) any {
	var out any
	if err := json.Unmarshal([]byte(jsonText(v)), &out); err != nil {
		panic(err)
	}
	return out
}

// genValues is a mixture of valid, boundary and stray values.
func genValues(r *Rand, e *Eff, n int) []any {
	var out []any
	for i := 0; i < n; i++ {
		switch i % 4 {
		case 0:
			v, _ := genValid(r, e, 0)
			out = append(out, v)
		case 1, 2:
			v, ok := genValid(r, e, 0)
			if ok {
				v = mutate(r, e, v, 0)
				if r.P(20) {
					v = mutate(r, e, v, 0)
				}
			}
			out = append(out, v)
		default:
			if r.P(50) {
				out = append(out, genValue(r, e, 0))
			} else {
				out = append(out, randValue(r, 2))
			}
		}
	}
	k := 0
	for i := range out {
		if !hasLenientDate(out[i]) {
			out[k] = normJSON(out[i])
			k++
		}
	}
	return out[:k]
}

// Go's time parser accepts hours of one digit, fractions of a second the layout does not mention and names in any case. Whether such
// strings are dates is not part of any checked property.
var anyCaseDate = regexp.MustCompile(`(?i)^(mon|tue|wed|thu|fri|sat|sun), +\d\d +(jan|feb|mar|apr|may|jun|jul|aug|sep|oct|nov|dec) +\d{4} `)

var lenientDate = regexp.MustCompile(`(^|[T\s])\s*\d:\d\d:\d\d|:\d\d[.,]\d`)

func hasLenientDate(v any) bool {
	switch x := v.(type) {
	case string:
		return lenientDate.MatchString(x) || anyCaseDate.MatchString(x) && !re2616.MatchString(x)
	case []any:
		for _, y := range x {
			if hasLenientDate(y) {
				return true
			}
		}
	case map[string]any:
		for k, y := range x {
			if lenientDate.MatchString(k) || hasLenientDate(y) {
				return true
			}
		}
	}
	return false
}
