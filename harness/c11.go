package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/acronis/go-stacktrace"
)

// where is a range of lines in a file.
type where struct {
	file   string
	lo, hi int
}

func (w where) String() string { return fmt.Sprintf("%s:%d-%d", w.file, w.lo, w.hi) }

// fault is one construct that makes the project invalid. Its place is known once the project is printed.
type fault struct {
	what  string
	site  string
	late  bool   // found by validation: the model is built before
	phase string // the others: "resolve", "uses", "annotation"; "" stops at once
	merge bool   // found by unwrapping
	top   *TNode
	at    func() []where // the construct; any of them
}

type traceEntry struct {
	loc  string
	line int
}

// traceEntries collects the entries of the stack traces in the chain of an error.
func traceEntries(err error, out *[]traceEntry) {
	walkTrace(err, map[*stacktrace.StackTrace]bool{}, out)
}

func walkTrace(err error, seen map[*stacktrace.StackTrace]bool, out *[]traceEntry) {
	if err == nil {
		return
	}
	if st, ok := err.(*stacktrace.StackTrace); ok {
		if st == nil || seen[st] {
			return
		}
		seen[st] = true
		e := traceEntry{loc: st.Location.String(), line: 1}
		if st.Position != nil && st.Position.Line > 0 {
			e.line = st.Position.Line
		}
		*out = append(*out, e)
		walkTrace(st.Err, seen, out)
		if st.Wrapped != nil {
			walkTrace(st.Wrapped, seen, out)
		}
		for _, x := range st.List {
			walkTrace(x, seen, out)
		}
		return
	}
	switch u := err.(type) {
	case interface{ Unwrap() error }:
		walkTrace(u.Unwrap(), seen, out)
	case interface{ Unwrap() []error }:
		for _, x := range u.Unwrap() {
			walkTrace(x, seen, out)
		}
	}
}

func rangeOf(f *Frag, t *TNode) []where {
	if f.DT == t {
		return []where{{f.Path, 1, 1 << 20}}
	}
	return []where{{f.Path, t.Line, t.End}}
}

// ghost refers to a type that does not exist.
func ghost(r *Rand) *TRef {
	return raw(r.Pick("noSuchType", "nolib.T", "String", "a.b.c", "T9999"))
}

func raw(s string) *TRef { return &TRef{K: RRaw, Name: s} }

// plant puts one fault of the given class at the site.
func plant(r *Rand, pr *Project, ref *Ref, s site, anns []*Decl, n int) *fault {
	f, t := s.f, s.t
	ft := &fault{site: s.place, top: s.top, at: func() []where { return rangeOf(f, t) }}
	kind := ref.node(t, f).get().Kind
	return plantKind(r, pr, ref, s, anns, n, r.N(12), ft, kind)
}

func plantKind(r *Rand, pr *Project, ref *Ref, s site, anns []*Decl, n, what int, ft *fault, kind string) *fault {
	f, t := s.f, s.t
	switch what {
	case 0: // undefined reference
		if t.Ref == nil {
			return nil
		}
		g := ghost(r)
		ft.what, ft.phase = "undefined reference", "resolve"
		switch r.N(5) {
		case 0:
			g = arr(g)
		case 1:
			g = uni(b("string"), g)
		case 2:
			g = optT(g)
		case 3:
			g = &TRef{K: RMulti, Sub: []*TRef{b("object"), g}}
			t.Inline = false
		}
		if !t.Inline && (t.hasOwnFacets() || len(t.Custom) > 0) {
			// keep what is written below
			t.Example, t.Examples, t.Default = nil, nil, nil
		}
		t.Ref = g
		return ft
	case 1: // malformed expression
		if t.Ref == nil {
			return nil
		}
		t.Ref = raw(r.Pick("string[", "(string", "string |", "string || integer", "[]", "string string"))
		ft.what = "malformed expression"
		if t.Ref.Name != "[]" { // an empty sequence when it is not quoted
			ft.phase = "resolve"
		}
		return ft
	case 2: // missing include
		if t.Ref == nil || t.Ref.K == RMulti {
			return nil
		}
		t.Ref = &TRef{K: RInclude, Frag: &Frag{Kind: FDataType, Path: fmt.Sprintf("nosuch/missing%d.raml", n)}}
		ft.what = "missing include"
		return ft
	case 3, 4: // facets
		if t.Inline || t.Ref != nil && t.Ref.K == RMulti {
			return nil
		}
		m := malforms[r.N(len(malforms))]
		if !m.fits(kind) || t.Ref == nil && (m.key == "fileTypes" || m.cross) {
			return nil
		}
		m.put(t, m.vals[r.N(len(m.vals))])
		ft.what = "facet " + m.key
		return ft
	case 5: // example, default
		if t.Ref == nil && !t.hasFacets() || kind == "" {
			return nil
		}
		if !uninline(pr, t) {
			return nil
		}
		e := NewRef(pr).node(t, f).get()
		v, ok := pickValue(r, ref, e, false)
		if !ok {
			return nil
		}
		x := &Ex{V: v}
		ft.late = true
		switch r.N(3) {
		case 0:
			t.Default = x
			ft.what = "default"
			respell(r, x, true)
		case 1:
			t.Example, t.Examples, t.NamedEx = x, nil, false
			ft.what = "example"
		default:
			t.Example = nil
			x.Name = fmt.Sprintf("bad%d", n)
			t.Examples = append(t.Examples, x)
			if len(t.Examples) == 1 {
				t.NamedEx = r.P(40)
			}
			ft.what = "examples"
		}
		if ft.what != "default" {
			if r.P(40) {
				x.Form = 3
			}
			respell(r, x, false)
		}
		ft.at = func() []where {
			w := where{x.InFile, x.Line, x.End}
			return []where{w}
		}
		return ft
	case 6: // annotation
		if r.P(30) {
			return plantGhostAnn(r, pr, s, n)
		}
		if len(anns) == 0 {
			return nil
		}
		return plantAnn(r, pr, s, anns[r.N(len(anns))], n)
	case 7: // uses
		u := &Use{Alias: fmt.Sprintf("gone%d", n), Path: fmt.Sprintf("nosuch/lib%d.raml", n)}
		f.Uses = append(f.Uses, u)
		ft.what, ft.site, ft.phase = "uses", fmt.Sprint(f.Kind), "uses"
		ft.at = func() []where { return []where{{f.Path, u.Line, u.Line}} }
		return ft
	case 8: // missing data file
		x := &Ex{V: "x", Form: 10, File: fmt.Sprintf("data/missing%d%s", n, r.Pick(".json", ".yaml", ".txt"))}
		if t.Ref == nil && !t.hasFacets() {
			return nil
		}
		if !uninline(pr, t) {
			return nil
		}
		if r.P(50) {
			t.Default = x
		} else {
			t.Example, t.Examples, t.NamedEx = x, nil, false
		}
		ft.what = "missing data file"
		ft.at = func() []where { return []where{{x.InFile, x.Line, x.End}} }
		return ft
	default: // facets that contradict each other, the parent or the enum; custom facets
		if t.Inline || t.Ref == nil && !t.hasFacets() {
			return nil
		}
		ft.what = "semantic "
		if r.P(30) && !s.inDef && t.Ref != nil {
			e := ref.node(t, f).get()
			defs := ref.facetChain(e)
			switch r.N(3) {
			case 0:
				t.Custom = append(t.Custom, &CF{Name: fmt.Sprintf("unknown%d", n), V: "x"})
				ft.what += "unknown facet"
			case 1:
				if len(defs) == 0 {
					return nil
				}
				d := defs[r.N(len(defs))]
				v, ok := pickValue(r, ref, d.E, false)
				if !ok {
					return nil
				}
				if cf := findTCF(t.Custom, d.Name); cf != nil {
					cf.V = v
				} else {
					t.Custom = append(t.Custom, &CF{Name: d.Name, V: v})
				}
				ft.what += "facet value"
			default:
				if len(t.Custom) == 0 {
					return nil
				}
				i := r.N(len(t.Custom))
				t.Custom = append(t.Custom[:i:i], t.Custom[i+1:]...)
				ft.what += "facet omitted"
			}
		} else {
			w, _ := editFacet(r, ref, t)
			if w == "" {
				return nil
			}
			ft.what += w
		}
		// the reference tells what is invalid now: what contains or uses the type may be reported instead
		nr := NewRef(pr)
		own := false
		var also []*Eff
		for _, x := range nr.Verdict() {
			own = own || x.T == t
			ft.merge = ft.merge || x.Kind == "merge"
			for _, s := range sites(pr) {
				if s.t == x.T {
					also = append(also, nr.node(s.t, s.f).get())
				}
			}
		}
		if !own {
			ft.what = ""
			return ft
		}
		ft.at = func() []where {
			out := rangeOf(f, t)
			for _, e := range also {
				out = append(out, rangeOf(e.frag, e.T)...)
				for _, x := range append([]*Ex{e.Example, e.Default}, e.Examples...) {
					if x != nil {
						out = append(out, where{x.InFile, x.Line, x.End})
					}
				}
			}
			return out
		}
		ft.late = true
		return ft
	}
}

// hasOwnFacets: facets of its kind are written on the declaration.
func (t *TNode) hasOwnFacets() bool {
	z := *t
	z.Ref, z.DisplayName, z.Description, z.Example, z.Examples, z.Default, z.Annots, z.FacetDefs, z.RequiredFacet = nil, nil, nil, nil, nil, nil, nil, nil, nil
	return z.hasFacets()
}

// uninline makes room for facets. A declaration that was an alias is a derived type then; it must not be invalid for that.
func uninline(pr *Project, t *TNode) bool {
	if !t.Inline {
		return true
	}
	n := len(NewRef(pr).Verdict())
	t.Inline = false
	if len(NewRef(pr).Verdict()) != n {
		t.Inline = true
		return false
	}
	return true
}

// reported tells whether an entry lies in one of the ranges.
func reported(es []traceEntry, root string, ws []where) bool {
	for _, w := range ws {
		for _, e := range es {
			if e.loc == filepath.Join(root, w.file) && e.line >= w.lo && e.line <= w.hi {
				return true
			}
		}
	}
	return false
}

func c11Run(c *Case) {
	o := fullOpts()
	o.Types = c.R.Range(2, 9)
	o.Depth = c.R.Range(1, 3)
	o.Recursion = c.R.P(20)
	o.Derive = c.R.N(60)
	pr, ref := genProject(c.R.Fork("gen"), o)
	if len(ref.Verdict()) > 0 {
		c.Count("generator_rejects", 1)
		return
	}
	if r := c.R.Fork("entry"); r.P(15) && dataTypeEntry(r, pr, true) != nil {
		c.Count("datatype_entries", 1)
	}
	r := c.R.Fork("fault")
	anns := usedAnns(pr)
	ss := sites(pr)
	if len(ss) == 0 {
		return
	}
	var fs []*fault
	if r.P(60) {
		for try := 0; try < 60 && len(fs) == 0; try++ {
			s := ss[r.N(len(ss))]
			if r.P(50) && s.depth == 0 {
				s = ss[r.N(len(ss))]
			}
			ft := plant(r, pr, ref, s, anns, 1)
			if ft != nil && ft.what == "" { // an edit without effect
				c.Count("no_effect", 1)
				return
			}
			if ft != nil {
				fs = append(fs, ft)
			}
		}
	} else {
		fs = independent(r, pr, ref, anns)
	}
	if len(fs) > 1 && fs[0].phase != "" {
		c.Count("several_"+fs[0].phase, 1)
	}
	if len(fs) == 0 {
		c.Count("no_site", 1)
		return
	}
	files := pr.Render(randStyle(c.R))
	c.Source(files)
	entry := pr.Frags[0].Path
	root := c.newRoot()
	writeFiles(root, files)
	var what []string
	for _, f := range fs {
		what = append(what, f.what+" in "+f.site)
		if len(fs) == 1 {
			c.Key(f.what, f.site)
			c.Count("fault_"+strings.ReplaceAll(strings.SplitN(f.what, " ", 2)[0], " ", "_"), 1)
		}
	}
	sort.Strings(what)
	merge := false
	for _, f := range fs {
		merge = merge || f.merge
	}
	for i, m := range []struct {
		name string
		u, v bool
		load func(string, string, bool, bool) (*Loaded, error)
	}{{"path validate", false, true, loadPath}, {"path unwrap+validate", true, true, loadPath}, {"string validate", false, true, loadString}, {"path parse", false, false, loadPath}} {
		_, err := m.load(root, entry, m.u, m.v)
		c.Eval(1)
		if err == nil {
			if i < 3 {
				c.Violate("mode %q: accepted in spite of %v\n%s", m.name, what, clip(allFiles(files), 3000))
				return
			}
			continue
		}
		if i == 3 && fs[0].late {
			c.Violate("mode %q: rejected because of %v, which only validation looks at: %v\n%s", m.name, what, err, clip(allFiles(files), 3000))
			return
		}
		if _, ok := stacktrace.Unwrap(err); !ok {
			c.Violate("mode %q: %v gives an error that is not a stack trace: %T %v\n%s", m.name, what, err, err, clip(allFiles(files), 3000))
			return
		}
		var es []traceEntry
		traceEntries(err, &es)
		c.Count("entries", len(es))
		for _, e := range es {
			// every entry names a file of the project and a line that exists
			p, rerr := filepath.Rel(root, e.loc)
			if e.loc == "" {
				continue
			}
			text, known := files[p]
			if rerr != nil || !known && !strings.Contains(p, "missing") && !strings.Contains(p, "nosuch") {
				c.Violate("mode %q: %v: an entry of the trace names %q, which is no file of the project: %v\n%s", m.name, what, e.loc, err, clip(allFiles(files), 3000))
				return
			}
			if known && e.line > strings.Count(text, "\n")+1 {
				c.Violate("mode %q: %v: an entry of the trace names line %d of %s, which has fewer: %v\n%s", m.name, what, e.line, p, err, clip(allFiles(files), 3000))
				return
			}
		}
		for _, f := range fs {
			if m.u && merge && !f.merge && len(fs) > 1 {
				continue // unwrapping stops before validation
			}
			if ws := f.at(); !reported(es, root, ws) {
				c.Violate("mode %q: %s in %s at %v is not named by the trace %v: %v\n%s", m.name, f.what, f.site, ws, traceText(root, es), err, clip(allFiles(files), 3500))
				return
			}
			c.Count("located", 1)
			if len(fs) > 1 {
				c.Count("located_of_several", 1)
			}
		}
		c.Key(m.name, fmt.Sprint(what))
	}
	if c.Idx < 3 {
		c.Sample(fmt.Sprint(what) + "\n" + clip(allFiles(files), 1200))
	}
}

func traceText(root string, es []traceEntry) string {
	var out []string
	for _, e := range es {
		p, _ := filepath.Rel(root, e.loc)
		out = append(out, fmt.Sprintf("%s:%d", p, e.line))
	}
	return strings.Join(out, " ")
}

// reachTops lists, for every declaration, the declarations that it needs, by what is written.
func reachTops(pr *Project) map[*TNode]map[*TNode]bool {
	direct := map[*TNode]map[*TNode]bool{}
	for _, s := range sites(pr) {
		m := direct[s.top]
		if m == nil {
			m = map[*TNode]bool{s.top: true}
			direct[s.top] = m
		}
		var ref func(x *TRef)
		ref = func(x *TRef) {
			if x == nil {
				return
			}
			if x.Decl != nil {
				m[x.Decl.T] = true
			}
			if x.Frag != nil && x.Frag.DT != nil {
				m[x.Frag.DT] = true
			}
			for _, y := range x.Sub {
				ref(y)
			}
		}
		ref(s.t.Ref)
	}
	out := map[*TNode]map[*TNode]bool{}
	for top := range direct {
		m := map[*TNode]bool{}
		var rec func(t *TNode)
		rec = func(t *TNode) {
			if m[t] {
				return
			}
			m[t] = true
			for x := range direct[t] {
				rec(x)
			}
		}
		rec(top)
		out[top] = m
	}
	return out
}

// independent plants faults of the late kind in declarations that do not need one another.
func independent(r *Rand, pr *Project, ref *Ref, anns []*Decl) []*fault {
	switch r.N(8) {
	case 0:
		return sameFile(r, pr, ref)
	case 1, 2:
		return unresolved(r, pr, ref)
	case 3:
		var fs []*fault
		ss := sites(pr)
		for i := r.Range(2, 4); i > 0; i-- {
			if ft := plantGhostAnn(r, pr, ss[r.N(len(ss))], 60+i); ft != nil {
				fs = append(fs, ft)
			}
		}
		return several(fs)
	}
	need := reachTops(pr)
	ss := sites(pr)
	var fs []*fault
	var tops []*TNode
	want := r.Range(2, 4)
	for try := 0; try < 120 && len(fs) < want; try++ {
		s := ss[r.N(len(ss))]
		free := true
		for _, t := range tops {
			if t == s.top || need[t][s.top] || need[s.top][t] {
				free = false
			}
		}
		if !free {
			continue
		}
		old := *s.t
		apply, uses := append([]*AnnApply{}, s.f.Apply...), append([]*Use{}, s.f.Uses...)
		ft := plant(r, pr, ref, s, nil, 10+len(fs))
		if ft == nil || !ft.late {
			*s.t = old
			s.f.Apply, s.f.Uses = apply, uses
			ref = NewRef(pr)
			continue
		}
		ref = NewRef(pr)
		fs = append(fs, ft)
		tops = append(tops, s.top)
	}
	if len(anns) > 0 && r.P(50) {
		// annotations are checked independently of where they are
		for try := 0; try < 10; try++ {
			s := ss[r.N(len(ss))]
			a := anns[r.N(len(anns))]
			bad := false
			for _, t := range tops {
				bad = bad || need[a.T][t]
			}
			if bad {
				continue
			}
			old := *s.t
			uses := append([]*Use{}, s.f.Uses...)
			apply := append([]*AnnApply{}, s.f.Apply...)
			ft := plantAnn(r, pr, s, a, 30)
			if ft == nil {
				*s.t = old
				s.f.Apply, s.f.Uses = apply, uses
				continue
			}
			fs = append(fs, ft)
			break
		}
	}
	return several(fs)
}

func several(fs []*fault) []*fault {
	if len(fs) < 2 {
		return nil
	}
	return fs
}

// sameFile: one library uses several libraries that do not exist.
func sameFile(r *Rand, pr *Project, ref *Ref) []*fault {
	var fs []*fault
	ss := sites(pr)
	s := ss[r.N(len(ss))]
	if s.f.Kind != FLibrary {
		return nil
	}
	for i := r.Range(2, 4); i > 0; i-- {
		fs = append(fs, plantKind(r, pr, ref, s, nil, 40+i, 7, &fault{at: func() []where { return nil }}, ""))
	}
	return fs
}

// unresolved: several declarations that do not need one another have references without meaning.
func unresolved(r *Rand, pr *Project, ref *Ref) []*fault {
	need := reachTops(pr)
	ss := sites(pr)
	var fs []*fault
	var tops []*TNode
	dts := false
	for _, f := range pr.Frags {
		dts = dts || f.Kind == FDataType
	}
	want := r.Range(2, 5)
	for try := 0; try < 80 && len(fs) < want; try++ {
		s := ss[r.N(len(ss))]
		free := true
		for _, t := range tops {
			if t == s.top || need[t][s.top] || need[s.top][t] {
				free = false
			}
			for _, m := range need { // the body of a type without kind is not read, nor what only that includes
				if dts && m[t] && m[s.top] {
					free = false
				}
			}
		}
		if !free {
			continue
		}
		f, t := s.f, s.t
		ft := plantKind(r, pr, ref, s, nil, 70+try, r.N(2), &fault{site: s.place, top: s.top, at: func() []where { return rangeOf(f, t) }}, "")
		if ft == nil {
			continue
		}
		if ft.phase != "resolve" {
			return nil
		}
		fs = append(fs, ft)
		tops = append(tops, s.top)
	}
	return several(fs)
}

// plantGhostAnn applies an annotation that nothing declares.
func plantGhostAnn(r *Rand, pr *Project, s site, n int) *fault {
	f, t := s.f, s.t
	if t.Ref == nil && !t.hasFacets() {
		return nil
	}
	fr := f
	if len(f.Uses) > 0 && (f.Kind != FLibrary || r.P(40)) {
		fr = f.Uses[r.N(len(f.Uses))].To
	}
	if fr == nil || fr.Kind != FLibrary {
		return nil
	}
	a := &AnnApply{Decl: &Decl{Name: fmt.Sprintf("noAnn%d", n), Frag: fr, T: &TNode{Ref: b("any")}}, V: "x"}
	ft := &fault{what: "undefined annotation", site: s.place, phase: "annotation"}
	host := &t.Annots
	if f.Kind == FLibrary && r.P(25) {
		host = &f.Apply
		ft.site = "library"
	} else if !uninline(pr, t) {
		return nil
	}
	*host = append(append([]*AnnApply{}, *host...), a)
	ft.at = func() []where { return []where{{f.Path, a.Line, a.End}} }
	return ft
}

func plantAnn(r *Rand, pr *Project, s site, d *Decl, n int) *fault {
	f, t := s.f, s.t
	if t.Ref == nil && !t.hasFacets() {
		return nil
	}
	ft := &fault{what: "annotation", site: s.place, late: true}
	a := &AnnApply{Decl: d}
	ref := NewRef(pr)
	v, ok := pickValue(r, ref, ref.decl(d), false)
	if !ok {
		return nil
	}
	a.V = v
	a.Form, a.Raw = valForm(r, v)
	host := &t.Annots
	if f.Kind == FLibrary && r.P(25) {
		host = &f.Apply
		ft.site = "library"
	} else if !uninline(pr, t) {
		return nil
	}
	for _, x := range *host {
		if x.Decl == d {
			return nil
		}
	}
	*host = append(append([]*AnnApply{}, *host...), a)
	useLib(f, d.Frag, 500+n)
	ft.at = func() []where { return []where{{f.Path, a.Line, a.End}} }
	return ft
}

func init() {
	register(&Check{ID: "C11", Rule: "case = random valid project with one fault (undefined reference, malformed expression, missing type/library/data file, wrong facet value or form, bad example, default or annotation value, facets that contradict each other, the parent or the enum, custom facets) at a random place of a random file, or 2..5 faults of one phase (validation, unwrapping, references, annotations, used libraries) in declarations that do not need one another. Monitor: in four modes an error that is a stack trace; every entry names a file of the project and an existing line; for every fault an entry lies in its file between the first and the last line of the declaration (or example, annotation, uses entry) that contains it; faults that only validation looks at do not disturb parsing. Distinct: (mode, faults and places)",
		Quick: 16000, Thorough: 600000,
		Require: map[string]int{"located": 10000, "located_of_several": 2000, "several_resolve": 200, "several_uses": 100, "several_annotation": 100, "entries": 50000},
		Run:     c11Run})
}
