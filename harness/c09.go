package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/acronis/go-raml/v2"
)

// C09: an own resolver over small multi-file projects in which names and aliases collide on purpose. Every leaf type has an
// enum with one marker string that occurs nowhere else, so that which declaration a reference reached shows in the values
// that are accepted.

type nFile struct {
	path  string
	dt    bool
	uses  map[string]*nFile
	order []string // aliases
	via   map[string]string
	types []*nSlot
	anns  []*nSlot
	root  *nSlot // body of a DataType
	marks []nMark
}

type nMark struct {
	text   string
	target *nSlot
}

type nSlot struct {
	file  *nFile
	name  string
	ann   bool
	rank  int
	ctx   int
	refs  []nRef
	body  []string // lines of the declaration, "@0" "@1" where the references stand
	marks []nMark  // annotations applied to the type
	accF  func(v any) bool
	wit   []any
	facet *nSlot // sibling whose facet definitions this type uses
}

type nRef struct {
	text   string // as written in an expression; "" for an include
	target *nSlot
	incl   string
}

// resolve is the specification: the name in the same library first, then alias and name through the own uses map.
func (f *nFile) resolve(name string, ann bool) *nSlot {
	in := func(x *nFile, n string) *nSlot {
		l := x.types
		if ann {
			l = x.anns
		}
		for _, s := range l {
			if s.name == n {
				return s
			}
		}
		return nil
	}
	if !f.dt {
		if s := in(f, name); s != nil {
			return s
		}
	}
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return nil
	}
	to := f.uses[name[:i]]
	if to == nil {
		return nil
	}
	return in(to, name[i+1:])
}

// names lists every text a reference in f could have and what it means.
func (f *nFile) names(ann bool) []nMark {
	var out []nMark
	seen := map[string]bool{}
	add := func(text string) {
		if seen[text] {
			return
		}
		seen[text] = true
		if s := f.resolve(text, ann); s != nil {
			out = append(out, nMark{text, s})
		}
	}
	list := func(x *nFile) []*nSlot {
		if ann {
			return x.anns
		}
		return x.types
	}
	if !f.dt {
		for _, s := range list(f) {
			add(s.name)
		}
	}
	for _, a := range f.order {
		for _, s := range list(f.uses[a]) {
			add(a + "." + s.name)
		}
	}
	return out
}

// wayTo writes the way from one file to another in one of several equivalent forms.
func wayTo(r *Rand, from, to string, dirs []string) string {
	d := path.Dir(from)
	p, err := filepath.Rel(filepath.FromSlash(d), filepath.FromSlash(to))
	if err != nil {
		panic(err)
	}
	p = filepath.ToSlash(p)
	switch r.N(6) {
	case 0:
		return "./" + p
	case 1: // up and down again through the own directory
		if d != "." {
			return "../" + path.Base(d) + "/" + p
		}
	case 2: // through another directory of the project
		x := dirs[r.N(len(dirs))]
		rel, _ := filepath.Rel(filepath.FromSlash(d), filepath.FromSlash(x))
		back, _ := filepath.Rel(filepath.FromSlash(x), filepath.FromSlash(to))
		return filepath.ToSlash(rel) + "/" + filepath.ToSlash(back)
	case 3:
		return strings.Replace(p, "/", "//", 1)
	case 4:
		return strings.Replace(p, "/", "/./", 1)
	}
	return p
}

// contexts in which a reference to a type can stand. @0 and @1 are expressions, ! marks contexts for includes.
type nCtx struct {
	name  string
	lines []string
	refs  int
	incl  bool
	acc   func(v any, a []func(any) bool) bool
	wit   func(w [][]any) []any
}

func propOf(v any) (any, bool) {
	m, ok := v.(map[string]any)
	if !ok || len(m) != 1 {
		return nil, false
	}
	x, ok := m["p"]
	return x, ok
}

func itemOf(v any) (any, bool) {
	l, ok := v.([]any)
	if !ok || len(l) != 1 {
		return nil, false
	}
	return l[0], true
}

func mapW(ws []any, f func(any) any) []any {
	var out []any
	for _, w := range ws {
		out = append(out, f(w))
	}
	return out
}

var (
	accSame = func(v any, a []func(any) bool) bool { return a[0](v) }
	witSame = func(w [][]any) []any { return w[0] }
	accProp = func(v any, a []func(any) bool) bool { x, ok := propOf(v); return ok && a[0](x) }
	witProp = func(w [][]any) []any { return mapW(w[0], func(x any) any { return map[string]any{"p": x} }) }
	accItem = func(v any, a []func(any) bool) bool { x, ok := itemOf(v); return ok && a[0](x) }
	witItem = func(w [][]any) []any { return mapW(w[0], func(x any) any { return []any{x} }) }
	accOpt  = func(v any, a []func(any) bool) bool { return v == nil || a[0](v) }
	witOpt  = func(w [][]any) []any { return append([]any{nil}, w[0]...) }
	accUni  = func(v any, a []func(any) bool) bool { return a[0](v) || a[1](v) }
	witUni  = func(w [][]any) []any { return append(append([]any{}, w[0]...), w[1]...) }
)

var nCtxs = []nCtx{
	{"alias", []string{" @0"}, 1, false, accSame, witSame},
	{"group", []string{" ( @0 )"}, 1, false, accSame, witSame},
	{"derive", []string{"type: @0", "description: own"}, 1, false, accSame, witSame},
	{"list of parents", []string{"type: [ @0 ]"}, 1, false, accSame, witSame},
	{"optional", []string{" @0?"}, 1, false, accOpt, witOpt},
	{"array", []string{" @0[]"}, 1, false, accItem, witItem},
	{"union", []string{" @0 | @1"}, 2, false, accUni, witUni},
	{"typed union", []string{"type: (@0|@1)", "displayName: own"}, 2, false, accUni, witUni},
	{"property", []string{"properties:", "  p: @0"}, 1, false, accProp, witProp},
	{"property type", []string{"type: object", "properties:", "  p:", "    type: @0", "    displayName: own"}, 1, false, accProp, witProp},
	{"pattern property", []string{"minProperties: 1", "properties:", "  /^p$/: @0"}, 1, false, accProp, witProp},
	{"items", []string{"type: array", "items: @0"}, 1, false, accItem, witItem},
	{"items type", []string{"type: array", "items:", "  type: @0", "  description: own"}, 1, false, accItem, witItem},
	{"nested", []string{"properties:", "  p:", "    type: array", "    items:", "      properties:", "        p: @0 | @1"}, 2, false,
		func(v any, a []func(any) bool) bool {
			x, ok := propOf(v)
			if !ok {
				return false
			}
			y, ok := itemOf(x)
			if !ok {
				return false
			}
			z, ok := propOf(y)
			return ok && (a[0](z) || a[1](z))
		},
		func(w [][]any) []any {
			return mapW(witUni(w), func(x any) any { return map[string]any{"p": []any{map[string]any{"p": x}}} })
		}},
	{"include", []string{" !include @0"}, 1, true, accSame, witSame},
	{"type include", []string{"type: !include @0", "description: own"}, 1, true, accSame, witSame},
	{"property include", []string{"properties:", "  p: !include @0"}, 1, true, accProp, witProp},
	{"items include", []string{"type: array", "items: !include @0"}, 1, true, accItem, witItem},
}

type nProject struct {
	files []*nFile
	dirs  []string
	slots []*nSlot
	data  map[string]string // further files: data of included examples
}

func isObj(v any) bool { _, ok := v.(map[string]any); return ok }

func genNames(r *Rand) *nProject {
	np := &nProject{data: map[string]string{}}
	allDirs := []string{".", "lib", "lib/lib", "a", "a.b", "x y", "Lib", "A"}
	nl, nd := r.Range(2, 6), r.N(4)
	names := []string{"A", "B", "AA", "a", "l.A", "m.B", "A.B", "l.m.A", "T_1", "t_1", "b"}
	aliases := []string{"l", "m", "L", "l.m", "A", "a"}
	bases := []string{"main", "lib", "A", "types", "l", "Main", "LIB", "a"}
	if r.P(40) { // characters that mean something elsewhere
		bases = append(bases, r.Pick("l#1", "l?q=1", "l%41", "ü", "l:b", "l+b", "l~", "l$HOME", "l.raml", "..l", "l ", "l\\A", "l*"))
	}
	used := map[string]bool{}
	fresh := func(ext string) string {
		for {
			p := path.Join(allDirs[r.N(len(allDirs))], bases[r.N(len(bases))]+ext)
			if !used[p] {
				used[p] = true
				return p
			}
			bases = append(bases, fmt.Sprintf("f%d", len(bases)))
		}
	}
	dirs := map[string]bool{}
	for i := 0; i < nl+nd; i++ {
		f := &nFile{path: fresh(".raml"), dt: i >= nl, uses: map[string]*nFile{}, via: map[string]string{}}
		np.files = append(np.files, f)
		dirs[path.Dir(f.path)] = true
	}
	for d := range dirs {
		np.dirs = append(np.dirs, d)
	}
	sort.Strings(np.dirs)
	for i, f := range np.files {
		for _, k := range r.Perm(len(aliases))[:r.Range(1, 4)] {
			to := np.files[r.N(nl)]
			if i == 0 && len(f.order) < 2 {
				to = np.files[1%nl]
			}
			a := aliases[k]
			f.uses[a] = to
			f.order = append(f.order, a)
			f.via[a] = wayTo(r, f.path, to.path, np.dirs)
		}
		if f.dt {
			f.root = &nSlot{file: f, name: path.Base(f.path)}
			np.slots = append(np.slots, f.root)
			continue
		}
		for _, k := range r.Perm(len(names))[:r.Range(2, 5)] {
			f.types = append(f.types, &nSlot{file: f, name: names[k]})
		}
		for _, k := range r.Perm(len(names))[:r.Range(0, 3)] {
			f.anns = append(f.anns, &nSlot{file: f, name: names[k], ann: true})
		}
		np.slots = append(np.slots, f.types...)
		np.slots = append(np.slots, f.anns...)
	}
	// every library is used by an earlier file
	for i := 1; i < nl; i++ {
		f := np.files[r.N(i)]
		ok := false
		for _, a := range f.order {
			ok = ok || f.uses[a] == np.files[i]
		}
		if !ok {
			a := fmt.Sprintf("u%d", i)
			f.uses[a], f.order = np.files[i], append(f.order, a)
			f.via[a] = wayTo(r, f.path, np.files[i].path, np.dirs)
		}
	}
	for i, k := range r.Perm(len(np.slots)) {
		np.slots[i].rank = k
	}
	sorted := append([]*nSlot{}, np.slots...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i].rank < sorted[j].rank })
	for _, s := range sorted {
		np.fill(r, s)
	}
	np.mark(r)
	return np
}

// candidates are the references s may make: to bodies that are complete.
func (np *nProject) candidates(s *nSlot) (names, incls []nMark) {
	for _, m := range s.file.names(false) {
		if m.target.accF != nil && m.target != s {
			names = append(names, m)
		}
	}
	for _, f := range np.files {
		if f.dt && f.root.accF != nil && f != s.file {
			incls = append(incls, nMark{"", f.root})
		}
	}
	return
}

func (np *nProject) fill(r *Rand, s *nSlot) {
	names, incls := np.candidates(s)
	k := r.N(len(nCtxs))
	if nCtxs[k].incl && len(incls) == 0 {
		k = r.N(14)
	}
	ctx := nCtxs[k]
	if (ctx.incl && len(incls) == 0) || (!ctx.incl && len(names) == 0) || r.P(20) || (s.file.dt && strings.HasPrefix(ctx.lines[0], " ") && ctx.incl) {
		np.leaf(r, s)
		return
	}
	s.ctx = k
	var acc []func(any) bool
	var wit [][]any
	for i := 0; i < ctx.refs; i++ {
		ref := nRef{}
		if ctx.incl {
			ref.target = incls[r.N(len(incls))].target
			ref.incl = wayTo(r, s.file.path, ref.target.file.path, np.dirs)
		} else {
			m := names[r.N(len(names))]
			if len(m.target.wit) > 12 {
				np.leaf(r, s)
				return
			}
			ref.text, ref.target = m.text, m.target
		}
		s.refs = append(s.refs, ref)
		acc = append(acc, ref.target.accF)
		wit = append(wit, ref.target.wit)
	}
	s.accF = func(v any) bool { return ctx.acc(v, acc) }
	s.wit = ctx.wit(wit)
	for _, l := range ctx.lines {
		for i, ref := range s.refs {
			x := ref.text
			if ctx.incl {
				x = ref.incl
			}
			l = strings.ReplaceAll(l, fmt.Sprintf("@%d", i), x)
		}
		s.body = append(s.body, l)
	}
	if s.file.dt && strings.HasPrefix(s.body[0], " ") {
		s.body[0] = "type:" + s.body[0]
	}
}

func (np *nProject) leaf(r *Rand, s *nSlot) {
	m := fmt.Sprintf("m%d", s.rank)
	s.ctx = -1
	s.refs = nil
	s.accF = func(v any) bool { return v == m }
	s.wit = []any{m}
	s.body = []string{"type: string", "enum: [" + m + "]"}
	switch r.N(5) {
	case 2: // an example in a file that includes its value, each relative to the file that mentions it
		p := path.Join(np.dirs[r.N(len(np.dirs))], fmt.Sprintf("ex%d.yaml", s.rank%3))
		q := path.Join(np.dirs[r.N(len(np.dirs))], fmt.Sprintf("part%d", s.rank%3)+r.Pick(".txt", ".yaml", ".yml"))
		_, t1 := np.data[p]
		_, t2 := np.data[q]
		if !t1 && !t2 {
			np.data[p], np.data[q] = "!include "+wayTo(r, p, q, np.dirs), m
			s.body = append(s.body, "example: !include "+wayTo(r, s.file.path, p, np.dirs))
		}
	case 0: // an example in a file next to the declaration: every directory has one of the same name
		p := path.Join(path.Dir(s.file.path), fmt.Sprintf("ex%d.raml", s.rank%3))
		if _, taken := np.data[p]; !taken {
			np.data[p] = "#%RAML 1.0 NamedExample\none: " + m + "\ntwo:\n  value: " + m + "\n"
			s.body = append(s.body, "examples: !include "+wayTo(r, s.file.path, p, np.dirs))
		}
	case 1:
		p := path.Join(path.Dir(s.file.path), fmt.Sprintf("ex%d.txt", s.rank%2))
		if _, taken := np.data[p]; !taken {
			np.data[p] = m
			s.body = append(s.body, "example: !include "+wayTo(r, s.file.path, p, np.dirs))
		}
	}
}

// mark applies annotations to types and libraries.
func (np *nProject) mark(r *Rand) {
	for _, f := range np.files {
		ms := f.names(true)
		if len(ms) == 0 {
			continue
		}
		if !f.dt && r.P(60) {
			f.marks = append(f.marks, ms[r.N(len(ms))])
		}
		for _, s := range append(append([]*nSlot{}, f.types...), f.root) {
			if s == nil || strings.HasPrefix(s.body[0], " ") || !r.P(50) {
				continue
			}
			s.marks = append(s.marks, ms[r.N(len(ms))])
			if r.P(30) {
				if x := ms[r.N(len(ms))]; x.text != s.marks[0].text {
					s.marks = append(s.marks, x)
				}
			}
		}
	}
}

// flow writes a value as a YAML flow node; quoting follows JSON.
func flow(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return strings.ReplaceAll(strings.ReplaceAll(string(b), ":", ": "), ",", ", ")
}

type nEdit struct {
	slot  *nSlot // body replaced
	body  []string
	mark  *nMark // value replaced by val, in file or slot
	file  *nFile
	val   any
	usesF *nFile // alias gets another path
	alias string
	path  string
}

func (np *nProject) render(e nEdit) map[string]string {
	out := map[string]string{}
	for p, s := range np.data {
		out[p] = s
	}
	for _, f := range np.files {
		var b strings.Builder
		w := func(ind int, s string) { b.WriteString(strings.Repeat("  ", ind) + s + "\n") }
		mark := func(ind int, own *nSlot, ms []nMark) {
			for i, m := range ms {
				v := m.target.wit[0]
				if e.mark == &ms[i] {
					v = e.val
				}
				w(ind, "("+m.text+"): "+flow(v))
			}
		}
		bodyOf := func(s *nSlot) []string {
			if e.slot == s {
				return e.body
			}
			return s.body
		}
		decl := func(ind int, s *nSlot) {
			body := bodyOf(s)
			if strings.HasPrefix(body[0], " ") {
				w(ind, s.name+":"+body[0])
				return
			}
			w(ind, s.name+":")
			for _, l := range body {
				w(ind+1, l)
			}
			mark(ind+1, s, s.marks)
		}
		if f.dt {
			w(0, "#%RAML 1.0 DataType")
		} else {
			w(0, "#%RAML 1.0 Library")
		}
		if len(f.order) > 0 {
			w(0, "uses:")
			for _, a := range f.order {
				p := f.via[a]
				if e.usesF == f && e.alias == a {
					p = e.path
				}
				w(1, a+": "+p)
			}
		}
		if f.dt {
			for _, l := range bodyOf(f.root) {
				w(0, l)
			}
			mark(0, f.root, f.root.marks)
		} else {
			mark(0, nil, f.marks)
			if len(f.anns) > 0 {
				w(0, "annotationTypes:")
				for _, s := range f.anns {
					decl(1, s)
				}
			}
			w(0, "types:")
			for _, s := range f.types {
				decl(1, s)
			}
		}
		out[f.path] = b.String()
	}
	return out
}

func (np *nProject) reached() map[*nFile]bool {
	seen := map[*nFile]bool{}
	var rec func(f *nFile)
	rec = func(f *nFile) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, t := range f.uses {
			rec(t)
		}
		for _, s := range append(append(append([]*nSlot{}, f.types...), f.anns...), f.root) {
			if s == nil {
				continue
			}
			for _, x := range s.refs {
				if x.incl != "" {
					rec(x.target.file)
				}
			}
		}
	}
	rec(np.files[0])
	return seen
}

// open parses the entry in one of the forms in which it can be given.
func nOpen(r *Rand, root, entry string, mode int) (*raml.RAML, func(string) string, error) {
	o := opts(mode&1 != 0, mode&2 != 0)
	abs := func(p string) string { return filepath.Join(root, filepath.FromSlash(p)) }
	switch form := r.N(6); form {
	case 0:
		b, err := os.ReadFile(abs(entry))
		if err != nil {
			panic(err)
		}
		// the file on disk says something else: the text that was given is the entry
		if err := os.WriteFile(abs(entry), []byte("#%RAML 1.0 Library\ntypes:\n  Wrong: string\n"), 0o644); err != nil {
			panic(err)
		}
		defer func() { _ = os.WriteFile(abs(entry), b, 0o644) }()
		x, err := raml.ParseFromString(string(b), path.Base(entry), filepath.Dir(abs(entry)), o...)
		return x, abs, err
	case 1, 2: // relative to the current directory
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		defer func() { _ = os.Chdir(wd) }()
		if err := os.Chdir(root); err != nil {
			panic(err)
		}
		p := entry
		if form == 2 {
			p = "./" + entry
		}
		x, err := raml.ParseFromPath(p, o...)
		return x, abs, err
	case 3: // not in the shortest form
		d, b := filepath.Split(abs(entry))
		x, err := raml.ParseFromPath(d+"./"+b, o...)
		return x, abs, err
	}
	x, err := raml.ParseFromPath(abs(entry), o...)
	return x, abs, err
}

func c09Run(c *Case) {
	r := c.R
	np := genNames(r)
	entry := np.files[0]
	if r.P(15) {
		for _, f := range np.files {
			if f.dt {
				entry = f
				np.files[0], entry = entry, np.files[0]
				break
			}
		}
		for i, f := range np.files[1:] {
			if f == np.files[0] {
				np.files[i+1] = entry
			}
		}
		entry = np.files[0]
	}
	reached := np.reached()
	files := np.render(nEdit{})
	c.Source(files)
	root := c.newRoot()
	writeFiles(root, files)
	text := func() string { return clip(allFiles(files), 3000) }
	// the values whose verdict tells the declarations apart
	var wits []any
	for _, s := range np.slots {
		wits = append(wits, s.wit[r.N(len(s.wit))])
	}
	for mode := 0; mode < 4; mode++ {
		x, loc, err := nOpen(r, root, entry.path, mode)
		c.Eval(1)
		if err != nil {
			c.Violate("valid project rejected (mode %d): %v\n%s", mode, err, text())
			return
		}
		byPath := map[*nFile]raml.Fragment{}
		for f := range reached {
			fr := x.GetFragment(loc(f.path))
			if fr == nil {
				c.Violate("no fragment at %s (mode %d)\n%s", loc(f.path), mode, text())
				return
			}
			byPath[f] = fr
		}
		if x.EntryPoint() != byPath[entry] {
			c.Violate("the entry point and the fragment at its path differ (mode %d)\n%s", mode, text())
			return
		}
		for f := range reached {
			var uses = map[string]*raml.LibraryLink{}
			switch fr := byPath[f].(type) {
			case *raml.Library:
				if f.dt {
					c.Violate("%s is not a library", f.path)
					return
				}
				for p := fr.Uses.Oldest(); p != nil; p = p.Next() {
					uses[p.Key] = p.Value
				}
				if fr.Types.Len() != len(f.types) || fr.AnnotationTypes.Len() != len(f.anns) {
					c.Violate("%s has %d types and %d annotation types", f.path, fr.Types.Len(), fr.AnnotationTypes.Len())
					return
				}
			case *raml.DataType:
				if !f.dt {
					c.Violate("%s is not a data type", f.path)
					return
				}
				for p := fr.Uses.Oldest(); p != nil; p = p.Next() {
					uses[p.Key] = p.Value
				}
			}
			if len(uses) != len(f.uses) {
				c.Violate("%s has %d uses instead of %d", f.path, len(uses), len(f.uses))
				return
			}
			for a, t := range f.uses {
				l := uses[a]
				c.Eval(1)
				if l == nil || raml.Fragment(l.Link) != byPath[t] {
					c.Violate("alias %s of %s does not lead to the fragment of %s (mode %d)\n%s", a, f.path, t.path, mode, text())
					return
				}
				c.Count("links_checked", 1)
			}
		}
		// the values of a second, unwrapped load when this one is not
		get := func(s *nSlot) *raml.BaseShape {
			switch fr := byPath[s.file].(type) {
			case *raml.Library:
				m := fr.Types
				if s.ann {
					m = fr.AnnotationTypes
				}
				b, _ := m.Get(s.name)
				return b
			case *raml.DataType:
				return fr.Shape
			}
			return nil
		}
		probe := func(what string, b *raml.BaseShape, s *nSlot, all bool) bool {
			for i, v := range wits {
				if !all && i%3 != 0 {
					continue
				}
				err := b.Validate(v)
				c.Eval(1)
				c.Count("verdicts", 1)
				if (err == nil) != s.accF(v) {
					c.Violate("%s: value %s: expected accepted=%v, got %v (mode %d)\n%s", what, jsonText(v), s.accF(v), err, mode, text())
					return false
				}
			}
			return true
		}
		for _, s := range np.slots {
			if !reached[s.file] {
				continue
			}
			b := get(s)
			if b == nil {
				c.Violate("%s of %s is missing", s.name, s.file.path)
				return
			}
			if mode&1 == 0 {
				// what a reference means does not wait for unwrapping: a plain alias is its target
				if s.ctx == 0 && b.Alias != nil {
					if b.Alias != get(s.refs[0].target) {
						c.Violate("%s of %s: alias of another declaration than %s\n%s", s.name, s.file.path, s.refs[0].text, text())
						return
					}
					c.Count("aliases_checked", 1)
				}
				for _, m := range s.marks {
					de, ok := b.CustomDomainProperties.Get(m.text)
					if !ok || de.DefinedBy != get(m.target) {
						c.Violate("annotation %s of %s in %s is not defined by its declaration\n%s", m.text, s.name, s.file.path, text())
						return
					}
					c.Count("annotations_checked", 1)
				}
				continue
			}
			if !probe(fmt.Sprintf("%s of %s", s.name, s.file.path), b, s, true) {
				return
			}
			if s.ctx >= 0 {
				c.Count("references_checked", len(s.refs))
				kind := "type"
				if s.ann {
					kind = "annotation type"
				} else if s.file.dt {
					kind = "DataType"
				}
				for _, ref := range s.refs {
					c.Key(nCtxs[s.ctx].name, kind, fmt.Sprint(strings.Count(ref.text, "."), ref.target.file == s.file, ref.target.ctx, strings.Count(ref.incl, "..")))
				}
			}
			for _, m := range s.marks {
				if de, ok := b.CustomDomainProperties.Get(m.text); ok && de.DefinedBy != nil {
					if !probe("annotation type "+m.text, de.DefinedBy, m.target, false) {
						return
					}
				}
			}
		}
		for f := range reached {
			if lib, ok := byPath[f].(*raml.Library); ok {
				for _, m := range f.marks {
					de, ok := lib.CustomDomainProperties.Get(m.text)
					if !ok || de.DefinedBy == nil || (mode&1 == 0 && de.DefinedBy != get(m.target)) {
						c.Violate("annotation %s of library %s is not defined by its declaration (mode %d)\n%s", m.text, f.path, mode, text())
						return
					}
					c.Count("annotations_checked", 1)
				}
			}
		}
	}
	c.Count("projects", 1)
	if c.Idx < 3 {
		c.Sample(clip(allFiles(files), 1500))
	}
	for i := 0; i < 4; i++ {
		if !c.badReference(r.Fork(fmt.Sprint("neg", i)), np, reached) {
			return
		}
	}
}

// badReference replaces one reference by one that must not resolve, or one file by one of a wrong kind.
func (c *Case) badReference(r *Rand, np *nProject, reached map[*nFile]bool) bool {
	var slots []*nSlot
	var fs []*nFile
	for _, f := range np.files {
		if reached[f] {
			fs = append(fs, f)
		}
	}
	for _, s := range np.slots {
		if reached[s.file] {
			slots = append(slots, s)
		}
	}
	s := slots[r.N(len(slots))]
	f := s.file
	parse := true
	what := ""
	e := nEdit{}
	put := func(name string) bool {
		if f.resolve(name, false) != nil {
			return false
		}
		k := r.N(14)
		ctx := nCtxs[k]
		e.slot = s
		names, _ := np.candidates(s)
		bad := r.N(ctx.refs)
		for _, l := range ctx.lines {
			for i := 0; i < ctx.refs; i++ {
				x := name
				if i != bad {
					x = "string"
					if len(names) > 0 {
						x = names[r.N(len(names))].text
					}
				}
				l = strings.ReplaceAll(l, fmt.Sprintf("@%d", i), x)
			}
			e.body = append(e.body, l)
		}
		if f.dt && strings.HasPrefix(e.body[0], " ") {
			e.body[0] = "type:" + e.body[0]
		}
		what += fmt.Sprintf(" %s in context %s of %s in %s", name, ctx.name, s.name, f.path)
		return true
	}
	putMark := func(name string) bool {
		if f.resolve(name, true) != nil {
			return false
		}
		body := s.body
		if strings.HasPrefix(body[0], " ") {
			body = []string{"type:" + body[0]}
		}
		e.slot, e.body = s, append(append([]string{}, body...), "("+name+"): "+[]string{"m1", "{}", ""}[r.N(3)])
		what += fmt.Sprintf(" annotation %s of %s in %s", name, s.name, f.path)
		return true
	}
	putIncl := func(p string) {
		var ctx nCtx
		for {
			ctx = nCtxs[14+r.N(len(nCtxs)-14)]
			if !(f.dt && strings.HasPrefix(ctx.lines[0], " ")) {
				break
			}
		}
		e.slot = s
		for _, l := range ctx.lines {
			e.body = append(e.body, strings.ReplaceAll(l, "@0", p))
		}
	}
	any := np.files[r.N(len(np.files))]
	ok := false
	switch k := r.N(13); k {
	case 0:
		what = "name that is declared elsewhere only:"
		for _, x := range np.slots {
			if x.file != f && !x.ann && !x.file.dt && f.resolve(x.name, false) == nil {
				ok = put(x.name)
				break
			}
		}
	case 1:
		what = "alias of another file:"
		for _, g := range np.files {
			for _, a := range g.order {
				if _, has := f.uses[a]; !has && len(g.uses[a].types) > 0 && !ok {
					ok = put(a + "." + g.uses[a].types[0].name)
				}
			}
		}
	case 2:
		what = "name that the library sees only through its own uses:"
		for _, a := range f.order {
			for _, a2 := range f.uses[a].order {
				for _, t := range f.uses[a].uses[a2].types {
					if f.resolve(a+"."+t.name, false) == nil && !ok {
						what = "transitive name:"
						ok = put(a + "." + t.name)
					}
				}
			}
		}
	case 3:
		what = "chain of aliases:"
		for _, a := range f.order {
			for _, a2 := range f.uses[a].order {
				for _, t := range f.uses[a].uses[a2].types {
					if f.resolve(a+"."+a2+"."+t.name, false) == nil && !ok && r.P(40) {
						// not a dotted name of the first library either
						if (&nFile{uses: map[string]*nFile{}, types: f.uses[a].types}).resolve(a2+"."+t.name, false) == nil {
							ok = put(a + "." + a2 + "." + t.name)
						}
					}
				}
			}
		}
	case 4:
		what = "annotation type used as a type:"
		for _, m := range f.names(true) {
			if f.resolve(m.text, false) == nil {
				ok = put(m.text)
				break
			}
		}
	case 5:
		what = "type used as an annotation type:"
		for _, m := range f.names(false) {
			if f.resolve(m.text, true) == nil && !s.ann {
				ok = putMark(m.text)
				break
			}
		}
	case 6:
		what = "unknown name:"
		a := ""
		if len(f.order) > 0 && r.P(50) {
			a = f.order[r.N(len(f.order))] + "."
		}
		ok = put(a + r.Pick("Nope", "b", "Aa", "A.", ".A", "A.B.C.D", "l", "m."))
	case 7:
		what = "include of a library"
		g := np.files[0]
		for _, x := range fs {
			if !x.dt && r.P(60) {
				g = x
			}
		}
		if g.dt {
			break
		}
		putIncl(wayTo(r, f.path, g.path, np.dirs))
		ok = true
	case 8:
		what = "include of a missing file"
		putIncl(r.Pick("nosuch.raml", "../nosuch.raml", path.Base(any.path)+"x", "a/b/c/d.raml"))
		ok = true
	case 9, 10:
		f = fs[r.N(len(fs))]
		if len(f.order) == 0 {
			break
		}
		e.usesF, e.alias = f, f.order[r.N(len(f.order))]
		e.path = r.Pick("nosuch.raml", "lib", ".", "../nosuch/x.raml", "uses.raml")
		what = fmt.Sprintf("uses of %s: alias %s leads to %s", f.path, e.alias, e.path)
		ok = true
		for _, g := range np.files {
			if k == 9 && g.dt {
				e.path = wayTo(r, f.path, g.path, np.dirs)
				what = "uses of a data type"
			}
			if p := path.Join(path.Dir(f.path), e.path); k == 10 && g.path == p {
				ok = false
			}
		}
		for _, d := range np.dirs {
			if k == 10 && d == "lib" {
				what += " (a directory)"
			}
		}
	case 11:
		what = "annotation value of a same-named annotation type"
		parse = false
		type cand struct {
			m *nMark
			v interface{}
		}
		var cs []cand
		for _, x := range fs {
			lists := [][]nMark{x.marks}
			for _, t := range append(append([]*nSlot{}, x.types...), x.root) {
				if t != nil {
					lists = append(lists, t.marks)
				}
			}
			for _, l := range lists {
				for i := range l {
					for _, o := range np.slots {
						if o.ann && o != l[i].target && !l[i].target.accF(o.wit[0]) && o.name == l[i].target.name {
							cs = append(cs, cand{&l[i], o.wit[0]})
						}
					}
				}
			}
		}
		if len(cs) > 0 {
			x := cs[r.N(len(cs))]
			e.mark, e.val = x.m, x.v
			what += ": " + x.m.text
			ok = true
		}
	case 12:
		what = "unknown annotation:"
		if !s.ann {
			ok = putMark(r.Pick("Nope", "x.A", "A.x", "B.B", "l"))
		}
	}
	if !ok {
		return true
	}
	files := np.render(e)
	c.Source(files)
	root := c.newRoot()
	writeFiles(root, files)
	for mode := 0; mode < 4; mode++ {
		if !parse && mode&2 == 0 {
			continue
		}
		_, _, err := nOpen(r, root, np.files[0].path, mode)
		c.Eval(1)
		if err == nil {
			c.Violate("%s: accepted (mode %d)\n%s", what, mode, clip(allFiles(files), 3000))
			return false
		}
	}
	c.Count("bad_references_reported", 1)
	c.Key("negative", strings.SplitN(what, ":", 2)[0], fmt.Sprint(f.dt))
	return true
}

func init() {
	register(&Check{ID: "C09", Rule: "case = random project of 2-6 libraries and 0-3 DataType fragments in several directories whose type names, annotation type names, dotted names and uses aliases collide on purpose (diamonds, circular uses, equal base names, paths written in several forms); which declaration each reference reached is observed through marker enums, alias and annotation pointers and fragment identity, in 4 processing modes and 5 ways to give the entry point, and compared with an own resolver; plus up to 4 edits per project that must not resolve. Distinct: (context, kind of declaration, form of the reference) and kinds of negatives",
		Quick: 4000, Thorough: 100000,
		Require: map[string]int{"projects": 3000, "references_checked": 20000, "verdicts": 500000, "links_checked": 20000, "annotations_checked": 3000, "bad_references_reported": 5000, "aliases_checked": 1000},
		Run:     c09Run})
}
