package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"path"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

// ---------------------------------------------------------------- abstract RAML projects

type Project struct {
	Frags []*Frag // Frags[0] is the entry point
	Data  map[string]string
}

type FragKind int

const (
	FLibrary FragKind = iota
	FDataType
	FJSON // JSON Schema file included as a data type
)

type Frag struct {
	Kind  FragKind
	Path  string // relative to the project root
	Uses  []*Use
	Anns  []*Decl
	Types []*Decl
	DT    *TNode // DataType fragment
	Apply []*AnnApply
	Usage string
	Lines map[string]int
}

type Use struct {
	Alias string
	To    *Frag
	Path  string // overrides the printed path
	Line  int
}

type Decl struct {
	Name string
	T    *TNode
	Frag *Frag
	Ann  bool
}

type RefKind int

const (
	RBuiltin RefKind = iota
	RNamed
	RArray
	ROpt
	RUnion
	RGroup
	RMulti
	RInclude
	RJSON
	RRaw // verbatim text (fault injection)
)

type TRef struct {
	K    RefKind
	Name string // builtin or raw text
	Decl *Decl
	Sub  []*TRef
	Frag *Frag
}

type Prop struct {
	Name     string
	Pattern  bool
	Required bool
	Style    int // 0: key alone ("name" / "name?"), 1: explicit required facet, 2: key alone even if the name ends in "?"
	T        *TNode
}

// explicit tells that the required facet is written down: a required name ends in a question mark only then.
func (p *Prop) explicit() bool {
	return p.Style == 1 || strings.HasSuffix(p.Name, "?") && (p.Style != 2 || p.Required)
}

type CF struct {
	Name string
	V    any
	Line int
	Form int // see emitVal
	Raw  string
	File string
	End  int
}

type AnnApply struct {
	Decl *Decl
	Name string // as written, set when printed
	V    any
	Line int
	Raw  string
	Form int // as of Ex
	File string
	End  int
}

type Ex struct {
	Name   string // "" for example
	V      any
	Form   int // 3: wrapped in value:, else see emitVal
	Inner  int // form of the wrapped value
	Raw    string
	Line   int
	File   string
	Strict *bool
	DispNm *string
	Descr  *string
	Annots []*AnnApply
	End    int
	InFile string // file the declaration is printed in
}

// TNode is one type declaration occurrence.
type TNode struct {
	Ref    *TRef // nil: kind determined by facets
	Inline bool  // printed as a scalar
	Null   bool  // printed as a null scalar (string)

	DisplayName, Description *string
	Example                  *Ex
	Examples                 []*Ex
	NamedEx                  bool // examples are in a NamedExample fragment
	NamedFile                string
	Default                  *Ex
	FacetDefs                []*Prop
	Custom                   []*CF
	Annots                   []*AnnApply
	RequiredFacet            *bool

	MinLength, MaxLength *uint64
	Pattern              *string
	Enum                 []any
	HasEnum              bool
	Minimum, Maximum     *string // numeric literal text
	MultipleOf           *float64
	Format               *string
	FileTypes            []string
	Items                *TNode
	MinItems, MaxItems   *uint64
	Unique               *bool
	Props                []*Prop
	HasProps             bool
	AddlProps            *bool
	MinProps, MaxProps   *uint64
	Discriminator        *string
	DiscValue            any
	Extra                []RawFacet

	Line, Col, End int // of the declaration as printed: key line, value column, last line
	VLine          int // first line of the value
	FacetLine      map[string]int
}

type RawFacet struct {
	Key, Val string
}

func (t *TNode) hasFacets() bool { return len(facetEmitters(t)) > 0 }

func b(name string) *TRef            { return &TRef{K: RBuiltin, Name: name} }
func rn(d *Decl) *TRef               { return &TRef{K: RNamed, Decl: d} }
func arr(s *TRef) *TRef              { return &TRef{K: RArray, Sub: []*TRef{s}} }
func optT(s *TRef) *TRef             { return &TRef{K: ROpt, Sub: []*TRef{s}} }
func uni(s ...*TRef) *TRef           { return &TRef{K: RUnion, Sub: s} }
func inl(r *TRef) *TNode             { return &TNode{Ref: r, Inline: true} }
func bi(name string) *TNode          { return inl(b(name)) }
func prop(n string, t *TNode) *Prop  { return &Prop{Name: n, Required: true, T: t} }
func oprop(n string, t *TNode) *Prop { return &Prop{Name: n, T: t} }
func pt[T any](v T) *T               { return &v }
func obj(ps ...*Prop) *TNode         { return &TNode{Props: ps, HasProps: true} }
func (f *Frag) add(n string, t *TNode) *Decl {
	d := &Decl{Name: n, T: t, Frag: f}
	f.Types = append(f.Types, d)
	return d
}
func (f *Frag) ann(n string, t *TNode) *Decl {
	d := &Decl{Name: n, T: t, Frag: f, Ann: true}
	f.Anns = append(f.Anns, d)
	return d
}

// ---------------------------------------------------------------- printing

type Style struct {
	R       *Rand // nil: canonical layout
	CRLF    bool
	Step    int
	Shuffle bool // shuffle facet keys
	Noise   bool // comments, blank lines, quoting variants
}

type printer struct {
	b    bytes.Buffer
	line int
	sty  Style
	frag *Frag
	data map[string]string
	nl   string
	mark []*int // receive the number of the next line
}

var plainKey = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_.?-]*$`)
var reservedPlain = map[string]bool{"null": true, "Null": true, "NULL": true, "true": true, "false": true, "True": true, "False": true, "TRUE": true, "FALSE": true, "yes": true, "no": true, "on": true, "off": true, "y": true, "n": true, "Y": true, "N": true}

func yq(s string) string {
	var w bytes.Buffer
	e := json.NewEncoder(&w)
	e.SetEscapeHTML(false)
	_ = e.Encode(s)
	return strings.TrimSuffix(w.String(), "\n")
}

func jsonText(v any) string {
	var w bytes.Buffer
	e := json.NewEncoder(&w)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return strings.TrimSuffix(w.String(), "\n")
}

func (p *printer) key(k string) string {
	if plainKey.MatchString(k) && !reservedPlain[k] {
		if p.sty.Noise && p.sty.R.P(10) {
			if p.sty.R.P(50) {
				return "'" + k + "'"
			}
			return yq(k)
		}
		return k
	}
	if strings.HasPrefix(k, "(") && plainKey.MatchString(strings.Trim(k, "()")) {
		return k
	}
	return yq(k)
}

func (p *printer) ln(ind int, s string) int {
	if p.sty.Noise && p.sty.R.P(6) {
		switch p.sty.R.N(3) {
		case 0:
			p.b.WriteString(p.nl)
		case 1:
			p.b.WriteString(strings.Repeat(" ", ind) + "# noise: {a: [b" + p.nl)
		default:
			p.b.WriteString("# - x: y" + p.nl)
		}
		p.line++
	}
	p.line++
	for _, m := range p.mark {
		*m = p.line
	}
	p.mark = nil
	p.b.WriteString(strings.Repeat(" ", ind) + s)
	if p.sty.Noise && p.sty.R.P(4) {
		p.b.WriteString(" # c")
	}
	p.b.WriteString(p.nl)
	return p.line
}

func (p *printer) str(s string) string {
	if p.sty.Noise && p.sty.R.P(40) && plainKey.MatchString(s) && !reservedPlain[s] {
		if p.sty.R.P(50) {
			return s
		}
		return "'" + s + "'"
	}
	return yq(s)
}

// relPath is the path by which file `from` names file `to`.
func relPath(from, to string) string {
	fd := strings.Split(path.Dir(from), "/")
	td := strings.Split(path.Dir(to), "/")
	if path.Dir(from) == "." {
		fd = nil
	}
	if path.Dir(to) == "." {
		td = nil
	}
	i := 0
	for i < len(fd) && i < len(td) && fd[i] == td[i] {
		i++
	}
	var out []string
	for range fd[i:] {
		out = append(out, "..")
	}
	out = append(out, td[i:]...)
	out = append(out, path.Base(to))
	return strings.Join(out, "/")
}

func (f *Frag) aliasOf(to *Frag) (string, bool) {
	for _, u := range f.Uses {
		if u.To == to {
			return u.Alias, true
		}
	}
	return "", false
}

func exprText(f *Frag, t *TRef, sty *Style) string {
	sp := func() string {
		if sty != nil && sty.Noise {
			return strings.Repeat(" ", sty.R.N(3))
		}
		return ""
	}
	switch t.K {
	case RBuiltin, RRaw, RJSON:
		return t.Name
	case RNamed:
		if t.Decl.Frag == f && f.Kind == FLibrary {
			return t.Decl.Name
		}
		a, ok := f.aliasOf(t.Decl.Frag)
		if !ok {
			panic("no alias in " + f.Path + " for " + t.Decl.Frag.Path)
		}
		return a + "." + t.Decl.Name
	case RArray, ROpt:
		s := exprText(f, t.Sub[0], sty)
		switch t.Sub[0].K {
		case RArray, ROpt, RUnion:
			s = "(" + sp() + s + sp() + ")"
		}
		if t.K == RArray {
			return s + sp() + "[]"
		}
		return s + sp() + "?"
	case RUnion:
		var ss []string
		for _, x := range t.Sub {
			s := exprText(f, x, sty)
			if x.K == RUnion {
				s = "(" + s + ")"
			}
			ss = append(ss, s)
		}
		sep := " | "
		if sty != nil && sty.Noise {
			sep = sp() + "|" + sp()
		}
		return strings.Join(ss, sep)
	case RGroup:
		return "(" + sp() + exprText(f, t.Sub[0], sty) + sp() + ")"
	}
	panic("exprText")
}

func (p *printer) typeScalar(t *TRef) string {
	switch t.K {
	case RInclude:
		return "!include " + relPath(p.frag.Path, t.Frag.Path)
	case RMulti:
		var ss []string
		for _, x := range t.Sub {
			ss = append(ss, exprText(p.frag, x, &p.sty))
		}
		return "[" + strings.Join(ss, ", ") + "]"
	case RJSON:
		return yq(t.Name)
	}
	s := exprText(p.frag, t, &p.sty)
	if t.K == RRaw {
		return s
	}
	if reservedPlain[s] || (p.sty.Noise && p.sty.R.P(10)) {
		return yq(s)
	}
	return s
}

// emitType prints `key: <type>` at the given indent.
func (p *printer) emitType(ind int, key string, t *TNode) {
	t.FacetLine = map[string]int{}
	k := p.key(key) + ":"
	if t.Null {
		t.Line = p.ln(ind, k)
		t.Col, t.End, t.VLine = ind+1, t.Line, t.Line
		return
	}
	if t.Inline {
		t.Line = p.ln(ind, k+" "+p.typeScalar(t.Ref))
		t.Col, t.End, t.VLine = ind+utf8.RuneCountInString(k)+2, t.Line, t.Line
		return
	}
	if t.Ref == nil && !t.hasFacets() {
		t.Line = p.ln(ind, k+" {}")
		t.Col, t.End, t.VLine = ind+utf8.RuneCountInString(k)+2, t.Line, t.Line
		return
	}
	t.Line = p.ln(ind, k)
	t.Col = ind + p.sty.Step + 1
	p.emitBody(ind+p.sty.Step, t)
	t.End = p.line
}

func (p *printer) emitBody(ind int, t *TNode) {
	if t.FacetLine == nil {
		t.FacetLine = map[string]int{}
	}
	ems := facetEmitters(t)
	if t.Ref != nil {
		ems = append([]emitter{{"type", func(p *printer, ind int, t *TNode) {
			t.FacetLine["type"] = p.ln(ind, "type: "+p.typeScalar(t.Ref))
		}}}, ems...)
	}
	idx := make([]int, len(ems))
	for i := range idx {
		idx[i] = i
	}
	if p.sty.Shuffle {
		idx = p.sty.R.Perm(len(ems))
	}
	p.mark = append(p.mark, &t.VLine)
	for _, i := range idx {
		start := p.line + 1
		ems[i].f(p, ind, t)
		if t.FacetLine[ems[i].name] == 0 {
			t.FacetLine[ems[i].name] = start
		}
	}
}

type emitter struct {
	name string
	f    func(p *printer, ind int, t *TNode)
}

func simple(name, val string) emitter {
	return emitter{name, func(p *printer, ind int, t *TNode) { t.FacetLine[name] = p.ln(ind, p.key(name)+": "+val) }}
}

func numText(f float64) string {
	return jsonText(f)
}

func facetEmitters(t *TNode) []emitter {
	var e []emitter
	u := func(n string, v *uint64) {
		if v != nil {
			e = append(e, simple(n, fmt.Sprint(*v)))
		}
	}
	bo := func(n string, v *bool) {
		if v != nil {
			e = append(e, simple(n, fmt.Sprint(*v)))
		}
	}
	s := func(n string, v *string) {
		if v != nil {
			vv := *v
			e = append(e, emitter{n, func(p *printer, ind int, t *TNode) { t.FacetLine[n] = p.ln(ind, n+": "+p.str(vv)) }})
		}
	}
	s("displayName", t.DisplayName)
	s("description", t.Description)
	bo("required", t.RequiredFacet)
	u("minLength", t.MinLength)
	u("maxLength", t.MaxLength)
	if t.Pattern != nil {
		e = append(e, simple("pattern", yq(*t.Pattern)))
	}
	if t.Minimum != nil {
		e = append(e, simple("minimum", *t.Minimum))
	}
	if t.Maximum != nil {
		e = append(e, simple("maximum", *t.Maximum))
	}
	if t.MultipleOf != nil {
		e = append(e, simple("multipleOf", numText(*t.MultipleOf)))
	}
	s("format", t.Format)
	if t.HasEnum {
		e = append(e, emitter{"enum", func(p *printer, ind int, t *TNode) {
			if p.sty.Noise && p.sty.R.P(40) && len(t.Enum) > 0 {
				t.FacetLine["enum"] = p.ln(ind, "enum:")
				for _, v := range t.Enum {
					p.ln(ind+p.sty.Step, "- "+jsonText(v))
				}
				return
			}
			var ss []string
			for _, v := range t.Enum {
				ss = append(ss, jsonText(v))
			}
			t.FacetLine["enum"] = p.ln(ind, "enum: ["+strings.Join(ss, ", ")+"]")
		}})
	}
	if t.FileTypes != nil {
		var ss []string
		for _, v := range t.FileTypes {
			ss = append(ss, yq(v))
		}
		e = append(e, simple("fileTypes", "["+strings.Join(ss, ", ")+"]"))
	}
	u("minItems", t.MinItems)
	u("maxItems", t.MaxItems)
	bo("uniqueItems", t.Unique)
	if t.Items != nil {
		e = append(e, emitter{"items", func(p *printer, ind int, t *TNode) { p.emitType(ind, "items", t.Items) }})
	}
	u("minProperties", t.MinProps)
	u("maxProperties", t.MaxProps)
	bo("additionalProperties", t.AddlProps)
	s("discriminator", t.Discriminator)
	if t.DiscValue != nil {
		e = append(e, simple("discriminatorValue", jsonText(t.DiscValue)))
	}
	if t.HasProps {
		e = append(e, emitter{"properties", func(p *printer, ind int, t *TNode) {
			if len(t.Props) == 0 {
				t.FacetLine["properties"] = p.ln(ind, "properties: {}")
				return
			}
			t.FacetLine["properties"] = p.ln(ind, "properties:")
			p.emitProps(ind+p.sty.Step, t.Props)
		}})
	}
	if len(t.FacetDefs) > 0 {
		e = append(e, emitter{"facets", func(p *printer, ind int, t *TNode) {
			t.FacetLine["facets"] = p.ln(ind, "facets:")
			p.emitProps(ind+p.sty.Step, t.FacetDefs)
		}})
	}
	for _, c := range t.Custom {
		c := c
		e = append(e, emitter{"custom:" + c.Name, func(p *printer, ind int, t *TNode) {
			p.mark = append(p.mark, &c.Line)
			p.emitVal(ind, p.key(c.Name)+":", c.V, c.Form, c.Raw, &c.File)
			c.End = p.line
		}})
	}
	for _, a := range t.Annots {
		a := a
		e = append(e, emitter{"ann:" + a.Decl.Name, func(p *printer, ind int, t *TNode) { p.emitAnn(ind, a) }})
	}
	if t.Example != nil {
		e = append(e, emitter{"example", func(p *printer, ind int, t *TNode) { p.emitEx(ind, "example", t.Example) }})
	}
	if t.Default != nil {
		e = append(e, emitter{"default", func(p *printer, ind int, t *TNode) { p.emitEx(ind, "default", t.Default) }})
	}
	if len(t.Examples) > 0 {
		e = append(e, emitter{"examples", func(p *printer, ind int, t *TNode) {
			if t.NamedEx {
				p.emitNamed(ind, t)
				return
			}
			t.FacetLine["examples"] = p.ln(ind, "examples:")
			for _, x := range t.Examples {
				p.emitEx(ind+p.sty.Step, x.Name, x)
			}
		}})
	}
	for _, x := range t.Extra {
		x := x
		e = append(e, emitter{"extra:" + x.Key, func(p *printer, ind int, t *TNode) { t.FacetLine["extra:"+x.Key] = p.ln(ind, x.Key+": "+x.Val) }})
	}
	return e
}

func (p *printer) emitAnn(ind int, a *AnnApply) {
	name := a.Decl.Name
	if a.Decl.Frag != p.frag || p.frag.Kind == FDataType {
		al, ok := p.frag.aliasOf(a.Decl.Frag)
		if !ok {
			panic("no alias for annotation")
		}
		name = al + "." + name
	}
	a.Name = name
	if a.Raw != "" && a.Form == 0 {
		a.Line = p.ln(ind, "("+name+"): "+a.Raw)
		return
	}
	p.mark = append(p.mark, &a.Line)
	p.emitVal(ind, "("+name+"):", a.V, a.Form, a.Raw, &a.File)
	a.End = p.line
}

func (p *printer) emitProps(ind int, ps []*Prop) {
	for _, q := range ps {
		k := q.Name
		if q.Pattern {
			k = "/" + q.Name + "/"
		} else if q.explicit() {
			v := q.Required
			q.T.RequiredFacet = &v
			if q.T.Inline {
				q.T.Inline = false
			}
		} else if !q.Required {
			if q.Style == 2 {
				q.T.RequiredFacet = nil
			}
			k += "?"
		}
		p.emitType(ind, k, q.T)
	}
}

func (p *printer) emitBlock(ind int, prefix string, v any) {
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 {
			p.ln(ind, prefix+" {}")
			return
		}
		p.ln(ind, prefix)
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			p.emitBlock(ind+p.sty.Step, yq(k)+":", x[k])
		}
	case []any:
		if len(x) == 0 {
			p.ln(ind, prefix+" []")
			return
		}
		p.ln(ind, prefix)
		for _, e := range x {
			p.ln(ind+p.sty.Step, "- "+jsonText(e))
		}
	default:
		if s, ok := v.(string); ok && strings.Contains(s, "\n") {
			if raw := blockScalar(s); raw != "" {
				p.ln(ind, prefix+" "+raw)
				for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
					p.raw(ind+p.sty.Step, l)
				}
				return
			}
		}
		p.ln(ind, prefix+" "+jsonText(v))
	}
}

// emitNamed prints the examples to a NamedExample fragment.
func (p *printer) emitNamed(ind int, t *TNode) {
	q := &printer{sty: p.sty, data: p.data, nl: p.nl}
	for i := len(p.data); ; i++ {
		t.NamedFile = fmt.Sprintf("examples/ne%d.raml", i)
		if _, dup := p.data[t.NamedFile]; !dup {
			break
		}
	}
	q.frag = &Frag{Kind: FDataType, Path: t.NamedFile}
	q.b.WriteString("#%RAML 1.0 NamedExample" + p.nl)
	q.line = 1
	p.data[t.NamedFile] = ""
	for _, x := range t.Examples {
		q.emitEx(0, x.Name, x)
	}
	p.data[t.NamedFile] = q.b.String()
	t.FacetLine["examples"] = p.ln(ind, "examples: !include "+relPath(p.frag.Path, t.NamedFile))
}

func (p *printer) emitEx(ind int, key string, x *Ex) {
	p.mark = append(p.mark, &x.Line)
	x.InFile = p.frag.Path
	p.emitEx1(ind, key, x)
	x.End = p.line
}

func (p *printer) emitEx1(ind int, key string, x *Ex) {
	k := p.key(key) + ":"
	if x.Form != 3 {
		p.emitVal(ind, k, x.V, x.Form, x.Raw, &x.File)
		return
	}
	p.ln(ind, k)
	ind += p.sty.Step
	parts := []func(){}
	for _, a := range x.Annots {
		parts = append(parts, func() { p.emitAnn(ind, a) })
	}
	parts = append(parts, func() { p.emitVal(ind, "value:", x.V, x.Inner, x.Raw, &x.File) })
	if x.DispNm != nil {
		parts = append(parts, func() { p.ln(ind, "displayName: "+yq(*x.DispNm)) })
	}
	if x.Descr != nil {
		parts = append(parts, func() { p.ln(ind, "description: "+yq(*x.Descr)) })
	}
	if x.Strict != nil {
		parts = append(parts, func() { p.ln(ind, fmt.Sprintf("strict: %v", *x.Strict)) })
	}
	if p.sty.Shuffle {
		for i := len(parts) - 1; i > 0; i-- {
			j := p.sty.R.N(i + 1)
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	for _, f := range parts {
		f()
	}
}

func (p *printer) dataFile(ext, text string) string {
	name := fmt.Sprintf("data/ex%d%s", len(p.data), ext)
	for {
		if _, dup := p.data[name]; !dup {
			break
		}
		name = "data/x" + path.Base(name)
	}
	p.data[name] = text
	return name
}

// emitVal prints a data value. Forms: 0 flow, 1 block, 2 JSON text, 4 included JSON, 5 included YAML, 6 other spelling
// (raw), 7 block with a member in an included file, 8 block scalar, 9 included text, 11 included YAML that includes a member.
func (p *printer) emitVal(ind int, k string, v any, form int, raw string, file *string) {
	switch form {
	case 1:
		p.emitBlock(ind, k, v)
	case 2:
		t := jsonText(v)
		p.ln(ind, k+" '"+strings.ReplaceAll(t, "'", "''")+"'")
	case 4, 5:
		ext := ".json"
		if form == 5 {
			ext = ".yaml"
			if len(p.data)%2 == 1 {
				ext = ".yml"
			}
		}
		if raw == "" || form == 4 {
			raw = jsonText(v)
		}
		*file = p.dataFile(ext, raw+"\n")
		p.ln(ind, k+" !include "+relPath(p.frag.Path, *file))
	case 6:
		p.ln(ind, k+" "+raw)
	case 7:
		inc := func(v any) string {
			*file = p.dataFile(".yaml", jsonText(v)+"\n")
			return "!include " + relPath(p.frag.Path, *file)
		}
		p.ln(ind, k)
		switch x := v.(type) {
		case map[string]any:
			for i, n := range sortedNames(x) {
				if i == len(raw)%len(x) {
					p.ln(ind+p.sty.Step, yq(n)+": "+inc(x[n]))
				} else {
					p.emitBlock(ind+p.sty.Step, yq(n)+":", x[n])
				}
			}
		case []any:
			for i, y := range x {
				if i == len(raw)%len(x) {
					p.ln(ind+p.sty.Step, "- "+inc(y))
				} else {
					p.ln(ind+p.sty.Step, "- "+jsonText(y))
				}
			}
		}
	case 11:
		part := func(v any) string {
			ext, text := ".yaml", jsonText(v)+"\n"
			if s, ok := v.(string); ok && !strings.HasPrefix(s, "{") {
				ext, text = ".txt", s
			}
			n := fmt.Sprintf("sub/n%d%s", len(p.data), ext)
			p.data["data/"+n] = text
			return "!include " + n
		}
		var text string
		switch x := v.(type) {
		case map[string]any:
			for i, n := range sortedNames(x) {
				if i == len(raw)%len(x) {
					text += yq(n) + ": " + part(x[n]) + "\n"
				} else {
					text += yq(n) + ": " + jsonText(x[n]) + "\n"
				}
			}
		case []any:
			for i, y := range x {
				if i == len(raw)%len(x) {
					text += "- " + part(y) + "\n"
				} else {
					text += "- " + jsonText(y) + "\n"
				}
			}
		}
		*file = p.dataFile(".yaml", text)
		p.ln(ind, k+" !include "+relPath(p.frag.Path, *file))
	case 8:
		p.ln(ind, k+" "+raw)
		for _, l := range strings.Split(strings.TrimSuffix(v.(string), "\n"), "\n") {
			p.raw(ind+p.sty.Step, l)
		}
	case 10: // a file that does not exist
		p.ln(ind, k+" !include "+relPath(p.frag.Path, *file))
	case 9:
		*file = p.dataFile(".txt", v.(string))
		p.ln(ind, k+" !include "+relPath(p.frag.Path, *file))
	default:
		p.ln(ind, k+" "+jsonText(v))
	}
}

// raw prints a line of a block scalar.
func (p *printer) raw(ind int, s string) {
	p.line++
	if s != "" {
		p.b.WriteString(strings.Repeat(" ", ind) + s)
	}
	p.b.WriteString(p.nl)
}

func sortedNames(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Render prints all files of the project.
func (pr *Project) Render(sty Style) map[string]string {
	out := map[string]string{}
	if sty.Step == 0 {
		sty.Step = 2
	}
	for k, v := range pr.Data {
		out[k] = v
	}
	for _, f := range pr.Frags {
		if f.Kind == FJSON {
			out[f.Path] = f.DT.Ref.Name
			f.DT.Line, f.DT.VLine, f.DT.End = 1, 1, 1
			continue
		}
		p := &printer{sty: sty, frag: f, data: out, nl: "\n"}
		if sty.CRLF {
			p.nl = "\r\n"
		}
		f.Lines = map[string]int{}
		if f.Kind == FLibrary {
			p.b.WriteString("#%RAML 1.0 Library" + p.nl)
		} else {
			p.b.WriteString("#%RAML 1.0 DataType" + p.nl)
		}
		p.line = 1
		secs := []func(){
			func() {
				if f.Usage != "" {
					p.ln(0, "usage: "+yq(f.Usage))
				}
			},
			func() {
				if len(f.Uses) == 0 {
					return
				}
				f.Lines["uses"] = p.ln(0, "uses:")
				for _, u := range f.Uses {
					up := u.Path
					if up == "" {
						up = relPath(f.Path, u.To.Path)
					}
					u.Line = p.ln(sty.Step, p.key(u.Alias)+": "+up)
				}
			},
			func() {
				if len(f.Anns) == 0 {
					return
				}
				f.Lines["annotationTypes"] = p.ln(0, "annotationTypes:")
				for _, d := range f.Anns {
					p.emitType(sty.Step, d.Name, d.T)
				}
			},
			func() {
				if len(f.Types) == 0 {
					return
				}
				f.Lines["types"] = p.ln(0, "types:")
				for _, d := range f.Types {
					p.emitType(sty.Step, d.Name, d.T)
				}
			},
			func() {
				for _, a := range f.Apply {
					p.emitAnn(0, a)
				}
			},
			func() {
				if f.DT != nil {
					f.DT.Line = p.line + 1
					f.DT.FacetLine = map[string]int{}
					p.emitBody(0, f.DT)
					f.DT.End = p.line
				}
			},
		}
		idx := []int{0, 1, 2, 3, 4, 5}
		if sty.Shuffle {
			idx = sty.R.Perm(len(secs))
		}
		for _, i := range idx {
			secs[i]()
		}
		if p.line == 1 {
			if f.Kind == FLibrary {
				p.ln(0, "types: {}")
			} else {
				p.ln(0, "type: string")
			}
		}
		out[f.Path] = p.b.String()
	}
	return out
}

// ---------------------------------------------------------------- numbers

func rat(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("rat " + s)
	}
	return r
}

func ratOf(v any) (*big.Rat, bool) {
	switch x := v.(type) {
	case float64:
		r := new(big.Rat)
		if r.SetFloat64(x) == nil {
			return nil, false
		}
		return r, true
	case int:
		return new(big.Rat).SetInt64(int64(x)), true
	case int64:
		return new(big.Rat).SetInt64(x), true
	case uint64:
		return new(big.Rat).SetFrac(new(big.Int).SetUint64(x), big.NewInt(1)), true
	case uint:
		return new(big.Rat).SetFrac(new(big.Int).SetUint64(uint64(x)), big.NewInt(1)), true
	case json.Number:
		r, ok := new(big.Rat).SetString(string(x))
		return r, ok
	}
	return nil, false
}
