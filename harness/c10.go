package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/acronis/go-raml/v2"
	"gopkg.in/yaml.v3"
)

// ---------------------------------------------------------------- exercising a parse result

// oddValues are Go values a caller may pass to Validate, with no relation to the type.
func oddValues() []any {
	type st struct{ A int }
	var np *st
	var nm map[string]any
	var ns []any
	return []any{nil, true, 0, -1, int8(3), uint64(math.MaxUint64), 1.5, math.NaN(), math.Inf(1), float32(2), "", "a", "2024-01-01", "{", string([]byte{0xff, 0xfe}),
		[]any{}, []any{nil}, []any{1, "a", []any{}}, []string{"x"}, []int{1}, map[string]any{}, map[string]any{"a": nil, "": 1},
		map[string]string{"a": "b"}, map[any]any{1: 2}, st{1}, &st{2}, np, nm, ns, json.Number("12"), time.Unix(0, 0), []byte("xyz"), func() {}, make(chan int),
		complex(1, 2), [2]int{1, 2}, map[string]any{"a": map[string]any{"a": []any{map[string]any{}}}}}
}

var oddVals = oddValues()

// exercise calls the public read-only operations on a parse result. Panics and endless loops are caught by the worker
// supervision; contradictions are returned.
func exercise(r *raml.RAML, unwrapped bool, rnd *Rand) (bad string, ops int) {
	if r == nil {
		return "the result is nil although there is no error", 0
	}
	if r.EntryPoint() == nil {
		return "there is no entry point although there is no error", 0
	}
	_ = r.GetLocation()
	locs := map[string]bool{}
	use := func(at string, b *raml.BaseShape) {
		if b == nil {
			return
		}
		locs[b.Location] = true
		ops++
		_ = b.String()
		_ = b.IsUnwrapped()
		_ = b.CloneDetached()
		if b.Example != nil && b.Example.Data != nil {
			_ = b.Example.Data.String()
		}
		if b.Default != nil {
			_ = b.Default.String()
		}
		if !unwrapped {
			return
		}
		_ = b.Check()
		for i := 0; i < 5; i++ {
			v := oddVals[rnd.N(len(oddVals))]
			ops++
			if err := b.Validate(v); err != nil && err.Error() == "" && bad == "" {
				bad = at + ": empty error text"
			}
		}
		ops += 2
		c1, err := raml.NewJSONSchemaConverter[*raml.JSONSchema](raml.WithWrapper(func(_ *raml.JSONSchemaConverter[*raml.JSONSchema], core *raml.JSONSchemaGeneric[*raml.JSONSchema], _ *raml.BaseShape) *raml.JSONSchema {
			return &raml.JSONSchema{JSONSchemaGeneric: *core}
		}))
		if err == nil {
			if js, err := c1.Convert(b.Shape); err == nil {
				_, _ = json.Marshal(js)
			}
		}
		c2, err := raml.NewJSONSchemaConverter[*raml.JSONSchemaRAML](raml.WithWrapper(raml.JSONSchemaWrapper))
		if err == nil {
			if js, err := c2.Convert(b.Shape); err == nil {
				_, _ = json.Marshal(js)
				_ = js.Map()
				_ = js.DeepCopy()
			}
		}
	}
	types := func(f raml.Fragment) {
		_ = f.GetLocation()
		_, _ = f.GetReferenceType("nope.x")
		_, _ = f.GetReferenceType("nope")
		_, _ = f.GetReferenceAnnotationType("nope.x.y")
		switch x := f.(type) {
		case *raml.Library:
			if x.Types != nil {
				for p := x.Types.Oldest(); p != nil; p = p.Next() {
					use(p.Key, p.Value)
					_, _ = x.GetReferenceType(p.Key)
					_, _ = r.GetReferencedType(p.Key, x.Location)
				}
			}
			if x.AnnotationTypes != nil {
				for p := x.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
					use("("+p.Key+")", p.Value)
				}
			}
		case *raml.DataType:
			use("DataType", x.Shape)
		}
	}
	types(r.EntryPoint())
	n := 0
	for _, b := range r.GetShapes() {
		if b == nil {
			bad = "GetShapes holds nil"
			continue
		}
		locs[b.Location] = true
		if n++; n < 40 {
			_ = b.String()
		}
	}
	for l := range locs {
		_ = r.GetFragmentTypePtrs(l)
		if f := r.GetFragment(l); f != nil && f != r.EntryPoint() {
			types(f)
		}
	}
	for _, a := range r.GetAllAnnotations() {
		if a.Extension != nil {
			_ = a.Extension.String()
		}
	}
	_ = r.GetAllAnnotationsPtr()
	return bad, ops
}

// parenDepth is the deepest nesting of parentheses on a line.
func parenDepth(s string) int {
	max := 0
	for _, l := range strings.Split(s, "\n") {
		d := 0
		for i := 0; i < len(l); i++ {
			switch l[i] {
			case '(':
				if d++; d > max {
					max = d
				}
			case ')':
				if d > 0 {
					d--
				}
			}
		}
	}
	return max
}

// hammer loads the project in every option combination, from path and from text, and uses the results.
// It returns the verdicts: nil error per combination.
func (c *Case) hammer(root, entry string, text []byte) (accepted int, bad string) {
	rnd := c.R.Fork("hammer")
	for k := 0; k < 8; k++ {
		u, v, str := k&1 != 0, k&2 != 0, k&4 != 0
		if str && text == nil {
			continue
		}
		var r *raml.RAML
		var err error
		if str {
			dir := filepath.Dir(filepath.Join(root, entry))
			r, err = raml.ParseFromString(string(text), filepath.Base(entry), dir, opts(u, v)...)
		} else {
			r, err = raml.ParseFromPath(filepath.Join(root, entry), opts(u, v)...)
		}
		c.Eval(1)
		if err != nil {
			c.Count("errors", 1)
			if err.Error() == "" {
				return accepted, "an error without text"
			}
			continue
		}
		accepted++
		c.Count("accepted", 1)
		x, ops := exercise(r, u, rnd)
		c.Count("uses_of_results", ops)
		if x != "" {
			return accepted, x
		}
	}
	return accepted, ""
}

// ---------------------------------------------------------------- mutators

var c10Keys = []string{"type", "types", "uses", "usage", "annotationTypes", "properties", "items", "facets", "enum", "example", "examples", "default", "required",
	"pattern", "minLength", "maxLength", "minimum", "maximum", "multipleOf", "format", "fileTypes", "additionalProperties", "minProperties", "maxProperties",
	"minItems", "maxItems", "uniqueItems", "discriminator", "discriminatorValue", "displayName", "description", "strict", "allowedTargets", "schema", "schemas",
	"xml", "value", "(", ")", "((", ")(", "(a", "a)", "/(", "?)", "??", "/?", "/a", "a/", "(a)", "()", "(a.b)", "(a.b.c)", "/a/", "/(/", "//", "/", "a?", "?", "", "<<", "null", "~", "1", "[]", "a.b", "x\u0000y"}

var c10Vals = []string{"string", "integer", "number", "boolean", "object", "array", "file", "nil", "any", "union", "json", "composite", "recursive", "datetime", "date-only",
	"time-only", "datetime-only", "null", "~", "string[]", "string?", "(string)", "string | nil", "string |", "| string", "[]", "string[][]", "(string[])[]", "a.b", ".", "..", "a.b.c",
	"a..b", "T0", "T1", "T2", "-1", "0", "1", "1.5", "1e400", "-1e400", "1e-400", "1e999999999", ".inf", "-.inf", ".nan", "9223372036854775808", "-9223372036854775809",
	"18446744073709551616", "99999999999999999999999999999999", "0x10", "0o17", "1_000", "true", "false", "yes", "2024-01-01", "2024-01-01T00:00:00Z", "12:30:00",
	"rfc3339", "rfc2616", "int8", "float", "[", "{", "{}", "(", ")", "((", "a|b|", "[a-", "(?<x>y)", "\\", "^a{1001}$", "*", "a{,5}", "é", "\u2028", "", " ", "{\"a\": 1}", "{\"a\":", "{\"type\": \"object\"}",
	"{\"$ref\": \"#\"}", "[1]", "/etc", "nosuch.raml", ".", "./", "lib0.raml", "data.json"}

var c10Tags = []string{"!include", "!!binary", "!!float", "!!int", "!!null", "!!str", "!!timestamp", "!!set", "!!map", "!!seq", "!!merge", "!x", "!!bool", "!!omap"}

var c10Tokens = []string{"\n", "\t", ": ", "- ", "{", "}", "[", "]", "'", "\"", "#", "|", ">", "&a ", "*a", "!include ", "!!int ", "? ", "---\n", "...\n", "%YAML 1.1\n", "\x00", "\xff", "\xef\xbb\xbf",
	"  ", "\r", ",", "<<: *a", "#%RAML 1.0 Library\n", "#%RAML 1.0 NamedExample\n", "|\n", ">-\n", "string", "nil", "?", "[]", "~"}

func scalar(v string) *yaml.Node { return &yaml.Node{Kind: yaml.ScalarNode, Value: v} }

func collect(n *yaml.Node, out *[]*yaml.Node, depth int) {
	if n == nil || depth > 60 || len(*out) > 5000 {
		return
	}
	*out = append(*out, n)
	for _, k := range n.Content {
		collect(k, out, depth+1)
	}
}

func copyNode(n *yaml.Node) *yaml.Node {
	c := *n
	c.Content = nil
	for _, k := range n.Content {
		c.Content = append(c.Content, copyNode(k))
	}
	return &c
}

// mutateYAML changes a few nodes of a document.
func mutateYAML(r *Rand, text string) (out string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	head, body := text, ""
	if i := strings.IndexByte(text, '\n'); i >= 0 {
		head, body = text[:i+1], text[i+1:]
	}
	var doc yaml.Node
	if err := yaml.Unmarshal([]byte(body), &doc); err != nil || doc.Kind != yaml.DocumentNode {
		return text, false
	}
	for i := r.Range(1, 4); i > 0; i-- {
		var all []*yaml.Node
		collect(doc.Content[0], &all, 0)
		if len(all) < 2 {
			break
		}
		n := all[r.N(len(all))]
		m := all[r.N(len(all))]
		switch r.N(15) {
		case 0:
			*n = *scalar(c10Vals[r.N(len(c10Vals))])
		case 1:
			*n = *scalar(c10Vals[r.N(len(c10Vals))])
			n.Style = yaml.DoubleQuotedStyle
		case 2:
			*n = yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: r.Pick("", "null", "~")}
		case 3:
			*n = yaml.Node{Kind: yaml.SequenceNode, Content: []*yaml.Node{copyNode(n)}}
		case 4:
			*n = yaml.Node{Kind: yaml.MappingNode, Content: []*yaml.Node{scalar(c10Keys[r.N(len(c10Keys))]), copyNode(n)}}
		case 5:
			*n = yaml.Node{Kind: []yaml.Kind{yaml.MappingNode, yaml.SequenceNode}[r.N(2)]}
		case 6:
			n.Tag = c10Tags[r.N(len(c10Tags))]
			n.Style |= yaml.TaggedStyle
		case 7, 8:
			c := copyNode(m)
			*n = *c
		case 9:
			a, b := copyNode(n), copyNode(m)
			*n, *m = *b, *a
		case 10:
			if n.Kind == yaml.MappingNode {
				k := scalar(c10Keys[r.N(len(c10Keys))])
				v := scalar(c10Vals[r.N(len(c10Vals))])
				if r.P(40) {
					v = copyNode(m)
				}
				n.Content = append(n.Content, k, v)
			} else if n.Kind == yaml.SequenceNode {
				n.Content = append(n.Content, copyNode(m))
			}
		case 11:
			if len(n.Content) >= 2 {
				j := r.N(len(n.Content)/2) * 2
				n.Content = append(append([]*yaml.Node{}, n.Content[:j]...), n.Content[j+2:]...)
			}
		case 12:
			if n.Kind == yaml.MappingNode && len(n.Content) >= 2 {
				j := r.N(len(n.Content)/2) * 2
				n.Content = append(n.Content, copyNode(n.Content[j]), copyNode(n.Content[j+1]))
			}
		case 13:
			if n.Kind == yaml.MappingNode && len(n.Content) >= 2 {
				*n.Content[r.N(len(n.Content)/2)*2] = *scalar(c10Keys[r.N(len(c10Keys))])
			}
		case 14:
			if n.Kind == yaml.ScalarNode && len(n.Value) > 0 {
				b := []byte(n.Value)
				b[r.N(len(b))] = byte(r.N(128))
				n.Value = string(b)
			}
		}
	}
	b, err := yaml.Marshal(doc.Content[0])
	if err != nil {
		return text, false
	}
	return head + string(b), true
}

// mutateBytes edits the text itself.
func mutateBytes(r *Rand, text, other string) string {
	b := []byte(text)
	for i := r.Range(1, 4); i > 0; i-- {
		at := r.N(len(b) + 1)
		end := at + r.N(12)
		if end > len(b) {
			end = len(b)
		}
		switch r.N(9) {
		case 0:
			if at < len(b) {
				b[at] = byte(r.N(256))
			}
		case 1:
			b = append(append([]byte{}, b[:at]...), b[end:]...)
		case 2:
			b = append(append(append([]byte{}, b[:end]...), b[at:end]...), b[end:]...)
		case 3, 4:
			b = append(append(append([]byte{}, b[:at]...), c10Tokens[r.N(len(c10Tokens))]...), b[at:]...)
		case 5:
			b = b[:at]
		case 6: // another place's line
			ls := strings.Split(other, "\n")
			b = append(append(append([]byte{}, b[:at]...), ls[r.N(len(ls))]+"\n"...), b[at:]...)
		case 7: // indent or outdent a line
			ls := strings.Split(string(b), "\n")
			j := r.N(len(ls))
			if r.P(50) {
				ls[j] = strings.Repeat(" ", r.N(6)) + strings.TrimLeft(ls[j], " ")
			} else {
				ls[j] = " " + ls[j]
			}
			b = []byte(strings.Join(ls, "\n"))
		case 8: // replace a word
			ls := strings.Split(string(b), "\n")
			j := r.N(len(ls))
			if k := strings.Index(ls[j], ":"); k >= 0 {
				if r.P(50) {
					ls[j] = ls[j][:k+1] + " " + c10Vals[r.N(len(c10Vals))]
				} else {
					ls[j] = ls[j][:len(ls[j])-len(strings.TrimLeft(ls[j], " "))] + c10Keys[r.N(len(c10Keys))] + ls[j][k:]
				}
			}
			b = []byte(strings.Join(ls, "\n"))
		}
	}
	return string(b)
}

// ---------------------------------------------------------------- malformations that must be reported

type malform struct {
	kinds string // comma separated, "" = every kind except unions
	key   string
	vals  []string
	cross bool // a facet of another kind: decides the kind of a declaration without a type
}

var malforms = []malform{
	{"", "displayName", []string{"{a: b}", "[x]"}, false},
	{"", "description", []string{"{a: b}", "[x]"}, false},
	{"", "facets", []string{"5", "[a]", "text", "{a: [x, {b: c}]}"}, false},
	{"", "properties", []string{"5", "[a]", "text"}, false},
	{"", "examples", []string{"5", "text"}, false},
	{"", "undeclaredFacet", []string{"5", "[1]", "{a: 1}", "text"}, false},
	{"", "(undeclaredAnnotation)", []string{"1", "{a: b}", "[]"}, false},
	{"", "(no.suchAnnotation)", []string{"1", "text"}, false},
	{"string", "minLength", []string{"-1", "abc", "[1]", "1.5", "{a: 1}"}, false},
	{"string,file", "maxLength", []string{"-1", "abc", "[1]", "0.5", "{a: 1}"}, false},
	{"string", "pattern", []string{"'('", "[a]", "'[z-a]'", "{a: 1}", "'a{2,1}'", "'(?P<n'"}, false},
	{"string,integer,number,boolean", "enum", []string{"5", "{a: b}", "text"}, false},
	{"integer,number", "minimum", []string{"abc", "[1]", "{a: 1}", "1x"}, false},
	{"integer,number", "maximum", []string{"abc", "[1]", "{a: 1}", "--1"}, false},
	{"integer", "minimum", []string{"1.5"}, false},
	{"integer,number", "multipleOf", []string{"abc", "[1]", "{a: 1}"}, false},
	{"integer,number", "format", []string{"[1]", "bogus", "{a: 1}"}, false},
	{"datetime", "format", []string{"bogus", "[1]", "{a: 1}"}, false},
	{"file", "fileTypes", []string{"5", "{a: b}"}, false},
	{"file", "minLength", []string{"-1", "abc", "[1]"}, false},
	{"array", "minItems", []string{"-1", "abc", "[1]", "1.5"}, false},
	{"array", "maxItems", []string{"-1", "abc", "{a: 1}"}, false},
	{"array", "uniqueItems", []string{"abc", "5", "[true]"}, false},
	{"array", "items", []string{"5", "noSuchType", "'string['", "'a | '", "nolib.T", "{type: noSuchType}", "{properties: 5}"}, false},
	{"object", "minProperties", []string{"-1", "abc", "[1]"}, false},
	{"object", "maxProperties", []string{"-1", "abc", "1.5"}, false},
	{"object", "additionalProperties", []string{"abc", "5", "[true]"}, false},
	{"object", "properties", []string{"{zq: noSuchType}", "{zq: {type: noSuchType}}", "{zq: {minLength: abc, type: string}}", "{/(/: string}", "{\"/a/?\": string}", "{/a/: {type: string, required: false}}", "{/a/: {type: string, required: true}}", "{\"//?\": string}", "{zq: {type: 'string['}}", "{zq: '(string'}", "{zq: {type: array, items: nope}}", "{zq: {properties: [a]}}", "{zq: {enum: 5, type: string}}", "{zq: {required: abc}}", "{zq: !include missing.raml}"}, false},
	{"object", "discriminator", []string{"noSuchProperty", "[a]", "{a: b}"}, false},
	{"boolean,any,nil,date-only,time-only,datetime-only", "minLength", []string{"1"}, true},
	{"boolean,any,date-only,time-only,datetime-only,string", "minimum", []string{"1"}, true},
	{"boolean,string,integer,number,file", "minItems", []string{"1"}, true},
}

// put writes the facet. Of a facet that is written twice the last one counts.
func (m malform) put(t *TNode, v string) {
	if m.key == "discriminator" {
		t.Discriminator = nil
	}
	t.Extra = append(t.Extra, RawFacet{m.key, v})
}

func (m malform) fits(kind string) bool {
	if kind == "union" || kind == "json" || kind == "" || kind == "recursive" {
		return false
	}
	if m.kinds == "" {
		return m.key != "properties" || kind == "object"
	}
	for _, k := range strings.Split(m.kinds, ",") {
		if k == kind {
			return true
		}
	}
	return false
}

// mustReject loads the project in the two validating modes and, for faults of form, also without validation.
func (c *Case) mustReject(root, entry, what string, parse bool) bool {
	for k := 0; k < 4; k++ {
		u, v := k&1 != 0, k&2 != 0
		if !v && !parse {
			continue
		}
		_, err := loadPath(root, entry, u, v)
		c.Eval(1)
		if err == nil {
			c.Violate("%s: accepted (unwrap=%v validate=%v)\n%s", what, u, v, clip(allFiles(c.files), 3000))
			return false
		}
		if err.Error() == "" {
			c.Violate("%s: error without text", what)
			return false
		}
	}
	c.Count("malformations_reported", 1)
	return true
}

func (c *Case) malformed(r *Rand) {
	o := fullOpts()
	o.Types = 6
	pr, ref := genProject(r.Fork("gen"), o)
	if len(ref.Verdict()) > 0 {
		c.Count("generator_rejects", 1)
		return
	}
	reached := pr.fragsReached()
	root := c.newRoot()
	entry := pr.Frags[0].Path
	if r.P(70) { // a facet inside a declaration
		type site struct {
			f *Frag
			t *TNode
			k string
		}
		var sites []site
		in := map[*Frag]bool{}
		for _, f := range reached {
			in[f] = true
		}
		pr.walk(func(f *Frag, t *TNode) {
			if in[f] && !t.Inline && !t.Null && (t.Ref == nil || t.Ref.K != RMulti) {
				sites = append(sites, site{f, t, ref.node(t, f).get().Kind})
			}
		})
		for try := 0; try < 30 && len(sites) > 0; try++ {
			s := sites[r.N(len(sites))]
			m := malforms[r.N(len(malforms))]
			if !m.fits(s.k) || s.t.Ref == nil && (m.key == "fileTypes" || m.cross) {
				continue
			}
			v := m.vals[r.N(len(m.vals))]
			m.put(s.t, v)
			files := pr.Render(randStyle(r))
			c.Source(files)
			writeFiles(root, files)
			c.Key("malformed", s.k, m.key, v)
			c.mustReject(root, entry, fmt.Sprintf("%s with %s: %s", s.k, m.key, v), false)
			return
		}
		return
	}
	files := pr.Render(randStyle(r))
	f := reached[r.N(len(reached))]
	for f.Kind == FJSON {
		f = reached[r.N(len(reached))]
	}
	nl := strings.IndexByte(files[f.Path], '\n')
	head, body := strings.TrimRight(files[f.Path][:nl], "\r"), files[f.Path][nl+1:]
	what, del, dir := "", false, false
	set := func(w, s string) { what = w; files[f.Path] = s }
	switch x := r.N(16); x {
	case 0:
		set("unknown header", r.Pick("#%RAML 1.0", "#%RAML 0.8", "#%RAML 1.0 Foo", "#%raml 1.0 Library", "#%RAML 1.0 library", "# a comment", "#%RAML", "#%RAML 2.0 Library", "%RAML 1.0 Library")+"\n"+body)
	case 1:
		set("no header", body)
	case 2:
		set("fragment of another kind", "#%RAML 1.0 NamedExample\n"+body)
		if f == reached[0] {
			set("header only", head+"\n")
		}
	case 3:
		set("empty file", "")
	case 4:
		set("broken YAML", head+"\n"+body+"\n\t]: [\n")
	case 5:
		set("scalar instead of the document", head+"\n"+r.Pick("text\n", "5\n", "'a'\n"))
	case 6:
		set("list instead of the document", head+"\n- a\n- b\n")
	case 7:
		what, del = "missing file", true
	case 8:
		what, dir = "directory instead of the file", true
	default:
		if f.Kind != FLibrary {
			set("unterminated quote", head+"\n"+body+"\ndescription: \"abc\n")
			break
		}
		sec := r.Pick("types", "annotationTypes", "uses")
		v := r.Pick("5", "text", "[a, b]", "[]")
		switch r.N(4) {
		case 0:
			set(sec+": "+v, head+"\n"+sec+": "+v+"\n")
		case 1:
			set("uses of a missing file", head+"\nuses:\n  a: nosuch/file.raml\n")
		case 2:
			set("uses value of a wrong form", head+"\nuses:\n  a: "+r.Pick("[x]", "{b: c}", "''", ".")+"\n")
		case 3:
			set("type of a wrong form", head+"\n"+r.Pick("types", "annotationTypes")+":\n  T:"+r.Pick(" {type: {a: b}}", " {type: []}", " {type: 5}", " 5", " noSuchType", " {type: [string, nope]}", " '('", " 'string | '", " a.b.c", " ')'", " '[]'", " {type: 'string[[]'}", " !include nosuch.raml", " {type: !include nosuch.raml}", " {type: {}}")+"\n")
		}
		if what == "" {
			return
		}
	}
	c.Source(files)
	if del || dir {
		delete(files, f.Path)
	}
	writeFiles(root, files)
	if dir {
		_ = os.MkdirAll(filepath.Join(root, f.Path), 0o755)
	}
	c.Key("malformed file", what, fmt.Sprint(f.Kind))
	c.mustReject(root, entry, what+" in "+f.Path, true)
}

// ---------------------------------------------------------------- shapes of input that grow

// dagProject declares n types, each of which refers to the previous one twice.
func dagProject(kind string, n int) string {
	var w strings.Builder
	w.WriteString("#%RAML 1.0 Library\ntypes:\n  T0:\n    type: object\n    properties:\n      a?: integer\n")
	for i := 1; i < n; i++ {
		p := fmt.Sprintf("T%d", i-1)
		switch kind {
		case "properties":
			fmt.Fprintf(&w, "  T%d:\n    properties:\n      a?: %s\n      b?: %s\n", i, p, p)
		case "unions":
			fmt.Fprintf(&w, "  T%d: %s | %s\n", i, p, p)
		case "arrays":
			fmt.Fprintf(&w, "  T%d: '%s[] | %s[]'\n", i, p, p)
		case "parents":
			fmt.Fprintf(&w, "  T%d:\n    type: [%s, %s]\n", i, p, p)
		case "derivations":
			fmt.Fprintf(&w, "  T%d:\n    properties:\n      a?: %s\n      b?:\n        type: %s\n        description: x\n", i, p, p)
		case "inherited properties":
			fmt.Fprintf(&w, "  T%d:\n    type: %s\n    properties:\n      b%d?: %s\n      c%d?: %s\n", i, p, i, p, i, p)
		case "facets":
			fmt.Fprintf(&w, "  T%d:\n    type: object\n    facets:\n      b%d?: %s\n      c%d?: %s\n", i, i, p, i, p)
		case "items":
			fmt.Fprintf(&w, "  T%d:\n    type: array\n    items:\n      properties:\n        a?: %s\n        /b/: %s\n", i, p, p)
		}
	}
	return w.String()
}

var dagKinds = []string{"properties", "unions", "arrays", "parents", "derivations", "inherited properties", "facets", "items"}

// cpuOf is the smallest CPU time of a few runs.
func cpuOf(runs int, f func()) time.Duration {
	best := time.Duration(math.MaxInt64)
	for i := 0; i < runs; i++ {
		a := cpuNow()
		f()
		if d := cpuNow() - a; d < best {
			best = d
		}
	}
	if best < time.Millisecond {
		best = time.Millisecond
	}
	return best
}

func growthFinding(c *Case) {
	root := c.newRoot()
	parse := func(s string, o ...raml.ParseOpt) *raml.RAML {
		r, err := raml.ParseFromString(s, "in.raml", root, o...)
		if err != nil {
			c.Violate("a valid project is rejected: %v", err)
			return nil
		}
		return r
	}
	last := func(r *raml.RAML, n string) *raml.BaseShape {
		b, _ := r.EntryPoint().(*raml.Library).Types.Get(n)
		return b
	}
	c.Eval(1)
	switch c.Idx {
	case 0:
		nest := func(n int) func() {
			s := "#%RAML 1.0 Library\ntypes:\n  T: " + strings.Repeat("(", n) + "string" + strings.Repeat(")", n) + "\n"
			return func() { parse(s) }
		}
		nest(1)()
		a, b := cpuOf(2, nest(5)), cpuOf(1, nest(7))
		c.Sample(fmt.Sprintf("nested groups: depth 5 takes %v CPU, depth 7 takes %v", a, b))
		if b > 6*a {
			c.ViolateSig("deep-groups", "a type expression with 7 nested groups takes %v of CPU, with 5 groups %v: each level multiplies the time by about %.1f", b, a, math.Sqrt(float64(b)/float64(a)))
		}
	case 1:
		size := func(n int) int {
			r := parse(dagProject("properties", n), raml.OptWithUnwrap())
			if r == nil {
				return 1
			}
			cv, err := raml.NewJSONSchemaConverter[*raml.JSONSchemaRAML](raml.WithWrapper(raml.JSONSchemaWrapper))
			if err != nil {
				c.Violate("%v", err)
				return 1
			}
			js, err := cv.Convert(last(r, fmt.Sprintf("T%d", n-1)).Shape)
			if err != nil {
				c.Violate("%v", err)
				return 1
			}
			b, _ := json.Marshal(js)
			return len(b)
		}
		a, b := size(8), size(14)
		if b > 20*a {
			c.ViolateSig("schema-inlining", "the JSON schema of a chain of 14 types, each with two properties of the previous type, has %d bytes, for 8 types %d: it doubles with each type", b, a)
		}
	case 2:
		run := func(n int) func() {
			r := parse(dagProject("arrays", n), raml.OptWithUnwrap())
			if r == nil {
				return func() {}
			}
			b := last(r, fmt.Sprintf("T%d", n-1))
			var v any = "bad"
			for i := 1; i < n; i++ {
				v = []any{v}
			}
			return func() { _ = b.Validate(v) }
		}
		a, b := cpuOf(2, run(7)), cpuOf(1, run(13))
		if b > 16*a {
			c.ViolateSig("union-branching", "validating a value nested in 12 arrays against unions with two array alternatives on each level takes %v, in 6 arrays %v: it doubles with each level", b, a)
		}
	}
}

func c10Fixed(c *Case, k int) {
	if k < len(dagKinds) {
		s := dagProject(dagKinds[k], 60)
		root := c.newRoot()
		c.Source(map[string]string{"in.raml": s})
		for m := 0; m < 4; m++ {
			r, err := raml.ParseFromString(s, "in.raml", root, opts(m&1 != 0, m&2 != 0)...)
			c.Eval(1)
			if err != nil {
				c.Violate("%s: a valid project is rejected: %v", dagKinds[k], err)
				return
			}
			for _, b := range r.GetShapes() {
				_ = b.CloneDetached()
				_ = b.Check()
				if m&1 != 0 {
					_ = b.Validate(1.5)
				}
			}
		}
		c.Count("growing_inputs", 4)
		c.Key("dag", dagKinds[k])
		return
	}
	type big struct {
		name string
		text string
		ok   bool // must be accepted
	}
	lib := "#%RAML 1.0 Library\ntypes:\n"
	nest := func(n int, open, close string, leaf string) string {
		return strings.Repeat(open, n) + leaf + strings.Repeat(close, n)
	}
	var chain, props, enum, selfs strings.Builder
	chain.WriteString(lib + "  T0: object\n")
	props.WriteString(lib + "  T:\n    properties:\n")
	enum.WriteString(lib + "  T:\n    type: integer\n    enum: [0")
	for i := 1; i < 300; i++ {
		fmt.Fprintf(&chain, "  T%d:\n    type: T%d\n    minProperties: 0\n", i, i-1)
		fmt.Fprintf(&props, "      p%d: string\n", i)
		fmt.Fprintf(&enum, ", %d", i)
	}
	enum.WriteString("]\n")
	selfs.WriteString(lib)
	for i := 0; i < 9; i++ { // the schema of a denser graph is a case of the schema-inlining finding
		fmt.Fprintf(&selfs, "  T%d:\n    properties:\n", i)
		for j := 0; j < 9; j += 3 {
			fmt.Fprintf(&selfs, "      p%d?: T%d\n", j, (i+j+1)%9)
		}
	}
	bigs := []big{
		{"deep inline properties", lib + "  T: " + nest(400, "{properties: {a: ", "}}", "string") + "\n", true},
		{"deep items", lib + "  T: " + nest(400, "{type: array, items: ", "}", "string") + "\n", true},
		{"deep facets", lib + "  T: " + nest(300, "{type: object, facets: {a: ", "}}", "string") + "\n", true},
		{"long union", lib + "  T: " + strings.Repeat("string | ", 5000) + "nil\n", true},
		{"chain of types", chain.String(), true},
		{"many properties", props.String(), true},
		{"long enum", enum.String(), true},
		{"dense recursion", selfs.String(), true},
		{"deep example", lib + "  T:\n    type: any\n    example: " + nest(900, "[", "]", "1") + "\n", true},
		{"deep JSON example", lib + "  T:\n    type: any\n    example: '" + nest(3000, "{\"a\":", "}", "1") + "'\n", true},
		{"deeper JSON example", lib + "  T:\n    type: any\n    example: '" + nest(200000, "{\"a\":", "}", "1") + "'\n", false},
		{"deep flow lists", lib + "  T: " + nest(20000, "[", "]", "a") + "\n", false},
		{"anchors", "#%RAML 1.0 Library\nx: &a [1,1,1,1,1,1,1,1,1]\ny: &b [*a,*a,*a,*a,*a,*a,*a,*a,*a]\nz: &c [*b,*b,*b,*b,*b,*b,*b,*b,*b]\nw: &d [*c,*c,*c,*c,*c,*c,*c,*c,*c]\ntypes:\n  T:\n    type: any\n    example: *d\n", false},
		{"anchor cycle", lib + "  T: &a\n    properties:\n      x: *a\n", false},
		{"anchor cycle in an example", lib + "  T:\n    type: any\n    example: &a [*a]\n", false},
		{"union of itself", lib + "  T: T | nil\n", false},
		{"type of itself", lib + "  T: T\n", false},
		{"mutual types", lib + "  A: B\n  B: C\n  C: A\n", false},
		{"parent of itself", lib + "  A:\n    type: [B, A]\n  B: object\n", false},
		{"items of itself", lib + "  A: A[]\n", true},
		{"facet of itself", lib + "  A:\n    facets:\n      x?: A\n", true},
		{"property of itself", lib + "  A:\n    properties:\n      x: A\n", true},
		{"derived inside itself", lib + "  A:\n    properties:\n      x?:\n        type: A\n        properties:\n          y?: A\n", false},
		{"huge exponent", lib + "  A:\n    type: number\n    minimum: 1e999999999\n", false},
		{"tiny exponent", lib + "  A:\n    type: number\n    example: 1e-999999999\n", false},
		{"long pattern", lib + "  A:\n    type: string\n    pattern: '" + strings.Repeat("(a|b)*", 300) + "$'\n    example: " + strings.Repeat("ab", 500) + "c\n", false},
		{"huge JSON schema", lib + "  A: '" + nest(300, "{\"properties\": {\"a\":", "}}", "{}") + "'\n", true},
	}
	b := bigs[(k-len(dagKinds))%len(bigs)]
	c.Source(map[string]string{"in.raml": clip(b.text, 3000)})
	root := c.newRoot()
	writeFiles(root, map[string]string{"in.raml": b.text})
	acc, bad := c.hammer(root, "in.raml", []byte(b.text))
	if bad == "" && b.ok && acc != 8 {
		_, err := loadPath(root, "in.raml", true, true)
		bad = fmt.Sprintf("a valid project is rejected: %v", err)
	}
	if bad != "" {
		c.Violate("%s: %s", b.name, clip(bad, 2000))
	}
	c.Count("growing_inputs", 8)
	c.Key("big", b.name)
}

const c10Big = 27

// sweepPlaces are documents with a mapping entry to be filled in (@): one for every place where RAML has a mapping.
var sweepPlaces = []string{
	"#%RAML 1.0 Library\n@\n",
	"#%RAML 1.0 Library\nusage: x\n@\ntypes:\n  T: string\n",
	"#%RAML 1.0 Library\nuses:\n  @\n",
	"#%RAML 1.0 Library\ntypes:\n  @\n",
	"#%RAML 1.0 Library\nannotationTypes:\n  @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: string\n    @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: object\n    @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: array\n    @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: file\n    @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: datetime\n    @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: string | integer\n    @\n",
	"#%RAML 1.0 Library\ntypes:\n  P:\n    type: object\n    facets:\n      f?: string\n  T:\n    type: P\n    @\n",
	"#%RAML 1.0 Library\ntypes:\n  P: string\n  T:\n    type: [P]\n    @\n",
	"#%RAML 1.0 Library\nannotationTypes:\n  a: string\ntypes:\n  T:\n    (a): x\n    @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    properties:\n      @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    properties:\n      p:\n        @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: array\n    items:\n      @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    facets:\n      @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: any\n    example:\n      @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: any\n    example:\n      value: 1\n      @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: any\n    examples:\n      @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: any\n    examples:\n      e:\n        value: 1\n        @\n",
	"#%RAML 1.0 Library\ntypes:\n  T:\n    type: any\n    default:\n      @\n",
	"#%RAML 1.0 Library\nannotationTypes:\n  a: any\n(a):\n  @\n",
	"#%RAML 1.0 DataType\n@\n",
	"#%RAML 1.0 DataType\ntype: object\n@\n",
	"#%RAML 1.0 DataType\nuses:\n  @\ntype: object\n",
	"#%RAML 1.0 NamedExample\n@\n",
	"#%RAML 1.0 NamedExample\ne:\n  value: 1\n  @\n",
}

var sweepVals = []string{"1", "text", "", "[]", "[1, {a: b}]", "{}", "{a: 1, b: [x]}", "!include nosuch.raml", "true", "{type: string}", "string?"}

// keySweep puts every key of c10Keys and some values into one place of a document.
func keySweep(c *Case, place int) {
	tpl := sweepPlaces[place]
	root := c.newRoot()
	for _, k := range c10Keys {
		key := k
		if !plainKey.MatchString(k) {
			key = yq(k)
		}
		for i, v := range sweepVals {
			text := strings.Replace(tpl, "@", key+": "+v, 1)
			c.Source(map[string]string{"in.raml": text})
			for m := 0; m < 8; m++ {
				if m != 0 && m != 6 && (m+i)%4 != 0 { // all combinations in turn
					continue
				}
				o := opts(m&2 != 0, m&4 != 0)
				r, err := raml.ParseFromString(text, "in.raml", root, o...)
				c.Eval(1)
				if err != nil {
					c.Count("errors", 1)
					if err.Error() == "" {
						c.Violate("error without text for key %q with %q", k, v)
						return
					}
					continue
				}
				c.Count("accepted", 1)
				bad, ops := exercise(r, m&2 != 0, c.R.Fork("ex"))
				c.Count("uses_of_results", ops)
				if bad != "" {
					c.Violate("key %q with %q: %s", k, v, bad)
					return
				}
			}
		}
	}
	c.Key("key sweep", fmt.Sprint(place))
}

func init() {
	register(&Check{ID: "C10", Rule: "case = (a) mutation fuzzing of rendered random projects and extra seed documents (bytes, tokens, YAML nodes, other fragment kinds, file faults), loaded in all 8 option combinations, with every public read-only operation called on the results; (b) a malformation from a table (form x kind x value, or a whole-file fault) planted at a random place of a valid project, which must be reported, and the full grid of 34 facets x 22 forms of value x 23 kinds x 8 places, and included data files that cannot be decoded; (c) inputs whose processing could grow (deep nesting, DAGs, cycles, anchors, huge numbers). Panics, fatal errors, CPU and memory limits are monitored per case by the worker supervision. Distinct: (mutator, accepted combinations, error class) and malformations",
		Quick: 8000, Thorough: 250000, Fixed: 3 + 8 + c10Big + len(sweepPlaces) + lateFaultCases + len(gridKinds)*len(gridPlaces) + len(dataPlaces), CPU: 25 * time.Second,
		Require: map[string]int{"errors": 10000, "accepted": 4000, "malformations_reported": 800, "uses_of_results": 100000, "growing_inputs": 100, "facet_forms": 50000, "facet_forms_base_accepted": 100, "included_data": 300},
		Run: func(c *Case) {
			if c.Idx < 3 {
				growthFinding(c)
				return
			}
			if k := c.Idx - 3 - 8 - c10Big; k >= 0 && k < lateFaultCases {
				c.lateFaults(k)
				return
			}
			if k := c.Idx - 3 - 8 - c10Big - lateFaultCases; k >= 0 && k < len(sweepPlaces) {
				keySweep(c, k)
				return
			}
			k := c.Idx - 3 - 8 - c10Big - lateFaultCases - len(sweepPlaces)
			if n := len(gridKinds) * len(gridPlaces); k >= 0 && k < n {
				c.facetGrid(k)
				return
			} else if k >= n && k < n+len(dataPlaces) {
				c.includedData(k - n)
				return
			}
			if c.Idx < c.Check.Fixed {
				c10Fixed(c, c.Idx-3)
				return
			}
			r := c.R
			if r.P(25) {
				c.malformed(r)
				return
			}
			c.fuzz(r)
		}})
}

func extraSeeds() map[string]string {
	return map[string]string{
		"data.json":  `{"a": 1, "b": [true, null, "x"], "c": {"d": 1.5}}`,
		"type.json":  `{"$schema": "http://json-schema.org/draft-07/schema#", "type": "object", "properties": {"a": {"type": "string", "pattern": "^a"}, "b": {"$ref": "#/definitions/x"}}, "definitions": {"x": {"type": "integer", "minimum": 1}}, "required": ["a"]}`,
		"ex.raml":    "#%RAML 1.0 NamedExample\nuses:\n  l: lib0.raml\none:\n  value: {a: 1}\ntwo:\n  strict: false\n  value: text\n",
		"other.raml": "#%RAML 1.0 Library\nusage: x\nuses:\n  me: other.raml\nannotationTypes:\n  note: string\n  rec:\n    properties:\n      n?: integer\ntypes:\n  T0:\n    type: object\n    (note): hi\n    facets:\n      lvl?: integer\n    properties:\n      a: string\n      /^b/: integer\n      c?: T0[]\n  T1:\n    type: T0\n    lvl: 3\n    properties:\n      d: T2 | nil\n  T2:\n    type: [T0, T3]\n  T3:\n    type: object\n    example: {q: 1}\n  J: !include type.json\n  K: '{\"type\": \"string\"}'\n  E:\n    type: object\n    examples: !include ex.raml\n  F:\n    example: !include data.json\n    type: any\n  M: me.T1\n(note): x\n",
		"dt.raml":    "#%RAML 1.0 DataType\nuses:\n  o: other.raml\ntype: o.T0\nproperties:\n  z: o.T1?\nexample:\n  a: x\n  z: null\n",
	}
}

func (c *Case) fuzz(r *Rand) {
	o := fullOpts()
	o.Types = r.Range(2, 6)
	o.MaxLibs = r.Range(1, 3)
	o.Recursion = r.P(50)
	var files map[string]string
	var entry string
	if r.P(70) {
		pr, _ := genProject(r.Fork("gen"), o)
		if r.P(30) {
			breakProject(r, pr, NewRef(pr))
		}
		files = pr.Render(randStyle(r))
		entry = pr.Frags[0].Path
		if r.P(40) {
			for k, v := range extraSeeds() {
				if _, dup := files[k]; !dup {
					files[k] = v
				}
			}
		}
	} else {
		files = extraSeeds()
		entry = r.Pick("other.raml", "dt.raml", "ex.raml", "other.raml", "type.json")
	}
	var names []string
	for k := range files {
		names = append(names, k)
	}
	sort.Strings(names)
	victim := entry
	if r.P(50) {
		victim = names[r.N(len(names))]
	}
	other := files[names[r.N(len(names))]]
	kind := ""
	mut := func() {
		switch x := r.N(100); {
		case x < 50:
			if s, ok := mutateYAML(r, files[victim]); ok {
				files[victim] = s
				kind += "yaml,"
				return
			}
			fallthrough
		case x < 85:
			files[victim] = mutateBytes(r, files[victim], other)
			kind += "bytes,"
		case x < 90:
			h := r.Pick("#%RAML 1.0 Library", "#%RAML 1.0 DataType", "#%RAML 1.0 NamedExample", "#%RAML 1.0", "#%RAML 1.0 Trait", "")
			if i := strings.IndexByte(files[victim], '\n'); i >= 0 {
				files[victim] = h + files[victim][i:]
			}
			kind += "header,"
		case x < 95:
			files[victim] = other
			kind += "swap,"
		default:
			i, j := strings.Index(files[victim], "types:"), strings.Index(other, "types:")
			if i >= 0 && j >= 0 {
				files[victim] = files[victim][:i] + other[j:]
			}
			kind += "splice,"
		}
	}
	mut()
	if r.P(30) {
		mut()
	}
	for k, s := range files {
		if parenDepth(s) > 4 { // the deep-groups finding
			c.Count("skipped_deep_groups", 1)
			return
		}
		if len(s) > 1<<16 {
			files[k] = s[:1<<16]
		}
	}
	c.Source(files)
	root := c.newRoot()
	writeFiles(root, files)
	if r.P(6) && victim != entry { // faults of the file system
		p := filepath.Join(root, victim)
		_ = os.Remove(p)
		switch r.N(4) {
		case 0:
			_ = os.Mkdir(p, 0o755)
			kind += "directory,"
		case 1:
			_ = os.Symlink(victim, p)
			kind += "link to itself,"
		case 2:
			_ = os.Symlink("nowhere", p)
			kind += "dangling link,"
		default:
			kind += "removed,"
		}
	}
	acc, bad := c.hammer(root, entry, []byte(files[entry]))
	c.Key(kind, fmt.Sprint(acc), entry, fmt.Sprint(len(files[entry])%16))
	if bad != "" {
		c.Violate("%s (mutations %s)\n%s", bad, kind, clip(allFiles(files), 3000))
	}
	if c.Idx < c.Check.Fixed+6 {
		c.Sample(clip(files[victim], 400))
	}
}

// ---------------------------------------------------------------- every facet with a value of every form

var gridKinds = []string{"string", "integer", "number", "boolean", "datetime", "datetime-only", "date-only", "time-only", "file", "nil", "any", "array", "object",
	"string | nil", "Named", "Arr", "Uni", "[Obj, Obj2]", "Obj", "Rec", "Js", "l.Num", "!include dt.raml"}

var gridVals = []string{"", "5", "-1", "1.5", "true", "text", "''", "[]", "[x]", "[5]", "[true]", "[1.5]", "[[x]]", "[{a: b}]", "[null]", "{}", "{a: b}", "{a: 5}", "{a: [x]}", "{a: }", "null", "2001-01-01"}

var gridKeys = []string{"type", "displayName", "description", "examples", "facets", "properties", "required", "enum", "pattern", "minLength", "maxLength", "minimum", "maximum",
	"multipleOf", "format", "fileTypes", "items", "minItems", "maxItems", "uniqueItems", "minProperties", "maxProperties", "additionalProperties", "discriminator", "noSuchFacet", "strict",
	"value", "schema", "x", "Type", "(noSuchAnnotation)", "(l.no)", "(", "()"}

// gridOpen tells that the facet may have this value, or that the documentation does not say that it may not.
func gridOpen(key, kind, v string) bool {
	in := func(s string) bool {
		for _, w := range strings.Split(s, "~") {
			if w == v {
				return true
			}
		}
		return false
	}
	null := v == "" || v == "null"
	switch kind { // what the kind is
	case "Named":
		kind = "string"
	case "Arr":
		kind = "array"
	case "[Obj, Obj2]", "Obj", "Rec":
		kind = "object"
	case "l.Num":
		kind = "number"
	case "!include dt.raml":
		kind = "integer"
	case "string | nil", "Uni":
		kind = "union"
	case "Js":
		kind = "json"
	}
	builtin := map[string]string{"enum": "string integer number boolean", "pattern": "string", "minLength": "string file", "maxLength": "string file", "minimum": "integer number",
		"maximum": "integer number", "multipleOf": "integer number", "format": "string integer number datetime", "fileTypes": "file", "items": "array", "minItems": "array",
		"maxItems": "array", "uniqueItems": "array", "minProperties": "object", "maxProperties": "object", "additionalProperties": "object", "discriminator": "object", "properties": "object"}
	if ks, ok := builtin[key]; ok {
		if kind == "union" || kind == "json" {
			return true // facets of other kinds are ignored there
		}
		if !strings.Contains(" "+ks+" ", " "+kind+" ") {
			return false
		}
	}
	switch key {
	case "type":
		return null || in("''~[null]")
	case "displayName", "description":
		return !strings.ContainsAny(v, "[{")
	case "examples":
		return strings.HasPrefix(v, "{") || null
	case "facets", "properties":
		return null || in("{}~{a: }")
	case "required":
		return null || v == "true"
	case "enum":
		switch {
		case null || v == "[]":
			return true
		case kind == "string":
			return in("[x]~[null]")
		case kind == "boolean":
			return v == "[true]"
		case kind == "integer":
			return v == "[5]"
		}
		return in("[5]~[1.5]")
	case "pattern":
		return null || in("text~''~5~-1~1.5~true~2001-01-01")
	case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
		return null || v == "5"
	case "minimum", "maximum":
		return null || in("5~-1") || kind == "number" && v == "1.5"
	case "multipleOf":
		return null || in("5~-1~1.5")
	case "format":
		return null || v == "''"
	case "fileTypes":
		return null || in("[]~[x]~[5]~[true]~[1.5]~[null]")
	case "items":
		return null || in("''~[null]~{}")
	case "uniqueItems", "additionalProperties":
		return null || v == "true"
	case "discriminator":
		return null || v == "''"
	}
	return false
}

var gridPlaces = []string{ // %s: the declaration
	"  T:%s\n", "  T:\n    properties:\n      p:%s\n", "  T:\n    properties:\n      /^p/:%s\n", "  T:\n    type: array\n    items:%s\n", "  T:\n    facets:\n      f?:%s\n",
	"  T:\n    type: Obj\n    properties:\n      p?:%s\n  U: T | nil\n", "  T: !include in.raml\n", "annotation",
}

func (c *Case) facetGrid(k int) {
	kind, place := gridKinds[k%len(gridKinds)], gridPlaces[k/len(gridKinds)]
	root := c.newRoot()
	for _, key := range append([]string{""}, gridKeys...) {
		if key == "type" && k%len(gridKinds) != 0 {
			continue
		}
		for _, v := range gridVals {
			if gridOpen(key, kind, v) || key == "required" && place == gridPlaces[4] {
				continue
			}
			decl := "type: " + kind + "\n" + yq(key) + ": " + v + "\n"
			if key == "" { // what the others add to
				if v != "" {
					continue
				}
				decl = "type: " + kind + "\ndisplayName: x\n"
			}
			if key == "type" {
				decl = "type: " + v + "\n"
			}
			ind := func(n int) string {
				return "\n" + strings.TrimRight(strings.Repeat(" ", n)+strings.ReplaceAll(decl, "\n", "\n"+strings.Repeat(" ", n)), " \n")
			}
			files := map[string]string{
				"num.raml": "#%RAML 1.0 Library\ntypes:\n  Num: number\n", "dt.raml": "#%RAML 1.0 DataType\ntype: integer\n",
				"in.raml": "#%RAML 1.0 DataType\nuses:\n  l: num.raml\n  m: main.raml\n" + decl,
			}
			head := "#%RAML 1.0 Library\nuses:\n  l: num.raml\n"
			types := "types:\n  Named: string\n  Arr: string[]\n  Uni: string | integer\n  Obj: object\n  Obj2: object\n  Js: '{\"type\":\"object\"}'\n  Rec:\n    properties:\n      r?: Rec\n"
			switch {
			case place == "annotation":
				head += "annotationTypes:\n  A:" + ind(4) + "\n"
			case strings.Contains(place, "!include"):
				if strings.ContainsAny(kind, "NARUOJ") && !strings.Contains(kind, ".") { // names of the library
					return
				}
				types += place
			default:
				w := strings.Index(place, "%s")
				n := w - strings.LastIndex(place[:w], "\n") - 1
				types += strings.Replace(place, "%s", ind(n), 1)
			}
			files["main.raml"] = head + types
			c.Source(files)
			writeFiles(root, files)
			if key == "" {
				if _, err := loadPath(root, "main.raml", true, true); err == nil {
					c.Count("facet_forms_base_accepted", 1)
				}
				continue
			}
			if !c.mustReject(root, "main.raml", fmt.Sprintf("%s with %s: %s", kind, key, v), false) {
				return
			}
			c.Count("facet_forms", 1)
		}
	}
	c.Key("facet grid", kind, place)
}

// ---------------------------------------------------------------- included data that cannot be decoded

var badData = map[string][]string{
	".json": {"", " ", "{", "[1,", "{\"a\": 1} x", "1 2", "{}{}", "[1]]", "{\"a\": 1}}", "{'a': 1}", "{a: 1}", "tru", "\"x", "nul", "01", "[1 2]", "{\"a\" 1}", "\xef\xbb\xbf{", "// c\n1x", "1,"},
	".yaml": {"a: [", "{a: b", "'x", "a: b: c", "\t- x", "[a", "&", "a: *nope", "- a\nb", "\"x", "a: 'b", "!include nosuch.yaml", "a: !include nosuch.txt", "- !include nosuch.json"},
	".yml":  {"a: [", "{a: b", "'x", "- !include nosuch.json"},
	".raml": {"a: b", "", "#%RAML 1.0\na: b", "#%RAML 1.0 NamedExample\n- a\n", "#%RAML 1.0 NamedExample\nx\n", "#%RAML 1.0 Library\ntypes:\n", "#%RAML 1.0 DataType\ntype: string\n", "#%RAML 1.0 NamedExample\na: [\n"},
}

var dataPlaces = []string{
	"types:\n  T:\n    type: any\n    example: !include f\n", "types:\n  T:\n    type: any\n    example:\n      value: !include f\n", "types:\n  T:\n    type: any\n    examples:\n      e: !include f\n",
	"types:\n  T:\n    type: any\n    examples:\n      a: 1\n      e:\n        value: !include f\n", "types:\n  T:\n    type: any\n    default: !include f\n",
	"annotationTypes:\n  a: any\n(a): !include f\n", "annotationTypes:\n  a: any\ntypes:\n  T:\n    type: string\n    (a): !include f\n",
	"types:\n  P:\n    facets:\n      f: any\n  T:\n    type: P\n    f: !include f\n", "types:\n  T:\n    properties:\n      p:\n        type: any\n        default: !include f\n", "types:\n  T:\n    type: any\n    examples: !include f\n",
}

func (c *Case) includedData(k int) {
	tpl := dataPlaces[k]
	whole := strings.HasSuffix(tpl, "examples: !include f\n")
	root := c.newRoot()
	for ext, texts := range badData {
		if (ext == ".raml") != whole {
			continue
		}
		for i, text := range texts {
			files := map[string]string{"sub/bad" + ext: text, "main.raml": "#%RAML 1.0 Library\n" + strings.Replace(tpl, "!include f", "!include sub/bad"+ext, 1)}
			if i%2 == 1 { // met through another fragment
				files["lib.raml"] = files["main.raml"]
				files["main.raml"] = "#%RAML 1.0 Library\nuses:\n  l: lib.raml\n"
			}
			c.Source(files)
			writeFiles(root, files)
			if !c.mustReject(root, "main.raml", fmt.Sprintf("included %s file with %q", ext, text), true) {
				return
			}
			c.Count("included_data", 1)
		}
	}
	c.Key("included data", tpl)
}

// lateFaults: a fragment that cannot be loaded is included from facets that are decoded only when the reference they
// belong to is resolved, so that the failure is met in the middle of the resolution of everything else.
const lateFaultCases = 5

func (c *Case) lateFaults(k int) {
	incl := []string{"      p: !include dt.raml\n", "      p:\n        type: !include dt.raml\n", "      p:\n        type: array\n        items: !include dt.raml\n",
		"      p:\n        properties:\n          q: !include dt.raml\n", "      /^p/: !include dt.raml\n      q: !include dt.raml\n"}[k]
	types := []string{"  A: object\n  B:\n    type: %s\n    properties:\n", "  B:\n    type: [%s, C]\n    properties:\n", "  B:\n    type: %s\n    facets:\n"}
	uses := []string{"nosuch.raml", "{a: b}", "[x]", "''", ".", "dt.raml", "ex.raml", "bad.raml", "badtype.raml", "loop.raml"}
	bodies := []string{"type: l.T\n", "type: l.T | string\n", "type: l.T[]\n", "properties:\n  a: l.T\n", "type: object\n(l.N): x\n", "type: l.T\nproperties:\n  z: !include dt2.raml\n", "type: [l.T, l.U]\n"}
	for ti, ty := range types {
		for ui, u := range uses {
			for bi, body := range bodies {
				parent := []string{"A", "u.A"}[(ti+ui+bi)%2]
				files := map[string]string{
					"main.raml":    "#%RAML 1.0 Library\nuses:\n  u: other.raml\ntypes:\n" + fmt.Sprintf(ty, parent) + incl + "  C: object\n" + []string{"", "  A: object\n"}[min(ti, 1)],
					"other.raml":   "#%RAML 1.0 Library\ntypes:\n  A: object\n",
					"dt.raml":      "#%RAML 1.0 DataType\nuses:\n  l: " + u + "\n" + body,
					"dt2.raml":     "#%RAML 1.0 DataType\nuses:\n  l: " + u + "\ntype: l.T\n",
					"ex.raml":      "#%RAML 1.0 NamedExample\na: 1\n",
					"bad.raml":     "#%RAML 1.0 Library\nuses:\n  l: nosuch.raml\ntypes:\n  T: l.T\n  U: l.T[]\nannotationTypes:\n  N: l.T\n",
					"badtype.raml": "#%RAML 1.0 Library\ntypes:\n  T:\n    type: object\n    properties: 5\n  U: Nope\nannotationTypes:\n  N: Nope\n",
					"loop.raml":    "#%RAML 1.0 Library\nuses:\n  me: loop.raml\n  l: bad.raml\ntypes:\n  T: me.U\n  U: l.T\nannotationTypes:\n  N: l.N\n",
				}
				c.Source(files)
				root := c.newRoot()
				writeFiles(root, files)
				if !c.mustReject(root, "main.raml", fmt.Sprintf("fragment with uses: %s included late", u), true) {
					return
				}
			}
		}
	}
	c.Key("late", incl)
}
