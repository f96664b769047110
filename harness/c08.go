package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/acronis/go-raml/v2"
)

// ---------------------------------------------------------------- reference parser of type expressions

// xnode is the structure a type expression prescribes.
type xnode struct {
	k   string // prim, ref, array, opt, union
	n   string
	sub []*xnode
}

func (x *xnode) String() string {
	if x == nil {
		return "malformed"
	}
	switch x.k {
	case "array":
		return "array(" + x.sub[0].String() + ")"
	case "opt":
		return "union(" + x.sub[0].String() + ",nil)"
	case "union":
		var ss []string
		for _, s := range x.sub {
			ss = append(ss, s.String())
		}
		return "union(" + strings.Join(ss, ",") + ")"
	}
	return x.n
}

func (x *xnode) depth() int {
	d := 0
	for _, s := range x.sub {
		if e := s.depth(); e > d {
			d = e
		}
	}
	return d + 1
}

var xprims = map[string]bool{"string": true, "integer": true, "number": true, "boolean": true, "datetime": true, "time-only": true, "datetime-only": true,
	"date-only": true, "file": true, "nil": true, "any": true, "array": true, "object": true, "union": true}

var xident = regexp.MustCompile(`^[0-9A-Za-z_.-]+`)

// xparse is a recursive descent parser for:
//
//	expression = type { "|" type } ; type = primary [ "[]" | "?" ] ;
//	primary = primitive | name [ "." name ] | "(" expression ")"
func xparse(s string) *xnode {
	var toks []string
	for i := 0; i < len(s); {
		switch {
		case s[i] == ' ' || s[i] == '\t':
			i++
		case strings.HasPrefix(s[i:], "[]"):
			toks = append(toks, "[]")
			i += 2
		case strings.ContainsRune("()|?", rune(s[i])):
			toks = append(toks, s[i:i+1])
			i++
		default:
			m := xident.FindString(s[i:])
			if m == "" {
				return nil
			}
			toks = append(toks, m)
			i += len(m)
		}
	}
	p := 0
	peek := func() string {
		if p < len(toks) {
			return toks[p]
		}
		return ""
	}
	var expr func() *xnode
	prim := func() *xnode {
		t := peek()
		switch t {
		case "", ")", "|", "?", "[]", ".":
			return nil
		case "(":
			p++
			x := expr()
			if x == nil || peek() != ")" {
				return nil
			}
			p++
			return x
		}
		p++
		if xprims[t] {
			return &xnode{k: "prim", n: t}
		}
		if peek() == "." {
			p++
			if n := peek(); xident.MatchString(n) && n != "." && !xprims[n] {
				p++
				return &xnode{k: "ref", n: t + "." + n}
			}
			return nil
		}
		return &xnode{k: "ref", n: t}
	}
	typ := func() *xnode {
		x := prim()
		if x == nil {
			return nil
		}
		switch peek() {
		case "[]":
			p++
			return &xnode{k: "array", sub: []*xnode{x}}
		case "?":
			p++
			return &xnode{k: "opt", sub: []*xnode{x}}
		}
		return x
	}
	expr = func() *xnode {
		x := typ()
		if x == nil {
			return nil
		}
		if peek() != "|" {
			return x
		}
		u := &xnode{k: "union", sub: []*xnode{x}}
		for peek() == "|" {
			p++
			y := typ()
			if y == nil {
				return nil
			}
			u.sub = append(u.sub, y)
		}
		return u
	}
	x := expr()
	if p != len(toks) {
		return nil
	}
	return x
}

// resolves tells whether all names are declared.
func (x *xnode) resolves(declared map[string]string) bool {
	if x.k == "ref" && declared[x.n] == "" {
		return false
	}
	for _, s := range x.sub {
		if !s.resolves(declared) {
			return false
		}
	}
	return true
}

// xcheck compares a shape with the structure. Declared types carry their name as description.
func xcheck(at string, b *raml.BaseShape, x *xnode, declared map[string]string, unwrapped bool) string {
	if b == nil {
		return at + ": missing"
	}
	switch x.k {
	case "prim":
		kind := fmt.Sprintf("%T", b.Shape)
		want := map[string]string{"string": "StringShape", "integer": "IntegerShape", "number": "NumberShape", "boolean": "BooleanShape", "datetime": "DateTimeShape",
			"time-only": "TimeOnlyShape", "datetime-only": "DateTimeOnlyShape", "date-only": "DateOnlyShape", "file": "FileShape", "nil": "NilShape", "any": "AnyShape",
			"array": "ArrayShape", "object": "ObjectShape"}[x.n]
		if kind != "*raml."+want {
			return fmt.Sprintf("%s: is %s instead of %s", at, kind, x.n)
		}
		if b.Type != x.n {
			return fmt.Sprintf("%s: type is %q instead of %q", at, b.Type, x.n)
		}
		if a, ok := b.Shape.(*raml.ArrayShape); ok && a.Items != nil {
			return at + ": a plain array has items"
		}
		if b.Description != nil || b.Alias != nil {
			return at + ": a primitive type is connected with a declared type"
		}
	case "ref":
		if unwrapped {
			if b.Description == nil || *b.Description != declared[x.n] {
				return fmt.Sprintf("%s: does not carry the description of %s but %v", at, x.n, strp(b.Description))
			}
			return ""
		}
		to := b.Alias
		if to == nil && len(b.Inherits) == 1 {
			to = b.Inherits[0]
		}
		if to == nil || to.Description == nil || *to.Description != declared[x.n] {
			return fmt.Sprintf("%s: does not refer to %s", at, x.n)
		}
	case "array":
		a, ok := b.Shape.(*raml.ArrayShape)
		if !ok {
			return fmt.Sprintf("%s: is %T instead of an array", at, b.Shape)
		}
		return xcheck(at+"[]", a.Items, x.sub[0], declared, unwrapped)
	case "opt", "union":
		sub := x.sub
		if x.k == "opt" {
			sub = []*xnode{x.sub[0], {k: "prim", n: "nil"}}
		}
		u, ok := b.Shape.(*raml.UnionShape)
		if !ok {
			return fmt.Sprintf("%s: is %T instead of a union", at, b.Shape)
		}
		if len(u.AnyOf) != len(sub) {
			return fmt.Sprintf("%s: has %d alternatives instead of %d", at, len(u.AnyOf), len(sub))
		}
		for i, s := range sub {
			if bad := xcheck(fmt.Sprintf("%s|%d", at, i), u.AnyOf[i], s, declared, unwrapped); bad != "" {
				return bad
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- contexts

const c08Decls = `  A:
    type: string
    description: d-A
  B-1:
    type: integer
    description: d-B
  Obj_x:
    type: object
    description: d-O
  strings:
    type: boolean
    description: d-strings
  array1:
    type: number
    description: d-array1
  q.w:
    type: date-only
    description: d-qw
  nil-x:
    description: d-nilx
    properties:
      a?: nil-x[]
  "12":
    type: file
    description: d-12
  Un:
    type: A | integer
    description: d-Un
  Ar:
    type: array
    items: nil-x
    description: d-Ar
`
const c08Lib = "#%RAML 1.0 Library\ntypes:\n  X:\n    type: string\n    description: d-lX\n  A:\n    type: integer\n    description: d-lA\n  date:\n    type: date-only\n    description: d-ldate\n"

var c08Local = map[string]string{"A": "d-A", "B-1": "d-B", "Obj_x": "d-O", "strings": "d-strings", "array1": "d-array1", "q.w": "d-qw", "nil-x": "d-nilx", "12": "d-12",
	"Un": "d-Un", "Ar": "d-Ar", "l.X": "d-lX", "l.A": "d-lA", "l.date": "d-ldate"}
var c08InDT = map[string]string{"l.X": "d-lX", "l.A": "d-lA", "l.date": "d-ldate"}

type c08ctx struct {
	name  string
	decls map[string]string
	text  func(q string, i int) string // YAML below "types:" (or the whole fragment for a DataType)
	get   func(r *raml.RAML, i int) *raml.BaseShape
}

func c08type(r *raml.RAML, n string) *raml.BaseShape {
	b, _ := r.EntryPoint().(*raml.Library).Types.Get(n)
	return b
}

func c08prop(r *raml.RAML, n, p string) *raml.BaseShape {
	b := c08type(r, n)
	if b == nil {
		return nil
	}
	o, ok := b.Shape.(*raml.ObjectShape)
	if !ok || o.Properties == nil {
		return nil
	}
	x, _ := o.Properties.Get(p)
	return x.Base
}

func c08items(b *raml.BaseShape) *raml.BaseShape {
	if b == nil {
		return nil
	}
	if a, ok := b.Shape.(*raml.ArrayShape); ok {
		return a.Items
	}
	return nil
}

var c08Ctx = []c08ctx{
	{"declared type", c08Local, func(q string, i int) string { return fmt.Sprintf("  T%d: %s\n", i, q) },
		func(r *raml.RAML, i int) *raml.BaseShape { return c08type(r, fmt.Sprintf("T%d", i)) }},
	{"type facet", c08Local, func(q string, i int) string { return fmt.Sprintf("  T%d:\n    displayName: zz\n    type: %s\n", i, q) },
		func(r *raml.RAML, i int) *raml.BaseShape { return c08type(r, fmt.Sprintf("T%d", i)) }},
	{"property", c08Local, func(q string, i int) string { return fmt.Sprintf("  T%d:\n    properties:\n      p: %s\n", i, q) },
		func(r *raml.RAML, i int) *raml.BaseShape { return c08prop(r, fmt.Sprintf("T%d", i), "p") }},
	{"optional property with type facet", c08Local, func(q string, i int) string {
		return fmt.Sprintf("  T%d:\n    type: object\n    properties:\n      p?:\n        type: %s\n", i, q)
	}, func(r *raml.RAML, i int) *raml.BaseShape { return c08prop(r, fmt.Sprintf("T%d", i), "p") }},
	{"pattern property", c08Local, func(q string, i int) string { return fmt.Sprintf("  T%d:\n    properties:\n      /^z/: %s\n", i, q) },
		func(r *raml.RAML, i int) *raml.BaseShape {
			b := c08type(r, fmt.Sprintf("T%d", i))
			o, ok := b.Shape.(*raml.ObjectShape)
			if !ok || o.PatternProperties == nil || o.PatternProperties.Oldest() == nil {
				return nil
			}
			return o.PatternProperties.Oldest().Value.Base
		}},
	{"items", c08Local, func(q string, i int) string { return fmt.Sprintf("  T%d:\n    type: array\n    items: %s\n", i, q) },
		func(r *raml.RAML, i int) *raml.BaseShape { return c08items(c08type(r, fmt.Sprintf("T%d", i))) }},
	{"items with type facet", c08Local, func(q string, i int) string {
		return fmt.Sprintf("  T%d:\n    type: array\n    items:\n      type: %s\n", i, q)
	},
		func(r *raml.RAML, i int) *raml.BaseShape { return c08items(c08type(r, fmt.Sprintf("T%d", i))) }},
	{"facet definition", c08Local, func(q string, i int) string {
		return fmt.Sprintf("  T%d:\n    type: object\n    facets:\n      f?: %s\n", i, q)
	},
		func(r *raml.RAML, i int) *raml.BaseShape {
			b := c08type(r, fmt.Sprintf("T%d", i))
			if b == nil || b.CustomShapeFacetDefinitions == nil {
				return nil
			}
			x, _ := b.CustomShapeFacetDefinitions.Get("f")
			return x.Base
		}},
	{"items of a property", c08Local, func(q string, i int) string {
		return fmt.Sprintf("  T%d:\n    properties:\n      p:\n        items: %s\n", i, q)
	}, func(r *raml.RAML, i int) *raml.BaseShape { return c08items(c08prop(r, fmt.Sprintf("T%d", i), "p")) }},
	{"DataType fragment", c08InDT, func(q string, i int) string {
		return "#%RAML 1.0 DataType\nuses:\n  l: l.raml\ntype: " + q + "\n"
	}, func(r *raml.RAML, i int) *raml.BaseShape { return r.EntryPoint().(*raml.DataType).Shape }},
	{"annotation type", c08Local, func(q string, i int) string { return fmt.Sprintf("annotationTypes:\n  N%d: %s\n", i, q) },
		func(r *raml.RAML, i int) *raml.BaseShape {
			b, _ := r.EntryPoint().(*raml.Library).AnnotationTypes.Get(fmt.Sprintf("N%d", i))
			return b
		}},
}

var plainScalar = regexp.MustCompile(`^[A-Za-z(][A-Za-z0-9_.()|? \[\]-]*$`)

// c08quote writes the expression as a YAML scalar.
func c08quote(r *Rand, s string) string {
	if plainScalar.MatchString(s) && !strings.HasSuffix(s, " ") && r.P(50) {
		return s
	}
	if r.P(50) && !strings.ContainsAny(s, "'\n") {
		return "'" + s + "'"
	}
	return yq(s)
}

func (c *Case) c08load(root string, k *c08ctx, expr string, i int, unwrap bool) (*raml.RAML, error) {
	q := c08quote(c.R, expr)
	text := k.text(q, i)
	if k.name == "annotation type" {
		text = "#%RAML 1.0 Library\nuses:\n  l: l.raml\n" + text + "types:\n" + c08Decls
	} else if k.name != "DataType fragment" {
		text = "#%RAML 1.0 Library\nuses:\n  l: l.raml\ntypes:\n" + text + c08Decls
	}
	c.Source(map[string]string{"in.raml": text})
	return raml.ParseFromString(text, "in.raml", root, opts(unwrap, false)...)
}

// try judges one expression in one context.
func (c *Case) c08try(root string, k *c08ctx, expr string) bool {
	x := xparse(expr)
	valid := x != nil && x.resolves(k.decls)
	for _, unwrap := range []bool{false, true} {
		r, err := c.c08load(root, k, expr, 0, unwrap)
		c.Eval(1)
		if !valid {
			if err == nil {
				c.Violate("%s: %q is accepted although it is %s", k.name, expr, map[bool]string{true: "malformed", false: "a reference to an undeclared name"}[x == nil])
				return false
			}
			c.Count("rejected", 1)
			c.Key("rejected", k.name, shapeOfExpr(expr))
			return true
		}
		if err != nil {
			c.Violate("%s: %q is rejected: %v", k.name, expr, err)
			return false
		}
		if bad := xcheck(k.name, k.get(r, 0), x, k.decls, unwrap); bad != "" {
			c.Violate("%s: %q (unwrapped=%v) should be %v: %s", k.name, expr, unwrap, x, bad)
			return false
		}
		c.Count("structures_compared", 1)
	}
	c.Key("accepted", k.name, shapeOfExpr(expr))
	return true
}

var xword = regexp.MustCompile(`[0-9A-Za-z_.-]+`)

// shapeOfExpr abstracts the names away.
func shapeOfExpr(s string) string {
	return xword.ReplaceAllStringFunc(strings.Join(strings.Fields(s), " "), func(w string) string {
		if xprims[w] {
			return "p"
		}
		if c08Local[w] != "" {
			return "n"
		}
		return "u"
	})
}

var c08Names = []string{"A", "B-1", "Obj_x", "strings", "array1", "q.w", "nil-x", "12", "Un", "Ar", "l.X", "l.A", "l.date"}
var c08Prims = []string{"string", "integer", "number", "boolean", "datetime", "time-only", "datetime-only", "date-only", "file", "nil", "any", "array", "object"}

// genX prints a random well-formed expression.
func genX(r *Rand, depth, groups int, inDT bool) string {
	sp := func() string {
		switch r.N(8) {
		case 0:
			return " "
		case 1:
			return "  "
		case 2:
			return "\t"
		}
		return ""
	}
	name := func() string {
		if r.P(50) {
			return c08Prims[r.N(len(c08Prims))]
		}
		if inDT {
			return c08Names[10+r.N(3)]
		}
		return c08Names[r.N(len(c08Names))]
	}
	var expr, typ func(d, g int) string
	prim := func(d, g int) string {
		if d > 0 && g > 0 && r.P(55) {
			return "(" + sp() + expr(d-1, g-1) + sp() + ")"
		}
		return name()
	}
	typ = func(d, g int) string {
		s := prim(d, g)
		switch r.N(4) {
		case 0:
			return s + sp() + "[]"
		case 1:
			return s + sp() + "?"
		}
		return s
	}
	expr = func(d, g int) string {
		s := typ(d, g)
		if r.P(45) {
			for i := r.Range(1, 4); i > 0; i-- {
				s += sp() + "|" + sp() + typ(d, g)
			}
		}
		return s
	}
	return sp() + expr(depth, groups) + sp()
}

var c08Alphabet = []string{"A", "string", "l.X", "(", ")", "|", "[]", "?", "[", "]", "nope", ".", " ", "l", "1a", "-", "string?", "A[]", "||", "()", ",", "&", "é", "\n", "q", "q.w", "l.nope", "X", "m.X", "/", "\\", "*", "#", ":", "Obj_x", "string[]", "nil", "null1", "STRING", "\"", "'"}

// exhaustive alphabet: all strings up to a length.
var c08Ex = []string{"A", "string", "l.X", "(", ")", "|", "[]", "?"}

func openDepth(s string) int {
	d, m := 0, 0
	for _, ch := range s {
		if ch == '(' {
			if d++; d > m {
				m = d
			}
		} else if ch == ')' && d > 0 {
			d--
		}
	}
	return m
}

func excludedExpr(s string) bool {
	// a blank type is an absent type; JSON text, YAML syntax and the internal union name are not expressions
	return strings.TrimSpace(s) == "" || openDepth(s) > 3 || strings.HasPrefix(s, "{") || strings.Contains(s, "union")
}

func init() {
	register(&Check{ID: "C08", Rule: "case = (a) a block of the exhaustive list of token strings over {A, string, l.X, (, ), |, [], ?} (all lengths up to 5, thorough 6), (b) random well-formed expressions with nested groups, blanks and 13 declared and 13 primitive names, (c) random token strings and one-token edits of well-formed ones; each is put in one of 11 contexts (declared type, type facet, property, pattern property, items, facet definition, DataType, annotation type, ...) in plain or quoted style. Oracle: an independent recursive descent parser gives well-formedness and structure, compared with the acceptance and the shape structure (before and after unwrapping; declared types are recognised by a marker). Distinct: (context, expression with names abstracted, verdict)",
		Quick: 1500, Thorough: 12000, Fixed: 0,
		Require: map[string]int{"rejected": 15000, "structures_compared": 8000},
		Run: func(c *Case) {
			root := c.newRoot()
			if err := os.WriteFile(filepath.Join(root, "l.raml"), []byte(c08Lib), 0o644); err != nil {
				panic(err)
			}
			r := c.R
			// the exhaustive list is dealt to the cases round robin
			maxLen, total := 5, c.Check.Quick
			if c.Tier == "thorough" {
				maxLen, total = 6, c.Check.Thorough
			}
			idx := 0
			for l := 1; l <= maxLen; l++ {
				n := 1
				for i := 0; i < l; i++ {
					n *= len(c08Ex)
				}
				for v := 0; v < n; v++ {
					idx++
					if idx%total != c.Idx%total {
						continue
					}
					var sb strings.Builder
					for i, x := 0, v; i < l; i++ {
						t := c08Ex[x%len(c08Ex)]
						x /= len(c08Ex)
						if s := sb.String(); s != "" && xident.MatchString(t) && xident.MatchString(s[len(s)-1:]) {
							sb.WriteByte(' ')
						}
						sb.WriteString(t)
					}
					if excludedExpr(sb.String()) {
						continue
					}
					c.Count("exhaustive", 1)
					if !c.c08try(root, &c08Ctx[r.N(len(c08Ctx))], sb.String()) {
						return
					}
				}
			}
			for i := 0; i < 12; i++ {
				k := &c08Ctx[r.N(len(c08Ctx))]
				s := genX(r, 3, 3, k.name == "DataType fragment")
				if excludedExpr(s) {
					continue
				}
				if xparse(s) == nil {
					c.Violate("harness: %q is not well-formed", s)
					return
				}
				if !c.c08try(root, k, s) {
					return
				}
				// one edit
				b := []byte(s)
				at := r.N(len(b) + 1)
				tok := c08Alphabet[r.N(len(c08Alphabet))]
				e := string(b[:at]) + tok + string(b[at:])
				if r.P(40) && at < len(b) {
					e = string(b[:at]) + string(b[at+1:])
				}
				if !excludedExpr(e) && !c.c08try(root, k, e) {
					return
				}
				// a random token string
				w := ""
				for j := r.Range(1, 7); j > 0; j-- {
					w += c08Alphabet[r.N(len(c08Alphabet))]
				}
				if !excludedExpr(w) && !c.c08try(root, &c08Ctx[r.N(len(c08Ctx))], w) {
					return
				}
				if c.Idx < 3 {
					c.Sample(fmt.Sprintf("%s: %q -> %v; %q -> %v; %q -> %v", k.name, s, xparse(s), e, xparse(e), w, xparse(w)))
				}
			}
		}})
}
