package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---------------------------------------------------------------- an independent draft-07 validator

type schemaDoc struct {
	root  any
	order map[uintptr][]string // keys of an object in document order
	// refs followed while validating
	refs int
}

func parseSchema(text []byte) (*schemaDoc, error) {
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	doc := &schemaDoc{order: map[uintptr][]string{}}
	v, err := doc.decode(d)
	if err == nil {
		if _, e := d.Token(); e != io.EOF {
			err = fmt.Errorf("trailing data")
		}
	}
	doc.root = v
	return doc, err
}

func (doc *schemaDoc) decode(d *json.Decoder) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch t {
	case json.Delim('{'):
		m := map[string]any{}
		var keys []string
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			v, err := doc.decode(d)
			if err != nil {
				return nil, err
			}
			if _, dup := m[k.(string)]; dup {
				return nil, fmt.Errorf("repeated key %q", k)
			}
			m[k.(string)] = v
			keys = append(keys, k.(string))
		}
		doc.order[reflect.ValueOf(m).Pointer()] = keys
		_, err = d.Token()
		return m, err
	case json.Delim('['):
		a := []any{}
		for d.More() {
			v, err := doc.decode(d)
			if err != nil {
				return nil, err
			}
			a = append(a, v)
		}
		_, err = d.Token()
		return a, err
	}
	return t, nil
}

// resolve finds the target of a reference inside the document: a URI fragment that holds a JSON pointer.
func (d *schemaDoc) resolve(ref string) (any, error) {
	if !strings.HasPrefix(ref, "#") {
		return nil, fmt.Errorf("reference %q leaves the document", ref)
	}
	for _, ch := range ref[1:] { // characters a URI fragment may contain literally
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.ContainsRune("-._~!$&'()*+,;=:@/?%", ch)) {
			return nil, fmt.Errorf("reference %q is not a URI fragment", ref)
		}
	}
	p, err := url.PathUnescape(ref[1:])
	if err != nil {
		return nil, fmt.Errorf("reference %q: %v", ref, err)
	}
	if p == "" {
		return d.root, nil
	}
	if p[0] != '/' {
		return nil, fmt.Errorf("reference %q is not a JSON pointer", ref)
	}
	cur := d.root
	for _, tok := range strings.Split(p[1:], "/") {
		tok = strings.ReplaceAll(strings.ReplaceAll(tok, "~1", "/"), "~0", "~")
		switch x := cur.(type) {
		case map[string]any:
			n, ok := x[tok]
			if !ok {
				return nil, fmt.Errorf("reference %q: no %q", ref, tok)
			}
			cur = n
		case []any:
			i, err := strconv.Atoi(tok)
			if err != nil || i < 0 || i >= len(x) {
				return nil, fmt.Errorf("reference %q: no element %q", ref, tok)
			}
			cur = x[i]
		default:
			return nil, fmt.Errorf("reference %q: nothing below", ref)
		}
	}
	return cur, nil
}

var schemaKeywords = map[string]string{
	"$schema": "string", "$id": "string", "$ref": "string", "$comment": "string", "definitions": "schemas",
	"allOf": "list", "anyOf": "list", "oneOf": "list", "not": "schema", "if": "schema", "then": "schema", "else": "schema",
	"items": "schema", "properties": "schemas", "patternProperties": "schemas", "additionalProperties": "schema",
	"propertyNames": "schema", "type": "type", "enum": "array", "const": "any", "multipleOf": "number", "maximum": "number",
	"minimum": "number", "maxLength": "size", "minLength": "size", "pattern": "string", "maxItems": "size", "minItems": "size",
	"uniqueItems": "bool", "maxProperties": "size", "minProperties": "size", "required": "strings", "contentEncoding": "string",
	"contentMediaType": "string", "format": "string", "title": "string", "description": "string", "default": "any", "examples": "array",
	"contains": "schema",
}

// wellFormed checks every (sub)schema against the draft-07 vocabulary and resolves every reference.
func (d *schemaDoc) wellFormed(at string, s any, allowX bool) error {
	m, ok := s.(map[string]any)
	if !ok {
		if _, isb := s.(bool); isb {
			return nil
		}
		return fmt.Errorf("%s: a schema is %T", at, s)
	}
	for k, v := range m {
		kind, known := schemaKeywords[k]
		if !known {
			if allowX && strings.HasPrefix(k, "x-") {
				continue
			}
			return fmt.Errorf("%s: unknown keyword %q", at, k)
		}
		bad := false
		switch kind {
		case "string", "type":
			_, ok := v.(string)
			bad = !ok
			if k == "$ref" && ok {
				t, err := d.resolve(v.(string))
				if err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
				if _, ok := t.(map[string]any); !ok {
					return fmt.Errorf("%s: reference %q points to %T", at, v, t)
				}
			}
			if k == "pattern" && ok {
				if _, err := regexp.Compile(v.(string)); err != nil {
					return fmt.Errorf("%s: %v", at, err)
				}
			}
			if kind == "type" && ok && !strings.Contains(" string integer number boolean null array object ", " "+v.(string)+" ") {
				return fmt.Errorf("%s: type %q", at, v)
			}
		case "bool":
			_, ok := v.(bool)
			bad = !ok
		case "array":
			_, ok := v.([]any)
			bad = !ok
		case "number", "size":
			n, ok := v.(json.Number)
			bad = !ok
			if ok {
				q, ok := new(big.Rat).SetString(string(n))
				bad = !ok || kind == "size" && (!q.IsInt() || q.Sign() < 0)
			}
		case "strings":
			a, ok := v.([]any)
			bad = !ok
			seen := map[string]bool{}
			for _, x := range a {
				s, ok := x.(string)
				bad = bad || !ok || seen[s]
				seen[s] = true
			}
		case "schema":
			if err := d.wellFormed(at+"/"+k, v, allowX); err != nil {
				return err
			}
		case "schemas":
			mm, ok := v.(map[string]any)
			bad = !ok
			for n, x := range mm {
				if err := d.wellFormed(at+"/"+k+"/"+n, x, allowX); err != nil {
					return err
				}
			}
		case "list":
			a, ok := v.([]any)
			bad = !ok || len(a) == 0
			for i, x := range a {
				if err := d.wellFormed(fmt.Sprintf("%s/%s/%d", at, k, i), x, allowX); err != nil {
					return err
				}
			}
		}
		if bad {
			return fmt.Errorf("%s: keyword %q has value %s", at, k, jsonText(v))
		}
	}
	return nil
}

// rounded replaces the numbers in a value by the nearest float64: number types hold float64 values, whose decimal text
// is not exact.
func rounded(v any) any {
	switch x := v.(type) {
	case []any:
		o := make([]any, len(x))
		for i := range x {
			o[i] = rounded(x[i])
		}
		return o
	case map[string]any:
		o := map[string]any{}
		for k := range x {
			o[k] = rounded(x[k])
		}
		return o
	}
	if q, ok := ratOf(v); ok {
		f, _ := q.Float64()
		return f
	}
	return v
}

// valid evaluates a value (JSON, numbers as float64). multipleOf and format are ignored on request of the caller: they
// are annotations here.
func (d *schemaDoc) valid(s any, v any, depth int) (bool, error) {
	if depth > 400 {
		return false, fmt.Errorf("schema recursion without consuming the value")
	}
	if b, ok := s.(bool); ok {
		return b, nil
	}
	m, ok := s.(map[string]any)
	if !ok {
		return false, fmt.Errorf("schema is %T", s)
	}
	if r, ok := m["$ref"].(string); ok { // siblings of $ref are ignored in draft-07
		t, err := d.resolve(r)
		if err != nil {
			return false, err
		}
		d.refs++
		return d.valid(t, v, depth+1)
	}
	all := true
	fail := func(c bool) {
		if c {
			all = false
		}
	}
	sub := func(x any, w any) (bool, error) { return d.valid(x, w, depth+1) }
	num := func(n any) *big.Rat {
		if m["type"] != any("integer") {
			n = rounded(n)
		}
		q, _ := ratOf(n)
		return q
	}
	if t, ok := m["type"].(string); ok {
		switch t {
		case "null":
			fail(v != nil)
		case "boolean":
			_, ok := v.(bool)
			fail(!ok)
		case "string":
			_, ok := v.(string)
			fail(!ok)
		case "number", "integer":
			q, ok := ratOf(v)
			fail(!ok || t == "integer" && !q.IsInt())
		case "array":
			_, ok := v.([]any)
			fail(!ok)
		case "object":
			_, ok := v.(map[string]any)
			fail(!ok)
		default:
			return false, fmt.Errorf("type %q", t)
		}
	}
	if e, ok := m["enum"].([]any); ok {
		hit := false
		for _, x := range e {
			if m["type"] == any("number") {
				x = rounded(x)
			}
			hit = hit || sameValue(x, v)
		}
		fail(!hit)
	}
	if e, ok := m["const"]; ok {
		fail(!sameValue(e, v))
	}
	size := func(lo, hi string, n int) {
		if x, ok := m[lo].(json.Number); ok {
			q, _ := new(big.Rat).SetString(string(x))
			fail(q.Cmp(new(big.Rat).SetInt64(int64(n))) > 0)
		}
		if x, ok := m[hi].(json.Number); ok {
			q, _ := new(big.Rat).SetString(string(x))
			fail(q.Cmp(new(big.Rat).SetInt64(int64(n))) < 0)
		}
	}
	if q, ok := ratOf(v); ok {
		if x, ok := m["minimum"].(json.Number); ok {
			fail(q.Cmp(num(x)) < 0)
		}
		if x, ok := m["maximum"].(json.Number); ok {
			fail(q.Cmp(num(x)) > 0)
		}
	}
	switch x := v.(type) {
	case string:
		size("minLength", "maxLength", utf8.RuneCountInString(x))
		if p, ok := m["pattern"].(string); ok {
			fail(!re(p).MatchString(x))
		}
	case []any:
		size("minItems", "maxItems", len(x))
		if it, ok := m["items"]; ok {
			for _, w := range x {
				g, err := sub(it, w)
				if err != nil {
					return false, err
				}
				fail(!g)
			}
		}
		if u, ok := m["uniqueItems"].(bool); ok && u {
			for i := range x {
				for j := 0; j < i; j++ {
					fail(sameValue(x[i], x[j]))
				}
			}
		}
	case map[string]any:
		size("minProperties", "maxProperties", len(x))
		if rq, ok := m["required"].([]any); ok {
			for _, k := range rq {
				_, has := x[k.(string)]
				fail(!has)
			}
		}
		props, _ := m["properties"].(map[string]any)
		pats, _ := m["patternProperties"].(map[string]any)
		for k, w := range x {
			seen := false
			if p, ok := props[k]; ok {
				seen = true
				g, err := sub(p, w)
				if err != nil {
					return false, err
				}
				fail(!g)
			}
			for pat, p := range pats {
				if re(pat).MatchString(k) {
					seen = true
					g, err := sub(p, w)
					if err != nil {
						return false, err
					}
					fail(!g)
				}
			}
			if ap, ok := m["additionalProperties"]; ok && !seen {
				g, err := sub(ap, w)
				if err != nil {
					return false, err
				}
				fail(!g)
			}
		}
	}
	if l, ok := m["allOf"].([]any); ok {
		for _, p := range l {
			g, err := sub(p, v)
			if err != nil {
				return false, err
			}
			fail(!g)
		}
	}
	if l, ok := m["anyOf"].([]any); ok {
		hit := false
		for _, p := range l {
			g, err := sub(p, v)
			if err != nil {
				return false, err
			}
			hit = hit || g
		}
		fail(!hit)
	}
	return all, nil
}

// ---------------------------------------------------------------- values the two languages may legitimately see differently

var (
	coarseDTO  = regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d$`)
	coarse2616 = regexp.MustCompile(`^\w{3}, \d\d \w{3} \d{4} \d\d:\d\d:\d\d GMT$`)
)

// schemaAccept is the verdict of the declaration where string-format kinds are plain strings and multipleOf is ignored.
// known is false where the languages are allowed to differ.
func schemaAccept(e *Eff, v any) (ok, known bool) {
	known = true
	return schemaAcc(e, v, 0, &known), known
}

func schemaAcc(e *Eff, v any, depth int, known *bool) bool {
	e.get()
	if depth > 100 {
		*known = false
		return false
	}
	switch e.Kind {
	case "json":
		*known = false
		return true
	case "file":
		if s, ok := v.(string); ok {
			for _, ch := range s {
				if ch > 126 {
					*known = false
				}
			}
		}
	case "date-only", "time-only", "datetime", "datetime-only":
		s, ok := v.(string)
		if !ok {
			return false
		}
		if e.Kind == "datetime-only" {
			if coarseDTO.MatchString(s) && !dateOK(e.Kind, e.Format, s) {
				*known = false
			}
			return coarseDTO.MatchString(s)
		}
		if e.Kind == "datetime" && e.Format != nil && *e.Format == "rfc2616" {
			if coarse2616.MatchString(s) && !dateOK(e.Kind, e.Format, s) {
				*known = false
			}
			return coarse2616.MatchString(s)
		}
		return true
	case "array":
		a, ok := v.([]any)
		if !ok {
			return false
		}
		sh := *e
		sh.Items, sh.state = nil, 2
		res := acceptDepth(&sh, v, 0)
		if e.Items != nil {
			for _, x := range a {
				if !schemaAcc(e.Items, x, depth+1, known) {
					res = false
				}
			}
		}
		return res
	case "object":
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		sh := *e
		sh.Props, sh.PProps, sh.state, sh.Addl = nil, nil, 2, nil
		res := acceptDepth(&sh, v, 0)
		for _, p := range e.Props {
			if _, has := m[p.Name]; !has && p.Required {
				res = false
			}
		}
		for k, x := range m {
			var hit []*Eff
			if p := findEP(e.Props, k); p != nil {
				hit = append(hit, p.E)
			}
			for _, p := range e.PProps {
				if re(p.Name).MatchString(k) {
					hit = append(hit, p.E)
				}
			}
			if len(hit) > 1 {
				*known = false
			}
			for _, h := range hit {
				if !schemaAcc(h, x, depth+1, known) {
					res = false
				}
			}
			if len(hit) == 0 && e.Addl != nil && !*e.Addl {
				res = false
			}
		}
		return res
	case "union":
		res := false
		for _, m := range e.Members {
			if schemaAcc(m, v, depth+1, known) {
				res = true
			}
		}
		return res
	}
	return acceptDepth(e, v, 0)
}
