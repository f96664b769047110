package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

// restyle rewrites a YAML document with other quoting, flow/block layout and comments; the node tree is unchanged.
func restyle(r *Rand, text string) (string, bool) {
	head := ""
	if strings.HasPrefix(text, "#%RAML") {
		i := strings.IndexByte(text, '\n')
		head, text = strings.TrimRight(text[:i], "\r"), text[i+1:]
	}
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(text), &n); err != nil || n.Kind != yaml.DocumentNode {
		return "", false
	}
	var walk func(n *yaml.Node, flow bool)
	walk = func(n *yaml.Node, flow bool) {
		n.HeadComment, n.LineComment, n.FootComment = "", "", ""
		if !flow && r.P(15) {
			n.HeadComment = "# " + r.Pick("note", "a: b", "- x", "{", "types:")
		}
		switch n.Kind {
		case yaml.MappingNode, yaml.SequenceNode:
			n.Style &^= yaml.FlowStyle
			if flow || r.P(25) {
				n.Style |= yaml.FlowStyle
				flow = true
			}
		case yaml.ScalarNode:
			if n.Tag == "!include" {
				n.Style = yaml.TaggedStyle
				if r.P(30) {
					n.Style |= yaml.DoubleQuotedStyle
				}
			} else if n.Tag == "!!str" {
				n.Style = []yaml.Style{0, yaml.DoubleQuotedStyle, yaml.SingleQuotedStyle, yaml.LiteralStyle}[r.N(4)]
				if flow && n.Style == yaml.LiteralStyle {
					n.Style = yaml.DoubleQuotedStyle
				}
			}
		}
		for i, k := range n.Content {
			walk(k, flow)
			if n.Kind == yaml.MappingNode && i%2 == 0 && k.Style == yaml.LiteralStyle {
				k.Style = yaml.DoubleQuotedStyle
			}
		}
	}
	walk(n.Content[0], false)
	n.HeadComment, n.FootComment, n.LineComment = "", "", ""
	var w bytes.Buffer
	e := yaml.NewEncoder(&w)
	e.SetIndent(r.Range(2, 6))
	if e.Encode(&n) != nil {
		return "", false
	}
	e.Close()
	var back yaml.Node
	if yaml.Unmarshal(w.Bytes(), &back) != nil || !sameTree(n.Content[0], back.Content[0]) {
		return "", false // the encoder itself changed the document
	}
	out := w.String()
	if head != "" {
		out = head + "\n" + out
	}
	return out, true
}

func sameTree(a, c *yaml.Node) bool {
	if a.Kind != c.Kind || a.Tag != c.Tag || a.Value != c.Value || len(a.Content) != len(c.Content) {
		return false
	}
	for i := range a.Content {
		if !sameTree(a.Content[i], c.Content[i]) {
			return false
		}
	}
	return true
}

// reorder permutes declarations, uses, annotations, custom facets and explicit properties everywhere.
func reorder(r *Rand, pr *Project) {
	for _, f := range pr.Frags {
		f.Types = shuffled(r, f.Types)
		f.Anns = shuffled(r, f.Anns)
		f.Uses = shuffled(r, f.Uses)
		f.Apply = shuffled(r, f.Apply)
	}
	pr.walk(func(_ *Frag, t *TNode) {
		t.Annots = shuffled(r, t.Annots)
		t.Custom = shuffled(r, t.Custom)
		t.FacetDefs = shuffled(r, t.FacetDefs)
		var ps, pps []*Prop
		for _, p := range t.Props {
			if p.Pattern {
				pps = append(pps, p)
			} else {
				ps = append(ps, p)
			}
		}
		if len(pps) == 0 {
			t.Props = shuffled(r, ps)
			return
		}
		ps = shuffled(r, ps) // pattern properties keep their relative order, which has a meaning
		var out []*Prop
		for len(ps)+len(pps) > 0 {
			if len(pps) == 0 || len(ps) > 0 && r.P(50) {
				out, ps = append(out, ps[0]), ps[1:]
			} else {
				out, pps = append(out, pps[0]), pps[1:]
			}
		}
		t.Props = out
	})
}

func shuffled[T any](r *Rand, s []T) []T {
	out := make([]T, 0, len(s))
	for _, i := range r.Perm(len(s)) {
		out = append(out, s[i])
	}
	return out
}

// rename gives every file another path and every alias another name.
func rename(r *Rand, pr *Project) {
	for i, f := range pr.Frags {
		f.Path = path.Join(r.Pick("", "zz", "n/m", "a b", "ünï"), fmt.Sprintf("%s%d.raml", r.Pick("q", "lib", "w-"), i))
		if f.Kind == FJSON {
			f.Path = strings.TrimSuffix(f.Path, ".raml") + "schema.json"
		}
	}
	for _, f := range pr.Frags {
		for i, u := range f.Uses {
			u.Alias = fmt.Sprintf("%s%d", r.Pick("nn", "Z", "k_"), len(f.Uses)-i)
		}
	}
}

// canonSchema sorts the keys and the required lists of a schema.
func canonSchema(t string) string {
	var v any
	if json.Unmarshal([]byte(t), &v) != nil {
		return t
	}
	var rec func(v any)
	rec = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			if a, ok := x["required"].([]any); ok {
				sort.Slice(a, func(i, j int) bool { return fmt.Sprint(a[i]) < fmt.Sprint(a[j]) })
			}
			for _, w := range x {
				rec(w)
			}
		case []any:
			for _, w := range x {
				rec(w)
			}
		}
	}
	rec(v)
	o, _ := json.Marshal(v)
	return string(o)
}

type seenType struct {
	d    declShape
	dump string
	text string // schema
	vals []any
	ok   []bool
}

func init() {
	register(&Check{ID: "C05", Rule: "case = random project (30% with a random semantic edit, so that rejected ones occur), loaded three times as it is, then after restyling the YAML (quoting, flow/block, comments, indentation, CRLF), shuffling facets, reordering declarations/uses/annotations/properties, renaming all aliases and files, and entered as a string. Monitors: equal accept/reject verdicts; identical dumps (ids, positions included) and byte-identical schemas for identical sources; bisimilar models, equal value verdicts, byte-identical schemas after restyling and equal canonical schemas after reordering (meaning compared on values when the schema is recursive). Distinct: (variant, verdict, number of files, kinds)",
		Quick: 5000, Thorough: 100000,
		Require: map[string]int{"accepted": 5000, "rejected": 800, "models": 20000, "schemas": 20000, "values": 40000, "restyled": 1000},
		Run: func(c *Case) {
			o := fullOpts()
			o.Types = 8
			o.Recursion = c.R.P(30)
			o.Derive = c.R.N(50)
			pr, ref := genProject(c.R.Fork("gen"), o)
			if len(ref.Verdict()) > 0 {
				c.Count("generator_rejects", 1)
				return
			}
			what := ""
			if c.R.P(30) {
				what = breakProject(c.R, pr, ref)
				ref = NewRef(pr)
			}
			sty := randStyle(c.R)
			sty.CRLF, sty.Shuffle = false, false
			seed := *sty.R
			files := pr.Render(sty)
			c.Source(files)
			entry := pr.Frags[0].Path
			var base []*seenType
			recursive := false
			ok0 := false
			kinds := ""
			run := func(variant string, files map[string]string, entry string, str bool) bool {
				root := c.newRoot()
				writeFiles(root, files)
				load := loadPath
				if str {
					load = loadString
				}
				l, err := load(root, entry, true, true)
				c.Eval(1)
				bad := func(f string, a ...any) bool {
					c.Violate("%s: %s (edit %q)\n%s\n======== variant\n%s", variant, fmt.Sprintf(f, a...), what, clip(allFiles(c.files), 2000), clip(allFiles(files), 1800))
					return false
				}
				if err == nil {
					c.Count("accepted", 1)
				} else {
					c.Count("rejected", 1)
				}
				if base == nil && variant == "first" {
					ok0 = err == nil
				}
				c.Key(variant, fmt.Sprint(err == nil, len(files)), what, kinds)
				if (err == nil) != ok0 {
					return bad("accepted=%v, but the first time %v: %v", err == nil, ok0, err)
				}
				if err != nil {
					return true
				}
				ds := l.all(pr, ref)
				first := variant == "first"
				identical := strings.HasPrefix(variant, "again")
				ordered := variant == "restyled" || variant == "string" || identical
				idx := map[*Eff]*seenType{}
				for _, s := range base {
					idx[s.d.e] = s
				}
				for _, d := range ds {
					if d.b == nil {
						return bad("%s is missing", d.name)
					}
					t, err := convert(d.b, false)
					if err != nil {
						return bad("%s: conversion fails: %v", d.name, err)
					}
					if first {
						s := &seenType{d: d, text: t, dump: dump(d.b, viewOpts{pos: true, base: root}), vals: genValues(c.R, d.e, 6)}
						for _, v := range s.vals {
							s.ok = append(s.ok, d.b.Validate(v) == nil)
						}
						recursive = recursive || strings.Contains(t, `"$ref":"#/definitions/`) && strings.Count(t, `"$ref"`) > 1
						base = append(base, s)
						kinds += d.e.Kind + ","
						continue
					}
					s := idx[d.e]
					if s == nil {
						return bad("%s was not there", d.name)
					}
					c.Count("models", 1)
					if identical {
						if g := dump(d.b, viewOpts{pos: true, base: root}); g != s.dump {
							return bad("%s: another model for the same sources:\n%s\n%s", d.name, s.dump, g)
						}
					}
					vo := viewOpts{sorted: !ordered, noAlias: true}
					if x := bisim(d.name, s.d.b, d.b, vo, map[[2]*bsh]bool{}); x != "" {
						return bad("another model: %s", x)
					}
					for i, v := range s.vals {
						c.Count("values", 1)
						if (d.b.Validate(v) == nil) != s.ok[i] {
							return bad("%s: verdict of value %s was %v", d.name, jsonText(v), s.ok[i])
						}
					}
					c.Count("schemas", 1)
					switch {
					case ordered:
						if t != s.text {
							return bad("%s: another schema:\n%s\n%s", d.name, s.text, t)
						}
					case strings.Count(t, `"$ref"`) == 1 && strings.Count(s.text, `"$ref"`) == 1:
						a, z := canonSchema(s.text), canonSchema(t)
						if a != z && filepath.Base(d.name) == filepath.Base(s.d.name) {
							return bad("%s: another schema:\n%s\n%s", d.name, a, z)
						}
					default:
						d1, e1 := parseSchema([]byte(s.text))
						d2, e2 := parseSchema([]byte(t))
						if e1 != nil || e2 != nil {
							return bad("%s: schema: %v %v", d.name, e1, e2)
						}
						for _, v := range s.vals {
							r1, _ := d1.valid(d1.root, v, 0)
							r2, _ := d2.valid(d2.root, v, 0)
							if r1 != r2 {
								return bad("%s: the schemas disagree on %s:\n%s\n%s", d.name, jsonText(v), s.text, t)
							}
						}
					}
				}
				if !first && len(ds) != len(base) {
					return bad("%d types, were %d", len(ds), len(base))
				}
				return true
			}
			if !run("first", files, entry, false) || !run("again", files, entry, false) || !run("string", files, entry, true) {
				return
			}
			re := map[string]string{}
			for k, v := range files {
				re[k] = v
				if strings.Contains(k, "schema") {
					continue // the text of a JSON schema is part of the model
				}
				if strings.HasSuffix(k, ".json") {
					var w bytes.Buffer
					if json.Indent(&w, []byte(v), "", " \t") == nil {
						re[k] = w.String()
					}
				} else if t, ok := restyle(c.R, v); ok {
					c.Count("restyled", 1)
					re[k] = t
				} else {
					c.Count("not_restyled", 1)
				}
				if c.R.P(20) {
					re[k] = strings.ReplaceAll(re[k], "\n", "\r\n")
				}
			}
			if !run("restyled", re, entry, c.R.P(30)) || !run("again2", files, entry, false) {
				return
			}
			sty2 := sty
			sty2.R = &seed
			sty2.Shuffle = true
			sty2.CRLF = c.R.P(30)
			if !run("facets shuffled", pr.Render(sty2), entry, false) {
				return
			}
			reorder(c.R, pr)
			if !run("reordered", pr.Render(sty2), entry, c.R.P(30)) {
				return
			}
			rename(c.R, pr)
			run("renamed", pr.Render(randStyle(c.R)), pr.Frags[0].Path, c.R.P(30))
			_ = recursive
		}})
}
