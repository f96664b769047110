package main

import (
	"fmt"
	"math"
	"strings"
)

// prepare generates a valid project, prints it and loads it unwrapped and validated. ok is false when a violation was
// already reported or the case is not usable.
func (c *Case) prepare(o GenOpts, sty Style) (pr *Project, ref *Ref, l *Loaded, ok bool) {
	pr, ref = genProject(c.R.Fork("gen"), o)
	if r := c.R.Fork("overlap"); o.Overlap && r.P(35) {
		pr.walk(func(_ *Frag, t *TNode) {
			for _, p := range t.Props {
				if p.Pattern && r.P(70) {
					i := r.N(len(t.Props) + 1)
					q := &Prop{Name: r.Pick(propPatterns...), Pattern: true, T: bi(r.Pick("string", "integer", "boolean", "nil", "object", "any"))}
					for _, x := range t.Props {
						if x.Name == q.Name {
							return
						}
					}
					t.Props = append(t.Props[:i:i], append([]*Prop{q}, t.Props[i:]...)...)
					return
				}
			}
		})
		ref = NewRef(pr)
	}
	if v := ref.Verdict(); len(v) > 0 {
		c.Count("generator_rejects", 1)
		return nil, nil, nil, false
	}
	files := pr.Render(sty)
	c.Source(files)
	l, err := c.load(files, pr.Frags[0].Path, true, true)
	if err != nil {
		c.Violate("a valid project is rejected: %v", err)
		return nil, nil, nil, false
	}
	c.Count("projects", 1)
	return pr, ref, l, true
}

func randStyle(r *Rand) Style {
	return Style{R: r.Fork("style"), Step: r.Range(1, 4), Noise: r.P(70), Shuffle: r.P(60), CRLF: r.P(15)}
}

// numForms gives the value with whole numbers in the other Go types that decoders and callers produce for them.
func numForms(r *Rand, v any) any {
	switch x := v.(type) {
	case float64:
		if x != math.Trunc(x) || !r.P(60) {
			return v
		}
		var fs []any
		if x >= -(1<<63) && x < 1<<63 {
			fs = append(fs, int(x), int(x), int64(x))
		}
		if x >= 0 && x < 1<<64 {
			fs = append(fs, uint(x), uint64(x))
		}
		if len(fs) > 0 {
			return fs[r.N(len(fs))]
		}
	case []any:
		out := make([]any, len(x))
		for i := range x {
			out[i] = numForms(r, x[i])
		}
		return out
	case map[string]any:
		out := map[string]any{}
		for k, w := range x {
			out[k] = numForms(r, w)
		}
		return out
	}
	return v
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func allFiles(files map[string]string) string {
	var sb strings.Builder
	for k, v := range files {
		fmt.Fprintf(&sb, "--- %s\n%s", k, v)
	}
	return sb.String()
}

func init() {
	register(&Check{ID: "C01", Rule: "case = random valid project (libraries, DataType fragments, all built-in kinds and facets, nesting, derivation); every declared type is probed with valid, boundary-mutated and stray values in float64 and int form; the oracle is an independent evaluator over the printed declarations. Distinct: (kind, facets present, verdict) of the probed type and the value's shape",
		Quick: 10000, Thorough: 200000,
		Require: map[string]int{"accepted": 20000, "rejected": 20000, "projects": 1000},
		Run: func(c *Case) {
			o := fullOpts()
			o.Recursion = c.R.P(30)
			o.Overlap = true
			pr, ref, l, ok := c.prepare(o, randStyle(c.R))
			if !ok {
				return
			}
			r := c.R.Fork("values")
			for _, d := range pr.decls() {
				base := l.decl(d)
				if base == nil {
					c.Violate("declared type %s missing from the model", d.Name)
					return
				}
				e := ref.decl(d).get()
				for _, v := range genValues(r, e, 14) {
					want := ref.accept(e, v)
					probe := numForms(r, v)
					err := base.Validate(probe)
					c.Eval(1)
					if want {
						c.Count("accepted", 1)
					} else {
						c.Count("rejected", 1)
					}
					c.Key(e.Kind, fmt.Sprint(want), fmt.Sprintf("%T", v), facetKey(e))
					c.Count("kind_"+e.Kind, 1)
					if (err == nil) != want {
						c.Violate("type %s (%s, %s): value %s: Validate says %v, the declaration says accept=%v\n%s", d.Name, e.Kind, d.Frag.Path,
							jsonText(v), err, want, clip(allFiles(c.files), 2500))
						return
					}
				}
				if e.Kind == "number" || e.Kind == "integer" {
					for _, v := range []float64{math.Inf(1), math.Inf(-1), math.NaN()} {
						want := e.Kind == "number"
						if (e.Min != nil && !(v > 0)) || (e.Max != nil && !(v < 0)) || e.HasEnum {
							want = false
						}
						if math.IsNaN(v) && want {
							continue // left open for numbers without limits
						}
						c.Eval(1)
						c.Count("not_finite", 1)
						if err := base.Validate(v); (err == nil) != want {
							c.Violate("type %s (%s, %s): value %v: Validate says %v, the declaration says accept=%v\n%s", d.Name, e.Kind, d.Frag.Path,
								v, err, want, clip(allFiles(c.files), 2500))
							return
						}
					}
				}
			}
			if c.Idx < 3 {
				c.Sample(clip(allFiles(c.files), 1500))
			}
		}})
}

// facetKey names the set of facets in force.
func facetKey(e *Eff) string {
	var ss []string
	add := func(b bool, s string) {
		if b {
			ss = append(ss, s)
		}
	}
	add(e.MinLength != nil, "minl")
	add(e.MaxLength != nil, "maxl")
	add(e.Pattern != nil, "pat")
	add(e.HasEnum, "enum")
	add(e.Min != nil, "min")
	add(e.Max != nil, "max")
	add(e.MultipleOf != nil, "mult")
	add(e.Format != nil, "fmt")
	add(e.Items != nil, "items")
	add(e.MinItems != nil, "mini")
	add(e.MaxItems != nil, "maxi")
	add(e.Unique != nil, "uniq")
	add(len(e.Props) > 0, "props")
	add(len(e.PProps) > 0, "pprops")
	add(e.Addl != nil, "addl")
	add(e.MinProps != nil, "minp")
	add(e.MaxProps != nil, "maxp")
	add(e.Disc != nil, "disc")
	for _, m := range e.Members {
		ss = append(ss, "u:"+m.get().Kind)
	}
	return strings.Join(ss, ",")
}
