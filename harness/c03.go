package main

import (
	"fmt"
	"strconv"
)

// ---------------------------------------------------------------- override table

// ovr is one parent/child pair of facet settings with the verdict the property demands.
type ovr struct {
	name          string
	parent, child func(t *TNode)
	pk, ck        string // kinds of parent and child declarations
	ok            bool
	nested        bool // cannot stand at top level
}

var ovrTable = buildOverrides()

func buildOverrides() []ovr {
	var out []ovr
	none := func(*TNode) {}
	add := func(kind, name string, ok bool, p, c func(t *TNode)) {
		out = append(out, ovr{name: kind + " " + name, parent: p, child: c, pk: kind, ck: kind, ok: ok})
	}
	type setU func(t *TNode, v uint64)
	lowU := func(kind, name string, set setU) { // a lower bound
		for _, v := range []uint64{1, 3, 7} {
			for _, d := range []int{-1, 0, 1, 5} {
				v, w := v, uint64(int(v)+d)
				add(kind, fmt.Sprintf("%s %d->%d", name, v, w), d >= 0, func(t *TNode) { set(t, v) }, func(t *TNode) { set(t, w) })
			}
		}
		add(kind, name+" inherited", true, func(t *TNode) { set(t, 3) }, none)
		add(kind, name+" added", true, none, func(t *TNode) { set(t, 3) })
		add(kind, name+" 4->0", false, func(t *TNode) { set(t, 4) }, func(t *TNode) { set(t, 0) })
	}
	highU := func(kind, name string, set setU) {
		for _, v := range []uint64{1, 3, 7} {
			for _, d := range []int{-1, 0, 1, 5} {
				v, w := v, uint64(int(v)+d)
				add(kind, fmt.Sprintf("%s %d->%d", name, v, w), d <= 0, func(t *TNode) { set(t, v) }, func(t *TNode) { set(t, w) })
			}
		}
		add(kind, name+" inherited", true, func(t *TNode) { set(t, 3) }, none)
		add(kind, name+" added", true, none, func(t *TNode) { set(t, 3) })
		add(kind, name+" 0->1", false, func(t *TNode) { set(t, 0) }, func(t *TNode) { set(t, 1) })
	}
	crossU := func(kind, name string, lo, hi setU) { // effective minimum above effective maximum
		for _, d := range []int{-1, 0, 1} {
			d := d
			ok := d <= 0
			add(kind, fmt.Sprintf("%s own min %d max 4", name, 4+d), ok, none, func(t *TNode) { lo(t, uint64(4+d)); hi(t, 4) })
			add(kind, fmt.Sprintf("%s max 4 then min %d", name, 4+d), ok, func(t *TNode) { hi(t, 4) }, func(t *TNode) { lo(t, uint64(4+d)) })
			add(kind, fmt.Sprintf("%s min %d then max 4", name, 4+d), ok, func(t *TNode) { lo(t, uint64(4+d)) }, func(t *TNode) { hi(t, 4) })
		}
	}
	minL := func(t *TNode, v uint64) { t.MinLength = &v }
	maxL := func(t *TNode, v uint64) { t.MaxLength = &v }
	for _, k := range []string{"string", "file"} {
		lowU(k, "minLength", minL)
		highU(k, "maxLength", maxL)
		crossU(k, "length", minL, maxL)
	}
	minI := func(t *TNode, v uint64) { t.MinItems = &v }
	maxI := func(t *TNode, v uint64) { t.MaxItems = &v }
	lowU("array", "minItems", minI)
	highU("array", "maxItems", maxI)
	crossU("array", "items", minI, maxI)
	minP := func(t *TNode, v uint64) { t.MinProps = &v }
	maxP := func(t *TNode, v uint64) { t.MaxProps = &v }
	lowU("object", "minProperties", minP)
	highU("object", "maxProperties", maxP)
	crossU("object", "properties", minP, maxP)
	for _, k := range []string{"integer", "number"} {
		vals := []string{"-9223372036854775809", "-70", "-1", "0", "1", "5", "9007199254740993", "9007199254740995", "18446744073709551615"}
		if k == "number" {
			vals = []string{"-1e10", "-70.5", "-0.25", "0", "0.125", "5", "5.5", "1e10"}
		}
		num := func(s string) func(t *TNode) { return func(t *TNode) { t.Minimum = &s } }
		numM := func(s string) func(t *TNode) { return func(t *TNode) { t.Maximum = &s } }
		for _, a := range vals {
			for _, c := range vals {
				if k == "integer" && a == "-9223372036854775809" || c == "-9223372036854775809" {
					continue // YAML integers below the int64 range are decoded as floats
				}
				add(k, "minimum "+a+"->"+c, rat(c).Cmp(rat(a)) >= 0, num(a), num(c))
				add(k, "maximum "+a+"->"+c, rat(c).Cmp(rat(a)) <= 0, numM(a), numM(c))
				a, c := a, c
				add(k, "range max "+a+" then min "+c, rat(c).Cmp(rat(a)) <= 0, numM(a), num(c))
				add(k, "range own "+c+".."+a, rat(c).Cmp(rat(a)) <= 0, none, func(t *TNode) { t.Minimum, t.Maximum = &c, &a })
			}
		}
		add(k, "minimum inherited", true, num("3"), none)
		add(k, "maximum inherited", true, numM("3"), none)
		enum := func(v ...any) func(t *TNode) { return func(t *TNode) { t.Enum, t.HasEnum = v, true } }
		add(k, "enum same", true, enum(1.0, 2.0, 3.0), enum(3.0, 1.0, 2.0))
		add(k, "enum subset", true, enum(1.0, 2.0, 3.0), enum(2.0))
		add(k, "enum other", false, enum(1.0, 2.0), enum(3.0))
		add(k, "enum first outside", false, enum(1.0, 2.0), enum(4.0, 1.0))
		add(k, "enum last outside", false, enum(1.0, 2.0), enum(1.0, 2.0, 4.0))
		add(k, "enum middle outside", false, enum(1.0, 2.0), enum(1.0, 4.0, 2.0))
		add(k, "enum added", true, none, enum(1.0))
		add(k, "enum inherited", true, enum(1.0), none)
		add(k, "enum of strings", false, none, enum("a"))
		add(k, "enum with boolean", false, none, enum(1.0, true))
		if k == "integer" {
			add(k, "enum with fraction", false, none, enum(1.0, 1.5))
		}
		mult := func(f float64) func(t *TNode) { return func(t *TNode) { t.MultipleOf = &f } }
		add(k, "multipleOf changed", true, mult(2), mult(4))
	}
	fmtF := func(s string) func(t *TNode) { return func(t *TNode) { t.Format = &s } }
	class := map[string]string{"int": "int32", "long": "int64"}
	ifs := []string{"int8", "int16", "int32", "int", "int64", "long"}
	cl := func(s string) string {
		if c := class[s]; c != "" {
			return c
		}
		return s
	}
	for _, a := range ifs {
		for _, c := range ifs {
			add("integer", "format "+a+"->"+c, cl(a) == cl(c), fmtF(a), fmtF(c))
		}
	}
	for _, a := range []string{"float", "double"} {
		for _, c := range []string{"float", "double"} {
			add("number", "format "+a+"->"+c, a == c, fmtF(a), fmtF(c))
		}
	}
	for _, a := range []string{"rfc3339", "rfc2616"} {
		for _, c := range []string{"rfc3339", "rfc2616"} {
			add("datetime", "format "+a+"->"+c, a == c, fmtF(a), fmtF(c))
		}
		add("datetime", "format inherited "+a, true, fmtF(a), none)
		add("datetime", "format default->"+a, a == "rfc3339", none, fmtF(a))
	}
	senum := func(v ...any) func(t *TNode) { return func(t *TNode) { t.Enum, t.HasEnum = v, true } }
	add("string", "enum same", true, senum("a", "b"), senum("b", "a"))
	add("string", "enum subset", true, senum("a", "b", "c"), senum("c"))
	add("string", "enum other", false, senum("a", "b"), senum("c"))
	add("string", "enum first outside", false, senum("a", "b"), senum("c", "a"))
	add("string", "enum last outside", false, senum("a", "b"), senum("a", "b", "c"))
	add("string", "enum middle outside", false, senum("a", "b"), senum("a", "c", "b"))
	add("string", "enum case", false, senum("a"), senum("A"))
	add("string", "enum added", true, none, senum("a"))
	add("string", "enum inherited", true, senum("a"), none)
	add("string", "enum of numbers", false, none, senum("a", 1.0))
	add("string", "enum of numbers first", false, none, senum(1.0, "a"))
	add("boolean", "enum subset", true, senum(true, false), senum(true))
	add("boolean", "enum other", false, senum(true), senum(false))
	add("boolean", "enum wider", false, senum(true), senum(true, false))
	add("boolean", "enum of strings", false, none, senum("true"))
	add("boolean", "enum inherited", true, senum(true), none)
	ft := func(v ...string) func(t *TNode) { return func(t *TNode) { t.FileTypes = v } }
	add("file", "fileTypes same", true, ft("image/png", "image/jpeg"), ft("image/jpeg", "image/png"))
	add("file", "fileTypes subset", true, ft("image/png", "image/jpeg"), ft("image/jpeg"))
	add("file", "fileTypes other", false, ft("image/png"), ft("image/jpeg"))
	add("file", "fileTypes wider", false, ft("image/png"), ft("image/png", "image/jpeg"))
	add("file", "fileTypes wider first", false, ft("image/png"), ft("image/jpeg", "image/png"))
	add("file", "fileTypes added", true, none, ft("image/png"))
	add("file", "fileTypes inherited", true, ft("image/png"), none)
	uniq := func(v bool) func(t *TNode) { return func(t *TNode) { t.Unique = &v } }
	add("array", "uniqueItems on->off", false, uniq(true), uniq(false))
	add("array", "uniqueItems on->on", true, uniq(true), uniq(true))
	add("array", "uniqueItems off->on", true, uniq(false), uniq(true))
	add("array", "uniqueItems off->off", true, uniq(false), uniq(false))
	add("array", "uniqueItems inherited", true, uniq(true), none)
	add("array", "uniqueItems added off", true, none, uniq(false))
	items := func(k string) func(t *TNode) { return func(t *TNode) { t.Items = bi(k) } }
	add("array", "items kept", true, items("string"), items("string"))
	add("array", "items other kind", false, items("string"), items("integer"))
	add("array", "items added", true, none, items("integer"))
	add("array", "items inherited", true, items("integer"), none)
	pat := func(s string) func(t *TNode) { return func(t *TNode) { t.Pattern = &s } }
	add("string", "pattern changed", true, pat("^a"), pat("^ab"))

	// properties
	props := func(ps ...func() *Prop) func(t *TNode) {
		return func(t *TNode) {
			t.HasProps = true
			for _, p := range ps {
				t.Props = append(t.Props, p())
			}
		}
	}
	pp := func(n string, req bool, style int, k string) func() *Prop {
		return func() *Prop { return &Prop{Name: n, Required: req, Style: style, T: bi(k)} }
	}
	for sp := 0; sp < 2; sp++ {
		for sc := 0; sc < 2; sc++ {
			s := fmt.Sprintf(" styles %d%d", sp, sc)
			add("object", "required->optional"+s, false, props(pp("a", true, sp, "string")), props(pp("a", false, sc, "string")))
			add("object", "required->required"+s, true, props(pp("a", true, sp, "string")), props(pp("a", true, sc, "string")))
			add("object", "optional->required"+s, true, props(pp("a", false, sp, "string")), props(pp("a", true, sc, "string")))
			add("object", "optional->optional"+s, true, props(pp("a", false, sp, "string")), props(pp("a", false, sc, "string")))
			add("object", "second required->optional"+s, false, props(pp("z", false, 0, "string"), pp("a", true, sp, "string")), props(pp("z", false, 0, "string"), pp("q", true, 0, "nil"), pp("a", false, sc, "string")))
		}
	}
	add("object", "property added", true, props(pp("a", true, 0, "string")), props(pp("b", true, 0, "string")))
	add("object", "properties inherited", true, props(pp("a", true, 0, "string")), none)
	kinds := []string{"string", "integer", "number", "boolean", "datetime", "datetime-only", "date-only", "time-only", "file", "nil", "array", "object"}
	for _, a := range kinds {
		for _, c := range kinds {
			if a == "number" && c == "integer" {
				continue // whether integer narrows number is left open
			}
			out = append(out, ovr{name: "kind " + a + "->" + c, pk: a, ck: c, parent: none, child: none, ok: a == c})
		}
		out = append(out, ovr{name: "kind any->" + a, pk: "any", ck: a, parent: none, child: none, ok: true})
		out = append(out, ovr{name: "kind " + a + "->any", pk: a, ck: "any", parent: none, child: none, ok: false})
	}
	// unions
	un := func(name string, ok bool, p, c *TRef) {
		set := func(x *TRef) func(t *TNode) { return func(t *TNode) { t.Ref = x } }
		out = append(out, ovr{name: "union " + name, pk: "string", ck: "string", parent: set(p), child: set(c), ok: ok, nested: true})
	}
	S, I, B, A, N := b("string"), b("integer"), b("boolean"), b("array"), b("nil")
	for _, p := range []*TRef{uni(S, I), uni(I, S), uni(S, I, N), uni(A, I, S)} {
		t := "of " + exprText(nil, p, nil) + " "
		un(t+"kept", true, p, p)
		un(t+"to string", true, p, S)
		un(t+"to integer", true, p, I)
		un(t+"to boolean", false, p, B)
		un(t+"to any", false, p, b("any"))
		un(t+"reordered", true, p, uni(S, I))
		un(t+"added last", false, p, uni(S, I, B))
		un(t+"added first", false, p, uni(B, S, I))
		un(t+"replaced", false, p, uni(S, B))
	}
	un("alternative dropped", true, uni(S, I, N), uni(S, N))
	un("optional to required kind", true, optT(S), S)
	un("optional to nil", true, optT(S), N)
	un("optional to other", false, optT(S), I)
	un("optional to other optional", false, optT(S), optT(I))
	un("kind to optional", false, S, optT(S))
	un("kind to union", false, S, uni(S, I))
	un("kind to union of same kind", true, S, uni(S, S))
	un("any to union", true, b("any"), uni(S, I))
	un("union with any to other", true, uni(S, b("any")), I)
	un("union with any to union", true, uni(S, b("any")), uni(I, B))
	un("array of", true, arr(S), arr(S))
	un("array of other", false, arr(S), arr(I))
	un("array of union to array of one", true, arr(uni(S, I)), arr(I))
	un("array of one to array of union", false, arr(I), arr(uni(S, I)))
	un("array of any to array of one", true, arr(b("any")), arr(I))
	un("array to array of one", true, b("array"), arr(I))
	// discriminator
	disc := func(s string) func(t *TNode) { return func(t *TNode) { t.Discriminator = &s } }
	both := func(fs ...func(t *TNode)) func(t *TNode) {
		return func(t *TNode) {
			for _, f := range fs {
				f(t)
			}
		}
	}
	add("object", "discriminator on scalar property", true, props(pp("d", true, 0, "string")), disc("d"))
	add("object", "discriminator on unknown property", false, props(pp("d", true, 0, "string")), disc("e"))
	add("object", "discriminator without properties", false, none, disc("e"))
	for _, k := range []string{"object", "array"} {
		add("object", "discriminator on "+k, false, props(pp("d", true, 0, k)), disc("d"))
		add("object", "own discriminator on "+k, false, none, both(props(pp("d", true, 0, k)), disc("d")))
	}
	add("object", "discriminator on union", false, none, both(props(func() *Prop { return prop("d", inl(uni(b("string"), b("integer")))) }), disc("d")))
	dv := func(v any) func(t *TNode) { return func(t *TNode) { t.DiscValue = v } }
	add("object", "discriminatorValue of wrong kind", false, both(props(pp("d", true, 0, "integer")), disc("d")), dv("x"))
	add("object", "discriminatorValue of right kind", true, both(props(pp("d", true, 0, "integer")), disc("d")), dv(7.0))
	ppat := func(k string) func() *Prop {
		return func() *Prop { return &Prop{Name: "^x-", Pattern: true, T: bi(k)} }
	}
	addl := func(v bool) func(t *TNode) { return func(t *TNode) { t.AddlProps = &v } }
	add("object", "pattern properties with closed object", false, none, both(props(ppat("string")), addl(false)))
	add("object", "pattern properties closed by child", false, props(ppat("string")), addl(false))
	add("object", "pattern properties with open object", true, props(ppat("string")), addl(true))
	add("object", "pattern property kind changed", false, props(ppat("string")), props(ppat("integer")))
	add("object", "pattern property kept", true, props(ppat("string")), props(ppat("string")))
	return out
}

// mk makes the declaration of one side.
func (o *ovr) mk(kind string, f func(t *TNode)) *TNode {
	t := &TNode{Ref: b(kind)}
	f(t)
	return t
}

var ovrPositions = []string{"top", "property", "optional property", "pattern", "items", "property.property", "items.items", "property.items", "items.property", "pattern.property", "named property", "named items"}

// ovrProject builds a project whose validity hangs on the pair only. It returns the deepest derived declaration.
func ovrProject(r *Rand, o *ovr, pos string, chain, place int) (*Project, *Decl) {
	pr := &Project{}
	main := &Frag{Kind: FLibrary, Path: "main.raml"}
	pr.Frags = []*Frag{main}
	libs := []*Frag{main}
	if place >= 1 {
		l := &Frag{Kind: FLibrary, Path: "libs/base.raml"}
		main.Uses = append(main.Uses, &Use{Alias: "base", To: l})
		pr.Frags = append(pr.Frags, l)
		libs = append(libs, l)
	}
	pf := libs[len(libs)-1]
	isTop := pos == "top"
	pn, cn := o.mk(o.pk, o.parent), o.mk(o.ck, o.child)
	if pos == "named property" || pos == "named items" {
		pn = inl(rn(pf.add("NamedParent", pn)))
		cn = inl(rn(main.add("NamedChild", cn)))
	}
	wrap := func(t *TNode) *TNode {
		one := func(k string, t *TNode) *TNode {
			switch k {
			case "property":
				return &TNode{Ref: b("object"), HasProps: true, Props: []*Prop{prop("v", t)}}
			case "optional property":
				return &TNode{Ref: b("object"), HasProps: true, Props: []*Prop{oprop("v", t)}}
			case "pattern":
				return &TNode{Ref: b("object"), HasProps: true, Props: []*Prop{{Name: "^x-", Pattern: true, T: t}}}
			}
			return &TNode{Ref: b("array"), Items: t}
		}
		switch pos {
		case "top":
			return t
		case "property.property":
			return one("property", one("property", t))
		case "items.items":
			return one("items", one("items", t))
		case "property.items":
			return one("property", one("items", t))
		case "items.property":
			return one("items", one("property", t))
		case "pattern.property":
			return one("pattern", one("property", t))
		case "named property":
			return one("property", t)
		case "named items":
			return one("items", t)
		}
		return one(pos, t)
	}
	P := wrap(pn)
	var parent *TRef
	if place == 2 { // the parent is a DataType fragment
		dt := &Frag{Kind: FDataType, Path: "dts/parent.raml", DT: P}
		pr.Frags = append(pr.Frags, dt)
		parent = &TRef{K: RInclude, Frag: dt}
		if pos == "named property" || pos == "named items" {
			dt.Uses = append(dt.Uses, &Use{Alias: "b", To: pf})
		}
	} else {
		parent = rn(pf.add("Parent", P))
	}
	for i := 0; i < chain; i++ {
		t := &TNode{Ref: parent}
		switch r.N(4) {
		case 0:
			t.Description = pt("step")
		case 1:
			t = inl(parent) // an alias step (a derivation for includes)
		case 2:
			if o.pk == "object" && isTop || pos != "top" && P.HasProps {
				t.HasProps = true
				t.Props = []*Prop{oprop("step"+strconv.Itoa(i), bi("integer"))}
				if t.Props[0].Name == "" {
					panic("name")
				}
			}
		}
		f := libs[r.N(len(libs))]
		if parent.K == RNamed && parent.Decl.Frag == main {
			f = main
		}
		parent = rn(f.add("Step"+strconv.Itoa(i), t))
	}
	c := wrap(cn)
	if isTop && (o.pk != o.ck || o.nested) {
		return nil, nil
	}
	obj := c.HasProps || isTop && o.pk == "object"
	c.Ref = parent
	if obj && r.P(20) && parent.K == RNamed { // multiple inheritance
		other := main.add("Other", &TNode{Ref: b("object"), HasProps: true, Props: []*Prop{oprop("other", bi("string"))}})
		subs := []*TRef{parent, rn(other)}
		if r.P(50) {
			subs[0], subs[1] = subs[1], subs[0]
		}
		c.Ref = &TRef{K: RMulti, Sub: subs}
	}
	d := main.add("Child", c)
	// a grandchild must not hide the fault
	if r.P(30) {
		main.add("Grand", &TNode{Ref: rn(d)})
	}
	if r.P(30) {
		main.add("User", obj2(d))
	}
	if r.P(50) {
		p := r.Perm(len(main.Types))
		ts := make([]*Decl, len(p))
		for i, j := range p {
			ts[i] = main.Types[j]
		}
		main.Types = ts
	}
	return pr, d
}

func obj2(d *Decl) *TNode { return &TNode{HasProps: true, Props: []*Prop{oprop("u", inl(rn(d)))}} }

// verdictOf loads the project in the given mode and says whether it was accepted.
func (c *Case) verdictOf(files map[string]string, entry string, unwrap bool) error {
	_, err := c.load(files, entry, unwrap, true)
	return err
}

func init() {
	np := len(ovrPositions)
	register(&Check{ID: "C03", Rule: "two kinds of cases. Table cases: every row of a table of parent/child facet settings with the demanded verdict (facets of every kind at -1/0/+1 of the parent's value, enum, format, fileTypes, kind pairs, required/optional, discriminator) is placed at each of 12 positions (top level, property, pattern, items, nested, named) under a chain of 0-3 intermediate types, in the same library, another library or a DataType fragment, with single or multiple inheritance. Edit cases: one random facet edit of a valid random project, judged by the reference flattener. The verdict of ParseFromPath with and without OptWithUnwrap (both with OptWithValidate) must be the demanded one. Distinct: (row, position) and (edited facet, kind, verdict)",
		Quick: 3500, Thorough: 60000,
		Require: map[string]int{"table_rejected": 3000, "table_accepted": 3000, "edit_rejected": 300, "edit_accepted": 300},
		Run: func(c *Case) {
			r := c.R
			if c.Idx%3 == 2 {
				editCase(c)
				return
			}
			k := c.Idx/3*2 + c.Idx%3
			for j := 0; j < 8; j++ {
				n := k*8 + j
				o := &ovrTable[n%len(ovrTable)]
				pos := ovrPositions[(n/len(ovrTable)+n%len(ovrTable))%np]
				chain := r.N(4)
				place := r.N(3)
				pr, _ := ovrProject(r, o, pos, chain, place)
				if pr == nil {
					continue
				}
				if v := NewRef(pr).Verdict(); (len(v) == 0) != o.ok {
					if o.ok && len(pos) > 5 && pos[:5] == "named" {
						continue // the named child is not valid on its own
					}
					panic(fmt.Sprintf("table and reference disagree on %s at %s: %v\n%s", o.name, pos, v, allFiles(pr.Render(Style{}))))
				}
				files := pr.Render(randStyle(r))
				c.Source(files)
				unwrap := r.P(70)
				err := c.verdictOf(files, "main.raml", unwrap)
				c.Eval(1)
				c.Key(o.name, pos)
				if o.ok {
					c.Count("table_accepted", 1)
				} else {
					c.Count("table_rejected", 1)
				}
				if (err == nil) != o.ok {
					c.Violate("override %q at %s (chain of %d, placement %d, unwrap=%v): accepted=%v, should be accepted=%v; error: %v\n%s", o.name, pos, chain, place, unwrap, err == nil, o.ok, err, clip(allFiles(files), 3000))
					return
				}
				if c.Idx < 2 {
					c.Sample(clip(allFiles(files), 1000))
				}
			}
		}})
}

// editCase changes one facet of a valid project.
func editCase(c *Case) {
	o := fullOpts()
	o.Types = 8
	o.Depth = 2
	o.Recursion = c.R.P(20)
	o.Derive = 45
	o.Examples, o.Annotations = false, false
	pr, ref := genProject(c.R.Fork("gen"), o)
	if len(ref.Verdict()) > 0 {
		c.Count("generator_rejects", 1)
		return
	}
	var nodes []*TNode
	in := map[*Frag]bool{}
	for _, f := range pr.fragsReached() {
		in[f] = true
	}
	pr.walk(func(f *Frag, t *TNode) {
		if in[f] && !t.Inline && !t.Null {
			nodes = append(nodes, t)
		}
	})
	if len(nodes) == 0 {
		return
	}
	for j := 0; j < 6; j++ {
		t := nodes[c.R.N(len(nodes))]
		what, undo := editFacet(c.R, ref, t)
		if what == "" {
			continue
		}
		v := NewRef(pr).Verdict()
		files := pr.Render(randStyle(c.R))
		c.Source(files)
		unwrap := c.R.P(60)
		err := c.verdictOf(files, pr.Frags[0].Path, unwrap)
		c.Eval(1)
		ok := len(v) == 0
		c.Key("edit", what, ref.kindOf(t), fmt.Sprint(ok))
		if ok {
			c.Count("edit_accepted", 1)
		} else {
			c.Count("edit_rejected", 1)
			c.Count("edit_rejected_"+v[0].Kind, 1)
		}
		if (err == nil) != ok {
			c.Violate("edit %q at line %d of a valid project (unwrap=%v): accepted=%v, should be accepted=%v (%v); error: %v\n%s", what, t.Line, unwrap, err == nil, ok, v, err, clip(allFiles(files), 3500))
			return
		}
		undo()
	}
}

func (r *Ref) kindOf(t *TNode) string {
	if e := r.memo[t]; e != nil {
		return e.get().Kind
	}
	return "?"
}

// editFacet changes one facet of the declaration, near the effective value where there is one.
func editFacet(r *Rand, ref *Ref, t *TNode) (string, func()) {
	e := ref.memo[t]
	if e == nil {
		return "", nil
	}
	e.get()
	old := *t
	undo := func() { *t = old }
	u := func(eff *uint64) *uint64 {
		v := uint64(r.N(5))
		if eff != nil && r.P(80) {
			v = uint64(max(0, int(*eff)+r.Range(-1, 1)))
		}
		return &v
	}
	num := func(lo, hi bool) *string {
		q := e.Min
		if hi {
			q = e.Max
		}
		s := strconv.Itoa(r.Range(-60, 60))
		if q != nil && q.IsInt() && q.Num().IsInt64() && q.Num().Int64() > -1<<62 && q.Num().Int64() < 1<<62 {
			s = strconv.FormatInt(q.Num().Int64()+int64(r.Range(-1, 1)), 10)
		}
		return &s
	}
	switch e.Kind {
	case "string", "file":
		switch x := r.N(5); {
		case x < 2:
			t.MinLength = u(e.MinLength)
			return "minLength", undo
		case x < 4:
			t.MaxLength = u(e.MaxLength)
			return "maxLength", undo
		case e.Kind == "string":
			if e.HasEnum && r.P(70) {
				t.Enum, t.HasEnum = append([]any{}, e.Enum...), true
				if r.P(50) {
					t.Enum = append(t.Enum, "outside")
				}
			} else {
				t.Enum, t.HasEnum = []any{"a", "b"}, true
			}
			return "enum", undo
		case e.FileTypes != nil:
			t.FileTypes = append(append([]string{}, e.FileTypes...), "x/y")
			return "fileTypes", undo
		}
	case "integer", "number":
		switch r.N(5) {
		case 0, 1:
			t.Minimum = num(true, false)
			return "minimum", undo
		case 2, 3:
			t.Maximum = num(false, true)
			return "maximum", undo
		}
		t.Enum, t.HasEnum = append([]any{}, e.Enum...), true
		t.Enum = append(t.Enum, float64(r.Range(-20, 20)))
		return "enum", undo
	case "array":
		switch r.N(3) {
		case 0:
			t.MinItems = u(e.MinItems)
			return "minItems", undo
		case 1:
			t.MaxItems = u(e.MaxItems)
			return "maxItems", undo
		}
		t.Unique = pt(r.P(50))
		return "uniqueItems", undo
	case "object":
		switch r.N(6) {
		case 0:
			t.MinProps = u(e.MinProps)
			return "minProperties", undo
		case 1:
			t.MaxProps = u(e.MaxProps)
			return "maxProperties", undo
		case 2:
			var own []int
			for i, p := range t.Props {
				if !p.Pattern {
					own = append(own, i)
				}
			}
			if len(own) > 0 {
				i := own[r.N(len(own))]
				q := *t.Props[i]
				q.Required = !q.Required
				t.Props = append([]*Prop{}, t.Props...)
				t.Props[i] = &q
				oldReq := q.T.RequiredFacet
				return "required", func() { *t = old; q.T.RequiredFacet = oldReq }
			}
		case 3:
			if len(e.Props) > 0 {
				p := e.Props[r.N(len(e.Props))]
				t.Discriminator = pt(p.Name)
				return "discriminator", undo
			}
		case 4:
			if len(e.Props) > 0 { // override an effective property by another kind
				p := e.Props[r.N(len(e.Props))]
				for _, q := range t.Props {
					if q.Name == p.Name && !q.Pattern {
						return "", nil
					}
				}
				k := r.Pick("string", "integer", "boolean", "nil", "date-only")
				if p.E.get().Kind == "number" && k == "integer" {
					k = "string"
				}
				t.Props = append(append([]*Prop{}, t.Props...), &Prop{Name: p.Name, Required: p.Required || r.P(50), T: bi(k)})
				t.HasProps = true
				return "property override " + k, undo
			}
		case 5:
			t.AddlProps = pt(r.P(30))
			return "additionalProperties", undo
		}
	case "datetime":
		t.Format = pt(r.Pick("rfc3339", "rfc2616"))
		return "format", undo
	case "boolean":
		t.Enum, t.HasEnum = []any{r.P(50)}, true
		return "enum", undo
	}
	return "", nil
}
