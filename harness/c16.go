package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/acronis/go-raml/v2"
	"github.com/acronis/go-stacktrace"
)

// openFiles counts the descriptors of this process.
func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(es)
}

// wraps tells whether the error carries the target anywhere in its chain.
func wraps(err, target error) bool {
	if err == nil {
		return false
	}
	if errors.Is(err, target) {
		return true
	}
	if st, ok := err.(*stacktrace.StackTrace); ok {
		if st == nil {
			return false
		}
		if st.Err != nil && st.Err != err && wraps(st.Err, target) {
			return true
		}
		if st.Wrapped != nil && wraps(st.Wrapped, target) {
			return true
		}
		for _, x := range st.List {
			if wraps(x, target) {
				return true
			}
		}
		return false
	}
	switch u := err.(type) {
	case interface{ Unwrap() error }:
		return wraps(u.Unwrap(), target)
	case interface{ Unwrap() []error }:
		for _, x := range u.Unwrap() {
			if wraps(x, target) {
				return true
			}
		}
	}
	return false
}

type hookRun struct {
	r      *raml.RAML
	params string // what is wrong with the parameters of a call
	ctxKey struct{}
	log    []raml.HookKey
	count  map[raml.HookKey]int
	ends   []int // length of the log after every step
	err    error
	step   int // step that failed, -1 if none
	fds    int // descriptors opened and not closed
}

// runHooked processes a project step by step; the at-th call of the hook with the key fails with bad.
func runHooked(root, entry, steps string, opt bool, key raml.HookKey, at int, bad error) (h *hookRun) {
	h = &hookRun{r: raml.New(context.WithValue(context.Background(), hookRun{}.ctxKey, "value")), count: map[raml.HookKey]int{}, step: -1}
	for _, k := range hookKeys {
		k := k
		h.r.AppendHook(k, func(ctx context.Context, r *raml.RAML, params ...any) error {
			h.log = append(h.log, k)
			if r != h.r || ctx == nil || ctx.Value(hookRun{}.ctxKey) != "value" {
				h.params = fmt.Sprintf("hook %s is called for another instance or with another context", k)
			} else if s := badParams(k, params); s != "" {
				h.params = s
			}
			h.count[k]++
			if k == key && h.count[k] == at {
				return bad
			}
			return nil
		})
	}
	gc := debug.SetGCPercent(-1) // finalizers close forgotten files
	before := openFiles()
	defer func() {
		h.fds = openFiles() - before
		debug.SetGCPercent(gc)
	}()
	step := func(i int, f func() error) bool {
		h.err = f()
		h.ends = append(h.ends, len(h.log))
		if h.err != nil {
			h.step = i
		}
		return h.err == nil
	}
	p := filepath.Join(root, entry)
	if opt {
		step(0, func() error {
			return h.r.ParseFromPath(p, opts(strings.Contains(steps, "u"), strings.Contains(steps, "v"))...)
		})
		return
	}
	if !step(0, func() error { return h.r.ParseFromPath(p) }) {
		return
	}
	for i, s := range steps {
		f := h.r.UnwrapShapes
		if s == 'v' {
			f = h.r.ValidateShapes
		}
		if !step(i+1, f) {
			return
		}
	}
	return
}

var includeRE = regexp.MustCompile(`!include\s+("[^"]*"|'[^']*'|[^\s,\]\}]+)`)

// usedFiles lists the files the entry point needs.
func usedFiles(pr *Project, files map[string]string) []string {
	set := map[string]bool{}
	var todo []string
	for _, f := range pr.fragsReached() {
		todo = append(todo, f.Path)
	}
	for ; len(todo) > 0; todo = todo[1:] {
		if set[todo[0]] {
			continue
		}
		set[todo[0]] = true
		if !strings.HasSuffix(todo[0], ".raml") {
			continue
		}
		for _, m := range includeRE.FindAllStringSubmatch(files[todo[0]], -1) {
			p := filepath.Join(filepath.Dir(todo[0]), strings.Trim(m[1], `"'`))
			if _, ok := files[p]; ok {
				todo = append(todo, p)
			}
		}
	}
	var out []string
	for p := range set {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// faultFile damages one file; certain tells whether an error must follow.
func faultFile(r *Rand, path, text string) (what string, certain bool) {
	base := strings.HasSuffix(path, ".raml")
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	switch r.N(9) {
	case 0, 1:
		must(os.Remove(path))
		return "missing", true
	case 2:
		must(os.Remove(path))
		must(os.Mkdir(path, 0o755))
		return "a directory", true
	case 3:
		must(os.Remove(path))
		must(os.Symlink(filepath.Base(path), path))
		return "a link to itself", true
	case 4:
		must(os.Remove(path))
		must(os.Symlink(path+".gone", path))
		return "a dangling link", true
	case 5:
		if base {
			n := r.N(10)
			must(os.WriteFile(path, []byte(text[:n]), 0o644))
			return fmt.Sprintf("truncated to %d bytes", n), true
		}
		if strings.HasSuffix(path, ".json") {
			t := strings.TrimRight(text, " \r\n\t")
			if len(t) > 2 && (t[0] == '{' || t[0] == '[') {
				n := r.Range(1, len(t)-1)
				must(os.WriteFile(path, []byte(t[:n]), 0o644))
				return fmt.Sprintf("JSON truncated to %d bytes", n), true
			}
		}
		must(os.Remove(path))
		return "missing", true
	case 6:
		if base {
			kinds := []string{"#%RAML 1.0 Library", "#%RAML 1.0 DataType", "#%RAML 1.0 NamedExample"}
			i := strings.IndexAny(text, "\r\n")
			h := strings.TrimRight(text[:i], " \t")
			var others []string
			for _, k := range kinds {
				if k != h {
					others = append(others, k)
				}
			}
			k := others[r.N(2)]
			must(os.WriteFile(path, []byte(k+text[i:]), 0o644))
			return fmt.Sprintf("of kind %q", k), true
		}
		if ext := filepath.Ext(path); ext == ".yaml" || ext == ".yml" {
			must(os.WriteFile(path, []byte(r.Pick("a: [\n", "\ta: 1\n", "- {\n", "\"abc\n")), 0o644))
			return "broken YAML", true
		}
		must(os.Remove(path))
		return "missing", true
	case 7:
		n := r.N(len(text) + 1)
		must(os.WriteFile(path, []byte(text[:n]), 0o644))
		return fmt.Sprintf("cut to %d bytes", n), false
	default:
		if base {
			must(os.WriteFile(path, []byte(text+"\n\t- {"), 0o644))
			return "broken at its end", false
		}
		if strings.HasSuffix(path, ".json") {
			must(os.WriteFile(path, []byte("{\"a\": "), 0o644))
			return "broken JSON", true
		}
		if ext := filepath.Ext(path); ext == ".yaml" || ext == ".yml" {
			must(os.WriteFile(path, []byte("v: [1, 2\n"), 0o644))
			return "broken YAML", true
		}
		must(os.Remove(path))
		return "missing", true
	}
}

// ---------------------------------------------------------------- registration histories

var histLog []string

func histA(context.Context, *raml.RAML, ...any) error { histLog = append(histLog, "A"); return nil }
func histB(context.Context, *raml.RAML, ...any) error { histLog = append(histLog, "B"); return nil }
func histC(context.Context, *raml.RAML, ...any) error { histLog = append(histLog, "C"); return nil }
func histD(context.Context, *raml.RAML, ...any) error { histLog = append(histLog, "D"); return nil }

var histCtx context.Context
var histCtxOf *raml.RAML

func histCapture(ctx context.Context, r *raml.RAML, _ ...any) error {
	histLog = append(histLog, "X")
	histCtx, histCtxOf = ctx, r
	return nil
}

var histFuncs = map[string]raml.HookFunc{"A": histA, "B": histB, "C": histC, "D": histD, "X": histCapture, "0": nil}

type histInst struct {
	r      *raml.RAML
	lists  map[raml.HookKey][]string
	shape  *raml.BaseShape
	parsed bool
	ops    []string
}

const histLib = `#%RAML 1.0 Library
annotationTypes:
  an: string
types:
  P:
    type: object
    properties:
      a: integer | string
    example: {a: 1}
  Q:
    type: P
    (an): x
    properties:
      a: integer
      b?: string[]
  U:
    type: string | integer
    enum: [1]
`

func c16History(c *Case) {
	root := c.newRoot()
	lib := strings.Replace(histLib, "    enum: [1]\n", "", 1)
	writeFiles(root, map[string]string{"h.raml": lib, "d.raml": "#%RAML 1.0 DataType\ntype: object\nproperties:\n  a: string\n"})
	c.Source(map[string]string{"h.raml": lib})
	events := map[rune][]raml.HookKey{} // keys in the order they are called by an operation
	ops := []rune{'p', 'u', 'v'}
	{
		h := runHooked(root, "h.raml", "uv", false, "", 0, nil)
		if h.err != nil {
			c.Violate("library of the histories is rejected: %v", h.err)
			return
		}
		at := 0
		for i, e := range h.ends {
			events[ops[i]] = h.log[at:e]
			at = e
		}
	}
	insts := []*histInst{{r: raml.New(context.Background()), lists: map[raml.HookKey][]string{}}}
	var hot []raml.HookKey
	for _, k := range hookKeys {
		if c.R.P(40) {
			hot = append(hot, k)
		}
	}
	hot = append(hot, raml.HookBeforeValidateShapes, raml.HookBeforeUnwrapShape)
	var trace []string
	say := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	run := func(in *histInst, n int, op rune) bool {
		histLog = nil
		var err error
		switch op {
		case 'p':
			err = in.r.ParseFromPath(filepath.Join(root, "h.raml"))
			if err == nil {
				b, _ := in.r.EntryPoint().(*raml.Library).Types.Get("Q")
				in.shape, in.parsed = b, true
			}
		case 'u':
			err = in.r.UnwrapShapes()
		case 'v':
			err = in.r.ValidateShapes()
		}
		say("instance %d: operation %c", n, op)
		if err != nil {
			c.Violate("operation %c fails with hooks that return nil: %v\nhistory:\n%s", op, err, strings.Join(trace, "\n"))
			return false
		}
		var want []string
		for _, k := range events[op] {
			for _, h := range in.lists[k] {
				if h != "0" {
					want = append(want, h)
				}
			}
		}
		if got, exp := strings.Join(histLog, ""), strings.Join(want, ""); got != exp {
			c.Violate("instance %d: hooks called by operation %c: %s\nwant %s\nhistory:\n%s", n, op, got, exp, strings.Join(trace, "\n"))
			return false
		}
		c.Count("history_calls", len(histLog))
		c.Key("history", string(op), strings.Join(want, ""))
		return true
	}
	// a shape that belongs to no instance takes hooks as well
	for _, f := range []func(*raml.BaseShape, raml.HookKey){
		func(s *raml.BaseShape, k raml.HookKey) { s.AppendRAMLHook(k, histA) },
		func(s *raml.BaseShape, k raml.HookKey) { s.PrepenRAMLHook(k, histA) },
		func(s *raml.BaseShape, k raml.HookKey) { s.RemoveRAMLHook(k, histA) },
		func(s *raml.BaseShape, k raml.HookKey) { s.ClearRAMLHooks(k) },
	} {
		f(&raml.BaseShape{}, hot[c.R.N(len(hot))])
	}
	stage := map[*histInst]int{}
	for i := c.R.Range(10, 40); i > 0; i-- {
		n := c.R.N(len(insts))
		in := insts[n]
		k := hot[c.R.N(len(hot))]
		name := c.R.Pick("A", "B", "C", "D", "A", "B", "X", "0")
		if name == "X" {
			k = raml.HookBeforeValidateShapes
		}
		f := histFuncs[name]
		viaShape := in.shape != nil && c.R.P(40)
		c.Eval(1)
		switch c.R.N(12) {
		case 0, 1, 2:
			if viaShape {
				in.shape.AppendRAMLHook(k, f)
			} else {
				in.r.AppendHook(k, f)
			}
			in.lists[k] = append(append([]string{}, in.lists[k]...), name)
			say("instance %d: append %s to %s (shape %v)", n, name, k, viaShape)
		case 3, 4:
			if viaShape {
				in.shape.PrepenRAMLHook(k, f)
			} else {
				in.r.PrependHook(k, f)
			}
			in.lists[k] = append([]string{name}, in.lists[k]...)
			say("instance %d: prepend %s to %s (shape %v)", n, name, k, viaShape)
		case 5, 6, 7:
			if name == "0" {
				continue
			}
			if viaShape {
				in.shape.RemoveRAMLHook(k, f)
			} else {
				in.r.RemoveHook(k, f)
			}
			var l []string
			done := false
			for _, x := range in.lists[k] {
				if x == name && !done {
					done = true
					continue
				}
				l = append(l, x)
			}
			in.lists[k] = l
			say("instance %d: remove %s from %s (shape %v)", n, name, k, viaShape)
		case 8:
			if viaShape {
				in.shape.ClearRAMLHooks(k)
			} else {
				in.r.ClearHooks(k)
			}
			in.lists[k] = nil
			say("instance %d: clear %s (shape %v)", n, k, viaShape)
		case 9:
			// an instance created from the context another one passes to its hooks starts with the same hooks
			if len(insts) < 4 && histCtx != nil && histCtxOf != nil {
				var from *histInst
				for _, x := range insts {
					if x.r == histCtxOf {
						from = x
					}
				}
				// the context is the one of the last operation: take it again, now
				if from == nil || stage[from] != 3 || !contains(from.lists[raml.HookBeforeValidateShapes], "X") {
					continue
				}
				if !run(from, 0, 'v') {
					return
				}
				ni := &histInst{r: raml.New(histCtx), lists: map[raml.HookKey][]string{}}
				for k, l := range from.lists {
					ni.lists[k] = append([]string{}, l...)
				}
				insts = append(insts, ni)
				c.Count("derived_instances", 1)
				say("instance %d: created from the context of another one", len(insts)-1)
			}
		default:
			st := stage[in]
			if st < 3 {
				if !run(in, n, ops[st]) {
					return
				}
				stage[in] = st + 1
			} else if !run(in, n, 'v') {
				return
			}
		}
	}
	for n, in := range insts {
		for stage[in] < 3 {
			if !run(in, n, ops[stage[in]]) {
				return
			}
			stage[in]++
		}
	}
	histCtx, histCtxOf = nil, nil
	c.Count("histories", 1)
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C16", Rule: "case A (45%): random project processed step by step or by options with counting hooks at all 18 hook points; then for every hook point that was reached the hook fails at its first, last and random invocations, each on a fresh instance: the operation in progress (and none before it) must return an error that carries the hook's error, the calls before the fault must equal the fault-free log, and no descriptor may stay open; hooks that return nil leave models and verdict as without hooks. Case B (35%): every file the entry point needs is made missing, a directory, a link loop, dangling, truncated, of the wrong kind or broken: an error must follow where the damage is certain, never a panic or an open descriptor; after repair a fresh instance gives the original model. Case C (20%): random histories of append/prepend/remove/clear through RAML and BaseShape on up to 4 instances, some created from the context of another; the order of calls must equal the list model. Distinct: (hook point, failing step, verdict), (fault, file kind, verdict), call sequences",
		Quick: 4500, Thorough: 300000,
		Require: map[string]int{"hook_faults": 15000, "file_faults": 2500, "histories": 200, "history_calls": 5000, "fd_checks": 15000, "fresh_models": 1000},
		Run: func(c *Case) {
			x := c.R.N(100)
			if x >= 80 {
				c16History(c)
				return
			}
			o := fullOpts()
			o.Types = c.R.Range(3, 8)
			o.Recursion = c.R.P(30)
			o.Derive = c.R.N(60)
			pr, ref := genProject(c.R.Fork("gen"), o)
			if len(ref.Verdict()) > 0 {
				c.Count("generator_rejects", 1)
				return
			}
			files := pr.Render(randStyle(c.R))
			c.Source(files)
			root := c.newRoot()
			writeFiles(root, files)
			entry := pr.Frags[0].Path
			steps := c.R.Pick("uv", "uv", "v", "vu", "u")
			opt := steps != "vu" && c.R.P(30)
			base := runHooked(root, entry, steps, opt, "", 0, nil)
			if base.err != nil {
				c.Violate("valid project rejected: %v", base.err)
				return
			}
			if base.params != "" {
				c.Violate("%s", base.params)
				return
			}
			dumps := func(r *raml.RAML) string {
				l := &Loaded{root, entry, r}
				s := ""
				for _, d := range l.all(pr, ref) {
					s += d.name + dump(d.b, viewOpts{pos: true, base: root}) + "\n"
				}
				return s
			}
			model := dumps(base.r)
			plainRun := func() bool { // without hooks
				r := raml.New(context.Background())
				p := filepath.Join(root, entry)
				var err error
				if opt {
					err = r.ParseFromPath(p, opts(strings.Contains(steps, "u"), strings.Contains(steps, "v"))...)
				} else {
					err = r.ParseFromPath(p)
					for _, s := range steps {
						if err == nil && s == 'u' {
							err = r.UnwrapShapes()
						} else if err == nil {
							err = r.ValidateShapes()
						}
					}
				}
				if err != nil {
					c.Violate("a fresh instance without hooks rejects the project: %v", err)
					return false
				}
				if m := dumps(r); m != model {
					c.Violate("hooks that return nil, or faults in other instances, change the model:\n%s\nwithout:\n%s", model, m)
					return false
				}
				c.Count("fresh_models", 1)
				return true
			}
			if !plainRun() {
				return
			}
			if x < 45 {
				c16HookFaults(c, root, entry, steps, opt, base)
				if !c.Failed() {
					plainRun()
				}
				return
			}
			used := usedFiles(pr, files)
			for _, p := range used {
				full := filepath.Join(root, p)
				for k := 0; k < 2; k++ {
					what, certain := faultFile(c.R, full, files[p])
					if p == entry && strings.HasPrefix(what, "of kind") {
						certain = false // the entry point may be of any kind
					}
					h := runHooked(root, entry, steps, opt, "", 0, nil)
					c.Eval(1)
					c.Count("file_faults", 1)
					c.Count("fd_checks", 1)
					c.Key("file", what, filepath.Ext(p), fmt.Sprint(p == entry, h.err == nil))
					if h.fds != 0 {
						c.Violate("%s is %s: %d descriptors stay open", p, what, h.fds)
						return
					}
					if h.err == nil && certain {
						c.Violate("%s is %s, but no error is returned", p, what)
						return
					}
					if h.err != nil && h.step != 0 && certain {
						c.Violate("%s is %s: the error is returned by step %d, not by parsing: %v", p, what, h.step, h.err)
						return
					}
					if err := os.RemoveAll(full); err != nil {
						panic(err)
					}
					writeFiles(root, map[string]string{p: files[p]})
				}
			}
			plainRun()
		}})
}

func c16HookFaults(c *Case, root, entry, steps string, opt bool, base *hookRun) {
	bad := errors.New("fault of the hook")
	for _, k := range hookKeys {
		n := base.count[k]
		if n == 0 {
			continue
		}
		at := map[int]bool{1: true, n: true}
		for i := 0; i < 3; i++ {
			at[c.R.Range(1, n)] = true
		}
		for i := 1; i <= n; i++ {
			if !at[i] {
				continue
			}
			// position in the fault-free log and the step it belongs to
			pos, seen := 0, 0
			for pos = range base.log {
				if base.log[pos] == k {
					seen++
					if seen == i {
						break
					}
				}
			}
			step := 0
			for pos >= base.ends[step] {
				step++
			}
			h := runHooked(root, entry, steps, opt, k, i, bad)
			c.Eval(1)
			c.Count("hook_faults", 1)
			c.Count("fd_checks", 1)
			c.Key("hook", string(k), fmt.Sprint(step, opt, h.err != nil), steps)
			fail := func(f string, a ...any) {
				c.Violate("hook %s fails at call %d of %d (steps %q, options %v): %s", k, i, n, steps, opt, fmt.Sprintf(f, a...))
			}
			if h.count[k] < i {
				fail("the hook was only called %d times", h.count[k])
				return
			}
			for j := 0; j <= pos; j++ {
				if h.log[j] != base.log[j] {
					fail("call %d was for %s, without the fault for %s", j, h.log[j], base.log[j])
					return
				}
			}
			if h.err == nil {
				fail("no error is returned")
				return
			}
			if h.step != step {
				fail("the error is returned by step %d, the hook failed in step %d", h.step, step)
				return
			}
			if !wraps(h.err, bad) {
				fail("the returned error does not carry the hook's error: %v", h.err)
				return
			}
			if h.fds != 0 {
				fail("%d descriptors stay open", h.fds)
				return
			}
		}
	}
}
