package main

import (
	"context"
	"fmt"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/acronis/go-raml/v2"
)

// job is one project processed by one instance, and what is observed of it.
type job struct {
	id    int
	pr    *Project
	ref   *Ref
	root  string
	entry string
	steps string // options or a sequence of u, v
	str   bool
	decls []declShape // names and values only
	vals  [][]any
	obs   jobObs
	tasks []int
}

type jobObs struct {
	done     bool
	ok       bool
	errText  string
	panicked string
	hooks    map[raml.HookKey]int
	foreign  string
	dumps    []string
	schemas  []string
	verdicts string
	pr       string
	shapes   int
	anns     int
}

// process parses and processes the project of the job and observes the result.
func (j *job) process(ctx context.Context, yield func(job int, k raml.HookKey)) {
	o := &j.obs
	defer func() {
		if p := recover(); p != nil {
			o.panicked = fmt.Sprintf("%v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	r := raml.New(ctx)
	o.hooks = map[raml.HookKey]int{}
	for _, k := range hookKeys {
		k := k
		h := func(_ context.Context, r2 *raml.RAML, _ ...any) error {
			if r2 != r {
				o.foreign = fmt.Sprintf("hook %s of job %d was called for another instance", k, j.id)
				return nil
			}
			o.hooks[k]++
			if yield != nil {
				yield(j.id, k)
			}
			return nil
		}
		if len(j.steps)%2 == 0 {
			r.AppendHook(k, h)
		} else {
			r.PrependHook(k, h)
		}
	}
	l := &Loaded{j.root, j.entry, r}
	var err error
	if j.str {
		var text []byte
		if text, err = readFile(filepath.Join(j.root, j.entry)); err == nil {
			full := filepath.Join(j.root, j.entry)
			err = r.ParseFromString(string(text), filepath.Base(full), filepath.Dir(full))
		}
	} else {
		err = r.ParseFromPath(filepath.Join(j.root, j.entry))
	}
	for _, s := range j.steps {
		if err != nil {
			break
		}
		if s == 'u' {
			err = r.UnwrapShapes()
		} else {
			err = r.ValidateShapes()
		}
	}
	o.done, o.ok = true, err == nil
	if err != nil {
		o.errText = err.Error()
		return
	}
	o.shapes = len(r.GetShapes())
	o.anns = len(r.GetAllAnnotations())
	unwrapped := strings.Contains(j.steps, "u")
	for i, d := range j.decls {
		b := j.find(l, d)
		if b == nil {
			o.dumps = append(o.dumps, "missing "+d.name)
			continue
		}
		o.dumps = append(o.dumps, dump(b, viewOpts{pos: true, base: j.root}))
		if !unwrapped {
			continue
		}
		var w strings.Builder
		for _, v := range j.vals[i] {
			if b.Validate(v) == nil {
				w.WriteByte('1')
			} else {
				w.WriteByte('0')
			}
		}
		o.verdicts += w.String() + " "
		t, err := convert(b, i%2 == 0)
		if err != nil {
			t = "error"
		}
		o.schemas = append(o.schemas, t)
		if yield != nil {
			yield(j.id, "")
		}
	}
}

func (j *job) find(l *Loaded, d declShape) *raml.BaseShape {
	if d.frag.Kind != FLibrary {
		if t := l.dt(d.frag.Path); t != nil {
			return t.Shape
		}
		return nil
	}
	lib := l.lib(d.frag.Path)
	if lib == nil {
		return nil
	}
	name := d.name[strings.IndexByte(d.name, '#')+1:]
	for _, x := range d.frag.Anns {
		if x.Name == name && d.e == j.ref.decl(x) {
			b, _ := lib.AnnotationTypes.Get(name)
			return b
		}
	}
	b, _ := lib.Types.Get(name)
	return b
}

// diff compares a concurrent observation with the sequential one.
func (o *jobObs) diff(s *jobObs) string {
	if o.panicked != "" {
		return "panic: " + o.panicked
	}
	if o.foreign != "" {
		return o.foreign
	}
	if o.ok != s.ok {
		return fmt.Sprintf("accepted=%v, alone accepted=%v: %s%s", o.ok, s.ok, o.errText, s.errText)
	}
	if !o.ok {
		return ""
	}
	for _, k := range hookKeys {
		if o.hooks[k] != s.hooks[k] {
			return fmt.Sprintf("hook %s was called %d times, alone %d times", k, o.hooks[k], s.hooks[k])
		}
	}
	if o.shapes != s.shapes || o.anns != s.anns {
		return fmt.Sprintf("%d shapes and %d annotations, alone %d and %d", o.shapes, o.anns, s.shapes, s.anns)
	}
	for i := range s.dumps {
		if o.dumps[i] != s.dumps[i] {
			return fmt.Sprintf("another model:\n%s\nalone:\n%s", o.dumps[i], s.dumps[i])
		}
	}
	for i := range s.schemas {
		if o.schemas[i] != s.schemas[i] {
			return fmt.Sprintf("another schema:\n%s\nalone:\n%s", o.schemas[i], s.schemas[i])
		}
	}
	if o.verdicts != s.verdicts {
		return fmt.Sprintf("other verdicts: %s, alone: %s", o.verdicts, s.verdicts)
	}
	return ""
}

// schedule perturbs the goroutines at hook events and records the order of the events of different jobs.
type schedule struct {
	seed uint64
	n    atomic.Uint64
	mu   sync.Mutex
	log  []byte
	run  bool
}

func (s *schedule) yield(job int, k raml.HookKey) {
	i := s.n.Add(1)
	z := (i + s.seed) * 0x9e3779b97f4a7c15
	z = (z ^ (z >> 29)) * 0xbf58476d1ce4e5b9
	z ^= z >> 32
	switch z % 24 {
	case 0, 1, 2, 3, 4, 5:
		runtime.Gosched()
	case 6:
		time.Sleep(time.Duration(z>>8%40) * time.Microsecond)
	}
	if z%8 == 7 { // the log's lock orders events; keep it rare, so that it hides few races
		s.mu.Lock()
		if n := len(s.log); n == 0 || s.log[n-1] != byte(job) {
			s.log = append(s.log, byte(job))
		}
		s.mu.Unlock()
	}
}

func c12Project(r *Rand) (*Project, *Ref, string) {
	o := fullOpts()
	o.Types = r.Range(3, 8)
	o.Recursion = r.P(30)
	o.Derive = r.N(40)
	pr, ref := genProject(r.Fork("gen"), o)
	what := ""
	if r.P(20) {
		what = breakProject(r, pr, ref)
		ref = NewRef(pr)
	}
	return pr, ref, what
}

func init() {
	register(&Check{ID: "C12", Rule: "built with the Go race detector. Case A (2/3): 2-4 random projects (some invalid, some sharing one directory), each processed at once by 1-4 goroutines with own instances (path or string entry, parse/unwrap/validate in different orders, conversion and validation of values), seeded yields and sleeps injected at every hook point, instances created from a shared parent context carrying hooks; monitors: no race report, per-goroutine results (acceptance, full dumps with ids, schemas, verdicts, number of calls of each hook) equal those of sequential runs made afterwards, hooks only fire for their own instance, errors name no file of another project. Case B (1/3): one unwrapped model shared by 4-8 goroutines doing seeded permutations of Validate, Convert, dumps, CloneDetached, String, Check, lookups; results equal those of one goroutine on another instance. Distinct: order of hook events of different goroutines; order of reader tasks",
		Quick: 900, Thorough: 25000, CPU: 120 * time.Second, Procs: 6,
		Require: map[string]int{"goroutines": 1000, "hook_events": 100000, "types_compared": 3000, "reader_ops": 5000, "events_interleaved": 3000},
		Run: func(c *Case) {
			if c.Idx%3 == 2 {
				c12Readers(c)
				return
			}
			c12Instances(c)
		}})
}

func c12Instances(c *Case) {
	n := c.R.Range(1, 3)
	var jobs []*job
	all := map[string]string{}
	shared := c.newRoot() // projects in one directory tree
	roots := map[string]bool{}
	rootOf := map[string]int{}
	for p := 0; p < n; p++ {
		pr, ref, _ := c12Project(c.R)
		if len(ref.Verdict()) > 0 && p == 0 && c.R.P(50) {
			pr, ref, _ = c12Project(c.R)
		}
		files := pr.Render(randStyle(c.R))
		root := c.newRoot()
		if c.R.P(30) {
			root = filepath.Join(shared, fmt.Sprintf("sub%d", p))
		}
		writeFiles(root, files)
		roots[root] = true
		rootOf[root] = p
		for k, v := range files {
			all[fmt.Sprintf("project%d/%s", p, k)] = v
		}
		var ds []declShape
		var vals [][]any
		for _, f := range pr.fragsReached() {
			if f.Kind != FLibrary {
				ds = append(ds, declShape{name: f.Path, e: ref.node(f.DT, f), frag: f})
				continue
			}
			for _, d := range append(append([]*Decl{}, f.Anns...), f.Types...) {
				ds = append(ds, declShape{name: f.Path + "#" + d.Name, e: ref.decl(d), frag: f})
			}
		}
		valid := len(ref.Verdict()) == 0
		for _, d := range ds {
			if valid {
				d.e.get()
				vals = append(vals, genValues(c.R, d.e, 3))
			} else {
				vals = append(vals, nil)
			}
		}
		for k := c.R.Range(1, 4); k > 0; k-- {
			jobs = append(jobs, &job{id: len(jobs), pr: pr, ref: ref, root: root, entry: pr.Frags[0].Path, str: c.R.P(30),
				steps: c.R.Pick("uv", "uv", "u", "v", "vu", "vuv", ""), decls: ds, vals: vals})
		}
	}
	c.Source(all)
	if len(jobs) < 2 {
		return
	}
	sch := &schedule{seed: c.R.U64()}
	// The jobs are created from the context of another instance that already has hooks.
	var outer atomic.Int64
	parent := raml.New(context.Background())
	var ctx context.Context
	if c.R.P(50) {
		for _, k := range hookKeys {
			for i := 0; i < 3; i++ {
				parent.AppendHook(k, func(context.Context, *raml.RAML, ...any) error { outer.Add(1); return nil })
			}
		}
		parent.AppendHook(raml.HookBeforeValidateShapes, func(x context.Context, r *raml.RAML, _ ...any) error {
			if r == parent {
				ctx = x
			}
			return nil
		})
		_ = parent.ParseFromString("#%RAML 1.0 Library\nusage: none\n", "x.raml", shared)
		if err := parent.ValidateShapes(); err != nil || ctx == nil {
			c.Violate("an empty library does not call the validation hook: %v", err)
			return
		}
		c.Count("shared_parent_context", 1)
	} else {
		ctx = context.Background()
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			<-start
			j.process(ctx, sch.yield)
		}(j)
	}
	close(start)
	wg.Wait()
	c.Count("goroutines", len(jobs))
	c.Count("hook_events", int(sch.n.Load()))
	c.Count("events_interleaved", len(sch.log))
	c.Count("outer_hook_calls", int(outer.Load()))
	c.Key("schedule", string(sch.log))
	for _, j := range jobs {
		seq := *j
		seq.obs = jobObs{}
		seq.process(context.Background(), nil)
		c.Eval(1)
		if j.obs.done {
			if j.obs.ok {
				c.Count("accepted", 1)
			} else {
				c.Count("rejected", 1)
			}
		}
		c.Count("types_compared", len(j.obs.dumps))
		if d := j.obs.diff(&seq.obs); d != "" {
			c.Violate("job %d of %d (steps %q, string %v): %s", j.id, len(jobs), j.steps, j.str, d)
			return
		}
		for root, p := range rootOf {
			if root != j.root && strings.Contains(j.obs.errText, root+string(filepath.Separator)) {
				c.Violate("job %d: the error names a file of project %d: %s", j.id, p, j.obs.errText)
				return
			}
		}
	}
}

// ---------------------------------------------------------------- readers of one model

type readerTask struct {
	what string
	run  func(l *Loaded) string
}

func c12Readers(c *Case) {
	pr, ref, _ := c12Project(c.R)
	if len(ref.Verdict()) > 0 {
		c.Count("generator_rejects", 1)
		return
	}
	files := pr.Render(randStyle(c.R))
	c.Source(files)
	root := c.newRoot()
	writeFiles(root, files)
	validate := c.R.P(60)
	load := func() (*Loaded, error) { return loadPath(root, pr.Frags[0].Path, true, validate) }
	l, err := load()
	if err != nil {
		c.Violate("valid project rejected: %v", err)
		return
	}
	m, err := load() // for the sequential results
	if err != nil {
		c.Violate("valid project rejected the second time: %v", err)
		return
	}
	ds := l.all(pr, ref)
	pick := func(l *Loaded, i int) *raml.BaseShape { return l.all(pr, ref)[i].b }
	var tasks []readerTask
	add := func(what string, f func(l *Loaded) string) { tasks = append(tasks, readerTask{what, f}) }
	for i, d := range ds {
		i := i
		vals := genValues(c.R, d.e, 4)
		add("validate "+d.name, func(l *Loaded) string {
			b, s := pick(l, i), ""
			for _, v := range vals {
				s += fmt.Sprint(b.Validate(v) == nil, " ")
			}
			return s
		})
		add("convert "+d.name, func(l *Loaded) string {
			t, err := convert(pick(l, i), i%2 == 0)
			if err != nil {
				return "error"
			}
			return t
		})
		switch c.R.N(6) {
		case 0:
			add("dump "+d.name, func(l *Loaded) string { return dump(pick(l, i), viewOpts{pos: true, base: root}) })
		case 1:
			add("clone "+d.name, func(l *Loaded) string {
				return dump(pick(l, i).CloneDetached(), viewOpts{pos: true, noID: true, base: root})
			})
		case 2:
			add("string "+d.name, func(l *Loaded) string { return pick(l, i).String() })
		case 3:
			add("check "+d.name, func(l *Loaded) string { return fmt.Sprint(pick(l, i).Check() == nil) })
		case 4:
			add("lookup "+d.name, func(l *Loaded) string {
				var w []string
				for n, b := range l.R.GetFragmentTypePtrs(filepath.Join(root, d.frag.Path)) {
					w = append(w, n+"="+b.Name+b.Type)
				}
				sort.Strings(w)
				name := d.name[strings.IndexByte(d.name, '#')+1:]
				x, err := l.R.GetTypeFromFragmentPtr(filepath.Join(root, d.frag.Path), name)
				if err == nil && x != nil {
					w = append(w, x.Name)
				}
				y, err := l.R.GetReferencedType(name, filepath.Join(root, d.frag.Path))
				if err == nil && y != nil {
					w = append(w, y.Name)
				}
				return strings.Join(w, ",")
			})
		case 5:
			add("annotations", func(l *Loaded) string {
				s := fmt.Sprint(len(l.R.GetShapes()), l.R.GetLocation() == filepath.Join(root, l.Entry), l.R.EntryPoint() != nil)
				for _, a := range l.R.GetAllAnnotations() {
					s += " " + a.Name + jval(nodeVal(a.Extension))
				}
				for _, a := range l.R.GetAllAnnotationsPtr() {
					s += " " + a.Name
				}
				return s
			})
		}
	}
	g := c.R.Range(4, 8)
	perms := make([][]int, g)
	out := make([][]string, g)
	panics := make([]string, g)
	for i := range perms {
		perms[i] = c.R.Perm(len(tasks))
		if i%2 == 1 && i > 0 { // the same order with a small shift: the same operations meet
			perms[i] = append(append([]int{}, perms[i-1][1:]...), perms[i-1][0])
		}
		out[i] = make([]string, len(tasks))
	}
	before := dump(ds[0].b, viewOpts{pos: true, base: root})
	var order sync.Mutex
	var log []byte
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					panics[i] = fmt.Sprintf("%v\n%s", p, trimStack(debug.Stack()))
				}
			}()
			<-start
			for k, t := range perms[i] {
				out[i][t] = tasks[t].run(l)
				if (k+i)%5 == 0 {
					order.Lock()
					log = append(log, byte(i))
					order.Unlock()
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	c.Count("goroutines", g)
	c.Count("reader_ops", g*len(tasks))
	c.Key("readers", string(log), fmt.Sprint(perms[0]))
	for i := range panics {
		if panics[i] != "" {
			c.Violate("reader %d: panic: %s", i, panics[i])
			return
		}
	}
	for t := range tasks {
		want := tasks[t].run(m)
		c.Eval(1)
		for i := 0; i < g; i++ {
			if out[i][t] != want {
				c.Violate("%s: concurrent reader %d observed\n%s\nalone:\n%s", tasks[t].what, i, out[i][t], want)
				return
			}
		}
	}
	if after := dump(ds[0].b, viewOpts{pos: true, base: root}); after != before {
		c.Violate("reading changed the model:\n%s\n%s", before, after)
	}
}
