package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Rand is a small deterministic PRNG (splitmix64): case lists depend on nothing but the seed.
type Rand struct{ s uint64 }

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func NewRand(parts ...string) *Rand { return &Rand{hash64(parts...)} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) Range(a, b int) int { return a + r.N(b-a+1) }
func (r *Rand) P(percent int) bool { return r.N(100) < percent }

// Near is a number around one of the given ones.
func (r *Rand) Near(ns ...int) int { return ns[r.N(len(ns))] + r.N(8) - 4 }

func (r *Rand) Pick(ss ...string) string { return ss[r.N(len(ss))] }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
func (r *Rand) Fork(tag string) *Rand { return NewRand(tag, strconv.FormatUint(r.U64(), 10)) }

// Check is one property's monitor: a deterministic list of cases, each run in a worker process.
type Check struct {
	ID          string
	Rule        string
	Quick       int // number of generated cases, quick tier
	Thorough    int
	Fixed       int // number of fixed (regression / finding) cases that precede the generated ones
	Run         func(c *Case)
	Require     map[string]int // minimal counts of observed events; fewer is inconclusive
	Assumptions []string
	CPU         time.Duration // CPU budget of one case
	Level       string
	Serial      bool // one worker only (checks which use all cores inside one case)
	Procs       int  // GOMAXPROCS of a worker
	Setup       func() (cleanup func(), err error)
}

type Violation struct {
	Sig     string            `json:"sig,omitempty"` // identity for the known-findings file
	Msg     string            `json:"msg"`
	Files   map[string]string `json:"files,omitempty"`
	Case    int               `json:"case"`
	Attempt string            `json:"attempt,omitempty"`
}

type caseResult struct {
	Idx    int
	Evals  int
	Events map[string]int
	Keys   []uint64
	Viols  []Violation
	Sample string
	Note   string
}

// Case is the context handed to a check's Run.
type Case struct {
	Check *Check
	Idx   int // < Check.Fixed: fixed case, otherwise generated
	Tier  string
	Seed  string
	R     *Rand
	res   caseResult
	dir   string
	mu    sync.Mutex
	files map[string]string
}

func (c *Case) Eval(n int) { c.mu.Lock(); c.res.Evals += n; c.mu.Unlock() }
func (c *Case) Count(ev string, n int) {
	c.mu.Lock()
	if c.res.Events == nil {
		c.res.Events = map[string]int{}
	}
	c.res.Events[ev] += n
	c.mu.Unlock()
}

// Key records a distinct non-trivial observation.
func (c *Case) Key(parts ...string) {
	h := hash64(parts...)
	c.mu.Lock()
	c.res.Keys = append(c.res.Keys, h)
	c.mu.Unlock()
}
func (c *Case) Sample(s string) {
	if c.res.Sample == "" {
		c.res.Sample = s
	}
}

// Source remembers the text of the project under test, for the replay file.
func (c *Case) Source(files map[string]string) {
	c.files = files
	if p := os.Getenv("RVMON_SOURCE"); p != "" { // set when a case that killed its worker is repeated
		if j, err := json.Marshal(files); err == nil {
			_ = os.WriteFile(p, j, 0o644)
		}
	}
}

func (c *Case) Violate(format string, a ...any) { c.ViolateSig("", format, a...) }
func (c *Case) ViolateSig(sig, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.res.Viols) >= 3 {
		return
	}
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	c.res.Viols = append(c.res.Viols, Violation{Sig: sig, Msg: msg, Files: c.files, Case: c.Idx})
}
func (c *Case) Failed() bool { return len(c.res.Viols) > 0 }

// Dir is a scratch directory of this case, removed afterwards.
func (c *Case) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(os.Getenv("RVMON_SCRATCH"), "case")
		if err != nil {
			panic(err)
		}
		c.dir = d
	}
	return c.dir
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// ---------------------------------------------------------------- worker

var caseStartCPU atomic.Int64
var caseCPUBudget atomic.Int64
var caseIdxNow atomic.Int64

func cpuNow() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func watchdog() {
	for {
		time.Sleep(100 * time.Millisecond)
		b := caseCPUBudget.Load()
		if b == 0 {
			continue
		}
		if int64(cpuNow())-caseStartCPU.Load() > b {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "RVMON-HANG case %d\n%s\n", caseIdxNow.Load(), buf[:n])
			os.Exit(97)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 2500<<20 {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "RVMON-MEMORY case %d heap %d\n%s\n", caseIdxNow.Load(), ms.HeapAlloc, buf[:n])
			os.Exit(98)
		}
	}
}

func runCase(ch *Check, idx int, tier, seed string) (res caseResult) {
	c := &Case{Check: ch, Idx: idx, Tier: tier, Seed: seed}
	c.R = NewRand(ch.ID, seed, strconv.Itoa(idx))
	c.res.Idx = idx
	defer func() {
		if c.dir != "" {
			_ = exec.Command("chmod", "-R", "u+rwX", c.dir).Run()
			_ = os.RemoveAll(c.dir)
		}
		res = c.res
	}()
	defer func() {
		if p := recover(); p != nil {
			c.Violate("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	ch.Run(c)
	return
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func workerMain(ch *Check, tier, seed string) {
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(200)
	go watchdog()
	in := bufio.NewScanner(os.Stdin)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	for in.Scan() {
		var a, b int
		if _, err := fmt.Sscanf(in.Text(), "%d %d", &a, &b); err != nil {
			os.Exit(3)
		}
		for i := a; i < b; i++ {
			fmt.Fprintf(out, "B %d\n", i)
			out.Flush()
			caseIdxNow.Store(int64(i))
			caseStartCPU.Store(int64(cpuNow()))
			bud := ch.CPU
			if bud == 0 {
				bud = 20 * time.Second
			}
			if m, _ := strconv.Atoi(os.Getenv("RVMON_CPUX")); m > 1 {
				bud *= time.Duration(m)
			}
			caseCPUBudget.Store(int64(bud))
			res := runCase(ch, i, tier, seed)
			caseCPUBudget.Store(0)
			j, err := json.Marshal(res)
			if err != nil {
				j, _ = json.Marshal(caseResult{Idx: i, Note: err.Error()})
			}
			out.WriteString("R ")
			out.Write(j)
			out.WriteString("\n")
			out.Flush()
		}
		out.WriteString("D\n")
		out.Flush()
	}
}

// ---------------------------------------------------------------- supervisor

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tailBuf
}

type tailBuf struct {
	mu   sync.Mutex
	head bytes.Buffer
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	if t.head.Len() < 64<<10 {
		t.head.Write(p)
	}
	t.mu.Unlock()
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return t.head.String() }

func startProc(ch *Check, tier, seed, scratch string, cpux int, env ...string) (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	p := &proc{}
	p.cmd = exec.Command(exe, "worker", "-check", ch.ID, "-tier", tier, "-seed", seed)
	procs := ch.Procs
	if procs == 0 {
		procs = 2
	}
	p.cmd.Env = append(os.Environ(), "RVMON_SCRATCH="+scratch, "GOMAXPROCS="+strconv.Itoa(procs),
		"RVMON_CPUX="+strconv.Itoa(cpux), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	p.cmd.Env = append(p.cmd.Env, env...)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p.in, err = p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	p.err = &tailBuf{}
	p.cmd.Stderr = p.err
	return p, p.cmd.Start()
}

func (p *proc) kill() {
	_ = syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
}

const wallLimit = 240 * time.Second

// runBlock runs cases a..b-1 in process p; returns false when the process died, with the case it was running.
func (p *proc) runBlock(a, b int, on func(caseResult)) (ok bool, diedAt int, wall bool) {
	fmt.Fprintf(p.in, "%d %d\n", a, b)
	cur := a
	timer := time.AfterFunc(wallLimit, p.kill)
	fired := func() bool { return !timer.Stop() }
	for {
		line, err := p.out.ReadBytes('\n')
		if err != nil {
			w := fired()
			return false, cur, w
		}
		switch line[0] {
		case 'B':
			cur, _ = strconv.Atoi(strings.TrimSpace(string(line[2:])))
			timer.Reset(wallLimit)
		case 'R':
			var r caseResult
			if err := json.Unmarshal(line[2:], &r); err == nil {
				on(r)
			}
			cur++
		case 'D':
			timer.Stop()
			return true, b, false
		}
	}
}

type runStats struct {
	mu      sync.Mutex
	evals   int
	events  map[string]int
	keys    map[uint64]struct{}
	viols   []Violation
	samples []string
	cases   int
	incon   []string
}

func (s *runStats) add(r caseResult) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cases++
	s.evals += r.Evals
	for k, v := range r.Events {
		s.events[k] += v
	}
	for _, k := range r.Keys {
		s.keys[k] = struct{}{}
	}
	s.viols = append(s.viols, r.Viols...)
	if r.Sample != "" && len(s.samples) < 3 {
		s.samples = append(s.samples, r.Sample)
	}
	if r.Note != "" {
		s.incon = append(s.incon, r.Note)
	}
}

func crashText(stderr string) string {
	lines := strings.Split(stderr, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func superviseRange(ch *Check, tier, seed, scratch string, cases []int, st *runStats) {
	workers := 8
	if n := runtime.NumCPU(); n < workers {
		workers = n
	}
	if ch.Serial {
		workers = 1
	}
	block := len(cases)/(workers*6) + 1
	if block > 200 {
		block = 200
	}
	type blk struct{ a, b int }
	var blocks []blk
	for i := 0; i < len(cases); {
		j := i + 1
		for j < len(cases) && j-i < block && cases[j] == cases[j-1]+1 {
			j++
		}
		blocks = append(blocks, blk{cases[i], cases[j-1] + 1})
		i = j
	}
	var next atomic.Int64
	var crashes atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			defer func() {
				if p != nil {
					p.in.Close()
					_ = p.cmd.Wait()
				}
			}()
			for {
				bi := int(next.Add(1)) - 1
				if bi >= len(blocks) {
					return
				}
				a, b := blocks[bi].a, blocks[bi].b
				for a < b {
					if crashes.Load() > 25 { // enough evidence; stop exploring
						return
					}
					if p == nil {
						var err error
						if p, err = startProc(ch, tier, seed, scratch, 1); err != nil {
							st.mu.Lock()
							st.incon = append(st.incon, "start worker: "+err.Error())
							st.mu.Unlock()
							return
						}
					}
					ok, at, wall := p.runBlock(a, b, st.add)
					if ok {
						a = b
						continue
					}
					p.in.Close()
					_ = p.cmd.Wait()
					code := p.cmd.ProcessState.ExitCode()
					text := p.err.String()
					p = nil
					crashes.Add(1)
					confirmCrash(ch, tier, seed, scratch, at, code, text, wall, st)
					a = at + 1
				}
			}
		}()
	}
	wg.Wait()
}

// confirmCrash reruns a case that ended its process, alone and with a larger CPU budget: a death that repeats is a
// violation, one that does not is inconclusive.
func confirmCrash(ch *Check, tier, seed, scratch string, idx, code int, text string, wall bool, st *runStats) {
	src := filepath.Join(scratch, fmt.Sprintf("source-%d.json", idx))
	p, err := startProc(ch, tier, seed, scratch, 3, "RVMON_SOURCE="+src)
	if err != nil {
		return
	}
	defer os.Remove(src)
	ok, _, wall2 := p.runBlock(idx, idx+1, st.add)
	p.in.Close()
	_ = p.cmd.Wait()
	if strings.Contains(text, "DATA RACE") || strings.Contains(text, "fatal error: concurrent map") {
		// One report is proof: whether a race repeats depends on the schedule.
		var files map[string]string
		if j, err := os.ReadFile(src); err == nil {
			_ = json.Unmarshal(j, &files)
		}
		st.mu.Lock()
		st.viols = append(st.viols, Violation{Files: files, Case: idx, Msg: fmt.Sprintf("data race (exit %d)\n%s", code, crashText(text)), Sig: crashSig(ch, tier, seed, idx)})
		st.mu.Unlock()
		return
	}
	if ok {
		st.mu.Lock()
		st.incon = append(st.incon, fmt.Sprintf("case %d ended its worker once (exit %d, wall=%v) and passed alone: %s", idx, code, wall, firstLine(text)))
		st.mu.Unlock()
		return
	}
	code2 := p.cmd.ProcessState.ExitCode()
	text2 := p.err.String()
	if wall2 {
		st.mu.Lock()
		st.incon = append(st.incon, fmt.Sprintf("case %d exceeded the wall-clock watchdog", idx))
		st.mu.Unlock()
		return
	}
	kind := "process died"
	switch {
	case code2 == 97:
		kind = "endless loop: CPU budget exceeded twice"
	case code2 == 98:
		kind = "memory blow-up"
	case strings.Contains(text2, "stack overflow"), strings.Contains(text2, "stack exceeds"):
		kind = "fatal stack overflow"
	case strings.Contains(text2, "DATA RACE"):
		kind = "data race"
	}
	var files map[string]string
	if j, err := os.ReadFile(src); err == nil {
		_ = json.Unmarshal(j, &files)
	}
	st.mu.Lock()
	st.viols = append(st.viols, Violation{Files: files, Case: idx, Msg: fmt.Sprintf("%s (exit %d)\n%s", kind, code2, crashText(text2)), Sig: crashSig(ch, tier, seed, idx)})
	st.mu.Unlock()
}

// crashSig lets fixed cases name the finding they stand for even when they kill the worker.
func crashSig(ch *Check, tier, seed string, idx int) string {
	if f, ok := fixedSigs[ch.ID]; ok && idx < len(f) {
		return f[idx]
	}
	return ""
}

var fixedSigs = map[string][]string{}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---------------------------------------------------------------- known findings

func loadFindings(path string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		f := strings.Fields(l[len("finding:"):])
		var prop, id string
		rest := []string{}
		for _, w := range f {
			switch {
			case strings.HasPrefix(w, "property=") && prop == "":
				prop = w[len("property="):]
			case strings.HasPrefix(w, "id=") && id == "":
				id = w[len("id="):]
			default:
				rest = append(rest, w)
			}
		}
		if prop != "" && id != "" {
			out[prop+"|"+id] = strings.Join(rest, " ")
		}
	}
	return out
}

// ---------------------------------------------------------------- main

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "")
	seed := fs.String("seed", envOr("VERIF_SEED", "1"), "")
	home := fs.String("home", ".", "")
	maxN := fs.Int("n", 0, "override the number of generated cases")
	only := fs.Int("only", -1, "run a single case")
	id := args[0]
	_ = fs.Parse(args[1:])
	ch := checks[id]
	if ch == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "rvmon-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	if ch.Setup != nil {
		os.Setenv("RVMON_SCRATCH", scratch)
		cl, err := ch.Setup()
		if err != nil {
			fmt.Println("INCONCLUSIVE setup:", err)
			return 3
		}
		if cl != nil {
			defer cl()
		}
	}
	n := ch.Quick
	if *tier == "thorough" {
		n = ch.Thorough
	}
	if *maxN > 0 {
		n = *maxN
	}
	var cases []int
	for i := 0; i < ch.Fixed+n; i++ {
		cases = append(cases, i)
	}
	if *only >= 0 {
		cases = []int{*only}
	}
	st := &runStats{events: map[string]int{}, keys: map[uint64]struct{}{}}
	superviseRange(ch, *tier, *seed, scratch, cases, st)

	known := loadFindings(filepath.Join(*home, "known_findings.txt"))
	seenKnown := map[string]bool{}
	var bad []Violation
	sort.SliceStable(st.viols, func(i, j int) bool { return st.viols[i].Case < st.viols[j].Case })
	for _, v := range st.viols {
		if v.Sig != "" {
			if d, ok := known[ch.ID+"|"+v.Sig]; ok {
				if !seenKnown[v.Sig] {
					seenKnown[v.Sig] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ch.ID, v.Sig, d)
				}
				continue
			}
		}
		bad = append(bad, v)
	}
	var missing []string
	for k, min := range ch.Require {
		if *only < 0 && *maxN == 0 && st.events[k] < min {
			missing = append(missing, fmt.Sprintf("%s: %d < %d", k, st.events[k], min))
		}
	}
	sort.Strings(missing)

	seedN, _ := strconv.Atoi(*seed)
	level := ch.Level
	if level == "" {
		level = "exploration"
	}
	var samples []any
	for _, s := range st.samples {
		samples = append(samples, s)
	}
	if samples == nil {
		samples = []any{"none"}
	}
	ev := map[string]any{
		"property": ch.ID, "tier": *tier, "seed": seedN, "level": level,
		"coverage": map[string]any{
			"evaluations": st.evals, "distinct_nontrivial": len(st.keys), "rule": ch.Rule, "samples": samples,
			"cases": st.cases, "fixed_cases": ch.Fixed, "events": st.events, "inconclusive": st.incon,
			"exhaustive": false,
		},
		"assumptions": ch.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	if ch.Assumptions == nil {
		delete(ev, "assumptions")
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(*home, "evidence"), 0o755)
	if *only < 0 {
		_ = os.WriteFile(filepath.Join(*home, "evidence", ch.ID+".json"), append(j, '\n'), 0o644)
	}
	for i, v := range bad {
		if i >= 8 {
			fmt.Printf("... and %d more violations\n", len(bad)-i)
			break
		}
		rp := filepath.Join(*home, "replays", fmt.Sprintf("%s-%s-%d.json", ch.ID, *seed, v.Case))
		_ = os.MkdirAll(filepath.Dir(rp), 0o755)
		abs, _ := filepath.Abs(rp)
		rj, _ := json.MarshalIndent(map[string]any{"check": ch.ID, "case": v.Case, "seed": *seed, "tier": *tier,
			"msg": v.Msg, "sig": v.Sig, "files": v.Files}, "", " ")
		_ = os.WriteFile(rp, append(rj, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, abs)
		fmt.Println(indent(v.Msg, 20))
	}
	fmt.Printf("%s tier=%s seed=%s cases=%d evaluations=%d distinct=%d violations=%d known=%d inconclusive=%d wall=%.1fs\n", ch.ID, *tier,
		*seed, st.cases, st.evals, len(st.keys), len(bad), len(seenKnown), len(st.incon), time.Since(t0).Seconds())
	var evs []string
	for k, v := range st.events {
		evs = append(evs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(evs)
	fmt.Println("observed:", strings.Join(evs, " "))
	for i, s := range st.incon {
		if i < 5 {
			fmt.Println("inconclusive:", s)
		}
	}
	if len(bad) > 0 {
		return 1
	}
	if len(missing) > 0 {
		fmt.Println("INCONCLUSIVE: too little observed:", strings.Join(missing, "; "))
		return 3
	}
	if len(st.incon) > 3 || st.cases < len(cases)-len(st.incon) {
		fmt.Println("INCONCLUSIVE: some cases did not finish")
		return 3
	}
	return 0
}

func indent(s string, max int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > max {
		ls = ls[:max]
	}
	for i := range ls {
		if len(ls[i]) > 600 {
			ls[i] = ls[i][:600] + "..."
		}
	}
	return "    " + strings.Join(ls, "\n    ")
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: rvmon check ID | worker | replay FILE | show ID N")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "worker":
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		id := fs.String("check", "", "")
		tier := fs.String("tier", "quick", "")
		seed := fs.String("seed", "1", "")
		_ = fs.Parse(os.Args[2:])
		workerMain(checks[*id], *tier, *seed)
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var m struct {
			Check, Seed, Tier string
			Case              int
		}
		if err := json.Unmarshal(b, &m); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(checkMain([]string{m.Check, "-seed", m.Seed, "-tier", m.Tier, "-only", strconv.Itoa(m.Case)}))
	case "list":
		for id := range checks {
			fmt.Println(id)
		}
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}
