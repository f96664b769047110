package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// buildCLI builds the command from a scratch copy of its sources against /repo's working tree.
func buildCLI() (func(), error) {
	scratch := os.Getenv("RVMON_SCRATCH")
	src := filepath.Join(scratch, "cli-src")
	if err := os.MkdirAll(src, 0o755); err != nil {
		return nil, err
	}
	repo := repoDir()
	es, err := os.ReadDir(filepath.Join(repo, "cmd/raml"))
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if e.IsDir() || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(repo, "cmd/raml", e.Name()))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(src, e.Name()), b, 0o644); err != nil {
			return nil, err
		}
	}
	run := func(args ...string) error {
		cmd := exec.Command("go", args...)
		cmd.Dir = src
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("go %s: %w\n%s", strings.Join(args, " "), err, out)
		}
		return nil
	}
	if err := run("mod", "edit", "-require=github.com/acronis/go-raml/v2@v2.0.0", "-replace=github.com/acronis/go-raml/v2="+repo,
		"-replace=github.com/antlr4-go/antlr/v4=github.com/antlr4-go/antlr/v4@v4.13.0",
		"-replace=golang.org/x/exp=golang.org/x/exp@v0.0.0-20230515195305-f3d0a9c9a5cc",
		"-replace=github.com/inconshreveable/mousetrap=github.com/inconshreveable/mousetrap@v1.0.0"); err != nil {
		return nil, err
	}
	bin := filepath.Join(scratch, "raml-cli")
	if err := run("build", "-o", bin, "."); err != nil {
		return nil, err
	}
	os.Setenv("RVMON_CLI", bin)
	return nil, nil
}

func repoDir() string { return "/repo" }

type cliFile struct {
	arg     string // as given to the command
	token   string // occurs in the path of every file of this project and nowhere else
	invalid bool
	what    string
}

type cliRun struct {
	code int
	out  string
	hung bool
}

func runCLI(dir string, args ...string) cliRun {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("RVMON_CLI"), args...)
	cmd.Dir = dir
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	r := cliRun{out: b.String(), hung: ctx.Err() != nil}
	if err != nil {
		r.code = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.code = x.ExitCode()
		}
	}
	return r
}

func (r cliRun) crashed() bool {
	return r.code < 0 || r.code == 2 && strings.Contains(r.out, "goroutine ") || strings.Contains(r.out, "panic: ")
}

func cliInput(c *Case, dir string, i int, all map[string]string) cliFile {
	token := fmt.Sprintf("tok%c%cq%d", 'a'+rune(i), 'k'+rune(c.R.N(10)), c.R.N(90)+10)
	root := filepath.Join(dir, token)
	if c.R.P(20) {
		root = filepath.Join(dir, "sub dir é", token)
	}
	f := cliFile{token: token}
	entry := "main.raml"
	files := map[string]string{}
	switch x := c.R.N(20); {
	case x < 13:
		o := fullOpts()
		o.Types = c.R.Range(2, 7)
		o.Recursion = c.R.P(30)
		pr, ref := genProject(c.R.Fork("gen"), o)
		f.what = "project"
		if x >= 8 {
			f.what = "edited project: " + breakProject(c.R, pr, ref)
			ref = NewRef(pr)
		}
		f.invalid = len(ref.Verdict()) > 0
		files = pr.Render(randStyle(c.R))
		entry = pr.Frags[0].Path
	case x < 15:
		f.what, f.invalid = "missing", true
	case x == 15:
		f.what, f.invalid = "directory", true
		if err := os.MkdirAll(filepath.Join(root, entry), 0o755); err != nil {
			panic(err)
		}
	case x == 16:
		f.what, f.invalid = "not RAML", true
		files[entry] = c.R.Pick("", "hello\n", "#%RAML 1.0 Unknown\n", "#%RAML 0.8 Library\n", "{}", "\x00\x01\x02")
	case x == 17:
		f.what, f.invalid = "undefined reference", true
		files[entry] = "#%RAML 1.0 Library\ntypes:\n  A:\n    type: Nope\n  B: Nope2\n"
	case x == 18:
		f.what, f.invalid = "several errors", true
		files[entry] = "#%RAML 1.0 Library\ntypes:\n  A:\n    type: string\n    minLength: 3\n    maxLength: 2\n  B:\n    type: integer\n    example: x\n  C:\n    type: number\n    bad: facet\n"
	default:
		f.what = "empty library"
		files[entry] = c.R.Pick("#%RAML 1.0 Library\n{}\n", "#%RAML 1.0 Library\nusage: none\n", "#%RAML 1.0 Library\ntypes:\n", "#%RAML 1.0 DataType\ntype: string\n")
	}
	if err := os.MkdirAll(root, 0o755); err != nil {
		panic(err)
	}
	writeFiles(root, files)
	for k, v := range files {
		all[token+"/"+k] = v
	}
	full := filepath.Join(root, entry)
	f.arg = full
	switch c.R.N(4) {
	case 0:
		f.arg, _ = filepath.Rel(dir, full)
	case 1:
		r, _ := filepath.Rel(dir, full)
		f.arg = "." + string(filepath.Separator) + r
	}
	return f
}

func init() {
	register(&Check{ID: "C17", Rule: "the command is built from /repo and run on 1-7 random arguments: valid and edited random projects judged by the reference, missing files, directories, files that are not RAML, files with one and several errors, repeated arguments (up to 1024 invalid files in one call), absolute and relative paths, odd directory names, all placements of -v, -vv, -d, --ensure-duplicates; then again permuted, with other flags, and every argument alone. Monitors: exit status 0 exactly when all arguments are valid, 1 otherwise, in every run; no crash or hang; a failing file is mentioned in the output more often than its announcement, and as often in the joint run as alone. Distinct: (kinds of arguments in order, flags, status)",
		Quick: 900, Thorough: 50000, Setup: buildCLI,
		Require: map[string]int{"runs": 2500, "failed": 1000, "succeeded": 400, "failing_arguments": 1000, "one_bad_among_good": 60, "many_invalid": 5},
		Run: func(c *Case) {
			dir := c.newRoot()
			all := map[string]string{}
			var fs []cliFile
			for i := c.R.Range(1, 6); i > 0; i-- {
				fs = append(fs, cliInput(c, dir, i, all))
			}
			if c.R.P(30) { // mostly valid: the position of the single bad one matters
				bad := c.R.N(len(fs) + 1)
				for i := range fs {
					for k := 0; k < 30 && fs[i].invalid != (i == bad); k++ {
						fs[i] = cliInput(c, dir, i+7, all)
					}
				}
			}
			if c.R.P(20) {
				fs = append(fs, fs[c.R.N(len(fs))])
			}
			c.Source(all)
			flagSets := [][]string{{}, {"-v"}, {"-vv"}, {"-d"}, {"--ensure-duplicates"}, {"-v", "-d"}, {"-dv"}, {"--verbosity"}, {"--ensure-duplicates=false"}, {"--ensure-duplicates=true", "-v"}}
			judge := func(fs []cliFile, flags []string) (cliRun, bool) {
				args := []string{}
				for _, f := range fs {
					args = append(args, f.arg)
				}
				for _, fl := range flags {
					k := c.R.N(len(args) + 1)
					args = append(args[:k:k], append([]string{fl}, args[k:]...)...)
				}
				if k := c.R.N(8); k == 0 && len(flags) > 0 {
					args = append([]string{flags[0], "validate"}, args...)
				} else {
					args = append([]string{"validate"}, args...)
				}
				r := runCLI(dir, args...)
				c.Eval(1)
				c.Count("runs", 1)
				want, bads := 0, 0
				sum := ""
				for _, f := range fs {
					if f.invalid {
						want = 1
						bads++
					}
					sum += strings.SplitN(f.what, ":", 2)[0] + fmt.Sprint(f.invalid) + ","
				}
				if want == 0 {
					c.Count("succeeded", 1)
				} else {
					c.Count("failed", 1)
				}
				if bads == 1 && len(fs) > 2 {
					c.Count("one_bad_among_good", 1)
				}
				c.Key(sum, strings.Join(flags, " "), fmt.Sprint(r.code))
				describe := fmt.Sprintf("raml %s\narguments: %+v\nexit %d\n%s", strings.Join(args, " "), fs, r.code, clip(r.out, 2500))
				switch {
				case r.hung:
					c.Violate("the command does not end: %s", describe)
				case r.crashed():
					c.Violate("the command crashes: %s", describe)
				case (r.code != 0) != (want != 0):
					c.Violate("exit status %d, want %d: %s", r.code, want, describe)
				default:
					return r, true
				}
				return r, false
			}
			flags := flagSets[c.R.N(len(flagSets))]
			joint, ok := judge(fs, flags)
			if !ok {
				return
			}
			seen := map[string]bool{}
			for _, f := range fs {
				if seen[f.token] {
					continue
				}
				seen[f.token] = true
				alone, ok := judge([]cliFile{f}, flags)
				if !ok {
					return
				}
				n, m := strings.Count(alone.out, f.token), strings.Count(joint.out, f.token)
				if f.invalid {
					c.Count("failing_arguments", 1)
					if n < 2 {
						c.Violate("no error is reported for %+v:\n%s", f, alone.out)
						return
					}
				}
				if m < n {
					c.Violate("%+v is mentioned %d times alone, %d times together with other files:\n%s\n%s", f, n, m, clip(alone.out, 1800), clip(joint.out, 1800))
					return
				}
			}
			if c.Idx < 6 || c.R.P(1) {
				// an exit status has eight bits
				var many, bad []cliFile
				for k := 0; k < 60 && len(bad) == 0; k++ {
					if f := cliInput(c, dir, 20, all); f.invalid {
						bad = []cliFile{f}
					}
				}
				n := []int{256, 512, 255, 1024, 257, 128}[(c.Idx+6)%6]
				for len(bad) > 0 && len(many) < n {
					many = append(many, bad[0])
				}
				if len(many) > 0 {
					c.Count("many_invalid", 1)
					if _, ok := judge(many, flags); !ok {
						return
					}
				}
			}
			for k := 0; k < 2; k++ {
				p := make([]cliFile, 0, len(fs))
				for _, i := range c.R.Perm(len(fs)) {
					p = append(p, fs[i])
				}
				if _, ok := judge(p, flagSets[c.R.N(len(flagSets))]); !ok {
					return
				}
			}
		}})
}
