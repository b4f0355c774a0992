package clih

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// The clifault suite (C21): a fault at every file operation and every started program, and a signal
// at every operation with the handler's removal ordered against every later operation.

func init() { register(&Suite{Name: "clifault", Run: runCLIFault}) }

const fakeTool = `#!/bin/bash
# stands in for TOOL: may fail, may send a signal, and for "go build" writes the list of what it was
# given to build as the plugin
n=$(( $(cat "DIR/count.TOOL" 2>/dev/null | wc -c) + 1 ))
printf x >> "DIR/count.TOOL"
echo "TOOL $n $1" >> "DIR/calls"
sig() { kill -$MCT_SIGNAL $PPID; sleep 0.15; }
at="TOOL $n"
[ "$MCT_SIG" = "$at before" ] && sig
if [ "$MCT_FAIL" = "$at" ]; then echo "injected failure" >&2; exit 1; fi
if [ TOOL = go ] && [ "$1" = build ]; then
	out=; prev=
	for a in "$@"; do [ "$prev" = -o ] && out=$a; prev=$a; done
	l1=$(find . -type f | LC_ALL=C sort) || exit 1
	[ "$MCT_SIG" = "$at middle" ] && sig
	m=$(for f in $l1; do echo "== $f"; cat "$f" || echo VANISHED; done)
	[ -e ./main.go ] && [ -e ./hotswap.main.go ] || { echo "no Go files" >&2; exit 1; }
	case "$m" in *VANISHED*) exit 1;; esac
	[ "$l1" = "$(find . -type f | LC_ALL=C sort)" ] || exit 1
	printf '%s\n' "$m" > "$out" || exit 1
	[ "$MCT_SIG" = "$at after" ] && sig
	exit 0
fi
"REAL" "$@"
rc=$?
[ "$MCT_SIG" = "$at after" ] && sig
exit $rc
`

type cfMode struct {
	id   string
	args []string
	keep bool // the temporary directory is kept
	so   bool // a plugin file is built
}

var cfModes = []cfMode{
	{"build", []string{"build"}, false, true},
	{"verbose", []string{"build", "-v"}, false, true},
	{"leaveTemps", []string{"build", "--leaveTemps"}, true, true},
	{"copy only", []string{"build", "--goBuild=false"}, true, false},
}

type cfWorld struct {
	c    *Ctx
	p    *Proj
	mode cfMode
	src  Snap
	st   map[string]string
	bin  string
	so   string // expected content of the plugin file
	copy Snap   // expected content of the copy
	ops  []string
	all  []string
	old  bool
}

const oldSo = "the plugin file of an earlier build"

var cfFiles = map[string]string{
	"sub/s.go":       "package sub\n\nimport _ \"" + pluginPath + "/sub/deep\"\n\nfunc live_s() {}\n",
	"sub/deep/d.go":  "package deep\n\ntype Live_d struct{}\n",
	"sub/deep/e.txt": "data\n",
}

// worlds are used for many runs; one that has misbehaved is thrown away.
var cfWorlds = map[string]*cfWorld{}

func getCF(c *Ctx, mode cfMode, instrumented bool) *cfWorld {
	k := fmt.Sprint(mode.id, instrumented)
	w := cfWorlds[k]
	if w == nil {
		w = newCF(c, mode)
		if !w.baseline(instrumented) {
			w.p.Close()
			return nil
		}
		cfWorlds[k] = w
	}
	w.c = c
	return w
}

func (w *cfWorld) release(instrumented bool) {
	if len(w.c.viol) > 0 {
		w.p.Close()
		delete(cfWorlds, fmt.Sprint(w.mode.id, instrumented))
	}
}

func newCF(c *Ctx, mode cfMode) *cfWorld {
	w := &cfWorld{c: c, p: c.r.newProj(), mode: mode}
	files := map[string]string{"main.go": fundamental("foo", userFuncs, "")}
	for k, v := range cfFiles {
		files[k] = v
	}
	w.p.writeAll("plugin/foo", files)
	w.p.Write("plugin/other/o.go", "package other\n")
	w.p.Write("plugin/foo-x/o.go", "package foox\n")
	w.src, w.st = w.p.Snap("plugin"), stamps(w.p.Path("plugin"))
	w.bin = filepath.Join(filepath.Dir(w.p.Root), "bin")
	must(os.MkdirAll(w.bin, 0755))
	for _, t := range []string{"go", "git", "gofmt"} {
		real, err := exec.LookPath(t)
		must(err)
		s := strings.NewReplacer("TOOL", t, "DIR", w.bin, "REAL", real).Replace(fakeTool)
		must(os.WriteFile(filepath.Join(w.bin, t), []byte(s), 0755))
	}
	return w
}

// run executes one build and puts the sandbox back into its first state. It returns the labels.
type cfRun struct {
	Run
	log, calls []string
	news       []string
	so         string
	hasSo      bool
	copies     []Snap
}

func (w *cfWorld) norm(s, tmp string) string { return strings.ReplaceAll(s, tmp, "$TMP") }

func (w *cfWorld) run(instrumented bool, env ...string) cfRun {
	log := filepath.Join(w.bin, "oplog")
	for _, f := range []string{"oplog", "calls", "count.go", "count.git", "count.gofmt"} {
		_ = os.Remove(filepath.Join(w.bin, f))
	}
	w.p.Remove("out")
	w.p.Mkdir("out")
	if w.old && w.mode.so { // the plugin file of an earlier build is there
		w.p.Write("out/foo.so", oldSo)
	}
	o := runOpt{timeout: 20 * time.Second, env: append([]string{"PATH=" + w.bin + ":" + os.Getenv("PATH"), "MCF_ROOT=" + w.p.Root, "MCF_TMP=foo-2", "MCF_LOG=" + log}, env...)}
	if instrumented {
		o.bin = os.Getenv("MC_CLI_FAULT")
	}
	args := append(append([]string(nil), w.mode.args...), "--include", "txt$", "plugin/foo", "out")
	x := cfRun{Run: w.p.Hotswap(o, args...)}
	w.c.r.Count("cli_runs", 1)
	w.c.r.Transition()
	x.log, x.calls = lines(log), lines(filepath.Join(w.bin, "calls"))
	w.c.r.Res.Events += int64(len(x.log) + len(x.calls))
	if b, err := os.ReadFile(w.p.Path("out/foo.so")); err == nil {
		x.so, x.hasSo = string(b), true
	}
	for _, e := range mustReadDir(w.p.Path("plugin")) {
		if _, ok := w.src[e.Name()+"/"]; !ok {
			if _, ok := w.src[e.Name()]; !ok {
				x.news = append(x.news, e.Name())
			}
		}
	}
	for _, n := range x.news {
		s := Snap{}
		for k, v := range w.p.Snap("plugin/" + n).Files() {
			s[k] = w.norm(v, n)
		}
		x.copies = append(x.copies, s)
		x.so = w.norm(x.so, n)
		w.p.Remove("plugin/" + n)
	}
	return x
}

func mustReadDir(d string) []os.DirEntry {
	es, err := os.ReadDir(d)
	must(err)
	return es
}

func lines(f string) []string {
	b, _ := os.ReadFile(f)
	var a []string
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			a = append(a, l)
		}
	}
	return a
}

// soNorm removes the name of the temporary directory from the content of a fake plugin file.
func soNorm(s string) string {
	i := strings.Index(s, modPath+"/plugin/foo-2")
	if i < 0 {
		return s
	}
	t := s[i+len(modPath+"/plugin/"):]
	j := strings.IndexAny(t, "/\"`")
	if j < 0 {
		return s
	}
	return strings.ReplaceAll(s, t[:j], "$TMP")
}

func (w *cfWorld) baseline(instrumented bool) bool {
	x := w.run(instrumented)
	if x.Exit != 0 {
		w.c.violate([]string{"C21"}, "the undisturbed build fails: "+x.Run.String())
		return false
	}
	w.so = soNorm(x.so)
	if w.mode.keep {
		if len(x.copies) != 1 {
			w.c.violate([]string{"C21"}, fmt.Sprintf("%s: the temporary copy is not kept: %v", w.mode.id, x.news))
			return false
		}
		w.copy = x.copies[0]
		for k, v := range cfFiles {
			if g, ok := w.copy[k]; !ok || len(g) == 0 && len(v) > 0 {
				w.c.violate([]string{"C21"}, w.mode.id+": the kept copy lacks "+k)
			}
		}
	}
	w.ops, w.all = x.log, x.calls
	w.judge("the undisturbed build", x, true)
	w.old = true
	w.judge("the undisturbed second build", w.run(instrumented), true)
	return len(w.c.viol) == 0
}

// judge: what must hold after every run. tidy: no leftover is excused.
func (w *cfWorld) judge(what string, x cfRun, tidy bool) {
	bad := func(f string, a ...any) {
		w.c.violate([]string{"C21"}, fmt.Sprintf("%s: %s: %s [%s]", w.mode.id, what, fmt.Sprintf(f, a...), x.Run))
	}
	if x.Timeout {
		bad("the command does not end")
		return
	}
	if !w.mode.keep && tidy && len(x.news) > 0 {
		bad("the temporary directory is left behind: %v", sortedKeys(x.copies))
	}
	if d := w.src.Diff(w.p.Snap("plugin")); d != "" {
		bad("the sources were touched: %s", d)
	} else if f := sameStamps(w.st, stamps(w.p.Path("plugin"))); f != "" {
		bad("a source file was rewritten: %s", f)
	}
	if x.Exit == 0 {
		if w.mode.so {
			if !x.hasSo {
				bad("exit status 0 without a plugin file")
			} else if soNorm(x.so) != w.so {
				bad("exit status 0, but the plugin file was built from something else: %s", clip(diffText(w.so, soNorm(x.so))))
			}
		}
		if w.mode.keep {
			if len(x.copies) != 1 {
				bad("exit status 0, but the temporary copy was not kept (%v)", x.news)
			} else if d := w.copy.Diff(x.copies[0]); d != "" {
				bad("exit status 0, but the kept copy is not complete: %s", d)
			}
		}
	}
	for _, e := range mustReadDir(w.p.Path("out")) {
		if e.Name() != "foo.so" || !w.mode.so {
			bad("something else is in the output directory: %s", e.Name())
		}
	}
}

func sortedKeys(s []Snap) []string {
	var a []string
	for _, m := range s {
		for k := range m {
			a = append(a, k)
		}
	}
	sort.Strings(a)
	if len(a) > 4 {
		a = a[:4]
	}
	return a
}

func diffText(a, b string) string { return diffAt([]byte(b), []byte(a)) }

func runCLIFault(r *Runner) {
	inst := os.Getenv("MC_CLI_FAULT") != ""
	if !inst {
		r.Count("no_instrumented_command", 1)
	}
	// learn the operations of each mode (every worker does, so that all number the cases alike)
	type learnt struct {
		ops   []string
		calls []string
	}
	var l []learnt
	for _, m := range cfModes {
		w := newCF(&Ctx{r: r, Case: "learn"}, m)
		x := w.run(inst)
		w.p.Close()
		x.log = fileOps(x.log)
		sort.Strings(x.log)
		l = append(l, learnt{x.log, x.calls})
	}
	tag := func(s string) string { return strings.ReplaceAll(s, "$TMP", "TMP") }
	nOps := 0
	for mi, m := range cfModes {
		m := m
		r.Case(m.id+" undisturbed", func(c *Ctx) {
			w := newCF(c, m)
			defer w.p.Close()
			w.baseline(inst)
			w.baseline(false)
		})
		if m.id == "verbose" && !r.Thorough() {
			continue
		}
		// faults of the started programs, signals while they run
		for _, call := range l[mi].calls {
			f := strings.Fields(call)
			at := f[0] + " " + f[1]
			r.Case(m.id+" failing "+call, func(c *Ctx) {
				w := getCF(c, m, false)
				if w == nil {
					return
				}
				defer w.release(false)
				w.judge("after a failure of "+call, w.run(false, "MCT_FAIL="+at), true)
				c.r.State(m.id + call)
			})
			for _, sg := range []string{"INT", "TERM"} {
				for _, ph := range []string{"before", "middle", "after"} {
					sg, ph := sg, ph
					if ph == "middle" && !(f[0] == "go" && len(f) > 2 && f[2] == "build") {
						continue
					}
					r.Case(m.id+" SIG"+sg+" "+ph+" "+call, func(c *Ctx) {
						w := getCF(c, m, false)
						if w == nil {
							return
						}
						defer w.release(false)
						for _, z := range []bool{false, true} {
							env := []string{"MCT_SIG=" + at + " " + ph, "MCT_SIGNAL=" + sg}
							if z {
								env = append(env, "MCT_FAIL="+at)
							}
							w.judge(fmt.Sprintf("after SIG%s %s %s (program fails: %v)", sg, ph, call, z), w.run(false, env...), true)
							c.r.State(fmt.Sprint(m.id, call, sg, ph, z))
						}
					})
				}
			}
		}
		if !inst {
			continue
		}
		for _, op := range l[mi].ops {
			op := op
			nOps++
			isRemoval := strings.HasPrefix(op, "os.RemoveAll") && strings.Contains(op, "$TMP")
			if !isRemoval {
				r.Case(m.id+" failing "+tag(op), func(c *Ctx) {
					w := getCF(c, m, true)
					if w == nil {
						return
					}
					defer w.release(true)
					w.judge("after a failure of "+op, w.run(true, "MCF_FAIL="+op), true)
					c.r.State(m.id + op)
					if strings.Contains(op, "WriteFile") {
						w.judge("after a torn "+op, w.run(true, "MCF_FAIL="+op, "MCF_HALF=1"), true)
						c.r.State(m.id + op + "half")
					}
				})
			}
			for _, sg := range []string{"INT", "TERM"} {
				sg := sg
				r.Case(m.id+" SIG"+sg+" at "+tag(op), func(c *Ctx) { cfSignal(c, m, op, sg) })
			}
		}
	}
	if inst {
		cfPairs(r, l[0].ops)
	}
	r.Bound("operations", "%d file operations in %d modes; faults, torn writes, SIGINT and SIGTERM at each; the handler's removal (whole or in two parts) before every later operation%s",
		nOps, len(cfModes), map[bool]string{true: "", false: " up to the 3rd and before the last two"}[r.Thorough()])
	for _, v := range []string{"type error", "syntax error in a sub-package", "unknown import", "unused import"} {
		v := v
		r.Case("real build with "+v, func(c *Ctx) { cfRealFailure(c, v) })
	}
}

// cfSignal: the signal arrives at op; first the removal at once, then after the program has come to
// rest, which shows the operations that are executed after the signal, and then before each of those.
func cfSignal(c *Ctx, m cfMode, op, sg string) {
	w := getCF(c, m, true)
	if w == nil {
		return
	}
	defer w.release(true)
	env := []string{"MCF_SIG=" + op, "MCF_SIGNAL=" + sg}
	what := "after SIG" + sg + " at " + op
	w.judge(what, w.run(true, env...), true)
	c.r.State(m.id + op + sg)
	if m.keep {
		return // the handler removes nothing
	}
	x := w.run(true, append(env, "MCF_HOLD=end")...)
	w.judge(what+" (removal at the end)", x, true)
	c.r.State(m.id + op + sg + "end")
	var later []string
	for _, l := range x.log {
		if strings.HasPrefix(l, "+") && !strings.HasPrefix(l, "+sched") && !strings.HasPrefix(l, "+os.RemoveAll") {
			later = append(later, l[1:])
		}
	}
	for i, l := range later {
		if !c.r.Thorough() && i >= 3 && i < len(later)-2 {
			continue
		}
		if c.r.expired() {
			return
		}
		for _, part := range []string{"0", "1"} {
			w.judge(fmt.Sprintf("%s (removal before %s, in two parts: %s)", what, l, part), w.run(true, append(env, "MCF_HOLD="+l, "MCF_PARTIAL="+part)...), true)
			c.r.State(m.id + op + sg + l + part)
		}
	}
	w.judge(what+" (removal in two parts)", w.run(true, append(env, "MCF_HOLD=end", "MCF_PARTIAL=1")...), true)
	if !c.r.Thorough() {
		return
	}
	// the signal and a failure of a later operation
	for _, l := range later {
		if c.r.expired() {
			return
		}
		w.judge(fmt.Sprintf("%s and a failure of %s", what, l), w.run(true, append(env, "MCF_HOLD="+l, "MCF_FAIL="+l)...), true)
		c.r.State(m.id + op + sg + l + "fail")
	}
}

// cfRealFailure: builds that the real compiler refuses.
func cfRealFailure(c *Ctx, v string) {
	p := c.r.newProj()
	defer p.Close()
	var x Run
	files := map[string]string{"main.go": fundamental("foo", userFuncs, ""), "sub/s.go": "package sub\n"}
	switch v {
	case "type error":
		files["bad.go"] = "package foo\n\nvar x int = \"\"\n"
	case "syntax error in a sub-package":
		files["sub/bad.go"] = "package sub\n\nfunc (\n"
		files["imp.go"] = "package foo\n\nimport _ \"" + pluginPath + "/sub\"\n"
	case "unknown import":
		files["bad.go"] = "package foo\n\nimport _ \"" + pluginPath + "/nowhere\"\n"
	case "unused import":
		files["bad.go"] = "package foo\n\nimport \"" + pluginPath + "/sub\"\n"
	}
	before := Snap{}
	for _, good := range []bool{true, false} { // there is a plugin file of an earlier build
		if !good {
			p.writeAll("plugin/foo", files)
			before = trim(snapDir(p.Root))
		} else {
			p.writeAll("plugin/foo", map[string]string{"main.go": files["main.go"], "sub/s.go": "package sub\n"})
		}
		x = p.Hotswap(runOpt{}, "build", "plugin/foo", "out")
		c.r.Count("cli_runs", 1)
		c.r.Transition()
		if good && x.Exit != 0 {
			c.violate([]string{"C21"}, "a proper plugin is not built: "+x.String())
			return
		}
	}
	if x.Exit == 0 {
		c.violate([]string{"C21"}, "exit status 0 for a plugin with a "+v)
	}
	if d := before.Diff(trim(snapDir(p.Root))); d != "" {
		c.violate([]string{"C21"}, "a build that fails ("+v+") leaves something behind: "+d)
	}
	c.r.State("real " + v)
}

// fileOps leaves the scheduling points out.
func fileOps(log []string) []string {
	var a []string
	for _, l := range log {
		if !strings.HasPrefix(strings.TrimPrefix(l, "+"), "sched ") {
			a = append(a, l)
		}
	}
	return a
}

// cfPairs: two operations fail at the same time; then the same with one goroutine held up before
// each of the close and send statements it executes.
func cfPairs(r *Runner, ops []string) {
	var cand []string
	for _, op := range ops {
		if (strings.HasPrefix(op, "ioutil.ReadFile plugin/foo/") || strings.Contains(op, "WriteFile") && strings.Contains(op, "$TMP")) && !strings.Contains(op, "hotswap.") {
			cand = append(cand, op)
		}
	}
	m := cfModes[0]
	n := 0
	for i := range cand {
		for j := i + 1; j < len(cand); j++ {
			a, b := cand[i], cand[j]
			n++
			r.Case("failing "+strings.ReplaceAll(a+" and "+b, "$TMP", "TMP"), func(c *Ctx) {
				w := getCF(c, m, true)
				if w == nil {
					return
				}
				defer w.release(true)
				env := "MCF_FAIL=" + a + "\n" + b
				x := w.run(true, env)
				w.judge("after simultaneous failures of "+a+" and "+b, x, true)
				c.r.State(a + b)
				for _, l := range x.log {
					if !strings.HasPrefix(l, "sched ") || c.r.expired() {
						continue
					}
					w.judge(fmt.Sprintf("after simultaneous failures of %s and %s, held up at %s", a, b, l), w.run(true, env, "MCF_STALL="+l), true)
					c.r.State(a + b + l)
				}
			})
		}
	}
	r.Bound("pairs", "%d pairs of simultaneously failing operations of the copying goroutines x one goroutine held up at each close or send", n)
}
