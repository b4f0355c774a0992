package clih

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// The args suite (C25): an invocation of the build command is carried out exactly as given, or it is
// refused and changes no file. "go build" is a stand-in that records its arguments and its directory
// and writes what it found in main.go as the plugin; everything else is real.

func init() { register(&Suite{Name: "args", Run: runArgs}) }

const recTool = `#!/bin/bash
if [ TOOL = go ] && [ "$1" = build ]; then
	printf x >> "DIR/builds"
	{ printf '%s\n' "$PWD" "$GO111MODULE"; for a in "$@"; do printf '%s\n' "$a"; done; } > "DIR/argv"
	out=; prev=
	for a in "$@"; do [ "$prev" = -o ] && out=$a; case "$a" in -o=*) out=${a#-o=};; esac; prev=$a; done
	[ -n "$MCA_FAIL" ] && { echo "does not compile" >&2; exit 1; }
	[ -e ./hotswap.main.go ] || { echo "no Go files" >&2; exit 1; }
	{ echo plugin; grep -h marker main.go; } > "$out"
	exit
fi
exec "REAL" "$@"
`

type argWorld struct {
	c   *Ctx
	p   *Proj
	bin string
	env []string
	// the directory of the plugins and the name of the one that is built
	parent, name string
}

// at puts the plugin's real directory in the place of plugin/foo.
func (w *argWorld) at(path string) string {
	a := strings.Split(path, "/")
	for i, e := range a {
		switch e {
		case "plugin":
			a[i] = w.parent
		case "foo":
			a[i] = w.name
		}
	}
	return strings.Join(a, "/")
}

func newArgWorld(c *Ctx) *argWorld { return newArgWorldAt(c, "plugin", "foo") }

func newArgWorldAt(c *Ctx, parent, name string) *argWorld {
	w := &argWorld{c: c, p: c.r.newProj(), parent: parent, name: name}
	for _, n := range []string{"foo", "fo", "bar"} {
		w.p.Write(w.at("plugin/"+n)+"/main.go", fundamental(n, userFuncs, "\nconst marker = \""+n+"\"\n\nfunc live_"+n+"() {}\n"))
		w.p.Write(w.at("plugin/"+n)+"/sub/s.go", "package sub\n\nfunc live_sub"+n+"() {}\n")
	}
	w.p.Write(w.at("plugin/plugin.go"), "package plugin\n")
	w.p.Write("file", "a file\n")
	w.p.Mkdir("out")
	w.bin = filepath.Join(filepath.Dir(w.p.Root), "bin")
	w.tools(w.bin, "go", "git", "gofmt")
	return w
}

func (w *argWorld) tools(dir string, names ...string) {
	must(os.MkdirAll(dir, 0755))
	for _, t := range names {
		real, err := exec.LookPath(t)
		must(err)
		must(os.WriteFile(filepath.Join(dir, t), []byte(strings.NewReplacer("TOOL", t, "DIR", w.bin, "REAL", real).Replace(recTool)), 0755))
	}
}

func (w *argWorld) snap() Snap {
	s := w.p.Snap("")
	for k := range s {
		if strings.HasPrefix(k, ".git/") || k == "go.sum" {
			delete(s, k)
		}
	}
	return s
}

func (w *argWorld) run(dir string, env []string, args ...string) (x Run, builds int, argv []string) {
	_ = os.Remove(filepath.Join(w.bin, "builds"))
	_ = os.Remove(filepath.Join(w.bin, "argv"))
	x = w.p.Hotswap(runOpt{dir: dir, env: append([]string{"PATH=" + w.bin + ":" + os.Getenv("PATH")}, append(w.env[:len(w.env):len(w.env)], env...)...)}, args...)
	w.c.r.Count("cli_runs", 1)
	w.c.r.Transition()
	b, _ := os.ReadFile(filepath.Join(w.bin, "builds"))
	v, _ := os.ReadFile(filepath.Join(w.bin, "argv"))
	if len(v) > 0 {
		argv = strings.Split(strings.TrimSuffix(string(v), "\n"), "\n")
	}
	w.c.r.Res.Events += int64(len(argv))
	return x, len(b), argv
}

func (w *argWorld) bad(f string, a ...any) { w.c.violate([]string{"C25"}, fmt.Sprintf(f, a...)) }

type dirForm struct {
	id, cwd string
	plugin  string
	out     string
	abs     bool
}

// spelled forms of plugin/foo and an output directory; out is relative to cwd
var dirForms = []dirForm{
	{"plain", "", "plugin/foo", "OUT", false},
	{"slashes", "", "./plugin//foo/", "./OUT/", false},
	{"dots", "plugin/bar", "../foo", "../../OUT", false},
	{"here", "plugin/foo", ".", "../../OUT", false},
	{"from below", "plugin/foo/sub", "..", "../../../OUT/.", false},
	{"parent", "plugin", "foo", "../OUT", false},
	{"detour", "", "plugin/bar/../foo", "plugin/../OUT", false},
	{"absolute", "plugin/bar", "plugin/foo", "OUT", true},
}

// environments none of which changes what an invocation does
var envForms = [][]string{
	{"GO111MODULE=off"}, {"GO111MODULE=auto"}, {"GO111MODULE="}, {"GOFLAGS=-mod=mod"}, {"GOFLAGS=-tags=a,b"}, {"GOFLAGS=-v -trimpath=false"}, {"PWD=/"}, {"LC_ALL=de_DE.UTF-8", "LANG=de_DE.UTF-8"},
	{"GIT_CONFIG_COUNT=2", "GIT_CONFIG_KEY_0=color.ui", "GIT_CONFIG_VALUE_0=always", "GIT_CONFIG_KEY_1=log.decorate", "GIT_CONFIG_VALUE_1=full"}, {"GOMAXPROCS=1"}, {"GOMAXPROCS=200"}, {"GOWORK=off"},
	{"hotswap:checkRequiredPluginFuncs=false"}, {"TZ=Asia/Kathmandu"}, {"GO111MODULE=off", "GOFLAGS=-mod=mod"},
}

var outForms = []string{"out", "plugin", "new", "new/deep/er", "an out", "plugin/foo", "plugin/foo/sub", "foo.so", "."}

// names of directories that are nothing special; each with its parent
var oddDirs = func() (a [][2]string) {
	for _, n := range []string{"foo.v2", "foo.so", "Foo", "FOO", "foo-bar", "foo-1", "_foo", ".foo", "testdata", "foo.", "internal", "123", "2fa", "main", "foo-", "hotswap", "hotswapbureau", "go", "type", "v2", "foo_linux", "foo_windows",
		"std", "cmd", "all", "foo+x", "tmp", "foo.go", "x.y.z", "out", "sub", "init", "a_b", "foo..so"} {
		a = append(a, [2]string{"plugin", n})
	}
	return
}()

var oddParents = func() (a [][2]string) {
	for _, n := range []string{"_p", ".p", "testdata", "a.b", "foo", "P", "internal", "tmp", "v2", "p-q", "func"} {
		a = append(a, [2]string{n, "foo"}, [2]string{n, "Bar.v1"})
	}
	return
}()

// states of the repository none of which changes what an invocation does
var repoForms = []struct {
	id   string
	prep func(w *argWorld) []string // gives the environment
}{
	{"signed commit, signatures are shown", func(w *argWorld) []string {
		prog := filepath.Join(w.bin, "sign")
		must(os.WriteFile(prog, []byte(signTool), 0755))
		w.p.git("-c", "gpg.program="+prog, "-c", "user.signingkey=x", "commit", "-q", "-S", "--allow-empty", "-m", "signed")
		return []string{"GIT_CONFIG_COUNT=2", "GIT_CONFIG_KEY_0=log.showSignature", "GIT_CONFIG_VALUE_0=true", "GIT_CONFIG_KEY_1=gpg.program", "GIT_CONFIG_VALUE_1=" + prog}
	}},
	{"file named HEAD in the plugin", func(w *argWorld) []string { w.p.Write("plugin/foo/HEAD", "x"); return nil }},
	{"everything committed", func(w *argWorld) []string {
		w.p.git("add", ".")
		w.p.git("commit", "-q", "-m", "all\n\nof it")
		return nil
	}},
	{"staged and changed files", func(w *argWorld) []string {
		w.p.git("add", ".")
		w.p.Write("plugin/foo/extra.go", "package foo\n")
		return nil
	}},
	{"detached", func(w *argWorld) []string { w.p.git("checkout", "-q", "--detach"); return nil }},
	{"merge", func(w *argWorld) []string {
		w.p.git("checkout", "-q", "-b", "side")
		w.p.git("commit", "-q", "--allow-empty", "-m", "a")
		w.p.git("checkout", "-q", "-")
		w.p.git("commit", "-q", "--allow-empty", "-m", "b")
		w.p.git("merge", "-q", "--no-ff", "-m", "m", "side")
		return nil
	}},
	{"ambiguous tag", func(w *argWorld) []string { w.p.git("update-ref", "refs/tags/HEAD", "HEAD"); return nil }},
	{"packed", func(w *argWorld) []string { w.p.git("gc", "-q"); return nil }},
	{"plugins in a repository of their own", func(w *argWorld) []string {
		w.p.git("init", "-q", "plugin")
		w.p.git("-C", "plugin", "commit", "-q", "--allow-empty", "-m", "own")
		return nil
	}},
	{"long history", func(w *argWorld) []string {
		for i := 0; i < 5; i++ {
			w.p.git("commit", "-q", "--allow-empty", "-m", strings.Repeat("x\n", 50))
		}
		return nil
	}},
	{"odd settings", func(w *argWorld) []string {
		w.p.git("config", "log.date", "relative")
		w.p.git("config", "log.abbrevCommit", "true")
		w.p.git("config", "core.abbrev", "5")
		w.p.git("config", "format.pretty", "oneline")
		w.p.git("config", "core.pager", "cat -n")
		w.p.git("config", "color.ui", "always")
		w.p.git("config", "log.follow", "true")
		w.p.git("config", "log.mailmap", "true")
		w.p.git("notes", "add", "-m", "a note")
		return nil
	}},
}

const signTool = `#!/bin/bash
case "$*" in
*--verify*)
	echo "[GNUPG:] NEWSIG"
	echo "[GNUPG:] GOODSIG 0123456789ABCDEF Someone <a@b>"
	echo "[GNUPG:] VALIDSIG 0123456789ABCDEF0123456789ABCDEF01234567 2024-02-03 1 0 4 0 1 8 00 0123456789ABCDEF0123456789ABCDEF01234567"
	echo 'gpg: Good signature from "Someone <a@b>"' >&2
	;;
*)
	cat > /dev/null
	echo "[GNUPG:] BEGIN_SIGNING" >&2
	echo "[GNUPG:] SIG_CREATED D 1 8 00 1706932800 0123456789ABCDEF0123456789ABCDEF01234567" >&2
	printf -- '-----BEGIN PGP SIGNATURE-----\n\nxyz\n-----END PGP SIGNATURE-----\n'
	;;
esac
`

type argMode struct {
	id    string
	flags []string
	build bool
	keep  bool
}

var argModes = []argMode{
	{"build", nil, true, false},
	{"verbose", []string{"-v"}, true, false},
	{"leaveTemps", []string{"--leaveTemps"}, true, true},
	{"copy only", []string{"--goBuild=false"}, false, true},
	{"debug, long names", []string{"--debug", "--verbose=true", "--goBuild=true", "--leaveTemps=false", "--livePrefix=LIVE_"}, true, false},
}

var flagLists = [][]string{
	nil,
	{"-race"},
	{"-ldflags", "-X main.CompileTimeString=12-3 -s"},
	{"-tags", "a,b", "-v", "-gcflags=-N -l"},
	{"-v", "--leaveTemps"},
	{"-a", "-a"},
	{"", "-x"},
	{"--", "-x"},
	{"-ldflags=-X 'main.A=b c'", "-p", "3"},
}

func (w *argWorld) valid(d dirForm, out string, m argMode, flags []string, order int, old bool) {
	out = w.at(out)
	cwd, pl, o := w.p.Path(w.at(d.cwd)), w.at(d.plugin), strings.Replace(w.at(d.out), "OUT", out, 1)
	if d.abs {
		pl, o = w.p.Path(pl), w.p.Path(o)
	}
	if old {
		w.p.Write(filepath.Join(out, w.name+".so"), "old")
		w.p.Write(filepath.Join(out, "fo.so"), "old fo")
	}
	var args []string
	switch order {
	case 0:
		args = append(append([]string{"build"}, m.flags...), pl, o)
	case 1:
		args = append([]string{"build", pl, o}, m.flags...)
	case 2:
		args = append(append([]string{"build", pl}, m.flags...), o)
	}
	if flags != nil {
		args = append(append(args, "--"), flags...)
	}
	before := w.snap()
	x, builds, argv := w.run(cwd, nil, args...)
	w.c.Desc("in %q: hotswap %q -> %v", d.cwd, args, x)
	if x.Exit != 0 || x.Timeout {
		w.bad("a proper invocation fails: %v", x)
		return
	}
	after := w.snap()
	so := filepath.Join(out, w.name+".so")
	var news []string
	for k := range after {
		if _, ok := before[k]; !ok {
			news = append(news, k)
		}
	}
	sort.Strings(news)
	var rest []string
	tmp := ""
	for _, k := range news {
		first := strings.TrimPrefix(k, w.parent+"/")
		switch i := strings.Index(first, "/"); {
		case m.build && k == filepath.Clean(so):
		case strings.HasSuffix(k, "/") && strings.HasPrefix(filepath.Clean(out)+"/", k):
		case first != k && i > 0 && strings.HasPrefix(first, w.name+"-") && (tmp == "" || tmp == first[:i]):
			tmp = first[:i]
		default:
			rest = append(rest, k)
		}
	}
	if len(rest) > 0 {
		w.bad("the invocation makes %q", rest)
	}
	if m.keep != (tmp != "") {
		w.bad("a temporary copy is left: %v (%q)", tmp != "", tmp)
	}
	for k, v := range before {
		if k == filepath.Clean(so) && m.build {
			continue
		}
		if g, ok := after[k]; !ok || g != v {
			w.bad("%s was changed or removed", k)
		}
	}
	if !m.build {
		if builds != 0 {
			w.bad("the compiler is called although --goBuild=false")
		}
		return
	}
	want := "plugin\nconst marker = \"foo\"\n"
	if g := after[filepath.Clean(so)]; g != want {
		w.bad("the plugin file %s holds %q instead of %q", so, g, want)
	}
	if builds != 1 || len(argv) < 3 {
		w.bad("the compiler is called %d times: %q", builds, argv)
		return
	}
	if argv[1] != "on" {
		w.bad("the compiler is called with GO111MODULE=%s", argv[1])
	}
	if filepath.Dir(argv[0]) != w.p.Path(w.parent) || !strings.HasPrefix(filepath.Base(argv[0]), w.name+"-") {
		w.bad("the compiler runs in %s", argv[0])
	}
	a := argv[2:]
	n := 0
	for i := 0; i+len(flags) <= len(a); i++ {
		if fmt.Sprintf("%q", a[i:i+len(flags)]) == fmt.Sprintf("%q", append([]string{}, flags...)) {
			n++
		}
	}
	if n == 0 {
		w.bad("the build flags %q do not reach the compiler: %q", flags, a)
	}
	for _, f := range []string{"-buildmode=plugin", "-trimpath"} {
		k := 0
		for _, v := range a {
			if v == f || "-"+v == f {
				k++
			}
		}
		if k == 0 {
			w.bad("the compiler is called without %s: %q", f, a)
		}
	}
	told := false
	for _, l := range strings.Split(x.Out, "\n") {
		told = told || strings.TrimSpace(l) == w.p.Path(so)
	}
	if !told {
		w.bad("the output does not name the plugin file %s: %q", w.p.Path(so), x.Out)
	}
}

func (w *argWorld) static(d dirForm, out string, verbose bool, want Snap) Snap {
	out = w.at(out)
	cwd, pl, o := w.p.Path(w.at(d.cwd)), w.at(d.plugin), strings.Replace(w.at(d.out), "OUT", out, 1)
	if d.abs {
		pl, o = w.p.Path(pl), w.p.Path(o)
	}
	args := []string{"build", "--staticLinking", pl, o}
	if verbose {
		args = append(args, "-v")
	}
	x, builds, _ := w.run(cwd, nil, args...)
	w.c.Desc("in %q: hotswap %q -> %v", d.cwd, args, x)
	if x.Exit != 0 || x.Timeout {
		w.bad("a proper invocation fails: %v", x)
		return nil
	}
	if builds != 0 {
		w.bad("the compiler is called although static linking was asked for")
	}
	s := w.snap()
	if want != nil {
		if df := want.Diff(s); df != "" {
			w.bad("the same directories, spelled differently, give another result: %s", df)
		}
	}
	return s
}

type refusal struct {
	id   string
	cwd  string
	args []string
	prep func(w *argWorld)
	env  func(w *argWorld) []string
}

func without(tool string) func(w *argWorld) []string {
	return func(w *argWorld) []string {
		d := filepath.Join(filepath.Dir(w.p.Root), "bin2")
		var a []string
		for _, t := range []string{"go", "git", "gofmt"} {
			if t != tool {
				a = append(a, t)
			}
		}
		w.tools(d, a...)
		return []string{"PATH=" + d}
	}
}

var refusals = []refusal{
	{id: "no directories", args: []string{"build"}},
	{id: "one directory", args: []string{"build", "plugin/foo"}},
	{id: "three directories", args: []string{"build", "plugin/foo", "out", "plugin/bar"}},
	{id: "directories behind --", args: []string{"build", "--", "plugin/foo", "out"}},
	{id: "one directory before --", args: []string{"build", "plugin/foo", "--", "out"}},
	{id: "unknown command", args: []string{"built", "plugin/foo", "out"}},
	{id: "unknown flag", args: []string{"build", "--nothing", "plugin/foo", "out"}},
	{id: "flag without value", args: []string{"build", "plugin/foo", "out", "--include"}},
	{id: "flag with a bad value", args: []string{"build", "--goBuild=maybe", "plugin/foo", "out"}},
	{id: "plugin missing", args: []string{"build", "plugin/none", "out"}},
	{id: "plugin is a file", args: []string{"build", "plugin/foo/main.go", "out"}},
	{id: "plugin empty", args: []string{"build", "", "out"}},
	{id: "output empty", args: []string{"build", "plugin/foo", ""}},
	{id: "output is a file", args: []string{"build", "plugin/foo", "file"}},
	{id: "output below a file", args: []string{"build", "plugin/foo", "file/out"}},
	{id: "output file is a directory", args: []string{"build", "plugin/foo", "out"}, prep: func(w *argWorld) { w.p.Write("out/foo.so/x", "x") }},
	{id: "prefix empty", args: []string{"build", "--livePrefix", "", "plugin/foo", "out"}},
	{id: "prefix blank", args: []string{"build", "--livePrefix=  ", "plugin/foo", "out"}},
	{id: "include malformed", args: []string{"build", "--include", "(", "plugin/foo", "out"}},
	{id: "exclude malformed", args: []string{"build", "--include", "x", "--exclude", "[", "plugin/foo", "out"}},
	{id: "clean of a plugin build", args: []string{"build", "--clean", "plugin/foo", "out"}},
	{id: "no module", args: []string{"build", "plugin/foo", "out"}, prep: func(w *argWorld) { w.p.Remove("go.mod") }},
	{id: "module without path", args: []string{"build", "plugin/foo", "out"}, prep: func(w *argWorld) { w.p.Write("go.mod", "go 1.18\n") }},
	{id: "no repository", args: []string{"build", "plugin/foo", "out"}, prep: func(w *argWorld) { w.p.Remove(".git") }},
	{id: "repository without commits", args: []string{"build", "plugin/foo", "out"}, prep: func(w *argWorld) {
		w.p.Remove(".git")
		w.p.git("init", "-q", ".")
	}},
	{id: "two packages", args: []string{"build", "plugin/foo", "out"}, prep: func(w *argWorld) { w.p.Write("plugin/foo/x.go", "package other\n") }},
	{id: "no sources", args: []string{"build", "plugin/empty", "out"}, prep: func(w *argWorld) { w.p.Mkdir("plugin/empty") }},
	{id: "go missing", args: []string{"build", "plugin/foo", "out"}, env: without("go")},
	{id: "git missing", args: []string{"build", "plugin/foo", "out"}, env: without("git")},
	{id: "gofmt missing", args: []string{"build", "plugin/foo", "out"}, env: without("gofmt")},
	{id: "does not compile", args: []string{"build", "plugin/foo", "out"}, env: func(w *argWorld) []string { return []string{"MCA_FAIL=1"} }},

	{id: "static: output missing", args: []string{"build", "--staticLinking", "plugin/foo", "new"}},
	{id: "static: output is a file", args: []string{"build", "--staticLinking", "plugin/foo", "file"}},
	{id: "static: output is the plugin", args: []string{"build", "--staticLinking", "plugin/foo", "plugin/foo"}},
	{id: "static: output is the plugin, spelled differently", args: []string{"build", "--staticLinking", "plugin/foo/", "./plugin/fo/../foo"}},
	{id: "static: output is the plugin, from within", cwd: "plugin/foo", args: []string{"build", "--staticLinking", "../foo", "."}},
	{id: "static: output in the plugin", args: []string{"build", "--staticLinking", "plugin/foo", "plugin/foo/sub"}},
	{id: "static: output in the plugin, from within", cwd: "plugin/foo/sub", args: []string{"build", "--staticLinking", "..", "."}},
	{id: "static: output without a package name", args: []string{"build", "--staticLinking", "plugin/foo", "日本"}, prep: func(w *argWorld) { w.p.Mkdir("日本") }},
	{id: "static: output named like a keyword", args: []string{"build", "--staticLinking", "plugin/foo", "default"}, prep: func(w *argWorld) { w.p.Mkdir("default") }},
	{id: "static: output name with a leading digit", args: []string{"build", "--staticLinking", "plugin/foo", "2fa"}, prep: func(w *argWorld) { w.p.Mkdir("2fa") }},
	{id: "static: two packages in the output", args: []string{"build", "--staticLinking", "plugin/foo", "out"}, prep: func(w *argWorld) {
		w.p.Write("out/a.go", "package a\n")
		w.p.Write("out/b.go", "package b\n")
	}},
	{id: "static: malformed package clause in the output", args: []string{"build", "--staticLinking", "plugin/foo", "out"}, prep: func(w *argWorld) { w.p.Write("out/a.go", "packag a\n") }},
	{id: "static: output in a module without path", args: []string{"build", "--staticLinking", "plugin/foo", "out"}, prep: func(w *argWorld) { w.p.Write("out/go.mod", "go 1.18\n") }},
	{id: "static: two packages in the plugin", args: []string{"build", "--staticLinking", "plugin/foo", "plugin"}, prep: func(w *argWorld) { w.p.Write("plugin/foo/x.go", "package other\n") }},
	{id: "static: no sources", args: []string{"build", "--staticLinking", "plugin/empty", "plugin"}, prep: func(w *argWorld) { w.p.Mkdir("plugin/empty") }},
	{id: "static: no repository", args: []string{"build", "--staticLinking", "plugin/foo", "plugin"}, prep: func(w *argWorld) { w.p.Remove(".git") }},
	{id: "static: go missing", args: []string{"build", "--staticLinking", "plugin/foo", "plugin"}, env: without("go")},
	{id: "static: gofmt missing", args: []string{"build", "--staticLinking", "plugin/foo", "plugin"}, env: without("gofmt")},
	{id: "static: plugin missing", args: []string{"build", "--staticLinking", "plugin/none", "plugin"}},
	{id: "static: one directory", args: []string{"build", "--staticLinking", "plugin/foo"}},
	{id: "static: prefix blank", args: []string{"build", "--staticLinking", "--livePrefix", " ", "plugin/foo", "plugin"}},
	{id: "static: no module", args: []string{"build", "--staticLinking", "plugin/foo", "plugin"}, prep: func(w *argWorld) { w.p.Remove("go.mod") }},
	{id: "static: clean, output missing", args: []string{"build", "--staticLinking", "--clean", "plugin/foo", "new"}},
	{id: "static: clean, plugin missing", args: []string{"build", "--staticLinking", "--clean", "plugin/none", "plugin"}},
	{id: "static: clean, output in the plugin", args: []string{"build", "--staticLinking", "--clean", "plugin/foo", "plugin/foo/sub"}},
}

func runArgs(r *Runner) {
	r.Bound("invocations", "%d spellings of the directories x %d output directories x %d sets of flags, %d lists of build flags x %d sets of flags x 3 positions, with and without an earlier plugin file; %d spellings x %d output directories of static linking; %d invocations to be refused, plain, verbose and with --leaveTemps",
		len(dirForms), len(outForms), len(argModes), len(flagLists), len(argModes), len(dirForms), 3, len(refusals))
	for di, d := range dirForms {
		for oi, out := range outForms {
			for mi, m := range argModes {
				d, out, m := d, out, m
				old := (di+oi+mi)%2 == 0
				if !r.Thorough() && di > 0 && oi > 0 && mi > 0 && (di+oi+mi)%5 != 0 {
					continue // quick: every pair of spelling, output directory and flags
				}
				if out == "foo.so" {
					old = false
				}
				r.Case(fmt.Sprintf("%s, to %s, %s", d.id, out, m.id), func(c *Ctx) {
					w := newArgWorld(c)
					defer w.p.Close()
					w.valid(d, out, m, nil, 0, old)
					c.r.State("valid " + d.id + out + m.id)
				})
			}
		}
	}
	for fi, fl := range flagLists {
		for _, m := range argModes {
			for order := 0; order < 3; order++ {
				fl, m, order := fl, m, order
				r.Case(fmt.Sprintf("build flags %d, %s, order %d", fi, m.id, order), func(c *Ctx) {
					w := newArgWorld(c)
					defer w.p.Close()
					w.valid(dirForms[0], "out", m, fl, order, order == 1)
					c.r.State(fmt.Sprint("flags ", fi, m.id, order))
				})
			}
		}
	}
	r.Bound("environments", "%d environments x %d sets of flags and static linking", len(envForms), len(argModes))
	for _, env := range envForms {
		for mi, m := range argModes {
			r.Case(fmt.Sprintf("environment %q, %s", env, m.id), func(c *Ctx) {
				w := newArgWorld(c)
				defer w.p.Close()
				w.env = env
				w.valid(dirForms[2], "out", m, flagLists[1], mi%3, mi%2 == 0)
				c.r.State(fmt.Sprint("env ", env, m.id))
			})
		}
		r.Case(fmt.Sprintf("static: environment %q", env), func(c *Ctx) {
			w := newArgWorld(c)
			defer w.p.Close()
			s := w.static(dirForms[0], "plugin", false, nil)
			if w.env = env; s != nil {
				w.static(dirForms[2], "plugin", true, s)
			}
			c.r.State(fmt.Sprint("static env ", env))
		})
	}
	for _, out := range []string{"out", "plugin", "plugin/bar"} {
		for _, d := range dirForms[1:] {
			out, d := out, d
			r.Case("static: "+d.id+", to "+out, func(c *Ctx) {
				w := newArgWorld(c)
				defer w.p.Close()
				s := w.static(dirForms[0], out, false, nil)
				if s != nil {
					w.static(d, out, true, s)
				}
				c.r.State("static " + out + d.id)
			})
		}
	}
	r.Bound("names", "%d names of the plugin's directory and %d of its parent (dots, hidden, testdata, keywords, systems, letter case) x %d sets of flags and static linking", len(oddDirs), len(oddParents), len(argModes))
	for i, d := range append(append([][2]string{}, oddDirs...), oddParents...) {
		for mi, m := range argModes {
			if !r.Thorough() && mi != i%len(argModes) && mi > 0 {
				continue // quick: two sets of flags each
			}
			r.Case(fmt.Sprintf("plugin %s/%s, %s", d[0], d[1], m.id), func(c *Ctx) {
				w := newArgWorldAt(c, d[0], d[1])
				defer w.p.Close()
				w.valid(dirForms[(i+mi)%len(dirForms)], []string{"out", "plugin"}[mi%2], m, flagLists[mi], mi%3, mi%2 == 0)
				c.r.State(fmt.Sprint("name ", d, m.id))
			})
		}
		r.Case(fmt.Sprintf("static: plugin %s/%s", d[0], d[1]), func(c *Ctx) {
			w := newArgWorldAt(c, d[0], d[1])
			defer w.p.Close()
			if s := w.static(dirForms[0], "out", false, nil); s != nil {
				w.static(dirForms[2], "out", true, s)
				if _, ok := s["out/hotswap.staticPluginInit."+d[1]+".go"]; !ok {
					w.bad("the plugin's init file is missing")
				}
			}
			c.r.State(fmt.Sprint("static name ", d))
		})
	}
	r.Bound("repositories", "%d states of the git repository x %d sets of flags and static linking", len(repoForms), len(argModes))
	for i, f := range repoForms {
		for mi, m := range argModes {
			r.Case(fmt.Sprintf("repository: %s, %s", f.id, m.id), func(c *Ctx) {
				w := newArgWorld(c)
				defer w.p.Close()
				w.env = f.prep(w)
				w.valid(dirForms[(i+mi)%len(dirForms)], "out", m, flagLists[mi], mi%3, mi%2 == 0)
				c.r.State("repository " + f.id + m.id)
			})
		}
		r.Case("static: repository: "+f.id, func(c *Ctx) {
			w := newArgWorld(c)
			defer w.p.Close()
			w.static(dirForms[0], "out", false, nil)
			w.p.Remove("out")
			w.p.Mkdir("out")
			for _, g := range []string{"hotswap.main.go", "hotswap.live.go", "hotswapbureau", "sub/hotswap.live.go"} {
				w.p.Remove("plugin/foo/" + g)
			}
			w.env = f.prep(w)
			w.static(dirForms[2], "out", true, nil)
			if _, ok := w.snap()["out/hotswap.staticPluginInit.foo.go"]; !ok {
				w.bad("the plugin's init file is missing")
			}
			c.r.State("static repository " + f.id)
		})
	}
	for _, f := range refusals {
		for _, more := range []string{"", "-v", "--leaveTemps"} {
			f, more := f, more
			r.Case("refused "+more+": "+f.id, func(c *Ctx) {
				w := newArgWorld(c)
				defer w.p.Close()
				if f.prep != nil {
					f.prep(w)
				}
				var env []string
				if f.env != nil {
					env = f.env(w)
				}
				args := append([]string(nil), f.args...)
				if more != "" {
					args = append([]string{args[0], more}, args[1:]...)
				}
				before := w.snap()
				x, builds, _ := w.run(w.p.Path(f.cwd), env, args...)
				c.Desc("in %q: hotswap %q -> %v", f.cwd, args, x)
				if x.Exit == 0 {
					w.bad("an invocation that cannot be carried out (%s) exits with status 0", f.id)
				}
				if strings.TrimSpace(x.Err) == "" {
					w.bad("an invocation is refused (%s) without a word", f.id)
				}
				if builds != 0 && f.id != "does not compile" && f.id != "output file is a directory" {
					w.bad("the compiler is called although the invocation cannot be carried out (%s)", f.id)
				}
				after := w.snap()
				for k, v := range before {
					if g, ok := after[k]; !ok || g != v {
						w.bad("a refused invocation (%s) changes or removes %s", f.id, k)
					}
				}
				for k := range after {
					if _, ok := before[k]; ok || k == "out/" || k == "new/" || builds > 0 && more == "--leaveTemps" && strings.HasPrefix(k, "plugin/foo-") {
						continue
					}
					w.bad("a refused invocation (%s) leaves %s behind", f.id, k)
				}
				c.r.State("refused " + f.id + more)
			})
		}
	}
}
