package clih

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
)

// The copy suite (C18): what a plugin build makes of the plugin's sources.

func init() {
	register(&Suite{Name: "copy", Run: runCopy})
}

var generatedNames = map[string]bool{"hotswap.main.go": true, "hotswap.live.go": true, "hotswap.bureau.go": true}

type clauseForm struct{ id, head string } // %s = package name

var clauseForms = []clauseForm{
	{"plain", "package %s\n"},
	{"spaces", "package  \t%s\n"},
	{"trailing comment", "package %s // package other\n"},
	{"comment before", "/* c */ package %s\n"},
	{"comment between", "package /* package other */ %s\n"},
	{"semicolon", "package %s; "},
	{"next line", "package\n%s\n"},
	{"bom", "\uFEFFpackage %s\n"},
	{"decoy comment", "/*\npackage other\nimport \"scratch.local/m/plugin/foo\"\n*/\n\n// package other\npackage %s\n"},
	{"build tag", "//go:build !never\n// +build !never\n\n// Package doc.\npackage %s\n"},
	{"indented", "\n\n  package %s\n"},
	{"crlf", "// c\r\npackage %s\r\n"},
	{"ignored by the build", "//go:build ignore\n\npackage %s\n"},
}

type importForm struct{ id, text string } // P = plugin's package path

var importForms = []importForm{
	{"none", ""},
	{"plain", "import \"P/sub\"\n"},
	{"own root", "import \"P\"\n"},
	{"alias", "import alias \"P/sub\"\n"},
	{"blank", "import _ \"P/sub/deep\"\n"},
	{"dot", "import . \"P/sub\"\n"},
	{"raw", "import `P/sub`\n"},
	{"raw root", "import `P`\n"},
	{"escaped", "import \"scratch.local\\x2fm/plugin/foo/sub\"\n"},
	{"group", "import (\n\t\"fmt\"\n\n\ts \"P/sub\" // \"P/sub\"\n\t/* \"P\" */ _ \"P/sub/deep\"\n\t`P/sub/x`\n)\n"},
	{"one line group", "import (\"P/sub\"; \"fmt\"; _ \"P\")\n"},
	{"two", "import \"P/sub\"\nimport \"P/sub/deep\"\nimport ()\n"},
	{"sibling", "import (\n\t\"P2/sub\"\n\t\"P-x\"\n\t\"P_x/sub\"\n\t\"P.v2\"\n)\n"},
	{"parent", "import (\n\t\"scratch.local/m/plugin\"\n\t\"scratch.local/m\"\n\t\"other/P/sub\"\n\t\"other/P\"\n)\n"},
	{"c", "import \"C\"\nimport \"unsafe\"\n"},
	{"crlf", "import (\r\n\t\"fmt\"\r\n\t\"P/sub\"\r\n)\r\n"},
	{"comment inside", "import /* \"P\" */ \"P/sub\" // package other\n"},
}

type bodyForm struct{ id, text string } // X = unique identifier

var bodyForms = []bodyForm{
	{"empty", ""},
	{"strings", "\nconst X1 = \"P\"\nconst X2 = \"P/sub\"\nvar X3 = []string{`P`, `P/sub`, \"P/sub/deep\"}\n"},
	{"raw text", "\nconst X = `\npackage foo\n\nimport \"P\"\nimport (\n\t\"P/sub\"\n)\npackage\tbar\n`\n"},
	{"comments", "\n/*\npackage foo\n\"P/sub\"\n*/\n\n// \"P\"\n//package foo\nvar X int // `P/sub`\n\n\n// package foo\n"},
	{"tag", "\ntype X struct {\n\tA int `P/sub`\n\tB int \"P\"\n}\n"},
	{"crlf", "\r\nvar X = 1\r\n\r\nfunc X0() {\r\n}\r\n"},
	{"no newline", "\nvar X = 'x'"},
	{"unformatted", "\n\n\nvar   X=[]int{1,2 ,3};func X0(){ ;return }\n\n\n"},
	{"labels", "\nfunc X0() {\npackage_:\n\tfor {\n\t\tbreak package_\n\t}\n}\n\nvar X = \"package foo\\nimport \\\"P/sub\\\"\"\n"},
}

const pluginPath = modPath + "/plugin/foo"

// buildCopy runs a build that only makes the copy and returns its directory.
func buildCopy(c *Ctx, p *Proj, o runOpt, args ...string) (string, Run) {
	before := p.Snap("plugin")
	x := p.Hotswap(o, append([]string{"build", "--goBuild=false"}, args...)...)
	c.r.Count("cli_runs", 1)
	c.r.Transition()
	news := p.newEntries("plugin", before)
	if x.Exit != 0 || x.Timeout {
		c.violate([]string{"C18"}, "the build fails: "+x.String())
		return "", x
	}
	if len(news) != 1 {
		c.violate([]string{"C18"}, fmt.Sprintf("the build left %d new entries beside the plugin instead of its copy: %v", len(news), news))
		return "", x
	}
	return "plugin/" + news[0], x
}

// checkCopy compares a temporary copy with the sources. want: relative path -> content.
func checkCopy(c *Ctx, p *Proj, pluginDir, tmp string, want map[string]string) {
	oldPkg := modPath + "/" + pluginDir
	newPkg := modPath + "/" + tmp
	got := p.Snap(tmp).Files()
	for rel, src := range want {
		g, ok := got[rel]
		if !ok {
			c.violate([]string{"C18"}, "a file of the plugin is missing in the copy: "+rel)
			continue
		}
		if strings.HasSuffix(rel, ".go") {
			if s := redirected([]byte(src), []byte(g), !strings.Contains(rel, "/"), oldPkg, newPkg); s != "" {
				c.violate([]string{"C18"}, fmt.Sprintf("%s: %s", rel, s))
				c.Desc("%s: %q -> %q", rel, src, g)
			}
		} else if g != src {
			c.violate([]string{"C18"}, fmt.Sprintf("%s: %q became %q", rel, clip(src), clip(g)))
		}
		c.r.Res.Events++
	}
	for rel, g := range got {
		if _, ok := want[rel]; ok {
			continue
		}
		if generatedNames[filepath.Base(rel)] && !strings.Contains(g, "STALE") {
			continue
		}
		c.violate([]string{"C18"}, "a file that does not belong to the plugin is in the copy: "+rel)
	}
	for _, g := range []string{"hotswap.main.go", "hotswapbureau/hotswap.bureau.go"} {
		if _, ok := got[g]; !ok {
			c.violate([]string{"C18"}, "the copy lacks the generated file "+g)
		}
	}
}

// untouched judges the directory after a run. Reported under props.
func untouched(c *Ctx, props []string, p *Proj, dir string, before Snap, st map[string]string) {
	if d := before.Diff(p.Snap(dir)); d != "" {
		c.violate(props, "the plugin's sources were touched: "+d)
	} else if f := sameStamps(st, stamps(p.Path(dir))); f != "" {
		c.violate(props, "a source file of the plugin was rewritten: "+strings.TrimPrefix(f, p.Root))
	}
}

func runCopy(r *Runner) {
	r.Bound("sources", "%d package-clause forms x %d import forms x %d bodies, each in the root, a sub-package and a nested package", len(clauseForms), len(importForms), len(bodyForms))
	for _, cf := range clauseForms {
		for _, dir := range []string{"", "sub/", "sub/deep/"} {
			cf, dir := cf, dir
			r.Case("sources "+cf.id+" in "+dir, func(c *Ctx) { copySources(c, cf, dir) })
		}
	}
	for i := range includeForms {
		f := includeForms[i]
		r.Case(fmt.Sprintf("files include=%q exclude=%q", f[0], f[1]), func(c *Ctx) { copyKinds(c, f[0], f[1]) })
	}
	r.Bound("contents", "%d contents (line ends, byte order marks, every byte value, white space, long lines, sizes around 4K, 32K, 64K, 5M) of included and of Go files; %v files in a plugin", len(contentForms()), fileCounts)
	for _, d := range []string{"", "sub/deep/"} {
		r.Case("contents in "+d, func(c *Ctx) { copyContents(c, d) })
	}
	for _, n := range fileCounts {
		r.Case(fmt.Sprintf("number of files %d", n), func(c *Ctx) { copyCount(c, n) })
	}
	for _, a := range argForms {
		a := a
		r.Case("arguments "+a.id, func(c *Ctx) { copyArgs(c, a) })
	}
	for _, n := range []string{"foo", "Foo", "foo-bar", "foo.bar", "foo_1", "9foo", "main", "hotswap", "f"} {
		n := n
		r.Case("directory name "+n, func(c *Ctx) { copyDirName(c, n) })
	}
	for _, v := range []string{"none", "internal test", "external test", "both tests", "only in sub", "package name differs", "doc file", "package main", "static leftovers"} {
		v := v
		r.Case("layout "+v, func(c *Ctx) { copyLayout(c, v) })
	}
	rounds := 3
	if r.Thorough() {
		rounds = 12
	}
	for i := 0; i < rounds; i++ {
		r.Case(fmt.Sprintf("fresh paths sequential %d", i), func(c *Ctx) { copyFresh(c, 5, false, i) })
		r.Case(fmt.Sprintf("fresh paths parallel %d", i), func(c *Ctx) { copyFresh(c, 8, true, i) })
	}
	r.Case("real build", copyReal)
}

func fillIn(s, id string) string {
	s = regexp.MustCompile(`\bP([/_2."`+"`"+`-])`).ReplaceAllString(s, pluginPath+"$1")
	return strings.ReplaceAll(s, "X", id)
}

// base is the plugin every layout contains.
func baseFiles() map[string]string {
	return map[string]string{
		"main.go":          fundamental("foo", userFuncs, ""),
		"sub/sub.go":       "package sub\n",
		"sub/deep/deep.go": "package deep\n",
	}
}

func (p *Proj) writeAll(dir string, files map[string]string) {
	for rel, s := range files {
		p.Write(dir+"/"+rel, s)
	}
	p.Mkdir("out")
}

func copySources(c *Ctx, cf clauseForm, dir string) {
	p := c.r.newProj()
	defer p.Close()
	files := baseFiles()
	pkg := map[string]string{"": "foo", "sub/": "sub", "sub/deep/": "deep"}[dir]
	n := 0
	for i, im := range importForms {
		for j, bo := range bodyForms {
			if im.id == "none" && cf.id == "semicolon" {
				continue // not Go
			}
			id := fmt.Sprintf("v%d_%d", i, j)
			body := bo.text
			if cf.id == "semicolon" && im.id == "none" {
				body = strings.TrimLeft(body, "\r\n")
			}
			src := strings.Replace(cf.head, "%s", pkg, 1) + fillIn(im.text, id) + fillIn(body, id)
			if scanHeader([]byte(src)).bad {
				panic(fmt.Sprintf("bad fixture: %q", src))
			}
			files[fmt.Sprintf("%sf%d_%d.go", dir, i, j)] = src
			n++
		}
	}
	p.writeAll("plugin/foo", files)
	before, st := p.Snap("plugin/foo"), stamps(p.Path("plugin/foo"))
	c.Desc("%d generated source files with package clause %q", n, cf.head)
	tmp, _ := buildCopy(c, p, runOpt{}, "plugin/foo", "out")
	if tmp == "" {
		return
	}
	checkCopy(c, p, "plugin/foo", tmp, files)
	untouched(c, []string{"C18"}, p, "plugin/foo", before, st)
	c.r.State("sources " + cf.id + dir)
	c.r.Count("source_files", int64(n))
}

var includeForms = [][2]string{
	{"", ""}, {`\.txt$`, ""}, {`\.(txt|json|h|s)$`, ""}, {".", ""}, {".*", `\.txt$`}, {`\.txt$`, `\.txt$`}, {`\.txt$`, `^data`}, {"", `\.go$`}, {"", "."},
	{`\.go$`, ""}, {`_test\.go$`, ""}, {`^hotswap`, ""}, {`^data`, `\.json$`}, {`^\.`, ""}, {`TXT$`, ""}, {`(?i)txt$`, `^D`}, {"^sub", ""},
}

var kindNames = []string{
	"data.txt", "data.json", "Data.TXT", "DATA.txt", "x_test.go.txt", ".hidden", ".hidden.txt", "c.h", "a.s", "noext", "go", "data.go.bak", "sub.txt", "txt",
	"test.go", "_under.go", ".dot.go", "a_linux.go", "a_windows.go", "hotswap.go", "hotswap.other.go", "xhotswap.main.go", "hotswap.main.go.txt", "main_test.go", "_test.go", "test_test.go",
	"hotswap.main.go", "hotswap.live.go", "hotswap.bureau.go", "hotswap.main_test.go",
}

func copyKinds(c *Ctx, include, exclude string) {
	p := c.r.newProj()
	defer p.Close()
	files := map[string]string{}
	dirs := []string{"", "sub/", "sub/deep/", "testdata/", "x.go/", "y_test.go/", "_skip/", ".git2/", "hotswapbureau/", "hotswap.main.go.d/"}
	pkgOf := map[string]string{"": "foo", "sub/": "sub", "sub/deep/": "deep", "hotswapbureau/": "hotswapbureau"}
	for k, v := range baseFiles() {
		files[k] = v
	}
	for _, d := range dirs {
		pkg := pkgOf[d]
		if pkg == "" {
			pkg = "other"
		}
		for _, n := range kindNames {
			s := "package foo\n\"" + pluginPath + "/sub\" " + d + n + "\n"
			if strings.HasSuffix(n, ".go") {
				s = "package " + pkg + "\n\n// " + d + n + "\n"
				if n == "a_windows.go" {
					s += "\nimport _ \"" + pluginPath + "/sub\"\n"
				}
			}
			if generatedNames[n] {
				s += "\n// STALE\n"
			}
			files[d+n] = s
		}
	}
	p.writeAll("plugin/foo", files)
	p.Mkdir("plugin/foo/empty/dir")
	want := map[string]string{}
	inc, exc := regexp.MustCompile(include), regexp.MustCompile(exclude)
	for rel, s := range files {
		n := filepath.Base(rel)
		switch {
		case strings.HasSuffix(n, "_test.go"):
		case strings.HasSuffix(n, ".go"):
			if !generatedNames[n] {
				want[rel] = s
			}
		case include == "":
		case inc.MatchString(n) && (exclude == "" || !exc.MatchString(n)):
			want[rel] = s
		}
	}
	before, st := p.Snap("plugin/foo"), stamps(p.Path("plugin/foo"))
	args := []string{"plugin/foo", "out"}
	if include != "" {
		args = append([]string{"--include", include}, args...)
	}
	if exclude != "" {
		args = append([]string{"--exclude=" + exclude}, args...)
	}
	tmp, _ := buildCopy(c, p, runOpt{}, args...)
	if tmp == "" {
		return
	}
	c.Desc("%d files, %d belong into the copy", len(files), len(want))
	checkCopy(c, p, "plugin/foo", tmp, want)
	untouched(c, []string{"C18"}, p, "plugin/foo", before, st)
	c.r.State("kinds " + include + exclude)
}

type contentForm struct {
	id, text string
	inGo     bool // may follow the imports of a Go file, as a comment
}

func contentForms() []contentForm {
	every := make([]byte, 256)
	for i := range every {
		every[i] = byte(i)
	}
	a := []contentForm{
		{"empty", "", true}, {"newline", "\n", true}, {"newlines", "\n\n\n\n", true}, {"no newline", "text", true}, {"crlf", "a\r\nb\r\n", true}, {"cr", "a\rb\r", true},
		{"mixed", "a\nb\r\nc\n\r", true}, {"trailing blanks", "a  \nb\t\n  ", true}, {"leading blanks", "  a\n\tb\n", true}, {"tabs", "\ta\t\tb\n", true}, {"form feed", "a\f\vb\n", true},
		{"bom", "\uFEFFtext\n", false}, {"nul", "a\x00b\x00", false}, {"bad utf8", "\xff\xfe\x80a\n", false}, {"every byte", string(every), false}, {"ctrl z", "a\x1ab\n", true}, {"non-ASCII", "héllo wörld \u2028 \U0001F600\n", true},
		{"template", "{{.Name}} %s %d %% $HOME ${HOME} \\n `x`\n", true}, {"package", "package foo\n\nimport \"" + pluginPath + "/sub\"\n", true}, {"packages", pluginPath + "\n" + pluginPath + "/sub/deep\n", true},
		{"json", `{"path":"` + pluginPath + `","package":"foo"}`, true}, {"elf", "\x7fELF\x02\x01\x01\x00", false}, {"gzip", "\x1f\x8b\x08\x00\x00", false}, {"generated", "// Code generated by hotswap. DO NOT EDIT.\n", true},
		{"build tag", "//go:build never\n// +build never\n", true}, {"embed", "//go:embed data.txt\n", true}, {"line", "//line x.go:1\n", true},
	}
	for _, n := range []int{1, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 200000, 5 << 20} {
		a = append(a, contentForm{fmt.Sprintf("one line of %d bytes", n), strings.Repeat("x", n), true})
		if n > 1 {
			a = append(a, contentForm{fmt.Sprintf("lines of %d bytes", n), strings.Repeat("line of text\n", n/13+1)[:n], true})
		}
	}
	return a
}

// copyContents: whatever a file contains, the copy has the same.
func copyContents(c *Ctx, dir string) {
	p := c.r.newProj()
	defer p.Close()
	files := baseFiles()
	pkg := map[string]string{"": "foo", "sub/deep/": "deep"}[dir]
	for i, f := range contentForms() {
		files[fmt.Sprintf("%sx%d.dat", dir, i)] = f.text
		if f.inGo {
			text := "// " + strings.ReplaceAll(f.text, "\n", "\n// ")
			files[fmt.Sprintf("%sg%d.go", dir, i)] = fmt.Sprintf("package %s\n\nimport _ \"%s/sub\"\n\nvar v%d = 1\n\n%s", pkg, pluginPath, i, text)
			files[fmt.Sprintf("%sh%d.go", dir, i)] = fmt.Sprintf("/*\n%s*/\n\npackage %s\n", strings.ReplaceAll(f.text, "\r", ""), pkg)
		}
	}
	p.writeAll("plugin/foo", files)
	before, st := p.Snap("plugin/foo"), stamps(p.Path("plugin/foo"))
	tmp, _ := buildCopy(c, p, runOpt{}, "--include", `[.]dat$`, "plugin/foo", "out")
	if tmp == "" {
		return
	}
	checkCopy(c, p, "plugin/foo", tmp, files)
	untouched(c, []string{"C18"}, p, "plugin/foo", before, st)
	c.r.State("contents " + dir)
}

var fileCounts = []int{0, 1, 2, 8, 36, 37, 38, 39, 40, 41, 42, 79, 80, 81, 300, 1023, 1024, 1025, 3000}

// copyCount: however many files there are, all of them are copied.
func copyCount(c *Ctx, n int) {
	p := c.r.newProj()
	defer p.Close()
	files := baseFiles()
	for i := 0; i < n; i++ {
		dir := []string{"", "sub/", "sub/deep/"}[i%3]
		files[fmt.Sprintf("%sx%d.dat", dir, i)] = fmt.Sprintf("file %d\n", i)
	}
	p.writeAll("plugin/foo", files)
	tmp, _ := buildCopy(c, p, runOpt{}, "--include", `[.]dat$`, "plugin/foo", "out")
	if tmp == "" {
		return
	}
	checkCopy(c, p, "plugin/foo", tmp, files)
	c.r.State(fmt.Sprint("count ", n))
}

type argForm struct {
	id, dir, plugin, out string
	abs                  bool
}

var argForms = []argForm{
	{"relative", "", "plugin/foo", "out", false},
	{"dotted", "", "./plugin/foo/", "./out/", false},
	{"up and down", "plugin/foo/sub", "../../foo", "../../../out", false},
	{"here", "plugin/foo", ".", "../../out", false},
	{"absolute", "", "plugin/foo", "out", true},
	{"absolute from elsewhere", "plugin", "plugin/foo", "out", true},
	{"output beside the plugin", "", "plugin/foo", "plugin", false},
	{"output in the plugin", "", "plugin/foo", "plugin/foo/sub", false},
	{"output does not exist", "", "plugin/foo", "new/out", false},
}

func copyArgs(c *Ctx, a argForm) {
	p := c.r.newProj()
	defer p.Close()
	files := baseFiles()
	files["imp.go"] = "package foo\n\nimport _ \"" + pluginPath + "/sub\"\n"
	p.writeAll("plugin/foo", files)
	before, st := p.Snap("plugin/foo"), stamps(p.Path("plugin/foo"))
	pl, out := a.plugin, a.out
	if a.abs {
		pl, out = p.Path(pl), p.Path(out)
	}
	tmp, _ := buildCopy(c, p, runOpt{dir: p.Path(a.dir)}, pl, out)
	if tmp == "" {
		return
	}
	checkCopy(c, p, "plugin/foo", tmp, files)
	untouched(c, []string{"C18"}, p, "plugin/foo", before, st)
	c.r.State("args " + a.id)
}

func copyDirName(c *Ctx, name string) {
	p := c.r.newProj()
	defer p.Close()
	files := map[string]string{
		"main.go":    fundamental("foo", userFuncs, ""),
		"imp.go":     "package foo\n\nimport (\n\t_ \"" + modPath + "/plugin/" + name + "/sub\"\n\t_ \"" + modPath + "/plugin/" + name + "x\"\n)\n",
		"sub/sub.go": "package sub\n\nimport _ `" + modPath + "/plugin/" + name + "/sub/deep`\n",
	}
	p.writeAll("plugin/"+name, files)
	p.Write("plugin/"+name+"x/x.go", "package x\n")
	p.Write("plugin/z/z.go", "package z\n")
	others := p.Snap("plugin")
	before, st := p.Snap("plugin/"+name), stamps(p.Path("plugin/"+name))
	tmp, _ := buildCopy(c, p, runOpt{}, "plugin/"+name, "out")
	if tmp == "" {
		return
	}
	checkCopy(c, p, "plugin/"+name, tmp, files)
	untouched(c, []string{"C18"}, p, "plugin/"+name, before, st)
	p.Remove(tmp)
	if d := others.Diff(p.Snap("plugin")); d != "" {
		c.violate([]string{"C18"}, "the build touched something beside its copy: "+d)
	}
	c.r.State("dir " + name)
}

func copyLayout(c *Ctx, v string) {
	p := c.r.newProj()
	defer p.Close()
	files := baseFiles()
	want := baseFiles()
	set := func(n, s string) { files[n], want[n] = s, s }
	switch v {
	case "internal test":
		files["a_test.go"] = "package foo\n"
	case "external test":
		files["a_test.go"] = "package foo_test\n"
	case "both tests":
		files["a_test.go"] = "package foo\n"
		files["b_test.go"] = "package foo_test\n"
		files["sub/b_test.go"] = "package sub_test\n"
	case "only in sub":
		files["sub/a_test.go"] = "package sub_test\n"
	case "package name differs":
		set("main.go", fundamental("quux", userFuncs, ""))
		set("imp.go", "package quux\n\nimport _ \""+pluginPath+"/sub\"\n")
	case "doc file":
		set("doc.go", "// Package foo is documented.\n//\n//\timport \""+pluginPath+"\"\npackage foo // import \""+pluginPath+"\"\n")
	case "package main":
		set("main.go", fundamental("main", userFuncs, ""))
	case "static leftovers":
		files["hotswap.main.go"] = "package foo\n\n// STALE\n"
		files["sub/hotswap.live.go"] = "package sub\n\n// STALE\n"
		files["hotswapbureau/hotswap.bureau.go"] = "package hotswapbureau\n\n// STALE\n"
	}
	p.writeAll("plugin/foo", files)
	before, st := p.Snap("plugin/foo"), stamps(p.Path("plugin/foo"))
	tmp, _ := buildCopy(c, p, runOpt{}, "plugin/foo", "out")
	if tmp == "" {
		return
	}
	checkCopy(c, p, "plugin/foo", tmp, want)
	untouched(c, []string{"C18"}, p, "plugin/foo", before, st)
	c.r.State("layout " + v)
}

// copyFresh: builds of the same plugin never use the same path, and none disturbs another's copy.
func copyFresh(c *Ctx, n int, parallel bool, round int) {
	p := c.r.newProj()
	defer p.Close()
	files := baseFiles()
	files["imp.go"] = "package foo\n\nimport _ \"" + pluginPath + "/sub\"\n"
	if round%2 == 1 {
		for i := 0; i < 40; i++ {
			files[fmt.Sprintf("sub/g%d.go", i)] = "package sub\n"
		}
	}
	p.writeAll("plugin/foo", files)
	before, st := p.Snap("plugin/foo"), stamps(p.Path("plugin/foo"))
	outer := p.Snap("plugin")
	runs := make([]Run, n)
	one := func(i int) { runs[i] = p.Hotswap(runOpt{}, "build", "--goBuild=false", "plugin/foo", "out") }
	if parallel {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); one(i) }(i)
		}
		wg.Wait()
	} else {
		for i := 0; i < n; i++ {
			one(i)
		}
	}
	c.r.Count("cli_runs", int64(n))
	for i := range runs {
		c.r.Transition()
		if runs[i].Exit != 0 {
			c.violate([]string{"C18"}, fmt.Sprintf("one of %d builds fails: %s", n, runs[i]))
		}
	}
	news := p.newEntries("plugin", outer)
	if len(news) != n {
		c.violate([]string{"C18"}, fmt.Sprintf("%d builds made %d copies: two builds shared a path", n, len(news)))
	}
	for _, t := range news {
		checkCopy(c, p, "plugin/foo", "plugin/"+t, files)
	}
	untouched(c, []string{"C18"}, p, "plugin/foo", before, st)
	c.r.State(fmt.Sprint("fresh ", n, parallel, round%2))
}

// copyReal: the copy with its redirected imports is what the Go tool really builds.
func copyReal(c *Ctx) {
	p := c.r.newProj()
	defer p.Close()
	files := map[string]string{
		"main.go":          fundamental("foo", userFuncs, "\nvar _ = sub.V\nvar _ = s2.V\n"),
		"sub/sub.go":       "package sub\n\nimport \"" + pluginPath + "/sub/deep\"\n\nvar V = deep.V\n",
		"sub/deep/deep.go": "package deep\n\nimport _ \"embed\"\n\n//go:embed data.txt\nvar V string\n",
	}
	files["main.go"] = strings.Replace(files["main.go"], "import \"github.com/edwingeng/hotswap/vault\"", "import (\n\ts2 `"+pluginPath+"/sub/deep`\n\t\"github.com/edwingeng/hotswap/vault\"\n\t\""+pluginPath+"/sub\"\n)", 1)
	files["sub/deep/data.txt"] = "package foo\n"
	p.writeAll("plugin/foo", files)
	before, st := p.Snap("plugin/foo"), stamps(p.Path("plugin/foo"))
	outer := p.Snap("plugin")
	for i, leave := range []bool{true, false} {
		args := []string{"build", "--include", "txt$"}
		if leave {
			args = append(args, "--leaveTemps")
		}
		x := p.Hotswap(runOpt{}, append(args, "plugin/foo", "out")...)
		c.r.Count("cli_runs", 1)
		c.r.Transition()
		if x.Exit != 0 {
			c.violate([]string{"C18"}, "the build of a proper plugin fails: "+x.String())
			return
		}
		if _, err := os.Stat(p.Path("out/foo.so")); err != nil {
			c.violate([]string{"C18", "C21"}, "exit status 0, but there is no plugin file")
		}
		news := p.newEntries("plugin", outer)
		if len(news) != 1 {
			c.violate([]string{"C18", "C21"}, fmt.Sprintf("build %d (--leaveTemps=%v): new entries beside the plugin: %v", i, leave, news))
			return
		}
		checkCopy(c, p, "plugin/foo", "plugin/"+news[0], files)
		untouched(c, []string{"C18"}, p, "plugin/foo", before, st)
	}
	c.r.State("real")
}
