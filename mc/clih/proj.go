package clih

import (
	"bytes"
	"errors"
	"fmt"
	"go/scanner"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

const modPath = "scratch.local/m"

// Proj is a scratch module with a git repository, inside the worker's scratch directory.
type Proj struct {
	r    *Runner
	Root string
}

var projN int

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// newProj makes a module that requires the code under test.
func (r *Runner) newProj() *Proj {
	projN++
	p := &Proj{r: r, Root: filepath.Join(r.Scratch, "p"+strconv.Itoa(projN), "m")}
	must(os.MkdirAll(p.Root, 0755))
	repo := os.Getenv("MC_REPO")
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	s := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(gm), "module "+modPath)
	s += "\nrequire github.com/edwingeng/hotswap v0.0.0\n\nreplace github.com/edwingeng/hotswap => " + repo + "\n"
	p.Write("go.mod", s)
	gs, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	must(err)
	p.Write("go.sum", string(gs))
	p.Write("README", "scratch\n")
	p.git("init", "-q", ".")
	p.git("add", "go.mod", "go.sum", "README")
	p.git("commit", "-q", "-m", "x")
	return p
}

func (p *Proj) git(args ...string) {
	cmd := exec.Command("git", args...)
	cmd.Dir = p.Root
	cmd.Env = append(os.Environ(), "GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@b", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@b",
		"GIT_AUTHOR_DATE=2024-02-03T04:05:06Z", "GIT_COMMITTER_DATE=2024-02-03T04:05:06Z", "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_SYSTEM=/dev/null")
	if out, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("git %v: %v\n%s", args, err, out))
	}
}

func (p *Proj) Path(rel string) string { return filepath.Join(p.Root, rel) }

func (p *Proj) Write(rel, content string) {
	f := p.Path(rel)
	must(os.MkdirAll(filepath.Dir(f), 0755))
	must(os.WriteFile(f, []byte(content), 0644))
}

func (p *Proj) Mkdir(rel string) { must(os.MkdirAll(p.Path(rel), 0755)) }

// Remove takes a path below the scratch module away.
func (p *Proj) Remove(rel string) {
	if rel == "" || !filepath.IsLocal(rel) || filepath.Clean(rel) == "." {
		panic("Remove " + rel)
	}
	must(os.RemoveAll(p.Path(rel)))
}

func (p *Proj) Close() {
	if p.r.replay == nil || os.Getenv("MC_KEEP") == "" {
		_ = os.RemoveAll(filepath.Dir(p.Root))
	}
}

type Run struct {
	Exit     int
	Out, Err string
	Timeout  bool
	Took     time.Duration
}

func (x Run) String() string {
	return fmt.Sprintf("exit=%d stdout=%q stderr=%q", x.Exit, clip(x.Out), clip(x.Err))
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

type runOpt struct {
	dir     string
	bin     string
	env     []string
	timeout time.Duration
}

// Hotswap runs the command; args are taken as they are.
func (p *Proj) Hotswap(o runOpt, args ...string) Run {
	if o.bin == "" {
		o.bin = os.Getenv("MC_CLI")
	}
	if o.dir == "" {
		o.dir = p.Root
	}
	return p.Exec(o, args...)
}

func (p *Proj) Exec(o runOpt, args ...string) Run {
	if o.timeout == 0 {
		o.timeout = 40 * time.Second
	}
	if o.dir == "" {
		o.dir = p.Root
	}
	cmd := exec.Command(o.bin, args...)
	cmd.Dir = o.dir
	cmd.Env = append(append(os.Environ(), "GO111MODULE=on"), o.env...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.WaitDelay = 2 * time.Second // programs it has started may outlive it
	t0 := time.Now()
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var x Run
	var err error
	select {
	case err = <-done:
	case <-time.After(o.timeout):
		_ = cmd.Process.Kill()
		err = <-done
		x.Timeout = true
	}
	x.Took = time.Since(t0)
	x.Out, x.Err = so.String(), se.String()
	if errors.Is(err, exec.ErrWaitDelay) {
		err = nil
		x.Exit = cmd.ProcessState.ExitCode()
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		x.Exit = ee.ExitCode()
	} else if err != nil {
		x.Exit = -2
		x.Err += err.Error()
	}
	return x
}

// Snap is the content of a directory tree: relative path -> content (directories end with /).
type Snap map[string]string

func (p *Proj) Snap(rel string) Snap { return snapDir(p.Path(rel)) }

func snapDir(dir string) Snap {
	m := Snap{}
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rl, _ := filepath.Rel(dir, path)
		if d.IsDir() {
			if rl != "." {
				m[rl+"/"] = ""
			}
			return nil
		}
		b, _ := os.ReadFile(path)
		m[rl] = string(b)
		return nil
	})
	return m
}

// Files leaves the directories out.
func (s Snap) Files() Snap {
	m := Snap{}
	for k, v := range s {
		if !strings.HasSuffix(k, "/") {
			m[k] = v
		}
	}
	return m
}

// Diff describes the differences, "" if there are none.
func (s Snap) Diff(o Snap) string {
	var a []string
	for k, v := range s {
		w, ok := o[k]
		if !ok {
			a = append(a, "gone: "+k)
		} else if v != w {
			a = append(a, fmt.Sprintf("changed: %s (%q -> %q)", k, clip(v), clip(w)))
		}
	}
	for k := range o {
		if _, ok := s[k]; !ok {
			a = append(a, "new: "+k)
		}
	}
	sort.Strings(a)
	if len(a) > 6 {
		a = append(a[:6], fmt.Sprintf("... %d in all", len(a)))
	}
	return strings.Join(a, "; ")
}

// ------------------------------------------------------------------- the header of a Go file

// header locates the package name and the import paths of a Go source with go/scanner (the code
// under test is free to use whatever it likes).
type header struct {
	name             [2]int // byte range of the package name
	imports          [][2]int
	bad              bool
	nameText         string
	paths            []string
	afterLastImport  int
	beforePackageKwd int
}

func scanHeader(src []byte) header {
	var h header
	fset := token.NewFileSet()
	file := fset.AddFile("x.go", fset.Base(), len(src))
	var sc scanner.Scanner
	sc.Init(file, src, func(token.Position, string) { h.bad = true }, 0)
	next := func() (int, token.Token, string) {
		pos, tok, lit := sc.Scan()
		return file.Offset(pos), tok, lit
	}
	off, tok, lit := next()
	if tok != token.PACKAGE {
		h.bad = true
		return h
	}
	h.beforePackageKwd = off
	off, tok, lit = next()
	if tok != token.IDENT {
		h.bad = true
		return h
	}
	h.name = [2]int{off, off + len(lit)}
	h.nameText = lit
	add := func() bool {
		if tok == token.IDENT || tok == token.PERIOD {
			off, tok, lit = next()
		}
		if tok != token.STRING {
			h.bad = true
			return false
		}
		s, err := strconv.Unquote(lit)
		if err != nil {
			h.bad = true
			return false
		}
		h.imports = append(h.imports, [2]int{off, off + len(lit)})
		h.paths = append(h.paths, s)
		h.afterLastImport = off + len(lit)
		return true
	}
	off, tok, lit = next()
	for {
		for tok == token.SEMICOLON {
			off, tok, lit = next()
		}
		if tok != token.IMPORT {
			return h
		}
		off, tok, lit = next()
		if tok == token.LPAREN {
			off, tok, lit = next()
			for tok != token.RPAREN {
				if tok == token.SEMICOLON {
					off, tok, lit = next()
					continue
				}
				if !add() {
					return h
				}
				off, tok, lit = next()
			}
			off, tok, lit = next()
			continue
		}
		if !add() {
			return h
		}
		off, tok, lit = next()
	}
}

// redirected tells whether got is src with the package clause and the imports rewritten as a plugin
// build has to ("" if so, else what is wrong).
func redirected(src, got []byte, root bool, oldPkg, newPkg string) string {
	h := scanHeader(src)
	if h.bad {
		panic("bad fixture: " + string(src))
	}
	g := scanHeader(got)
	if g.bad {
		return "the copy has no proper package clause and imports"
	}
	want := h.nameText
	if root {
		want = "main"
	}
	if g.nameText != want {
		return fmt.Sprintf("the copy's package is %s instead of %s", g.nameText, want)
	}
	if len(g.imports) != len(h.imports) {
		return fmt.Sprintf("the copy has %d imports instead of %d", len(g.imports), len(h.imports))
	}
	for i, p := range h.paths {
		w := p
		if p == oldPkg || strings.HasPrefix(p, oldPkg+"/") {
			w = newPkg + strings.TrimPrefix(p, oldPkg)
		}
		if g.paths[i] != w {
			return fmt.Sprintf("import %q of the source is %q instead of %q in the copy", p, g.paths[i], w)
		}
	}
	// everything between these places is the same
	a, b := h.name[:], g.name[:]
	pa, pb := 0, 0
	seg := func(x, y []int) string {
		if !bytes.Equal(src[pa:x[0]], got[pb:y[0]]) {
			return fmt.Sprintf("the text differs: %q became %q", clip(string(src[pa:x[0]])), clip(string(got[pb:y[0]])))
		}
		pa, pb = x[1], y[1]
		return ""
	}
	if s := seg(a, b); s != "" {
		return s
	}
	for i := range h.imports {
		if s := seg(h.imports[i][:], g.imports[i][:]); s != "" {
			return s
		}
	}
	if !bytes.Equal(src[pa:], got[pb:]) {
		return fmt.Sprintf("the text differs: %q became %q", diffAt(src[pa:], got[pb:]), diffAt(got[pb:], src[pa:]))
	}
	return ""
}

func diffAt(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-40, i+60
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return string(a[lo:hi])
}

// userFuncs are the seven functions a plugin must have.
var userFuncs = []string{"Export", "Import", "InvokeFunc", "OnFree", "OnInit", "OnLoad", "Reloadable"}

var userDecl = map[string]string{
	"OnLoad":     "func OnLoad(data interface{}) error { return nil }\n",
	"OnInit":     "func OnInit(sharedVault *vault.Vault) error { return nil }\n",
	"OnFree":     "func OnFree() {}\n",
	"Export":     "func Export() interface{} { return nil }\n",
	"Import":     "func Import() interface{} { return nil }\n",
	"InvokeFunc": "func InvokeFunc(name string, params ...interface{}) (interface{}, error) { return nil, nil }\n",
	"Reloadable": "func Reloadable() bool { return true }\n",
}

// fundamental is the source of a file with the required functions.
func fundamental(pkg string, funcs []string, extra string) string {
	var b strings.Builder
	b.WriteString("package " + pkg + "\n\n")
	for _, f := range funcs {
		if f == "OnInit" {
			b.WriteString("import \"github.com/edwingeng/hotswap/vault\"\n\n")
		}
	}
	for _, f := range funcs {
		b.WriteString(userDecl[f])
	}
	b.WriteString(extra)
	return b.String()
}

// tmpDirs lists what has appeared beside the plugin directory since before.
func (p *Proj) newEntries(rel string, before Snap) []string {
	var a []string
	es, _ := os.ReadDir(p.Path(rel))
	for _, e := range es {
		k := e.Name()
		if e.IsDir() {
			k += "/"
		}
		if _, ok := before[k]; !ok {
			a = append(a, e.Name())
		}
	}
	return a
}

func lastLine(s string) string {
	a := strings.Split(strings.TrimSpace(s), "\n")
	return strings.TrimSpace(a[len(a)-1])
}

// mtimes of the files of a directory tree.
func stamps(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if fi, err := d.Info(); err == nil && !d.IsDir() {
			m[path] = fmt.Sprint(fi.ModTime().UnixNano(), fi.Mode(), fi.Size())
		}
		return nil
	})
	return m
}

func sameStamps(a, b map[string]string) string {
	for k, v := range a {
		if b[k] != v {
			return k
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return k
		}
	}
	return ""
}
