// mcgen generates (a) the shim packages for std packages (mcgen shim) and (b) the build overlay
// with the instrumented copies of the code under test (mcgen overlay).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		panic("usage: mcgen shim|overlay")
	}
	switch os.Args[1] {
	case "shim":
		shim(os.Args[2:])
	case "overlay":
		overlay(os.Args[2:])
	default:
		panic("unknown command")
	}
}

// ---------------------------------------------------------------------------- shim generation

func shim(args []string) {
	fs := flag.NewFlagSet("shim", flag.ExitOnError)
	pkgPath := fs.String("pkg", "", "std package")
	out := fs.String("out", "", "output file")
	name := fs.String("name", "", "name of the generated package")
	rtp := fs.String("rt", "verif.local/mc/rt", "runtime package providing Op")
	skip := fs.String("skip", "", "comma separated functions that are aliased without a hook")
	omit := fs.String("omit", "", "comma separated identifiers left out (defined by hand elsewhere)")
	_ = fs.Parse(args)
	skipSet := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		skipSet[s] = true
	}
	omitSet := map[string]bool{}
	for _, s := range strings.Split(*omit, ",") {
		omitSet[s] = true
	}
	fset := token.NewFileSet()
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(*pkgPath)
	if err != nil {
		panic(err)
	}
	imports := map[string]string{}
	base := filepath.Base(*pkgPath)
	q := func(p *types.Package) string {
		imports[p.Path()] = p.Name()
		return p.Name()
	}
	var buf bytes.Buffer
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || omitSet[n] {
			continue
		}
		switch v := o.(type) {
		case *types.Const:
			fmt.Fprintf(&buf, "const %s = %s.%s\n", n, base, n)
		case *types.TypeName:
			fmt.Fprintf(&buf, "type %s = %s.%s\n", n, base, n)
		case *types.Var:
			fmt.Fprintf(&buf, "var %s = %s.%s\n", n, base, n)
		case *types.Func:
			sig := v.Type().(*types.Signature)
			if sig.TypeParams() != nil {
				continue
			}
			if skipSet[n] {
				fmt.Fprintf(&buf, "var %s = %s.%s\n", n, base, n)
				continue
			}
			var ps, as []string
			var strs []string
			for i := 0; i < sig.Params().Len(); i++ {
				p := sig.Params().At(i)
				t := types.TypeString(p.Type(), q)
				a := fmt.Sprintf("a%d", i)
				if sig.Variadic() && i == sig.Params().Len()-1 {
					t = "..." + strings.TrimPrefix(t, "[]")
					ps = append(ps, a+" "+t)
					as = append(as, a+"...")
					continue
				}
				ps = append(ps, a+" "+t)
				as = append(as, a)
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					strs = append(strs, a)
				}
			}
			var rs []string
			hasErr := false
			for i := 0; i < sig.Results().Len(); i++ {
				t := types.TypeString(sig.Results().At(i).Type(), q)
				rs = append(rs, fmt.Sprintf("r%d %s", i, t))
				hasErr = t == "error"
			}
			fmt.Fprintf(&buf, "func %s(%s) (%s) {\n", n, strings.Join(ps, ", "), strings.Join(rs, ", "))
			oa := append([]string{strconv.Quote(base + "." + n)}, strs...)
			if hasErr {
				fmt.Fprintf(&buf, "if e := rt.Op(%s); e != nil { r%d = e; return }\n", strings.Join(oa, ", "), len(rs)-1)
			} else {
				fmt.Fprintf(&buf, "_ = rt.Op(%s)\n", strings.Join(oa, ", "))
			}
			ret := "return "
			if len(rs) == 0 {
				ret = ""
			}
			fmt.Fprintf(&buf, "%s%s.%s(%s)\n}\n", ret, base, n, strings.Join(as, ", "))
		}
	}
	var all bytes.Buffer
	fmt.Fprintf(&all, "// Code generated by mcgen shim. DO NOT EDIT.\n\n// Package %s stands in for %s in the instrumented code.\npackage %s\n\nimport (\n", *name, *pkgPath, *name)
	imports[*pkgPath] = base
	var ips []string
	for p := range imports {
		ips = append(ips, p)
	}
	sort.Strings(ips)
	for _, p := range ips {
		fmt.Fprintf(&all, "%q\n", p)
	}
	fmt.Fprintf(&all, "rt %q\n)\n\n", *rtp)
	all.Write(buf.Bytes())
	src, err := format.Source(all.Bytes())
	if err != nil {
		panic(fmt.Errorf("%v\n%s", err, all.String()))
	}
	must(os.MkdirAll(filepath.Dir(*out), 0755))
	must(os.WriteFile(*out, src, 0644))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---------------------------------------------------------------------------- overlay

type rules struct {
	imports map[string]string // import path -> shim path
	goStmt  bool
	decls   []*ast.FuncDecl
	sleep   bool
	sched   bool // scheduling points before close and send statements
	rtPath  string
}

func overlay(args []string) {
	fs := flag.NewFlagSet("overlay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	out := fs.String("out", "", "scratch directory for generated files")
	level := fs.Int("level", 3, "0: no instrumentation of /repo, 1: sync+atomic+sleep+go, 3: file operations too")
	std := fs.Bool("std", true, "overlay std plugin and map iteration")
	cli := fs.Bool("cli", false, "instrument the command (os, ioutil, exec, signal) instead of the library")
	_ = fs.Parse(args)
	must(os.MkdirAll(*out, 0755))
	rep := map[string]string{}
	if *std {
		stdOverlay(*out, rep)
	}
	r := rules{imports: map[string]string{}, rtPath: "verif.local/mc/rt"}
	var dirs []string
	if *cli {
		r.rtPath = "verif.local/mc/rtcli"
		r.sched = true
		r.imports["os"] = "verif.local/mc/shim/cos"
		r.imports["io/ioutil"] = "verif.local/mc/shim/cioutil"
		r.imports["os/exec"] = "verif.local/mc/shim/cexec"
		dirs = []string{filepath.Join(*repo, "cli/hotswap/cmd"), filepath.Join(*repo, "internal/hutils")}
	} else {
		if *level >= 1 {
			r.imports["sync"] = "verif.local/mc/shim/vsync"
			r.imports["sync/atomic"] = "verif.local/mc/shim/vatomic"
			r.imports["go.uber.org/atomic"] = "verif.local/mc/shim/vuatomic"
			r.goStmt = true
			r.sleep = true
		}
		if *level >= 3 {
			r.imports["os"] = "verif.local/mc/shim/vos"
			r.imports["io/ioutil"] = "verif.local/mc/shim/vioutil"
		}
		dirs = libDirs(*repo)
	}
	if *level > 0 || *cli {
		for _, d := range dirs {
			instrumentDir(d, *repo, *out, rep, r)
		}
	}
	b, err := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644))
}

// libDirs: the root package and the packages of the module it imports, transitively.
func libDirs(repo string) []string {
	const mod = "github.com/edwingeng/hotswap"
	seen := map[string]bool{}
	var walk func(dir string)
	walk = func(dir string) {
		if seen[dir] {
			return
		}
		seen[dir] = true
		for _, f := range goFiles(dir) {
			af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ImportsOnly)
			if err != nil {
				continue
			}
			for _, im := range af.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				if strings.HasPrefix(p, mod+"/") {
					walk(filepath.Join(repo, strings.TrimPrefix(p, mod+"/")))
				}
			}
		}
	}
	walk(repo)
	var a []string
	for d := range seen {
		a = append(a, d)
	}
	sort.Strings(a)
	return a
}

// plainFunc tells whether f certainly has n parameters, none of them variadic, and no results: a
// function literal, or a function or method all of whose namesakes in the package are like that.
func (r *rules) plainFunc(f ast.Expr, n int) bool {
	like := func(t *ast.FuncType) bool {
		if t.Results != nil && len(t.Results.List) > 0 || t.TypeParams != nil {
			return false
		}
		k := 0
		for _, p := range t.Params.List {
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				return false
			}
			k += max(1, len(p.Names))
		}
		return k == n
	}
	name := ""
	switch v := f.(type) {
	case *ast.FuncLit:
		return like(v.Type)
	case *ast.Ident:
		if v.Obj != nil && v.Obj.Kind != ast.Fun {
			return false
		}
		name = v.Name
	case *ast.SelectorExpr:
		name = v.Sel.Name
	default:
		return false
	}
	found := false
	for _, d := range r.decls {
		if d.Name.Name == name {
			found = true
			if !like(d.Type) {
				return false
			}
		}
	}
	return found
}

func funcDecls(dir string) []*ast.FuncDecl {
	var a []*ast.FuncDecl
	for _, f := range goFiles(dir) {
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				a = append(a, fd)
			}
		}
	}
	return a
}

func goFiles(dir string) []string {
	es, _ := os.ReadDir(dir)
	var a []string
	for _, e := range es {
		if !e.IsDir() && strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			a = append(a, filepath.Join(dir, e.Name()))
		}
	}
	return a
}

func instrumentDir(dir, repo, out string, rep map[string]string, r rules) {
	r.decls = funcDecls(dir)
	for _, f := range goFiles(dir) {
		src, err := os.ReadFile(f)
		must(err)
		dst, changed := instrument(f, src, r)
		if !changed {
			continue
		}
		rel, _ := filepath.Rel(repo, f)
		o := filepath.Join(out, "src", strings.ReplaceAll(rel, "/", "__"))
		must(os.MkdirAll(filepath.Dir(o), 0755))
		must(os.WriteFile(o, dst, 0644))
		rep[f] = o
	}
}

// instrument rewrites one file by text edits at AST positions, so that everything else, line
// numbers included, stays as it is.
func instrument(name string, src []byte, r rules) ([]byte, bool) {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	timeName := ""
	timeUses, timeRewrites := 0, 0
	dotOrBlank := func(im *ast.ImportSpec) bool {
		return im.Name != nil && (im.Name.Name == "_" || im.Name.Name == ".")
	}
	for _, im := range af.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "time" {
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
		}
		sh, ok := r.imports[p]
		if !ok || dotOrBlank(im) {
			continue
		}
		local := filepath.Base(p)
		if im.Name != nil {
			local = im.Name.Name
		}
		edits = append(edits, edit{off(im.Pos()), off(im.End()), local + " " + strconv.Quote(sh)})
	}
	needRT := false
	if r.sleep || r.goStmt {
		ast.Inspect(af, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.SelectorExpr:
				if id, ok := v.X.(*ast.Ident); ok && timeName != "" && id.Name == timeName && id.Obj == nil {
					timeUses++
					if r.sleep && (v.Sel.Name == "Sleep" || v.Sel.Name == "AfterFunc") {
						timeRewrites++
						needRT = true
						edits = append(edits, edit{off(id.Pos()), off(id.End()), "verifrt"})
					}
				}
			case *ast.GoStmt:
				if !r.goStmt {
					return true
				}
				if fl, ok := v.Call.Fun.(*ast.FuncLit); ok && len(v.Call.Args) == 0 {
					// go func() {...}()  =>  verifrt.Go(func() {...})
					needRT = true
					edits = append(edits, edit{off(v.Go), off(fl.Pos()), "verifrt.Go("})
					edits = append(edits, edit{off(fl.End()), off(v.Call.End()), ")"})
					return true
				}
				if n := len(v.Call.Args); n <= 4 && !v.Call.Ellipsis.IsValid() && r.plainFunc(v.Call.Fun, n) {
					// go f(a, b)  =>  verifrt.Go2(f, a, b)
					needRT = true
					sep := ", "
					if n == 0 {
						sep = ""
					}
					edits = append(edits, edit{off(v.Go), off(v.Call.Fun.Pos()), "verifrt.Go" + strconv.Itoa(n) + "("})
					edits = append(edits, edit{off(v.Call.Lparen), off(v.Call.Lparen) + 1, sep})
				}
			}
			return true
		})
	}
	if r.sched {
		n := 0
		point := func(list []ast.Stmt) {
			for _, st := range list {
				what := ""
				switch v := st.(type) {
				case *ast.SendStmt:
					what = "send"
				case *ast.ExprStmt:
					if c, ok := v.X.(*ast.CallExpr); ok {
						if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(c.Args) == 1 {
							what = "close"
						}
					}
				}
				if what != "" {
					n++
					needRT = true
					edits = append(edits, edit{off(st.Pos()), off(st.Pos()), fmt.Sprintf("verifrt.Sched(\"%s %s %d\"); ", what, filepath.Base(name), n)})
				}
			}
		}
		ast.Inspect(af, func(nd ast.Node) bool {
			switch v := nd.(type) {
			case *ast.BlockStmt:
				point(v.List)
			case *ast.CaseClause:
				point(v.Body)
			case *ast.CommClause:
				point(v.Body)
			}
			return true
		})
	}
	if len(edits) == 0 {
		return nil, false
	}
	pre := ""
	if needRT {
		pre = "; import verifrt " + strconv.Quote(r.rtPath)
		edits = append(edits, edit{off(af.Name.End()), off(af.Name.End()), pre})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b bytes.Buffer
	fmt.Fprintf(&b, "//line %s:1\n", name)
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.from])
		b.WriteString(e.text)
		last = e.to
	}
	b.Write(src[last:])
	if timeUses > 0 && timeUses == timeRewrites {
		fmt.Fprintf(&b, "\nvar _ = %s.Now\n", timeName)
	}
	return b.Bytes(), true
}

const fakePlugin = `package plugin

import (
	"errors"
	"internal/runtime/maps"
)

// VerifOpen is the model checker's loader.
var VerifOpen func(path string) (*Plugin, error)

func VerifNew(syms map[string]any, pluginpath string) *Plugin {
	return &Plugin{pluginpath: pluginpath, syms: syms}
}

// VerifMapOffset fixes (or releases) the start of every map iteration.
func VerifMapOffset(on bool, off uint64) {
	if on {
		maps.VerifOff = off
		maps.VerifMode = 1
	} else {
		maps.VerifMode = 0
	}
}

func open(name string) (*Plugin, error) {
	if VerifOpen == nil {
		return nil, errors.New("plugin: no VerifOpen")
	}
	return VerifOpen(name)
}

func lookup(p *Plugin, symName string) (Symbol, error) {
	if s := p.syms[symName]; s != nil {
		return s, nil
	}
	return nil, errors.New("plugin: symbol " + symName + " not found in plugin " + p.pluginpath)
}
`

func stdOverlay(out string, rep map[string]string) {
	goroot := os.Getenv("GOROOT")
	if goroot == "" {
		panic("GOROOT is not set")
	}
	w := func(name, data string) string {
		f := filepath.Join(out, name)
		must(os.WriteFile(f, []byte(data), 0644))
		return f
	}
	rep[filepath.Join(goroot, "src/plugin/plugin_dlopen.go")] = w("plugin_dlopen.go.txt", fakePlugin)
	tb := filepath.Join(goroot, "src/internal/runtime/maps/table.go")
	src, err := os.ReadFile(tb)
	must(err)
	s := string(src)
	for _, v := range []string{"it.entryOffset", "it.dirOffset"} {
		old := v + " = rand()"
		if !strings.Contains(s, old) {
			panic("internal/runtime/maps/table.go: cannot find " + old)
		}
		s = strings.ReplaceAll(s, old, old+"\n\tif VerifMode != 0 { "+v+" = VerifOff }")
	}
	s += "\nvar VerifMode uint32\nvar VerifOff uint64\n"
	rep[tb] = w("table.go.txt", s)
	rep[filepath.Join(goroot, "src/runtime/verif_goid.go")] = w("verif_goid.go.txt",
		"package runtime\n\n// VerifGoid identifies the calling goroutine.\nfunc VerifGoid() uint64 { return getg().goid }\n")
}
