package clih

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// The live suite (C19): which functions and types the generated code registers. The generated code
// is compiled and run.

func init() { register(&Suite{Name: "live", Run: runLive}) }

type declForm struct {
	id   string
	kind string // func, type, bad, none
	code string // N = name, K = unique identifier
	file string // other file name than the default (with its own header), %s = K
	head string
}

var declForms = []declForm{
	{"function", "func", "func N() string { return \"N\" }\n", "", ""},
	{"function with parameters", "func", "func N(a int, b ...string) (r interface{}, err error) { return nil, nil }\n", "", ""},
	{"documented function", "func", "// N is live.\n//\n//go:noinline\nfunc N() {}\n", "", ""},
	{"struct", "type", "type N struct {\n\tA int\n\tb []string\n}\n", "", ""},
	{"empty struct", "type", "type N struct{}\n", "", ""},
	{"struct with embedding and tags", "type", "type eK struct{ Q int }\n\ntype N struct {\n\teK\n\t*strings_K\n\tZ map[string]int `json:\"z\"`\n}\n\ntype strings_K struct{}\n", "", ""},
	{"grouped types", "type", "type (\n\taK int\n\tN  struct{ X, Y int }\n\tbK struct{ _ int }\n)\n", "", ""},
	{"documented struct", "type", "// N is live.\ntype N struct{ A int } // N\n", "", ""},
	{"documented grouped types", "type", "// Some types.\ntype (\n\t// aK is first.\n\taK int\n\n\t// N is live.\n\tN struct{ X, Y int } // N\n\n\t// bK is last.\n\tbK struct{ _ int }\n)\n", "", ""},
	{"group of one", "type", "type (\n\t// N is live.\n\tN struct{}\n)\n", "", ""},
	{"struct behind other declarations", "type", "import (\n\t\"fmt\"\n)\n\nconst aK = 1\n\nvar bK = fmt.Sprint(aK)\n\nfunc (e eK) String() string { return bK }\n\ntype eK int\n\ntype N struct{ x, _ int }\n\nfunc init() {}\n", "", ""},
	{"function behind other declarations", "func", "import \"fmt\"\n\ntype eK int\n\nfunc (eK) N() {}\n\nfunc _() {}\n\nfunc init() { fmt.Sprint() }\n\nfunc N(_ int, _ string) (_ error) {\n\ttype Live_inner struct{}\n\treturn nil\n}\n", "", ""},
	{"variadic function in one line", "func", "func N(f ...func(int) struct{}) (chan<- int, map[string]interface{ M() }) { return nil, nil }; var aK int\n", "", ""},
	{"file with a constraint that holds", "func", "func N() {}\n", "", "//go:build linux && !ignore\n\n"},
	{"file of this system", "type", "type N struct{}\n", "k_%s_linux.go", ""},
	{"struct with a method", "type", "type N struct{ v int }\n\nfunc (n *N) live_m() {}\nfunc (n N) Live_v() {}\n", "", ""},
	{"recursive struct", "type", "type N struct{ next *N }\n", "", ""},

	{"method", "none", "type mK struct{}\n\nfunc (mK) N() {}\nfunc (*mK) PN() {}\n", "", ""},
	{"variable", "none", "var N = func() {}\n\nvar (\n\tN_2 struct{}\n)\n", "", ""},
	{"constant", "none", "const N = 1\n", "", ""},
	{"local type", "none", "func fK() {\n\ttype N struct{}\n\tvar _ N\n\tN_2 := func() {}\n\tN_2()\n}\n", "", ""},
	{"in a comment", "none", "/*\nfunc N() {}\n*/\n\n// type N struct{}\nvar cK = `\nfunc N() {}\n`\n", "", ""},
	{"test file", "none", "func N() {}\n\ntype N_t struct{}\n", "k_%s_test.go", ""},
	{"ignored file", "none", "func N() {}\n\ntype N_t struct{}\n", "k_%s.go", "//go:build ignore\n\n"},
	{"file of another system", "none", "func N() {}\n\ntype N_t struct{}\n", "k_%s_windows.go", ""},
	{"underscore file", "none", "func N() {}\n", "_k_%s.go", ""},
	{"field and parameter", "none", "type pK struct{ N int }\n\nfunc hK(N int) (N_2 int) { return N }\n", "", ""},

	{"integer type", "bad", "type N int\n", "", ""},
	{"alias", "bad", "type sK struct{}\n\ntype N = sK\n", "", ""},
	{"defined from a struct", "bad", "type sK struct{}\n\ntype N sK\n", "", ""},
	{"interface type", "bad", "type N interface{}\n", "", ""},
	{"function type", "bad", "type N func()\n", "", ""},
	{"pointer type", "bad", "type N *struct{}\n", "", ""},
	{"map type", "bad", "type (\n\tokK struct{}\n\tN map[string]struct{}\n)\n", "", ""},
	{"slice type", "bad", "type N []struct{}\n", "", ""},
}

// nameForms: suffix appended to a spelling of the prefix.
func spellings(prefix string) []string {
	up, mixed := strings.ToUpper(prefix), []byte(prefix)
	for i := range mixed {
		if i%2 == 0 {
			mixed[i] = []byte(strings.ToUpper(string(mixed[i])))[0]
		}
	}
	return []string{prefix, up, string(mixed), strings.ToUpper(prefix[:1]) + prefix[1:]}
}

type lpkg struct{ dir, name string }

var livePkgs = []lpkg{{"", "foo"}, {"sub", "sub"}, {"sub/deep", "deep"}, {"internal/in", "in"}, {"other", "differs"}, {"sub/hotswap", "hotswap"}}

type expect struct {
	funcs map[string]string // name -> symbol name of the function
	types map[string]string // name -> package path suffix . name
}

const dumpSrc = `
import (
	"encoding/json"
	"os"
	"reflect"
	"runtime"
)

func dumpLive(fs map[string]interface{}, ts map[string]func() interface{}) {
	out := struct{ Funcs, Types, Bad map[string]string }{map[string]string{}, map[string]string{}, map[string]string{}}
	for k, f := range fs {
		v := reflect.ValueOf(f)
		if v.Kind() != reflect.Func {
			out.Bad[k] = "not a function: " + v.Kind().String()
			continue
		}
		out.Funcs[k] = runtime.FuncForPC(v.Pointer()).Name()
	}
	for k, f := range ts {
		a, b := f(), f()
		t := reflect.TypeOf(a)
		if t == nil || t.Kind() != reflect.Ptr || t.Elem().Kind() != reflect.Struct {
			out.Bad[k] = "the factory does not return a pointer to a struct"
			continue
		}
		if reflect.TypeOf(b) != t {
			out.Bad[k] = "the factory returns different types"
		}
		if t.Elem().Size() > 0 && a == b {
			out.Bad[k] = "the factory returns the same value twice"
		}
		if !reflect.ValueOf(a).Elem().IsZero() {
			out.Bad[k] = "the factory's value is not a zero value"
		}
		out.Types[k] = t.Elem().PkgPath() + "." + t.Elem().Name()
	}
	_ = json.NewEncoder(os.Stdout).Encode(out)
}
`

// livePlugin collects the sources of a plugin and what its build has to register.
type livePlugin struct {
	files map[string]string
	exp   expect
	n     int
	flags []string // build flags behind --
	env   []string
	at    string // where it lies
}

func newLivePlugin() *livePlugin {
	l := &livePlugin{at: "plugin/foo", files: map[string]string{"main.go": fundamental("foo", userFuncs, "")}, exp: expect{map[string]string{}, map[string]string{}}}
	for _, p := range livePkgs[1:] {
		l.files[p.dir+"/base.go"] = "package " + p.name + "\n"
	}
	return l
}

func (l *livePlugin) add(p lpkg, d declForm, name string, expectIt bool) {
	l.n++
	k := fmt.Sprintf("k%d", l.n)
	f := fmt.Sprintf("d_%s.go", k)
	if d.file != "" {
		f = fmt.Sprintf(d.file, k)
	}
	if p.dir != "" {
		f = p.dir + "/" + f
	}
	var b strings.Builder
	code := strings.NewReplacer("N_2", name+"_2", "N_t", name+"_t", "PN", name+"_p", "eK", "e"+k, "_K", "_"+k, "aK", "a"+k, "bK", "b"+k, "mK", "m"+k, "fK", "f"+k, "cK", "c"+k, "pK", "p"+k, "hK", "h"+k, "sK", "s"+k, "okK", "ok"+k).Replace(d.code)
	// the placeholder N stands alone
	fields := []rune(code)
	for i, r := range fields {
		if r == 'N' && !ident(fields, i-1) && !ident(fields, i+1) {
			b.WriteString(name)
			continue
		}
		b.WriteRune(r)
	}
	l.files[f] = d.head + "package " + p.name + "\n\n" + b.String()
	if !expectIt {
		return
	}
	path := "$"
	if p.dir != "" {
		path += "/" + p.dir
	}
	switch d.kind {
	case "func":
		l.exp.funcs[name] = path + "." + name
	case "type":
		l.exp.types[name] = path + "." + name
	}
}

func ident(r []rune, i int) bool {
	if i < 0 || i >= len(r) {
		return false
	}
	c := r[i]
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// runDump compiles and runs the program in dir and compares what it prints.
func runDump(c *Ctx, p *Proj, dir, what, rootPath string, isMain bool, exp expect, env []string, flags ...string) bool {
	x := p.Exec(runOpt{bin: "go", dir: p.Path(dir), timeout: 3 * time.Minute, env: env}, append(append([]string{"build"}, flags...), "-o", p.Path("prog"), ".")...)
	if x.Exit != 0 {
		c.violate([]string{"C19"}, what+": the generated code does not compile: "+x.String())
		return false
	}
	x = p.Exec(runOpt{bin: p.Path("prog")})
	if x.Exit != 0 {
		c.violate([]string{"C19"}, what+": the program with the generated code fails: "+x.String())
		return false
	}
	var got struct{ Funcs, Types, Bad map[string]string }
	if err := json.Unmarshal([]byte(x.Out), &got); err != nil {
		c.violate([]string{"HARNESS"}, "cannot parse "+x.String())
		return false
	}
	sub := func(m map[string]string) map[string]string {
		r := map[string]string{}
		for k, v := range m {
			full := strings.Replace(v, "$", rootPath, 1)
			if isMain && strings.HasPrefix(v, "$.") {
				full = "main." + strings.TrimPrefix(v, "$.")
			}
			// runtime.FuncForPC escapes dots of the last path element
			r[k] = full
		}
		return r
	}
	ok := true
	for _, z := range []struct {
		kind      string
		want, got map[string]string
	}{{"function", sub(exp.funcs), got.Funcs}, {"type", sub(exp.types), got.Types}} {
		var names []string
		for k := range z.want {
			names = append(names, k)
		}
		for k := range z.got {
			if _, ok := z.want[k]; !ok {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		for _, k := range names {
			c.r.Res.Events++
			w, in := z.want[k]
			g, out := z.got[k]
			switch {
			case !out:
				c.violate([]string{"C19"}, fmt.Sprintf("%s: live %s %s (%s) is not registered", what, z.kind, k, w))
				ok = false
			case !in:
				c.violate([]string{"C19"}, fmt.Sprintf("%s: %s %s is registered, but is no live %s of the plugin (%s)", what, z.kind, k, z.kind, g))
				ok = false
			case unescape(g) != w:
				c.violate([]string{"C19"}, fmt.Sprintf("%s: live %s %s is registered as %s instead of %s", what, z.kind, k, g, w))
				ok = false
			}
		}
	}
	for k, v := range got.Bad {
		c.violate([]string{"C19"}, fmt.Sprintf("%s: %s: %s", what, k, v))
		ok = false
	}
	return ok
}

func unescape(s string) string { return strings.ReplaceAll(s, "%2e", ".") }

// goEnv: the program with the generated code is always compiled in module mode.
func (l *livePlugin) goEnv() []string { return append(l.env[:len(l.env):len(l.env)], "GO111MODULE=on") }

// checkLive builds the plugin in both modes.
func checkLive(c *Ctx, l *livePlugin, prefix string) {
	p := c.r.newProj()
	defer p.Close()
	p.writeAll(l.at, l.files)
	p.Mkdir("static")
	parent := filepath.Dir(l.at)
	host := parent + "/zzhost"
	var pa []string
	if prefix != "" {
		pa = []string{"--livePrefix", prefix}
	}
	c.Desc("%d live functions, %d live types", len(l.exp.funcs), len(l.exp.types))
	var tail []string
	if l.flags != nil {
		tail = append([]string{"--"}, l.flags...)
	}
	before := p.Snap(parent)
	x := p.Hotswap(runOpt{env: l.env}, append(append(append([]string{"build", "--goBuild=false"}, pa...), l.at, "out"), tail...)...)
	c.r.Transition()
	c.r.Count("cli_runs", 1)
	news := p.newEntries(parent, before)
	if x.Exit != 0 || len(news) != 1 {
		c.violate([]string{"C19"}, "a proper plugin is not built: "+x.String())
		return
	}
	tmp := parent + "/" + news[0]
	p.Write(tmp+"/zz_dump.go", "package main\n"+dumpSrc+"\nfunc main() { dumpLive(HotswapLiveFuncs(), HotswapLiveTypes()) }\n")
	runDump(c, p, tmp, "plugin build", modPath+"/"+tmp, true, l.exp, l.goEnv(), l.flags...)
	p.Remove(tmp)

	x = p.Hotswap(runOpt{env: l.env}, append(append(append([]string{"build", "--staticLinking"}, pa...), l.at, "static"), tail...)...)
	c.r.Transition()
	c.r.Count("cli_runs", 1)
	if x.Exit != 0 {
		c.violate([]string{"C19"}, "the static linking code of a proper plugin is not generated: "+x.String())
		return
	}
	p.Write(host+"/main.go", "package main\n\nimport foo \""+modPath+"/"+l.at+"\"\n"+dumpSrc+"\nfunc main() { dumpLive(foo.HotswapLiveFuncs(), foo.HotswapLiveTypes()) }\n")
	runDump(c, p, host, "static linking", modPath+"/"+l.at, false, l.exp, l.goEnv(), l.flags...)
}

func runLive(r *Runner) {
	r.Bound("declarations", "%d forms in %d packages; 4 letter cases of the prefix; plugin and static-linking builds, compiled and run", len(declForms), len(livePkgs))
	// every combination of {nothing, functions, types, both} in three packages
	combos := []lpkg{livePkgs[0], livePkgs[1], livePkgs[2]}
	for i := 0; i < 64; i++ {
		i := i
		if !r.Thorough() && i%4 != 0 && (i>>2)%4 != 0 && i>>4 != 0 {
			continue // quick: at most two packages with live names
		}
		r.Case(fmt.Sprintf("packages %d%d%d", i%4, i>>2%4, i>>4), func(c *Ctx) {
			l := newLivePlugin()
			for j, p := range combos {
				k := i >> (2 * j) % 4
				if k&1 != 0 {
					l.add(p, declForms[0], fmt.Sprintf("live_F%d", j), true)
					l.add(p, declForms[0], fmt.Sprintf("Live_G%d", j), true)
				}
				if k&2 != 0 {
					l.add(p, declForms[3], fmt.Sprintf("live_T%d", j), true)
				}
			}
			checkLive(c, l, "")
			c.r.State(fmt.Sprint("packages", i))
		})
	}
	// every form in every package, all spellings, several prefixes
	for _, prefix := range []string{"", "live_", "LIVE_", " x ", "liVe", "y_z_"} {
		prefix := prefix
		r.Case("all forms, prefix "+prefix, func(c *Ctx) {
			eff := strings.ToLower(strings.TrimSpace(prefix))
			if eff == "" {
				eff = "live_"
			}
			l := newLivePlugin()
			n := 0
			for _, p := range livePkgs {
				for _, d := range declForms {
					if d.kind == "bad" {
						continue
					}
					for _, s := range spellings(eff) {
						n++
						l.add(p, d, fmt.Sprintf("%sx%d", s, n), true)
						if d.kind != "none" {
							n++
							l.add(p, d, fmt.Sprintf("a%sx%d", s, n), false)
							if len(s) > 1 {
								n++
								l.add(p, d, fmt.Sprintf("%s9x%d", s[:len(s)-1], n), false)
							}
						}
					}
				}
			}
			checkLive(c, l, prefix)
			c.r.State("forms " + prefix)
		})
	}
	// each form alone
	for pi, p := range livePkgs {
		for _, d := range declForms {
			p, d := p, d
			if !r.Thorough() && pi > 1 {
				continue
			}
			if d.kind == "bad" {
				continue
			}
			r.Case("alone: "+d.id+" in /"+p.dir, func(c *Ctx) {
				l := newLivePlugin()
				l.add(p, d, "live_X", true)
				checkLive(c, l, "")
				c.r.State("alone " + d.id + p.dir)
			})
		}
	}
	// files selected by build tags; the flags behind -- decide
	tagExprs := []struct {
		expr  string
		holds func(t map[string]bool) bool
	}{
		{"extra", func(t map[string]bool) bool { return t["extra"] }},
		{"!extra", func(t map[string]bool) bool { return !t["extra"] }},
		{"extra && other", func(t map[string]bool) bool { return t["extra"] && t["other"] }},
		{"other || !extra", func(t map[string]bool) bool { return t["other"] || !t["extra"] }},
		{"race", func(t map[string]bool) bool { return t["race"] }},
		{"!race", func(t map[string]bool) bool { return !t["race"] }},
		{"cgo", func(t map[string]bool) bool { return true }},
	}
	for _, tf := range []struct {
		flags []string
		tags  string
	}{
		{[]string{}, ""}, {[]string{"-v"}, ""}, {[]string{"-tags", "extra"}, "extra"}, {[]string{"-tags=extra"}, "extra"}, {[]string{"--tags", "other,extra"}, "other extra"},
		{[]string{"--tags=other"}, "other"}, {[]string{"-ldflags", "-s -w", "-tags", "extra"}, "extra"}, {[]string{"-tags", "other", "-tags", "extra"}, "extra"},
		{[]string{"-gcflags=-N -l", "-tags=extra,other", "-v"}, "extra other"}, {[]string{"-tags", "", "-p", "2"}, ""}, {[]string{"-race", "-tags", "extra"}, "race extra"},
	} {
		tf := tf
		r.Case(fmt.Sprintf("build flags %q", tf.flags), func(c *Ctx) {
			l := newLivePlugin()
			l.flags = tf.flags
			tags := map[string]bool{}
			for _, t := range strings.Fields(tf.tags) {
				tags[t] = true
			}
			n := 0
			for _, p := range livePkgs {
				for _, e := range tagExprs {
					for _, d := range []declForm{declForms[0], declForms[3]} {
						d.head = "//go:build " + e.expr + "\n\n"
						n++
						l.add(p, d, fmt.Sprintf("live_x%d", n), e.holds(tags))
					}
				}
			}
			checkLive(c, l, "")
			c.r.State(fmt.Sprintf("flags %q", tf.flags))
		})
	}
	for _, ef := range []struct {
		env   []string
		flags []string
		tags  string
	}{
		{[]string{"GO111MODULE=off"}, nil, ""}, {[]string{"GO111MODULE=auto"}, nil, ""}, {[]string{"GO111MODULE="}, nil, ""},
		{[]string{"GOFLAGS=-mod=mod -tags=extra"}, nil, "extra"}, {[]string{"GOFLAGS=-mod=mod -tags=extra,other"}, []string{"-v"}, "extra other"},
		{[]string{"GOFLAGS=-mod=mod -tags=extra"}, []string{"-tags=other"}, "other"}, {[]string{"GO111MODULE=off"}, []string{"-tags", "extra"}, "extra"},
	} {
		r.Case(fmt.Sprintf("environment %q, build flags %q", ef.env, ef.flags), func(c *Ctx) {
			l := newLivePlugin()
			l.env, l.flags = ef.env, ef.flags
			tags := map[string]bool{}
			for _, t := range strings.Fields(ef.tags) {
				tags[t] = true
			}
			n := 0
			for _, p := range livePkgs {
				for _, e := range tagExprs {
					for _, d := range []declForm{declForms[0], declForms[3]} {
						d.head = "//go:build " + e.expr + "\n\n"
						n++
						l.add(p, d, fmt.Sprintf("live_x%d", n), e.holds(tags))
					}
				}
			}
			checkLive(c, l, "")
			c.r.State(fmt.Sprintf("environment %q %q", ef.env, ef.flags))
		})
	}
	r.Bound("environments", "7 combinations of GO111MODULE, GOFLAGS and build flags")
	r.Bound("build flags", "11 lists of build flags x 7 build constraints x 6 packages x function and type, in both build modes")
	// where the plugin lies (a path that ends in a dot cannot be imported)
	r.Bound("places", "%d names of the plugin's directory and %d of its parent, in both build modes", len(oddDirs), len(oddParents))
	for i, d := range append(append([][2]string{}, oddDirs...), oddParents...) {
		if strings.HasSuffix(d[1], ".") || !r.Thorough() && i%2 == 1 && d[1] != "testdata" && d[0] != "testdata" && d[1] != ".foo" {
			continue
		}
		r.Case("plugin in "+d[0]+"/"+d[1], func(c *Ctx) {
			l := newLivePlugin()
			l.at = d[0] + "/" + d[1]
			for j, p := range livePkgs {
				l.add(p, declForms[0], fmt.Sprintf("live_F%d", j), true)
				l.add(p, declForms[3], fmt.Sprintf("live_T%d", j), true)
			}
			checkLive(c, l, "")
			c.r.State("at " + l.at)
		})
	}
	r.Case("cgo", func(c *Ctx) {
		l := newLivePlugin()
		for i, p := range []lpkg{livePkgs[0], livePkgs[1]} {
			for j, d := range []declForm{
				{"cgo function", "func", "// static int x(void) { return 3; }\nimport \"C\"\n\nfunc N() int { return int(C.x()) }\n", "", ""},
				{"cgo struct", "type", "// typedef struct { int a; } eK;\nimport \"C\"\n\ntype N struct{ v C.eK }\n", "", ""},
			} {
				l.add(p, d, fmt.Sprintf("live_C%d%d", i, j), true)
			}
		}
		checkLive(c, l, "")
		c.r.State("cgo")
	})
	// the same name in different letter cases, and the bare prefix
	r.Case("letter cases are different names", func(c *Ctx) {
		l := newLivePlugin()
		for i, p := range livePkgs[:4] {
			l.add(p, declForms[i%2*3], spellings("live_")[i]+"same", true)
		}
		l.add(livePkgs[4], declForms[0], "live_", true)
		l.add(livePkgs[5], declForms[3], "Live_", true)
		l.add(livePkgs[5], declForms[0], "live_日本", true)
		checkLive(c, l, "")
	})
	r.Case("empty prefix", func(c *Ctx) {
		l := newLivePlugin()
		rejected(c, l, "an empty --livePrefix", []string{"--livePrefix", " "})
	})
	// rejections
	for _, p := range livePkgs {
		for _, d := range declForms {
			if d.kind != "bad" {
				continue
			}
			p, d := p, d
			for _, s := range spellings("live_")[:2] {
				s := s
				r.Case("rejected: "+d.id+" "+s+" in /"+p.dir, func(c *Ctx) {
					l := newLivePlugin()
					l.add(p, d, s+"Bad", false)
					l.add(livePkgs[1], declForms[0], "live_good", true)
					rejected(c, l, "a live type that is not a struct ("+d.id+")", nil)
					c.r.State("bad " + d.id + p.dir)
				})
			}
		}
	}
	dups := []int{0, 3, 6}
	for i, a := range livePkgs {
		for j, b := range livePkgs {
			if i == j {
				continue
			}
			for _, x := range dups {
				for _, y := range dups {
					if !r.Thorough() && x == 6 {
						continue
					}
					a, b, x, y := a, b, x, y
					r.Case(fmt.Sprintf("duplicate: %s in /%s and %s in /%s", declForms[x].id, a.dir, declForms[y].id, b.dir), func(c *Ctx) {
						l := newLivePlugin()
						l.add(a, declForms[x], "live_Same", true)
						l.add(b, declForms[y], "live_Same", true)
						rejected(c, l, "a live name declared twice", nil)
						c.r.State(fmt.Sprint("dup", x, y, a.dir, b.dir))
					})
				}
			}
		}
	}
}

// rejected: both kinds of builds fail and produce nothing.
func rejected(c *Ctx, l *livePlugin, why string, args []string) {
	p := c.r.newProj()
	defer p.Close()
	p.writeAll("plugin/foo", l.files)
	before := snapDir(p.Root)
	for _, mode := range []string{"plugin build", "static linking"} {
		a := append([]string{"build"}, args...)
		if mode == "static linking" {
			a = append(a, "--staticLinking", "plugin/foo", "plugin")
		} else {
			a = append(a, "plugin/foo", "out")
		}
		x := p.Hotswap(runOpt{}, a...)
		c.r.Count("cli_runs", 1)
		c.r.Transition()
		if x.Exit == 0 {
			c.violate([]string{"C19"}, fmt.Sprintf("%s: %s is accepted", mode, why))
		}
		after := snapDir(p.Root)
		delete(before, "go.sum")
		delete(after, "go.sum")
		for k := range after {
			if strings.HasPrefix(k, ".git/") {
				delete(after, k)
			}
		}
		for k := range before {
			if strings.HasPrefix(k, ".git/") {
				delete(before, k)
			}
		}
		if d := before.Diff(after); d != "" {
			props := []string{"C21", "C19"}
			if mode == "static linking" {
				props = []string{"C20", "C19"}
			}
			c.violate(props, fmt.Sprintf("%s: a rejected build (%s) leaves something behind: %s", mode, why, d))
		}
	}
}
