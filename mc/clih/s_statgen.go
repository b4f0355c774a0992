package clih

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
)

// The statgen suite (C20): explicit-state exploration of generations, cleans and edits of several
// plugins that share an output directory. A state is the content of the whole directory tree.

func init() { register(&Suite{Name: "statgen", Run: runStatgen}) }

type sgPlugin struct{ dir, pkg string }

var sgPlugins = []sgPlugin{{"aa", "aa"}, {"aa.b", "aa_b"}, {"xaa", "hotswap"}, {"a-a", "plugin"}}

const sgVariants = 4 // 0 and 1 are proper, 2 declares a live name twice, 3 lacks functions

// recFuncs is a root package whose functions report to package rec.
func recFuncs(p sgPlugin, variant int) string {
	id := fmt.Sprintf("%s/%d", p.dir, variant)
	return `package ` + p.pkg + `

import (
	"` + modPath + `/rec"

	"github.com/edwingeng/hotswap/vault"
)

type imp struct{ Dep interface{} }

func OnLoad(data interface{}) error { rec.Add("` + id + ` OnLoad") ; return nil }
func OnInit(sharedVault *vault.Vault) error { rec.Add("` + id + ` OnInit") ; return nil }
func OnFree() { rec.Add("` + id + ` OnFree") }
func Export() interface{} { rec.Add("` + id + ` Export") ; return nil }
func Import() interface{} { rec.Add("` + id + ` Import") ; return nil }
func InvokeFunc(name string, params ...interface{}) (interface{}, error) { rec.Add("` + id + ` InvokeFunc " + name) ; return "` + id + ` result", nil }
func Reloadable() bool { rec.Add("` + id + ` Reloadable") ; return true }
`
}

// sgSources are the hand-written files of a plugin.
func sgSources(p sgPlugin, v int) map[string]string {
	m := map[string]string{
		"main.go":            recFuncs(p, v),
		"sub/sub.go":         "package sub\n\n// hotswap.live.go\n",
		"sub/deep/deep.go":   "package deep\n",
		"hotswap.custom.go":  "package " + p.pkg + "\n\n// written by hand\n",
		"hotswap.main.go.md": "written by hand\n",
		"sub/live.txt":       "hotswap.live.go\n",
		"a_test.go":          "package " + p.pkg + "_test\n",
	}
	id := strings.NewReplacer(".", "", "-", "").Replace(p.dir)
	switch v {
	case 0:
		m["live.go"] = "package " + p.pkg + "\n\nfunc live_" + id + "0() {}\n"
		m["sub/live.go"] = "package sub\n\ntype Live_" + id + "0 struct{ A int }\n"
	case 1:
		m["sub/deep/live.go"] = "package deep\n\nfunc live_" + id + "1() {}\n\ntype Live_" + id + "1 struct{}\n"
	case 2:
		m["live.go"] = "package " + p.pkg + "\n\nfunc live_" + id + "0() {}\n"
		m["sub/live.go"] = "package sub\n\nfunc live_" + id + "0() {}\n"
	case 3:
		m["main.go"] = strings.Replace(m["main.go"], "func OnFree()", "func onFree()", 1)
		m["sub/live.go"] = "package sub\n\nfunc OnFree() {}\n"
	}
	return m
}

var sgHand = map[string]string{
	"hand.go":                               "package plugins\n",
	"hotswap.go":                            "package plugins\n\n// written by hand\n",
	"hotswap.staticPluginInit.aa.go.bak":    "written by hand\n",
	"myhotswap.staticPluginInit.aa.go":      "package plugins\n\n// written by hand\n",
	"hotswapXstaticPluginInit.aa.go":        "package plugins\n\n// written by hand\n",
	"hotswap.staticPluginInit.aa_extra.txt": "written by hand\n",
	"other/hotswap.main.go":                 "package other\n\n// written by hand\n",
	"other/hotswap.staticPluginInit.aa.go":  "package other\n\n// written by hand\n",
	"aa_notes/README":                       "written by hand\n",
}

type sgState struct{ src, gen []int } // gen: -1 = not generated

func (s sgState) key() string { return fmt.Sprint(s.src, s.gen) }

func (s sgState) with(f func(n *sgState)) sgState {
	n := sgState{append([]int(nil), s.src...), append([]int(nil), s.gen...)}
	f(&n)
	return n
}

type sgWorld struct {
	c     *Ctx
	plugs []sgPlugin
	alone map[string]map[string]string // plugin/variant -> generated files (relative to the output directory)
	vars  string                       // content of hotswap.staticPlugins.go
	mu    sync.Mutex
}

const sgOut = "plugins"

func (w *sgWorld) sources(s sgState) Snap {
	m := Snap{}
	for k, v := range sgHand {
		m[k] = v
	}
	for i, p := range w.plugs {
		for k, v := range sgSources(p, s.src[i]) {
			m[p.dir+"/"+k] = v
		}
	}
	return m
}

func (w *sgWorld) expected(s sgState) Snap {
	m := w.sources(s)
	for i, p := range w.plugs {
		if s.gen[i] >= 0 {
			for k, v := range w.alone[fmt.Sprint(p.dir, s.gen[i])] {
				m[k] = v
			}
		}
	}
	return m
}

func (w *sgWorld) violate(props []string, f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.c.violate(props, fmt.Sprintf(f, a...))
}

// generateAlone learns what generating each plugin alone produces.
func (w *sgWorld) generateAlone() bool {
	for _, p := range w.plugs {
		for v := 0; v < 2; v++ {
			pr := w.c.r.newProj()
			pr.Write("rec/rec.go", recSrc)
			for k, s := range sgHand {
				pr.Write(sgOut+"/"+k, s)
			}
			for k, s := range sgSources(p, v) {
				pr.Write(sgOut+"/"+p.dir+"/"+k, s)
			}
			before := pr.Snap(sgOut).Files()
			x := pr.Hotswap(runOpt{}, "build", "--staticLinking", sgOut+"/"+p.dir, sgOut)
			if x.Exit != 0 {
				w.violate([]string{"C20"}, "the generation of a proper plugin fails: %s", x)
				return false
			}
			after := pr.Snap(sgOut).Files()
			g := map[string]string{}
			for k, s := range after {
				if b, ok := before[k]; !ok {
					g[k] = s
				} else if b != s {
					w.violate([]string{"C20"}, "the generation of %s changes the hand-written file %s", p.dir, k)
				}
			}
			for k := range before {
				if _, ok := after[k]; !ok {
					w.violate([]string{"C20"}, "the generation of %s removes the hand-written file %s", p.dir, k)
				}
			}
			for k, s := range g {
				if filepath.Base(k) == "hotswap.staticPlugins.go" {
					w.vars = s
					delete(g, k)
				} else if !strings.Contains(k, "hotswap") {
					w.violate([]string{"C20"}, "the generation of %s creates %s", p.dir, k)
				}
			}
			w.alone[fmt.Sprint(p.dir, v)] = g
			pr.Close()
		}
	}
	return true
}

const recSrc = "package rec\n\nvar Log []string\n\nfunc Add(s string) { Log = append(Log, s) }\n"

// restore makes the tree of the project equal to want.
func restore(p *Proj, want Snap) {
	have := p.Snap(sgOut)
	var dirs []string
	for k, v := range have {
		if strings.HasSuffix(k, "/") {
			if _, ok := want[k]; !ok {
				dirs = append(dirs, k)
			}
			continue
		}
		if w, ok := want[k]; !ok || w != v {
			must(os.Remove(p.Path(sgOut + "/" + k)))
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(dirs)))
	for _, d := range dirs {
		_ = os.Remove(p.Path(sgOut + "/" + d))
	}
	for k, v := range want {
		if strings.HasSuffix(k, "/") {
			p.Mkdir(sgOut + "/" + k)
		} else if have[k] != v || v == "" {
			p.Write(sgOut+"/"+k, v)
		}
	}
}

type sgNode struct {
	st    sgState
	tree  Snap
	depth int
	path  string
}

func treeKey(s Snap) string {
	var ks []string
	for k, v := range s {
		ks = append(ks, k+"\x00"+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\x01")
}

func runStatgen(r *Runner) {
	n := 2
	if r.Thorough() {
		n = 3
	}
	r.Bound("plugins", "%d plugins with confusable names, %d source variants each, all reachable states of generate / clean / edit", n, sgVariants)
	sets := [][]int{{0, 1}, {0, 3}, {2, 0}}
	if r.Thorough() {
		sets = [][]int{{0, 1}, {0, 3}, {2, 0}, {1, 3}, {0, 1, 2}}
	}
	for _, set := range sets {
		set := set
		var ps []sgPlugin
		for _, i := range set {
			ps = append(ps, sgPlugins[i])
		}
		r.Case(fmt.Sprint("histories of ", ps), func(c *Ctx) { sgExplore(c, ps) })
	}
	for i := 0; i < 1<<len(sgPlugins); i++ {
		if !r.Thorough() && i&(i-1) != 0 && i != 15 {
			continue
		}
		i := i
		r.Case(fmt.Sprintf("registered plugins %04b", i), func(c *Ctx) { sgRegistered(c, i) })
	}
	for _, v := range []string{"empty", "package zzz", "my-plugins", "p.q", "9p", "external test", "package main", "dir _x", "dir .hidden", "dir testdata", "dir internal", "dir hotswap", "dir fmt", "dir foo_test", "dir aa", "dir a.b/c-d", "dir plugins/x/y", "dir vault"} {
		v := v
		r.Case("output directory: "+v, func(c *Ctx) { sgOutDir(c, v) })
	}
	for _, v := range []string{"itself", "below", "missing", "file", "clean without static"} {
		v := v
		r.Case("refused: "+v, func(c *Ctx) { sgRefused(c, v) })
	}
}

func sgExplore(c *Ctx, ps []sgPlugin) {
	w := &sgWorld{c: c, plugs: ps, alone: map[string]map[string]string{}}
	if !w.generateAlone() {
		return
	}
	init := sgState{make([]int, len(ps)), make([]int, len(ps))}
	for i := range init.gen {
		init.gen[i] = -1
	}
	frontier := []sgNode{{st: init, tree: w.sources(init)}}
	seen := map[string]bool{}
	const par = 8
	projs := make(chan *Proj, par)
	for i := 0; i < par; i++ {
		p := c.r.newProj()
		p.Write("rec/rec.go", recSrc)
		p.Mkdir(sgOut)
		projs <- p
	}
	maxDepth := 0
	for len(frontier) > 0 {
		if c.r.expired() {
			break
		}
		var next []sgNode
		var wg sync.WaitGroup
		var mu sync.Mutex
		for _, nd := range frontier {
			for op := 0; op < 3*len(ps); op++ {
				if len(c.viol) > 20 || c.r.expired() {
					continue
				}
				p := <-projs
				wg.Add(1)
				go func(nd sgNode, op int, p *Proj) {
					defer wg.Done()
					defer func() { projs <- p }()
					m, ok := w.step(p, nd, op)
					mu.Lock()
					defer mu.Unlock()
					c.r.Transition()
					c.r.Count("cli_runs", 1)
					if ok {
						next = append(next, m)
					}
				}(nd, op, p)
			}
		}
		wg.Wait()
		sort.Slice(next, func(i, j int) bool { return next[i].path < next[j].path })
		frontier = frontier[:0]
		for _, m := range next {
			k := treeKey(m.tree)
			if seen[k] {
				continue
			}
			seen[k] = true
			c.r.State(k)
			if m.depth > maxDepth {
				maxDepth = m.depth
			}
			frontier = append(frontier, m)
		}
	}
	c.Desc("%d states, depth %d", len(seen), maxDepth)
	c.r.Bound("depth of "+fmt.Sprint(ps), "%d (all reachable states)", maxDepth)
}

func (w *sgWorld) step(p *Proj, nd sgNode, op int) (sgNode, bool) {
	i, kind := op/3, op%3
	pl := w.plugs[i]
	restore(p, nd.tree)
	names := []string{"generate ", "clean ", "edit "}
	m := sgNode{depth: nd.depth + 1, path: nd.path + " > " + names[kind] + pl.dir}
	switch kind {
	case 2: // the next source variant, by hand
		v := (nd.st.src[i] + 1) % sgVariants
		m.st = nd.st.with(func(n *sgState) { n.src[i] = v })
		for k := range sgSources(pl, nd.st.src[i]) {
			must(os.Remove(p.Path(sgOut + "/" + pl.dir + "/" + k)))
		}
		for k, s := range sgSources(pl, v) {
			p.Write(sgOut+"/"+pl.dir+"/"+k, s)
		}
		m.tree = p.Snap(sgOut)
		return m, true
	case 1:
		m.st = nd.st.with(func(n *sgState) { n.gen[i] = -1 })
		x := p.Hotswap(runOpt{}, "build", "--staticLinking", "--clean", sgOut+"/"+pl.dir, sgOut)
		if x.Exit != 0 {
			w.violate([]string{"C20"}, "cleaning fails after%s: %s", m.path, x)
			return m, false
		}
	case 0:
		x := p.Hotswap(runOpt{}, "build", "--staticLinking", sgOut+"/"+pl.dir, sgOut)
		v := nd.st.src[i]
		if v < 2 {
			m.st = nd.st.with(func(n *sgState) { n.gen[i] = v })
			if x.Exit != 0 {
				w.violate([]string{"C20"}, "the generation of a proper plugin fails after%s: %s", m.path, x)
				return m, false
			}
		} else {
			m.st = nd.st.with(func(n *sgState) {})
			props := []string{"C19", "C20"}
			if v == 3 {
				props = []string{"C22", "C20"}
			}
			if x.Exit == 0 {
				w.violate(props, "the generation of a broken plugin succeeds after%s", m.path)
			}
			if d := nd.tree.Diff(p.Snap(sgOut)); d != "" {
				w.violate(props, "a generation that fails changes files (after%s): %s", m.path, d)
				return m, false
			}
		}
	}
	m.tree = p.Snap(sgOut)
	got, want := m.tree.Files(), w.expected(m.st)
	any := false
	for _, g := range m.st.gen {
		any = any || g >= 0
	}
	v, has := got["hotswap.staticPlugins.go"]
	if any && !has {
		w.violate([]string{"C20"}, "hotswap.staticPlugins.go is missing after%s", m.path)
		return m, false
	}
	if has && v != w.vars {
		w.violate([]string{"C20"}, "hotswap.staticPlugins.go has changed after%s", m.path)
		return m, false
	}
	delete(got, "hotswap.staticPlugins.go")
	if d := want.Diff(got); d != "" {
		w.violate([]string{"C20"}, "after%s the files are not those of the generated plugins: %s", m.path, d)
		return m, false
	}
	for k := range m.tree {
		if strings.HasSuffix(k, "hotswapbureau/") && !strings.Contains(k, "other") {
			for i, pl := range w.plugs {
				if k == pl.dir+"/hotswapbureau/" && m.st.gen[i] < 0 {
					w.violate([]string{"C20"}, "the directory %s is left after%s", k, m.path)
					return m, false
				}
			}
		}
	}
	return m, true
}

const sgHost = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/slog"

	plugs "scratch.local/m/plugins"
	"scratch.local/m/rec"
)

func main() {
	var out struct {
		Names, Log, Live []string
		Err    string
		Invoke map[string]string
	}
	out.Invoke = map[string]string{}
	for k, v := range plugs.HotswapStaticPlugins {
		out.Names = append(out.Names, k+"="+v.Name)
	}
	sort.Strings(out.Names)
	sw := hotswap.NewPluginManagerSwapper("", hotswap.WithLogger(slog.NewScavenger()), hotswap.WithStaticPlugins(plugs.HotswapStaticPlugins))
	if _, err := sw.LoadPlugins(nil); err != nil {
		out.Err = err.Error()
	} else {
		cur := sw.Current()
		for k := range plugs.HotswapStaticPlugins {
			if p := cur.FindPlugin(k); p != nil {
				r, err := p.InvokeFunc("hello")
				out.Invoke[k] = fmt.Sprintf("%v %v", r, err)
			}
		}
		for k := range cur.Vault.LiveFuncs {
			out.Live = append(out.Live, "func "+k)
		}
		for k := range cur.Vault.LiveTypes {
			out.Live = append(out.Live, "type "+k)
		}
		sort.Strings(out.Live)
	}
	out.Log = rec.Log
	_ = json.NewEncoder(os.Stdout).Encode(out)
}
`

// sgRegistered compiles and runs a program with the generated plugins: every plugin is registered
// under its directory name and every function is in its place.
func sgRegistered(c *Ctx, mask int) {
	p := c.r.newProj()
	defer p.Close()
	p.Write("rec/rec.go", recSrc)
	p.Write(sgOut+"/hand.go", "package plugins\n")
	p.Write("host/main.go", sgHost)
	var names, live []string
	invoke := map[string]string{}
	for i, pl := range sgPlugins {
		v := i % 2
		for k, s := range sgSources(pl, v) {
			p.Write(sgOut+"/"+pl.dir+"/"+k, s)
		}
		// all are generated once, in either order; those that are not wanted are cleaned again
		x := p.Hotswap(runOpt{}, "build", "--staticLinking", sgOut+"/"+pl.dir, sgOut)
		c.r.Count("cli_runs", 1)
		c.r.Transition()
		if x.Exit != 0 {
			c.violate([]string{"C20"}, "the generation of a proper plugin fails: "+x.String())
			return
		}
	}
	var log []string
	for i, pl := range sgPlugins {
		if mask&(1<<i) == 0 {
			x := p.Hotswap(runOpt{}, "build", "--staticLinking", "--clean", sgOut+"/"+pl.dir, sgOut)
			c.r.Count("cli_runs", 1)
			c.r.Transition()
			if x.Exit != 0 {
				c.violate([]string{"C20"}, "cleaning fails: "+x.String())
				return
			}
			continue
		}
		id := strings.NewReplacer(".", "", "-", "").Replace(pl.dir)
		v := i % 2
		names = append(names, pl.dir+"="+pl.dir)
		invoke[pl.dir] = fmt.Sprintf("%s/%d result <nil>", pl.dir, v)
		live = append(live, fmt.Sprintf("func live_%s%d", id, v), fmt.Sprintf("type Live_%s%d", id, v))
		for _, f := range []string{"Export", "Import", "InvokeFunc hello", "OnInit", "OnLoad"} {
			log = append(log, fmt.Sprintf("%s/%d %s", pl.dir, v, f))
		}
	}
	sort.Strings(names)
	sort.Strings(live)
	sort.Strings(log)
	if mask == 0 {
		// nothing is generated any more; the list itself may stay
		if _, err := os.Stat(p.Path(sgOut + "/hotswap.staticPlugins.go")); err != nil {
			return
		}
	}
	x := p.Exec(runOpt{bin: "go", dir: p.Path("host")}, "build", "-o", p.Path("prog"), ".")
	if x.Exit != 0 {
		c.violate([]string{"C20"}, "the generated code does not compile: "+x.String())
		return
	}
	x = p.Exec(runOpt{bin: p.Path("prog")})
	var got struct {
		Names, Log, Live []string
		Err              string
		Invoke           map[string]string
	}
	if err := json.Unmarshal([]byte(x.Out), &got); err != nil {
		c.violate([]string{"C20"}, "the program with the generated plugins fails: "+x.String())
		return
	}
	sort.Strings(got.Log)
	// Reloadable may or may not be asked
	var gl []string
	for _, l := range got.Log {
		if !strings.HasSuffix(l, " Reloadable") {
			gl = append(gl, l)
		}
	}
	if got.Err != "" {
		if mask == 0 {
			return
		}
		c.violate([]string{"C20"}, "the generated plugins cannot be loaded: "+got.Err)
		return
	}
	if fmt.Sprint(got.Names) != fmt.Sprint(names) {
		c.violate([]string{"C20"}, fmt.Sprintf("registered plugins: %v, expected %v", got.Names, names))
	}
	if fmt.Sprint(got.Live) != fmt.Sprint(live) {
		c.violate([]string{"C20", "C19"}, fmt.Sprintf("live names: %v, expected %v", got.Live, live))
	}
	if !reflect.DeepEqual(got.Invoke, invoke) {
		c.violate([]string{"C20"}, fmt.Sprintf("InvokeFunc: %v, expected %v", got.Invoke, invoke))
	}
	if fmt.Sprint(gl) != fmt.Sprint(log) {
		c.violate([]string{"C20"}, fmt.Sprintf("functions called: %v, expected %v", gl, log))
	}
	c.r.State(fmt.Sprint("registered", mask))
	c.r.Res.Events += int64(len(got.Log))
}

// sgOutDir: output directories with and without Go files of their own.
func sgOutDir(c *Ctx, v string) {
	p := c.r.newProj()
	defer p.Close()
	out, hand := "plugins", map[string]string{}
	switch v {
	case "package zzz":
		hand["a.go"] = "package zzz\n"
	case "my-plugins", "p.q", "9p":
		out = v
		if v == "9p" {
			hand["a.go"] = "package ninep\n"
		}
	case "external test":
		hand["a.go"] = "package zzz\n"
		hand["a_test.go"] = "package zzz_test\n"
		hand["b_test.go"] = "package zzz\n"
	case "package main":
		hand["a.go"] = "package main\n\nfunc main() {}\n"
	}
	if strings.HasPrefix(v, "dir ") {
		out = strings.TrimPrefix(v, "dir ")
	}
	p.Write("rec/rec.go", recSrc)
	p.Mkdir(out)
	for k, s := range hand {
		p.Write(out+"/"+k, s)
	}
	pl := sgPlugins[0]
	for _, q := range sgPlugins[:2] {
		for k, s := range sgSources(q, 0) {
			if !strings.HasSuffix(k, "_test.go") {
				p.Write("src/"+q.dir+"/"+k, s)
			}
		}
	}
	before := p.Snap("src").Files()
	run := func(what string, args ...string) bool {
		x := p.Hotswap(runOpt{}, args...)
		c.r.Count("cli_runs", 1)
		c.r.Transition()
		if x.Exit != 0 {
			c.violate([]string{"C20"}, what+" fails: "+x.String())
			return false
		}
		return true
	}
	if !run("generation", "build", "--staticLinking", "src/"+pl.dir, out) {
		return
	}
	s1 := snapDir(p.Root)
	if !run("generation", "build", "--staticLinking", "src/"+pl.dir, out) {
		return
	}
	if d := trim(s1).Diff(trim(snapDir(p.Root))); d != "" {
		c.violate([]string{"C20"}, "generating the same plugin twice changes something: "+d)
	}
	if !run("generation", "build", "--staticLinking", "src/"+sgPlugins[1].dir, out) {
		return
	}
	x := p.Exec(runOpt{bin: "go", dir: p.Path(out)}, "build", "-o", p.Path("prog"), ".")
	if x.Exit != 0 {
		c.violate([]string{"C20"}, "the generated code does not compile: "+x.String())
	}
	if !run("cleaning", "build", "--staticLinking", "--clean", "src/"+sgPlugins[1].dir, out) {
		return
	}
	p2 := trim(snapDir(p.Root))
	delete(p2, "prog")
	if d := trim(s1).Diff(p2); d != "" {
		c.violate([]string{"C20"}, "generating and cleaning another plugin leaves a difference: "+d)
	}
	if !run("cleaning", "build", "--staticLinking", "--clean", "src/"+pl.dir, out) {
		return
	}
	if d := before.Diff(p.Snap("src").Files()); d != "" {
		c.violate([]string{"C20"}, "generating and cleaning does not restore the sources: "+d)
	}
	left := p.Snap(out).Files()
	delete(left, "hotswap.staticPlugins.go")
	if d := Snap(hand).Diff(left); d != "" {
		c.violate([]string{"C20"}, "generating and cleaning does not restore the output directory: "+d)
	}
	c.r.State("outdir " + v)
}

// trim drops what does not belong to the history (git, the module files).
func trim(s Snap) Snap {
	m := Snap{}
	for k, v := range s {
		if strings.HasPrefix(k, ".git/") || k == "go.sum" || k == "go.mod" {
			continue
		}
		m[k] = v
	}
	return m
}

// sgRefused: argument combinations that would mix generated files into the plugin.
func sgRefused(c *Ctx, v string) {
	p := c.r.newProj()
	defer p.Close()
	p.Write("rec/rec.go", recSrc)
	for k, s := range sgSources(sgPlugins[0], 0) {
		p.Write("src/aa/"+k, s)
	}
	p.Write("afile", "x")
	args := map[string][]string{
		"itself":               {"build", "--staticLinking", "src/aa", "src/aa/"},
		"below":                {"build", "--staticLinking", "src/aa", "src/aa/sub"},
		"missing":              {"build", "--staticLinking", "src/aa", "nowhere"},
		"file":                 {"build", "--staticLinking", "src/aa", "afile"},
		"clean without static": {"build", "--clean", "src/aa", "src"},
	}[v]
	before := trim(snapDir(p.Root))
	x := p.Hotswap(runOpt{}, args...)
	c.r.Count("cli_runs", 1)
	c.r.Transition()
	if x.Exit == 0 {
		c.violate([]string{"C20"}, "accepted: "+strings.Join(args, " "))
	}
	if d := before.Diff(trim(snapDir(p.Root))); d != "" {
		c.violate([]string{"C20"}, "a refused command changes files: "+d)
	}
}
