package h

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/edwingeng/hotswap"
	"verif.local/mc/rt"
)

func init() {
	register(&Suite{Name: "names", Props: []string{"C13"}, Mode: rt.Seq,
		CrashTags: []string{"C13", "C12"}, HangTags: []string{"C23"}, Run: runNames})
}

// directory entries: kind f = file, d = directory
type dent struct{ name, kind string }

var entPool = []dent{
	{"a.so", "f"}, {"A.so", "f"}, {"b.so", "f"}, {"Bee.so", "f"}, {"a.b.so", "f"}, {"x.so.bak", "f"}, {"y.SO", "f"}, {"z.txt", "f"},
	{"dir.so", "d"}, {"tmp", "d"}, {"noext", "f"}, {"so", "f"}, {"aso", "f"}, {"with space.so", "f"}, {"Größe.so", "f"}, {"xa.so", "f"}, {"9.so", "f"},
}

var oddNames = []string{
	"_a", "a_", "-a", "--a", "a-b", ".a", "..a", "...", "a.", "~a", "a~", "#a#", "$a", "${a}", "a$b", "%a", "%s", "a%20b", "*", "a*", "?", "[a]", "[", "{a,b}", "a,b", "a;b", "a=b", "a:b", "a&b", "a|b", "a!b", "'a'", "\"a\"", "`a`", "(a)", "<a>",
	"a\\b", "a\nb", "\ta", " a", "a ", "  ", "a.so", "so", ".so", "a.so.so", "lib", "liba", "main", "plugin", "hotswap", "tmp", "test", "a_test", "x_linux", "x_linux_amd64", "x_windows", "init", "nil", "vendor", "testdata", "internal", "go", "a.go", "a.1", "1.0", "0", "007", "-1",
	"日本", "\u00e9", "e\u0301", "\U0001F600", "\ufeffa", "a\u200b", "\xffa", "CON", "nul", "a-0xdeadbeef", strings.Repeat("long", 50),
}

var whitelists = [][]string{
	nil, {}, {"a"}, {"A"}, {"a", "a"}, {"a", "b"}, {"b", "a", "Bee"}, {"bee"}, {"Bee"}, {"missing"}, {"a", "missing"}, {"a.so"}, {"dir"}, {"y"}, {"a.b"}, {"x.so"}, {"z"}, {"b", "b", "a"},
	{"with space"}, {""}, {"a", "A"}, {"noext"}, {"z.txt"}, {"Größe"}, {"xa"}, {"dir.so"},
}

// wantSelected: what the specification selects; fail: the load must fail before anything is opened.
func wantSelected(ents []dent, wl []string) (sel []string, fail string) {
	for _, e := range ents {
		if e.kind == "f" && strings.HasSuffix(e.name, ".so") {
			sel = append(sel, strings.TrimSuffix(e.name, ".so"))
		}
	}
	return applyWhitelist(sel, wl)
}

func applyWhitelist(names []string, wl []string) (sel []string, fail string) {
	sel = names
	if len(wl) > 0 {
		have := map[string]bool{}
		for _, s := range sel {
			have[s] = true
		}
		in := map[string]bool{}
		for _, x := range wl {
			if !have[x] {
				return nil, "whitelisted plugin " + x + " has no file"
			}
			in[x] = true
		}
		var r []string
		for _, s := range sel {
			if in[s] {
				r = append(r, s)
			}
		}
		sel = r
	}
	keys := map[string]bool{}
	for _, s := range sel {
		k := strings.ToLower(s)
		if keys[k] {
			return nil, "two names differ only in letter case"
		}
		keys[k] = true
	}
	sort.Strings(sel)
	return sel, ""
}

// DoSel performs an attempt whose selection is given by the suite.
func (w *World) DoSel(kind string, sel []string, fail string, files map[string]string, unexp ...string) *Attempt {
	a := w.begin(kind, "sel", CB{Present: true}, CB{})
	a.unexpFail = unexp
	if fail != "" {
		a.Exp = &Expect{Stage: "select", Why: fail, Kept: map[string]string{}, New: map[string]string{}, NewUID: map[string]string{}, MissingSyms: map[string]bool{}}
		if strings.Contains(fail, "letter case") {
			a.Exp.Stage = "dup"
		}
	} else {
		m := map[string]string{}
		for _, s := range sel {
			m[s] = files[s]
		}
		a.Exp = w.Predict(kind, CB{Present: true}, CB{}, m, nil)
	}
	w.run(a)
	if fail != "" {
		for _, ev := range a.evs(w) {
			if ev.Kind != "OnFree" && ev.Kind != "newExt" {
				w.Violate([]string{"C13"}, "attempt %d must fail without loading anything (%s) but %s happened", a.N, fail, ev.Kind)
				break
			}
		}
	}
	w.judge(a)
	return a
}

func (w *World) mkEnts(dir string, ents []dent, ver int) map[string]string {
	files := map[string]string{}
	for _, e := range ents {
		f := filepath.Join(dir, e.name)
		if e.kind == "d" {
			if err := os.MkdirAll(f, 0755); err != nil {
				panic(err)
			}
			// a plugin file one level deeper is not directly inside
			_ = os.WriteFile(filepath.Join(f, "deep.so"), w.content("deep"), 0644)
			continue
		}
		base := strings.TrimSuffix(e.name, ".so")
		sp := &Spec{UID: fmt.Sprintf("%s-%d", strings.ReplaceAll(e.name, "\n", ""), ver), Name: base}
		w.AddSpec(sp)
		if err := os.WriteFile(f, w.content(sp.UID), 0644); err != nil {
			panic(err)
		}
		files[base] = sp.UID
	}
	return files
}

// checkFind: every plugin is found under any letter case, nothing else is.
func (w *World) checkFind(sel []string, label string) {
	pm := w.SW.Current()
	if pm == nil {
		return
	}
	in := map[string]string{}
	for _, s := range sel {
		in[strings.ToLower(s)] = s
	}
	if len(pm.Plugins()) != len(sel) {
		w.Violate([]string{"C13"}, "%s: %d plugins loaded, %d selected", label, len(pm.Plugins()), len(sel))
	}
	probe := func(q string) {
		p := pm.FindPlugin(q)
		want, ok := in[strings.ToLower(q)]
		switch {
		case ok && p == nil:
			w.Violate([]string{"C13"}, "%s: FindPlugin(%q) finds nothing, %s is loaded", label, q, want)
		case ok && InstOf(p) != nil && InstOf(p).Name != want:
			w.Violate([]string{"C13"}, "%s: FindPlugin(%q) finds %s instead of %s", label, q, p.Name, want)
		case !ok && p != nil:
			w.Violate([]string{"C13"}, "%s: FindPlugin(%q) finds %s", label, q, p.Name)
		}
	}
	for _, e := range entPool {
		b := strings.TrimSuffix(e.name, ".so")
		for _, q := range []string{b, strings.ToLower(b), strings.ToUpper(b), e.name, strings.Title(b), "/" + b, b + " "} {
			probe(q)
		}
	}
	probe("")
	probe("deep")
	probe("tmp")
}

func runNames(r *Runner) {
	maxN := 3
	if r.Thorough() {
		maxN = 4
	}
	r.Bound("directories", "every subset of up to %d of %d entry kinds (upper/lower case, other suffixes, directories, dots, spaces, non-ASCII)", maxN, len(entPool))
	r.Bound("whitelists", "%d whitelists per directory: unset, empty, missing, duplicate, other case, with suffix", len(whitelists))
	var subsets [][]int
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		subsets = append(subsets, append([]int(nil), cur...))
		if len(cur) == maxN {
			return
		}
		for i := from; i < len(entPool); i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	for _, sub := range subsets {
		var ents []dent
		var names []string
		for _, i := range sub {
			ents = append(ents, entPool[i])
			names = append(names, entPool[i].name)
		}
		for wi, wl := range whitelists {
			id := fmt.Sprintf("names/%v/wl%d%v", names, wi, wl)
			r.Case(id, func(c *Ctx) {
				Seq(c, []string{"C23"}, func(w *World) {
					w.NewSwapper(Opts{CB1: true, Whitelist: wl})
					files := w.mkEnts(w.Dir, ents, 1)
					sel, fail := wantSelected(ents, wl)
					a := w.DoSel("Load", sel, fail, files, "C13")
					if a.Err == nil && len(sel) > 0 {
						w.checkFind(sel, "load")
					}
					// the same again as a reload: everything unchanged, then with the directory emptied
					a = w.DoSel("Reload", sel, fail, files, "C13", "C08")
					if a.Err == nil && len(sel) > 0 {
						w.checkFind(sel, "reload")
					}
					_ = os.RemoveAll(w.Dir)
					a = w.DoSel("Reload", nil, "the directory is gone", nil)
					if err := os.MkdirAll(w.Dir, 0755); err != nil {
						panic(err)
					}
					if len(wl) > 0 {
						w.DoSel("Reload", nil, "whitelisted plugin has no file", nil)
					} else {
						w.DoSel("Reload", nil, "", nil, "C13")
					}
				})
			})
		}
	}
	// names that look as if they meant something
	r.Bound("odd names", "%d names that look special, alone and beside another plugin, with and without a whitelist", len(oddNames))
	for _, odd := range oddNames {
		for _, other := range []string{"", "a", "x" + odd, odd + "x"} {
			for _, wl := range [][]string{nil, {odd}, {odd, other}} {
				if len(wl) == 2 && other == "" {
					continue
				}
				r.Case(fmt.Sprintf("odd/%q/%q/%d", odd, other, len(wl)), func(c *Ctx) {
					Seq(c, []string{"C23"}, func(w *World) {
						w.NewSwapper(Opts{CB1: true, Whitelist: wl})
						ents := []dent{{odd + ".so", "f"}}
						if other != "" {
							ents = append(ents, dent{other + ".so", "f"})
						}
						for ver, kind := range []string{"Load", "Reload", "Reload"} {
							files := map[string]string{}
							if ver < 2 {
								files = w.mkEnts(w.Dir, ents, ver+1)
							} else {
								for _, e := range ents {
									files[strings.TrimSuffix(e.name, ".so")] = strings.ReplaceAll(e.name, "\n", "") + "-2"
								}
							}
							sel, fail := wantSelected(ents, wl)
							a := w.DoSel(kind, sel, fail, files, "C13")
							if a.Err == nil {
								w.checkFind(sel, kind)
							}
						}
						w.Retire("end")
					})
				})
			}
		}
	}
	// renames: what was loaded as one name comes back in another letter case
	for _, from := range []string{"a.so", "A.so", "Bee.so", "bee.so"} {
		for _, to := range []string{"a.so", "A.so", "BEE.so", "bee.so"} {
			for _, same := range []bool{false, true} {
				for _, nr := range []bool{false, true} {
					id := fmt.Sprintf("rename/%s/%s/same=%v/nr=%v", from, to, same, nr)
					r.Case(id, func(c *Ctx) {
						Seq(c, []string{"C23"}, func(w *World) {
							w.NewSwapper(Opts{})
							f := strings.TrimSuffix(from, ".so")
							t := strings.TrimSuffix(to, ".so")
							if same && !strings.EqualFold(f, t) {
								return // the same bytes under another name: Go refuses, see DESIGN
							}
							sp := &Spec{UID: "v1", NonReloadable: nr}
							w.Put(f, sp)
							w.Do("Load", 0, CB{}, CB{}, "C13")
							w.Del(f)
							if same {
								w.PutRaw(to, w.content("v1"))
							} else {
								w.Put(t, &Spec{UID: "v2"})
							}
							w.Do("Reload", 0, CB{}, CB{}, "C13", "C08")
							w.Put("other", &Spec{UID: "o1"})
							w.Do("Reload", 0, CB{}, CB{}, "C13", "C08")
						})
					})
				}
			}
		}
	}
	// unusable and alternative directories
	dirs := []struct {
		name string
		bad  bool
		mk   func(w *World) string
	}{
		{"missing", true, func(w *World) string { return filepath.Join(w.Dir, "nope") }},
		{"file", true, func(w *World) string { w.PutRaw("plain", []byte("x")); return filepath.Join(w.Dir, "plain") }},
		{"sofile", true, func(w *World) string { return filepath.Join(w.Dir, "a.so") }},
		{"empty", true, func(w *World) string { return "" }},
		{"blank", true, func(w *World) string { return "  " }},
		{"nested", true, func(w *World) string { return filepath.Join(w.Dir, "a.so", "x") }},
		{"slash", false, func(w *World) string { return w.Dir + "/" }},
		{"dot", false, func(w *World) string { return w.Dir + "/./../" + filepath.Base(w.Dir) }},
		{"relative", false, func(w *World) string {
			wd, err := os.Getwd()
			if err != nil {
				panic(err)
			}
			rel, err := filepath.Rel(wd, w.Dir)
			if err != nil {
				panic(err)
			}
			return rel
		}},
	}
	for _, d := range dirs {
		for _, loaded := range []bool{false, true} {
			for _, kind := range []string{"Load", "Reload"} {
				id := fmt.Sprintf("dir/%s/loaded=%v/%s", d.name, loaded, kind)
				r.Case(id, func(c *Ctx) {
					Seq(c, []string{"C23"}, func(w *World) {
						w.NewSwapper(Opts{CB1: true})
						w.Put("a", &Spec{UID: "a1"})
						if loaded {
							w.Do("Load", 0, CB{Present: true}, CB{}, "C13")
							w.Put("b", &Spec{UID: "b1"})
						}
						w.SW.ResetPluginDir(d.mk(w))
						if d.bad {
							w.DoSel(kind, nil, "unusable directory", nil)
							w.SW.ResetPluginDir(w.Dir)
						}
						w.Do(kind, 0, CB{Present: true}, CB{}, "C13")
					})
				})
			}
		}
	}
	// static mode
	pool := []string{"a", "A", "b", "Bee", "x.y", "9"}
	swl := [][]string{nil, {}, {"a"}, {"A"}, {"a", "a"}, {"b", "Bee"}, {"missing"}, {"a", "missing"}, {"a", "A"}, {"bee"}}
	for m := 0; m < 1<<len(pool); m++ {
		for wi, wl := range swl {
			id := fmt.Sprintf("static/%06b/wl%d%v", m, wi, wl)
			r.Case(id, func(c *Ctx) {
				Seq(c, []string{"C23"}, func(w *World) {
					st := map[string]*hotswap.StaticPlugin{}
					var names []string
					for i, n := range pool {
						if m>>uint(i)&1 == 1 {
							st[n] = w.StaticPlugin(n, &Spec{UID: "s" + n})
							names = append(names, n)
						}
					}
					w.NewSwapper(Opts{CB1: true, Static: st, Whitelist: wl})
					sel, fail := applyWhitelist(names, wl)
					a := w.begin("Load", "sel", CB{Present: true}, CB{})
					a.unexpFail = []string{"C13", "C15"}
					if fail != "" {
						a.Exp = &Expect{Stage: "select", Why: fail, Kept: map[string]string{}, New: map[string]string{}, NewUID: map[string]string{}, MissingSyms: map[string]bool{}}
						if strings.Contains(fail, "letter case") {
							a.Exp.Stage = "dup"
						}
					} else {
						insts := map[string]*Instance{}
						for _, in := range w.Insts {
							for _, s := range sel {
								if in.Name == s {
									insts[s] = in
								}
							}
						}
						if len(sel) == 0 {
							return // nothing to load statically: not specified
						}
						a.Exp = w.Predict("Load", CB{Present: true}, CB{}, nil, insts)
					}
					w.run(a)
					if fail != "" {
						for _, ev := range a.evs(w) {
							if ev.Kind == "newExt" {
								continue // no plugin is involved
							}
							w.Violate([]string{"C13", "C15"}, "a static load must fail without loading anything (%s) but %s of %v happened", fail, ev.Kind, ev.Inst)
							break
						}
					}
					w.judge(a)
					if a.Err == nil {
						w.checkFind2(sel)
					}
				})
			})
		}
	}
}

func (w *World) checkFind2(sel []string) {
	pm := w.SW.Current()
	for _, s := range sel {
		for _, q := range []string{s, strings.ToLower(s), strings.ToUpper(s)} {
			if p := pm.FindPlugin(q); p == nil || InstOf(p) == nil || InstOf(p).Name != s {
				w.Violate([]string{"C13", "C15"}, "static: FindPlugin(%q) does not find %s", q, s)
			}
		}
	}
	if len(pm.Plugins()) != len(sel) {
		w.Violate([]string{"C13", "C15"}, "static: %d plugins loaded, %d selected", len(pm.Plugins()), len(sel))
	}
}
