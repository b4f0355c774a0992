package h

import (
	"fmt"
	"sort"
	"strings"

	"github.com/edwingeng/hotswap"
	"verif.local/mc/rt"
)

func init() {
	register(&Suite{Name: "static", Props: []string{"C15"}, Mode: rt.Seq, CrashTags: []string{"C15", "C12"}, HangTags: []string{"C15", "C23"}, Run: runStatic})
}

type runTrace struct {
	ok     bool
	calls  []string // multiset of plugin function calls outside of OnFree
	frees  []string
	order  []string // what Plugins() lists, when successful
	links  []string
	vaultF []string
	vaultT []string
	err    string
	det    []string
	cbs    int
}

func (w *World) trace(a *Attempt) runTrace {
	t := runTrace{ok: a.Err == nil}
	for _, e := range a.evs(w) {
		if e.Inst == nil || e.End {
			continue
		}
		switch e.Kind {
		case "Open", "LiveFuncs", "LiveTypes":
		case "OnFree":
			t.frees = append(t.frees, e.Inst.Name)
		default:
			t.calls = append(t.calls, e.Kind+"/"+e.Inst.Name)
		}
	}
	sort.Strings(t.calls)
	sort.Strings(t.frees)
	if a.Err != nil {
		t.err = a.Err.Error()
	}
	t.cbs = len(w.CBSeen) - a.cb0
	if pm := w.SW.Current(); t.ok && pm != nil {
		for _, p := range pm.Plugins() {
			t.order = append(t.order, p.Name)
			if in := InstOf(p); in != nil {
				for k, v := range in.Links() {
					n := "<nil>"
					if v != nil {
						n = v.Name
					}
					t.links = append(t.links, p.Name+"."+k+"="+n)
				}
			}
		}
		sort.Strings(t.links)
		sort.Strings(t.order)
		t.vaultF, t.vaultT = sortedKeys(pm.Vault.LiveFuncs), sortedKeys(pm.Vault.LiveTypes)
		for f, v := range a.Details {
			t.det = append(t.det, baseOf(f)+":"+v)
		}
		sort.Strings(t.det)
	}
	return t
}

// staticPair loads the same specification dynamically and statically and compares.
func staticPair(c *Ctx, mk func() map[string]*Spec, c1 CB, data any) {
	var dyn runTrace
	n0 := len(c.viol)
	Seq(c, []string{"C12", "C23"}, func(w *World) {
		w.NewSwapper(Opts{CB1: true})
		for n, s := range mk() {
			w.Put(n, s)
		}
		dyn = w.trace(w.Do("Load", data, c1, CB{}))
		w.Retire("end")
	})
	Seq(c, []string{"C15", "C23"}, func(w *World) {
		st := map[string]*hotswap.StaticPlugin{}
		specs := mk()
		names := sortedKeys(specs)
		if len(c.viol) == n0 {
			// the dynamic load is as it should be: whatever is wrong with the static one is a difference
			w.extraTags = []string{"C15"}
		}
		for _, n := range names {
			st[n] = w.StaticPlugin(n, specs[n])
		}
		w.NewSwapper(Opts{CB1: true, Static: st})
		if !w.SW.StaticLinkingMode() {
			w.Violate([]string{"C15"}, "StaticLinkingMode() is false in static mode")
		}
		w.staticReload("before the load")
		a := w.Do("Load", data, c1, CB{}, "C15")
		s := w.trace(a)
		if s.ok != dyn.ok {
			w.Violate([]string{"C15"}, "the static load succeeds: %v, the dynamic load of the same plugins succeeds: %v (%s / %s)", s.ok, dyn.ok, firstWords(s.err), firstWords(dyn.err))
		} else if s.ok {
			cmp := func(what string, x, y []string) {
				if !sameStrings(x, y) {
					w.Violate([]string{"C15"}, "%s differ: static %v, dynamic %v", what, x, y)
				}
			}
			cmp("the plugin function calls", s.calls, dyn.calls)
			cmp("the plugins", s.order, dyn.order)
			cmp("the links", s.links, dyn.links)
			cmp("the live functions", s.vaultF, dyn.vaultF)
			cmp("the live types", s.vaultT, dyn.vaultT)
			cmp("the details", s.det, dyn.det)
			cmp("the OnFree calls", s.frees, dyn.frees)
		}
		if s.cbs != dyn.cbs {
			w.Violate([]string{"C15", "C14"}, "the static load called the callback %d times, the dynamic one %d times", s.cbs, dyn.cbs)
		}
		w.staticReload("after the load")
		w.Retire("end")
		w.staticReload("much later")
	})
}

// staticReload: Reload and ReloadWithCallback are refused without any effect.
func (w *World) staticReload(when string) {
	cur := w.snapshot(w.SW.Current())
	cnt := w.SW.ReloadCounter()
	n0 := len(w.Evs)
	cb := 0
	for k := 0; k < 3; k++ {
		var d hotswap.Details
		var err error
		func() {
			defer func() {
				if x := recover(); x != nil {
					w.Violate([]string{"C15", "C12"}, "%s: a reload in static mode panics: %v", when, x)
				}
			}()
			switch k {
			case 0:
				d, err = w.SW.Reload(1)
			case 1:
				d, err = w.SW.ReloadWithCallback(1, nil)
			case 2:
				d, err = w.SW.ReloadWithCallback(1, func(n, o *hotswap.PluginManager) error { cb++; return nil })
			}
		}()
		if err == nil {
			w.Violate([]string{"C15"}, "%s: reload variant %d succeeds in static mode (%v)", when, k, d)
		}
	}
	if cb != 0 {
		w.Violate([]string{"C15", "C14"}, "%s: a reload in static mode called the callback", when)
	}
	for _, e := range w.Evs[n0:] {
		if e.Kind != "Invoke" {
			w.Violate([]string{"C15"}, "%s: a reload in static mode called %s of %v", when, e.Kind, e.Inst)
			break
		}
	}
	if w.SW.ReloadCounter() != cnt {
		w.Violate([]string{"C15", "C14"}, "%s: a refused reload changed the counter", when)
	}
	if d := cur.diff(w.snapshot(w.SW.Current())); d != "" {
		w.Violate([]string{"C15"}, "%s: a refused reload changed the current manager: %s", when, d)
	}
}

func runStatic(r *Runner) {
	r.Bound("graphs", "all labelled digraphs on 1..3 plugins (self loops on up to 2), every export kind of one plugin, every non-reloadable subset")
	r.Bound("faults", "every fault position and kind on every DAG with up to 3 plugins; every fault together with every panicking OnFree for up to 2")
	for n := 1; n <= 3; n++ {
		for _, s := range shapes(n, n <= 2, false) {
			for nr := 0; nr < 1<<uint(n); nr++ {
				for _, ek := range []int{0, 1, 2, 3} {
					for _, cs := range []int{0, 1} {
						if n == 3 && cs == 1 && ek != 0 {
							continue
						}
						id := fmt.Sprintf("static/%v/nr%03b/export%d/case%d", s, nr, ek, cs)
						r.Case(id, func(c *Ctx) {
							staticPair(c, func() map[string]*Spec {
								m := map[string]*Spec{}
								for i := 0; i < n; i++ {
									sp := s.spec(i, 1)
									sp.NonReloadable = nr>>uint(i)&1 == 1
									if i == 0 {
										sp.ExportKind = ek
									}
									name := pname(i)
									if cs == 1 {
										name = strings.ToUpper(name)
									}
									m[name] = sp
								}
								return m
							}, CB{Present: true}, "data")
						})
					}
				}
			}
			if !s.Acyclic() {
				continue
			}
			var idx []int
			for i := 0; i < n; i++ {
				idx = append(idx, i)
			}
			for _, pos := range positions(idx, true, int(s.Mask), n <= 2 || r.Thorough()) {
				if pos.Phase == "Open" || pos.Phase == "Wrong" || pos.Phase == "CB2" {
					continue
				}
				fps := []int{-1}
				if n <= 2 || r.Thorough() {
					fps = append(fps, idx...)
				}
				for _, fp := range fps {
					id := fmt.Sprintf("staticfault/%v/%v/free%d", s, pos, fp)
					r.Case(id, func(c *Ctx) {
						c1, _ := pos.cbs(false)
						staticPair(c, func() map[string]*Spec {
							m := map[string]*Spec{}
							for i := 0; i < n; i++ {
								sp := s.spec(i, 1)
								if fp == i {
									sp.Faults = map[string]int{"OnFree": FPanicStr}
								}
								if pos.Plug == i && pos.Phase != "" {
									pos.apply(sp)
								}
								m[pname(i)] = sp
							}
							return m
						}, c1, "data")
					})
				}
			}
		}
	}
	// live name conflicts
	for m := 0; m < 256; m++ {
		r.Case(fmt.Sprintf("staticvault/%02x", m), func(c *Ctx) {
			staticPair(c, func() map[string]*Spec {
				sp := map[string]*Spec{}
				for i := 0; i < 2; i++ {
					b := m >> uint(4*i) & 15
					s := &Spec{UID: pname(i)}
					for j, f := range []string{"live_F", "live_f"} {
						if b>>uint(j)&1 == 1 {
							s.Funcs = append(s.Funcs, f)
						}
						if b>>uint(j+2)&1 == 1 {
							s.Types = append(s.Types, f)
						}
					}
					sp[pname(i)] = s
				}
				return sp
			}, CB{Present: true}, nil)
		})
	}
}
