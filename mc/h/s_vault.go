package h

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"verif.local/mc/rt"
)

func init() {
	register(&Suite{Name: "vault", Props: []string{"C10"}, Mode: rt.Seq, CrashTags: []string{"C10", "C12"}, HangTags: []string{"C23"}, Run: runVault})
	register(&Suite{Name: "invoke", Props: []string{"C11"}, Mode: rt.Seq, CrashTags: []string{"C11"}, HangTags: []string{"C11"}, Run: runInvoke})
	register(&Suite{Name: "callbacks", Props: []string{"C14"}, Mode: rt.Seq, CrashTags: []string{"C12"}, HangTags: []string{"C23"}, Run: runCallbacks})
	register(&Suite{Name: "missing", Props: []string{"C22"}, Mode: rt.Seq, CrashTags: []string{"C22", "C12"}, HangTags: []string{"C23"}, Run: runMissing})
}

// runVault: every assignment of live names to three plugins.
func runVault(r *Runner) {
	fn := []string{"live_F", "live_f"}
	tn := []string{"live_F", "Live_T"}
	pick := func(names []string, m int) []string {
		var a []string
		for i, n := range names {
			if m>>uint(i)&1 == 1 {
				a = append(a, n)
			}
		}
		return a
	}
	r.Bound("assignments", "every subset of 2 function names and 2 type names (differing in case only, or shared between both registries) for each of 3 plugins = 4096")
	r.Bound("modes", "first load; reload with a kept; reload with a and b kept; reload with everything rebuilt; static; without extension creator; registries of a nil map")
	for m := 0; m < 4096; m++ {
		for mode := 0; mode < 6; mode++ {
			if mode == 5 && m%16 != 0 && !r.Thorough() {
				continue
			}
			r.Case(fmt.Sprintf("vault/%03x/mode%d", m, mode), func(c *Ctx) {
				Seq(c, []string{"C23"}, func(w *World) {
					shape := Shape{3, []uint64{0, 1 << 3, 1<<3 | 1<<7}[m%3]}
					mk := func(i, ver int) *Spec {
						b := m >> uint(4*i) & 15
						return &Spec{UID: fmt.Sprintf("%s%d", pname(i), ver), Deps: shape.deps(i), Funcs: pick(fn, b&3), Types: pick(tn, b>>2)}
					}
					clean := func(i, ver int) *Spec { return &Spec{UID: fmt.Sprintf("%s%d", pname(i), ver), Deps: shape.deps(i)} }
					tags := []string{"C10", "C01"}
					switch mode {
					case 0, 5:
						w.NewSwapper(Opts{NoExt: mode == 5})
						for i := 0; i < 3; i++ {
							w.Put(pname(i), mk(i, 1))
						}
						w.Do("Load", 0, CB{}, CB{}, tags...)
					case 1, 2, 3:
						w.NewSwapper(Opts{})
						// first load with what is going to be kept; the others without live names
						for i := 0; i < 3; i++ {
							if i < mode && mode != 3 {
								w.Put(pname(i), mk(i, 1))
							} else {
								w.Put(pname(i), clean(i, 1))
							}
						}
						w.Do("Load", 0, CB{}, CB{}, tags...)
						if w.M.Cur != nil {
							// what the user puts into the bag stays with that manager
							w.M.Cur.PM.DataBag["user"] = 1
							bag := w.M.Cur.PM.DataBag
							for i := 0; i < 3; i++ {
								if i >= mode || mode == 3 {
									w.Put(pname(i), mk(i, 2))
								}
							}
							w.Do("Reload", 0, CB{}, CB{}, tags...)
							if bag["user"] != 1 || len(bag) != 4 {
								w.Violate([]string{"C10"}, "the data bag of the previous manager was changed: %v", sortedKeys(bag))
							}
							// and back again
							for i := 0; i < 3; i++ {
								w.Put(pname(i), clean(i, 3))
							}
							w.Do("Reload", 0, CB{}, CB{}, tags...)
						}
					case 4:
						st := map[string]*hotswap.StaticPlugin{}
						for i := 0; i < 3; i++ {
							st[pname(i)] = w.StaticPlugin(pname(i), mk(i, 1))
						}
						w.NewSwapper(Opts{Static: st})
						w.Do("Load", 0, CB{}, CB{}, "C10", "C15")
					}
					w.Retire("end")
				})
			})
		}
	}
	// OnInit functions that replace the fields of the vault
	r.Bound("writers", "every DAG on <=3 plugins x every subset of plugins whose OnInit replaces Extension, DataBag, LiveFuncs or LiveTypes x first load / partly kept / static")
	for n := 1; n <= 3; n++ {
		for _, s := range shapes(n, false, true) {
			for set := 1; set < 1<<uint(n); set++ {
				for what := 0; what < 4; what++ {
					for mode := 0; mode < 3; mode++ {
						r.Case(fmt.Sprintf("writers/%v/set%03b/what%d/mode%d", s, set, what, mode), func(c *Ctx) { vaultWriters(c, s, set, what, mode) })
					}
				}
			}
		}
	}
}

// vaultWriters: what one OnInit puts into the vault is seen by the later ones and in the manager.
func vaultWriters(c *Ctx, s Shape, set, what, mode int) {
	Seq(c, []string{"C23"}, func(w *World) {
		w.vaultSet = true
		type mark struct{ v any }
		var last any
		tags := []string{"C10"}
		if mode == 2 {
			tags = append(tags, "C15")
		}
		read := func(v *vault.Vault) any {
			switch what {
			case 0:
				return v.Extension
			case 1:
				return reflect.ValueOf(v.DataBag).Pointer()
			case 2:
				return reflect.ValueOf(v.LiveFuncs).Pointer()
			}
			return reflect.ValueOf(v.LiveTypes).Pointer()
		}
		hook := func(i int) func(in *Instance, v *vault.Vault) {
			return func(in *Instance, v *vault.Vault) {
				if last != nil && read(v) != last {
					w.Violate(tags, "OnInit of %s does not see what an earlier OnInit put into the vault", in)
				}
				if set>>uint(i)&1 == 0 {
					return
				}
				switch what {
				case 0:
					v.Extension = &Ext{N: 1000 + i, Attempt: w.attempt}
				case 1:
					m := map[string]interface{}{}
					for k, x := range v.DataBag {
						m[k] = x
					}
					v.DataBag = m
				case 2:
					m := map[string]interface{}{}
					for k, x := range v.LiveFuncs {
						m[k] = x
					}
					v.LiveFuncs = m
				case 3:
					m := map[string]func() interface{}{}
					for k, x := range v.LiveTypes {
						m[k] = x
					}
					v.LiveTypes = m
				}
				last = read(v)
			}
		}
		mk := func(i, ver int) *Spec {
			sp := s.spec(i, ver)
			sp.OnInitHook = hook(i)
			return sp
		}
		check := func(when string) {
			pm := w.SW.Current()
			if pm != nil && last != nil && read(&pm.Vault) != last {
				w.Violate(tags, "%s: what an OnInit put into the vault is not in the vault of the manager", when)
			}
		}
		if mode == 2 {
			st := map[string]*hotswap.StaticPlugin{}
			for i := 0; i < s.N; i++ {
				st[pname(i)] = w.StaticPlugin(pname(i), mk(i, 1))
			}
			w.NewSwapper(Opts{Static: st})
			w.Do("Load", 0, CB{}, CB{}, "C10", "C15")
			check("static load")
			return
		}
		w.NewSwapper(Opts{})
		for i := 0; i < s.N; i++ {
			w.Put(pname(i), mk(i, 1))
		}
		w.Do("Load", 0, CB{}, CB{}, "C10")
		check("first load")
		if mode == 1 {
			for v := 0; v < s.N; v++ {
				last = nil
				for i := range s.dependents(v) {
					w.Put(pname(i), mk(i, 2+v))
				}
				w.Do("Reload", 0, CB{}, CB{}, "C10")
				check("reload")
			}
		}
	})
}

// runInvoke: every assignment of behaviours of InvokeFunc to up to 4 plugins.
func runInvoke(r *Runner) {
	kinds := []int{NoFault, FErr, FPanicStr, FPanicErr, FPanicNilDeref}
	maxN := 4
	if r.Thorough() {
		kinds = append(kinds, FPanicCustom, FPanicInt)
	}
	params := [][]interface{}{nil, {}, {nil}, {1, "two", []int{3}}, {[]interface{}{1, 2}}, {map[string]int{"x": 1}, nil, 2.5}}
	r.Bound("plugins", "1..%d", maxN)
	r.Bound("behaviours", "every assignment of {ok, error, panic(string), panic(error), nil dereference}; every failure with a text of its own, and all with the same text and called twice")
	for n := 1; n <= maxN; n++ {
		tot := 1
		for i := 0; i < n; i++ {
			tot *= len(kinds)
		}
		for m := 0; m < tot; m++ {
			for mode := 0; mode < 4; mode++ { // first load; partly kept; retired manager; static
				shapesOf := []uint64{0}
				if n > 1 {
					shapesOf = append(shapesOf, 1<<uint(n)) // b depends on a
				}
				if n > 2 {
					shapesOf = append(shapesOf, 1<<1|1<<uint(n+2)) // a>b>c
				}
				for _, smt := range append(shapesOf, 1<<63) {
					sm, text := smt, ""
					if smt == 1<<63 { // all failures look alike
						sm, text = 0, "the same"
					}
					id := fmt.Sprintf("invoke/%d/%d/mode%d/shape%d%s", n, m, mode, sm, text)
					r.Case(id, func(c *Ctx) {
						Seq(c, []string{"C11"}, func(w *World) {
							s := Shape{n, sm}
							beh := make([]int, n)
							y := m
							for i := range beh {
								beh[i] = kinds[y%len(kinds)]
								y /= len(kinds)
							}
							mk := func(i, ver int) *Spec {
								sp := s.spec(i, ver)
								sp.Funcs, sp.Types = nil, nil
								sp.Invoke, sp.InvokeText = beh[i], text
								return sp
							}
							switch mode {
							case 3:
								st := map[string]*hotswap.StaticPlugin{}
								for i := 0; i < n; i++ {
									st[pname(i)] = w.StaticPlugin(pname(i), mk(i, 1))
								}
								w.NewSwapper(Opts{Static: st})
								w.Do("Load", 0, CB{}, CB{}, "C11")
							default:
								w.NewSwapper(Opts{})
								for i := 0; i < n; i++ {
									w.Put(pname(i), mk(i, 1))
								}
								w.Do("Load", 0, CB{}, CB{}, "C11")
							}
							pm := w.SW.Current()
							if pm == nil {
								return
							}
							if mode == 1 || mode == 2 {
								// a replacement of everything that can be replaced alone
								for i := n - 1; i >= 0; i-- {
									w.Put(pname(i), mk(i, 2))
									if mode == 1 {
										break
									}
								}
								w.Do("Reload", 0, CB{}, CB{})
								if mode == 1 {
									pm = w.SW.Current()
								} else {
									w.Retire("retired")
								}
							}
							ps := params[m%len(params)]
							for _, back := range []bool{false, true} {
								w.invokeCheck(pm, back, fmt.Sprintf("call%d", m), ps)
								if text != "" {
									w.invokeCheck(pm, back, fmt.Sprintf("call%d", m), ps)
								}
							}
						})
					})
				}
			}
		}
	}
	// InvokeFuncs that themselves call InvokeEach, InvokeEachBackward or Plugins
	r.Bound("nested", "every DAG on <=3 plugins x every plugin that calls InvokeEach, InvokeEachBackward and Plugins of its manager from its InvokeFunc, then returns normally or panics")
	for n := 1; n <= 3; n++ {
		for _, s := range shapes(n, false, true) {
			for who := 0; who < n; who++ {
				for _, f := range []int{NoFault, FPanicStr} {
					for mode := 0; mode < 2; mode++ {
						r.Case(fmt.Sprintf("nested/%v/%d/fault%d/mode%d", s, who, f, mode), func(c *Ctx) { invokeNested(c, s, who, f, mode) })
					}
				}
			}
		}
	}
}

func invokeNested(c *Ctx, s Shape, who, fault, mode int) {
	Seq(c, []string{"C11"}, func(w *World) {
		var pm *hotswap.PluginManager
		var want []string
		list := func() []string {
			var a []string
			for _, p := range pm.Plugins() {
				a = append(a, p.Name)
			}
			return a
		}
		inner := 0
		specs := map[string]*Spec{}
		for i := 0; i < s.N; i++ {
			sp := s.spec(i, 1)
			if i == who {
				sp.InvokeHook = func(in *Instance, name string, params []interface{}) {
					if name != "outer" {
						return
					}
					for k, back := range []bool{false, true, false} {
						inner++
						n0 := len(w.Evs)
						if got := list(); !sameStrings(got, want) {
							w.Violate([]string{"C05", "C11"}, "within an InvokeFunc, Plugins() lists %v instead of %v", got, want)
						}
						if back {
							pm.InvokeEachBackward("inner", k)
						} else {
							pm.InvokeEach("inner", k)
						}
						var got []string
						for _, e := range w.Evs[n0:] {
							if e.Kind == "Invoke" && !e.End {
								got = append(got, e.Inst.Name)
							}
						}
						if back {
							for i, j := 0, len(got)-1; i < j; i, j = i+1, j-1 {
								got[i], got[j] = got[j], got[i]
							}
						}
						if !sameStrings(got, want) {
							w.Violate([]string{"C05", "C11"}, "within an InvokeFunc, the plugins are invoked in the order %v (backward: %v) instead of %v", got, back, want)
						}
					}
					if fault != NoFault {
						doPanic(fault, "nested")
					}
				}
			}
			specs[pname(i)] = sp
		}
		if mode == 1 {
			st := map[string]*hotswap.StaticPlugin{}
			for i := 0; i < s.N; i++ {
				st[pname(i)] = w.StaticPlugin(pname(i), specs[pname(i)])
			}
			w.NewSwapper(Opts{Static: st})
		} else {
			w.NewSwapper(Opts{})
			for i := 0; i < s.N; i++ {
				w.Put(pname(i), specs[pname(i)])
			}
		}
		w.Do("Load", 0, CB{}, CB{}, "C11")
		pm = w.SW.Current()
		if pm == nil {
			return
		}
		want = list()
		for _, back := range []bool{false, true} {
			inner = 0
			n0 := len(w.Evs)
			func() {
				defer func() {
					if x := recover(); x != nil {
						w.Violate([]string{"C11"}, "a panic escapes: %v", x)
					}
				}()
				if back {
					pm.InvokeEachBackward("outer")
				} else {
					pm.InvokeEach("outer")
				}
			}()
			var got []string
			for _, e := range w.Evs[n0:] {
				if e.Kind == "Invoke" && !e.End && e.Arg.(invokeArgs).Name == "outer" {
					got = append(got, e.Inst.Name)
				}
			}
			if back {
				for i, j := 0, len(got)-1; i < j; i, j = i+1, j-1 {
					got[i], got[j] = got[j], got[i]
				}
			}
			if !sameStrings(got, want) || inner != 3 {
				w.Violate([]string{"C11", "C05"}, "the outer call (backward: %v) invokes %v instead of %v, inner calls: %d", back, got, want, inner)
			}
			if after := list(); !sameStrings(after, want) {
				w.Violate([]string{"C11", "C05"}, "Plugins() is %v instead of %v after the call", after, want)
			}
		}
	})
}

func (w *World) invokeCheck(pm *hotswap.PluginManager, back bool, name string, ps []interface{}) {
	n0 := len(w.Evs)
	l0 := len(w.Log.errs())
	label := "InvokeEach"
	if back {
		label = "InvokeEachBackward"
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				w.Violate([]string{"C11"}, "%s panics: %v", label, x)
			}
		}()
		if back {
			pm.InvokeEachBackward(name, ps...)
		} else {
			pm.InvokeEach(name, ps...)
		}
	}()
	calls := map[*Instance]int{}
	for _, e := range w.Evs[n0:] {
		if e.Kind == "Invoke" && !e.End {
			calls[e.Inst]++
			a := e.Arg.(invokeArgs)
			if a.Name != name || fmt.Sprintf("%#v", []interface{}(a.Params)) != fmt.Sprintf("%#v", ps) && !(len(a.Params) == 0 && len(ps) == 0) {
				w.Violate([]string{"C11"}, "%s: InvokeFunc of %s received (%q, %v) instead of (%q, %v)", label, e.Inst, a.Name, a.Params, name, ps)
			}
		}
	}
	logs := strings.Join(w.Log.errs()[l0:], "\n")
	reports := map[string]int{}
	for _, p := range pm.Plugins() {
		in := InstOf(p)
		if in == nil {
			continue
		}
		if calls[in] != 1 {
			w.Violate([]string{"C11"}, "%s called InvokeFunc of %s %d times", label, in, calls[in])
		}
		delete(calls, in)
		where := in.Spec.invokeText()
		switch f := in.Spec.Invoke; {
		case f == FErr:
			reports["injected error "+where]++
		case isPanic(f):
			reports[panicText(f, where)]++
		}
	}
	for text, n := range reports {
		if got := strings.Count(logs, text); got < n {
			w.Violate([]string{"C11"}, "%s: %d plugins fail with %q, but it was reported to the logger %d times", label, n, text, got)
		}
	}
	for in := range calls {
		w.Violate([]string{"C11"}, "%s called InvokeFunc of %s which is not part of the manager", label, in)
	}
}

// runCallbacks: sequences of attempts of every kind with every outcome of both callbacks.
func runCallbacks(r *Runner) {
	type op struct {
		kind     string
		c1, c2   int
		cb2      bool
		initFail bool
		empty    bool
		same     bool
	}
	var ops []op
	fk := []int{NoFault, FErr, FPanicStr}
	for _, k := range []string{"Load", "Reload", "ReloadCB"} {
		for _, f1 := range fk {
			ops = append(ops, op{kind: k, c1: f1})
			if k == "ReloadCB" {
				for _, f2 := range fk {
					ops = append(ops, op{kind: k, c1: f1, c2: f2, cb2: true})
				}
			}
		}
		ops = append(ops, op{kind: k, initFail: true, cb2: k == "ReloadCB"}, op{kind: k, empty: true, cb2: k == "ReloadCB"}, op{kind: k, same: true, cb2: k == "ReloadCB"})
	}
	depth := 3
	r.Bound("sequences", "all sequences of %d attempts out of %d (LoadPlugins, Reload, ReloadWithCallback with and without callback; both callbacks ok/error/panic; failing OnInit; empty directory; nothing rebuilt), with and without configured callback", depth, len(ops))
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(ops)
	}
	for m := 0; m < n; m++ {
		for _, has := range []bool{true, false} {
			seq := make([]op, depth)
			y := m
			skip := false
			for i := range seq {
				seq[i] = ops[y%len(ops)]
				y /= len(ops)
				if !has && seq[i].c1 != NoFault {
					skip = true
				}
			}
			if skip {
				continue
			}
			r.Case(fmt.Sprintf("callbacks/%d/cb1=%v", m, has), func(c *Ctx) {
				Seq(c, []string{"C23"}, func(w *World) {
					w.NewSwapper(Opts{CB1: has})
					here := false
					failed := false
					for i, o := range seq {
						c.Desc("%+v", o)
						switch {
						case o.empty:
							if here {
								w.Del("a")
								here = false
							}
						case o.same && here && !failed:
						default:
							sp := &Spec{UID: fmt.Sprintf("a%d", i)}
							if o.initFail {
								sp.Faults = map[string]int{"OnInit": FErr}
							}
							w.Put("a", sp)
							here = true
						}
						a := w.Do(o.kind, i, CB{Present: true, Fault: o.c1}, CB{Present: o.cb2, Fault: o.c2}, "C14", "C01")
						failed = a.Err != nil
						if i == 1 {
							w.Pause(minDelay, "pause")
						}
					}
					w.Retire("end")
				})
			})
		}
	}
}

// runMissing: every subset of the required functions.
func runMissing(r *Runner) {
	r.Bound("subsets", "all 512 subsets of the 9 required functions x dynamic first load / reload / static x alone, with a complete plugin before or after it")
	for m := 0; m < 1<<len(required); m++ {
		miss := map[string]bool{}
		for i, s := range required {
			if m>>uint(i)&1 == 1 {
				miss[s] = true
			}
		}
		for mode := 0; mode < 3; mode++ {
			for other := 0; other < 3; other++ {
				r.Case(fmt.Sprintf("missing/%03x/mode%d/other%d", m, mode, other), func(c *Ctx) {
					Seq(c, []string{"C23"}, func(w *World) {
						var a *Attempt
						sp := &Spec{UID: "m1", Missing: miss}
						oname := []string{"", "aa", "zz"}[other]
						if mode == 2 {
							st := map[string]*hotswap.StaticPlugin{"mm": w.StaticPlugin("mm", sp)}
							if oname != "" {
								st[oname] = w.StaticPlugin(oname, &Spec{UID: "o1"})
							}
							w.NewSwapper(Opts{Static: st})
							a = w.Do("Load", 0, CB{}, CB{}, "C22", "C15")
						} else {
							w.NewSwapper(Opts{})
							if oname != "" {
								w.Put(oname, &Spec{UID: "o1"})
							}
							kind := "Load"
							if mode == 1 {
								w.Put("mm", &Spec{UID: "m0"})
								w.Do("Load", 0, CB{}, CB{}, "C22")
								kind = "Reload"
							}
							w.Put("mm", sp)
							a = w.Do(kind, 0, CB{}, CB{}, "C22")
						}
						if len(miss) > 0 && a.Err != nil {
							msg := a.Err.Error()
							for _, s := range required {
								if hasWord(msg, s) != miss[s] {
									w.Violate([]string{"C22"}, "missing are %v but the error names others: %s", sortedKeys(miss), firstLine(a.Err))
									break
								}
							}
						}
						for _, e := range w.Evs {
							if e.Inst != nil && e.Inst.Spec == sp && e.Kind != "Open" && len(miss) > 0 {
								w.Violate([]string{"C22"}, "%s of a plugin lacking %v was called", e.Kind, sortedKeys(miss))
								break
							}
						}
					})
				})
			}
		}
	}
	// wrong types: the symbol exists but has another type
	for m := 1; m < 1<<len(required); m++ {
		if !r.Thorough() && popcount(m) > 2 {
			continue
		}
		wrong := map[string]bool{}
		for i, s := range required {
			if m>>uint(i)&1 == 1 {
				wrong[s] = true
			}
		}
		for variant := 0; variant < len(wrongSyms()); variant++ {
			r.Case(fmt.Sprintf("wrong/%03x/variant%d", m, variant), func(c *Ctx) {
				Seq(c, []string{"C23"}, func(w *World) {
					w.NewSwapper(Opts{})
					w.Put("a", &Spec{UID: "a1"})
					w.Do("Load", 0, CB{}, CB{}, "C22")
					sp := &Spec{UID: "a2", Wrong: wrong, Syms: map[string]any{}}
					for s := range wrong {
						sp.Syms[s] = wrongSyms()[variant]
					}
					w.Put("a", sp)
					w.Do("Reload", 0, CB{}, CB{}, "C22")
					for _, e := range w.Evs {
						if e.Inst != nil && e.Inst.Spec == sp && e.Kind != "Open" {
							w.Violate([]string{"C22"}, "%s of a plugin with wrongly typed %v was called", e.Kind, sortedKeys(wrong))
							break
						}
					}
				})
			})
		}
	}
}

func wrongSyms() []any {
	x := 1
	var f func(int) bool
	return []any{
		func(a, b, c int) string { return "" },
		func(x interface{}) {},
		func() int { return 0 },
		&x,
		&f,
		func() error { return nil },
	}
}

func popcount(m int) int {
	n := 0
	for ; m > 0; m &= m - 1 {
		n++
	}
	return n
}

func hasWord(s, w string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], w)
		if j < 0 {
			return false
		}
		j += i
		before := j == 0 || !isIdent(s[j-1])
		after := j+len(w) == len(s) || !isIdent(s[j+len(w)])
		if before && after {
			return true
		}
		i = j + 1
	}
}

func isIdent(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}
