package h

import (
	"fmt"
	"strings"
	"time"

	"github.com/edwingeng/hotswap"
	"verif.local/mc/rt"
)

// The twin suite: two swappers in one process. Each has a world, a reference model and a ledger of
// its own, and every step of either is judged as if the other did not exist.

func init() {
	register(&Suite{Name: "twin", Props: []string{"C26"}, Mode: rt.Seq, CrashTags: []string{"C26"}, HangTags: []string{"C26", "C23"}, Run: runTwin})
	register(&Suite{Name: "oddpanic", Props: []string{"C12", "C11"}, Mode: rt.Seq, CrashTags: []string{"C12", "C11"}, HangTags: []string{"C12", "C23"}, Run: runOddPanic})
}

const (
	twinOwnDirs   = iota // a directory each, plugins of the same names
	twinSharedDir        // one directory, disjoint whitelists
	twinModes
)

var twinModeNames = []string{"own", "shared"}

type twinWorld struct {
	*World
	base, dep string // the plugins: dep depends on base
	ver       int
}

func (t *twinWorld) spec(name string) *Spec {
	t.ver++
	s := &Spec{UID: fmt.Sprintf("%s%s%d", t.mark, name, t.ver), Funcs: []string{"live_f_" + name}, Types: []string{"Live_T_" + name}}
	if name == t.dep {
		s.Deps = []Dep{{Field: strings.ToUpper(t.base)}}
	}
	return s
}

func twins(w *World, mode int) (*twinWorld, *twinWorld) {
	w2 := newWorld(w.c)
	w.moreDirs = append(w.moreDirs, w2.Dir)
	w.mark, w2.mark = "A", "B"
	w.peer = w2
	a := &twinWorld{World: w, base: "a", dep: "b"}
	b := &twinWorld{World: w2, base: "a", dep: "b"}
	oa, ob := Opts{CB1: true, Delay: 20 * time.Second}, Opts{CB1: true, Delay: 50 * time.Second}
	if mode == twinSharedDir {
		w2.Dir = w.Dir
		b.base, b.dep = "c", "d"
		oa.Whitelist, ob.Whitelist = []string{"a", "b"}, []string{"c", "d"}
		w.only, w2.only = map[string]bool{"a": true, "b": true}, map[string]bool{"c": true, "d": true}
	}
	w.extraTags, w2.extraTags = []string{"C26"}, []string{"C26"}
	w.NewSwapper(oa)
	w2.NewSwapper(ob)
	for _, t := range []*twinWorld{a, b} {
		t.Put(t.base, t.spec(t.base))
		t.Put(t.dep, t.spec(t.dep))
	}
	return a, b
}

// what one swapper can be made to do
const (
	twNew  = iota // both plugins rebuilt
	twSame        // nothing rebuilt, the files are touched
	twDep         // the dependent plugin rebuilt
	twBase        // the dependency rebuilt alone: the reload fails
	twFail        // both rebuilt, OnInit of the dependent one fails
	twCB          // both rebuilt, the callback panics
	twOps
)

var twNames = []string{"new", "same", "dep", "base!", "init!", "cb!"}

// step performs an operation; a fresh correct file follows a failure.
func (t *twinWorld) step(op int) *Attempt {
	kind := "ReloadCB"
	if t.M.Cur == nil {
		kind = "Load"
	}
	cb1, cb2 := CB{Present: true}, CB{Present: true}
	put := func(name string, f func(s *Spec)) {
		s := t.spec(name)
		if f != nil {
			f(s)
		}
		t.Put(name, s)
	}
	touch := func(name string) { t.PutRaw(name+".so", t.content(t.Files()[name])) }
	switch op {
	case twNew:
		put(t.base, nil)
		put(t.dep, nil)
	case twSame:
		touch(t.base)
		touch(t.dep)
	case twDep:
		put(t.dep, nil)
	case twBase:
		put(t.base, nil)
	case twFail:
		put(t.base, nil)
		put(t.dep, func(s *Spec) { s.Faults = map[string]int{"OnInit": FErr} })
	case twCB:
		put(t.base, nil)
		put(t.dep, nil)
		if kind == "Load" {
			cb1.Fault = FPanicStr
		} else {
			cb2.Fault = FPanicStr
		}
	}
	a := t.Do(kind, t.mark+twNames[op], cb1, cb2, "C01", "C26")
	if a.Err != nil {
		put(t.base, nil)
		put(t.dep, nil)
	}
	return a
}

// quiet checks that nothing has happened to a swapper since its last step.
func (t *twinWorld) quiet(evs int, label string) {
	var want *hotswap.PluginManager
	if t.M.Cur != nil {
		want = t.M.Cur.PM
	}
	if t.SW.Current() != want {
		t.Violate([]string{"C01"}, "%s: the current manager of %s changed", label, t.mark)
	}
	var cnt int64
	if n := len(t.Attempts); n > 0 {
		cnt = t.Attempts[n-1].cnt1
	}
	if t.SW.ReloadCounter() != cnt {
		t.Violate([]string{"C14"}, "%s: the counter of %s is %d instead of %d", label, t.mark, t.SW.ReloadCounter(), cnt)
	}
	for _, e := range t.Evs[evs:] {
		t.Violate([]string{"C07"}, "%s: the operation of the other swapper called %s of %s", label, e.Kind, t.mark)
	}
	t.checkRetired(label)
	t.Ledger(label)
}

func runTwin(r *Runner) {
	depth := 4
	if r.Thorough() {
		depth = 5
	}
	r.Bound("swappers", "2 in one process; a directory each and plugins of the same names, or one directory and disjoint whitelists; free delays of 20 s and 50 s")
	r.Bound("words", "every word of length %d over {either swapper} x {rebuild all, touch, rebuild the dependent, rebuild the dependency alone (fails), failing OnInit, panicking callback} and pauses of 18 s and 40 s", depth-1)
	r.Bound("nested", "every plugin function and callback of one swapper (first load, reload, failing reload with its frees, delayed frees, InvokeEach) x every operation of the other, a first load and a static load performed in it")
	// words
	alpha := 2*twOps + 2
	n := 1
	for i := 0; i < depth-1; i++ {
		n *= alpha
	}
	for mode := 0; mode < twinModes; mode++ {
		for m := 0; m < n; m++ {
			word := make([]int, depth-1)
			y := m
			for i := range word {
				word[i] = y % alpha
				y /= alpha
			}
			var names []string
			for _, o := range word {
				switch {
				case o < twOps:
					names = append(names, "A"+twNames[o])
				case o < 2*twOps:
					names = append(names, "B"+twNames[o-twOps])
				default:
					names = append(names, fmt.Sprintf("p%d", o-2*twOps))
				}
			}
			r.Case(fmt.Sprintf("twin/%s/%s", twinModeNames[mode], strings.Join(names, ",")), func(c *Ctx) {
				Seq(c, []string{"C26", "C23"}, func(w *World) {
					a, b := twins(w, mode)
					a.step(twSame)
					for i, o := range word {
						label := fmt.Sprintf("step %d (%s)", i+1, names[i])
						switch {
						case o < twOps:
							n := len(b.Evs)
							a.step(o)
							b.quiet(n, label)
						case o < 2*twOps:
							n := len(a.Evs)
							b.step(o - twOps)
							a.quiet(n, label)
						default:
							d := []time.Duration{18 * time.Second, 40 * time.Second}[o-2*twOps]
							time.Sleep(d)
							a.Pause(0, label)
							b.Pause(0, label)
						}
					}
					a.Retire("end")
					b.Retire("end")
					a.Ledger("end")
					b.c.r.Res.Events += int64(len(b.Evs))
				})
			})
		}
	}
	// nested
	inner := twOps + 2 // the operations, a first load, a static load
	iname := func(k int) string {
		switch k {
		case twOps:
			return "first"
		case twOps + 1:
			return "static"
		}
		return twNames[k]
	}
	type where struct {
		outer string // what A is doing
		phase string
	}
	var places []where
	for _, ph := range []string{"Reloadable", "Export", "Import", "OnLoad", "LiveFuncs", "LiveTypes", "OnInit", "CB1"} {
		places = append(places, where{"load", ph}, where{"reload", ph}, where{"static", ph})
	}
	places = append(places, where{"reload", "CB2"}, where{"fail", "OnFree"}, where{"retire", "OnFree"}, where{"invoke", "Invoke"})
	for mode := 0; mode < twinModes; mode++ {
		for _, p := range places {
			for k := 0; k < inner; k++ {
				p, k := p, k
				r.Case(fmt.Sprintf("twin/nested/%s/%s/%s/%s", twinModeNames[mode], p.outer, p.phase, iname(k)), func(c *Ctx) {
					Seq(c, []string{"C26", "C23"}, func(w *World) {
						a, b := twins(w, mode)
						if k != twOps && k != twOps+1 {
							b.step(twSame)
						}
						if k == twOps+1 {
							w2 := newWorld(c)
							w.moreDirs = append(w.moreDirs, w2.Dir)
							w2.mark = "B"
							w2.extraTags = []string{"C26"}
							w2.NewSwapper(Opts{CB1: true, Static: map[string]*hotswap.StaticPlugin{"a": w2.StaticPlugin("a", &Spec{UID: "Bsa"}), "b": w2.StaticPlugin("b", &Spec{UID: "Bsb", Deps: []Dep{{Field: "A"}}})}})
							b = &twinWorld{World: w2, base: "a", dep: "b"}
						}
						times := 0
						armed := false
						inside := func() {
							if !armed || times >= 2 { // both plugins
								return
							}
							times++
							if k == twOps+1 {
								if times == 1 {
									b.Do("Load", "Bstatic", CB{Present: true}, CB{}, "C15", "C26")
								}
								return
							}
							if k == twOps {
								b.step(twSame)
								return
							}
							b.step(k)
						}
						a.EnterHook = func(phase string, in *Instance) {
							if phase == p.phase {
								inside()
							}
						}
						a.CBHook = func(which string, n, o *hotswap.PluginManager) {
							if which == p.phase {
								inside()
							}
						}
						// the other way round nothing is seen of what is going on
						b.EnterHook = func(phase string, in *Instance) {
							if cur := a.SW.Current(); cur != nil && a.M.Cur != nil && cur != a.M.Cur.PM {
								a.Violate([]string{"C02"}, "a manager that is not complete is current")
							}
						}
						switch p.outer {
						case "load":
							armed = true
							a.step(twSame)
						case "static":
							a.only = nil
							sa := map[string]*hotswap.StaticPlugin{"a": a.StaticPlugin("a", &Spec{UID: "Asa"}), "b": a.StaticPlugin("b", &Spec{UID: "Asb", Deps: []Dep{{Field: "A"}}})}
							a.NewSwapper(Opts{CB1: true, Static: sa})
							armed = true
							a.Do("Load", "Astatic", CB{Present: true}, CB{}, "C15", "C26")
						case "reload":
							a.step(twSame)
							armed = true
							a.step(twNew)
						case "fail":
							a.step(twSame)
							armed = true
							a.step(twFail)
						case "retire":
							a.step(twSame)
							a.step(twNew)
							armed = true
							a.Retire("retire")
						case "invoke":
							a.step(twSame)
							armed = true
							n0 := len(a.Evs)
							a.SW.Current().InvokeEach("x")
							cnt := 0
							for _, e := range a.Evs[n0:] {
								if e.Kind == "Invoke" && !e.End {
									cnt++
								}
							}
							if cnt != 2 {
								a.Violate([]string{"C11"}, "InvokeEach reached %d of 2 plugins", cnt)
							}
						}
						if times == 0 {
							a.Violate([]string{"HARNESS"}, "the place was never reached")
						}
						armed = false
						b.Ledger("afterwards")
						if p.outer != "static" {
							a.step(twDep)
						}
						if k != twOps+1 {
							b.step(twDep)
						}
						a.Retire("end")
						b.Retire("end")
						a.Ledger("end")
					})
				})
			}
		}
	}
}

// runOddPanic: panic values that are awkward to print or to compare, raised in every place.
func runOddPanic(r *Runner) {
	r.Bound("values", "%d panic values that are awkward to print or compare: nil pointers, values whose String or Error method panics, wrapped ones, slices, functions, empty and format-like strings", len(oddPanics))
	r.Bound("places", "every plugin function and callback, in a first load, a reload and a static load; OnFree in a failed attempt and delayed; InvokeFunc")
	phases := []string{"Reloadable", "Export", "Import", "OnLoad", "LiveFuncs", "LiveTypes", "OnInit", "OnFree", "CB1", "CB2", "Invoke"}
	s := Shape{2, 1 << 2} // b depends on a
	for _, kind := range oddPanics {
		for _, ph := range phases {
			for who := 0; who < 2; who++ {
				for _, how := range []string{"load", "reload", "static"} {
					if strings.HasPrefix(ph, "CB") && who > 0 || ph == "CB2" && how != "reload" {
						continue
					}
					kind, ph, who, how := kind, ph, who, how
					r.Case(fmt.Sprintf("oddpanic/%s/%s/%s/%s", faultNames[kind], ph, pname(who), how), func(c *Ctx) {
						Seq(c, []string{"C12", "C23"}, func(w *World) { oddPanic(w, s, kind, ph, who, how) })
					})
				}
			}
		}
	}
}

func oddPanic(w *World, s Shape, kind int, ph string, who int, how string) {
	mk := func(ver int, faulty bool) []*Spec {
		var a []*Spec
		for i := 0; i < 2; i++ {
			sp := s.spec(i, ver)
			if faulty {
				switch {
				case i == who && ph == "Invoke":
					sp.Invoke = kind
				case i == who && !strings.HasPrefix(ph, "CB"):
					sp.Faults = map[string]int{ph: kind}
				}
				if ph == "OnFree" && how == "load" && i == 1 {
					if sp.Faults == nil {
						sp.Faults = map[string]int{}
					}
					sp.Faults["OnInit"] = FErr // so that the attempt frees them
				}
			}
			a = append(a, sp)
		}
		return a
	}
	cb := CB{Present: true}
	bad := cb
	bad.Fault = kind
	cb1, cb2 := cb, CB{}
	if ph == "CB1" {
		cb1 = bad
	}
	if ph == "CB2" {
		cb2 = bad
	}
	invoke := func(back bool) {
		pm := w.SW.Current()
		if pm == nil {
			return
		}
		n0, e0 := len(w.Evs), len(w.Log.errs())
		if back {
			pm.InvokeEachBackward("x")
		} else {
			pm.InvokeEach("x")
		}
		cnt := 0
		for _, e := range w.Evs[n0:] {
			if e.Kind == "Invoke" && !e.End {
				cnt++
			}
		}
		if cnt != 2 {
			w.Violate([]string{"C11"}, "%d of 2 plugins were invoked", cnt)
		}
		if ph == "Invoke" && len(w.Log.errs()) == e0 {
			w.Violate([]string{"C11"}, "a panic of InvokeFunc was not reported to the logger")
		}
	}
	if how == "static" {
		st := map[string]*hotswap.StaticPlugin{}
		for i, sp := range mk(1, true) {
			st[pname(i)] = w.StaticPlugin(pname(i), sp)
		}
		w.NewSwapper(Opts{CB1: true, Static: st})
		w.Do("Load", "x", cb1, CB{}, "C15", "C12")
		invoke(false)
		invoke(true)
		return
	}
	w.NewSwapper(Opts{CB1: true, Delay: 20 * time.Second})
	ver := 1
	if how == "reload" {
		for i, sp := range mk(ver, false) {
			w.Put(pname(i), sp)
		}
		w.Do("Load", "x", cb, CB{}, "C01")
		ver++
	}
	for i, sp := range mk(ver, true) {
		w.Put(pname(i), sp)
	}
	k := "Load"
	if how == "reload" {
		k = "ReloadCB"
	}
	w.Do(k, "x", cb1, cb2, "C01", "C12")
	invoke(false)
	invoke(true)
	// the swapper still works
	for i, sp := range mk(ver+1, false) {
		w.Put(pname(i), sp)
	}
	w.Do("Reload", "x", cb, CB{}, "C01", "C12")
	w.Retire("end")
}
