package h

import (
	"errors"
	"fmt"
	"time"

	"github.com/edwingeng/hotswap"
	"verif.local/mc/rt"
)

// The options suite: how a swapper was configured, and what it is given, must not matter beyond what
// the options say. Every order of the options x given twice (the later one counts) x present or given
// without a value x static or dynamic, each run through a short life. And every kind of data value.

func init() {
	register(&Suite{Name: "options", Props: []string{"C03", "C07", "C10", "C13", "C14"}, Mode: rt.Seq,
		CrashTags: []string{"C07", "C12"}, HangTags: []string{"C23", "C12"}, Run: runOptions})
}

func runOptions(r *Runner) {
	r.Bound("options", "all 720 orders of the six options x {with values, without} x {once, twice} x {dynamic, static}")
	for _, perm := range permutations(6) {
		for k := 0; k < 8; k++ {
			static, decoys, nils := k&1 != 0, k&2 != 0, k&4 != 0
			perm := perm
			r.Case(fmt.Sprintf("options/%v/static%v/decoys%v/nils%v", perm, static, decoys, nils), func(c *Ctx) {
				Seq(c, []string{"C23"}, func(w *World) { optionCase(w, perm, static, decoys, nils) })
			})
		}
	}
	dataCases(r)
}

func optionCase(w *World, perm []int, static, decoys, nils bool) {
	o := Opts{Order: perm, Decoys: decoys, Nils: nils}
	mk := func(i, ver int) *Spec { return Shape{2, 1 << 2}.spec(i, ver) } // b imports a
	if nils {
		o.NoExt = true
	} else {
		o.CB1, o.Delay = true, 17*time.Second
	}
	if static {
		st := map[string]*hotswap.StaticPlugin{}
		for i := 0; i < 2; i++ {
			st[pname(i)] = w.StaticPlugin(pname(i), mk(i, 1))
		}
		o.Static = st
		w.NewSwapper(o)
		if !w.SW.StaticLinkingMode() {
			w.Violate([]string{"C15"}, "StaticLinkingMode() is false in static mode")
		}
		w.staticReload("before the load")
		w.Do("Load", "o", CB{Present: !nils}, CB{}, "C13", "C15")
		w.staticReload("after the load")
		return
	}
	for i := 0; i < 2; i++ {
		w.Put(pname(i), mk(i, 1))
	}
	if !nils {
		o.Whitelist = []string{"a", "b"}
		w.only = map[string]bool{"a": true, "b": true}
		w.Put("c", &Spec{UID: "c1"})
	}
	w.NewSwapper(o)
	if w.SW.StaticLinkingMode() {
		w.Violate([]string{"C15"}, "StaticLinkingMode() is true without static plugins")
	}
	cb := CB{Present: !nils}
	w.Do("Load", "o", cb, CB{}, "C13")
	for i := 0; i < 2; i++ {
		w.Put(pname(i), mk(i, 2))
	}
	w.Do("Reload", "o", cb, CB{}, "C13")
	if !nils {
		for i := 0; i < 2; i++ {
			w.Put(pname(i), mk(i, 3))
		}
		w.Do("Reload", "o", CB{Present: true, Fault: FErr}, CB{}, "C13")
	}
	w.Pause(w.Delay-time.Nanosecond, "just before the free delay")
	w.Pause(time.Nanosecond, "at the free delay")
	for i := 0; i < 2; i++ {
		w.Put(pname(i), mk(i, 4))
	}
	w.Do("ReloadCB", "o", cb, CB{Present: true}, "C13")
	w.Retire("end")
}

type dataStruct struct {
	A int
	B []string
}

func dataValues() []struct {
	name string
	v    any
} {
	var np *dataStruct
	var ne error
	var nm map[string]int
	var ns []int
	var nf func()
	var nc chan int
	type nv = struct {
		name string
		v    any
	}
	return []nv{
		{"nil", nil}, {"nil error", ne}, {"typed nil", np}, {"nil map", nm}, {"nil slice", ns}, {"nil func", nf}, {"nil chan", nc},
		{"false", false}, {"zero", 0}, {"empty string", ""}, {"string", "x"}, {"int", 42}, {"float", 1.5}, {"duration", time.Hour},
		{"struct", struct{ X, Y int }{1, 2}}, {"uncomparable struct", dataStruct{1, []string{"x"}}}, {"pointer", &dataStruct{A: 3}},
		{"pointer to nil", &np}, {"pointer to interface", new(any)}, {"slice", []int{1, 2}}, {"empty slice", []int{}}, {"slice of any", []any{1, nil}}, {"array", [2]int{1, 2}},
		{"array of slices", [1][]int{{1}}}, {"map", map[string]int{"a": 1}}, {"func", func() {}}, {"chan", make(chan int)}, {"error", errors.New("data")},
		{"panicking error", &badErr{"data"}}, {"nil Stringer", (*strPtr)(nil)}, {"panicking Stringer", badStr{"data"}}, {"percent", "%!s(%d)%"}, {"itself", selfRef()},
	}
}

// selfRef is a value that contains itself: printing or copying it deeply never ends.
func selfRef() any {
	m := map[string]any{}
	m["self"] = m
	return m
}

func dataCases(r *Runner) {
	n := len(dataValues())
	r.Bound("data", fmt.Sprintf("%d kinds of data values x {load, reload, reload with callback, failing reload, static load}", n))
	for x := 0; x < n; x++ {
		x := x
		r.Case("data/"+dataValues()[x].name, func(c *Ctx) {
			Seq(c, []string{"C23", "C07"}, func(w *World) {
				w.NewSwapper(Opts{CB1: true})
				mk := func(i, ver int) *Spec { return Shape{2, 1 << 2}.spec(i, ver) }
				put := func(ver int, f map[string]int) {
					for i := 0; i < 2; i++ {
						sp := mk(i, ver)
						sp.Faults = f
						w.Put(pname(i), sp)
					}
				}
				cb := CB{Present: true}
				put(1, map[string]int{"OnLoad": FErr})
				w.Do("Load", dataValues()[x].v, cb, CB{}, "C07")
				put(2, nil)
				w.Do("Load", dataValues()[x].v, cb, CB{}, "C07")
				w.Do("Reload", dataValues()[x].v, cb, CB{}, "C07")
				put(3, nil)
				w.Do("Reload", dataValues()[x].v, cb, CB{}, "C07")
				put(4, map[string]int{"OnInit": FPanicStr})
				w.Do("ReloadCB", dataValues()[x].v, cb, cb, "C07")
				put(5, nil)
				w.Do("ReloadCB", dataValues()[x].v, cb, cb, "C07")
				put(6, map[string]int{"Export": FPanicErr})
				w.Do("Reload", dataValues()[x].v, cb, CB{}, "C07")
				w.Retire("end")
			})
			Seq(c, []string{"C23", "C07"}, func(w *World) {
				st := map[string]*hotswap.StaticPlugin{}
				for i := 0; i < 2; i++ {
					st[pname(i)] = w.StaticPlugin(pname(i), Shape{2, 1 << 2}.spec(i, 1))
				}
				w.NewSwapper(Opts{CB1: true, Static: st})
				w.Do("Load", dataValues()[x].v, CB{Present: true}, CB{}, "C07", "C15")
			})
		})
	}
}
