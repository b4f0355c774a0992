package h

import (
	"fmt"
	"strings"

	"verif.local/mc/rt"
)

// Shape is a labelled dependency digraph on n plugins: bit i*n+j = plugin i depends on plugin j.
type Shape struct {
	N    int
	Mask uint64
}

func (s Shape) Dep(i, j int) bool { return s.Mask>>(uint(i*s.N+j))&1 == 1 }

func (s Shape) Acyclic() bool {
	color := make([]int, s.N)
	var f func(i int) bool
	f = func(i int) bool {
		if color[i] == 1 {
			return false
		}
		if color[i] == 2 {
			return true
		}
		color[i] = 1
		for j := 0; j < s.N; j++ {
			if s.Dep(i, j) && !f(j) {
				return false
			}
		}
		color[i] = 2
		return true
	}
	for i := 0; i < s.N; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func (s Shape) String() string {
	var a []string
	for i := 0; i < s.N; i++ {
		for j := 0; j < s.N; j++ {
			if s.Dep(i, j) {
				a = append(a, pname(i)+">"+pname(j))
			}
		}
	}
	return fmt.Sprintf("%d{%s}", s.N, strings.Join(a, " "))
}

func pname(i int) string { return string(rune('a' + i)) }
func fname(i int) string { return string(rune('A' + i)) }

// shapes lists all labelled digraphs on n nodes; self loops and cycles on demand.
func shapes(n int, self, dagOnly bool) []Shape {
	var pos []int
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j || self {
				pos = append(pos, i*n+j)
			}
		}
	}
	var r []Shape
	for m := uint64(0); m < 1<<uint(len(pos)); m++ {
		var mask uint64
		for b, p := range pos {
			if m>>uint(b)&1 == 1 {
				mask |= 1 << uint(p)
			}
		}
		s := Shape{n, mask}
		if !dagOnly || s.Acyclic() {
			r = append(r, s)
		}
	}
	return r
}

func (s Shape) deps(i int) []Dep {
	var d []Dep
	for j := 0; j < s.N; j++ {
		if s.Dep(i, j) {
			d = append(d, Dep{Field: fname(j), Kind: (i + j) % 3})
		}
	}
	return d
}

func (s Shape) spec(i, ver int) *Spec {
	return &Spec{UID: fmt.Sprintf("%s%d", pname(i), ver), Deps: s.deps(i), Funcs: []string{"live_f_" + pname(i)}, Types: []string{"Live_T_" + pname(i)}}
}

// What happens to a plugin between the first load and the attempt under test.
const (
	mixSame = iota // file unchanged
	mixNR          // running version not reloadable, file rebuilt
	mixRebuilt
	mixNew
	mixRemoved
	mixN
)

var mixNames = []string{"same", "nonrel", "rebuilt", "new", "removed"}

// Position is a place where a fault can be put.
type Position struct {
	Plug  int    // -1: callback
	Phase string // or CB1/CB2/Open/Missing/Wrong
	Kind  int
}

func (p Position) String() string {
	if p.Phase == "" {
		return "none"
	}
	if p.Plug < 0 {
		return p.Phase + "=" + faultNames[p.Kind]
	}
	return fmt.Sprintf("%s.%s=%s", pname(p.Plug), p.Phase, faultNames[p.Kind])
}

func kindsOf(phase string, rot int, all bool) []int {
	pk := []int{FPanicStr, FPanicErr, FPanicCustom, FPanicNilDeref, FPanicInt}
	p := []int{pk[rot%len(pk)]}
	if all {
		p = pk
	}
	switch phase {
	case "Reloadable", "Export", "Import":
		return p
	case "LiveFuncs", "LiveTypes":
		return append([]int{FNilMap}, p...)
	case "Open", "Missing", "Wrong":
		return []int{FErr}
	}
	return append([]int{FErr}, p...)
}

var faultPhases = []string{"Open", "Missing", "Wrong", "Reloadable", "Export", "Import", "OnLoad", "LiveFuncs", "LiveTypes", "OnInit"}

func (p Position) apply(s *Spec) {
	switch p.Phase {
	case "Open":
		s.OpenErr = true
	case "Missing":
		s.Missing = map[string]bool{"OnFree": true}
	case "Wrong":
		s.Wrong = map[string]bool{"Export": true}
	default:
		if s.Faults == nil {
			s.Faults = map[string]int{}
		}
		s.Faults[p.Phase] = p.Kind
	}
}

func positions(plugs []int, cb bool, rot int, all bool) []Position {
	r := []Position{{}}
	for _, i := range plugs {
		for _, ph := range faultPhases {
			for _, k := range kindsOf(ph, rot+i, all) {
				r = append(r, Position{i, ph, k})
			}
		}
	}
	if cb {
		for _, which := range []string{"CB1", "CB2"} {
			for _, k := range kindsOf(which, rot, all) {
				r = append(r, Position{-1, which, k})
			}
		}
	}
	return r
}

func (p Position) cbs(second bool) (CB, CB) {
	c1, c2 := CB{Present: true}, CB{Present: second}
	if p.Plug < 0 && p.Phase == "CB1" {
		c1.Fault = p.Kind
	}
	if p.Plug < 0 && p.Phase == "CB2" {
		c2.Fault = p.Kind
	}
	return c1, c2
}

var allLife = []string{"C01", "C04", "C07", "C12"}

func init() {
	register(&Suite{Name: "fault", Props: []string{"C01", "C03", "C04", "C05", "C07", "C08", "C09", "C12", "C14"}, Mode: rt.Seq,
		CrashTags: []string{"C12"}, HangTags: []string{"C12", "C23"}, Run: runFault})
	register(&Suite{Name: "faultpair", Props: []string{"C01", "C04", "C12"}, Mode: rt.Seq,
		CrashTags: []string{"C12"}, HangTags: []string{"C12", "C23"}, Run: runFaultPair})
	register(&Suite{Name: "panicpair", Props: []string{"C12", "C04", "C03"}, Mode: rt.Seq,
		CrashTags: []string{"C12"}, HangTags: []string{"C12", "C23"}, Run: runPanicPair})
}

// setupMix performs the first load so that the next attempt sees the wanted mix, and prepares the
// directory for it. It returns the indexes of the plugins the next attempt will load afresh.
func setupMix(w *World, s Shape, mix []int, freePanic int) []int {
	any := false
	var fresh []int
	for i, m := range mix {
		if m != mixNew {
			sp := s.spec(i, 1)
			sp.NonReloadable = m == mixNR
			if freePanic == i {
				sp.Faults = map[string]int{"OnFree": FPanicStr}
			}
			w.Put(pname(i), sp)
			any = true
		}
		if m == mixRebuilt || m == mixNew {
			fresh = append(fresh, i)
		}
	}
	if any {
		w.Do("Load", "d1", CB{Present: true}, CB{}, "C01")
	}
	for i, m := range mix {
		switch m {
		case mixNR:
			w.Put(pname(i), s.spec(i, 2))
		case mixRemoved:
			w.Del(pname(i))
		}
	}
	return fresh
}

func mixes(n int) [][]int {
	total := 1
	for i := 0; i < n; i++ {
		total *= mixN
	}
	var r [][]int
	for x := 0; x < total; x++ {
		m := make([]int, n)
		y := x
		for i := 0; i < n; i++ {
			m[i] = y % mixN
			y /= mixN
		}
		r = append(r, m)
	}
	return r
}

func mixString(m []int) string {
	var a []string
	for i, x := range m {
		a = append(a, pname(i)+":"+mixNames[x])
	}
	return strings.Join(a, ",")
}

// restricted drops nodes whose first load would be impossible: a plugin present at the first load
// must find its dependencies there, and a non-reloadable one must not depend on a reloadable one.
func mixPossible(s Shape, mix []int) bool {
	for i := range mix {
		if mix[i] == mixNew {
			continue
		}
		for j := range mix {
			if !s.Dep(i, j) {
				continue
			}
			if mix[j] == mixNew || (mix[i] == mixNR && mix[j] != mixNR) {
				return false
			}
		}
	}
	return true
}

// runFault: every fault position x every shape x every mix, single faults.
func runFault(r *Runner) {
	maxN := 3
	r.Bound("plugins", "1..%d, all labelled DAGs", maxN)
	r.Bound("mix", "every assignment of {unchanged, kept non-reloadable, rebuilt, new, removed} that can be loaded")
	r.Bound("faults", "every phase of every newly loaded plugin and both callbacks, error and panic")
	caseNo := 0
	for n := 1; n <= maxN; n++ {
		for _, s := range shapes(n, false, true) {
			for _, mix := range mixes(n) {
				if !mixPossible(s, mix) {
					continue
				}
				var fresh []int
				allNew := true
				for i, m := range mix {
					if m == mixRebuilt || m == mixNew {
						fresh = append(fresh, i)
					}
					if m != mixNew {
						allNew = false
					}
				}
				caseNo++
				for _, pos := range positions(fresh, true, caseNo, r.Thorough()) {
					// an additional OnFree panic: of no plugin, or of one of the plugins (old or new)
					fps := []int{-1}
					if n <= 2 || r.Thorough() || (len(fresh) > 1 && (pos.Phase == "OnInit" || pos.Phase == "CB1")) {
						for i := 0; i < n; i++ {
							fps = append(fps, i)
						}
					}
					for _, fp := range fps {
						id := fmt.Sprintf("fault/%v/%s/%v/freepanic%d", s, mixString(mix), pos, fp)
						r.Case(id, func(c *Ctx) {
							Seq(c, []string{"C12", "C23"}, func(w *World) {
								w.NewSwapper(Opts{CB1: true})
								setupMix(w, s, mix, fp)
								for _, i := range fresh {
									sp := s.spec(i, 3)
									if fp == i {
										sp.Faults = map[string]int{"OnFree": FPanicErr}
									}
									if pos.Plug == i && pos.Phase != "" {
										pos.apply(sp)
									}
									w.Put(pname(i), sp)
								}
								kind := "ReloadCB"
								if allNew {
									kind = "Load"
									if pos.Phase == "CB2" {
										kind = "ReloadCB"
									}
								}
								c1, c2 := pos.cbs(true)
								w.Do(kind, "d2", c1, c2, "C01", "C08")
								w.Pause(minDelay, "after the attempt under test")
								// everything rebuilt without faults: must succeed
								for i := 0; i < n; i++ {
									w.Put(pname(i), s.spec(i, 4))
								}
								w.Do("Reload", "d3", CB{Present: true}, CB{}, "C01", "C12")
								w.Retire("after the final reload")
							})
						})
					}
				}
			}
		}
	}
}

// runFaultPair: ordered pairs of faults across two consecutive attempts.
func runFaultPair(r *Runner) {
	r.Bound("plugins", "2; shapes: independent, chain")
	r.Bound("faults", "every ordered pair (first attempt, second attempt), first attempt a first load or a reload")
	for _, s := range []Shape{{2, 0}, {2, 1 << 2}, {2, 1 << 1}} {
		for first := 0; first < 3; first++ { // 0: nothing loaded before, 1: all rebuilt, 2: b kept
			ps := positions([]int{0, 1}, true, first, r.Thorough())
			for _, p1 := range ps {
				for _, p2 := range ps {
					id := fmt.Sprintf("faultpair/%v/first%d/%v/%v", s, first, p1, p2)
					r.Case(id, func(c *Ctx) {
						Seq(c, []string{"C12", "C23"}, func(w *World) {
							w.NewSwapper(Opts{CB1: true})
							ver := 1
							put := func(p Position, which ...int) {
								for _, i := range which {
									sp := s.spec(i, ver)
									if p.Plug == i && p.Phase != "" {
										p.apply(sp)
									}
									w.Put(pname(i), sp)
								}
								ver++
							}
							if first > 0 {
								put(Position{}, 0, 1)
								w.Do("Load", "d0", CB{Present: true}, CB{}, "C01")
							}
							for k, p := range []Position{p1, p2} {
								if first == 2 && !s.Dep(1, 0) {
									if p.Plug != 1 {
										put(p, 0)
									} else {
										put(p, 0, 1)
									}
								} else {
									put(p, 0, 1)
								}
								c1, c2 := p.cbs(true)
								kind := "ReloadCB"
								if first == 0 && k == 0 && p.Phase != "CB2" {
									kind = "Load"
								}
								w.Do(kind, k, c1, c2, "C01")
							}
							put(Position{}, 0, 1)
							w.Do("Reload", "final", CB{Present: true}, CB{}, "C01", "C12")
							w.Retire("end")
						})
					})
				}
			}
		}
	}
}

// runPanicPair: two panics at distinct places of one attempt, OnFree included, and panics in
// delayed frees.
func runPanicPair(r *Runner) {
	r.Bound("plugins", "3; chain and independent")
	r.Bound("panics", "every pair of distinct (plugin, function) or callback positions; delayed frees: every subset of panicking OnFree")
	type pt struct {
		plug  int
		phase string
	}
	var pts []pt
	for i := 0; i < 3; i++ {
		for _, ph := range []string{"Reloadable", "Export", "Import", "OnLoad", "LiveFuncs", "LiveTypes", "OnInit", "OnFree"} {
			pts = append(pts, pt{i, ph})
		}
	}
	pts = append(pts, pt{-1, "CB1"}, pt{-1, "CB2"})
	pk := []int{FPanicStr, FPanicErr, FPanicCustom, FPanicNilDeref, FPanicInt}
	chain := Shape{3, 1<<1 | 1<<5} // a>b, b>c
	caseNo := 0
	for _, s := range []Shape{{3, 0}, chain} {
		for _, reload := range []bool{false, true} {
			for i := range pts {
				for j := i; j < len(pts); j++ {
					caseNo++
					kinds := []int{pk[caseNo%5]}
					if r.Thorough() {
						kinds = pk
					}
					for _, kind := range kinds {
						id := fmt.Sprintf("panicpair/%v/reload=%v/%v/%v/%s", s, reload, pts[i], pts[j], faultNames[kind])
						r.Case(id, func(c *Ctx) {
							Seq(c, []string{"C12", "C23"}, func(w *World) {
								w.NewSwapper(Opts{CB1: true})
								if reload {
									for k := 0; k < 3; k++ {
										w.Put(pname(k), s.spec(k, 1))
									}
									w.Do("Load", 1, CB{Present: true}, CB{}, "C01")
								}
								c1, c2 := CB{Present: true}, CB{Present: true}
								sps := make([]*Spec, 3)
								for k := range sps {
									sps[k] = s.spec(k, 2)
									sps[k].Faults = map[string]int{}
								}
								for _, p := range []pt{pts[i], pts[j]} {
									switch {
									case p.phase == "CB1":
										c1.Fault = kind
									case p.phase == "CB2":
										c2.Fault = kind
									default:
										sps[p.plug].Faults[p.phase] = kind
									}
								}
								for k := range sps {
									w.Put(pname(k), sps[k])
								}
								w.Do("ReloadCB", 2, c1, c2, "C01", "C12")
								for k := range sps {
									w.Put(pname(k), s.spec(k, 3))
								}
								w.Do("Reload", 3, CB{Present: true}, CB{}, "C12", "C01")
								w.Retire("end")
							})
						})
					}
				}
			}
		}
	}
	for _, s := range shapes(3, false, true) {
		for sub := 0; sub < 8; sub++ {
			id := fmt.Sprintf("panicfree/%v/%03b", s, sub)
			r.Case(id, func(c *Ctx) {
				Seq(c, []string{"C12", "C23"}, func(w *World) {
					w.NewSwapper(Opts{CB1: true})
					for k := 0; k < 3; k++ {
						sp := s.spec(k, 1)
						if sub>>uint(k)&1 == 1 {
							sp.Faults = map[string]int{"OnFree": pk[(k+sub)%5]}
						}
						w.Put(pname(k), sp)
					}
					w.Do("Load", 1, CB{Present: true}, CB{}, "C01")
					for v := 2; v <= 3; v++ {
						for k := 0; k < 3; k++ {
							w.Put(pname(k), s.spec(k, v))
						}
						w.Do("Reload", v, CB{Present: true}, CB{}, "C12")
						w.Pause(minDelay, "pause")
					}
					w.Retire("end")
					for k := 0; k < 3; k++ {
						w.Put(pname(k), s.spec(k, 9))
					}
					w.Do("Reload", 9, CB{Present: true}, CB{}, "C12")
					w.Retire("end")
				})
			})
		}
	}
}
