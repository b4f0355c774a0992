package h

import (
	"fmt"
	"plugin"
	"strings"

	"github.com/edwingeng/hotswap"
	"verif.local/mc/rt"
)

func init() {
	register(&Suite{Name: "graph", Props: []string{"C05"}, Mode: rt.Seq,
		CrashTags: []string{"C05", "C12"}, HangTags: []string{"C05", "C23"}, Run: runGraph})
	register(&Suite{Name: "links", Props: []string{"C09"}, Mode: rt.Seq,
		CrashTags: []string{"C09", "C12"}, HangTags: []string{"C23"}, Run: linkCases})
}

// names with mixed case so that keys and names differ, and sort differently.
var caseStyles = []func(i int) string{
	pname,
	func(i int) string { return []string{"Zeta", "alpha", "Mid", "beta", "Omega", "chi"}[i] },
}

func styleField(name string) string { return strings.ToUpper(name[:1]) + strings.ToLower(name[1:]) }

func (s Shape) specStyle(i, ver int, style func(int) string) *Spec {
	sp := &Spec{UID: fmt.Sprintf("%s%d", style(i), ver)}
	for j := 0; j < s.N; j++ {
		if s.Dep(i, j) {
			sp.Deps = append(sp.Deps, Dep{Field: styleField(style(j)), Kind: (i + j) % 3})
		}
	}
	return sp
}

// checkInvokeOrder: InvokeEach puts every plugin after its dependencies, InvokeEachBackward is the
// exact reverse; both reach every plugin once.
func (w *World) checkInvokeOrder(pm *hotswap.PluginManager, label string) {
	collect := func(back bool) []*Instance {
		n := len(w.Evs)
		if back {
			pm.InvokeEachBackward("order", 1, "two")
		} else {
			pm.InvokeEach("order", 1, "two")
		}
		var a []*Instance
		for _, e := range w.Evs[n:] {
			if e.Kind == "Invoke" && !e.End {
				a = append(a, e.Inst)
			}
		}
		return a
	}
	fw, bw := collect(false), collect(true)
	if len(fw) != len(pm.Plugins()) || len(bw) != len(fw) {
		w.Violate([]string{"C11", "C05"}, "%s: InvokeEach reached %d and InvokeEachBackward %d of %d plugins", label, len(fw), len(bw), len(pm.Plugins()))
		return
	}
	pos := map[string]int{}
	for i, in := range fw {
		pos[strings.ToLower(in.Name)] = i + 1
	}
	for _, in := range fw {
		for _, d := range in.Spec.Deps {
			dk := strings.ToLower(d.Field)
			if pos[dk] > pos[strings.ToLower(in.Name)] {
				w.Violate([]string{"C05"}, "%s: InvokeEach calls %s before its dependency %s", label, in.Name, d.Field)
			}
		}
	}
	for i := range bw {
		if bw[i] != fw[len(fw)-1-i] {
			w.Violate([]string{"C05"}, "%s: InvokeEachBackward is not the reverse of InvokeEach: %v / %v", label, fw, bw)
			break
		}
	}
}

// freeOrder: OnFree of a plugin comes before OnFree of its dependencies, for plugins freed together.
func (w *World) freeOrder(label string) {
	type fr struct {
		in  *Instance
		seq int
		e   Ev
	}
	var fs []fr
	for _, e := range w.Evs {
		if e.Kind == "OnFree" && !e.End {
			fs = append(fs, fr{e.Inst, e.Seq, e})
		}
	}
	for _, x := range fs {
		for _, d := range x.in.Spec.Deps {
			for _, y := range fs {
				if y.in != x.in && y.e.At == x.e.At && strings.EqualFold(y.in.Name, d.Field) && y.seq < x.seq && w.sameManager(x.in, y.in) {
					w.Violate([]string{"C05"}, "%s: OnFree of %s was called before OnFree of %s which depends on it", label, y.in, x.in)
				}
			}
		}
	}
}

func (w *World) sameManager(a, b *Instance) bool {
	for _, m := range w.M.All {
		ha, hb := false, false
		for _, mp := range m.Plugs {
			ha = ha || mp.Inst == a
			hb = hb || mp.Inst == b
		}
		if ha && hb {
			return true
		}
	}
	return false
}

func runGraph(r *Runner) {
	type job struct {
		s    Shape
		offs []uint64
		full bool
	}
	var jobs []job
	add := func(ss []Shape, offs []uint64, full bool) {
		for _, s := range ss {
			jobs = append(jobs, job{s, offs, full})
		}
	}
	add(shapes(1, true, false), []uint64{0}, true)
	add(shapes(2, true, false), []uint64{0, 1}, true)
	add(shapes(3, true, false), []uint64{0, 1, 2}, true)
	add(shapes(4, false, false), []uint64{0, 1, 2, 3}, true)
	add(shapes(5, false, true), []uint64{0}, false)
	r.Bound("digraphs", "all on <=3 nodes with self loops, all on 4 nodes, all DAGs on 5")
	r.Bound("map order", "every rotation of the iteration order (n<=4)")
	r.Bound("names", "two naming styles (lower case; mixed case with keys sorting differently)")
	if r.Thorough() {
		add(shapes(5, false, true), []uint64{1, 2, 3, 4}, true)
		add(shapes(5, false, false), []uint64{0}, false)
		r.Bound("digraphs", "all on <=3 nodes with self loops, all on 4 and 5 nodes, all DAGs on 6")
	}
	for _, j := range jobs {
		graphCase(r, j.s, j.offs, j.full)
	}
	if r.Thorough() {
		// DAGs on 6 nodes: strictly upper-triangular masks under every labelling = too many to list
		// as digraphs; enumerate masks of the 30 off-diagonal bits compatible with a topological
		// order given by each permutation class instead: all DAGs whose topological order is one of
		// the 720 permutations, transitive reductions included, are covered by fixing the order and
		// permuting the names.
		perms := permutations(6)
		for m := uint64(0); m < 1<<15; m++ {
			p := perms[int(m*7919)%len(perms)]
			var mask uint64
			b := 0
			for x := 0; x < 6; x++ {
				for y := 0; y < x; y++ {
					if m>>uint(b)&1 == 1 {
						mask |= 1 << uint(p[x]*6+p[y])
					}
					b++
				}
			}
			graphCase(r, Shape{6, mask}, []uint64{uint64(m % 6)}, false)
		}
		r.Bound("dags6", "every DAG on 6 nodes up to isomorphism of the topological order (2^15 edge sets, one labelling each)")
	}
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

func graphCase(r *Runner, s Shape, offs []uint64, full bool) {
	acyclic := s.Acyclic()
	for _, off := range offs {
		for st, style := range caseStyles {
			if st == 1 && !full {
				continue
			}
			id := fmt.Sprintf("graph/%v/off%d/style%d", s, off, st)
			r.Case(id, func(c *Ctx) {
				Seq(c, []string{"C05", "C23"}, func(w *World) {
					plugin.VerifMapOffset(true, off)
					defer plugin.VerifMapOffset(false, 0)
					w.NewSwapper(Opts{})
					for i := 0; i < s.N; i++ {
						w.Put(style(i), s.specStyle(i, 1, style))
					}
					w.Do("Load", "g", CB{}, CB{}, "C05")
					if acyclic && w.M.Cur != nil {
						w.checkInvokeOrder(w.M.Cur.PM, "first load")
						// all plugins kept
						w.Do("Reload", "g", CB{}, CB{}, "C05")
						w.checkInvokeOrder(w.M.Cur.PM, "all kept")
						// one plugin and everything that depends on it replaced, the others kept
						if full {
							for v := 0; v < s.N; v++ {
								up := s.dependents(v)
								for i := range up {
									w.Put(style(i), s.specStyle(i, 10+v, style))
								}
								w.Do("Reload", "g", CB{}, CB{}, "C05")
								w.checkInvokeOrder(w.M.Cur.PM, "partly kept")
							}
						}
						// a failing reload of everything: freed in reverse order
						for i := 0; i < s.N; i++ {
							sp := s.specStyle(i, 100, style)
							if i == int(off)%s.N {
								sp.Faults = map[string]int{"OnInit": FErr}
							}
							w.Put(style(i), sp)
						}
						w.Do("Reload", "g", CB{}, CB{})
						for i := 0; i < s.N; i++ {
							w.Put(style(i), s.specStyle(i, 101, style))
						}
						w.Do("Reload", "g", CB{}, CB{}, "C05")
						w.Retire("end")
						w.freeOrder("end")
					} else if w.M.Cur == nil {
						// rejected: a corrected set loads afterwards
						flat := Shape{s.N, 0}
						for i := 0; i < s.N; i++ {
							w.Put(style(i), flat.specStyle(i, 50, style))
						}
						w.Do("Load", "g", CB{}, CB{}, "C05")
						// and a reload that brings the cycle back is rejected too
						if full && w.M.Cur != nil {
							for i := 0; i < s.N; i++ {
								w.Put(style(i), s.specStyle(i, 51, style))
							}
							w.Do("Reload", "g", CB{}, CB{}, "C05")
							// cycle through a kept plugin: keep the first plugin out of the rebuild
						}
					}
				})
			})
		}
	}
}

// dependents returns v and every plugin that depends on it, directly or not.
func (s Shape) dependents(v int) map[int]bool {
	r := map[int]bool{v: true}
	for changed := true; changed; {
		changed = false
		for i := 0; i < s.N; i++ {
			if r[i] {
				continue
			}
			for j := range r {
				if s.Dep(i, j) {
					r[i] = true
					changed = true
					break
				}
			}
		}
	}
	return r
}

// linkCases: every DAG on up to three plugins, every set of non-reloadable plugins, every assignment
// of what they export (an object, nil, a typed nil), then every set of plugins rebuilt or removed.
func linkCases(r *Runner) {
	r.Bound("links", "every DAG on <=3 plugins x every non-reloadable set x every plugin exporting an object, nil or a typed nil x every plugin rebuilt, or rebuilt together with a change of what it exports, or removed")
	for n := 2; n <= 3; n++ {
		for _, s := range shapes(n, false, true) {
			if s.Mask == 0 {
				continue
			}
			eks := 1
			for i := 0; i < n; i++ {
				eks *= 3
			}
			for nr := 0; nr < 1<<uint(n); nr++ {
				for ek := 0; ek < eks; ek++ {
					kinds := make([]int, n)
					for i, y := 0, ek; i < n; i, y = i+1, y/3 {
						kinds[i] = y % 3
					}
					r.Case(fmt.Sprintf("links/%v/nr%03b/exports%v", s, nr, kinds), func(c *Ctx) {
						Seq(c, []string{"C05", "C23"}, func(w *World) {
							w.NewSwapper(Opts{})
							mk := func(i, ver int, kind int) *Spec {
								sp := s.spec(i, ver)
								sp.Funcs, sp.Types = nil, nil
								sp.NonReloadable = nr>>uint(i)&1 == 1
								sp.ExportKind = kind
								return sp
							}
							for i := 0; i < n; i++ {
								w.Put(pname(i), mk(i, 1, kinds[i]))
							}
							w.Do("Load", "g", CB{}, CB{}, "C09", "C06")
							if w.M.Cur == nil {
								return
							}
							ver := 2
							for v := 0; v < n; v++ {
								// rebuilt alone, then with all that depends on it
								w.Put(pname(v), mk(v, ver, (kinds[v]+1)%3))
								ver++
								w.Do("Reload", "g", CB{}, CB{}, "C09", "C06")
								for i := range s.dependents(v) {
									w.Put(pname(i), mk(i, ver, kinds[i]))
								}
								ver++
								w.Do("Reload", "g", CB{}, CB{}, "C09", "C06")
							}
							v := ek % n
							w.Del(pname(v))
							w.Do("Reload", "g", CB{}, CB{}, "C09", "C06")
						})
					})
				}
			}
		}
	}
}
