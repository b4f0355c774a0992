package h

import (
	"fmt"
	"math/bits"

	"verif.local/mc/rt"
)

// The large suite: what holds for every graph of up to five plugins must not depend on their number.
// Families of graphs that are fixed by a size and a labelling, each at every size of a list, run
// through the same lives as the small ones of the suite graph.

func init() {
	register(&Suite{Name: "large", Props: []string{"C03", "C04", "C05", "C12"}, Mode: rt.Seq,
		CrashTags: []string{"C05", "C12"}, HangTags: []string{"C05", "C23"}, Run: runLarge})
}

type family struct {
	name   string
	cyclic bool
	max    int // bigger ones are not built
	deps   func(i, n int) []int
}

var families = []family{
	{name: "chain", deps: func(i, n int) []int {
		if i+1 < n {
			return []int{i + 1}
		}
		return nil
	}},
	{name: "fan-out", deps: func(i, n int) []int { // the first depends on all others
		var d []int
		for j := 1; i == 0 && j < n; j++ {
			d = append(d, j)
		}
		return d
	}},
	{name: "fan-in", deps: func(i, n int) []int { // all depend on the first
		if i > 0 {
			return []int{0}
		}
		return nil
	}},
	{name: "tree", deps: func(i, n int) []int {
		var d []int
		for _, j := range []int{2*i + 1, 2*i + 2} {
			if j < n {
				d = append(d, j)
			}
		}
		return d
	}},
	{name: "tree-up", deps: func(i, n int) []int {
		if i > 0 {
			return []int{(i - 1) / 2}
		}
		return nil
	}},
	{name: "ladder", max: 16, deps: func(i, n int) []int { // on the next and the next but one
		var d []int
		for _, j := range []int{i + 1, i + 2} {
			if j < n {
				d = append(d, j)
			}
		}
		return d
	}},
	{name: "layers", max: 16, deps: func(i, n int) []int { // layers of three, each member on the whole layer below
		var d []int
		for j := (i/3 + 1) * 3; j < (i/3+2)*3 && j < n; j++ {
			d = append(d, j)
		}
		return d
	}},
	{name: "pairs", deps: func(i, n int) []int {
		if i%2 == 0 && i+1 < n {
			return []int{i + 1}
		}
		return nil
	}},
	{name: "none", deps: func(i, n int) []int { return nil }},
	{name: "ring", cyclic: true, deps: func(i, n int) []int { return []int{(i + 1) % n} }},
	{name: "chain-loop", cyclic: true, deps: func(i, n int) []int { // a chain that ends in a cycle of two
		if i+1 < n {
			return []int{i + 1}
		}
		return []int{n - 2}
	}},
	{name: "fan-loop", cyclic: true, deps: func(i, n int) []int { // the last of a fan closes the cycle
		if i == 0 {
			var d []int
			for j := 1; j < n; j++ {
				d = append(d, j)
			}
			return d
		}
		if i == n-1 {
			return []int{0}
		}
		return nil
	}},
	{name: "chain-self", cyclic: true, deps: func(i, n int) []int {
		if i+1 < n {
			return []int{i + 1}
		}
		return []int{i}
	}},
	{name: "two-rings", cyclic: true, deps: func(i, n int) []int { // one free part, one ring: the free part must not save it
		h := n / 2
		if i < h {
			if i+1 < h {
				return []int{i + 1}
			}
			return nil
		}
		if i+1 < n {
			return []int{i + 1}
		}
		return []int{h}
	}},
}

// labellings: how the position in the graph and the order of the names relate.
var labellings = []struct {
	name string
	at   func(i, n int) int
}{
	{"up", func(i, n int) int { return i }},
	{"down", func(i, n int) int { return n - 1 - i }},
	{"halves", func(i, n int) int { // evens first
		if i%2 == 0 {
			return i / 2
		}
		return (n+1)/2 + i/2
	}},
	{"bits", func(i, n int) int { return int(bits.Reverse8(uint8(i))) }},
}

func runLarge(r *Runner) {
	sizes := []int{6, 7, 8, 9, 10, 12, 16, 17, 31, 33, 64, 65, 100}
	if r.Thorough() {
		sizes = nil
		for n := 6; n <= 40; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255)
	}
	r.Bound("families", fmt.Sprintf("%d families of graphs (chain, fans, trees, ladder, layers, rings, cycles behind chains ...)", len(families)))
	r.Bound("sizes", fmt.Sprint(sizes))
	r.Bound("labellings", fmt.Sprintf("%d relations between names and positions", len(labellings)))
	for _, n := range sizes {
		for _, f := range families {
			if f.max != 0 && n > f.max {
				continue
			}
			for _, l := range labellings {
				f, l, n := f, l, n
				r.Case(fmt.Sprintf("large/%s/%d/%s", f.name, n, l.name), func(c *Ctx) {
					Seq(c, []string{"C05", "C23"}, func(w *World) { largeCase(w, f, n, l.at) })
				})
			}
		}
	}
}

func largeCase(w *World, f family, n int, at func(i, n int) int) {
	name := func(i int) string { return fmt.Sprintf("p%03d", at(i, n)) }
	deps := make([][]int, n)
	for i := range deps {
		deps[i] = f.deps(i, n)
	}
	mk := func(i, ver int) *Spec {
		sp := &Spec{UID: fmt.Sprintf("%s_%d", name(i), ver)}
		for _, j := range deps[i] {
			sp.Deps = append(sp.Deps, Dep{Field: styleField(name(j)), Kind: (i + j) % 3})
		}
		return sp
	}
	up := func(v int) map[int]bool {
		r := map[int]bool{v: true}
		for changed := true; changed; {
			changed = false
			for i := range deps {
				if r[i] {
					continue
				}
				for _, j := range deps[i] {
					if r[j] {
						r[i] = true
						changed = true
						break
					}
				}
			}
		}
		return r
	}
	w.NewSwapper(Opts{})
	for i := 0; i < n; i++ {
		w.Put(name(i), mk(i, 1))
	}
	w.Do("Load", "g", CB{}, CB{}, "C05")
	if f.cyclic {
		if w.M.Cur != nil {
			return
		}
		ds := deps
		deps = make([][]int, n)
		for i := 0; i < n; i++ {
			w.Put(name(i), mk(i, 2))
		}
		w.Do("Load", "g", CB{}, CB{}, "C05")
		deps = ds
		for i := 0; i < n; i++ {
			w.Put(name(i), mk(i, 3))
		}
		w.Do("Reload", "g", CB{}, CB{}, "C05")
		return
	}
	if w.M.Cur == nil {
		return
	}
	w.checkInvokeOrder(w.M.Cur.PM, "first load")
	w.Do("Reload", "g", CB{}, CB{}, "C05")
	w.checkInvokeOrder(w.M.Cur.PM, "all kept")
	// one plugin and everything that depends on it
	for k, v := range []int{0, n - 1, n / 2} {
		for i := range up(v) {
			w.Put(name(i), mk(i, 10+k))
		}
		w.Do("Reload", "g", CB{}, CB{}, "C05")
		if w.M.Cur == nil {
			return
		}
		w.checkInvokeOrder(w.M.Cur.PM, "partly kept")
		w.Pause(minDelay/2, "between")
	}
	// a failing reload, late and early
	for k, ph := range []string{"OnInit", "OnLoad", "Export"} {
		for i := 0; i < n; i++ {
			sp := mk(i, 100+k)
			if i == n/2 {
				sp.Faults = map[string]int{ph: FErr}
				if ph == "Export" {
					sp.Faults[ph] = FPanicStr
				}
			}
			w.Put(name(i), sp)
		}
		w.Do("Reload", "g", CB{}, CB{})
	}
	for i := 0; i < n; i++ {
		w.Put(name(i), mk(i, 200))
	}
	w.Do("Reload", "g", CB{}, CB{}, "C05")
	// the one half goes
	for i := 0; i < n; i++ {
		if i < n/2 && f.name != "fan-in" && f.name != "tree-up" {
			w.Del(name(i))
		} else {
			sp := mk(i, 300)
			if i%3 == 0 {
				sp.Faults = map[string]int{"OnFree": FPanicStr}
			}
			w.Put(name(i), sp)
		}
	}
	w.Do("Reload", "g", CB{}, CB{}, "C05")
	for i := range up(n - 1) {
		if _, ok := w.Files()[name(i)]; ok {
			w.Del(name(i))
		}
	}
	w.Put("zz", &Spec{UID: "zz_1"})
	w.Do("Reload", "g", CB{}, CB{}, "C05")
	w.Retire("end")
	w.freeOrder("end")
}
