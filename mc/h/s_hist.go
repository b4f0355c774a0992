package h

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif.local/mc/rt"
)

// The history suite: explicit-state search over an abstract model of the swapper. The model alone
// decides which states exist and which operation leads where; every transition (state, operation)
// is then replayed on the real code along the shortest path to the state, judged after each step.

func init() {
	register(&Suite{Name: "hist", Props: []string{"C01", "C03", "C04", "C08", "C09", "C10", "C14"}, Mode: rt.Seq,
		CrashTags: []string{"C12"}, HangTags: []string{"C23", "C12"}, Run: runHist})
	register(&Suite{Name: "delay", Props: []string{"C03", "C12"}, Mode: rt.Seq,
		CrashTags: []string{"C12"}, HangTags: []string{"C23"}, Run: runDelay})
}

const (
	fSame = iota
	fR    // rebuilt, reloadable
	fNR   // rebuilt, not reloadable
	fGone
	fCase // rebuilt under a name that differs in letter case
	fKinds
)

var fNames = []string{"same", "R", "NR", "gone", "CASE"}

const (
	xNone = iota
	xInit // OnInit of the last newly loaded plugin fails
	xCB   // the callback fails
	xSlowInit
	xSlowCB
	xKinds
)

var xNames = []string{"", "!init", "!cb", "~init", "~cb"}

type hop struct {
	file  []int
	x     int
	pause int // index into pauses
}

func (o hop) String() string {
	var a []string
	for i, f := range o.file {
		a = append(a, pname(i)+":"+fNames[f])
	}
	return strings.Join(a, ",") + xNames[o.x] + fmt.Sprintf("/p%d", o.pause)
}

// abstract state. Versions are numbered per plugin; 0 means none.
type hstate struct {
	n     int
	cur   []int // running version, 0: not part of the current manager
	nr    map[int]bool
	file  []int // version in the directory, 0: no file
	dirty []bool
	upper []bool // file name in upper case
	curUp []bool // name the running version was loaded under
	ret   []hret
	next  int
	any   bool // a manager exists
}

type hret struct {
	vers []int
	age  time.Duration
}

func (s *hstate) clone() *hstate {
	t := &hstate{n: s.n, next: s.next, any: s.any, nr: map[int]bool{}}
	t.cur = append([]int(nil), s.cur...)
	t.file = append([]int(nil), s.file...)
	t.dirty = append([]bool(nil), s.dirty...)
	t.upper = append([]bool(nil), s.upper...)
	t.curUp = append([]bool(nil), s.curUp...)
	for k, v := range s.nr {
		t.nr[k] = v
	}
	for _, r := range s.ret {
		t.ret = append(t.ret, hret{append([]int(nil), r.vers...), r.age})
	}
	return t
}

// key: the state up to renaming of versions.
func (s *hstate) key() string {
	ren := map[int]int{}
	id := func(v int) string {
		if v == 0 {
			return "-"
		}
		if _, ok := ren[v]; !ok {
			ren[v] = len(ren) + 1
		}
		k := ""
		if s.nr[v] {
			k = "n"
		}
		return fmt.Sprintf("%d%s", ren[v], k)
	}
	var b strings.Builder
	for i := 0; i < s.n; i++ {
		fmt.Fprintf(&b, "%s/%s%v%v%v ", id(s.cur[i]), id(s.file[i]), s.dirty[i], s.upper[i], s.curUp[i])
	}
	for _, r := range s.ret {
		fmt.Fprintf(&b, "|%v:", r.age)
		for _, v := range r.vers {
			b.WriteString(id(v) + " ")
		}
	}
	fmt.Fprintf(&b, "%v", s.any)
	return b.String()
}

type hcfg struct {
	shape  Shape
	delay  time.Duration
	pauses []time.Duration
	slow   time.Duration
}

// apply computes the successor; ok=false: the operation is redundant in this state.
func (s *hstate) apply(c hcfg, o hop) (*hstate, bool, bool) {
	t := s.clone()
	for i, f := range o.file {
		switch f {
		case fSame:
			if t.file[i] == 0 || t.dirty[i] {
				if t.file[i] != 0 {
					return nil, false, false // re-opening what a failed attempt opened: outcome open
				}
			}
		case fR, fNR, fCase:
			t.next++
			t.file[i] = t.next
			t.nr[t.next] = f == fNR
			t.dirty[i] = false
			t.upper[i] = f == fCase
		case fGone:
			if t.file[i] == 0 {
				return nil, false, false
			}
			t.file[i] = 0
			t.dirty[i] = false
		}
	}
	sel := 0
	success := true
	newCur := make([]int, t.n)
	kept := make([]bool, t.n)
	fresh := -1
	for i := 0; i < t.n; i++ {
		if t.file[i] == 0 {
			continue
		}
		sel++
		if t.cur[i] != 0 && (t.nr[t.cur[i]] || t.cur[i] == t.file[i]) {
			newCur[i] = t.cur[i]
			kept[i] = true
		} else {
			newCur[i] = t.file[i]
			fresh = i
		}
	}
	if sel == 0 {
		if o.x != xNone {
			return nil, false, false
		}
		t.pauseBy(c, c.pauses[o.pause])
		return t, true, true
	}
	for i := 0; i < t.n; i++ {
		if newCur[i] == 0 {
			continue
		}
		for j := 0; j < t.n; j++ {
			if !c.shape.Dep(i, j) {
				continue
			}
			if newCur[j] == 0 || (kept[i] && !kept[j]) {
				success = false
			} else if !kept[i] && t.nr[newCur[i]] && !t.nr[newCur[j]] {
				success = false
			}
		}
	}
	if (o.x == xInit || o.x == xSlowInit) && (fresh < 0 || !success) {
		return nil, false, false
	}
	if (o.x == xCB || o.x == xSlowCB) && !success {
		return nil, false, false
	}
	if o.x == xInit || o.x == xCB {
		success = false
	}
	if o.x == xSlowInit || o.x == xSlowCB {
		t.pauseBy(c, c.slow)
	}
	if success {
		if t.any {
			var vs []int
			for _, v := range t.cur {
				if v != 0 {
					vs = append(vs, v)
				}
			}
			t.ret = append(t.ret, hret{vs, 0})
		}
		for i := range t.cur {
			if newCur[i] != 0 && !kept[i] {
				t.curUp[i] = t.upper[i]
			}
		}
		t.cur = newCur
		t.any = true
		for i := range t.dirty {
			t.dirty[i] = false
		}
	} else {
		for i := range t.file {
			if t.file[i] != 0 && !kept[i] {
				t.dirty[i] = true
			}
		}
	}
	t.pauseBy(c, c.pauses[o.pause])
	return t, success, true
}

func (s *hstate) pauseBy(c hcfg, d time.Duration) {
	var r []hret
	for _, x := range s.ret {
		x.age += d
		if x.age <= c.delay {
			r = append(r, x)
		}
	}
	s.ret = r
}

// histStep performs an operation on the real code; ver mirrors the model's version counter.
func (w *World) histStep(c hcfg, o hop, ver *int, names []string, x []int) {
	for i, f := range o.file {
		switch f {
		case fR, fNR, fCase:
			*ver++
			if names[i] != "" {
				w.Del(names[i])
			}
			sp := c.shape.spec(i, *ver)
			sp.NonReloadable = f == fNR
			names[i] = pname(i)
			if f == fCase {
				names[i] = strings.ToUpper(pname(i))
			}
			w.Put(names[i], sp)
		case fGone:
			w.Del(names[i])
			names[i] = ""
		}
	}
	// the fault goes to the last plugin that will be loaded afresh
	cb := CB{Present: true}
	switch o.x {
	case xCB:
		cb.Fault = FErr
	case xSlowCB:
		cb.Slow = c.slow
	case xInit, xSlowInit:
		fs := w.Files()
		last := ""
		for n, uid := range fs {
			k := strings.ToLower(n)
			if w.M.Cur != nil {
				if p := w.M.Cur.Plugs[k]; p != nil && (p.Inst.Spec.NonReloadable || p.Inst.Spec.UID == uid) {
					continue
				}
			}
			if k > strings.ToLower(last) {
				last = n
			}
		}
		if last != "" {
			sp := w.specs[fs[last]]
			if o.x == xInit {
				sp.Faults = map[string]int{"OnInit": FErr}
			} else {
				sp.Slow = map[string]time.Duration{"OnInit": c.slow}
			}
		}
	}
	kind := "Reload"
	if w.M.Cur == nil {
		kind = "Load"
	}
	w.Do(kind, o.String(), cb, CB{}, "C01", "C08", "C09")
	if d := c.pauses[o.pause]; d > 0 {
		w.Pause(d, "pause")
	}
}

type hnode struct {
	st    *hstate
	path  []hop
	depth int
}

func (r *Runner) histSearch(id string, c hcfg, depth int, files []int, xs []int, maxStates int) {
	n := c.shape.N
	start := &hstate{n: n, cur: make([]int, n), file: make([]int, n), dirty: make([]bool, n), upper: make([]bool, n), curUp: make([]bool, n), nr: map[int]bool{}}
	var ops []hop
	tot := 1
	for i := 0; i < n; i++ {
		tot *= len(files)
	}
	for m := 0; m < tot; m++ {
		f := make([]int, n)
		y := m
		for i := range f {
			f[i] = files[y%len(files)]
			y /= len(files)
		}
		for _, x := range xs {
			for p := range c.pauses {
				ops = append(ops, hop{f, x, p})
			}
		}
	}
	seen := map[string]bool{start.key(): true}
	queue := []hnode{{start, nil, 0}}
	trans := 0
	full := true
	for qi := 0; qi < len(queue); qi++ {
		nd := queue[qi]
		if nd.depth >= depth {
			continue
		}
		for _, o := range ops {
			t, _, ok := nd.st.apply(c, o)
			if !ok {
				continue
			}
			trans++
			path := append(append([]hop(nil), nd.path...), o)
			var b strings.Builder
			for _, p := range path {
				b.WriteString(" " + p.String())
			}
			cid := id + b.String()
			r.Case(cid, func(cx *Ctx) {
				Seq(cx, []string{"C23", "C12"}, func(w *World) {
					w.NewSwapper(Opts{CB1: true, Delay: c.delay})
					ver := 0
					names := make([]string, n)
					for _, p := range path {
						w.histStep(c, p, &ver, names, nil)
					}
					w.histConform(t)
					w.Retire("end")
				})
			})
			k := t.key()
			if !seen[k] {
				if len(seen) >= maxStates {
					full = false
					continue
				}
				seen[k] = true
				queue = append(queue, hnode{t, path, nd.depth + 1})
			}
		}
	}
	if r.Shard == 0 {
		r.Count("model_states", int64(len(seen)))
		r.Count("model_transitions", int64(trans))
		if !full {
			r.Res.Capped = true
			r.Res.CapReason = "state cap"
		}
	}
}

// histConform: the abstract model and the implementation agree on the reached state.
func (w *World) histConform(t *hstate) {
	for i := 0; i < t.n; i++ {
		want := ""
		if t.cur[i] != 0 {
			want = fmt.Sprintf("%s%d", pname(i), t.cur[i])
		}
		got := ""
		if w.M.Cur != nil {
			if p := w.M.Cur.Plugs[pname(i)]; p != nil && p.Inst != nil {
				got = p.Inst.Spec.UID
			}
		}
		if got != want {
			w.Violate([]string{"C08"}, "the implementation runs %q for plugin %s where the model of the history has %q", got, pname(i), want)
		}
	}
}

func runHist(r *Runner) {
	sec := time.Second
	cfg := func(s Shape) hcfg {
		return hcfg{shape: s, delay: 60 * sec, pauses: []time.Duration{0, 25 * sec, 61 * sec}, slow: 40 * sec}
	}
	r.Bound("histories", "breadth-first over model states; every transition executed on the real code along a shortest path")
	one := Shape{1, 0}
	allF := []int{fSame, fR, fNR, fGone, fCase}
	allX := []int{xNone, xInit, xCB, xSlowInit, xSlowCB}
	d1, d2, d3 := 5, 3, 2
	if r.Thorough() {
		d1, d2, d3 = 7, 4, 3
	}
	r.Bound("depth", "1 plugin: %d, 2 plugins: %d, 3 plugins: %d attempts", d1, d2, d3)
	lim := 1 << 30
	r.histSearch("h1", cfg(one), d1, allF, allX, lim)
	f4 := []int{fSame, fR, fNR, fGone}
	for _, m := range []uint64{0, 1 << 2, 1 << 1} { // independent, b>a, a>b
		c := cfg(Shape{2, m})
		if m == 1<<1 {
			c.pauses = c.pauses[:1]
		}
		r.histSearch(fmt.Sprintf("h2/%v", c.shape), c, d2, f4, []int{xNone, xInit, xCB, xSlowCB}, lim)
	}
	// b>a with the slow and the renaming operations, one pause
	c := cfg(Shape{2, 1 << 2})
	c.pauses = []time.Duration{0}
	r.histSearch("h2x", c, d2, allF, allX, lim)
	three := []Shape{{3, 0}, {3, 1<<3 | 1<<7}, {3, 1<<3 | 1<<6}, {3, 1<<6 | 1<<7}, {3, 1<<3 | 1<<6 | 1<<7}}
	for _, s := range three {
		c := cfg(s)
		c.pauses = []time.Duration{0}
		r.histSearch(fmt.Sprintf("h3/%v", s), c, d3, f4, []int{xNone, xInit, xCB}, lim)
	}
	if r.Thorough() {
		for _, s := range shapes(3, false, true) {
			c := cfg(s)
			c.pauses = []time.Duration{0, 25 * sec}
			r.histSearch(fmt.Sprintf("h3t/%v", s), c, 2, f4, []int{xNone, xInit, xCB, xSlowCB}, lim)
		}
	}
}

// runDelay: which delay is honoured, at every instant around the due time, with versions shared by
// a chain of managers, panicking and slow OnFree functions.
func runDelay(r *Runner) {
	sec := time.Second
	delays := []time.Duration{0, -1, 1, sec, 14 * sec, 15*sec - 1, 15 * sec, 15*sec + 1, 16 * sec, 60 * sec, 5 * time.Minute, 24 * time.Hour,
		zeroDelay, 25 * 24 * time.Hour, 50 * 24 * time.Hour, 10 * 365 * 24 * time.Hour}
	r.Bound("delays", "%v (the negative one of 292 years stands for an explicit zero)", delays)
	r.Bound("reloads", "1..4 at offsets 0, half the delay, delay-1ns, delay, delay+1ns; each reload rebuilds a, b, both, or nothing")
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	for _, d := range delays {
		eff := d
		if d == 0 {
			eff = 5 * time.Minute
		}
		if eff < minDelay {
			eff = minDelay
		}
		gaps := []time.Duration{0, eff / 2, eff - 1, eff, eff + 1}
		// operations: (gap before the reload, what is rebuilt)
		nops := len(gaps) * 4
		total := 1
		for i := 0; i < depth; i++ {
			total *= nops
		}
		ds := depth
		if !r.Thorough() && d != 60*sec && d != sec && d != 0 {
			ds = 2
			total = nops * nops
		}
		for m := 0; m < total; m++ {
			seq := make([]int, ds)
			y := m
			for i := range seq {
				seq[i] = y % nops
				y /= nops
			}
			for _, fm := range []int{0, 1, 2} { // OnFree of a: plain, panics, slow (1 h)
				if fm > 0 && (!r.Thorough() && (d != 60*sec || m%3 != 0)) {
					continue
				}
				id := fmt.Sprintf("delay/%v/%v/free%d", d, seq, fm)
				r.Case(id, func(cx *Ctx) {
					Seq(cx, []string{"C23"}, func(w *World) {
						w.NewSwapper(Opts{CB1: true, Delay: d})
						if d < 0 {
							w.Delay = minDelay
						}
						s := Shape{2, 1 << 2} // b depends on a
						ver := 1
						put := func(i int) {
							sp := s.spec(i, ver)
							if i == 0 && fm == 1 {
								sp.Faults = map[string]int{"OnFree": FPanicStr}
							}
							if i == 0 && fm == 2 {
								sp.Slow = map[string]time.Duration{"OnFree": time.Hour}
							}
							w.Put(pname(i), sp)
						}
						put(0)
						put(1)
						w.Do("Load", 0, CB{Present: true}, CB{}, "C01")
						for _, o := range seq {
							if g := gaps[o/4]; g > 0 {
								w.Pause(g, "gap")
							}
							ver++
							switch o % 4 {
							case 1:
								put(1)
							case 2:
								put(0)
								put(1)
							case 3: // a failing reload
								sp := s.spec(1, ver)
								sp.Faults = map[string]int{"OnLoad": FErr}
								w.Put("b", sp)
							}
							w.Do("Reload", o, CB{Present: true}, CB{}, "C01")
							if o%4 == 3 {
								ver++
								put(1) // a fresh file for whatever comes next
								ver++
							}
						}
						w.Retire("end")
						if fm == 2 {
							w.Pause(2*time.Hour, "slow OnFree")
						}
						w.Retire("end2")
					})
				})
			}
		}
	}
}

var _ = sort.Strings
