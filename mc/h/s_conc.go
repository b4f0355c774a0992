package h

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/edwingeng/hotswap"
	"verif.local/mc/rt"
)

// The concurrency suites run overlapping loads, reloads, readers and delayed frees under the
// controlled scheduler; all schedules up to the preemption bound are executed.

func init() {
	register(&Suite{Name: "conc", Props: []string{"C02", "C03", "C14", "C23"}, Mode: rt.Ctl, Run: runConc})
	register(&Suite{Name: "slowread", Props: []string{"C02"}, Mode: rt.Seq, Run: runSlowRead})
}

type obs struct {
	thread string
	s0, s1 int // number of events logged before / after the call of Current
	pm     *hotswap.PluginManager
	cnt    int64
	own    int // attempt the observing thread has just completed successfully
}

type concWorld struct {
	*World
	obs      []obs
	ends     map[int]int // attempt -> events logged when its call returned
	begs     map[int]int
	advances bool                           // virtual time may pass while threads are runnable: no upper bound on delays
	mgrAt    map[*hotswap.PluginManager]int // manager -> attempt that made it
}

func (w *World) seq() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.Evs)
}

// op runs one attempt of a concurrent thread.
func (w *concWorld) op(kind string, cb1, cb2 CB) *Attempt {
	g := rt.Goid()
	w.mu.Lock()
	a := &Attempt{N: len(w.Attempts) + 1, Kind: kind, CB1: cb1, CB2: cb2}
	a.Data = fmt.Sprintf("data%d", a.N)
	w.Attempts = append(w.Attempts, a)
	w.byG[g] = a.N
	w.cbFor[g] = a
	w.begs[a.N] = len(w.Evs)
	w.mu.Unlock()
	w.call(a)
	w.mu.Lock()
	w.ends[a.N] = len(w.Evs)
	a.T1 = time.Since(w.Start)
	delete(w.byG, g)
	delete(w.cbFor, g)
	w.mu.Unlock()
	own := 0
	if a.Err == nil && a.Panicked == nil {
		own = a.N
	}
	w.look(own)
	return a
}

// look observes the current manager and the counter.
func (w *concWorld) look(own int) *hotswap.PluginManager {
	s0 := w.seq()
	pm := w.SW.Current()
	s1 := w.seq()
	cnt := w.SW.ReloadCounter()
	w.mu.Lock()
	w.obs = append(w.obs, obs{rt.CurThread(), s0, s1, pm, cnt, own})
	w.mu.Unlock()
	w.complete(pm, s1)
	return pm
}

// complete: a manager that can be seen is completely initialised.
func (w *concWorld) complete(pm *hotswap.PluginManager, at int) {
	if pm == nil {
		return
	}
	x, _ := pm.Vault.Extension.(*Ext)
	if x == nil {
		w.Violate([]string{"C02", "C10"}, "the current manager has no extension")
		return
	}
	w.mu.Lock()
	evs := w.Evs[:at]
	w.mu.Unlock()
	inited := map[*Instance]bool{}
	cbs := map[string]bool{}
	for _, e := range evs {
		if e.End && e.Kind == "OnInit" && !e.Bad {
			inited[e.Inst] = true
		}
		if e.End && e.Attempt == x.Attempt && (e.Kind == "CB1" || e.Kind == "CB2") {
			if e.Bad {
				w.Violate([]string{"C02", "C14"}, "the manager of attempt %d can be seen although its %s failed", x.Attempt, e.Kind)
			}
			cbs[e.Kind] = true
		}
	}
	a := w.attemptN(x.Attempt)
	if a != nil && a.N > 0 {
		if w.hasCB1 && !cbs["CB1"] || a.CB2.Present && !cbs["CB2"] {
			w.Violate([]string{"C02", "C14"}, "the manager of attempt %d can be seen before its callbacks have returned", x.Attempt)
		}
	}
	want := map[string]bool{}
	ps := pm.Plugins()
	member := map[*Instance]bool{}
	for _, p := range ps {
		in := InstOf(p)
		if in == nil {
			w.Violate([]string{"C02"}, "a plugin of the current manager can not be invoked")
			continue
		}
		member[in] = true
		if !inited[in] {
			w.Violate([]string{"C02"}, "the current manager holds %s whose OnInit has not completed", in)
		}
		for _, f := range in.Spec.Funcs {
			want[f] = true
		}
	}
	for _, p := range ps {
		in := InstOf(p)
		if in == nil {
			continue
		}
		for k, d := range in.Links() {
			if d == nil || !member[d] {
				w.Violate([]string{"C02", "C09"}, "the current manager holds %s whose field %s is linked to %s, which is not part of it", in, k, d)
			}
		}
	}
	got := sortedKeys(pm.Vault.LiveFuncs)
	if !sameStrings(got, sortedKeys(want)) {
		w.Violate([]string{"C02", "C10"}, "the vault of the current manager holds %v instead of %v", got, sortedKeys(want))
	}
}

func (w *World) attemptN(n int) *Attempt {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n < 1 || n > len(w.Attempts) {
		return nil
	}
	return w.Attempts[n-1]
}

// read is one visit of a reader: it looks, invokes everything and looks up a plugin.
func (w *concWorld) read() {
	pm := w.look(0)
	if pm == nil {
		return
	}
	n := len(pm.Plugins())
	s0 := w.seq()
	g := rt.Goid()
	pm.InvokeEach("tick")
	s1 := w.seq()
	cnt := 0
	w.mu.Lock()
	for _, e := range w.Evs[s0:s1] {
		if e.Kind == "Invoke" && !e.End && e.G == g {
			cnt++
			if len(e.Inst.Free) > 0 {
				w.c.violate([]string{"C03"}, fmt.Sprintf("a reader invoked %s of the manager it had just obtained, but it had been freed", e.Inst))
			}
		}
	}
	w.mu.Unlock()
	if cnt != n {
		w.Violate([]string{"C11", "C02"}, "InvokeEach of a reader reached %d of %d plugins", cnt, n)
	}
	for _, p := range pm.Plugins() {
		if q := pm.FindPlugin(p.Name); q != p {
			w.Violate([]string{"C02", "C13"}, "FindPlugin(%q) of a manager obtained by a reader does not return its plugin", p.Name)
		}
	}
}

type thread struct {
	name string
	f    func(w *concWorld)
}

// Conc executes one schedule.
func Conc(c *Ctx, bound int, advances bool, setup func(w *concWorld), threads []thread) {
	defer ignoreLeak()
	rt.NewEpoch()
	synctest.Test(c.r.T, func(t *testing.T) {
		base := newWorld(c)
		base.conc = true
		w := &concWorld{World: base, ends: map[int]int{}, begs: map[int]int{}, advances: advances}
		curWorld = base
		rt.SetMode(rt.Ctl)
		ctl := rt.NewCtlr(bound, func(n int, what string) int { return c.Choose(n, what) })
		ctl.Advances = advances
		ctl.Install()
		ctl.Setup(func() { setup(w) })
		for _, th := range threads {
			th := th
			rt.GoNamed(th.name, true, func() {
				defer func() {
					if x := recover(); x != nil {
						w.Violate([]string{"HARNESS"}, "thread %s: panic %v", th.name, x)
					}
				}()
				th.f(w)
			})
		}
		ctl.Loop()
		if len(c.viol) > 0 || c.r.replay != nil {
			c.desc = "schedule: " + strings.Join(ctl.Trace, " ")
		}
		if ctl.Deadlock != "" || ctl.Overrun {
			what := "deadlock: " + ctl.Deadlock
			if ctl.Overrun {
				what = "livelock: the threads do not come to an end"
			}
			c.desc = "schedule: " + strings.Join(ctl.Trace, " ")
			w.dump()
			c.violate([]string{"C23"}, what)
			c.r.finishAfterDeadlock(c)
		}
		rt.SetMode(rt.Seq)
		w.judgeConc()
		c.r.State(w.concState())
		c.r.Res.Trans += int64(ctl.Steps)
		if len(c.viol) > 0 && c.desc == "" {
			c.desc = "schedule: " + strings.Join(ctl.Trace, " ")
		}
		w.finish()
	})
	rt.SetMode(rt.Seq)
	curWorld = nil
}

// concState: the observable outcome of a schedule.
func (w *concWorld) concState() string {
	var b strings.Builder
	for _, a := range w.Attempts {
		fmt.Fprintf(&b, "%s:%v;", a.Kind, a.Err != nil)
	}
	for _, o := range w.obs {
		n := 0
		if o.pm != nil {
			n = w.mgrAt[o.pm]
		}
		fmt.Fprintf(&b, "%s=%d/%d;", o.thread, n, o.cnt)
	}
	for _, e := range w.Evs {
		if e.Kind == "newExt" || e.Kind == "OnFree" && !e.End {
			fmt.Fprintf(&b, "%s%d@%v;", e.Kind, e.Attempt, e.At)
		}
	}
	return b.String()
}

func isAttemptEv(k string) bool {
	return isLifecycle(k) || k == "CB1" || k == "CB2" || k == "newExt" || k == "LiveFuncs" || k == "LiveTypes" || k == "Open"
}

func (w *concWorld) judgeConc() {
	n := len(w.Attempts)
	first, last := make([]int, n+1), make([]int, n+1)
	bad := make([]*Ev, n+1)
	newIn := make([]map[*Instance]bool, n+1)
	for i := range first {
		first[i], last[i] = -1, -1
		newIn[i] = map[*Instance]bool{}
	}
	for i := range w.Evs {
		e := &w.Evs[i]
		if e.Attempt == 0 || !(isAttemptEv(e.Kind) || e.Kind == "OnFree") {
			continue
		}
		if first[e.Attempt] < 0 {
			first[e.Attempt] = i
		}
		last[e.Attempt] = i
		if e.Bad && e.Kind != "OnFree" && bad[e.Attempt] == nil {
			bad[e.Attempt] = e
		}
		if e.Kind == "Open" && e.Inst != nil && !e.Bad {
			newIn[e.Attempt][e.Inst] = true
		}
	}
	// attempts never interleave
	var order []int
	for i := 1; i <= n; i++ {
		if first[i] >= 0 {
			order = append(order, i)
		}
	}
	sort.Slice(order, func(x, y int) bool { return first[order[x]] < first[order[y]] })
	for i := 1; i < len(order); i++ {
		p, q := order[i-1], order[i]
		if first[q] < last[p] {
			w.Violate([]string{"C23"}, "attempts %d and %d interleave: %s happened before %s", p, q, w.Evs[first[q]].String(), w.Evs[last[p]].String())
		}
	}
	// outcomes
	for _, a := range w.Attempts {
		label := fmt.Sprintf("attempt %d (%s)", a.N, a.Kind)
		if a.Panicked != nil {
			w.Violate([]string{"C12", "C23"}, "%s: a panic escaped to the caller: %v", label, a.Panicked)
			continue
		}
		if a.Err == nil && first[a.N] < 0 {
			w.Violate([]string{"C23", "C08", "C14"}, "%s succeeded without having called anything", label)
		}
		if a.Err == nil && bad[a.N] != nil {
			w.Violate([]string{"C01", "C23"}, "%s succeeded although %s", label, bad[a.N].String())
		}
		if a.Err != nil && bad[a.N] == nil {
			w.Violate([]string{"C23", "C01"}, "%s failed although nothing it called failed: %v", label, firstLine(a.Err))
		}
	}
	// the managers, in the order of the attempts
	w.mgrAt = map[*hotswap.PluginManager]int{}
	seen := func(pm *hotswap.PluginManager) {
		if pm == nil {
			return
		}
		if x, _ := pm.Vault.Extension.(*Ext); x != nil {
			w.mgrAt[pm] = x.Attempt
		}
	}
	byAtt := map[int]*hotswap.PluginManager{}
	for _, c := range w.CBSeen {
		seen(c.New)
		if c.New != nil && c.Attempt > 0 {
			byAtt[c.Attempt] = c.New
			if w.mgrAt[c.New] != c.Attempt {
				w.Violate([]string{"C14", "C23"}, "%s of attempt %d received the manager of attempt %d", c.Which, c.Attempt, w.mgrAt[c.New])
			}
		}
	}
	for _, o := range w.obs {
		seen(o.pm)
		if o.pm != nil {
			a := w.attemptN(w.mgrAt[o.pm])
			if a == nil || a.Err != nil {
				w.Violate([]string{"C02", "C01"}, "thread %s saw a manager of the failed attempt %d", o.thread, w.mgrAt[o.pm])
			}
		}
	}
	rank := map[int]int{0: 0} // attempt -> position among the successful ones
	pos := 0
	prev := 0
	var chain []int
	for _, i := range order {
		a := w.Attempts[i-1]
		ok := a.Err == nil && a.Panicked == nil
		pm := byAtt[i]
		// callbacks
		n1, n2 := 0, 0
		for _, c := range w.CBSeen {
			if c.Attempt != i {
				continue
			}
			if c.Which == "CB1" {
				n1++
			} else {
				n2++
			}
			if c.Old != byAttOrNil(byAtt, prev) {
				w.Violate([]string{"C14", "C23"}, "%s of attempt %d did not receive the manager left by the previous successful attempt %d as the old one", c.Which, i, prev)
			}
			if c.Cur != byAttOrNil(byAtt, prev) {
				w.Violate([]string{"C02", "C23"}, "during %s of attempt %d the current manager is not the one left by attempt %d", c.Which, i, prev)
			}
		}
		if ok {
			want2 := 0
			if a.Kind == "ReloadCB" && a.CB2.Present {
				want2 = 1
			}
			if n1 != 1 || n2 != want2 {
				w.Violate([]string{"C14", "C23"}, "attempt %d (%s) succeeded, but the configured callback was called %d times and its own %d times", i, a.Kind, n1, n2)
			}
		}
		if !ok {
			// everything it had loaded is freed when it returns
			frees := map[*Instance]int{}
			exp := map[*Instance]bool{}
			for _, e := range w.Evs[:w.ends[i]] {
				if e.Kind == "OnFree" && !e.End && e.Attempt == i {
					frees[e.Inst]++
				}
				if e.Kind == "Export" && e.End && !e.Bad {
					exp[e.Inst] = true
				}
			}
			for in := range newIn[i] {
				if exp[in] && frees[in] != 1 {
					w.Violate([]string{"C04"}, "attempt %d failed: OnFree of the newly loaded %s was called %d times", i, in, frees[in])
				}
				delete(frees, in)
			}
			for in := range frees {
				w.Violate([]string{"C04", "C03"}, "attempt %d failed: it called OnFree of %s which it had not loaded", i, in)
			}
			continue
		}
		pos++
		rank[i] = pos
		chain = append(chain, i)
		if pm != nil {
			det := map[string]string{}
			for f, v := range a.Details {
				det[strings.ToLower(strings.TrimSuffix(filepath.Base(f), ".so"))] = v
			}
			for _, p := range pm.Plugins() {
				in := InstOf(p)
				if v, found := det[strings.ToLower(p.Name)]; in != nil && (!found || (v == "ok") != newIn[i][in]) {
					w.Violate([]string{"C08", "C23"}, "attempt %d: details say %q about %s (newly loaded: %v)", i, v, in, newIn[i][in])
				}
			}
			if len(det) != len(pm.Plugins()) {
				w.Violate([]string{"C08", "C23"}, "attempt %d: details %v do not name exactly the plugins of its manager", i, a.Details)
			}
			for _, p := range pm.Plugins() {
				in := InstOf(p)
				if in == nil || newIn[i][in] {
					continue
				}
				if prevPM := byAtt[prev]; prevPM == nil || !holds(prevPM, in) {
					w.Violate([]string{"C23", "C08"}, "attempt %d kept %s, which is not part of the manager left by attempt %d", i, in, prev)
				}
			}
			// versions that may be kept are kept
			if prevPM := byAtt[prev]; prevPM != nil {
				for in := range newIn[i] {
					if q := prevPM.FindPlugin(in.Name); q != nil {
						if o := InstOf(q); o != nil && (o.Spec.NonReloadable || o.Spec.UID == in.Spec.UID) {
							w.Violate([]string{"C08", "C23"}, "attempt %d loaded %s although %s had to be kept", i, in, o)
						}
					}
				}
			}
		}
		prev = i
	}
	// observations: monotonic in real time, no result is lost
	for x, o := range w.obs {
		ro := 0
		if o.pm != nil {
			ro = rank[w.mgrAt[o.pm]]
		}
		if o.own > 0 && ro < rank[o.own] {
			w.Violate([]string{"C02", "C23"}, "attempt %d returned success, but Current() called afterwards returned an older manager (of attempt %d)", o.own, w.mgrAt[o.pm])
		}
		for i := 1; i <= n; i++ {
			if w.Attempts[i-1].Err == nil && rank[i] > 0 && w.ends[i] <= o.s0 && ended(w, i, o.s0) && ro < rank[i] {
				w.Violate([]string{"C02", "C23"}, "thread %s saw an older manager after attempt %d had returned success", o.thread, i)
			}
		}
		for _, q := range w.obs[:x] {
			rq := 0
			if q.pm != nil {
				rq = rank[w.mgrAt[q.pm]]
			}
			if q.thread == o.thread || q.s1 < o.s0 {
				if ro < rq {
					w.Violate([]string{"C02"}, "thread %s saw an older manager than thread %s before", o.thread, q.thread)
				}
			}
			if q.thread == o.thread && o.cnt < q.cnt {
				w.Violate([]string{"C14"}, "thread %s saw the reload counter go back from %d to %d", o.thread, q.cnt, o.cnt)
			}
		}
	}
	var cur *hotswap.PluginManager = w.SW.Current()
	if cur != byAttOrNil(byAtt, prev) && (prev != 0 || cur != nil) {
		w.Violate([]string{"C02", "C23"}, "after everything, the current manager is of attempt %d, the last successful one is %d", w.mgrAt[cur], prev)
	}
	want := int64(0)
	for _, a := range w.Attempts {
		if a.Err == nil && a.Panicked == nil && a.Kind != "Load" {
			want++
		}
	}
	if got := w.SW.ReloadCounter(); got != want {
		w.Violate([]string{"C14", "C23"}, "the reload counter is %d after %d successful reloads", got, want)
	}
	// OnFree ledger over everything
	retLo, retHi := map[int]time.Duration{}, map[int]time.Duration{}
	for k := 0; k+1 < len(chain); k++ {
		nx := chain[k+1]
		for _, e := range w.Evs {
			if e.Attempt == nx && e.End && (e.Kind == "CB1" || e.Kind == "CB2") && e.At > retLo[chain[k]] {
				retLo[chain[k]] = e.At
			}
		}
		retHi[chain[k]] = w.Attempts[nx-1].T1
	}
	slow := time.Duration(0)
	for _, in := range w.Insts {
		for _, d := range in.Spec.Slow {
			slow += d
		}
	}
	for _, in := range w.Insts {
		inMgr, retired := false, true
		var lo, hi time.Duration
		for _, i := range chain {
			pm := byAtt[i]
			if pm == nil || !holds(pm, in) {
				continue
			}
			inMgr = true
			if i == prev {
				retired = false
			}
			if retLo[i] > lo {
				lo = retLo[i]
			}
			if retHi[i] > hi {
				hi = retHi[i]
			}
		}
		if !inMgr {
			if len(in.Free) > 1 {
				w.Violate([]string{"C03", "C04"}, "OnFree of %s was called %d times", in, len(in.Free))
			}
			continue
		}
		switch {
		case !retired && len(in.Free) > 0:
			w.Violate([]string{"C03"}, "OnFree of %s was called although it is part of the current manager", in)
		case retired && len(in.Free) != 1:
			w.Violate([]string{"C03"}, "OnFree of %s, which is retired, was called %d times (%v)", in, len(in.Free), in.Free)
		case retired && in.Free[0] < lo+w.Delay:
			w.Violate([]string{"C03"}, "OnFree of %s was called at %v, but its last manager was only retired at %v", in, in.Free[0], lo)
		case retired && !w.advances && in.Free[0] > hi+w.Delay+slow+10*time.Second:
			w.Violate([]string{"C03"}, "OnFree of %s was only called at %v although its last manager was retired at %v", in, in.Free[0], hi)
		}
	}
}

// ended: the call of attempt i returned before event s was logged, strictly.
func ended(w *concWorld, i, s int) bool { e, ok := w.ends[i]; return ok && e < s }

func byAttOrNil(m map[int]*hotswap.PluginManager, i int) *hotswap.PluginManager {
	if i == 0 {
		return nil
	}
	return m[i]
}

func holds(pm *hotswap.PluginManager, in *Instance) bool {
	for _, p := range pm.Plugins() {
		if InstOf(p) == in {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------------------- scenarios

type scenario struct {
	name     string
	bound    int // preemptions, quick
	tbound   int // preemptions, thorough
	advances bool
	setup    func(w *concWorld)
	threads  []thread
	opPoints bool
}

var reloadOK = CB{Present: true}

func abSpec(i, ver int) *Spec {
	s := &Spec{UID: fmt.Sprintf("%s%d", pname(i), ver)}
	if i == 1 {
		s.Deps = []Dep{{Field: "A", Kind: 0}}
	}
	s.Funcs = []string{"live_" + pname(i)}
	return s
}

func runConc(r *Runner) {
	put := func(w *concWorld, i, ver int, fs map[string]int) {
		s := abSpec(i, ver)
		s.Faults = fs
		w.mu.Lock()
		defer w.mu.Unlock()
		w.Put(pname(i), s)
	}
	opts := Opts{CB1: true, Delay: 20 * time.Second}
	loaded := func(w *concWorld) {
		w.NewSwapper(opts)
		put(w, 0, 1, nil)
		put(w, 1, 1, nil)
		w.op("Load", reloadOK, CB{})
		put(w, 0, 2, nil)
		put(w, 1, 2, nil)
	}
	loadedB := func(w *concWorld) { // only b changes
		w.NewSwapper(opts)
		put(w, 0, 1, nil)
		put(w, 1, 1, nil)
		w.op("Load", reloadOK, CB{})
		put(w, 1, 2, nil)
	}
	rel := func(kind string, cb1, cb2 CB) func(w *concWorld) {
		return func(w *concWorld) { w.op(kind, cb1, cb2) }
	}
	reader := func(k int) func(w *concWorld) {
		return func(w *concWorld) {
			for i := 0; i < k; i++ {
				rt.Point("reader")
				w.read()
			}
		}
	}
	own := CB{Present: true}
	var list []scenario
	add := func(s scenario) { list = append(list, s) }
	add(scenario{name: "load-load", bound: 3, tbound: 4, setup: func(w *concWorld) {
		w.NewSwapper(opts)
		put(w, 0, 1, nil)
		put(w, 1, 1, nil)
	}, threads: []thread{{"L1", rel("Load", reloadOK, CB{})}, {"L2", rel("Load", reloadOK, CB{})}}})
	add(scenario{name: "load-reload", bound: 3, tbound: 4, setup: func(w *concWorld) {
		w.NewSwapper(opts)
		put(w, 0, 1, nil)
		put(w, 1, 1, nil)
	}, threads: []thread{{"L", rel("Load", reloadOK, CB{})}, {"R", rel("Reload", reloadOK, CB{})}}})
	add(scenario{name: "reload-reload", bound: 2, tbound: 3, setup: loaded,
		threads: []thread{{"R1", rel("Reload", reloadOK, CB{})}, {"R2", rel("Reload", reloadOK, CB{})}}})
	add(scenario{name: "own-callbacks", bound: 2, tbound: 3, setup: loadedB,
		threads: []thread{{"R1", rel("ReloadCB", reloadOK, own)}, {"R2", rel("ReloadCB", reloadOK, own)}}})
	add(scenario{name: "own-callbacks3", bound: 1, tbound: 2, setup: loadedB,
		threads: []thread{{"R1", rel("ReloadCB", reloadOK, own)}, {"R2", rel("ReloadCB", reloadOK, own)}, {"R3", rel("Reload", reloadOK, CB{})}}})
	add(scenario{name: "reload3", bound: 1, tbound: 2, setup: loadedB,
		threads: []thread{{"R1", rel("Reload", reloadOK, CB{})}, {"R2", rel("Load", reloadOK, CB{})}, {"R3", rel("Reload", reloadOK, CB{})}}})
	add(scenario{name: "reload-reader", bound: 3, tbound: 4, setup: loadedB,
		threads: []thread{{"R", rel("Reload", reloadOK, CB{})}, {"V", reader(2)}}})
	add(scenario{name: "load-reader", bound: 3, tbound: 4, setup: func(w *concWorld) {
		w.NewSwapper(opts)
		put(w, 0, 1, nil)
		put(w, 1, 1, nil)
	}, threads: []thread{{"L", rel("Load", reloadOK, CB{})}, {"V", reader(2)}}})
	add(scenario{name: "reload-reload-reader", bound: 1, tbound: 2, setup: loadedB,
		threads: []thread{{"R1", rel("ReloadCB", reloadOK, own)}, {"R2", rel("Reload", reloadOK, CB{})}, {"V", reader(2)}}})
	add(scenario{name: "reload-2readers", bound: 1, tbound: 2, setup: loadedB,
		threads: []thread{{"R", rel("Reload", reloadOK, CB{})}, {"V1", reader(2)}, {"V2", reader(2)}}})
	// a failing reload next to a good one; the faulty b2 is replaced by b3 before the second reload
	for _, ph := range []string{"Export", "Import", "OnLoad", "OnInit", "CB1", "CB2", "Open"} {
		for _, f := range []int{FErr, FPanicStr} {
			if f == FErr && (ph == "Export" || ph == "Import") {
				continue
			}
			ph, f := ph, f
			cb1, cb2 := reloadOK, own
			fs := map[string]int{}
			switch ph {
			case "CB1":
				cb1.Fault = f
			case "CB2":
				cb2.Fault = f
			default:
				fs[ph] = f
			}
			add(scenario{name: fmt.Sprintf("fail-%s-%s", ph, faultNames[f]), bound: 1, tbound: 2, setup: func(w *concWorld) {
				w.NewSwapper(opts)
				put(w, 0, 1, nil)
				put(w, 1, 1, nil)
				w.op("Load", reloadOK, CB{})
				if ph == "Open" {
					s := abSpec(1, 2)
					s.OpenErr = true
					w.Put("b", s)
				} else {
					put(w, 1, 2, fs)
				}
			}, threads: []thread{
				{"R1", rel("ReloadCB", cb1, cb2)},
				{"R2", func(w *concWorld) { put(w, 1, 3, nil); w.op("ReloadCB", reloadOK, own) }},
				{"V", reader(1)},
			}})
		}
	}
	// delayed frees next to a reload: the manager of the first load is due while R runs
	for _, fp := range []int{NoFault, FPanicStr} {
		fp := fp
		add(scenario{name: fmt.Sprintf("free-reload-%s", faultNames[fp]), bound: 2, tbound: 3, advances: true, setup: func(w *concWorld) {
			w.NewSwapper(opts)
			put(w, 0, 1, nil)
			put(w, 1, 1, map[string]int{"OnFree": fp})
			w.op("Load", reloadOK, CB{})
			put(w, 1, 2, nil)
			w.op("Reload", reloadOK, CB{})
			put(w, 1, 3, nil)
		}, threads: []thread{{"R", rel("Reload", reloadOK, CB{})}}})
		add(scenario{name: fmt.Sprintf("free-free-%s", faultNames[fp]), bound: 1, tbound: 2, setup: func(w *concWorld) {
			w.NewSwapper(opts)
			put(w, 0, 1, nil)
			put(w, 1, 1, map[string]int{"OnFree": fp})
			w.op("Load", reloadOK, CB{})
			put(w, 1, 2, nil)
			w.op("Reload", reloadOK, CB{})
			put(w, 0, 2, nil)
			put(w, 1, 3, nil)
			w.op("Reload", reloadOK, CB{})
			put(w, 1, 4, nil)
			w.op("Reload", reloadOK, CB{})
		}, threads: []thread{{"V", reader(1)}}})
	}
	add(scenario{name: "free-fail", bound: 2, tbound: 3, advances: true, setup: func(w *concWorld) {
		w.NewSwapper(opts)
		put(w, 0, 1, nil)
		put(w, 1, 1, nil)
		w.op("Load", reloadOK, CB{})
		put(w, 1, 2, nil)
		w.op("Reload", reloadOK, CB{})
		put(w, 1, 3, map[string]int{"OnInit": FErr})
	}, threads: []thread{{"R", rel("Reload", reloadOK, CB{})}}})
	add(scenario{name: "free-reload-reload", bound: 1, tbound: 2, advances: true, setup: func(w *concWorld) {
		w.NewSwapper(opts)
		put(w, 0, 1, nil)
		put(w, 1, 1, nil)
		w.op("Load", reloadOK, CB{})
		put(w, 1, 2, nil)
		w.op("Reload", reloadOK, CB{})
	}, threads: []thread{
		{"R1", func(w *concWorld) { put(w, 1, 3, nil); w.op("Reload", reloadOK, CB{}) }},
		{"R2", func(w *concWorld) { w.op("Reload", reloadOK, CB{}) }}}})
	// two reloads in a row against another one
	add(scenario{name: "rr-r", bound: 1, tbound: 2, setup: loadedB, threads: []thread{
		{"R1", func(w *concWorld) {
			w.op("Reload", reloadOK, CB{})
			put(w, 0, 5, nil)
			put(w, 1, 5, nil)
			w.op("Reload", reloadOK, CB{})
		}},
		{"R2", rel("ReloadCB", reloadOK, own)}}})
	// file operations as scheduling points: the files are replaced while reloads run
	add(scenario{name: "files", bound: 2, tbound: 3, opPoints: true, setup: loadedB, threads: []thread{
		{"R1", rel("Reload", reloadOK, CB{})},
		{"W", func(w *concWorld) {
			for v := 3; v < 5; v++ {
				rt.Point("writer")
				put(w, 1, v, nil)
			}
			w.op("Reload", reloadOK, CB{})
		}}}})
	r.Bound("threads", "2 or 3 (loads, reloads, readers, a file writer) plus every delayed free")
	r.Bound("preemptions", "quick 1-3, thorough 2-4 per scenario; switching at a blocked or finished thread is free")
	r.Bound("scheduling points", "lock, unlock, atomic load/store/add, goroutine start, sleep/wake, begin and end of every plugin function and callback, dlopen; in scenario files every file operation")
	run := func(s scenario, k int, coarse bool) {
		mode := "fine"
		if coarse {
			mode = "coarse"
		}
		r.CaseDFS(fmt.Sprintf("conc/%s/%s/p%d", s.name, mode, k), 5, func(c *Ctx) {
			rt.OpPoints, rt.Coarse = s.opPoints, coarse
			Conc(c, k, s.advances, s.setup, s.threads)
			rt.OpPoints, rt.Coarse = false, false
		})
	}
	for _, s := range list { // the simplest counterexamples first
		run(s, 0, true)
	}
	for _, s := range list {
		run(s, s.bound, true)
	}
	if r.Thorough() {
		for _, s := range list {
			run(s, s.bound, false)
		}
		for _, s := range list {
			run(s, s.tbound, true)
		}
	}
}

// runSlowRead: while a load or reload is in the middle of any plugin function or callback (which
// takes an hour), readers of the current and of older managers are served at once.
func runSlowRead(r *Runner) {
	phases := []string{"Reloadable", "Export", "Import", "OnLoad", "LiveFuncs", "LiveTypes", "OnInit", "CB1", "CB2", "OnFree", "Open"}
	r.Bound("phases", "%v, of each plugin, in a first load and in reloads that succeed and fail", phases)
	for _, ph := range phases {
		for _, who := range []string{"a", "b"} {
			for _, first := range []bool{true, false} {
				for _, fail := range []string{"", "OnInit", "CB1"} {
					r.Case(fmt.Sprintf("slowread/%s/%s/first=%v/fail=%s", ph, who, first, fail), func(c *Ctx) {
						Seq(c, []string{"C02", "C23"}, func(w *World) { slowRead(w, ph, who, first, fail) })
					})
				}
			}
		}
	}
}

func slowRead(w *World, ph, who string, first bool, fail string) {
	w.NewSwapper(Opts{CB1: true, Delay: 20 * time.Second})
	put := func(i, v int, fs map[string]int) {
		s := abSpec(i, v)
		s.Faults = fs
		w.Put(pname(i), s)
	}
	var olds []*hotswap.PluginManager
	if !first {
		put(0, 1, nil)
		put(1, 1, nil)
		w.Do("Load", 0, reloadOK, CB{}, "C01")
		olds = append(olds, w.SW.Current())
		put(1, 2, nil)
		w.Do("Reload", 0, reloadOK, CB{}, "C01")
		olds = append(olds, w.SW.Current())
	}
	want := w.SW.Current()
	cnt := w.SW.ReloadCounter()
	armed := true
	probe := func() {
		if !armed {
			return
		}
		armed = false
		t0 := time.Now()
		done := make(chan string, 1)
		go func() {
			msg := ""
			if w.SW.Current() != want {
				msg = "Current() does not return the manager that was current before the attempt"
			}
			if w.SW.ReloadCounter() != cnt {
				msg = "the reload counter moved before the attempt was over"
			}
			_ = w.SW.StaticLinkingMode()
			for _, pm := range olds {
				n := 0
				for _, p := range pm.Plugins() {
					if pm.FindPlugin(p.Name) != p {
						msg = "FindPlugin of an older manager does not find its plugin"
					}
					n++
				}
				pm.InvokeEach("x")
				pm.InvokeEachBackward("x")
			}
			done <- msg
		}()
		var msg string
		time.Sleep(time.Hour)
		select {
		case msg = <-done:
			if msg != "" {
				w.Violate([]string{"C02"}, "while %s of %s is running: %s", ph, who, msg)
			}
		default:
			w.Violate([]string{"C02"}, "while %s of %s is running, Current() or the use of a manager obtained earlier is blocked", ph, who)
			<-done
		}
		_ = t0
	}
	w.EnterHook = func(phase string, in *Instance) {
		if phase == ph && in.Name == who {
			probe()
		}
	}
	w.OpenHook = func(path string) {
		if ph == "Open" && strings.HasPrefix(baseOf(path), who) {
			probe()
		}
	}
	w.CBHook = func(which string, n, o *hotswap.PluginManager) {
		if which == ph {
			probe()
		}
	}
	cb1 := reloadOK
	var fs map[string]int
	switch fail {
	case "CB1":
		cb1.Fault = FErr
	case "OnInit":
		fs = map[string]int{"OnInit": FPanicStr}
	}
	put(0, 7, nil)
	put(1, 7, fs)
	kind := "ReloadCB"
	if first {
		kind = "Load"
	}
	w.Do(kind, 1, cb1, CB{Present: true}, "C01")
	armed = false
	w.Retire("end")
}
