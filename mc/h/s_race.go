package h

import (
	"errors"
	"os"
	"path/filepath"
	"plugin"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
	"verif.local/mc/rt"
)

// The race suite runs the schedules of overlapping loads, reloads, readers and delayed frees under
// the race detector. The scheduler's own synchronisation is hidden from the detector (rt.raceOff),
// and the harness is compiled without instrumentation, so that in every schedule the detector sees
// exactly the happens-before edges of the code under test: a pair of conflicting accesses that is
// not ordered by them is reported in every schedule in which both are executed.

func init() {
	register(&Suite{Name: "race", Props: []string{"C23"}, Mode: rt.Ctl, Run: runRace})
	register(&Suite{Name: "readrace", Props: []string{"C02", "C16", "C24"}, Mode: rt.Ctl, Run: runReadRace})
	register(&Suite{Name: "twinrace", Props: []string{"C26"}, Mode: rt.Ctl, Run: runTwinRace})
}

var raceOpen func(path string) (*plugin.Plugin, error)

type rfake struct {
	name  string
	dep   bool
	fault string // phase that fails or panics
	pan   bool
	imp   any
	uid   string
	extra int
}

type RExp struct{ N int }

func (f *rfake) hit(phase string) error {
	rt.Point("cb:" + phase)
	if f.fault == phase {
		if f.pan {
			panic("boom")
		}
		return errors.New("injected")
	}
	return nil
}

func (f *rfake) syms() map[string]any {
	exp := &RExp{}
	return map[string]any{
		"OnLoad":     func(data interface{}) error { return f.hit("OnLoad") },
		"OnInit":     func(v *vault.Vault) error { return f.hit("OnInit") },
		"OnFree":     func() { _ = f.hit("OnFree") },
		"Export":     func() interface{} { _ = f.hit("Export"); return exp },
		"Reloadable": func() bool { _ = f.hit("Reloadable"); return true },
		"Import": func() interface{} {
			_ = f.hit("Import")
			if f.dep {
				if f.imp == nil {
					f.imp = &struct{ A *RExp }{}
				}
				return f.imp
			}
			return nil
		},
		"InvokeFunc":       func(name string, params ...interface{}) (interface{}, error) { return nil, f.hit("Invoke") },
		"HotswapLiveFuncs": func() map[string]interface{} { return map[string]interface{}{"live_" + f.name: 1} },
		"HotswapLiveTypes": func() map[string]func() interface{} {
			return map[string]func() interface{}{"Live_" + f.name: func() interface{} { return &RExp{} }}
		},
		"Extra": &f.extra,
		"Fn":    func() string { return f.uid },
	}
}

type nolog struct{}

func (nolog) NewLoggerWith(keyVals ...any) slog.Logger { return nolog{} }
func (nolog) Debug(args ...any)                        {}
func (nolog) Info(args ...any)                         {}
func (nolog) Warn(args ...any)                         {}
func (nolog) Error(args ...any)                        {}
func (nolog) Debugf(format string, args ...any)        {}
func (nolog) Infof(format string, args ...any)         {}
func (nolog) Warnf(format string, args ...any)         {}
func (nolog) Errorf(format string, args ...any)        {}
func (nolog) Debugw(msg string, keyVals ...any)        {}
func (nolog) Infow(msg string, keyVals ...any)         {}
func (nolog) Warnw(msg string, keyVals ...any)         {}
func (nolog) Errorw(msg string, keyVals ...any)        {}
func (nolog) FlushLogger() error                       { return nil }

// raceFile: the content of a plugin file says how it behaves.
func raceFile(dir, name, uid, fault string, pan bool) {
	s := "race\n" + uid + "\n" + fault + "\n"
	if pan {
		s += "panic\n"
	} else {
		s += "error\n"
	}
	if err := os.WriteFile(filepath.Join(dir, name+".so"), []byte(s), 0644); err != nil {
		panic(err)
	}
}

func doRaceOpen(path string) (*plugin.Plugin, error) {
	rt.Point("cb:Open")
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	a := strings.Split(string(b), "\n")
	if len(a) < 4 || a[0] != "race" {
		return nil, errors.New("invalid ELF header")
	}
	f := &rfake{uid: a[1], name: a[1][:1], dep: a[1][:1] == "b", fault: a[2], pan: a[3] == "panic"}
	return plugin.VerifNew(f.syms(), a[1]), nil
}

type raceWorld struct {
	dir  string
	sw   *hotswap.PluginManagerSwapper
	peer *raceWorld // a second swapper
}

func (w *raceWorld) newSwapper() {
	w.sw = hotswap.NewPluginManagerSwapper(w.dir, hotswap.WithLogger(nolog{}), hotswap.WithFreeDelay(20*time.Second),
		hotswap.WithExtensionNewer(func() interface{} { return new(int) }),
		hotswap.WithReloadCallback(func(n, o *hotswap.PluginManager) error { rt.Point("cb:CB1"); return nil }))
}

func (w *raceWorld) op(kind string) func() {
	return func() {
		var d hotswap.Details
		switch kind {
		case "Load":
			d, _ = w.sw.LoadPlugins("x")
		case "Reload":
			d, _ = w.sw.Reload("x")
		case "ReloadCB":
			d, _ = w.sw.ReloadWithCallback("x", func(n, o *hotswap.PluginManager) error { rt.Point("cb:CB2"); return nil })
		case "ReloadCBFail":
			d, _ = w.sw.ReloadWithCallback("x", func(n, o *hotswap.PluginManager) error { rt.Point("cb:CB2"); panic("boom") })
		}
		_ = d.String()
		w.read()
	}
}

func (w *raceWorld) read() {
	_ = w.sw.ReloadCounter()
	_ = w.sw.StaticLinkingMode()
	pm := w.sw.Current()
	if pm == nil {
		return
	}
	for _, p := range pm.Plugins() {
		q := pm.FindPlugin(p.Name)
		_ = q.Note + q.File + q.Name
		var x *int
		_ = q.Lookup("Extra", &x)
	}
	n := 0
	for range pm.Vault.LiveFuncs {
		n++
	}
	for _, f := range pm.Vault.LiveTypes {
		_ = f()
		n++
	}
	_ = pm.Vault.DataBag["x"]
	rt.Point("reader")
	pm.InvokeEach("x", n)
	pm.InvokeEachBackward("x", n)
}

func raceExec(c *Ctx, bound int, advances, twin bool, setup func(w *raceWorld), mk func(w *raceWorld) []func()) {
	defer ignoreLeak()
	dir := c.r.caseDir()
	defer os.RemoveAll(dir)
	dir2 := ""
	if twin {
		dir2 = c.r.caseDir()
		defer os.RemoveAll(dir2)
	}
	rt.NewEpoch()
	synctest.Test(c.r.T, func(t *testing.T) {
		w := &raceWorld{dir: dir}
		raceOpen = doRaceOpen
		rt.SetMode(rt.Ctl)
		rt.Coarse = true
		ctl := rt.NewCtlr(bound, func(n int, what string) int { return c.Choose(n, what) })
		ctl.Advances = advances
		ctl.Install()
		w.newSwapper()
		if twin {
			w.peer = &raceWorld{dir: dir2}
			w.peer.newSwapper()
		}
		ctl.Setup(func() { setup(w) })
		for i, f := range mk(w) {
			rt.GoNamed("T"+string(rune('1'+i)), true, f)
		}
		ctl.Loop()
		c.r.Res.Trans += int64(ctl.Steps)
		if ctl.Deadlock != "" || ctl.Overrun {
			c.desc = "schedule: " + strings.Join(ctl.Trace, " ")
			props := []string{"C23"}
			if twin {
				props = append(props, "C26")
			}
			c.violate(props, "deadlock: "+ctl.Deadlock)
			c.r.finishAfterDeadlock(c)
		}
		c.r.State(strings.Join(ctl.Trace, " "))
		rt.SetMode(rt.Seq)
		rt.Coarse = false
	})
	raceOpen = nil
}

func runRace(r *Runner) {
	r.Bound("schedules", "2-3 threads (loads, reloads with good, failing and panicking plugins and callbacks, readers) plus delayed frees; quick 1, thorough 2-3 preemptions")
	r.Bound("detector", "happens-before race detection in every schedule; the scheduler's edges are hidden")
	first := func(w *raceWorld) {
		raceFile(w.dir, "a", "a1", "", false)
		raceFile(w.dir, "b", "b1", "", false)
	}
	loaded := func(faultB string, pan bool, second bool) func(w *raceWorld) {
		return func(w *raceWorld) {
			first(w)
			if _, err := w.sw.LoadPlugins("x"); err != nil {
				panic(err)
			}
			raceFile(w.dir, "b", "b2", "", false)
			if second {
				if _, err := w.sw.Reload("x"); err != nil {
					panic(err)
				}
			}
			raceFile(w.dir, "b", "b3", faultB, pan)
		}
	}
	type sc struct {
		name     string
		bound    int
		tbound   int
		advances bool
		setup    func(w *raceWorld)
		ops      []string
	}
	list := []sc{
		{"load-load", 2, 3, false, first, []string{"Load", "Load"}},
		{"load-reload", 2, 3, false, first, []string{"Load", "Reload"}},
		{"load-read", 2, 3, false, first, []string{"Load", "read"}},
		{"reload-reload", 1, 2, false, loaded("", false, false), []string{"Reload", "Reload"}},
		{"reloadcb-reloadcb", 1, 2, false, loaded("", false, false), []string{"ReloadCB", "ReloadCB"}},
		{"reload-read", 2, 3, false, loaded("", false, false), []string{"Reload", "read"}},
		{"reload-reload-read", 1, 1, false, loaded("", false, false), []string{"Reload", "ReloadCB", "read"}},
		{"reload-load-read", 1, 1, false, loaded("", false, false), []string{"Load", "Reload", "read"}},
		{"cbfail-reload-read", 1, 1, false, loaded("", false, false), []string{"ReloadCBFail", "Reload", "read"}},
		{"free-reload", 1, 2, true, loaded("", false, true), []string{"Reload", "read"}},
		{"free-free", 1, 2, false, loaded("", false, true), []string{"Reload"}},
	}
	for _, ph := range []string{"OnLoad", "OnInit", "Export"} {
		list = append(list, sc{"fail-" + ph, 1, 2, false, loaded(ph, true, false), []string{"Reload", "ReloadCB"}},
			sc{"fail-read-" + ph, 1, 2, true, loaded(ph, ph == "Export", true), []string{"Reload", "read"}})
	}
	for _, s := range list {
		b := s.bound
		if r.Thorough() {
			b = s.tbound
		}
		r.CaseDFS("race/"+s.name, 4, func(c *Ctx) {
			raceExec(c, b, s.advances, false, s.setup, func(w *raceWorld) []func() { return w.threads(s.ops) })
		})
	}
}

// threads: the operations of the threads; those of the second swapper are marked "2:".
func (w *raceWorld) threads(ops []string) (fs []func()) {
	for _, o := range ops {
		x := w
		if strings.HasPrefix(o, "2:") {
			x, o = w.peer, o[2:]
		}
		if o == "read" {
			fs = append(fs, func() { x.read(); rt.Point("reader"); x.read() })
		} else {
			fs = append(fs, x.op(o))
		}
	}
	return fs
}

// runTwinRace: two swappers used at the same time.
func runTwinRace(r *Runner) {
	r.Bound("schedules", "one thread per swapper (first load, reload, failing reload, reader) plus delayed frees of either; no preemption (first loads: 1), thorough 1")
	r.Bound("detector", "happens-before race detection in every schedule; the scheduler's edges are hidden")
	files := func(w *raceWorld, n string, fault string) {
		raceFile(w.dir, "a", "a"+n, "", false)
		raceFile(w.dir, "b", "b"+n, fault, false)
	}
	first := func(w *raceWorld) {
		files(w, "1", "")
		files(w.peer, "1", "")
	}
	loaded := func(fault string, twice bool) func(w *raceWorld) {
		return func(w *raceWorld) {
			first(w)
			for _, x := range []*raceWorld{w, w.peer} {
				if _, err := x.sw.LoadPlugins("x"); err != nil {
					panic(err)
				}
				if twice {
					files(x, "2", "")
					if _, err := x.sw.Reload("x"); err != nil {
						panic(err)
					}
				}
				files(x, "3", "")
			}
			files(w, "4", fault)
		}
	}
	list := []struct {
		name     string
		advances bool
		setup    func(w *raceWorld)
		ops      []string
	}{
		{"load-load", false, first, []string{"Load", "2:Load"}},
		{"reload-reload", false, loaded("", false), []string{"ReloadCB", "2:ReloadCB"}},
		{"reload-read", false, loaded("", false), []string{"Reload", "2:read"}},
		{"fail-reload", false, loaded("OnInit", false), []string{"Reload", "2:Reload"}},
		{"free-reload", true, loaded("", true), []string{"Reload", "2:read"}},
		{"free-free", false, loaded("", true), []string{"Reload", "2:Reload"}},
	}
	for _, s := range list {
		b := 0
		if s.name == "load-load" || r.Thorough() {
			b = 1
		}
		r.CaseDFS("twinrace/"+s.name, 4, func(c *Ctx) {
			raceExec(c, b, s.advances, true, s.setup, func(w *raceWorld) []func() { return w.threads(s.ops) })
		})
	}
}

// runReadRace: any number of goroutines may use a manager at once.
func runReadRace(r *Runner) {
	r.Bound("schedules", "2 threads that read, look up symbols in, invoke or print the same manager, or two managers that share a kept plugin, at once, with and without a reload; up to 2 preemptions, 1 with a reload or two phases of reading (thorough 3 and 2)")
	r.Bound("detector", "happens-before race detection in every schedule; the scheduler's edges are hidden")
	type env struct {
		w        *raceWorld
		old, cur *hotswap.PluginManager
		d        hotswap.Details
		text     string
	}
	setup := func(e *env) func(w *raceWorld) {
		return func(w *raceWorld) {
			e.w = w
			raceFile(w.dir, "a", "a1", "", false)
			raceFile(w.dir, "b", "b1", "", false)
			if _, err := w.sw.LoadPlugins("x"); err != nil {
				panic(err)
			}
			e.old = w.sw.Current()
			raceFile(w.dir, "b", "b2", "", false)
			d, err := w.sw.Reload("x")
			if err != nil {
				panic(err)
			}
			e.cur, e.d, e.text = w.sw.Current(), d, "a: unchanged, b: ok"
			raceFile(w.dir, "b", "b3", "", false)
		}
	}
	lookup := func(c *Ctx, pm *hotswap.PluginManager, name, uid string) {
		p := pm.FindPlugin(name)
		var fn func() string
		if err := p.Lookup("Fn", &fn); err != nil || fn() != uid {
			c.violate([]string{"C16"}, "a lookup that runs at the same time as others does not find the function of "+uid)
		}
		rt.Point("reader")
		var x *int
		if err := p.Lookup("Extra", &x); err != nil || x == nil {
			c.violate([]string{"C16"}, "a lookup that runs at the same time as others does not find the variable of "+uid)
		}
		var y map[string]int
		if err := p.Lookup("Extra", &y); err == nil || err == hotswap.ErrNotExist || y != nil {
			c.violate([]string{"C16"}, "a lookup of the wrong type that runs at the same time as others does not fail properly")
		}
		if err := p.Lookup("None", &y); err != hotswap.ErrNotExist {
			c.violate([]string{"C16"}, "a lookup of a missing symbol that runs at the same time as others does not return ErrNotExist")
		}
	}
	acts := map[string]func(c *Ctx, e *env){
		"lookup":    func(c *Ctx, e *env) { lookup(c, e.cur, "a", "a1"); lookup(c, e.cur, "b", "b2") },
		"lookupold": func(c *Ctx, e *env) { lookup(c, e.old, "b", "b1"); lookup(c, e.old, "A", "a1") },
		"details": func(c *Ctx, e *env) {
			if t := e.d.String(); t != e.text {
				c.violate([]string{"C24"}, "details printed by two goroutines at once read "+t)
			}
			rt.Point("reader")
			_ = e.d.String()
		},
		"read":   func(c *Ctx, e *env) { e.w.read() },
		"reload": func(c *Ctx, e *env) { e.w.op("Reload")() },
		"readold": func(c *Ctx, e *env) {
			for _, p := range e.old.Plugins() {
				if q := e.old.FindPlugin(strings.ToUpper(p.Name)); q != p || len(q.Name+q.File+q.Note)+len(q.Deps) == 0 {
					c.violate([]string{"C02"}, "a manager obtained earlier changed")
				}
			}
			rt.Point("reader")
			e.old.InvokeEach("x", 1)
			rt.Point("reader")
			e.old.InvokeEachBackward("x", 1)
		},
	}
	list := [][2]string{{"lookup", "lookup"}, {"lookup", "lookupold"}, {"details", "details"}, {"read", "read"}, {"read", "readold"}, {"readold", "readold"}, {"reload", "lookup"}, {"reload", "lookupold"}, {"reload", "readold"}, {"lookup", "readold"}}
	b := 2
	if r.Thorough() {
		b = 3
	}
	for _, l := range list {
		l, b := l, b
		if l[0] == "reload" || l[0] == "read" {
			b--
		}
		r.CaseDFS("readrace/"+l[0]+"-"+l[1], 4, func(c *Ctx) {
			e := &env{}
			raceExec(c, b, false, false, setup(e), func(w *raceWorld) []func() {
				return []func(){func() { acts[l[0]](c, e) }, func() { acts[l[1]](c, e) }}
			})
		})
	}
}
