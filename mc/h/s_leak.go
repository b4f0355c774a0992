package h

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"
	"weak"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"verif.local/mc/rt"
)

// The leak suite: what stays behind in a process that loads and reloads for years. After every word of
// operations (and its delayed frees) the goroutines, the open files and the process-wide settings are
// what they were; managers that are not current any more, managers of failed attempts, the data and the
// callbacks given to an attempt are garbage; and the swapper itself does not grow.

func init() {
	register(&Suite{Name: "leak", Props: []string{"C28"}, Mode: rt.Seq, CrashTags: []string{"C12", "C28"}, HangTags: []string{"C23"}, Run: runLeak})
}

var leakOps = []string{"ab", "same", "a", "bad", "init", "panic", "freepanic", "cb", "ext", "drop", "keep", "nothing", "dup"}

const leakReps = 6

type token struct {
	what string
	pad  [64]byte // no tiny object
}

// tracked: something that must be garbage once it is not (a part of) the current manager.
type tracked struct {
	what string
	rest func(cur *hotswap.PluginManager) bool // is it still there, without being the current one's
}

type leakRun struct {
	c       *Ctx
	w       *World
	sw      *hotswap.PluginManagerSwapper
	extra   bool
	cbErr   string
	tracked []tracked
	ver     int
	nr      bool
	n       int // attempts so far
	curN    int // the one that made the current manager
	g0      int
}

func (l *leakRun) mgr(what string, pm *hotswap.PluginManager) {
	if pm != nil {
		p := weak.Make(pm)
		l.tracked = append(l.tracked, tracked{what, func(cur *hotswap.PluginManager) bool { return p.Value() != nil && p.Value() != cur }})
	}
}

// tok makes something that may live as long as the manager made by the same attempt.
func (l *leakRun) tok(what string) *token {
	t := &token{what: what}
	p := weak.Make(t)
	n := l.n
	l.tracked = append(l.tracked, tracked{what, func(cur *hotswap.PluginManager) bool {
		return p.Value() != nil && (cur == nil || n != l.curN)
	}})
	return t
}

func (l *leakRun) put(i int, f map[string]int) {
	l.ver++
	n := pname(i)
	sp := &Spec{UID: fmt.Sprintf("%s%d", n, l.ver), Faults: f, Funcs: []string{"live_" + n}, NonReloadable: l.nr && i == 0}
	if i == 1 {
		sp.Deps = []Dep{{Field: fname(0)}}
	}
	sp.OnInitHook = func(in *Instance, v *vault.Vault) {
		p := weak.Make(v)
		l.tracked = append(l.tracked, tracked{"the manager whose vault " + in.String() + " was given", func(cur *hotswap.PluginManager) bool {
			return p.Value() != nil && (cur == nil || p.Value() != &cur.Vault)
		}})
	}
	l.w.Put(n, sp)
}

func (l *leakRun) has(n string) bool {
	_, err := os.Stat(filepath.Join(l.w.Dir, n+".so"))
	return err == nil
}

// attempt keeps nothing alive itself.
func (l *leakRun) attempt(load bool, label string) {
	defer func() {
		if x := recover(); x != nil {
			l.w.Violate([]string{"C12"}, "%s panics: %v", label, x)
		}
	}()
	l.n++
	before := l.sw.Current()
	data := l.tok("the data given to " + label)
	var err error
	switch {
	case load:
		_, err = l.sw.LoadPlugins(data)
	case l.extra:
		t := l.tok("what the callback given to " + label + " refers to")
		fail := l.cbErr == "extra"
		_, err = l.sw.ReloadWithCallback(data, func(n, o *hotswap.PluginManager) error {
			l.mgr("the manager a callback of "+label+" was given", n)
			if fail {
				return fmt.Errorf("no, %s", t.what)
			}
			return nil
		})
	default:
		_, err = l.sw.Reload(data)
	}
	if err == nil && l.sw.Current() != before {
		l.curN = l.n
		l.mgr("the manager made by "+label, l.sw.Current())
	}
	for _, in := range l.w.Insts {
		in.VaultAtInit, in.BagAtInit, in.ExtAtInit, in.LoadData = nil, nil, nil, nil
	}
	l.w.mu.Lock()
	l.w.Evs = nil
	l.w.mu.Unlock()
	l.c.r.Transition()
}

func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(es)
}

func processWide() string {
	um := syscall.Umask(0)
	syscall.Umask(um)
	wd, _ := os.Getwd()
	return fmt.Sprint("working directory ", wd, ", umask ", um, ", GOMAXPROCS ", runtime.GOMAXPROCS(0), ", environment ", os.Environ())
}

// weight counts what can be reached from a value: objects and elements.
func weight(v reflect.Value, seen map[any]bool) int {
	if !v.IsValid() {
		return 0
	}
	if p := v.Type().PkgPath(); strings.HasPrefix(p, "verif.local/mc/h") {
		return 0
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || strings.HasPrefix(v.Type().Elem().PkgPath(), "verif.local/mc/h") {
			return 0
		}
		k := [2]any{v.Pointer(), v.Type()}
		if seen[k] {
			return 0
		}
		seen[k] = true
		return 1 + weight(v.Elem(), seen)
	case reflect.Interface:
		return weight(v.Elem(), seen)
	case reflect.Struct:
		n := 0
		for i := 0; i < v.NumField(); i++ {
			n += weight(v.Field(i), seen)
		}
		return n
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice {
			k := [3]any{v.Pointer(), v.Type(), v.Len()}
			if v.IsNil() || seen[k] {
				return 0
			}
			seen[k] = true
		}
		n := v.Len()
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Array, reflect.Map:
			for i := 0; i < v.Len(); i++ {
				n += weight(v.Index(i), seen)
			}
		}
		return n
	case reflect.Map:
		k := [2]any{v.Pointer(), v.Type()}
		if v.IsNil() || seen[k] {
			return 0
		}
		seen[k] = true
		n := v.Len()
		for it := v.MapRange(); it.Next(); {
			n += weight(it.Key(), seen) + weight(it.Value(), seen)
		}
		return n
	}
	return 0
}

func (l *leakRun) op(op, label string) {
	switch op {
	case "ab":
		l.put(0, nil)
		l.put(1, nil)
	case "same":
	case "a":
		l.put(0, nil)
	case "bad":
		l.w.PutRaw("a.so", []byte("this is no plugin"))
	case "init":
		l.put(0, nil)
		l.put(1, map[string]int{"OnInit": FErr})
	case "panic":
		l.put(0, nil)
		l.put(1, map[string]int{"Import": FPanicErr})
	case "freepanic":
		l.put(0, map[string]int{"OnFree": FPanicStr})
		l.put(1, map[string]int{"OnFree": FPanicErr})
	case "cb":
		l.put(0, nil)
		l.put(1, nil)
		l.cbErr = "cb1"
	case "ext":
		l.put(0, nil)
		l.put(1, nil)
		l.extra, l.cbErr = true, "extra"
	case "drop":
		if l.has("b") {
			l.w.Del("b")
		} else {
			l.put(0, nil)
			l.put(1, nil)
			l.extra = true
		}
	case "keep":
		l.nr = !l.nr
		l.put(0, nil)
		l.put(1, nil)
	case "nothing":
		for _, n := range []string{"a", "b"} {
			if l.has(n) {
				l.w.Del(n)
			}
		}
	case "dup":
		l.w.Put("A", &Spec{UID: fmt.Sprintf("A%d", l.ver)})
		defer os.Remove(filepath.Join(l.w.Dir, "A.so"))
	}
	l.attempt(false, label)
	l.extra, l.cbErr = false, ""
	if op == "nothing" {
		l.put(0, nil)
		l.put(1, nil)
	}
}

func runLeak(r *Runner) {
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	r.Bound("histories", "every word of 1-%d of %v, repeated %d times with the delayed frees in between", depth, leakOps, leakReps)
	r.Bound("observed", "goroutines, open files, working directory, environment, umask; liveness of every manager, data argument and callback after garbage collection; objects reachable from the swapper")
	var words [][]int
	var rec func(wd []int)
	rec = func(wd []int) {
		if len(wd) > 0 {
			words = append(words, append([]int(nil), wd...))
		}
		if len(wd) < depth {
			for i := range leakOps {
				rec(append(wd[:len(wd):len(wd)], i))
			}
		}
	}
	rec(nil)
	for _, wd := range words {
		var a []string
		for _, x := range wd {
			a = append(a, leakOps[x])
		}
		r.Case("leak/"+strings.Join(a, "."), func(c *Ctx) {
			Seq(c, []string{"C23"}, func(w *World) { leak(c, w, a) })
		})
	}
	r.Bound("faults", "every set of up to 2 failing file operations in each of %v", leakOps)
	for _, op := range leakOps {
		r.CaseDFS("leak/fault/"+op, 1, func(c *Ctx) {
			Seq(c, []string{"C23"}, func(w *World) { leakFault(c, w, op) })
			rt.OpHook = nil
		})
	}
	for i, ph := range []string{"", "OnLoad", "OnInit", "Import", "Export", "cb"} {
		r.Case(fmt.Sprintf("leak/static/%d", i), func(c *Ctx) {
			Seq(c, []string{"C23"}, func(w *World) { leakStatic(c, w, ph) })
		})
	}
}

func (l *leakRun) options() []hotswap.Option {
	t := &token{what: "no"}
	return []hotswap.Option{hotswap.WithLogger(l.w.Log), hotswap.WithFreeDelay(minDelay),
		hotswap.WithExtensionNewer(func() interface{} { return l.tok("an extension") }),
		hotswap.WithReloadCallback(func(n, o *hotswap.PluginManager) error {
			l.mgr("the manager the configured callback was given", n)
			if l.cbErr == "cb1" {
				return fmt.Errorf("%s", t.what)
			}
			return nil
		})}
}

func leak(c *Ctx, w *World, ops []string) {
	l := &leakRun{c: c, w: w}
	runtime.GC()
	l.g0 = runtime.NumGoroutine()
	f0, p0 := openFiles(), processWide()
	w.Delay = minDelay
	l.sw = hotswap.NewPluginManagerSwapper(w.Dir, l.options()...)
	l.put(0, nil)
	l.put(1, nil)
	l.attempt(true, "the first load")
	weights := map[int]int{}
	var left [][2]int
	for k := 1; k <= leakReps; k++ {
		for i, op := range ops {
			l.op(op, fmt.Sprintf("%s (%d.%d)", op, k, i+1))
			if n := openFiles(); n != f0 {
				w.Violate([]string{"C28"}, "%v: %d files are open after the call, %d before", ops[:i+1], n, f0)
				f0 = n
			}
		}
		w.Pause(w.Delay+time.Second, "free delay")
		if k%2 == 1 && k > 1 {
			continue
		}
		x := l.settle(fmt.Sprintf("%v, %d times", ops, k), f0, p0)
		for len(left) < k {
			left = append(left, x)
		}
		weights[k] = weight(reflect.ValueOf(l.sw), map[any]bool{})
	}
	l.grows(fmt.Sprint(ops), left)
	if weights[6] > weights[4] && weights[4] > weights[2] {
		w.Violate([]string{"C28"}, "%v: the swapper grows: %d objects and elements after 2 rounds, %d after 4, %d after 6", ops, weights[2], weights[4], weights[6])
	}
	c.r.State(fmt.Sprint("leak", ops, weights[2]))
	runtime.KeepAlive(l.sw)
}

// settle: all delays are over. What may stay is bounded: one round more must not leave more behind.
func (l *leakRun) settle(label string, f0 int, p0 string) (left [2]int) {
	w := l.w
	w.mu.Lock()
	w.Evs = nil
	w.mu.Unlock()
	if n := openFiles(); n != f0 {
		w.Violate([]string{"C28"}, "%s: %d files are left open, %d before", label, n, f0)
	}
	if p := processWide(); p != p0 {
		w.Violate([]string{"C28"}, "%s: process-wide settings changed from %s to %s", label, p0, p)
	}
	for i := 0; i < 5; i++ { // goroutines that are about to exit, garbage
		realPause(i)
		runtime.GC()
		left = [2]int{runtime.NumGoroutine(), len(l.leftOver())}
		if left[0] <= l.g0 && left[1] == 0 {
			break
		}
	}
	return left
}

func (l *leakRun) leftOver() (r []string) {
	cur := l.sw.Current()
	for _, t := range l.tracked {
		if t.rest(cur) {
			r = append(r, t.what)
		}
	}
	return r
}

// grows judges what was left after every round.
func (l *leakRun) grows(label string, left [][2]int) {
	n := len(left)
	a, b, c := left[n-5], left[n-3], left[n-1]
	if a[0] < b[0] && b[0] < c[0] {
		l.w.Violate([]string{"C28"}, "%s: goroutines pile up: %d before, %d, %d and %d after %d, %d and %d rounds and all delayed frees", label, l.g0, a[0], b[0], c[0], n-4, n-2, n)
	}
	if a[1] < b[1] && b[1] < c[1] {
		x := l.leftOver()
		l.w.Violate([]string{"C28"}, "%s: what nothing current needs piles up in memory: %d, %d and %d things after %d, %d and %d rounds and all delayed frees, such as %s", label, a[1], b[1], c[1], n-4, n-2, n, x[len(x)/2])
	}
}

func realPause(i int) {
	runtime.Gosched()
	if i > 2 {
		ts := syscall.NsecToTimespec(1e6)
		_ = syscall.Nanosleep(&ts, nil)
	}
}

func leakStatic(c *Ctx, w *World, ph string) {
	l := &leakRun{c: c, w: w}
	runtime.GC()
	l.g0 = runtime.NumGoroutine()
	f0, p0 := openFiles(), processWide()
	w.Delay = minDelay
	ps := map[string]*hotswap.StaticPlugin{}
	for i := 0; i < 3; i++ {
		sp := w.AddSpec(&Spec{UID: fmt.Sprintf("%s1", pname(i))})
		if i == 2 && ph != "" && ph != "cb" {
			sp.Faults = map[string]int{ph: FPanicErr}
		}
		ps[pname(i)] = w.StaticPlugin(pname(i), sp)
	}
	l.sw = hotswap.NewPluginManagerSwapper(w.Dir, append(l.options(), hotswap.WithStaticPlugins(ps))...)
	if ph == "cb" {
		l.cbErr = "cb1"
	}
	l.attempt(true, "the static load")
	var left [][2]int
	for k := 0; k < leakReps; k++ {
		if ph != "" { // another attempt, which fails as well
			l.attempt(true, "the static load")
		}
		l.attempt(false, "a reload in static mode")
		w.Pause(w.Delay+time.Second, "free delay")
		left = append(left, l.settle("static mode "+ph, f0, p0))
	}
	l.grows("static mode "+ph, left)
	c.r.State("leak static " + ph)
	runtime.KeepAlive(l.sw)
}

func leakFault(c *Ctx, w *World, op string) {
	l := &leakRun{c: c, w: w}
	runtime.GC()
	l.g0 = runtime.NumGoroutine()
	f0, p0 := openFiles(), processWide()
	w.Delay = minDelay
	l.sw = hotswap.NewPluginManagerSwapper(w.Dir, l.options()...)
	l.put(0, nil)
	l.put(1, nil)
	l.attempt(true, "the first load")
	var did []string
	var fails []bool // the same ones in every round
	var left [][2]int
	for k := 0; k < leakReps; k++ {
		n, i := 0, 0
		rt.OpHook = func(name string, args ...any) error {
			fail := false
			if k == 0 {
				fail = n < 2 && c.Choose(2, name) == 1
				fails = append(fails, fail)
			} else if i < len(fails) {
				fail = fails[i]
			}
			i++
			if !fail {
				return nil
			}
			n++
			if k == 0 {
				did = append(did, name)
				c.Desc("%s fails", name)
			}
			return &os.PathError{Op: name, Path: "injected", Err: syscall.EIO}
		}
		l.op(op, op+" with a fault")
		rt.OpHook = nil
		if n := openFiles(); n != f0 {
			w.Violate([]string{"C28"}, "%s, faults %v: %d files are open after the call, %d before", op, did, n, f0)
			f0 = n
		}
		w.Pause(w.Delay+time.Second, "free delay")
		left = append(left, l.settle(fmt.Sprintf("%s, faults %v", op, did), f0, p0))
	}
	l.grows(fmt.Sprintf("%s, faults %v", op, did), left)
	c.r.State(fmt.Sprint("leak fault ", op, did))
	runtime.KeepAlive(l.sw)
}
