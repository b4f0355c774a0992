// Package rt is the controlled scheduler of the model checker. The instrumented copies of the code
// under test and the harness reach it through the shim packages (vsync, vatomic, vuatomic, vos,
// vioutil), through rt.Sleep and through rt.Go.
package rt

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"testing/synctest"
	"time"
)

const (
	Native int32 = iota // plain primitives (race-detector runs)
	Seq                 // durable primitives, no controller
	Ctl                 // every Point is a scheduling decision
)

var mode atomic.Int32

var epoch atomic.Uint64

// NewEpoch starts an execution: synchronisation objects of earlier ones count as fresh.
func NewEpoch()     { epoch.Add(1) }
func Epoch() uint64 { return epoch.Load() }

func SetMode(m int32) { mode.Store(m) }
func Mode() int32     { return mode.Load() }

// OpHook, if set, is called before every instrumented file operation and may inject an error.
var OpHook func(name string, args ...any) error

// OpPoints makes every instrumented file operation a scheduling point.
var OpPoints bool

// Coarse drops the scheduling points at the end of plugin functions.
var Coarse bool

// PointEnd is the Point at the end of a plugin function.
func PointEnd(label string) {
	if !Coarse {
		Point(label)
	}
}

func Op(name string, args ...any) error {
	if OpPoints {
		Point("op:" + name)
	}
	if h := OpHook; h != nil {
		return h(name, args...)
	}
	return nil
}

// ---------------------------------------------------------------------------------------------

type Thread struct {
	ID      int
	Name    string
	Main    bool // a thread of the harness: the run is over only when all of them are done
	gate    chan struct{}
	parked  bool
	blocked func() bool
	label   string
	sleep   bool
	wakeAt  time.Time
	done    bool
}

type gThread struct {
	g uint64
	t *Thread
}

func (c *Ctlr) lookup(g uint64) *Thread {
	for _, x := range c.byG {
		if x.g == g {
			return x.t
		}
	}
	return nil
}

func (c *Ctlr) forget(g uint64) {
	for i, x := range c.byG {
		if x.g == g {
			c.byG[i] = c.byG[len(c.byG)-1]
			c.byG = c.byG[:len(c.byG)-1]
			return
		}
	}
}

type Ctlr struct {
	mu      Spin
	root    uint64
	byG     []gThread
	threads []*Thread
	// Choose picks one of n options. cost[i] tells whether option i is a deviation (preemption).
	Choose   func(n int, what string) int
	Bound    int // preemption bound
	used     int
	Trace    []string
	last     *Thread
	Steps    int
	MaxSteps int
	Deadlock string
	Overrun  bool
	Auto     int // goroutines registered at their first Point (not started through rt.Go)
	Advances bool
	Stop     bool
	free     uint64        // the goroutine that runs Setup: no decisions are taken for it
	poke     chan struct{} // during Setup: a thread has parked
}

var cur atomic.Pointer[Ctlr]

func NewCtlr(bound int, choose func(n int, what string) int) *Ctlr {
	return &Ctlr{byG: make([]gThread, 0, 256), threads: make([]*Thread, 0, 256), Choose: choose, Bound: bound, MaxSteps: 20000}
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

func goid() uint64 { return runtime.VerifGoid() }

func (c *Ctlr) self(label string) *Thread {
	g := goid()
	raceOff()
	c.mu.Lock()
	defer func() { c.mu.Unlock(); raceOn() }()
	if g == c.root || g == c.free {
		return nil
	}
	t := c.lookup(g)
	if t == nil {
		c.Auto++
		t = c.newThread("auto"+itoa(c.Auto), false)
		c.byG = append(c.byG, gThread{g, t})
	}
	return t
}

func (c *Ctlr) newThread(name string, main bool) *Thread {
	t := &Thread{ID: len(c.threads), Name: name, Main: main, gate: make(chan struct{})}
	c.threads = append(c.threads, t)
	return t
}

func (c *Ctlr) park(t *Thread, label string, blocked func() bool) {
	raceOff()
	c.mu.Lock()
	t.parked = true
	t.label = label
	t.blocked = blocked
	c.mu.Unlock()
	if c.poke != nil {
		select {
		case c.poke <- struct{}{}:
		default:
		}
	}
	<-t.gate
	raceOn()
}

// Point is a place where the scheduler may switch to another thread.
func Point(label string) {
	if mode.Load() != Ctl {
		return
	}
	c := cur.Load()
	if c == nil {
		return
	}
	t := c.self(label)
	if t == nil {
		return
	}
	c.park(t, label, nil)
}

// PointWait parks the caller until blocked() is false and it has been scheduled.
func PointWait(label string, blocked func() bool) {
	c := cur.Load()
	if c == nil {
		panic("rt: PointWait without a controller")
	}
	t := c.self(label)
	if t == nil {
		if !blocked() {
			return
		}
		if goid() != c.free {
			panic("rt: the controller itself would block on " + label)
		}
		raceOff()
		c.mu.Lock()
		t = c.newThread("setup", false)
		c.mu.Unlock()
		raceOn()
		c.park(t, label, blocked)
		t.done = true
		return
	}
	c.park(t, label, blocked)
}

// Setup runs f to its end before Loop. No decision is taken: f runs freely, and other threads, the
// first one able to first, only while it waits for something.
func (c *Ctlr) Setup(f func()) {
	done := make(chan struct{})
	c.poke = make(chan struct{}, 1)
	var failure any
	go func() {
		defer close(done)
		defer func() { failure = recover() }()
		c.free = goid()
		f()
	}()
	for idle := 0; ; {
		synctest.Wait()
		select {
		case <-done:
			c.free, c.poke = 0, nil
			if failure != nil {
				panic(failure)
			}
			return
		default:
		}
		c.mu.Lock()
		var t *Thread
		for _, x := range c.threads {
			if !x.done && x.parked && (x.blocked == nil || !x.blocked()) {
				t = x
				break
			}
		}
		if t != nil {
			t.parked, t.blocked = false, nil
		}
		c.mu.Unlock()
		if t != nil {
			idle = 0
			raceOff()
			t.gate <- struct{}{}
			raceOn()
			continue
		}
		select {
		case <-done:
		case <-c.poke:
		case <-time.After(24 * time.Hour):
			if idle++; idle == 3 {
				panic("rt: the setup does not come to an end: " + c.describe())
			}
		}
	}
}

// Go starts a goroutine known to the scheduler.
func Go(f func()) { GoNamed("", false, f) }

func Go0(f func()) { GoNamed("", false, f) }

func Go1[A any](f func(A), a A) { GoNamed("", false, func() { f(a) }) }

func Go2[A, B any](f func(A, B), a A, b B) { GoNamed("", false, func() { f(a, b) }) }

func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) { GoNamed("", false, func() { f(a, b, c) }) }

func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) {
	GoNamed("", false, func() { f(a, b, c, d) })
}

func GoNamed(name string, main bool, f func()) {
	if mode.Load() != Ctl {
		go f()
		return
	}
	c := cur.Load()
	if c == nil {
		go f()
		return
	}
	raceOff()
	c.mu.Lock()
	if name == "" {
		name = "g" + itoa(len(c.threads))
	}
	t := c.newThread(name, main)
	c.mu.Unlock()
	raceOn()
	go func() {
		raceOff()
		c.mu.Lock()
		c.byG = append(c.byG, gThread{goid(), t})
		c.mu.Unlock()
		raceOn()
		defer func() {
			raceOff()
			c.mu.Lock()
			t.done = true
			c.forget(goid())
			c.mu.Unlock()
			raceOn()
		}()
		c.park(t, "start", nil)
		f()
	}()
}

// Sleep replaces time.Sleep: waking up is a scheduling point.
func Sleep(d time.Duration) {
	if mode.Load() != Ctl {
		time.Sleep(d)
		return
	}
	c := cur.Load()
	if c == nil {
		time.Sleep(d)
		return
	}
	t := c.self("sleep")
	if t == nil || d <= 0 {
		time.Sleep(d)
		return
	}
	raceOff()
	c.mu.Lock()
	t.sleep = true
	t.wakeAt = time.Now().Add(d)
	c.mu.Unlock()
	raceOn()
	time.Sleep(d)
	raceOff()
	c.mu.Lock()
	t.sleep = false
	c.mu.Unlock()
	raceOn()
	c.park(t, "wake", nil)
}

// AfterFunc replaces time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *time.Timer {
	return time.AfterFunc(d, func() { Point("timer"); f() })
}

// idle lets time pass until a thread parks, for d at most.
func (c *Ctlr) idle(d time.Duration) {
	c.poke = make(chan struct{}, 1)
	timer := time.NewTimer(d)
	select {
	case <-c.poke:
		timer.Stop()
	case <-timer.C:
	}
	c.poke = nil
}

// Loop runs the controller in the root goroutine of a synctest bubble until all threads are done.
func (c *Ctlr) Loop() {
	c.root = goid()
	defer cur.Store(nil)
	idle := 0
	for {
		synctest.Wait()
		c.mu.Lock()
		var enabled []*Thread
		mains, sleepers, blockedN := 0, 0, 0
		var next time.Time
		for _, t := range c.threads {
			if t.done {
				continue
			}
			if t.Main {
				mains++
			}
			if t.sleep {
				sleepers++
				if next.IsZero() || t.wakeAt.Before(next) {
					next = t.wakeAt
				}
			}
			if t.parked {
				if t.blocked == nil || !t.blocked() {
					enabled = append(enabled, t)
				} else if t.Main || t.label != "cond" { // a worker may wait for work for good
					blockedN++
				}
			}
		}
		c.mu.Unlock()
		if len(enabled) == 0 {
			if sleepers > 0 {
				idle = 0
				c.idle(max(1, time.Until(next)))
				continue
			}
			// Something outside the scheduler's knowledge (a native timer) may still be pending.
			idle++
			if idle <= 3 && (mains > 0 || blockedN > 0 || idle == 1) {
				c.idle(24 * time.Hour)
				continue
			}
			if mains == 0 && blockedN == 0 {
				return
			}
			c.Deadlock = c.describe()
			return
		}
		idle = 0
		sort.Slice(enabled, func(i, j int) bool { return enabled[i].ID < enabled[j].ID })
		c.Steps++
		if c.Steps > c.MaxSteps {
			c.Overrun = true
			return
		}
		var t *Thread
		lastIdx := -1
		for i, e := range enabled {
			if e == c.last {
				lastIdx = i
			}
		}
		canAdvance := c.Advances && sleepers > 0 && lastIdx >= 0 && strings.HasPrefix(c.last.label, "cb:")
		if lastIdx >= 0 {
			// continuing the running thread is free, everything else costs one preemption
			opts := []*Thread{enabled[lastIdx]}
			if c.used < c.Bound {
				for i, e := range enabled {
					if i != lastIdx {
						opts = append(opts, e)
					}
				}
				if canAdvance {
					opts = append(opts, nil)
				}
			}
			k := 0
			if len(opts) > 1 {
				k = c.Choose(len(opts), "sched")
			}
			if k > 0 {
				c.used++
			}
			t = opts[k]
		} else {
			k := 0
			if len(enabled) > 1 {
				k = c.Choose(len(enabled), "sched")
			}
			t = enabled[k]
		}
		if t == nil {
			c.Trace = append(c.Trace, "advance-time")
			if d := time.Until(next); d > 0 {
				time.Sleep(d)
			} else {
				time.Sleep(1)
			}
			continue
		}
		c.last = t
		c.Trace = append(c.Trace, fmt.Sprintf("%s@%s", t.Name, t.label))
		c.mu.Lock()
		t.parked = false
		t.blocked = nil
		c.mu.Unlock()
		raceOff()
		t.gate <- struct{}{}
		raceOn()
	}
}

func (c *Ctlr) describe() string {
	var a []string
	for _, t := range c.threads {
		if !t.done {
			a = append(a, fmt.Sprintf("%s@%s(parked=%v)", t.Name, t.label, t.parked))
		}
	}
	return strings.Join(a, ", ")
}

// Install makes c the active controller; call it in the bubble's root before starting threads.
func (c *Ctlr) Install() {
	c.root = goid()
	cur.Store(c)
}

// CurThread names the calling thread (for event logs).
func CurThread() string {
	c := cur.Load()
	if c == nil {
		return ""
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if t := c.lookup(goid()); t != nil {
		return t.Name
	}
	return ""
}

func Goid() uint64 { return goid() }
