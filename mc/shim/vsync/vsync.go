// Package vsync stands in for package sync in the instrumented code.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/mc/rt"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
)

// Every object remembers the execution it was last used in: one that outlives an execution (a
// package-level variable) starts the next one as new, because its channels belong to the bubble
// of the execution, and because an execution may have been abandoned while it was held.

type Mutex struct {
	n     sync.Mutex // native mode
	g     rt.Spin    // guards the fields below, held for a few instructions only
	epoch uint64
	held  bool
	ch    chan struct{}
}

func (m *Mutex) enter() {
	m.g.Lock()
	if e := rt.Epoch(); m.epoch != e {
		m.epoch, m.held, m.ch = e, false, nil
	}
}

func (m *Mutex) lazy() chan struct{} {
	m.enter()
	if m.ch == nil {
		m.ch = make(chan struct{}, 1)
	}
	ch := m.ch
	m.g.Unlock()
	return ch
}

func (m *Mutex) isHeld() bool {
	m.enter()
	defer m.g.Unlock()
	return m.held
}

func (m *Mutex) Lock() {
	switch rt.Mode() {
	case rt.Native:
		m.n.Lock()
	case rt.Seq:
		m.lazy() <- struct{}{}
	default:
		rt.Hide()
		rt.PointWait("lock", m.isHeld)
		m.enter()
		for m.held { // only when a goroutine ran outside the scheduler's control
			m.g.Unlock()
			rt.PointWait("lock", m.isHeld)
			m.enter()
		}
		m.held = true
		m.g.Unlock()
		rt.Unhide()
		rt.Acquire(unsafe.Pointer(m))
	}
}

func (m *Mutex) TryLock() bool {
	switch rt.Mode() {
	case rt.Native:
		return m.n.TryLock()
	case rt.Seq:
		select {
		case m.lazy() <- struct{}{}:
			return true
		default:
			return false
		}
	default:
		rt.Hide()
		rt.Point("trylock")
		m.enter()
		ok := !m.held
		m.held = true
		m.g.Unlock()
		rt.Unhide()
		if ok {
			rt.Acquire(unsafe.Pointer(m))
		}
		return ok
	}
}

func (m *Mutex) Unlock() {
	switch rt.Mode() {
	case rt.Native:
		m.n.Unlock()
	case rt.Seq:
		select {
		case <-m.lazy():
		default:
			panic("sync: unlock of unlocked mutex")
		}
	default:
		rt.Release(unsafe.Pointer(m))
		rt.Hide()
		m.enter()
		if !m.held {
			m.g.Unlock()
			rt.Unhide()
			panic("sync: unlock of unlocked mutex")
		}
		m.held = false
		m.g.Unlock()
		rt.Point("unlock")
		rt.Unhide()
	}
}

type RWMutex struct {
	n     sync.RWMutex
	g     rt.Spin
	epoch uint64
	w     bool
	ww    int // waiting writers
	r     int
	c     chan struct{} // Seq: closed and replaced at every state change
}

func (m *RWMutex) enter() {
	m.g.Lock()
	if e := rt.Epoch(); m.epoch != e {
		m.epoch, m.w, m.ww, m.r, m.c = e, false, 0, 0, nil
	}
}

func (m *RWMutex) wait(ok func() bool, take func(), before, after func()) {
	if rt.Mode() == rt.Seq {
		m.enter()
		if before != nil {
			before()
		}
		for !ok() {
			if m.c == nil {
				m.c = make(chan struct{})
			}
			c := m.c
			m.g.Unlock()
			<-c
			m.enter()
		}
		if after != nil {
			after()
		}
		take()
		m.g.Unlock()
		return
	}
	rt.Point("rwlock")
	m.enter()
	if before != nil {
		before()
	}
	for !ok() {
		m.g.Unlock()
		rt.PointWait("rwlock", func() bool { m.enter(); defer m.g.Unlock(); return !ok() })
		m.enter()
	}
	if after != nil {
		after()
	}
	take()
	m.g.Unlock()
}

func (m *RWMutex) changed() {
	if m.c != nil {
		close(m.c)
		m.c = nil
	}
}

func (m *RWMutex) Lock() {
	if rt.Mode() == rt.Native {
		m.n.Lock()
		return
	}
	rt.Hide()
	m.wait(func() bool { return !m.w && m.r == 0 }, func() { m.w = true }, func() { m.ww++ }, func() { m.ww-- })
	rt.Unhide()
	rt.Acquire(unsafe.Pointer(&m.w))
	rt.Acquire(unsafe.Pointer(&m.r))
}
func (m *RWMutex) Unlock() {
	if rt.Mode() == rt.Native {
		m.n.Unlock()
		return
	}
	rt.Release(unsafe.Pointer(&m.w))
	rt.Hide()
	defer rt.Unhide()
	m.enter()
	if !m.w {
		m.g.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.changed()
	m.g.Unlock()
	rt.Point("rwunlock")
}
func (m *RWMutex) RLock() {
	if rt.Mode() == rt.Native {
		m.n.RLock()
		return
	}
	rt.Hide()
	m.wait(func() bool { return !m.w && m.ww == 0 }, func() { m.r++ }, nil, nil)
	rt.Unhide()
	rt.Acquire(unsafe.Pointer(&m.w))
}
func (m *RWMutex) RUnlock() {
	if rt.Mode() == rt.Native {
		m.n.RUnlock()
		return
	}
	rt.ReleaseMerge(unsafe.Pointer(&m.r))
	rt.Hide()
	defer rt.Unhide()
	m.enter()
	if m.r <= 0 {
		m.g.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.changed()
	m.g.Unlock()
	rt.Point("runlock")
}
func (m *RWMutex) TryLock() (ok bool) {
	if rt.Mode() == rt.Native {
		return m.n.TryLock()
	}
	defer func() {
		rt.Unhide()
		if ok {
			rt.Acquire(unsafe.Pointer(&m.w))
			rt.Acquire(unsafe.Pointer(&m.r))
		}
	}()
	rt.Hide()
	rt.Point("rwtrylock")
	m.enter()
	defer m.g.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() (ok bool) {
	if rt.Mode() == rt.Native {
		return m.n.TryRLock()
	}
	defer func() {
		rt.Unhide()
		if ok {
			rt.Acquire(unsafe.Pointer(&m.w))
		}
	}()
	rt.Hide()
	rt.Point("rwtrylock")
	m.enter()
	defer m.g.Unlock()
	if m.w || m.ww > 0 {
		return false
	}
	m.r++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Once keeps sync.Once's semantics: concurrent callers wait for the first one to finish, and a
// panicking f counts as done.
type Once struct {
	m    Mutex
	g    rt.Spin
	done bool
}

func (o *Once) isDone() bool {
	rt.Hide()
	o.g.Lock()
	d := o.done
	o.g.Unlock()
	rt.Unhide()
	return d
}

func (o *Once) Do(f func()) {
	rt.Point("once")
	if o.isDone() {
		rt.Acquire(unsafe.Pointer(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer func() {
			rt.Release(unsafe.Pointer(o))
			rt.Hide()
			o.g.Lock()
			o.done = true
			o.g.Unlock()
			rt.Unhide()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T { v, _ := g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		o   Once
		ok  bool
		p   any
		r1  T1
		r2  T2
		run = func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			r1, r2 = f()
			ok = true
		}
	)
	return func() (T1, T2) {
		o.Do(run)
		if !ok {
			panic(p)
		}
		return r1, r2
	}
}

// WaitGroup counts like sync.WaitGroup; Wait blocks under the scheduler's control.
type WaitGroup struct {
	n     sync.WaitGroup
	g     rt.Spin
	epoch uint64
	cnt   int
	c     chan struct{}
}

func (w *WaitGroup) enter() {
	w.g.Lock()
	if e := rt.Epoch(); w.epoch != e {
		w.epoch, w.cnt, w.c = e, 0, nil
	}
}

func (w *WaitGroup) busy() bool {
	w.enter()
	defer w.g.Unlock()
	return w.cnt > 0
}

func (w *WaitGroup) Add(d int) {
	if rt.Mode() == rt.Native {
		w.n.Add(d)
		return
	}
	if d < 0 {
		rt.ReleaseMerge(unsafe.Pointer(w))
	}
	rt.Hide()
	w.enter()
	w.cnt += d
	n := w.cnt
	if n <= 0 && w.c != nil {
		close(w.c)
		w.c = nil
	}
	w.g.Unlock()
	rt.Unhide()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		rt.Point("wgdone")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

func (w *WaitGroup) Wait() {
	switch rt.Mode() {
	case rt.Native:
		w.n.Wait()
		return
	case rt.Seq:
		w.enter()
		for w.cnt > 0 {
			if w.c == nil {
				w.c = make(chan struct{})
			}
			c := w.c
			w.g.Unlock()
			<-c
			w.enter()
		}
		w.g.Unlock()
	default:
		rt.Hide()
		rt.PointWait("wgwait", w.busy)
		rt.Unhide()
	}
	rt.Acquire(unsafe.Pointer(w))
}

type condWaiter struct {
	woken bool
	c     chan struct{}
}

// Cond wakes its waiters in the order in which they came, as sync.Cond does.
type Cond struct {
	L     Locker
	g     rt.Spin
	epoch uint64
	q     []*condWaiter
	n     *sync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) enter() {
	c.g.Lock()
	if e := rt.Epoch(); c.epoch != e {
		c.epoch, c.q = e, nil
	}
}

func (c *Cond) native() *sync.Cond {
	c.g.Lock()
	defer c.g.Unlock()
	if c.n == nil {
		c.n = sync.NewCond(c.L)
	}
	return c.n
}

func (c *Cond) Wait() {
	if rt.Mode() == rt.Native {
		c.native().Wait()
		return
	}
	w := &condWaiter{c: make(chan struct{})}
	rt.Hide()
	c.enter()
	c.q = append(c.q, w)
	c.g.Unlock()
	rt.Unhide()
	c.L.Unlock()
	if rt.Mode() == rt.Seq {
		<-w.c
	} else {
		rt.Hide()
		rt.PointWait("cond", func() bool { c.enter(); defer c.g.Unlock(); return !w.woken })
		rt.Unhide()
	}
	rt.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) wake(all bool) {
	rt.ReleaseMerge(unsafe.Pointer(c))
	rt.Hide()
	c.enter()
	for len(c.q) > 0 {
		c.q[0].woken = true
		close(c.q[0].c)
		c.q = c.q[1:]
		if !all {
			break
		}
	}
	c.g.Unlock()
	rt.Unhide()
	rt.Point("signal")
}

func (c *Cond) Signal() {
	if rt.Mode() == rt.Native {
		c.native().Signal()
		return
	}
	c.wake(false)
}

func (c *Cond) Broadcast() {
	if rt.Mode() == rt.Native {
		c.native().Broadcast()
		return
	}
	c.wake(true)
}

// Map is sync.Map with a scheduling point before every operation.
type Map struct{ m sync.Map }

func (m *Map) Load(key any) (any, bool)           { rt.Point("map"); return m.m.Load(key) }
func (m *Map) Store(key, value any)               { rt.Point("map"); m.m.Store(key, value) }
func (m *Map) LoadOrStore(key, v any) (any, bool) { rt.Point("map"); return m.m.LoadOrStore(key, v) }
func (m *Map) LoadAndDelete(key any) (any, bool)  { rt.Point("map"); return m.m.LoadAndDelete(key) }
func (m *Map) Delete(key any)                     { rt.Point("map"); m.m.Delete(key) }
func (m *Map) Swap(key, v any) (any, bool)        { rt.Point("map"); return m.m.Swap(key, v) }
func (m *Map) CompareAndSwap(key, o, n any) bool {
	rt.Point("map")
	return m.m.CompareAndSwap(key, o, n)
}
func (m *Map) CompareAndDelete(key, o any) bool  { rt.Point("map"); return m.m.CompareAndDelete(key, o) }
func (m *Map) Range(f func(key, value any) bool) { rt.Point("map"); m.m.Range(f) }
func (m *Map) Clear()                            { rt.Point("map"); m.m.Clear() }
