package rt

import (
	"runtime"
	"sync/atomic"
)

// Spin is a lock that is held for a few instructions only. The race detector does not see it (this
// package is compiled without instrumentation).
type Spin struct{ v uint32 }

func (s *Spin) Lock() {
	for !atomic.CompareAndSwapUint32(&s.v, 0, 1) {
		runtime.Gosched()
	}
}

func (s *Spin) Unlock() { atomic.StoreUint32(&s.v, 0) }
