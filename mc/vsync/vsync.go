// Package vsync provides controlled replacements of sync primitives.
package vsync

import (
	"sync"
	"unsafe"
	"vmc/vsched"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	hb     byte
}

// Lock locks m.
func (m *Mutex) Lock() {
	vsched.WaitFor(vsched.CatSync, "lock", func() bool { return !m.locked })
	m.locked = true
	vsched.RaceAcquire(unsafe.Pointer(&m.hb))
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	vsched.Point(vsched.CatSync, "trylock")
	if m.locked {
		return false
	}
	m.locked = true
	vsched.RaceAcquire(unsafe.Pointer(&m.hb))
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if !m.locked {
		fatal("sync: unlock of unlocked mutex")
	}
	vsched.RaceRelease(unsafe.Pointer(&m.hb))
	m.locked = false
}

func fatal(s string) {
	if p := vsched.CurProc(); p != nil && p.Dead() {
		return
	}
	panic("fatal error: " + s)
}

// RWMutex replaces sync.RWMutex, including its writer preference: a waiting
// writer blocks new readers.
type RWMutex struct {
	writers int // writers waiting or holding
	locked  bool
	readers int
	rhb     byte
	whb     byte
}

// RLock locks rw for reading.
func (rw *RWMutex) RLock() {
	vsched.WaitFor(vsched.CatSync, "rlock", func() bool { return rw.writers == 0 })
	rw.readers++
	vsched.RaceAcquire(unsafe.Pointer(&rw.whb))
}

// TryRLock tries to lock rw for reading.
func (rw *RWMutex) TryRLock() bool {
	vsched.Point(vsched.CatSync, "tryrlock")
	if rw.writers != 0 {
		return false
	}
	rw.readers++
	vsched.RaceAcquire(unsafe.Pointer(&rw.whb))
	return true
}

// RUnlock undoes RLock.
func (rw *RWMutex) RUnlock() {
	if rw.readers <= 0 {
		fatal("sync: RUnlock of unlocked RWMutex")
		return
	}
	vsched.RaceReleaseMerge(unsafe.Pointer(&rw.rhb))
	rw.readers--
}

// Lock locks rw for writing.
func (rw *RWMutex) Lock() {
	vsched.Point(vsched.CatSync, "wlock")
	rw.writers++
	vsched.WaitFor(0, "wlock", func() bool { return !rw.locked && rw.readers == 0 })
	rw.locked = true
	vsched.RaceAcquire(unsafe.Pointer(&rw.rhb))
	vsched.RaceAcquire(unsafe.Pointer(&rw.whb))
}

// TryLock tries to lock rw for writing.
func (rw *RWMutex) TryLock() bool {
	vsched.Point(vsched.CatSync, "trywlock")
	if rw.writers != 0 || rw.readers != 0 {
		return false
	}
	rw.writers++
	rw.locked = true
	vsched.RaceAcquire(unsafe.Pointer(&rw.rhb))
	vsched.RaceAcquire(unsafe.Pointer(&rw.whb))
	return true
}

// Unlock unlocks rw for writing.
func (rw *RWMutex) Unlock() {
	if !rw.locked {
		fatal("sync: Unlock of unlocked RWMutex")
		return
	}
	vsched.RaceRelease(unsafe.Pointer(&rw.whb))
	vsched.RaceReleaseMerge(unsafe.Pointer(&rw.rhb))
	rw.locked = false
	rw.writers--
}

// RLocker returns a Locker for the read side.
func (rw *RWMutex) RLocker() sync.Locker { return rlocker{rw} }

type rlocker struct{ rw *RWMutex }

func (r rlocker) Lock()   { r.rw.RLock() }
func (r rlocker) Unlock() { r.rw.RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n  int
	hb byte
}

// Add adds delta.
func (wg *WaitGroup) Add(delta int) {
	if delta < 0 {
		vsched.RaceReleaseMerge(unsafe.Pointer(&wg.hb))
	}
	wg.n += delta
	if wg.n < 0 {
		if p := vsched.CurProc(); p != nil && p.Dead() {
			return
		}
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements.
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait waits for zero.
func (wg *WaitGroup) Wait() {
	vsched.WaitFor(vsched.CatSync, "wgwait", func() bool { return wg.n == 0 })
	vsched.RaceAcquire(unsafe.Pointer(&wg.hb))
}

// Go runs f.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	vsched.Go(func() {
		defer wg.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond replaces sync.Cond.
type Cond struct {
	L  sync.Locker
	q  []*bool
	hb byte
}

// NewCond returns a Cond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

// Wait waits.
func (c *Cond) Wait() {
	woken := new(bool)
	c.q = append(c.q, woken)
	c.L.Unlock()
	vsched.WaitFor(vsched.CatSync, "cond", func() bool { return *woken })
	vsched.RaceAcquire(unsafe.Pointer(&c.hb))
	c.L.Lock()
}

// Signal wakes one.
func (c *Cond) Signal() {
	vsched.RaceReleaseMerge(unsafe.Pointer(&c.hb))
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}

// Broadcast wakes all.
func (c *Cond) Broadcast() {
	vsched.RaceReleaseMerge(unsafe.Pointer(&c.hb))
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}
