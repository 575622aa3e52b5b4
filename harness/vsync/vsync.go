// Package vsync replaces the locks of package sync, in the packages under test,
// in native runs. All waiting is durable in the sense of testing/synctest, so
// virtual time goes on while a lock is held. When a counterexample that depends
// on the schedule is replayed, goroutines are held up at random at the
// operations where the engine may switch.
package vsync

import (
	"fmt"
	"math/rand/v2"
	"os"
	"sync"
	"time"
)

var prob float64

func init() {
	var seed uint64
	fmt.Sscanf(os.Getenv("VPPERTURB"), "%d,%f", &seed, &prob)
}

// Perturb lets every other goroutine run first, now and then. It must not
// synchronise the goroutines, or the race detector would see less.
func Perturb() {
	if prob > 0 && rand.Float64() < prob {
		time.Sleep(1)
	}
}

type Mutex struct {
	mu   sync.Mutex
	cond *sync.Cond
	held bool
}

func (m *Mutex) Lock() {
	Perturb()
	m.mu.Lock()
	for m.held {
		if m.cond == nil {
			m.cond = sync.NewCond(&m.mu)
		}
		m.cond.Wait()
	}
	m.held = true
	m.mu.Unlock()
}

func (m *Mutex) TryLock() bool {
	Perturb()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	if m.cond != nil {
		m.cond.Signal()
	}
}

type RWMutex struct {
	mu      sync.Mutex
	cond    *sync.Cond
	w       bool
	readers int
}

func (m *RWMutex) wait(c func() bool) {
	for !c() {
		if m.cond == nil {
			m.cond = sync.NewCond(&m.mu)
		}
		m.cond.Wait()
	}
}

func (m *RWMutex) wake() {
	if m.cond != nil {
		m.cond.Broadcast()
	}
}

func (m *RWMutex) Lock() {
	Perturb()
	m.mu.Lock()
	defer m.mu.Unlock()
	m.wait(func() bool { return !m.w && m.readers == 0 })
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	Perturb()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	Perturb()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.w {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.wake()
}

func (m *RWMutex) RLock() {
	Perturb()
	m.mu.Lock()
	defer m.mu.Unlock()
	m.wait(func() bool { return !m.w })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
