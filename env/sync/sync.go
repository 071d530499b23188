// Package sync stands in for the standard package in the program under test:
// the same operations, with random delays around locking when a
// schedule-dependent counterexample is replayed natively.
package sync

import (
	"sync"

	"github.com/siebenmann/sinksmtp/zz/verif"
)

type Locker = sync.Locker
type WaitGroup = sync.WaitGroup
type Pool = sync.Pool
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Once: only one call at a time, the others wait for it.
type Once struct {
	mu   sync.Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

type Map struct {
	mu sync.Mutex
	m  map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = make(map[interface{}]interface{})
	}
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = make(map[interface{}]interface{})
	}
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.mu.Lock()
	var ks, vs []interface{}
	for k, v := range m.m {
		ks = append(ks, k)
		vs = append(vs, v)
	}
	m.mu.Unlock()
	for i := range ks {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	verif.Jitter()
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	verif.Jitter()
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	verif.Jitter()
}

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	verif.Jitter()
	m.mu.Lock()
}

func (m *RWMutex) TryLock() bool {
	verif.Jitter()
	return m.mu.TryLock()
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	verif.Jitter()
}

func (m *RWMutex) RLock() {
	verif.Jitter()
	m.mu.RLock()
}

func (m *RWMutex) TryRLock() bool {
	verif.Jitter()
	return m.mu.TryRLock()
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	verif.Jitter()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }
