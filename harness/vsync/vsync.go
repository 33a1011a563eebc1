// Package vsync stands in for sync in instrumented builds of the library, in
// which every statement of the stream is a scheduling point.  Its locks block
// on channels, so that a goroutine waiting for one counts as blocked in a
// bubble of fake time; apart from that they behave like those of sync.
package vsync

import "sync"

// Hook is called at every scheduling point.
var Hook func()

// Yield is a scheduling point.
func Yield() {
	if h := Hook; h != nil {
		h()
	}
}

type (
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Locker    = sync.Locker
	Cond      = sync.Cond
)

var NewCond = sync.NewCond

// RWMutex is a readers/writer lock.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	waiting []chan struct{}
}

func (m *RWMutex) lock(try func() bool, wait bool) bool {
	for {
		m.mu.Lock()
		if try() {
			m.mu.Unlock()
			return true
		}
		if !wait {
			m.mu.Unlock()
			return false
		}
		c := make(chan struct{})
		m.waiting = append(m.waiting, c)
		m.mu.Unlock()
		<-c
	}
}

func (m *RWMutex) unlock(f func()) {
	m.mu.Lock()
	defer m.mu.Unlock()
	f()
	for _, c := range m.waiting {
		close(c)
	}
	m.waiting = nil
}

func (m *RWMutex) tryW() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) tryR() bool {
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) Lock()          { m.lock(m.tryW, true) }
func (m *RWMutex) TryLock() bool  { return m.lock(m.tryW, false) }
func (m *RWMutex) RLock()         { m.lock(m.tryR, true) }
func (m *RWMutex) TryRLock() bool { return m.lock(m.tryR, false) }

func (m *RWMutex) Unlock() {
	m.unlock(func() {
		if !m.writer {
			panic("sync: Unlock of unlocked RWMutex")
		}
		m.writer = false
	})
}

func (m *RWMutex) RUnlock() {
	m.unlock(func() {
		if m.readers == 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
	})
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Mutex is a lock.
type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

// Once does something once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}
