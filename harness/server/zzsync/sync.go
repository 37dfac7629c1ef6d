// Package sync is the standard one with mutexes on which virtual time goes on while a goroutine waits for them.
package sync

import "sync"

type (
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond   { return sync.NewCond(l) }
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }

type RWMutex struct {
	mu    sync.Mutex
	w     bool
	r     int
	queue []chan struct{}
}

func (m *RWMutex) wait() {
	ch := make(chan struct{})
	m.queue = append(m.queue, ch)
	m.mu.Unlock()
	<-ch
	m.mu.Lock()
}

func (m *RWMutex) wake() {
	for _, ch := range m.queue {
		close(ch)
	}
	m.queue = nil
}

func (m *RWMutex) Lock() {
	m.mu.Lock()
	for m.w || m.r > 0 {
		m.wait()
	}
	m.w = true
	m.mu.Unlock()
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.w {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.w = false
	m.wake()
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	m.mu.Lock()
	for m.w {
		m.wait()
	}
	m.r++
	m.mu.Unlock()
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.w {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.r == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.wake()
	m.mu.Unlock()
}

type rlocker RWMutex

func (m *rlocker) Lock()           { (*RWMutex)(m).RLock() }
func (m *rlocker) Unlock()         { (*RWMutex)(m).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }
