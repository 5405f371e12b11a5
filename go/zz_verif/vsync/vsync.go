// Package vsync stands in for package sync in the code being checked (through
// a build overlay): its locks are the real ones, plus scheduling points.  With
// a Sched installed, exactly one registered goroutine runs at a time and the
// Sched decides which, so that interleavings can be chosen and repeated.
package vsync

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// Everything that needs no scheduling points is the original.
type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Map       = sync.Map
	Once      = sync.Once
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

// NewCond and OnceFunc are the original ones.
var (
	NewCond  = sync.NewCond
	OnceFunc = sync.OnceFunc
)

// GID identifies the calling goroutine.
func GID() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	i := bytes.IndexByte(b, ' ')
	n, _ := strconv.ParseInt(string(b[:i]), 10, 64)
	return n
}

// Sched runs registered goroutines one at a time.
type Sched struct {
	mu      sync.Mutex
	byGID   map[int64]*thread
	threads []*thread
	cur     *thread
	pick    func(n, cur int) int // chooses among n runnable threads; cur is the index of the running one, or -1
	Points  int
	free    bool // gave up control (some thread blocked outside our view)
	Free    bool // reported
	tick    int64
}

type thread struct {
	id      int
	gid     int64
	wake    chan struct{}
	blocked interface{} // lock it waits for
	done    bool
}

var active atomic.Value // *Sched or (*Sched)(nil)

func get() *Sched {
	s, _ := active.Load().(*Sched)
	return s
}

// Run runs fns as threads under the control of pick, and waits for them.  It
// returns false if they did not all finish within limit: all of them blocked on
// locks, or somewhere else.
func Run(fns []func(), pick func(n, cur int) int, limit time.Duration) (s *Sched, finished bool) {
	s = &Sched{byGID: make(map[int64]*thread), pick: pick}
	var ready, all sync.WaitGroup
	for i := range fns {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		s.threads = append(s.threads, t)
		fn := fns[i]
		ready.Add(1)
		all.Add(1)
		go func() {
			t.gid = GID()
			s.mu.Lock()
			s.byGID[t.gid] = t
			s.mu.Unlock()
			ready.Done()
			<-t.wake
			fn()
			s.finish(t)
			all.Done()
		}()
	}
	ready.Wait()
	active.Store(s)
	s.mu.Lock()
	s.next(nil)
	s.mu.Unlock()

	done := make(chan struct{})
	go func() { all.Wait(); close(done) }()
	deadline := time.Now().Add(limit)
	last := int64(-1)
	for {
		select {
		case <-done:
			active.Store((*Sched)(nil))
			return s, true
		case <-time.After(300 * time.Millisecond):
		}
		if time.Now().After(deadline) {
			active.Store((*Sched)(nil))
			return s, false
		}
		now := atomic.LoadInt64(&s.tick)
		if now == last {
			// Nothing moved: the running thread blocks on something we
			// do not control.  Let everybody run.
			s.mu.Lock()
			s.free = true
			s.Free = true
			for _, t := range s.threads {
				if !t.done {
					select {
					case t.wake <- struct{}{}:
					default:
					}
				}
			}
			s.mu.Unlock()
		}
		last = now
	}
}

// next hands control to a runnable thread.  s.mu is held.
func (s *Sched) next(from *thread) *thread {
	var can []*thread
	cur := -1
	for _, t := range s.threads {
		if !t.done && t.blocked == nil {
			if t == from {
				cur = len(can)
			}
			can = append(can, t)
		}
	}
	if len(can) == 0 {
		return nil
	}
	t := can[0]
	if len(can) > 1 {
		t = can[s.pick(len(can), cur)]
	}
	s.cur = t
	if t != from {
		select {
		case t.wake <- struct{}{}:
		default:
		}
	}
	return t
}

func (s *Sched) self() *thread {
	g := GID()
	s.mu.Lock()
	t := s.byGID[g]
	s.mu.Unlock()
	return t
}

func (s *Sched) point(t *thread) {
	atomic.AddInt64(&s.tick, 1)
	s.mu.Lock()
	s.Points++
	if s.free {
		s.mu.Unlock()
		runtime.Gosched()
		return
	}
	n := s.next(t)
	s.mu.Unlock()
	if n != t {
		<-t.wake
	}
}

func (s *Sched) block(t *thread, lock interface{}) {
	atomic.AddInt64(&s.tick, 1)
	s.mu.Lock()
	if s.free {
		s.mu.Unlock()
		time.Sleep(20 * time.Microsecond)
		return
	}
	t.blocked = lock
	s.next(t)
	s.mu.Unlock()
	<-t.wake
	s.mu.Lock()
	t.blocked = nil
	s.mu.Unlock()
}

func (s *Sched) unblock(lock interface{}) {
	s.mu.Lock()
	for _, t := range s.threads {
		if t.blocked == lock {
			t.blocked = nil
		}
	}
	s.mu.Unlock()
}

func (s *Sched) finish(t *thread) {
	atomic.AddInt64(&s.tick, 1)
	s.mu.Lock()
	t.done = true
	if !s.free {
		s.next(nil)
	}
	s.mu.Unlock()
}

// Point is a scheduling point.
func Point() {
	if s := get(); s != nil {
		if t := s.self(); t != nil {
			s.point(t)
		}
	}
}

// Mutex is a sync.Mutex with scheduling points.
type Mutex struct{ mu sync.Mutex }

// Lock locks m.
func (m *Mutex) Lock() {
	if s := get(); s != nil {
		if t := s.self(); t != nil {
			s.point(t)
			for !m.mu.TryLock() {
				s.block(t, m)
			}
			return
		}
	}
	m.mu.Lock()
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	Point()
	return m.mu.TryLock()
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.mu.Unlock()
	if s := get(); s != nil {
		s.unblock(m)
		if t := s.self(); t != nil {
			s.point(t)
		}
	}
}

// RWMutex is a sync.RWMutex with scheduling points.
type RWMutex struct{ mu sync.RWMutex }

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if s := get(); s != nil {
		if t := s.self(); t != nil {
			s.point(t)
			for !m.mu.TryLock() {
				s.block(t, m)
			}
			return
		}
	}
	m.mu.Lock()
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	Point()
	return m.mu.TryLock()
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	m.released()
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if s := get(); s != nil {
		if t := s.self(); t != nil {
			s.point(t)
			for !m.mu.TryRLock() {
				s.block(t, m)
			}
			return
		}
	}
	m.mu.RLock()
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	Point()
	return m.mu.TryRLock()
}

// RUnlock unlocks m for reading.
func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	m.released()
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) released() {
	if s := get(); s != nil {
		s.unblock(m)
		if t := s.self(); t != nil {
			s.point(t)
		}
	}
}
