package vsync

import (
	"reflect"
	"sync"
	"unsafe"
)

// Locker, Map and Pool are those of package sync.
type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

// Mutex stands in for sync.Mutex.
type Mutex struct {
	held bool
	sem  byte
}

//go:norace
func (m *Mutex) Lock() {
	lock()
	s, t := syncPoint()
	block(s, t, "a mutex", func() bool { return !isSet(&m.held) })
	m.held = true
	unlock()
	raceAcquire(unsafe.Pointer(&m.sem))
}

//go:norace
func (m *Mutex) TryLock() bool {
	lock()
	syncPoint()
	ok := !m.held
	m.held = true
	unlock()
	if ok {
		raceAcquire(unsafe.Pointer(&m.sem))
	}
	return ok
}

//go:norace
func (m *Mutex) Unlock() {
	raceRelease(unsafe.Pointer(&m.sem))
	lock()
	if !m.held {
		unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	gcond.Broadcast()
	syncPoint()
	unlock()
}

// RWMutex stands in for sync.RWMutex. Like there, a waiting writer keeps new
// readers out, and the readers waiting when a writer leaves go first.
type RWMutex struct {
	w       bool
	r       int
	ww      int // waiting writers
	waiting int // waiting readers not yet let in
	granted int // waiting readers let in, counted in r already
	rsem    byte
	wsem    byte
}

//go:norace
func (m *RWMutex) RLock() {
	lock()
	s, t := syncPoint()
	if !m.w && m.ww == 0 {
		m.r++
	} else {
		m.waiting++
		block(s, t, "a read lock", func() bool { return value(&m.granted) > 0 })
		m.granted--
	}
	unlock()
	raceAcquire(unsafe.Pointer(&m.rsem))
}

//go:norace
func (m *RWMutex) admit() {
	if m.w {
		return
	}
	m.r += m.waiting
	m.granted += m.waiting
	m.waiting = 0
	gcond.Broadcast()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	lock()
	syncPoint()
	ok := !m.w && m.ww == 0
	if ok {
		m.r++
	}
	unlock()
	if ok {
		raceAcquire(unsafe.Pointer(&m.rsem))
	}
	return ok
}

//go:norace
func (m *RWMutex) RUnlock() {
	raceReleaseMerge(unsafe.Pointer(&m.wsem))
	lock()
	if m.r-m.granted <= 0 {
		unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	gcond.Broadcast()
	syncPoint()
	unlock()
}

//go:norace
func (m *RWMutex) Lock() {
	lock()
	s, t := syncPoint()
	m.ww++
	block(s, t, "a write lock", func() bool { return !isSet(&m.w) && value(&m.r) == 0 })
	m.ww--
	m.w = true
	unlock()
	raceAcquire(unsafe.Pointer(&m.rsem))
	raceAcquire(unsafe.Pointer(&m.wsem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	lock()
	syncPoint()
	ok := !m.w && m.r == 0
	if ok {
		m.w = true
	}
	unlock()
	if ok {
		raceAcquire(unsafe.Pointer(&m.rsem))
		raceAcquire(unsafe.Pointer(&m.wsem))
	}
	return ok
}

//go:norace
func (m *RWMutex) Unlock() {
	raceRelease(unsafe.Pointer(&m.rsem))
	lock()
	if !m.w {
		unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.admit()
	syncPoint()
	unlock()
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	n   int
	sem byte
}

//go:norace
func (g *WaitGroup) Add(d int) {
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(&g.sem))
	}
	lock()
	g.n += d
	if g.n < 0 {
		unlock()
		panic("sync: negative WaitGroup counter")
	}
	gcond.Broadcast()
	syncPoint()
	unlock()
}

// Done is Add(-1).
func (g *WaitGroup) Done() { g.Add(-1) }

//go:norace
func (g *WaitGroup) Wait() {
	lock()
	s, t := syncPoint()
	block(s, t, "a wait group", func() bool { return value(&g.n) == 0 })
	unlock()
	raceAcquire(unsafe.Pointer(&g.sem))
}

// Go starts f in a goroutine counted by the group.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go Wrap(func() {
		defer g.Done()
		f()
	})()
}

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc, OnceValue and OnceValues are those of package sync, on this
// package's Once.
func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := new(Once)
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond stands in for sync.Cond.
type Cond struct {
	L       Locker
	tickets []*bool
	sem     byte
}

// NewCond returns a Cond with the locker l.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	tk := new(bool)
	lock()
	c.tickets = append(c.tickets, tk)
	unlock()
	c.L.Unlock()
	lock()
	s, t := syncPoint()
	block(s, t, "a condition", func() bool { return isSet(tk) })
	unlock()
	c.L.Lock()
}

//go:norace
func (c *Cond) wakeUp(n int) {
	lock()
	for ; n > 0 && len(c.tickets) > 0; n-- {
		*c.tickets[0] = true
		c.tickets = c.tickets[1:]
	}
	gcond.Broadcast()
	syncPoint()
	unlock()
}

func (c *Cond) Signal()    { c.wakeUp(1) }
func (c *Cond) Broadcast() { c.wakeUp(1 << 30) }

// Wrap makes the function of a go statement a managed goroutine. It is called
// by the goroutine that executes the go statement.
//
//go:norace
func Wrap[F any](f F) F {
	lock()
	s, parent := self()
	if parent == nil {
		unlock()
		return f
	}
	t := s.newThread()
	s.res.Spawned++
	unlock()
	if g, ok := any(f).(func()); ok {
		return any(func() { s.body(t, g) }).(F)
	}
	v := reflect.ValueOf(f)
	return reflect.MakeFunc(v.Type(), func(args []reflect.Value) (out []reflect.Value) {
		s.body(t, func() {
			if v.Type().IsVariadic() {
				out = v.CallSlice(args)
			} else {
				out = v.Call(args)
			}
		})
		if out == nil {
			for i := 0; i < v.Type().NumOut(); i++ {
				out = append(out, reflect.Zero(v.Type().Out(i)))
			}
		}
		return out
	}).Interface().(F)
}

// The conditions goroutines wait for are looked at by others, which the race
// detector is not to see; it does see the bodies of function literals.

//go:norace
//go:noinline
func isSet(p *bool) bool { return *p }

//go:norace
//go:noinline
func value(p *int) int { return *p }
