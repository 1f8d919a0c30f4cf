// Package vsync stands in for package sync in the instrumented copy of the
// code under test, and owns the schedule of the goroutines that use it.
//
// While a run is active (Run), exactly one managed goroutine executes at a
// time. It gives way only at scheduling points: the calls of Y that the
// instrumenter puts before every statement, and the operations of the
// synchronisation types below. Which goroutine goes on is a pure function of
// the Plan, so a run can be repeated, and "nobody can go on" is an exact
// deadlock verdict that needs no clock.
//
// The handoffs between goroutines are hidden from the race detector, while the
// synchronisation types tell it about the same happens-before edges as the
// real ones do. In a -race build a run therefore reports exactly the
// accesses left unordered by the program's own synchronisation.
//
// Outside a run the types behave like the ones in package sync.
package vsync

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

// Plan says how a run is scheduled.
type Plan struct {
	// Switches are explicit preemptions: at scheduling point number At, hand
	// over to the To-th of the other goroutines able to run.
	Switches []Switch `json:"switches,omitempty"`
	// If Seed is not zero, the run also switches at random: at a
	// synchronisation operation with probability Sync/256, before a statement
	// with probability Stmt/256, to a goroutine chosen uniformly.
	Seed uint64 `json:"seed,omitempty"`
	Sync uint8  `json:"sync,omitempty"`
	Stmt uint8  `json:"stmt,omitempty"`
}

// Switch is one explicit preemption.
type Switch struct {
	At int `json:"at"`
	To int `json:"to"`
}

// Result is what became of a run.
type Result struct {
	Deadlock string // not empty: nobody could go on
	Panic    string // not empty: a managed goroutine panicked
	Steps    int    // scheduling points passed
	Switches int    // how often the running goroutine changed
	Spawned  int    // goroutines started by the code under test
	External int    // times a goroutine blocked outside this package
	Left     int    // goroutines of the code under test left blocked for ever
}

// Failed reports whether the run ended in a deadlock or a panic.
func (r Result) Failed() bool { return r.Deadlock != "" || r.Panic != "" }

// Err describes a failed run.
func (r Result) Err() string {
	if r.Deadlock != "" {
		return "deadlock: " + r.Deadlock
	}
	if r.Panic != "" {
		return "panic: " + r.Panic
	}
	return ""
}

type thread struct {
	id       int
	gid      uint64
	wake     chan struct{}
	ready    func() bool // not nil: blocked until it holds
	what     string
	done     bool
	external bool
	anon     bool
}

type sched struct {
	threads  []*thread // the functions given to Run, then the others not yet done
	made     int
	callers  int // how many of them are functions given to Run
	cur      *thread
	plan     Plan
	rng      uint64
	next     int // next entry of plan.Switches
	res      Result
	over     bool
	done     chan struct{}
	progress int
	sem      byte
	stuck    bool
	left     int  // how many goroutines are outside the schedule
	anon     int  // how many of them come back by themselves, unannounced
	settling bool // one has just left: nobody is chosen until all is quiet
	waker    bool // one of those outside may be woken by the clock
	alone    int  // steps of the running goroutine since it was chosen
}

// Stall is how long a running goroutine may go without reaching a scheduling
// point before another one is let run beside it. It matters only to code that
// blocks on something other than this package's types.
var Stall = 2 * time.Second

// HangAfter is how long nothing may happen, with every goroutine blocked and
// at least one of them outside this package, before the run counts as
// deadlocked.
var HangAfter = 60 * time.Second

var (
	gmu    sync.Mutex // guards everything in this package
	gcond  = sync.NewCond(&gmu)
	active *sched
	// sticky: some goroutine has blocked outside this package, so that more
	// than one may run and callers must be told apart by goroutine id.
	sticky  bool
	managed atomic.Bool
	monitor sync.Once
)

//go:norace
func lock() {
	raceDisable()
	gmu.Lock()
}

//go:norace
func unlock() {
	gmu.Unlock()
	raceEnable()
}

func goid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := strings.Fields(string(buf[:n]))
	if len(f) < 2 {
		return 0
	}
	id, _ := strconv.ParseUint(f[1], 10, 64)
	return id
}

// self returns the calling goroutine's thread, nil if it is not managed.
// Called with gmu held.
//
//go:norace
func self() (*sched, *thread) {
	s := active
	if s == nil || s.over {
		return nil, nil
	}
	if !sticky && !Timers && s.anon == 0 && s.cur != nil {
		return s, s.cur
	}
	id := goid()
	for _, t := range s.threads {
		if t.gid == id && !t.done {
			return s, t
		}
	}
	return nil, nil
}

//go:norace
func (s *sched) random() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (s *sched) canRun(t *thread) bool {
	return !t.done && !t.external && (t.ready == nil || t.ready())
}

// pick chooses who runs next; except is never chosen (nil excludes nobody).
//
//go:norace
func (s *sched) pick(except *thread, n int) *thread {
	var c []*thread
	for _, t := range s.threads {
		if t != except && s.canRun(t) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return nil
	}
	if n >= 0 {
		return c[n%len(c)]
	}
	if s.plan.Seed != 0 {
		return c[s.random()%uint64(len(c))]
	}
	return c[0]
}

// handTo lets next run and parks t until it is its turn again (t nil: the
// caller does not wait). Called with gmu held, returns with gmu held.
//
//go:norace
func (s *sched) handTo(next, t *thread) {
	s.cur = next
	s.alone = 0
	if next == t {
		return
	}
	if next != nil {
		s.res.Switches++
		next.wake <- struct{}{}
	}
	if t != nil {
		gmu.Unlock()
		<-t.wake
		gmu.Lock()
	}
}

// arrive is called first by every operation of a managed goroutine: one that
// had been running beside the others gets back in line.
//
//go:norace
func (s *sched) arrive(t *thread) {
	s.progress++
	if t.external {
		t.external = false
		s.left--
		if t.anon {
			t.anon = false
			s.anon--
		}
		if s.cur == nil && !s.settling {
			s.cur = t
		} else {
			gmu.Unlock()
			<-t.wake
			gmu.Lock()
		}
	}
}

//go:norace
func (s *sched) point(t *thread, sync bool) {
	s.arrive(t)
	n := s.res.Steps
	s.res.Steps++
	to := -2
	for s.next < len(s.plan.Switches) && s.plan.Switches[s.next].At <= n {
		if s.plan.Switches[s.next].At == n {
			to = s.plan.Switches[s.next].To
		}
		s.next++
	}
	if to == -2 && s.plan.Seed != 0 {
		p := uint64(s.plan.Stmt)
		if sync {
			p = uint64(s.plan.Sync)
		}
		if p > 0 && s.random()&255 < p {
			to = -1
		}
	}
	if s.alone++; to == -2 && s.alone > patience {
		to = n // it may be waiting for another in a loop
	}
	if to == -2 {
		return
	}
	s.alone = 0
	if next := s.pick(t, to); next != nil {
		s.handTo(next, t)
	}
}

var ticks int

// Tick counts: 1, 2, 3 and so on, in the order of the calls. Unlike an atomic
// counter it orders nothing for the race detector.
//
//go:norace
func Tick() int {
	lock()
	ticks++
	n := ticks
	unlock()
	return n
}

// patience is how many steps a goroutine may make while others could run.
const patience = 20000

// Y is a scheduling point before a statement.
//
//go:norace
func Y() {
	if !managed.Load() {
		return
	}
	lock()
	if s, t := self(); t != nil {
		s.point(t, false)
	}
	unlock()
}

//go:norace
func syncPoint() (*sched, *thread) {
	s, t := self()
	if t != nil {
		s.point(t, true)
	}
	return s, t
}

// block waits until ready holds. Called and returns with gmu held.
//
//go:norace
func block(s *sched, t *thread, what string, ready func() bool) {
	for !ready() {
		if t == nil {
			gcond.Wait()
			continue
		}
		t.ready, t.what = ready, what
		next := s.pick(t, -1)
		if next == nil && !s.anyExternal() {
			s.deadlock()
			gmu.Unlock()
			select {} // abandoned
		}
		s.handTo(next, t)
		t.ready, t.what = nil, ""
	}
}

//go:norace
func (s *sched) anyExternal() bool {
	for _, t := range s.threads {
		if !t.done && t.external {
			return true
		}
	}
	return false
}

// deadlock ends a run in which nobody can go on. If all of its functions have
// returned, nobody is waiting for those that are left.
//
//go:norace
func (s *sched) deadlock() {
	for i, t := range s.threads {
		if !t.done && i < s.callers {
			s.stuck = true
		}
		if !t.done {
			s.res.Left++
		}
	}
	s.finish()
}

//go:norace
func (s *sched) describe() string {
	b := ""
	for _, t := range s.threads {
		if t.done {
			continue
		}
		if b != "" {
			b += "; "
		}
		b += "goroutine " + strconv.Itoa(t.id)
		if t.external {
			b += " is blocked on a channel"
		} else {
			b += " waits for " + t.what
		}
	}
	return b
}

//go:norace
func (s *sched) finish() {
	if !s.over {
		s.over = true
		managed.Store(false)
		active = nil
		close(s.done)
	}
}

//go:norace
func (s *sched) newThread() *thread {
	t := &thread{id: s.made, wake: make(chan struct{}, 1)}
	s.made++
	s.threads = append(s.threads, t)
	return t
}

// begin is the first thing a managed goroutine does.
//
//go:norace
func (s *sched) begin(t *thread) {
	id := goid()
	raceDisable()
	gmu.Lock()
	t.gid = id
	gmu.Unlock()
	<-t.wake
	raceEnable()
}

// end is the last thing a managed goroutine does.
//
//go:norace
func (s *sched) end(t *thread, panicked string) {
	lock()
	defer unlock()
	if s.over {
		return
	}
	s.arrive(t)
	t.done = true
	if panicked != "" {
		s.res.Panic = panicked
		s.finish()
		return
	}
	all := true
	for i, o := range s.threads {
		all = all && o.done
		if o == t && i >= s.callers {
			// Not copy, which tells the race detector.
			for ; i < len(s.threads)-1; i++ {
				s.threads[i] = s.threads[i+1]
			}
			s.threads[i] = nil
			s.threads = s.threads[:i]
			break
		}
	}
	if all {
		for _, o := range s.threads {
			all = all && o.done
		}
	}
	if all {
		s.finish()
		return
	}
	next := s.pick(nil, -1)
	if next == nil && !s.anyExternal() {
		s.deadlock()
		return
	}
	s.handTo(next, nil)
}

func (s *sched) body(t *thread, f func()) {
	s.begin(t)
	panicked := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		f()
	}()
	raceReleaseMerge(unsafe.Pointer(&s.sem))
	s.end(t, panicked)
}

func trimStack(st []byte) string {
	lines := strings.Split(string(st), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "/repo/") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) == 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Run runs the functions as goroutines under the plan and returns when all of
// them have ended, and all goroutines they started in instrumented code have
// ended or wait for ever, or when the run deadlocks or one of them panics (then
// what is left of them is abandoned).
//
//go:norace
func Run(plan Plan, fs ...func()) Result {
	monitor.Do(func() { go watch(); go control() })
	s := &sched{plan: plan, rng: plan.Seed, done: make(chan struct{})}
	lock()
	if active != nil {
		panic("vsync: nested run")
	}
	var ts []*thread
	for range fs {
		ts = append(ts, s.newThread())
	}
	s.callers = len(fs)
	active = s
	managed.Store(true)
	unlock()
	for i, f := range fs {
		go s.body(ts[i], f)
	}
	lock()
	s.handTo(s.pick(nil, -1), nil)
	unlock()
	<-s.done
	raceAcquire(unsafe.Pointer(&s.sem)) // what the goroutines did comes before what the caller does next
	lock()
	r := s.res
	stuck := s.stuck
	unlock()
	if stuck {
		r.Deadlock = s.describe()
	}
	return r
}

// instrumented: the code under test runs with scheduling points (set by
// a call from instrumented code).
var instrumented atomic.Bool

// Instrumented reports whether the code under test was built from its
// instrumented copy.
func Instrumented() bool { return instrumented.Load() }

// Loaded is called by the init function the instrumenter adds.
func Loaded() { instrumented.Store(true) }

//go:norace
func watch() {
	var last *sched
	lastProgress, since := 0, time.Now()
	for {
		d := Stall / 4
		if d > 250*time.Millisecond {
			d = 250 * time.Millisecond
		}
		time.Sleep(d)
		now := time.Now()
		lock()
		s := active
		if s != last || s == nil || s.progress != lastProgress {
			last, since = s, now
			if s != nil {
				lastProgress = s.progress
			}
			unlock()
			continue
		}
		idle := now.Sub(since)
		switch {
		case s.cur != nil && idle > Stall:
			// The running goroutine blocks somewhere else, or computes: let
			// another run beside it.
			sticky = true
			s.cur.external = true
			s.left++
			s.res.External++
			s.handTo(s.pick(nil, -1), nil)
			s.progress++
			lastProgress, since = s.progress, now
		case s.settling && idle < HangAfter:
		case s.cur == nil && idle > HangAfter:
			s.deadlock()
		case s.cur == nil:
			if n := s.pick(nil, -1); n != nil {
				s.handTo(n, nil)
			}
		}
		unlock()
	}
}
