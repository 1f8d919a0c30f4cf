package vsync

import (
	"bytes"
	"runtime"
	"strconv"
	"time"
)

// Channels stay real ones. An operation that cannot go through at once leaves
// the run: the goroutine performs it beside the others, and the next one is
// chosen only when every goroutine that has left is back or blocked for good
// as far as the runtime is concerned. So still only one goroutine executes at a
// time, and "nobody can go on" is exact here too.

var kick = make(chan struct{}, 1)

// leave lets the calling goroutine run on outside the schedule until it
// arrives again. Called with gmu held.
//
//go:norace
func (s *sched) leave(t *thread) {
	s.progress++
	t.external = true
	s.left++
	s.cur = nil
	s.settling = true
	select {
	case kick <- struct{}{}:
	default:
	}
}

// control chooses who goes on after a goroutine has left.
//
//go:norace
func control() {
	raceDisable()
	for range kick {
		for n := 0; ; n++ {
			if n > 0 {
				runtime.Gosched()
			}
			if n > 2000 {
				time.Sleep(20 * time.Microsecond)
			}
			gmu.Lock()
			s := active
			if s == nil || s.over || !s.settling {
				gmu.Unlock()
				break
			}
			if s.left > 0 && (n < 30 || !s.allBlocked()) {
				gmu.Unlock()
				continue
			}
			s.settling = false
			next := s.pick(nil, -1)
			if next == nil && !s.waker {
				s.deadlock()
			} else {
				s.handTo(next, nil)
			}
			gmu.Unlock()
			break
		}
	}
}

var stacks = make([]byte, 1<<16)

// allBlocked reports whether every goroutine that has left is blocked. It also
// notes whether one of them is blocked on something that ends by itself.
//
//go:norace
func (s *sched) allBlocked() bool {
	n := runtime.Stack(stacks, true)
	for n == len(stacks) && n < 1<<26 {
		stacks = make([]byte, 2*n)
		n = runtime.Stack(stacks, true)
	}
	state := map[uint64]string{}
	for b := stacks[:n]; len(b) > 0; {
		var line []byte
		line, b, _ = bytes.Cut(b, []byte("\n"))
		if !bytes.HasPrefix(line, []byte("goroutine ")) {
			continue
		}
		id, rest, ok := bytes.Cut(line[len("goroutine "):], []byte(" "))
		if !ok {
			continue
		}
		at := bytes.IndexByte(rest, '[')
		g, err := strconv.ParseUint(string(id), 10, 64)
		if err == nil && at >= 0 {
			state[g] = string(rest[at+1:])
		}
	}
	s.waker = Timers
	for _, t := range s.threads {
		if !t.external || t.done {
			continue
		}
		st := state[t.gid]
		switch {
		case hasPrefix(st, "chan "), hasPrefix(st, "select"):
		case hasPrefix(st, "sleep"), hasPrefix(st, "IO wait"):
			s.waker = true
		default:
			return false
		}
	}
	return true
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// Timers is set if the code under test uses the clock, so that a goroutine
// blocked on a channel may be woken by nobody in the run.
var Timers bool

// enter begins a channel operation; t is nil outside a run.
//
//go:norace
func enter() (s *sched, t *thread) {
	if !managed.Load() {
		return nil, nil
	}
	lock()
	s, t = syncPoint()
	unlock()
	return s, t
}

//go:norace
func depart(s *sched, t *thread) {
	lock()
	if !s.over {
		s.leave(t)
	}
	unlock()
}

//go:norace
func comeBack(s *sched, t *thread) {
	lock()
	if !s.over {
		s.arrive(t)
	}
	unlock()
}

// settle is called after an operation that went through at once: it may have
// let others go on.
//
//go:norace
func settle(s *sched, t *thread) {
	lock()
	away := !s.over && s.left > 0
	if away {
		s.leave(t)
		s.arrive(t)
	}
	unlock()
}

// Send is the sending of a value: Send(ch)(v) stands for ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		s, t := enter()
		if t == nil {
			ch <- v
			return
		}
		select {
		case ch <- v:
			settle(s, t)
			return
		default:
		}
		depart(s, t)
		ch <- v
		comeBack(s, t)
	}
}

// Recv stands for <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 stands for v, ok = <-ch.
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	s, t := enter()
	if t == nil {
		v, ok = <-ch
		return v, ok
	}
	select {
	case v, ok = <-ch:
		settle(s, t)
		return v, ok
	default:
	}
	depart(s, t)
	v, ok = <-ch
	comeBack(s, t)
	return v, ok
}

// First begins a loop over a channel.
func First[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}

// FirstOf begins a loop over a channel whose values are not used.
func FirstOf[T any](ch <-chan T) (<-chan T, bool) {
	_, ok := Recv2(ch)
	return ch, ok
}

// More goes on with it.
func More[T any](ch <-chan T) bool {
	_, ok := Recv2(ch)
	return ok
}

// FirstInto and MoreInto are for loops that assign to a variable.
func FirstInto[T any](ch <-chan T, p *T) (<-chan T, bool) { return ch, MoreInto(ch, p) }

func MoreInto[T any](ch <-chan T, p *T) bool {
	v, ok := Recv2(ch)
	if ok {
		*p = v
	}
	return ok
}

// Close stands for close(ch).
func Close[T any](ch chan<- T) {
	s, t := enter()
	close(ch)
	if t != nil {
		settle(s, t)
	}
}

// Leave comes before a select statement, which is performed outside the
// schedule; the next scheduling point brings the goroutine back.
//
//go:norace
func Leave() {
	s, t := enter()
	if t == nil {
		return
	}
	lock()
	if !s.over {
		t.anon = true
		s.anon++
		s.leave(t)
	}
	unlock()
}
