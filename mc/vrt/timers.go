package vrt

import (
	"time"
	"unsafe"
)

// epoch is when an execution starts.
var epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// Timer is a running, stopped or expired timer.
type Timer struct {
	when   int64
	every  int64
	f      func()         // runs in a thread of its own
	c      chan time.Time // or receives the time
	active bool
	key    byte
}

// Now is the virtual time.
func Now() time.Time {
	if active == nil {
		return epoch
	}
	return epoch.Add(time.Duration(active.now))
}

// Sleep blocks the thread.
func Sleep(d time.Duration) {
	t := current()
	if t == nil || t.dead() {
		return
	}
	at := t.s.now + int64(d)
	if d <= 0 {
		t.request("sleep", true, nil, nil, nil)
		return
	}
	t.request("sleep", true, func() bool { return t.s.now >= at }, func() int64 { return at }, nil)
}

// NewTimer starts a timer that calls f, or sends on c.
func NewTimer(d, every time.Duration, f func(), c chan time.Time) *Timer {
	x := &Timer{f: f, c: c, every: int64(every)}
	x.Start(d)
	return x
}

// Start starts the timer (again) and reports whether it was running.
func (x *Timer) Start(d time.Duration) bool {
	t := current()
	if t == nil || t.dead() {
		return false
	}
	Release(unsafe.Pointer(&x.key))
	t.request("start timer", true, nil, nil, func(t *Thread) {
		s := t.s
		t.ok = x.active
		if !x.active {
			s.timers = append(s.timers, x)
		}
		x.active = true
		if d < 0 {
			d = 0
		}
		x.when = s.now + int64(d)
	})
	return t.ok
}

// Stop stops the timer and reports whether it was running.
func (x *Timer) Stop() bool {
	t := current()
	if t == nil || t.dead() {
		return false
	}
	t.request("stop timer", true, nil, nil, func(t *Thread) {
		t.ok = x.active
		t.s.remove(x)
	})
	return t.ok
}

func (s *Sched) remove(x *Timer) {
	x.active = false
	for i, y := range s.timers {
		if y == x {
			s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
			return
		}
	}
}

// fire lets an expired timer act.
func (s *Sched) fire(x *Timer) {
	if x.every > 0 {
		x.when += x.every
	} else {
		s.remove(x)
	}
	if x.f == nil {
		c := s.ch(ptrOf(x.c), cap(x.c))
		now := epoch.Add(time.Duration(s.now))
		if len(c.buf) < c.cap {
			c.buf = append(c.buf, now)
		}
		return
	}
	if len(s.idle) == 0 {
		s.more(4)
	}
	t := s.idle[0]
	s.idle = s.idle[1:]
	t.Kind = Timed
	t.f = func() {
		Acquire(unsafe.Pointer(&x.key))
		x.f()
	}
	t.pend("start", true, nil, nil, nil)
	s.threads = append(s.threads, t)
	s.Logf("timer expires: %s", t.label())
}
