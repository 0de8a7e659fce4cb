package vrt

import (
	"unsafe"
)

// Channels are emulated: the real channel only lends its identity and capacity.

func ptrOf[T any](ch chan T) unsafe.Pointer       { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func ptrOfSend[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }
func ptrOfRecv[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// Op is one case of a select.
type Op struct {
	p    unsafe.Pointer
	cap  int
	send bool
	v    interface{}
}

func SendOp[T any](ch chan<- T) func(v T) Op {
	return func(v T) Op { return Op{ptrOfSend(ch), cap(ch), true, v} }
}

func RecvOp[T any](ch <-chan T) Op { return Op{p: ptrOfRecv(ch), cap: cap(ch)} }

// Result is what a select received.
type Result struct {
	v  interface{}
	ok bool
}

func As[T any](ch <-chan T, r Result) (T, bool) {
	if r.v == nil {
		var zero T
		return zero, r.ok
	}
	return r.v.(T), r.ok
}

func As1[T any](ch <-chan T, r Result) T { v, _ := As(ch, r); return v }

// a thread blocked in channel operations
type waiter struct {
	t    *Thread
	ops  []Op
	done bool // matched by the other side
	i    int
	v    interface{}
	ok   bool
}

func (s *Sched) ready(o Op, self *waiter) bool {
	if o.p == nil {
		return false
	}
	c := s.ch(o.p, o.cap)
	if c.closed {
		return true
	}
	if o.send {
		return len(c.buf) < c.cap || s.partner(o, self) != nil
	}
	return len(c.buf) > 0 || s.partner(o, self) != nil
}

// partner finds a thread blocked in the opposite operation of an unbuffered channel.
func (s *Sched) partner(o Op, self *waiter) *waiter {
	c := s.ch(o.p, o.cap)
	if c.cap > 0 {
		return nil
	}
	for _, w := range s.blocked {
		if w == self || w.done {
			continue
		}
		for _, x := range w.ops {
			if x.p == o.p && x.send != o.send {
				return w
			}
		}
	}
	return nil
}

// Select performs one of the operations; -1 if none can be and block is false.
func Select(block bool, ops ...Op) (int, Result) {
	t := current()
	if t == nil || t.dead() {
		return -1, Result{}
	}
	for _, o := range ops {
		if o.p != nil {
			Release(o.p) // orders sends before receives, and receives before later sends
		}
	}
	w := &waiter{t: t, ops: ops}
	what := "select"
	if len(ops) == 1 {
		what = "receive"
		if ops[0].send {
			what = "send"
		}
	}
	if block {
		Do(what, func() { t.s.blocked = append(t.s.blocked, w) })
	}
	t.request(what, true, func() bool {
		if w.done || !block {
			return true
		}
		for _, o := range ops {
			if t.s.ready(o, w) {
				return true
			}
		}
		return false
	}, nil, func(t *Thread) { t.s.perform(t, w, ops) })
	n, v, ok, _ := t.outcome()
	if n >= 0 && ops[n].p != nil {
		Acquire(ops[n].p)
	}
	return n, Result{v, ok}
}

func (s *Sched) perform(t *Thread, w *waiter, ops []Op) {
	for i, x := range s.blocked {
		if x == w {
			s.blocked = append(s.blocked[:i:i], s.blocked[i+1:]...)
			break
		}
	}
	t.n, t.v, t.ok = -1, nil, false
	if w.done {
		t.n, t.v, t.ok = w.i, w.v, w.ok
		return
	}
	var can []int
	for i, o := range ops {
		if s.ready(o, w) {
			can = append(can, i)
		}
	}
	if len(can) == 0 {
		return
	}
	i := can[0]
	if len(can) > 1 && s.DevFrom {
		i = can[s.C.Deviate(len(can))]
	}
	o := ops[i]
	c := s.ch(o.p, o.cap)
	t.n = i
	if o.send {
		if c.closed {
			s.C.Failf("send on a closed channel by %s", t.label())
		}
		if p := s.partner(o, w); p != nil {
			p.finish(o.p, false, o.v, true)
			return
		}
		c.buf = append(c.buf, o.v)
		return
	}
	if len(c.buf) > 0 {
		t.v, t.ok = c.buf[0], true
		c.buf = c.buf[1:]
		return
	}
	if p := s.partner(o, w); p != nil {
		for k, x := range p.ops {
			if x.p == o.p && x.send {
				p.done, p.i = true, k
				t.v, t.ok = x.v, true
				return
			}
		}
	}
	// closed
}

func (w *waiter) finish(p unsafe.Pointer, send bool, v interface{}, ok bool) {
	for k, x := range w.ops {
		if x.p == p && x.send == send {
			w.done, w.i, w.v, w.ok = true, k, v, ok
			return
		}
	}
}

// Send returns the function sending to ch.
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) { Select(true, SendOp(ch)(v)) }
}

func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

func Recv2[T any](ch <-chan T) (T, bool) {
	_, r := Select(true, RecvOp(ch))
	return As(ch, r)
}

func Close[T any](ch chan<- T) { closeChan(ptrOfSend(ch), cap(ch)) }

func closeChan(p unsafe.Pointer, capacity int) {
	t := current()
	if t == nil || t.dead() {
		return
	}
	Release(p)
	t.request("close", true, nil, nil, func(t *Thread) {
		c := t.s.ch(p, capacity)
		if c.closed {
			t.s.C.Failf("close of a closed channel by %s", t.label())
		}
		c.closed = true
	})
}

func Len[T any](ch chan T) int { return lenChan(ptrOf(ch), cap(ch)) }

func lenChan(p unsafe.Pointer, capacity int) int {
	t := current()
	if t == nil || t.dead() {
		return 0
	}
	t.request("len", true, nil, nil, func(t *Thread) { t.n = len(t.s.ch(p, capacity).buf) })
	return t.n
}
