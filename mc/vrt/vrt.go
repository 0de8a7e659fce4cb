// Package vrt runs real code under a controlled scheduler with virtual time.
//
// Threads (goroutines started through Go) run one at a time. Every operation
// that other threads can notice (locks, channels, timers, connections, thread
// starts) is a request to the controller, which runs on the goroutine of the
// model checking engine: it lets one thread go on whose request can be
// granted, applies the request's effect and waits for the next request. Which
// thread goes on, whether time passes and what the environment does are
// choices of the engine: 0 is the default, everything else a deviation.
//
// Under the race detector the hand-offs between threads and the controller
// order nothing between threads: only the synchronisation the code under test
// asks for does.
package vrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"

	"verifmc/engine"
)

// Sched is one execution.
type Sched struct {
	C       *engine.C
	Fine    bool // statements are scheduling points, too
	DevFrom bool // deviations are possible only once set
	// DevUntil ends the time of deviations, if set.
	DevUntil time.Duration
	threads  []*Thread
	idle     []*Thread // threads kept for timers
	last     *Thread   // ran last
	now      int64
	timers   []*Timer
	events   []*event
	back     chan *Thread
	chans    map[unsafe.Pointer]*chanState
	blocked  []*waiter
	conns    []*Conn
	steps    int
	killed   bool
	nextID   int
	notes    []interface{}
	// OnDial decides about connection attempts; the connection is nil if it fails.
	OnDial func(addr string) *Conn
	// Env lists what the environment may do at this moment at the cost of a deviation.
	Env func() []Action
	// MaxSteps bounds the execution.
	MaxSteps int
	rel      byte // threads release to it, the controller acquires
	Spawned  int  // threads started by the code under test so far
	Held     int  // how often time passed although a thread could go on
	Rests    int  // how often time passed because no thread could go on
}

// maxEarly is how long a thread that could go on may be held up.
const maxEarly = int64(30 * time.Millisecond)

// Action is something the environment may do.
type Action struct {
	Name string
	Do   func()
}

type event struct {
	at  int64
	seq int
	f   func()
}

// Thread is one goroutine of the execution.
type Thread struct {
	ID   int
	Name string
	Kind Kind
	s    *Sched
	wake chan struct{}
	// the pending request
	what   string
	choice bool
	cond   func() bool
	wakeAt func() int64
	effect func(t *Thread)
	// the outcome
	n    int
	v    interface{}
	ok   bool
	data []byte

	f        func()
	Done     bool
	panicked string
	failure  *engine.Failure
}

// Kind says where a thread comes from.
type Kind int

const (
	User    Kind = iota // started by the scenario
	Spawned             // started by a go statement of the code under test
	Timed               // runs a timer's function
	idling
)

var (
	active *Sched
	cur    *Thread
)

//go:norace
func current() *Thread { return cur }

//go:norace
func setCurrent(t *Thread) { cur = t }

//go:norace
func (t *Thread) dead() bool { return t.s.killed }

//go:norace
func (t *Thread) outcome() (int, interface{}, bool, []byte) {
	n, v, ok, data := t.n, t.v, t.ok, t.data
	return n, v, ok, data
}

// New starts an execution; it ends with the engine's execution.
func New(c *engine.C) *Sched {
	s := &Sched{C: c, back: make(chan *Thread), chans: map[unsafe.Pointer]*chanState{}, DevFrom: true, MaxSteps: 100000}
	active = s
	setCurrent(nil)
	s.more(4)
	c.Defer(s.kill)
	return s
}

// more starts threads for timers. They exist before what they will run does,
// so that nothing but the timer orders them after the thread that set it.
func (s *Sched) more(n int) {
	for i := 0; i < n; i++ {
		t := s.newThread("timer", idling)
		t.start(nil)
		s.idle = append(s.idle, t)
	}
}

func (s *Sched) newThread(name string, k Kind) *Thread {
	s.nextID++
	return &Thread{ID: s.nextID, Name: name, Kind: k, s: s, wake: make(chan struct{})}
}

func (t *Thread) start(f func()) {
	t.f = f
	go t.main()
}

func (t *Thread) main() {
	defer t.finish()
	raceOff()
	<-t.wake
	raceOn()
	if t.dead() {
		return
	}
	t.job()()
}

//go:norace
func (t *Thread) job() func() { return t.f }

func (t *Thread) finish() {
	if r := recover(); r != nil {
		if f, ok := r.(*engine.Failure); ok {
			t.failWith(f)
		} else {
			t.fail(fmt.Sprintf("panic in %s: %v\n%s", t.Name, r, trim(string(debug.Stack()))))
		}
	}
	t.end()
	t.release()
	raceOff()
	t.s.back <- t
	raceOn()
}

//go:norace
func (t *Thread) fail(s string) { t.panicked = s }

//go:norace
func (t *Thread) failWith(f *engine.Failure) { t.failure = f }

//go:norace
func (t *Thread) end() { t.Done = true }

//go:norace
func (t *Thread) release() { Release(unsafe.Pointer(&t.s.rel)) }

func trim(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// Controlled tells whether the caller is a thread of an execution.
func Controlled() bool { t := current(); return t != nil && !t.dead() }

// request hands a request to the controller and returns when it was granted.
func (t *Thread) request(what string, choice bool, cond func() bool, wakeAt func() int64, effect func(t *Thread)) {
	if t.dead() {
		return
	}
	t.pend(what, choice, cond, wakeAt, effect)
	t.release()
	raceOff()
	t.s.back <- t
	<-t.wake
	raceOn()
	if t.dead() {
		runtime.Goexit()
	}
}

//go:norace
func (t *Thread) pend(what string, choice bool, cond func() bool, wakeAt func() int64, effect func(t *Thread)) {
	t.what, t.choice, t.cond, t.wakeAt, t.effect = what, choice, cond, wakeAt, effect
}

// resume lets t go on until its next request.
func (s *Sched) resume(t *Thread) {
	setCurrent(t)
	raceOff()
	t.wake <- struct{}{}
	b := <-s.back
	raceOn()
	setCurrent(nil)
	Acquire(unsafe.Pointer(&s.rel))
	if b != t {
		panic("vrt: a thread ran out of turn")
	}
	if t.Done {
		for i, x := range s.threads {
			if x == t {
				s.threads = append(s.threads[:i:i], s.threads[i+1:]...)
				break
			}
		}
		if t.failure != nil {
			panic(t.failure)
		}
		if t.panicked != "" {
			s.C.Failf("%s", t.panicked)
		}
		s.C.Logf("%s %s ended", s.stamp(), t.label())
	}
}

//go:norace
func (s *Sched) setKilled() { s.killed = true }

// Kill ends the execution before the engine's does.
func (s *Sched) Kill() { s.kill() }

func (s *Sched) kill() {
	setCurrent(nil)
	s.setKilled()
	all := append(append([]*Thread{}, s.threads...), s.idle...)
	for _, t := range all {
		if t.Done {
			continue
		}
		for !t.Done {
			setCurrent(t)
			raceOff()
			t.wake <- struct{}{}
			<-s.back
			raceOn()
		}
	}
	setCurrent(nil)
	if active == s {
		active = nil
	}
}

func (t *Thread) label() string { return fmt.Sprintf("%s#%d", t.Name, t.ID) }

func (s *Sched) stamp() string { return fmt.Sprintf("[%7.3fms]", float64(s.now)/1e6) }

// Logf adds to the trace.
func (s *Sched) Logf(format string, a ...interface{}) {
	if s.C.Tracing() {
		s.C.Logf("%s "+format, append([]interface{}{s.stamp()}, a...)...)
	}
}

// Now is the virtual time since the start of the execution.
func (s *Sched) Now() time.Duration { return time.Duration(s.now) }

// User starts a thread of the scenario (before Run).
func (s *Sched) User(name string, f func()) *Thread {
	t := s.newThread(name, User)
	t.pend("start", true, nil, nil, nil)
	t.start(f)
	s.threads = append(s.threads, t)
	return t
}

// At runs f in the controller at a time.
func (s *Sched) At(d time.Duration, f func()) {
	s.nextID++
	s.events = append(s.events, &event{int64(d), s.nextID, f})
	sort.SliceStable(s.events, func(i, j int) bool { return s.events[i].at < s.events[j].at })
}

// After runs f in the controller after some time.
func (s *Sched) After(d time.Duration, f func()) { s.At(time.Duration(s.now)+d, f) }

// Alive lists the threads of a kind that have not ended.
func (s *Sched) Alive(k Kind) []*Thread {
	var l []*Thread
	for _, t := range s.threads {
		if t.Kind == k {
			l = append(l, t)
		}
	}
	return l
}

// Timers counts the timers that are running.
func (s *Sched) Timers() int { return len(s.timers) }

// Describe says what every thread waits for.
func (s *Sched) Describe() string {
	var l []string
	for _, t := range s.threads {
		l = append(l, t.label()+" at "+t.what)
	}
	return strings.Join(l, ", ")
}

// due runs what is due at the present time.
func (s *Sched) due() {
	for {
		if len(s.events) > 0 && s.events[0].at <= s.now {
			e := s.events[0]
			s.events = s.events[1:]
			e.f()
			continue
		}
		var first *Timer
		for _, t := range s.timers {
			if t.when <= s.now && (first == nil || t.when < first.when) {
				first = t
			}
		}
		if first == nil {
			return
		}
		s.fire(first)
	}
}

// next is the time at which something will be due, or a thread wakes; -1: never.
func (s *Sched) next() int64 {
	n := int64(-1)
	add := func(x int64) {
		if x > s.now && (n < 0 || x < n) {
			n = x
		}
	}
	if len(s.events) > 0 {
		add(s.events[0].at)
	}
	for _, t := range s.timers {
		add(t.when)
	}
	for _, t := range s.threads {
		if t.wakeAt != nil {
			add(t.wakeAt())
		}
	}
	return n
}

// Run runs the execution up to time until, or until stop says so, or until
// nothing can happen any more; it returns whether all user threads ended.
func (s *Sched) Run(until time.Duration, stop func() bool) bool {
	var alts []func()
	for {
		s.due()
		if s.DevUntil > 0 && s.now > int64(s.DevUntil) {
			s.DevFrom = false
		}
		if stop != nil && stop() {
			break
		}
		alts = alts[:0]
		var pick *Thread
		// the thread that ran last goes on by default, else the next in line
		n := len(s.threads)
		first := 0
		for i, t := range s.threads {
			if t == s.last {
				first = i
			} else if s.last != nil && s.last.Done && t.ID < s.last.ID {
				first = i + 1
			}
		}
		var enabled []*Thread
		for i := 0; i < n; i++ {
			t := s.threads[(first+i)%n]
			if t.cond == nil || t.cond() {
				enabled = append(enabled, t)
			}
		}
		next := s.next()
		if next > int64(until) {
			next = -1
		}
		if len(enabled) == 0 {
			if next < 0 {
				s.now = int64(until)
				break
			}
			s.now = next
			s.Rests++
			continue
		}
		pick = enabled[0]
		if s.DevFrom && (pick != s.last || pick.choice) {
			k := len(enabled)
			timeIdx, envIdx := -1, -1
			if next >= 0 && next-s.now <= maxEarly {
				timeIdx = k
				k++
			}
			var env []Action
			if s.Env != nil && s.C.DevLeft() > 0 {
				env = s.Env()
				if len(env) > 0 {
					envIdx = k
					k += len(env)
				}
			}
			x := s.C.Deviate(k)
			switch {
			case x < len(enabled):
				pick = enabled[x]
				if x > 0 && s.C.Tracing() {
					s.Logf("** %s goes on instead of %s (at %s)", pick.label(), enabled[0].label(), enabled[0].what)
				}
			case x == timeIdx:
				s.Logf("** time passes although %s could go on (at %s)", enabled[0].label(), enabled[0].what)
				s.now = next
				s.Held++
				continue
			default:
				a := env[x-envIdx]
				s.Logf("** %s", a.Name)
				a.Do()
				continue
			}
		}
		s.steps++
		s.C.Step()
		if s.steps > s.MaxSteps {
			s.C.Failf("no end after %d steps: %s", s.steps, s.Describe())
		}
		s.last = pick
		if s.C.Tracing() && !strings.HasPrefix(pick.what, "statement") {
			s.Logf("%s: %s", pick.label(), pick.what)
		}
		eff := pick.effect
		pick.cond, pick.wakeAt, pick.effect = nil, nil, nil
		if eff != nil {
			eff(pick)
		}
		s.resume(pick)
	}
	return len(s.Alive(User)) == 0
}

// Go starts a thread.
func Go(f func()) {
	t := current()
	if t == nil {
		s := active
		if s == nil {
			go f()
			return
		}
		x := s.newThread("goroutine", Spawned)
		x.pend("start", true, nil, nil, nil)
		x.start(f)
		s.threads = append(s.threads, x)
		return
	}
	if t.dead() {
		return
	}
	x := t.s.newThreadAt(t)
	x.start(f)
	t.request("go", true, nil, nil, func(t *Thread) {
		t.s.threads = append(t.s.threads, x)
		t.s.Spawned++
	})
}

//go:norace
func (s *Sched) newThreadAt(t *Thread) *Thread {
	s.nextID++
	return &Thread{ID: s.nextID, Name: "goroutine", Kind: Spawned, s: s, wake: make(chan struct{}), what: "start", choice: true}
}

// Point is a place where another thread may run.
func Point() {
	t := current()
	if t == nil || !t.fine() || t.dead() {
		return
	}
	t.request("statement", true, nil, nil, nil)
}

//go:norace
func (t *Thread) fine() bool { return t.s.Fine }

// Do runs f in the controller, at once.
func Do(what string, f func()) {
	t := current()
	if t == nil {
		f()
		return
	}
	t.request(what, false, nil, nil, func(*Thread) { f() })
}

// Wait blocks the thread until cond (evaluated in the controller) holds.
func Wait(what string, cond func() bool) {
	t := current()
	if t == nil {
		return
	}
	t.request(what, true, cond, nil, nil)
}

// ---- locks ----

// Lock is the state of a mutual exclusion lock, touched by the controller only.
type Lock struct {
	writer  bool
	readers int
	key     byte
}

func (l *Lock) Lock() {
	t := current()
	if t == nil {
		return
	}
	t.request("lock", true, func() bool { return !l.writer && l.readers == 0 }, nil, func(*Thread) { l.writer = true })
	Acquire(unsafe.Pointer(&l.key))
}

func (l *Lock) TryLock() bool {
	t := current()
	if t == nil {
		return true
	}
	t.request("try lock", true, nil, nil, func(t *Thread) {
		t.ok = !l.writer && l.readers == 0
		l.writer = l.writer || t.ok
	})
	_, _, ok, _ := t.outcome()
	if ok {
		Acquire(unsafe.Pointer(&l.key))
	}
	return ok
}

func (l *Lock) Unlock() {
	t := current()
	if t == nil {
		return
	}
	Release(unsafe.Pointer(&l.key))
	t.request("unlock", false, nil, nil, func(t *Thread) {
		if !l.writer {
			t.s.C.Failf("unlock of a lock that is not held")
		}
		l.writer = false
	})
}

func (l *Lock) RLock() {
	t := current()
	if t == nil {
		return
	}
	t.request("read lock", true, func() bool { return !l.writer }, nil, func(*Thread) { l.readers++ })
	Acquire(unsafe.Pointer(&l.key))
}

func (l *Lock) TryRLock() bool {
	t := current()
	if t == nil {
		return true
	}
	t.request("try read lock", true, nil, nil, func(t *Thread) {
		t.ok = !l.writer
		if t.ok {
			l.readers++
		}
	})
	_, _, ok, _ := t.outcome()
	if ok {
		Acquire(unsafe.Pointer(&l.key))
	}
	return ok
}

func (l *Lock) RUnlock() {
	t := current()
	if t == nil {
		return
	}
	Release(unsafe.Pointer(&l.key))
	t.request("read unlock", false, nil, nil, func(t *Thread) {
		if l.readers == 0 {
			t.s.C.Failf("unlock of a lock that is not held")
		}
		l.readers--
	})
}

// Cond is the state of a condition variable.
type Cond struct {
	waiting []*Thread
	key     byte
}

func (x *Cond) Wait(unlock, lock func()) {
	t := current()
	if t == nil {
		return
	}
	Do("wait", func() { x.waiting = append(x.waiting, t) })
	unlock()
	t.request("wait", true, func() bool {
		for _, w := range x.waiting {
			if w == t {
				return false
			}
		}
		return true
	}, nil, nil)
	Acquire(unsafe.Pointer(&x.key))
	lock()
}

func (x *Cond) Signal(all bool) {
	if current() == nil {
		return
	}
	Release(unsafe.Pointer(&x.key))
	Do("signal", func() {
		if all {
			x.waiting = nil
		} else if len(x.waiting) > 0 {
			x.waiting = x.waiting[1:]
		}
	})
}

// Counter is the state of a wait group.
type Counter struct {
	n   int
	key byte
}

func (x *Counter) Add(d int) {
	t := current()
	if t == nil {
		return
	}
	Release(unsafe.Pointer(&x.key))
	t.request("wait group add", true, nil, nil, func(t *Thread) {
		x.n += d
		if x.n < 0 {
			t.s.C.Failf("negative wait group counter")
		}
	})
}

func (x *Counter) Wait() {
	t := current()
	if t == nil {
		return
	}
	t.request("wait group wait", true, func() bool { return x.n == 0 }, nil, nil)
	Acquire(unsafe.Pointer(&x.key))
}

// Atomic performs one atomic operation on the memory at p.
func Atomic(p unsafe.Pointer, f func()) {
	t := current()
	if t == nil {
		f()
		return
	}
	t.request("atomic", true, nil, nil, nil)
	Acquire(p)
	f()
	Release(p)
}

// ---- channels ----

type chanState struct {
	cap    int
	buf    []interface{}
	closed bool
}

func (s *Sched) ch(p unsafe.Pointer, capacity int) *chanState {
	c := s.chans[p]
	if c == nil {
		c = &chanState{cap: capacity}
		s.chans[p] = c
	}
	return c
}
