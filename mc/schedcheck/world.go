// Package schedcheck checks the client: its threads, time and connections
// belong to the controlled scheduler (verifmc/vrt), the peer is played by the
// scenario.
package schedcheck

import (
	"fmt"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"

	"verifmc/checks"
	"verifmc/engine"
	"verifmc/ref"
	"verifmc/vrt"
)

const ms = time.Millisecond

// world is one client, its user threads and the peers of its connections.
type world struct {
	c      *engine.C
	s      *vrt.Sched
	client *socket.S101Client
	peers  []*peer
	seq    int // orders calls and events
	ops    []*op
	ears   []*ear

	dials     int // attempts so far
	dialled   []string
	late      int // replies that took their time
	key       byte
	settling  bool                                  // the scenario is over
	failed    []int                                 // when attempts failed
	refuse    func(n int) bool                      // whether attempt n fails
	onRequest func(p *peer, path []int32)           // a directory request arrived
	setup     func(p *peer)                         // a connection was made
	blind     bool                                  // the tree must not be looked at (race detector)
	onFrame   func(p *peer, f *ref.ParsedFrame)     // a frame arrived
	others    func(p *peer, elems []*ref.Elem) bool // a message that is no directory request
}

func newWorld(c *engine.C) *world {
	w := &world{c: c, s: vrt.New(c), blind: blind}
	w.s.OnDial = func(addr string) *vrt.Conn {
		n := w.dials
		w.dials++
		w.dialled = append(w.dialled, addr)
		now := w.tick()
		if w.refuse != nil && w.refuse(n) {
			w.failed = append(w.failed, now)
			return nil
		}
		p := &peer{w: w, n: len(w.peers), born: now}
		p.conn = w.s.NewConn(fmt.Sprintf("conn%d", p.n))
		p.conn.OnWrite = p.wrote
		w.peers = append(w.peers, p)
		if w.setup != nil {
			w.setup(p)
		}
		return p.conn
	}
	w.client = socket.NewS101Client()
	return w
}

// blind is set when the race detector watches: looking at the library's
// memory from outside its threads would be reported.
var blind bool

// handOver and takeOver order what the threads that pass something on did.
func (w *world) handOver() { vrt.Release(unsafe.Pointer(&w.key)) }
func (w *world) takeOver() { vrt.Acquire(unsafe.Pointer(&w.key)) }

// tick orders what happens; it is used by one thread at a time.
func (w *world) tick() int { w.seq++; return w.seq }

// ---- the peer ----

type event struct {
	seq  int
	at   time.Duration
	kind string // "request", "ka-response", "ka-request", "other"
	path []int32
	beg  int // where its first byte is in the stream, and the clock then
}

type peer struct {
	w      *world
	n      int
	conn   *vrt.Conn
	born   int // clock when it was made
	lost   int // clock when its peer went away, 0 if it did not
	rest   []byte
	begun  int // clock when the first byte of the unfinished frame or message arrived
	open   bool
	re     ref.Reassembler
	events []event
}

// end lets the peer close the connection, or the network break it.
func (p *peer) end(reset bool) {
	if p.lost == 0 {
		p.lost = p.w.tick()
	}
	if reset {
		p.conn.Reset()
	} else {
		p.conn.End()
	}
}

// wrote parses what the client sends; anything but well-formed frames and
// messages is a violation.
func (p *peer) wrote(b []byte) {
	w := p.w
	now := w.tick()
	if len(p.rest) == 0 && !p.open {
		p.begun = now
	}
	p.rest = append(p.rest, b...)
	frames, rest, err := ref.SplitFrames(p.rest)
	w.c.Assert(err == nil, "the client sent bytes that are no frames: %v (% x)", err, clip(p.rest))
	p.rest = append([]byte(nil), rest...)
	for _, raw := range frames {
		f, err := ref.ParseFrame(raw)
		w.c.Assert(err == nil, "the client sent a bad frame: %v (% x)", err, clip(raw))
		if w.onFrame != nil {
			w.onFrame(p, f)
		}
		switch f.Cmd {
		case 1:
			p.add("ka-request", nil, now)
		case 2:
			p.add("ka-response", nil, now)
		default:
			msg, deliver, refused := p.re.Feed(f.Flags, f.Payload)
			w.c.Assert(!refused, "the client sent a continuation frame (flags %#x) of no message", f.Flags)
			p.open = !deliver
			if deliver {
				p.message(msg)
			}
			p.begun = now
		}
	}
}

func (p *peer) add(kind string, path []int32, beg int) {
	w := p.w
	p.events = append(p.events, event{seq: w.tick(), at: w.s.Now(), kind: kind, path: path, beg: beg})
	if w.s.C.Tracing() {
		w.s.Logf("peer %d got %s %s", p.n, kind, ref.OIDString(path))
	}
}

func (p *peer) message(b []byte) {
	w := p.w
	elems, err := ref.ParseRoot(b)
	w.c.Assert(err == nil, "the client sent a bad message: %v (% x)", err, clip(b))
	path, ok := request(elems)
	if !ok {
		w.c.Assert(w.others != nil && w.others(p, elems), "the client sent a message that is no directory request (% x)", clip(b))
		p.add("other", nil, p.begun)
		return
	}
	p.add("request", path, p.begun)
	if w.onRequest != nil {
		w.onRequest(p, path)
	}
}

// request reads a directory request: the path asked for.
func request(elems []*ref.Elem) ([]int32, bool) {
	path := []int32{}
	for {
		if len(elems) != 1 {
			return nil, false
		}
		e := elems[0]
		if e.Kind == ref.Cmd {
			return path, e.Num() == 32
		}
		if e.Path != nil {
			path = append([]int32{}, e.Path...)
		} else {
			path = append(path, e.Number)
		}
		elems = e.Children
	}
}

// requests lists the requests of a peer as text.
func (p *peer) requests() []string {
	var l []string
	for _, e := range p.events {
		if e.kind == "request" {
			l = append(l, ref.OIDString(e.path))
		}
	}
	return l
}

func (p *peer) count(kind string) int {
	n := 0
	for _, e := range p.events {
		if e.kind == kind {
			n++
		}
	}
	return n
}

func clip(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

// reply delivers a message for a request: at once, later or, if it may be
// lost, never.
func (p *peer) reply(elems []*ref.Elem, size int, lossy bool) (lost bool) {
	w := p.w
	b := ref.Message(ref.RootTLV(elems).Bytes(), size)
	n := 1
	if w.s.DevFrom {
		n = 2
		if lossy {
			n = 3
		}
	}
	switch w.c.Deviate(n) {
	case 0:
		p.conn.Deliver(b)
	case 1:
		w.s.Logf("** the reply takes 13 ms")
		w.late++
		w.s.After(13*ms, func() { p.conn.Deliver(b) })
	case 2:
		w.s.Logf("** the reply is lost")
		return true
	}
	return false
}

// ---- listeners ----

type call struct {
	seq   int
	at    time.Duration
	rests int
	err   string // "" without
	node  interface{}
	tree  string
}

// ear is a listener that remembers.
type ear struct {
	w     *world
	name  string
	calls []call
	look  bool // describe the tree at each call
	on    func(x call)
	root  *embertree.RootElement
}

func (w *world) ear(name string) *ear {
	e := &ear{w: w, name: name}
	w.ears = append(w.ears, e)
	return e
}

func (e *ear) Receive(node interface{}, err errors.Error) {
	w := e.w
	x := call{seq: w.tick(), at: w.s.Now(), rests: w.s.Rests, node: node}
	if err != nil {
		x.err = errText(err)
	}
	if r, ok := node.(*embertree.RootElement); ok {
		e.root = r
		if e.look && !w.blind {
			vrt.Do("look at the tree", func() { x.tree = checks.Got(w.c, r) })
		}
	}
	w.s.Logf("%s hears: error %q", e.name, x.err)
	e.calls = append(e.calls, x)
	if e.on != nil {
		e.on(x)
	}
}

func errText(err errors.Error) string {
	if err.Message == nil || err.Message.Error() == "" {
		return "error"
	}
	return strings.SplitN(err.Message.Error(), "\n", 2)[0]
}

func (e *ear) errs() int {
	n := 0
	for _, x := range e.calls {
		if x.err != "" {
			n++
		}
	}
	return n
}

// ---- calls of the client ----

type op struct {
	what       string
	thread     string
	start, end int
	at         time.Duration
	err        string
	val        bool
	done       bool
}

func (o *op) String() string {
	r := "running"
	if o.done {
		r = "ok"
		if o.err != "" {
			r = "error (" + o.err + ")"
		}
		if strings.HasPrefix(o.what, "is connected") {
			r = fmt.Sprint(o.val)
		}
	}
	return fmt.Sprintf("%s: %s -> %s [%d,%d]", o.thread, o.what, r, o.start, o.end)
}

func (w *world) begin(thread, what string) *op {
	o := &op{what: what, thread: thread, start: w.tick(), at: w.s.Now()}
	w.ops = append(w.ops, o)
	w.s.Logf("%s: %s", thread, what)
	return o
}

func (w *world) finish(o *op, err errors.Error) bool {
	o.end, o.done = w.tick(), true
	if err != nil {
		o.err = errText(err)
	}
	w.s.Logf("%s", o)
	return err == nil
}

func (w *world) connect(thread string) bool {
	return w.connectTo(thread, "device", 9000)
}

func (w *world) connectTo(thread, host string, port uint16) bool {
	o := w.begin(thread, "connect")
	return w.finish(o, w.client.Connect(host, port))
}

func (w *world) disconnect(thread string) bool {
	o := w.begin(thread, "disconnect")
	return w.finish(o, w.client.Disconnect())
}

func (w *world) isConnected(thread string) bool {
	o := w.begin(thread, "is connected")
	o.val = w.client.IsConnected()
	w.finish(o, nil)
	return o.val
}

// ask requests the directory of an element (nil: the root).
func (w *world) ask(thread, name string, el *embertree.Element, l embertree.Listener) *op {
	o := w.begin(thread, "get "+name)
	var err errors.Error
	if l == nil {
		err = w.client.GetDirectory(el, nil)
	} else {
		err = w.client.GetDirectory(el, l)
	}
	w.finish(o, err)
	return o
}

func (w *world) getTree(thread string, l embertree.Listener) *op {
	o := w.begin(thread, "get the tree")
	w.finish(o, w.client.GetTree(l))
	return o
}

// user starts a thread of the scenario.
func (w *world) user(name string, f func(name string)) {
	w.s.User(name, func() { f(name) })
}

// run runs until nothing is left to do before the horizon.
func (w *world) run(horizon time.Duration) {
	if !w.s.Run(horizon, nil) {
		w.c.Failf("still blocked after %v: %s\n%s", horizon, w.s.Describe(), w.history())
	}
}

func (w *world) history() string {
	var l []string
	for _, o := range w.ops {
		l = append(l, o.String())
	}
	return strings.Join(l, "\n")
}

// quiet checks that no timers are left.
func (w *world) quiet() {
	w.c.Assert(w.s.Timers() == 0, "%d timers are still running", w.s.Timers())
	w.c.Assert(len(w.s.Alive(vrt.Timed)) == 0, "threads of timers are left: %s", w.s.Describe())
}

// strangers counts the listeners registered with a node of the library that
// are not the scenario's, -1 if that cannot be told.
func (w *world) strangers(node interface{}) int {
	if w.blind {
		return -1
	}
	v := reflect.ValueOf(node)
	if v.Kind() != reflect.Pointer || v.IsNil() {
		return -1
	}
	v = v.Elem()
	iface := reflect.TypeOf((*embertree.Listener)(nil)).Elem()
	found := -1
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Map || f.Type().Key() != iface {
			continue
		}
		if found < 0 {
			found = 0
		}
		for _, k := range f.MapKeys() {
			mine := false
			for _, e := range w.ears {
				if k.Elem().Kind() == reflect.Pointer && k.Elem().Pointer() == reflect.ValueOf(e).Pointer() {
					mine = true
				}
			}
			if !mine {
				found++
			}
		}
	}
	return found
}
