package schedcheck

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"github.com/dufourgilles/emberlib/socket"

	"verifmc/checks"
	"verifmc/engine"
	"verifmc/ref"
	"verifmc/vrt"
)

// ---- C31: logging ----

// chatty is a logger that reads everything it is given.
type chatty struct {
	level logger.LogLevel
	flip  bool // changes its level with every call
	n     int
	errs  int
	nils  int
	last  string
}

func (l *chatty) note(s string) {
	l.n++
	l.last = s
	if l.flip {
		l.level = logger.LogLevel(l.n % 4)
	}
}

func (l *chatty) Error(e errors.Error) {
	if e == nil {
		l.nils++
		l.note("nil")
		return
	}
	l.errs++
	l.note(e.Message.Error() + strings.Join(e.Stack, " "))
}
func (l *chatty) Warn(f string, a ...interface{})  { l.note(fmt.Sprintf(f, a...)) }
func (l *chatty) Info(f string, a ...interface{})  { l.note(fmt.Sprintf(f, a...)) }
func (l *chatty) Debug(f string, a ...interface{}) { l.note(fmt.Sprintf(f, a...)) }
func (l *chatty) Debugln(a ...interface{})         { l.note(fmt.Sprintln(a...)) }
func (l *chatty) SetLogLevel(x logger.LogLevel)    { l.level = x }
func (l *chatty) GetLogLevel() logger.LogLevel     { return l.level }

var loggers = []struct {
	name string
	make func() logger.Logger
}{
	{"the null logger", func() logger.Logger { return logger.NewNullLogger() }},
	{"nil", func() logger.Logger { return nil }},
	{"a logger at Debug", func() logger.Logger { return &chatty{level: logger.DebugLevel} }},
	{"a logger at Error", func() logger.Logger { return &chatty{} }},
	{"a logger that changes its level", func() logger.Logger { return &chatty{flip: true} }},
	{"the console at Error", func() logger.Logger { return logger.NewConsoleLogger(logger.ErrorLevel) }},
	{"the console at Warn", func() logger.Logger { return logger.NewConsoleLogger(logger.WarnLevel) }},
	{"the console at Info", func() logger.Logger { return logger.NewConsoleLogger(logger.InfoLevel) }},
	{"the console at Debug", func() logger.Logger { return logger.NewConsoleLogger(logger.DebugLevel) }},
}

// silently runs with the console going nowhere.
func silently(c *engine.C) {
	so, se := os.Stdout, os.Stderr
	null, _ := c.Data["null"].(*os.File)
	if null == nil {
		var err error
		if null, err = os.OpenFile(os.DevNull, os.O_RDWR, 0); err != nil {
			panic(err)
		}
		c.Data["null"] = null
	}
	os.Stdout, os.Stderr = null, null
	c.Defer(func() { os.Stdout, os.Stderr = so, se })
}

// setEvery sets the logger of a tree and all its elements.
func setEvery(root *embertree.RootElement, l logger.Logger) {
	root.SetLogger(l)
	var set func(m map[int]*embertree.Element)
	set = func(m map[int]*embertree.Element) {
		for _, e := range m {
			e.SetLogger(l)
			set(e.Children)
		}
	}
	set(root.RootElementCollection)
}

// part of a session: what happens, and how many things go wrong.
type move struct {
	name string
	do   func(w *world, me string, ears func() *ear)
	bad  int // errors the logger must hear of; -1: any number
}

func current(w *world) *peer { return w.peers[len(w.peers)-1] }

func sends(b []byte) func(w *world, me string, ears func() *ear) {
	return func(w *world, me string, ears func() *ear) {
		vrt.Do("the peer sends", func() { current(w).conn.Deliver(b) })
	}
}

// bigMessage is a message of many frames.
func bigMessage() []byte {
	top := checks.Small(ref.Node, 6, 2)
	for i := int32(0); i < 300; i++ {
		top.Children = append(top.Children, checks.Small(ref.Param, i, 2))
	}
	return ref.Message(ref.RootTLV([]*ref.Elem{top}).Bytes(), 1024)
}

func moves() []move {
	bad := single(3).bytes // whole frames, no message
	m := ref.RootTLV([]*ref.Elem{checks.Small(ref.Node, 3, 2)}).Bytes()
	bad = ref.Message(m[:len(m)-3], 1024)
	return []move{
		{"message", sends(single(1).bytes), 0},
		{"message in frames, keep-alive inside", sends(multi(2, 0).bytes), 0},
		{"keep-alive request and response", sends(append(kaReq().bytes, ref.KeepAliveResp()...)), 0},
		{"damaged frame", sends(broken().bytes), 1},
		{"cut message", sends(bad), 1},
		{"request answered", func(w *world, me string, ears func() *ear) { w.ask(me, "root", nil, ears()) }, 0},
		{"request unanswered", func(w *world, me string, ears func() *ear) { w.ask(me, "9", embertree.NewNode(9), ears()) }, 0},
		{"many requests", func(w *world, me string, ears func() *ear) {
			for i := 0; i < 5; i++ {
				w.ask(me, "1", embertree.NewNode(1), ears())
			}
		}, 0},
		{"fetch", func(w *world, me string, ears func() *ear) { w.getTree(me, ears()) }, 0},
		{"lost and connected again", func(w *world, me string, ears func() *ear) {
			vrt.Do("the peer leaves", func() { current(w).end(false) })
			vrt.Sleep(25 * ms)
			w.connect(me)
		}, 1},
		{"disconnected and connected again", func(w *world, me string, ears func() *ear) {
			w.disconnect(me)
			w.ask(me, "2", embertree.NewNode(2), ears())
			w.connect(me)
		}, -1},
		{"connected twice", func(w *world, me string, ears func() *ear) { w.connect(me) }, 0},
		{"request that cannot be encoded", func(w *world, me string, ears func() *ear) {
			w.ask(me, "1.-2", embertree.NewQualifiedNode([]int32{1, -2}), ears())
		}, 1},
		{"big message", sends(bigMessage()), 0},
	}
}

// session plays a session of moves and returns all that could be observed.
func session(c *engine.C, l logger.Logger, play []move) string {
	w := newWorld(c)
	w.s.DevFrom = false
	var tree []*ref.Elem
	for _, n := range []int32{1, 2} {
		tree = append(tree, checks.Small(ref.Node, n, 2))
	}
	tree[0].Children = []*ref.Elem{checks.Small(ref.Param, 4, 2)}
	w.onRequest = func(p *peer, path []int32) {
		if a := answer(tree, path, byNumber, true); a != nil {
			p.reply(a, 120, false)
		}
	}
	if l != nil {
		w.client.SetLogger(l)
	}
	told, _ := l.(*chatty)
	w.client.SetTimeout(100)
	set := false
	ears := func() *ear {
		e := w.ear(fmt.Sprintf("listener%d", len(w.ears)))
		e.look = true
		e.on = func(x call) {
			if e.root != nil && !set && l != nil {
				set = true
				vrt.Do("set the loggers of the tree", func() { setEvery(e.root, l) })
			}
		}
		return e
	}
	var log []string
	w.user("user", func(me string) {
		w.ask(me, "root", nil, ears())
		c.Assert(w.connect(me), "connect")
		vrt.Sleep(50 * ms)
		if told != nil {
			c.Assert(told.errs == 0, "the logger was told of %d errors (%s) after connecting", told.errs, told.last)
		}
		for _, m := range play {
			before := 0
			if told != nil {
				before = told.errs
			}
			m.do(w, me, ears)
			vrt.Sleep(200 * ms)
			if told == nil {
				continue
			}
			n := told.errs - before
			c.Assert(told.nils == 0, "%s: the logger was told of an error that is none", m.name)
			switch m.bad {
			case -1:
			case 0:
				c.Assert(n == 0, "%s: the logger was told of %d errors although nothing went wrong", m.name, n)
			default:
				c.Assert(n > 0, "%s: the logger was told of no error", m.name)
			}
		}
		if l == nil {
			w.client.SetLogger(nil)
		}
	})
	w.run(5 * time.Second)
	w.quiet()
	for _, o := range w.ops {
		log = append(log, fmt.Sprint(o, o.at))
	}
	for _, p := range w.peers {
		for _, e := range p.events {
			log = append(log, fmt.Sprint("peer", p.n, e.kind, e.path, e.at, e.seq))
		}
	}
	for _, e := range w.ears {
		for _, x := range e.calls {
			log = append(log, fmt.Sprintf("%s %d %v %q %T %s", e.name, x.seq, x.at, x.err, x.node, x.tree))
		}
		if e.root != nil {
			log = append(log, checks.Got(c, e.root), fmt.Sprintf("% x", checks.Encoded(c, e.root)))
		}
	}
	return strings.Join(log, "\n")
}

func init() {
	engine.Register("C31", []string{"A logger does not call back into the client. Ending a connection oneself may or may not be told as an error."}, loggingScenarios)
}

func loggingScenarios(t engine.Tier) []*engine.Scenario {
	var l []*engine.Scenario
	l = append(l, &engine.Scenario{Name: "sessions", Bound: 0,
		What: fmt.Sprintf("every session of %d moves out of %d (messages, keep-alive, damaged frames, cut messages, requests, timeouts, fetches, losses, reconnections) with every logger: sent bytes, answers, timeouts, trees and all times as with none; told exactly of what went wrong", t.Pick(3, 4), len(moves())),
		Run: func(c *engine.C) {
			silently(c)
			lg := loggers[c.Choose(len(loggers))]
			all := moves()
			var play []move
			var names []string
			for i := 0; i < t.Pick(3, 4); i++ {
				if i == 1 {
					all = all[:len(all)-1] // a big message comes first
				}
				m := all[c.Choose(len(all))]
				play = append(play, m)
				names = append(names, m.name)
			}
			want := session(c, logger.NewNullLogger(), play)
			got := session(c, lg.make(), play)
			c.Assert(got == want, "%s, with %s:\n%s\nand without:\n%s", strings.Join(names, "; "), lg.name, got, want)
			c.StateString(strings.Join(names, ";"))
			c.StateString(want)
		}})
	l = append(l, &engine.Scenario{Name: "schedules", Bound: t.Pick(2, 3),
		What: "keep-alive and fetch sessions with a logger at Debug, all schedules within the bound",
		Run: func(c *engine.C) {
			silently(c)
			w := newWorld(c)
			lg := &chatty{level: logger.DebugLevel}
			if c.Choose(2) == 0 {
				w.client.SetLogger(lg)
				scripts := [][]item{{kaReq()}, {kaReq(), multi(1, 1), kaResp(), kaReq()}, {single(1), broken(), single(2)}, {noise(), kaReq()}}
				k := c.Choose(len(scripts))
				keepAlive(w, scripts[k], nil, []int{1, 7}[c.Choose(2)], 5*ms, 0)
				c.Assert(lg.nils == 0, "the logger was told of an error that is none")
				if k == 2 {
					c.Assert(lg.errs > 0, "the logger was not told of the damaged frame")
				}
				if k < 2 {
					c.Assert(lg.errs == 0, "the logger was told of an error (%s)", lg.last)
				}
				return
			}
			w.client.SetLogger(lg)
			shapes := forests(3)
			f := &fetch{tree: provider(shapes[c.Choose(len(shapes))], 0), style: style(c.Choose(int(nStyles))), full: true, size: 120, timeout: []int{0, 1000}[c.Choose(2)], getters: 1, horizon: 3 * time.Second, devs: 200 * ms}
			f.run(w)
			c.Assert(lg.nils == 0 && lg.errs == 0, "the logger was told of an error (%s)", lg.last)
		}})
	msgs := checks.Alphabet()
	l = append(l, &engine.Scenario{Name: "trees", Bound: 0,
		What: fmt.Sprintf("every sequence of two messages out of %d, and everything cut before its end, on a tree of which the root and, after the first message, every element has one of the loggers", len(msgs)),
		Run: func(c *engine.C) {
			silently(c)
			lg := loggers[c.Choose(len(loggers))]
			a, b := msgs[c.Choose(len(msgs))], msgs[c.Choose(len(msgs))]
			cut := len(b.Bytes)
			if k := c.Choose(3); k > 0 {
				cut = cut * k / 3
			}
			var out [2]string
			for i := range out {
				w := newWorld(c)
				w.user("user", func(string) {
					x := lg.make()
					tree := embertree.NewTree()
					e := w.ear("root")
					if i == 1 {
						tree.SetLogger(x)
					}
					tree.AddListener(e)
					ea := tree.Decode(asn1.NewASNReader(a.Bytes))
					if i == 1 {
						setEvery(tree, x)
					}
					var eb errors.Error
					pan := ""
					eb = tree.Decode(asn1.NewASNReader(b.Bytes[:cut]))
					out[i] = fmt.Sprint(ea == nil, eb == nil, pan, len(e.calls), "\n", checks.Got(c, tree), fmt.Sprintf("% x", checks.Encoded(c, tree)))
				})
				w.s.DevFrom = false
				w.run(time.Second)
			}
			c.Assert(out[0] == out[1], "%s then %s, with %s:\n%s\nand without:\n%s", a.Name, b.Name, lg.name, out[1], out[0])
			c.StateString(out[0])
		}})
	l = append(l, &engine.Scenario{Name: "frames", Bound: 0,
		What: "every sequence of three items (messages, keep-alive, noise, damaged and unfinished frames) fed whole or byte by byte to a decoder with one of the loggers",
		Run: func(c *engine.C) {
			silently(c)
			lg := loggers[c.Choose(len(loggers))]
			items := []item{kaReq(), kaResp(), single(1), multi(2), multi(1, 0, 1), noise(), broken(), {name: "half", bytes: single(2).bytes[:9]}, {name: "headless", bytes: ref.Frame(0, []byte{1, 0xfe})}, {name: "escape at the end", bytes: []byte{0xfe, 0, 0x0e, 0xfd, 0xff}}}
			var stream []byte
			names := ""
			for i := 0; i < 3; i++ {
				it := items[c.Choose(len(items))]
				stream = append(stream, it.bytes...)
				names += it.name + " "
			}
			step := []int{len(stream), 1}[c.Choose(2)]
			var out [2]string
			for i := range out {
				var ev []string
				hear := func(what string) func(b []byte) errors.Error {
					return func(b []byte) errors.Error {
						ev = append(ev, fmt.Sprintf("%s % x", what, b))
						return nil
					}
				}
				d := socket.NewS101Decoder(hear("request"), hear("response"), hear("message"), func(e errors.Error) {
					c.Assert(e != nil, "an error that is none")
					ev = append(ev, "error")
				})
				if i == 1 {
					d.SetLogger(lg.make())
				}
				for lo := 0; lo < len(stream); lo += step {
					hi := lo + step
					if hi > len(stream) {
						hi = len(stream)
					}
					d.DecodeBuffer(hi-lo, append([]byte{}, stream[lo:hi]...))
				}
				out[i] = strings.Join(ev, "\n")
			}
			c.Assert(out[0] == out[1], "%s in pieces of %d, with %s:\n%s\nand without:\n%s", names, step, lg.name, out[1], out[0])
			c.StateString(out[0])
		}})
	return l
}
