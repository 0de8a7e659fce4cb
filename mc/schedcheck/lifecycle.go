package schedcheck

import (
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/dufourgilles/emberlib/embertree"

	"verifmc/engine"
	"verifmc/ref"
	"verifmc/vrt"
)

// ---- C25: connecting and disconnecting ----

// explain tells if the results of the calls follow from some order of them,
// each taking effect at one moment between its start and its end, and of the
// losses of connections being noticed at some moment after they happened.
func (w *world) explain() bool {
	var ops []*op
	for _, o := range w.ops {
		if o.what == "connect" || o.what == "disconnect" || o.what == "is connected" {
			ops = append(ops, o)
		}
	}
	mayFail := func(o *op) bool {
		for _, f := range w.failed {
			if o.start < f && f < o.end {
				return true
			}
		}
		for _, x := range ops {
			if x == o || x.what != "connect" || x.end < o.start || o.end < x.start {
				continue
			}
			// another attempt was under way
			for _, p := range w.peers {
				if x.start < p.born && p.born < x.end {
					return true
				}
			}
			for _, f := range w.failed {
				if x.start < f && f < x.end {
					return true
				}
			}
		}
		return false
	}
	used := make([]bool, len(ops))
	taken := make([]bool, len(w.peers))
	var search func(left, cur int) bool
	search = func(left, cur int) bool {
		if left == 0 {
			return true
		}
		earliest := int(^uint(0) >> 1)
		for i, o := range ops {
			if !used[i] && o.end < earliest {
				earliest = o.end
			}
		}
		for i, o := range ops {
			if used[i] || o.start > earliest {
				continue
			}
			next := cur
			switch o.what {
			case "connect":
				if o.err == "" {
					if cur >= 0 {
						continue
					}
					used[i] = true
					for k, p := range w.peers {
						if !taken[k] && o.start < p.born && p.born < o.end {
							taken[k] = true
							if search(left-1, k) {
								return true
							}
							taken[k] = false
						}
					}
					used[i] = false
					continue
				} else if cur < 0 && !mayFail(o) {
					continue
				}
			case "disconnect":
				if (o.err == "") != (cur >= 0) {
					continue
				}
				next = -1
			default:
				if o.val != (cur >= 0) {
					continue
				}
			}
			used[i] = true
			if search(left-1, next) {
				return true
			}
			used[i] = false
		}
		// the loss is noticed
		if cur >= 0 && w.peers[cur].lost > 0 && w.peers[cur].lost < earliest {
			return search(left, -1)
		}
		return false
	}
	return search(len(ops), -1)
}

// ioThreads is how many threads a fresh client has for one connection.
func ioThreads(c *engine.C) int {
	if n, ok := c.Data["io threads"]; ok {
		return n.(int)
	}
	w := newWorld(c)
	w.s.DevFrom = false
	w.user("user", func(me string) { w.connect(me) })
	w.s.Run(30*ms, nil)
	n := len(w.s.Alive(vrt.Spawned))
	w.s.Kill()
	c.Data["io threads"] = n
	return n
}

type step int

const (
	stConnect step = iota
	stDisconnect
	stCheck
	stAsk
	stClose // the peer closes
	stReset
	stPause
	nSteps
)

func (w *world) do(me string, s step, n int) {
	switch s {
	case stConnect:
		w.connect(me)
	case stDisconnect:
		w.disconnect(me)
	case stCheck:
		w.isConnected(me)
	case stAsk:
		w.ask(me, fmt.Sprint(n), embertree.NewNode(n), nil)
	case stClose, stReset:
		vrt.Do("peer", func() {
			if k := len(w.peers); k > 0 && !w.peers[k-1].conn.Closed() && w.peers[k-1].lost == 0 {
				w.peers[k-1].end(s == stReset)
			}
		})
	case stPause:
		vrt.Sleep(15 * ms)
	}
}

// settle checks what must hold once everything has come to rest, and that the
// client still works.
func (w *world) settle(from time.Duration, io int) {
	c := w.c
	w.s.DevUntil = from
	ear := w.ear("listener")
	heard := 0
	ear.on = func(call) { heard++ }
	w.onRequest = func(p *peer, path []int32) {
		if fmt.Sprint(path) == "[7777]" {
			p.conn.Deliver(ref.Message(ref.RootTLV([]*ref.Elem{{Kind: ref.Node, Number: 4242, Props: map[int]ref.Val{}}}).Bytes(), 1000))
		}
	}
	stage := 0
	calm := func(what string) {
		vrt.Do("look", func() {
			alive := len(w.s.Alive(vrt.Spawned))
			want := 0
			for _, p := range w.peers {
				if !p.conn.Closed() {
					want++
				}
			}
			c.Assert(want <= 1, "%s: %d connections are open\n%s", what, want, w.history())
			c.Assert(alive == want*io, "%s: %d I/O threads for %d open connections (%s)\n%s", what, alive, want, w.s.Describe(), w.history())
		})
	}
	w.user("after", func(me string) {
		vrt.Sleep(from + 30*ms)
		vrt.Do("look", func() {
			for _, x := range w.s.Alive(vrt.User) {
				if x.Name != me {
					c.Failf("still blocked: %s\n%s", w.s.Describe(), w.history())
				}
			}
		})
		for _, p := range w.peers {
			vrt.Do("unstall", func() { p.conn.Stall(false) })
		}
		vrt.Sleep(20 * ms)
		w.refuse, w.s.Env, w.settling = nil, nil, true
		up := w.isConnected(me)
		c.Assert(w.explain(), "the results of the calls do not follow from any order of them\n%s%s", w.history(), w.losses())
		open := 0
		for _, p := range w.peers {
			if !p.conn.Closed() {
				open++
				c.Assert(p.lost == 0, "the loss of connection %d was not noticed\n%s", p.n, w.history())
			}
		}
		c.Assert(up == (open == 1), "the client says connected=%v with %d open connections\n%s", up, open, w.history())
		calm("at rest")
		if !up {
			c.Assert(w.connect(me), "connecting failed\n%s", w.history())
		}
		c.Assert(!w.connect(me), "a second connect succeeded\n%s", w.history())
		c.Assert(w.isConnected(me), "not connected after connecting\n%s", w.history())
		o := w.ask(me, "root", nil, ear)
		c.Assert(o.err == "", "request refused: %s", o.err)
		o = w.ask(me, "7777", embertree.NewNode(7777), nil)
		c.Assert(o.err == "", "request refused: %s", o.err)
		vrt.Sleep(60 * ms)
		p := w.peers[len(w.peers)-1]
		n := 0
		for _, r := range p.requests() {
			if r == "7777" {
				n++
			}
		}
		c.Assert(n == 1, "the request on the last connection was sent %d times\n%s", n, w.history())
		c.Assert(heard == 1, "the answer was delivered %d times\n%s", heard, w.history())
		calm("in use")
		c.Assert(w.disconnect(me), "disconnecting failed\n%s", w.history())
		c.Assert(!w.disconnect(me), "a second disconnect succeeded\n%s", w.history())
		c.Assert(!w.isConnected(me), "still connected after disconnecting\n%s", w.history())
		vrt.Sleep(30 * ms)
		calm("disconnected")
		stage++
	})
	w.run(from + 250*ms)
	c.Assert(stage == 1, "harness: the last stage was not reached")
	w.quiet()
	c.StateString(w.history())
}

func (w *world) losses() string {
	var l []string
	for _, p := range w.peers {
		l = append(l, fmt.Sprintf("\nconnection %d made at %d, lost at %d", p.n, p.born, p.lost))
	}
	return strings.Join(l, "")
}

func init() {
	engine.Register("C25", []string{"A peer that stops taking data without closing is not a loss; the network reports losses to reads and writes as TCP does."}, lifecycleScenarios)
}

func lifecycleScenarios(t engine.Tier) []*engine.Scenario {
	var l []*engine.Scenario
	// faults may happen at any moment
	faults := func(w *world) {
		stalled := false
		w.s.Env = func() []vrt.Action {
			k := len(w.peers)
			if k == 0 {
				return nil
			}
			p := w.peers[k-1]
			if p.conn.Closed() || p.lost > 0 {
				return nil
			}
			a := []vrt.Action{{Name: "connection reset", Do: func() { p.end(true) }}}
			if !stalled {
				a = append(a, vrt.Action{Name: "peer closes", Do: func() { p.end(false) }},
					vrt.Action{Name: "peer stalls", Do: func() { stalled = true; p.conn.Stall(true) }})
			}
			return a
		}
	}
	two := func(fine bool, la, lb int) func(c *engine.C) {
		return func(c *engine.C) {
			io := ioThreads(c)
			w := newWorld(c)
			w.s.Fine = fine
			var a, b []step
			pick := func(n int) []step {
				var l []step
				for i := 0; i < n; i++ {
					l = append(l, []step{stConnect, stDisconnect, stCheck, stAsk}[c.Choose(4)])
				}
				return l
			}
			a = append([]step{stConnect}, pick(la)...)
			b = pick(lb)
			mask := c.Choose(3)
			w.refuse = func(n int) bool { return n < 2 && mask == n+1 }
			faults(w)
			for i, seq := range [][]step{a, b} {
				i, seq := i, seq
				w.user(fmt.Sprintf("user%d", i), func(me string) {
					for j, s := range seq {
						w.do(me, s, 100*(i+1)+j)
					}
				})
			}
			w.settle(25*ms, io)
		}
	}
	l = append(l, &engine.Scenario{Name: "two threads", Bound: t.Pick(2, 3),
		What: "connect + 1 call next to 2 calls of another thread, each of {connect, disconnect, is connected, request}; first, second or no dial refused; the peer closes, resets or stalls at any moment; all schedules within the bound; results explained by a sequential order, then the client is used again",
		Run:  two(false, 1, 2)})
	l = append(l, &engine.Scenario{Name: "two threads, every statement", Bound: 1,
		What: "the same with a deviation at any statement", Run: two(true, 1, 2)})
	l = append(l, &engine.Scenario{Name: "sequences", Bound: t.Pick(1, 2),
		What: fmt.Sprintf("all sequences of %d steps of {connect, failing connect, disconnect, is connected, request, peer closes, reset, pause}", t.Pick(4, 5)),
		Run: func(c *engine.C) {
			io := ioThreads(c)
			w := newWorld(c)
			var seq []step
			bad := map[int]bool{}
			dials := -1
			w.refuse = func(int) bool { return dials >= 0 && bad[dials] }
			for i := 0; i < t.Pick(4, 5); i++ {
				k := c.Choose(int(nSteps) + 1)
				if k == int(nSteps) {
					bad[i] = true
					k = int(stConnect)
				}
				seq = append(seq, step(k))
			}
			w.user("user0", func(me string) {
				for j, s := range seq {
					dials = j
					w.do(me, s, 100+j)
				}
				dials = -1
			})
			w.settle(75*ms, io)
		}})
	l = append(l, &engine.Scenario{Name: "disconnect inside a callback", Bound: t.Pick(2, 3),
		What: "a listener (run by the I/O thread) or a timer's listener disconnects, reconnects or asks again",
		Run: func(c *engine.C) {
			io := ioThreads(c)
			w := newWorld(c)
			timeout := c.Bool()
			first := step(c.Choose(4))
			second := step(c.Choose(4))
			faults(w)
			inner := w.ear("callback")
			once := false
			inner.on = func(call) {
				if once || w.settling {
					return
				}
				once = true
				w.do("callback", first, 301)
				w.do("callback", second, 302)
			}
			if timeout {
				w.client.SetTimeout(12)
			}
			w.user("user0", func(me string) {
				w.connect(me)
				w.ask(me, "root", nil, inner)
				if !timeout {
					vrt.Do("answer", func() {
						p := w.peers[0]
						p.conn.Deliver(ref.Message(ref.RootTLV([]*ref.Elem{{Kind: ref.Node, Number: 3, Props: map[int]ref.Val{}}}).Bytes(), 1000))
					})
				}
			})
			w.settle(30*ms, io)
		}})
	l = append(l, &engine.Scenario{Name: "addresses", Bound: 0,
		What: "three connects to any of several names, IPv4 and IPv6 addresses and ports, refused or not, ended by either side or still up when the next one is tried: exactly the given place is called, once, and only if there is no connection",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			hosts := []string{"device", "other.example.org", "10.0.0.7", "::1", "fe80::12:1"}
			ports := []uint16{9000, 65535}
			good := true
			w.refuse = func(int) bool { return !good }
			w.user("user", func(me string) {
				var want []string
				up := false
				for i := 0; i < 3; i++ {
					host, port := hosts[c.Choose(len(hosts))], ports[c.Choose(len(ports))]
					good = i == 1 || c.Bool()
					ok := w.connectTo(me, host, port)
					if up {
						c.Assert(!ok, "connected twice")
					} else {
						c.Assert(ok == good, "connect to %s port %d: %v", host, port, ok)
						want = append(want, net.JoinHostPort(host, fmt.Sprint(port)))
						up = ok
					}
					c.Assert(fmt.Sprint(w.dialled) == fmt.Sprint(want), "called %q instead of %q", w.dialled, want)
					if up {
						switch c.Choose(3) {
						case 0:
							c.Assert(w.disconnect(me), "disconnect")
							up = false
						case 1:
							vrt.Do("the peer leaves", func() { w.peers[len(w.peers)-1].end(false) })
							vrt.Sleep(25 * ms)
							up = false
						}
					}
				}
				c.StateString(fmt.Sprint(want))
				if up {
					w.disconnect(me)
				}
			})
			w.run(200 * ms)
			c.Assert(len(w.s.Alive(vrt.User)) == 0, "still blocked: %s", w.s.Describe())
		}})
	l = append(l, &engine.Scenario{Name: "cut messages", Bound: 0,
		What: "a connection that ends after each byte of a message of several frames or of none, by either side; the next one sends the rest of it or nothing, then another message: parts of different connections are never put together, and what comes whole is received",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			text := ""
			for i := 0; i < 40; i++ {
				text += "\u00ff\u07ff name "
			}
			node := func(n int32, s string) []byte {
				return ref.RootTLV([]*ref.Elem{{Kind: ref.Node, Number: n, Contents: true, Props: map[int]ref.Val{0: {K: ref.VString, S: s}}}}).Bytes()
			}
			wire := ref.Message(node(1, text), 100)
			cut := c.Choose(len(wire))
			how := c.Choose(3)
			rest := c.Bool()
			l := w.ear("tree")
			w.user("user", func(me string) {
				c.Assert(w.connect(me), "connect")
				o := w.ask(me, "root", nil, l)
				c.Assert(o.err == "", "request refused: %s", o.err)
				vrt.Do("a part of a message", func() { w.peers[0].conn.Deliver(wire[:cut]) })
				vrt.Sleep(15 * ms)
				if how == 0 {
					c.Assert(w.disconnect(me), "disconnect")
				} else {
					vrt.Do("the peer leaves", func() { w.peers[0].end(how == 2) })
					vrt.Sleep(25 * ms)
				}
				c.Assert(w.connect(me), "connect once more")
				vrt.Do("the rest and another message", func() {
					if rest {
						w.peers[1].conn.Deliver(wire[cut:])
					}
					w.peers[1].conn.Deliver(ref.Message(node(2, "whole"), 1000))
				})
				vrt.Sleep(25 * ms)
			})
			w.run(120 * ms)
			want := 1
			if rest && cut <= 1 { // the start byte is not needed
				want = 2
			}
			c.Assert(len(l.calls) == want, "%d messages were received, not %d: cut at %d of %d", len(l.calls), want, cut, len(wire))
			c.StateString(fmt.Sprint(cut, how, rest))
		}})
	l = append(l, &engine.Scenario{Name: "failing close", Bound: t.Pick(1, 2),
		What: "closing a connection reports an error, as it does after some network faults: the client is disconnected all the same, ends its I/O thread and connects anew",
		Run: func(c *engine.C) {
			io := ioThreads(c)
			w := newWorld(c)
			fails := c.Choose(3)
			w.setup = func(p *peer) { p.conn.CloseFails = len(w.peers) <= 2 && (len(w.peers)-1 == fails || fails == 2) }
			w.user("user", func(me string) {
				for i := 0; i < 2; i++ {
					c.Assert(w.connect(me), "connect number %d", i)
					w.ask(me, fmt.Sprint(i), embertree.NewNode(i), nil)
					vrt.Sleep(time.Duration(c.Choose(3)) * 6 * ms)
					w.client.Disconnect()
					c.Assert(!w.isConnected(me), "still connected after a disconnect")
					c.Assert(!w.disconnect(me), "disconnected twice")
				}
				w.ops = nil
			})
			w.settle(60*ms, io)
		}})
	l = append(l, &engine.Scenario{Name: "long run", Bound: 0,
		What: "up to 300 connections one after the other, each ended by the client, the peer or a reset, or refused, with pauses of 0 to 25 ms and traffic in between",
		Run: func(c *engine.C) {
			io := ioThreads(c)
			w := newWorld(c)
			w.s.DevFrom = false
			w.s.MaxSteps = 100000000
			n := []int{10, 300}[c.Choose(2)]
			kind := c.Choose(4)
			pause := []time.Duration{0, 4 * ms, 25 * ms}[c.Choose(3)]
			busy := pause > 0 && c.Bool()
			failing := false
			w.refuse = func(int) bool { return failing }
			// explain() is for short histories
			base := time.Duration(n) * (2*pause + 30*ms)
			w.user("user", func(me string) {
				for i := 0; i < n; i++ {
					failing = kind == 3 && i%2 == 0
					ok := w.connect(me)
					c.Assert(ok == !failing, "connect number %d", i)
					if busy {
						w.ask(me, fmt.Sprint(i), embertree.NewNode(i), nil)
					}
					vrt.Sleep(pause)
					c.Assert(w.isConnected(me) == ok, "connected: %v", !ok)
					c.Assert(!ok || !w.connect(me), "a second connect succeeded")
					switch {
					case !ok:
						c.Assert(!w.disconnect(me), "disconnect without connection")
					case kind == 0 || kind == 3 || kind == 2 && i%3 == 0:
						c.Assert(w.disconnect(me), "disconnect number %d", i)
					default:
						vrt.Do("the peer leaves", func() { w.peers[len(w.peers)-1].end(kind == 2) })
						vrt.Sleep(30 * ms)
						c.Assert(!w.disconnect(me), "the loss was not noticed")
					}
					c.Assert(!w.isConnected(me), "connected after the end")
					vrt.Sleep(pause)
				}
				w.ops = nil
				failing = false
				w.failed = nil
			})
			w.settle(base, io)
		}})
	return l
}
