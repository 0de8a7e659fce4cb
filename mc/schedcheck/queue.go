package schedcheck

import (
	"fmt"
	"time"

	"github.com/dufourgilles/emberlib/embertree"

	"verifmc/engine"
	"verifmc/ref"
	"verifmc/vrt"
)

// ---- C24: accepted requests ----

// accepted lists the requests accepted, in the order their calls began, and
// checks against it what the peers got: each once; if exact, all of them.
func (w *world) checkSent(exact bool) {
	c := w.c
	asks := map[string]*op{}
	for _, o := range w.ops {
		if len(o.what) > 4 && o.what[:4] == "get " {
			name := o.what[4:]
			if name == "root" {
				name = ""
			}
			c.Assert(asks[name] == nil, "harness: %s asked twice", name)
			asks[name] = o
		}
	}
	got := map[string]int{}
	var order []*op
	for _, p := range w.peers {
		for _, e := range p.events {
			if e.kind != "request" {
				continue
			}
			name := ref.OIDString(e.path)
			o := asks[name]
			c.Assert(o != nil, "a request for %q was sent that nobody made", name)
			c.Assert(!o.done || o.err == "", "request %q was refused (%s) and sent all the same", name, o.err)
			got[name]++
			c.Assert(got[name] == 1, "request %q was sent %d times", name, got[name])
			c.Assert(e.beg >= o.start, "request %q was sent before it was made", name)
			// calls one after the other must be sent in that order
			for _, later := range order {
				c.Assert(!(o.end < later.start), "request %q was sent after %q, which was made later\n%s", name, later.what, w.history())
			}
			order = append(order, o)
		}
	}
	for name, o := range asks {
		if exact && o.err == "" {
			c.Assert(got[name] == 1, "request %q was accepted but never sent\n%s", name, w.history())
		}
	}
	for _, p := range w.peers {
		if exact {
			c.Assert(len(p.rest) == 0 && !p.open, "an unfinished message was sent (% x)", clip(p.rest))
		}
	}
}

// wide is an element whose request needs several frames.
func wide(n int) *embertree.Element {
	path := []int32{int32(n)}
	for i := 0; i < 700; i++ {
		path = append(path, int32(100000+i))
	}
	return embertree.NewQualifiedNode(path)
}

func wideName(n int) string {
	path := []int32{int32(n)}
	for i := 0; i < 700; i++ {
		path = append(path, int32(100000+i))
	}
	return ref.OIDString(path)
}

func init() {
	engine.Register("C24", []string{"Requests taken from the queue at the moment the connection is lost are not claimed to arrive; the order of requests whose calls overlap is free."}, queueScenarios)
}

func queueScenarios(t engine.Tier) []*engine.Scenario {
	var l []*engine.Scenario
	submit := func(fine bool, threads, each []int, early []int) func(c *engine.C) {
		return func(c *engine.C) {
			w := newWorld(c)
			w.s.Fine = fine
			n := threads[c.Choose(len(threads))]
			k := each[c.Choose(len(each))]
			before := early[c.Choose(len(early))]
			answers := c.Bool()
			if answers {
				w.onRequest = func(p *peer, path []int32) {
					if len(path) == 1 {
						p.reply([]*ref.Elem{{Kind: ref.Node, Number: path[0], Contents: true, Props: map[int]ref.Val{0: {K: ref.VString, S: "x"}}}}, 1000, false)
					}
				}
			}
			ask := func(me string, i int) {
				o := w.ask(me, fmt.Sprint(i), embertree.NewNode(i), nil)
				c.Assert(o.err == "", "request refused: %s", o.err)
			}
			for x := 0; x < n; x++ {
				x := x
				w.user(fmt.Sprintf("user%d", x), func(me string) {
					if x == 0 {
						for i := 0; i < before; i++ {
							ask(me, 100+i)
						}
						if !w.connect(me) {
							c.Failf("connecting failed")
						}
					}
					for i := 0; i < k; i++ {
						ask(me, 10*(x+1)+i)
					}
				})
			}
			w.s.DevUntil = 35 * ms
			w.run(80 * ms)
			w.checkSent(true)
			c.StateString(fmt.Sprint(w.peers[0].requests()))
			w.quiet()
		}
	}
	l = append(l, &engine.Scenario{Name: "threads", Bound: t.Pick(2, 3),
		What: "1 to 3 threads submit 1 to 3 requests each next to connecting, with and without answers; 0 or 2 requests queued before; all schedules within the bound",
		Run:  submit(false, []int{1, 2, 3}, []int{1, 2, 3}, []int{0, 2})})
	l = append(l, &engine.Scenario{Name: "threads, every statement", Bound: t.Pick(1, 2),
		What: "2 or 3 threads submit 1 or 2 requests each, switches possible at every statement",
		Run:  submit(true, []int{2, 3}, []int{1, 2}, []int{0, 2})})
	l = append(l, &engine.Scenario{Name: "big requests", Bound: t.Pick(2, 3),
		What: "requests in several frames from two threads with a keep-alive request in between",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.setup = func(p *peer) {
				w.s.After(time.Duration(c.Choose(3))*5*ms, func() { p.conn.Deliver(ref.KeepAliveReq()) })
			}
			for x := 0; x < 2; x++ {
				x := x
				w.user(fmt.Sprintf("user%d", x), func(me string) {
					if x == 0 {
						w.connect(me)
					}
					for i := 0; i < 2; i++ {
						w.ask(me, wideName(10*(x+1)+i), wide(10*(x+1)+i), nil)
					}
				})
			}
			w.s.DevUntil = 25 * ms
			w.run(60 * ms)
			w.checkSent(true)
			c.Assert(w.peers[0].count("ka-response") == 1, "%d keep-alive responses", w.peers[0].count("ka-response"))
		}})
	l = append(l, &engine.Scenario{Name: "huge requests", Bound: 0,
		What: "requests for elements with paths of 10 to 40000 numbers (up to 160 KB, 160 frames), two of any of the sizes with a small one around and between",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			w.s.MaxSteps = 10000000
			sizes := []int{10, 255, 256, 3600, 15000, 16400, 40000}
			name := func(path []int32) string { return ref.OIDString(path) }
			w.user("user", func(me string) {
				w.connect(me)
				for i := 0; i < 2; i++ {
					w.ask(me, fmt.Sprint(i+1), embertree.NewNode(i+1), nil)
					path := []int32{int32(i)}
					for k := sizes[c.Choose(len(sizes))]; len(path) < k; {
						path = append(path, int32(2100000+len(path)))
					}
					w.ask(me, name(path), embertree.NewQualifiedNode(path), nil)
				}
				w.ask(me, "3", embertree.NewNode(3), nil)
			})
			w.run(60 * ms)
			w.checkSent(true)
		}})
	// equal requests
	l = append(l, &engine.Scenario{Name: "repeats", Bound: t.Pick(1, 2),
		What: fmt.Sprintf("every sequence of 1 to %d requests for two elements and the root from one thread, or of 1 to 3 and 1 or 2 from two threads, answered or not, all at once or after a pause, with a reconnection in between or not: what is sent is an interleaving of them, repetitions included", t.Pick(4, 5)),
		Run: func(c *engine.C) {
			w := newWorld(c)
			nodes := []*embertree.Element{nil, embertree.NewNode(1), embertree.NewQualifiedNode([]int32{2, 1})}
			names := []string{"", "1", "2.1"}
			threads := 1 + c.Choose(2)
			var seq [2][]int
			for x := 0; x < threads; x++ {
				n := t.Pick(4, 5)
				if threads == 2 {
					n = 3 - x
				}
				n = 1 + c.Choose(n)
				for i := 0; i < n; i++ {
					seq[x] = append(seq[x], c.Choose(3-x))
				}
			}
			pause := time.Duration(c.Choose(2)) * 30 * ms
			again := threads == 1 && c.Bool()
			if c.Bool() {
				w.onRequest = func(p *peer, path []int32) {
					e := &ref.Elem{Kind: ref.Node, Path: path, Props: map[int]ref.Val{}, Contents: true}
					if len(path) == 0 {
						e = &ref.Elem{Kind: ref.Node, Number: 1, Props: map[int]ref.Val{}, Contents: true}
					}
					p.reply([]*ref.Elem{e}, 1000, false)
				}
			}
			for x := 0; x < threads; x++ {
				x := x
				w.user(fmt.Sprintf("user%d", x), func(me string) {
					if x == 0 {
						w.connect(me)
					}
					for i, k := range seq[x] {
						if i > 0 {
							vrt.Sleep(pause)
						}
						if i == len(seq[x])-1 && again {
							// long enough for what is being sent to
							// be sent: nothing is delayed by then
							vrt.Sleep(80 * ms)
							w.disconnect(me)
							w.connect(me)
						}
						o := w.ask(me, name0(names[k]), nodes[k], nil)
						c.Assert(o.err == "", "request refused: %s", o.err)
					}
				})
			}
			w.s.DevUntil = 30 * ms
			w.run(250 * ms)
			var sent, a, b []string
			for _, p := range w.peers {
				sent = append(sent, p.requests()...)
			}
			for _, k := range seq[0] {
				a = append(a, names[k])
			}
			for _, k := range seq[1] {
				b = append(b, names[k])
			}
			c.Assert(shuffle(sent, a, b), "requests made: %q %q, sent: %q\n%s", a, b, sent, w.history())
			c.StateString(fmt.Sprint(sent))
		}})
	// overload
	l = append(l, &engine.Scenario{Name: "overload", Bound: t.Pick(0, 1),
		What: "300 requests at every fill level while not connected, or connected to a peer that takes no data, then draining; refused ones are never sent, accepted ones all are",
		Run: func(c *engine.C) {
			w := newWorld(c)
			stalled := c.Bool()
			threads := 1 + c.Choose(2)
			again := c.Bool()
			w.s.DevFrom = false
			refused, acceptedN := 0, 0
			ask := func(me string, i int) {
				o := w.ask(me, fmt.Sprint(i), embertree.NewNode(i), nil)
				if o.err != "" {
					refused++
				} else {
					acceptedN++
				}
			}
			if stalled {
				w.setup = func(p *peer) {
					if len(w.peers) == 1 {
						p.conn.Stall(true)
					}
				}
			}
			full := false
			for x := 0; x < threads; x++ {
				x := x
				w.user(fmt.Sprintf("user%d", x), func(me string) {
					if x == 0 && stalled {
						w.connect(me)
					}
					for i := 0; i < 300/threads; i++ {
						if i == 300/threads-8 {
							vrt.Do("deviations", func() { w.s.DevFrom = true })
						}
						ask(me, 1000*(x+1)+i)
					}
					vrt.Do("deviations", func() { w.s.DevFrom = false })
					if x == 0 {
						vrt.Wait("full", func() bool { return acceptedN+refused >= 300/threads*threads })
						full = true
						if stalled {
							vrt.Do("unstall", func() { w.peers[0].conn.Stall(false) })
						} else {
							w.connect(me)
						}
						if again {
							vrt.Sleep(100 * ms)
							for i := 0; i < 20; i++ {
								o := w.ask(me, fmt.Sprint(5000+i), embertree.NewNode(5000+i), nil)
								c.Assert(o.err == "", "request refused although the queue has been drained for 100 ms: %s", o.err)
							}
						}
					}
				})
			}
			w.run(1500 * ms)
			c.Assert(full, "not all requests were made")
			w.checkSent(true)
			// some limit there must be; the library's is 256, and a few may be in the hands of the I/O loop
			c.Assert(refused > 0, "300 requests were all accepted although none could be sent")
			c.Assert(acceptedN >= 256, "only %d of 300 requests were accepted", acceptedN)
			c.Assert(acceptedN <= 256+8, "%d of 300 requests were accepted although none could be sent", acceptedN)
		}})
	l = append(l, &engine.Scenario{Name: "fetches when full", Bound: 0,
		What: "tree fetches and requests for the top made with 250 to 262 requests waiting for a connection, with or without timeout: refused exactly if another request would be; a refused one is not sent, the listener of a refused fetch not called, that of an accepted one once, whether the peer answers or not",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			n := 250 + c.Choose(13)
			ms0 := 100 * c.Choose(2)
			w.client.SetTimeout(ms0)
			order := c.Choose(8)
			answered := c.Bool()
			if answered {
				w.onRequest = func(p *peer, path []int32) {
					e := &ref.Elem{Kind: ref.Node, Number: 1, Props: map[int]ref.Val{}, Contents: true}
					if len(path) == 1 && path[0] == 1 {
						e.Path = path
					} else if len(path) > 0 {
						return
					}
					p.conn.Deliver(ref.Message(ref.RootTLV([]*ref.Elem{e}).Bytes(), 1000))
				}
			}
			var ears []*ear
			var ops []*op
			filled := 0
			w.user("user0", func(me string) {
				for i := 0; i < n; i++ {
					if w.client.GetDirectory(embertree.NewNode(1000+i), nil) == nil {
						filled++
					}
				}
				for i := 0; i < 3; i++ {
					e := w.ear(fmt.Sprintf("listener%d", i))
					ears = append(ears, e)
					if order&(1<<uint(i)) != 0 {
						ops = append(ops, w.getTree(me, e))
					} else {
						ops = append(ops, w.ask(me, "root", nil, e))
					}
				}
				probe := w.client.GetDirectory(embertree.NewNode(3000), nil)
				for i, o := range ops {
					if probe == nil {
						c.Assert(o.err == "", "call %d refused (%s) although there was room", i, o.err)
					}
					if i > 0 && ops[i-1].err != "" || filled < n {
						c.Assert(o.err != "", "call %d accepted although the queue was full", i)
					}
				}
				vrt.Sleep(10 * ms)
				w.connect(me)
			})
			w.run(3 * time.Second)
			accepted := 0
			for i, o := range ops {
				if o.err == "" {
					accepted++
				}
				calls := 0
				if answered && order&(1<<uint(i)) == 0 {
					// the listener of a request is one of the tree's from then on
					c.Assert(o.err != "" || len(ears[i].calls) > 0, "call %d was accepted and answered: its listener was not called", i)
					continue
				}
				if o.err == "" && (ms0 > 0 || answered) {
					calls = 1
				}
				c.Assert(len(ears[i].calls) == calls, "call %d (%q): its listener was called %d times", i, o.err, len(ears[i].calls))
			}
			tops := 0
			for _, p := range w.peers {
				for _, r := range p.requests() {
					if r == "" {
						tops++
					}
				}
			}
			c.Assert(tops == accepted, "%d calls accepted, %d requests for the top sent", accepted, tops)
			c.StateString(fmt.Sprint(n, accepted, tops))
		}})
	// while there is no connection
	l = append(l, &engine.Scenario{Name: "without connection", Bound: t.Pick(0, 1),
		What: fmt.Sprintf("every sequence of %d of {a request, three requests, a failing connect, connect, disconnect, is connected, a pause}, then a connect if there is none: all requests are sent, in order", t.Pick(5, 6)),
		Run: func(c *engine.C) {
			w := newWorld(c)
			good := true
			w.refuse = func(int) bool { return !good }
			var seq []int
			for i := 0; i < t.Pick(5, 6); i++ {
				seq = append(seq, c.Choose(7))
			}
			up, loose := false, 0
			w.user("user0", func(me string) {
				n := 100
				ask := func() {
					n++
					o := w.ask(me, fmt.Sprint(n), embertree.NewNode(n), nil)
					c.Assert(o.err == "", "request refused: %s", o.err)
					loose++
				}
				for _, k := range seq {
					switch k {
					case 0:
						ask()
					case 1:
						ask()
						ask()
						ask()
					case 2:
						good = false
						c.Assert(!w.connect(me), "connecting succeeded without a peer or twice")
						good = true
					case 3:
						c.Assert(w.connect(me) == !up, "connect, connected before: %v", up)
						up = true
					case 4:
						if up && loose > 0 {
							vrt.Sleep(40 * ms) // what is being written when the connection is closed may miss
						}
						c.Assert(w.disconnect(me) == up, "disconnect, connected before: %v", up)
						up = false
					case 5:
						c.Assert(w.isConnected(me) == up, "is connected")
					case 6:
						vrt.Sleep(25 * ms)
						if up {
							loose = 0
						}
					}
				}
				if !up {
					c.Assert(w.connect(me), "connect")
				}
			})
			w.s.DevUntil = 120 * ms
			w.run(400 * ms)
			w.checkSent(true)
			c.StateString(fmt.Sprint(seq))
			w.quiet()
		}})
	l = append(l, &engine.Scenario{Name: "long run", Bound: 0,
		What: "up to 3000 requests in batches of 1 to 250 with time to send them in between, on one connection or with a reconnection after every batch, answered or not",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			w.s.MaxSteps = 100000000
			batch := []int{1, 7, 250}[c.Choose(3)]
			batches := []int{150, 60, 12}[c.Choose(3)]
			again := c.Bool()
			if c.Bool() {
				w.onRequest = func(p *peer, path []int32) {
					p.reply([]*ref.Elem{{Kind: ref.Node, Number: 1, Contents: true, Props: map[int]ref.Val{0: {K: ref.VString, S: "x"}}}}, 1000, false)
				}
			}
			var want []string
			pause := time.Duration(batch/3+3) * 10 * ms
			w.user("user", func(me string) {
				w.connect(me)
				for i := 0; i < batches; i++ {
					for k := 0; k < batch; k++ {
						n := i*batch + k
						want = append(want, fmt.Sprint(n))
						o := w.ask(me, fmt.Sprint(n), embertree.NewNode(n), nil)
						c.Assert(o.err == "", "request %d refused: %s", n, o.err)
					}
					vrt.Sleep(pause)
					if again {
						c.Assert(w.disconnect(me), "disconnect")
						c.Assert(w.connect(me), "connect")
					}
				}
			})
			w.run(time.Duration(batches+2) * pause)
			var got []string
			for _, p := range w.peers {
				got = append(got, p.requests()...)
			}
			c.Assert(len(got) == len(want), "%d of %d requests were sent", len(got), len(want))
			for i := range got {
				c.Assert(got[i] == want[i], "request %q was sent in place of %q", got[i], want[i])
			}
			c.StateString(fmt.Sprint(len(got), again))
			w.quiet()
		}})
	// disconnection and loss
	gone := func(fine bool) func(c *engine.C) {
		return func(c *engine.C) {
			w := newWorld(c)
			w.s.Fine = fine
			how := c.Choose(4) // disconnect, disconnect and reconnect, lost and reconnect, reset
			n := 1 + c.Choose(5)
			ask := func(me string, i int) { w.ask(me, fmt.Sprint(i), embertree.NewNode(i), nil) }
			fault, again := false, false
			w.s.Env = func() []vrt.Action {
				if fault || len(w.peers) == 0 || how < 2 {
					return nil
				}
				if how == 2 {
					return []vrt.Action{{Name: "peer closes", Do: func() { fault = true; w.peers[0].end(false) }}}
				}
				return []vrt.Action{{Name: "connection reset", Do: func() { fault = true; w.peers[0].end(true) }}}
			}
			w.user("user0", func(me string) {
				w.connect(me)
				for i := 0; i < n; i++ {
					ask(me, 10+i)
				}
				if how < 2 {
					w.disconnect(me)
				}
				if how >= 1 {
					vrt.Sleep(25 * ms)
					fault = true                                                // too late now
					again = w.connect(me) || how > 1 && !w.peers[0].conn.Lost() // refused if the connection was not lost
					ask(me, 30)
				}
			})
			w.user("user1", func(me string) {
				ask(me, 20)
				ask(me, 21)
			})
			w.s.DevUntil = 30 * ms
			w.run(90 * ms)
			w.checkSent(false)
			if how == 0 {
				return
			}
			// without loss in the middle everything arrives; after a loss
			// what was made on the new connection does
			last := w.peers[len(w.peers)-1]
			seen := map[string]bool{}
			for _, r := range last.requests() {
				seen[r] = true
			}
			for _, o := range w.ops {
				if o.what == "get 30" && o.err == "" && again {
					c.Assert(seen["30"], "a request made after reconnecting was never sent\n%s", w.history())
				}
			}
			if how == 1 {
				// at most the requests being written when the connection was closed may miss
				miss := 0
				all := map[string]bool{}
				for _, p := range w.peers {
					for _, r := range p.requests() {
						all[r] = true
					}
				}
				for _, o := range w.ops {
					if len(o.what) > 4 && o.what[:4] == "get " && o.err == "" && !all[o.what[4:]] {
						miss++
					}
				}
				c.Assert(miss <= 1, "%d accepted requests were lost by a disconnect\n%s", miss, w.history())
			}
			c.StateString(fmt.Sprint(how, last.requests()))
		}
	}
	l = append(l, &engine.Scenario{Name: "disconnects", Bound: t.Pick(2, 3),
		What: "1 to 5 + 2 requests from two threads, then disconnect, disconnect and reconnect, or loss of the peer at any moment and reconnect: nothing is sent twice, out of order or garbled", Run: gone(false)})
	l = append(l, &engine.Scenario{Name: "disconnects, every statement", Bound: 1, What: "the same with a switch at any statement", Run: gone(true)})
	return l
}

// shuffle tells if s is an interleaving of a and b.
func shuffle(s, a, b []string) bool {
	if len(s) != len(a)+len(b) {
		return false
	}
	if len(s) == 0 {
		return true
	}
	return len(a) > 0 && s[0] == a[0] && shuffle(s[1:], a[1:], b) || len(b) > 0 && s[0] == b[0] && shuffle(s[1:], a, b[1:])
}
