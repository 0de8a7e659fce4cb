package schedcheck

import (
	"fmt"
	"time"

	"github.com/dufourgilles/emberlib/embertree"

	"verifmc/checks"
	"verifmc/engine"
	"verifmc/ref"
	"verifmc/vrt"
)

// ---- C21: keep-alive ----

// item is one thing the peer sends.
type item struct {
	name  string
	bytes []byte
	ask   []int // ends of the keep-alive requests in bytes
	elems []*ref.Elem
}

func kaReq() item  { b := ref.KeepAliveReq(); return item{"KA?", b, []int{len(b)}, nil} }
func kaResp() item { return item{"KA!", ref.KeepAliveResp(), nil, nil} }

func bigNode(n int32) *ref.Elem {
	e := checks.Small(ref.Node, n, 2)
	e.Props[1] = ref.Val{K: ref.VString, S: fmt.Sprintf("%0300d", n)}
	return e
}

func single(n int32) item {
	e := checks.Small(ref.Node, n, 2)
	b := ref.Message(ref.RootTLV([]*ref.Elem{e}).Bytes(), 1024)
	return item{"msg", b, nil, []*ref.Elem{e}}
}

// multi is a message in several frames, with keep-alive requests after the frames in at.
func multi(n int32, at ...int) item {
	e := bigNode(n)
	frames, _, _ := ref.SplitFrames(ref.Message(ref.RootTLV([]*ref.Elem{e}).Bytes(), 120))
	it := item{name: fmt.Sprintf("msg/%d", len(frames)), elems: []*ref.Elem{e}}
	for i, f := range frames {
		it.bytes = append(it.bytes, f...)
		for _, k := range at {
			if k == i {
				it.name += fmt.Sprintf("+KA?@%d", k)
				it.bytes = append(it.bytes, ref.KeepAliveReq()...)
				it.ask = append(it.ask, len(it.bytes))
			}
		}
	}
	return it
}

func noise() item {
	return item{"noise", []byte{0x12, 0x34, 0x56}, nil, nil}
}

func broken() item {
	b := ref.KeepAliveReq()
	b[len(b)-2] ^= 1
	return item{"bad KA?", b, nil, nil}
}

// headless is a whole frame holding a message that ends too early.
func headless() item {
	m := ref.RootTLV([]*ref.Elem{checks.Small(ref.Node, 3, 2)}).Bytes()
	return item{"cut message", ref.Message(m[:5], 1024), nil, nil}
}

// keepAlive sends items in deliveries cut at the given places and checks what
// the client does about them.
func keepAlive(w *world, items []item, cuts []int, queued int, at time.Duration, gap time.Duration) {
	c := w.c
	var stream []byte
	var ask []int
	var model []*ref.Elem
	for _, it := range items {
		for _, a := range it.ask {
			ask = append(ask, len(stream)+a)
		}
		stream = append(stream, it.bytes...)
		model = checks.Apply(model, it.elems)
	}
	answered := 0 // of the requests read completely
	var due []int // clock when each request was read
	total := 0
	w.setup = func(p *peer) {
		p.conn.OnRead = func(n int) {
			total += n
			for len(due) < len(ask) && ask[len(due)] <= total {
				due = append(due, w.tick())
			}
		}
		lo := 0
		for i, hi := range append(append([]int{}, cuts...), len(stream)) {
			part := stream[lo:hi]
			if len(part) > 0 {
				w.s.After(at+time.Duration(i)*gap, func() { p.conn.Deliver(part) })
			}
			lo = hi
		}
	}
	w.onFrame = func(p *peer, f *ref.ParsedFrame) {
		if f.Cmd == 2 {
			answered++
			c.Assert(answered <= len(due), "%d keep-alive responses for %d keep-alive requests received", answered, len(due))
			// requests that began after the keep-alive request had been read
			late := 0
			for _, e := range p.events {
				if e.kind == "request" && e.beg > due[answered-1] {
					late++
				}
			}
			if p.begun > due[answered-1] && p.open {
				late++
			}
			c.Assert(late <= 1, "keep-alive request %d was answered after %d requests that were queued", answered, late)
		}
	}
	rootEar := w.ear("listener")
	var want []string
	w.user("user", func(me string) {
		want = append(want, "")
		w.ask(me, "root", nil, rootEar)
		if !w.connect(me) {
			w.c.Failf("connecting failed")
		}
		for i := 1; i < queued; i++ {
			o := w.ask(me, fmt.Sprint(i), embertree.NewNode(i), nil)
			w.c.Assert(o.err == "", "request refused: %s", o.err)
			want = append(want, fmt.Sprint(i))
		}
	})
	last := at + time.Duration(len(cuts))*gap
	w.s.DevUntil = last + 25*ms
	w.run(last + 60*ms + time.Duration(queued)*4*ms)
	c.Assert(len(w.peers) == 1, "%d connections", len(w.peers))
	p := w.peers[0]
	c.Assert(len(due) == len(ask), "the client read only %d of %d bytes", total, len(stream))
	c.Assert(len(p.rest) == 0 && !p.open, "the client left a frame or message unfinished (% x)", clip(p.rest))
	c.Assert(p.count("ka-response") == len(ask), "%d keep-alive responses to %d requests", p.count("ka-response"), len(ask))
	c.Assert(p.count("ka-request") == 0, "the client sent keep-alive requests of its own")
	got := p.requests()
	c.Assert(fmt.Sprint(got) == fmt.Sprint(want), "requests sent %v, accepted %v", got, want)
	n := 0
	for _, it := range items {
		if it.elems != nil {
			n++
		}
	}
	c.Assert(len(rootEar.calls) == n, "%d messages delivered of %d sent", len(rootEar.calls), n)
	if n > 0 && !w.blind {
		c.Assert(rootEar.root != nil, "no tree given to the listener")
		got, want := checks.Got(c, rootEar.root), checks.Want(model)
		c.Assert(got == want, "the tree after the messages is\n%s\ninstead of\n%s", got, want)
	}
	c.Assert(!p.conn.Closed(), "the connection was closed")
	c.StateString(fmt.Sprint(len(ask), p.events))
	w.quiet()
}

func init() { engine.Register("C21", nil, keepaliveScenarios) }

func keepaliveScenarios(t engine.Tier) []*engine.Scenario {
	scripts := [][]item{
		{kaReq()},
		{kaReq(), kaReq()},
		{kaResp()},
		{kaResp(), kaReq()},
		{single(1), kaReq(), single(2)},
		{multi(1, 0)},
		{multi(1, 0, 1, 2)},
		{kaReq(), multi(1, 1), kaResp(), kaReq()},
		{single(1), kaResp(), single(1)},
		{noise(), kaReq()},
		{broken(), kaReq(), single(3)},
		{headless(), kaReq(), single(3)},
	}
	queues := []int{1, 2, 7}
	// all cuts of the shorter streams, none or one cut
	var l []*engine.Scenario
	l = append(l, &engine.Scenario{Name: "schedules", Bound: t.Pick(2, 3),
		What: "11 scripts of keep-alive requests, responses and messages (keep-alive inside multi-frame messages, after noise and bad frames) x 1, 2 or 7 queued requests x three arrival times, all schedules, read cuts and clock deviations within the bound",
		Run: func(c *engine.C) {
			w := newWorld(c)
			s := scripts[c.Choose(len(scripts))]
			q := queues[c.Choose(len(queues))]
			at := []time.Duration{0, 1 * ms, 12 * ms}[c.Choose(3)]
			keepAlive(w, s, nil, q, at, 0)
		}})
	l = append(l, &engine.Scenario{Name: "every cut", Bound: t.Pick(1, 2),
		What: "every script delivered in two parts cut at every byte, 3 ms or 15 ms apart, 1 or 7 queued requests",
		Run: func(c *engine.C) {
			w := newWorld(c)
			s := scripts[c.Choose(len(scripts))]
			n := 0
			for _, it := range s {
				n += len(it.bytes)
			}
			cut := 1 + c.Choose(n-1)
			q := []int{1, 7}[c.Choose(2)]
			gap := []time.Duration{3 * ms, 15 * ms}[c.Choose(2)]
			keepAlive(w, s, []int{cut}, q, 0, gap)
		}})
	l = append(l, &engine.Scenario{Name: "two cuts", Bound: 0,
		What: "keep-alive request then message (and the reverse) delivered in three parts, all pairs of cuts",
		Run: func(c *engine.C) {
			w := newWorld(c)
			s := [][]item{{kaReq(), kaReq()}, {single(1), kaReq()}, {kaReq(), single(1)}, {kaResp(), kaReq()}}[c.Choose(4)]
			n := 0
			for _, it := range s {
				n += len(it.bytes)
			}
			a := 1 + c.Choose(n-2)
			b := a + 1 + c.Choose(n-a-1)
			keepAlive(w, s, []int{a, b}, 1+c.Choose(2), 0, 7*ms)
		}})
	{
		l = append(l, &engine.Scenario{Name: "schedules, every statement", Bound: t.Pick(1, 2),
			What: "the scripts with one deviation at any statement of the client",
			Run: func(c *engine.C) {
				w := newWorld(c)
				w.s.Fine = true
				s := scripts[c.Choose(len(scripts))]
				q := queues[c.Choose(len(queues))]
				keepAlive(w, s, nil, q, []time.Duration{0, 12 * ms}[c.Choose(2)], 0)
			}})
	}
	l = append(l, &engine.Scenario{Name: "long run", Bound: 0,
		What: "hundreds of keep-alive requests alone or mixed with messages in one or several frames and keep-alive responses, all at once or 1 ms or 20 ms apart, with up to 250 queued requests",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			w.s.MaxSteps = 10000000
			n := []int{100, 600}[c.Choose(2)]
			mix := c.Choose(4)
			var items []item
			for i := 0; i < n; i++ {
				items = append(items, kaReq())
				switch mix {
				case 1:
					items = append(items, single(int32(i%7)))
				case 2:
					items = append(items, kaResp(), multi(int32(i%5), i%3))
				case 3:
					if i%50 == 0 {
						items = append(items, noise(), broken(), headless())
					}
				}
			}
			gap := []time.Duration{-1, 1 * ms, 20 * ms}[c.Choose(3)]
			var cuts []int
			if gap > 0 {
				at := 0
				for _, it := range items[:len(items)-1] {
					at += len(it.bytes)
					cuts = append(cuts, at)
				}
			}
			keepAlive(w, items, cuts, []int{1, 250}[c.Choose(2)], 5*ms, gap)
		}})
	l = append(l, &engine.Scenario{Name: "full reads", Bound: 0,
		What: "hundreds of messages and keep-alive requests with many escaped bytes arrive at once, so that the client's reads are full, and end at every byte of them",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			w.s.MaxSteps = 10000000
			e := checks.Small(ref.Node, 5, 2)
			e.Props[1] = ref.Val{K: ref.VString, S: "\xff\xfe\xfd\xf8\xff\xff\xdd\xde\xdf"}
			b := ref.Message(ref.RootTLV([]*ref.Elem{e}).Bytes(), 40)
			group := []item{{"escaped", b, nil, []*ref.Elem{e}}, kaReq(), single(1), kaResp()}
			period := 0
			for _, it := range group {
				period += len(it.bytes)
			}
			// whatever the size of a read is, all the places of a group are tried
			pad := make([]byte, c.Choose(period))
			for i := range pad {
				pad[i] = 0x11
			}
			items := []item{{"pad", pad, nil, nil}}
			for n := 0; n < 140000; n += period {
				items = append(items, group...)
			}
			keepAlive(w, items, nil, 1, 5*ms, 0)
		}})
	l = append(l, &engine.Scenario{Name: "idle", Bound: 0,
		What: "a peer silent for 1 to 11 minutes, then asking, once or again and again",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			w.s.MaxSteps = 10000000
			idle := []time.Duration{time.Minute, 2 * time.Minute, 11 * time.Minute}[c.Choose(3)]
			scripts := [][]item{{kaReq()}, {kaReq(), single(1), kaReq()}}
			items := scripts[c.Choose(2)]
			var cuts []int
			at := 0
			for _, it := range items[:len(items)-1] {
				at += len(it.bytes)
				cuts = append(cuts, at)
			}
			keepAlive(w, items, cuts, 1, idle, idle)
		}})
	l = append(l, &engine.Scenario{Name: "connections", Bound: t.Pick(0, 1),
		What: "up to 40 connections one after the other, each with 0 to 2 keep-alive requests and left (by the client, by the peer, by a reset) in the middle of a frame or message: each connection's requests are answered on it",
		Run: func(c *engine.C) {
			w := newWorld(c)
			n := []int{2, 3, 40}[c.Choose(3)]
			how := c.Choose(3)
			left := [][]byte{nil, ref.KeepAliveReq()[:5], append(append([]byte{}, multi(1).bytes[:150]...), 0xFD), ref.KeepAliveReq()[:1]}[c.Choose(4)]
			asks := 1 + c.Choose(2)
			pause := []time.Duration{3 * ms, 25 * ms}[c.Choose(2)]
			heard := w.ear("listener")
			w.setup = func(p *peer) {
				var b []byte
				for i := 0; i < asks; i++ {
					b = append(b, ref.KeepAliveReq()...)
				}
				b = append(b, single(int32(p.n)).bytes...)
				p.conn.Deliver(append(b, left...))
			}
			w.user("user", func(me string) {
				w.ask(me, "root", nil, heard)
				for i := 0; i < n; i++ {
					c.Assert(w.connect(me), "connect")
					vrt.Sleep(pause + 15*ms)
					switch how {
					case 0:
						c.Assert(w.disconnect(me), "disconnect")
					default:
						vrt.Do("the peer leaves", func() { w.peers[i].end(how == 2) })
						vrt.Sleep(25 * ms)
						c.Assert(!w.isConnected(me), "the loss of the peer was not noticed")
					}
				}
			})
			w.s.DevUntil = 100 * ms
			w.run(time.Duration(n)*80*ms + 100*ms)
			for _, p := range w.peers {
				c.Assert(p.count("ka-response") == asks, "connection %d: %d responses to %d requests", p.n, p.count("ka-response"), asks)
			}
			c.Assert(len(heard.calls) == n, "%d messages delivered of %d", len(heard.calls), n)
			c.Assert(len(w.peers[0].requests()) == 1, "requests sent: %v", w.peers[0].requests())
			w.quiet()
			c.StateString(fmt.Sprint(n, how, asks))
		}})
	return l
}
