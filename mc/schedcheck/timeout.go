package schedcheck

import (
	"fmt"
	"time"

	"github.com/dufourgilles/emberlib/embertree"

	"verifmc/checks"
	"verifmc/engine"
	"verifmc/ref"
	"verifmc/vrt"
)

// ---- C23: answers and timeouts ----

// asked is one request and what its listener heard.
type asked struct {
	o       *op
	ear     *ear
	timeout time.Duration // configured when it was made, 0: none
	answer  bool          // the peer will answer it, whatever else happens
	lone    bool          // no other message may be taken for its answer
}

// checkAsked checks what the listener of one request heard.
func (w *world) checkAsked(a *asked) {
	c := w.c
	outs := 0
	for i, x := range a.ear.calls {
		if x.err == "" {
			c.Assert(x.node != nil, "%s: called with nothing", a.o.what)
			continue
		}
		outs++
		c.Assert(a.timeout > 0, "%s: a timeout (%s) although none is configured", a.o.what, x.err)
		c.Assert(x.at >= a.o.at+a.timeout, "%s made at %v: timeout of %v already at %v", a.o.what, a.o.at, a.timeout, x.at)
		for _, y := range a.ear.calls[:i] {
			// between the answer and the timeout all threads came to rest: the answer had been processed
			c.Assert(y.err != "" || y.rests == x.rests, "%s: a timeout at %v although the answer was processed at %v", a.o.what, x.at, y.at)
		}
	}
	c.Assert(outs <= 1, "%s: %d timeouts", a.o.what, outs)
	if a.o.err != "" {
		c.Assert(outs == 0, "%s: refused, and a timeout nevertheless", a.o.what)
		return
	}
	answered := len(a.ear.calls) - outs
	if !a.answer && a.lone {
		c.Assert(answered == 0, "%s: %d answers although the peer sent none", a.o.what, answered)
		if a.timeout > 0 {
			c.Assert(outs == 1, "%s: neither an answer nor a timeout of %v\n%s", a.o.what, a.timeout, w.history())
		}
	}
	if a.answer {
		c.Assert(answered >= 1, "%s: the answer was not delivered", a.o.what)
	}
}

func init() {
	engine.Register("C23", []string{"A listener given to GetDirectory stays registered by contract (it also hears later messages); an answer and a timer due at the same instant may both win."}, timeoutScenarios)
}

func timeoutScenarios(t engine.Tier) []*engine.Scenario {
	delays := []time.Duration{0, 5 * ms, 14 * ms, 15 * ms, 16 * ms, 35 * ms, -1}
	reply := func(path []int32) []byte {
		e := &ref.Elem{Kind: ref.Node, Props: map[int]ref.Val{}, Contents: true}
		if len(path) == 0 {
			e.Number = 1
		} else {
			e.Path = path
		}
		return ref.Message(ref.RootTLV([]*ref.Elem{e}).Bytes(), 1000)
	}
	// the tree of the client is filled first: 1, 1.1 and 2, without timeouts
	prepare := func(w *world) (first *ear, elems map[string]*embertree.Element) {
		elems = map[string]*embertree.Element{}
		first = w.ear("preparation")
		first.on = func(x call) {
			if len(elems) > 0 {
				return
			}
			if r, ok := x.node.(*embertree.RootElement); ok {
				for _, p := range [][]int32{{1}, {1, 1}, {2}} {
					if _, e := r.GetElementByPath(p); e != nil {
						elems[ref.OIDString(p)] = e
					}
				}
			}
			w.handOver()
		}
		return
	}
	fill := ref.Message(ref.RootTLV([]*ref.Elem{
		{Kind: ref.Node, Number: 1, Props: map[int]ref.Val{}, Children: []*ref.Elem{{Kind: ref.Node, Number: 1, Props: map[int]ref.Val{}}}},
		{Kind: ref.Node, Number: 2, Props: map[int]ref.Val{}}}).Bytes(), 1000)
	many := func(fine bool, maxReq int) func(c *engine.C) {
		return func(c *engine.C) {
			w := newWorld(c)
			w.s.Fine = fine
			w.s.DevFrom = false
			n := 1 + c.Choose(maxReq)
			var timeout time.Duration
			switch c.Choose(3) {
			case 0:
				timeout = 20 * ms
			case 1:
				timeout = 1 * ms
			}
			first, elems := prepare(w)
			var list []*asked
			var targets []string
			var gaps, delay []time.Duration
			for i := 0; i < n; i++ {
				if i == 0 {
					targets = append(targets, []string{"", "1"}[c.Choose(2)])
				} else {
					targets = append(targets, []string{"", "1", "1.1", "2"}[c.Choose(4)])
				}
				gaps = append(gaps, 0)
				if i > 0 {
					gaps[i] = []time.Duration{0, 10 * ms, 20 * ms}[c.Choose(3)]
				}
				if fine {
					delay = append(delay, []time.Duration{14 * ms, 15 * ms, -1}[c.Choose(3)])
				} else if n == 1 {
					delay = append(delay, delays[c.Choose(len(delays))])
				} else {
					delay = append(delay, []time.Duration{5 * ms, 15 * ms, -1}[c.Choose(3)])
				}
			}
			threads := 1
			if n > 1 {
				threads += c.Choose(2)
			}
			k := 0
			ready := false
			w.onRequest = func(p *peer, path []int32) {
				if k == 0 {
					k++
					p.conn.Deliver(fill)
					return
				}
				// requests arrive in the order made; each has a delay of its own
				i := -1
				for j, a := range list {
					if a.o.what == "get "+name(path) && !used(a) {
						i = j
						break
					}
				}
				if i < 0 {
					return
				}
				list[i].ear.name += "'"
				if d := delay[i]; d >= 0 {
					w.s.After(d, func() { p.conn.Deliver(reply(path)) })
				}
			}
			start := time.Duration(0)
			ask := func(me string, i int) {
				el := elems[targets[i]]
				c.Assert(targets[i] == "" || el != nil, "harness: no element %s", targets[i])
				a := &asked{ear: w.ear(fmt.Sprintf("listener%d", i)), timeout: timeout, lone: true, answer: delay[i] >= 0}
				a.o = w.begin(me, "get "+name0(targets[i]))
				list = append(list, a)
				w.finish(a.o, w.client.GetDirectory(el, a.ear))
			}
			w.user("user0", func(me string) {
				w.ask(me, "root", nil, first)
				w.connect(me)
				vrt.Wait("preparation", func() bool { return len(elems) == 3 })
				w.takeOver()
				vrt.Sleep(5 * ms)
				w.client.SetTimeout(int(timeout / ms))
				vrt.Do("start", func() {
					w.s.DevFrom = true
					start = w.s.Now()
					w.s.DevUntil = start + 60*ms
				})
				ready = true
				ask(me, 0)
				if threads == 1 {
					for i := 1; i < n; i++ {
						vrt.Sleep(gaps[i])
						ask(me, i)
					}
				}
			})
			if threads == 2 {
				w.user("user1", func(me string) {
					vrt.Wait("start", func() bool { return ready })
					w.takeOver()
					for i := 1; i < n; i++ {
						vrt.Sleep(gaps[i])
						ask(me, i)
					}
				})
			}
			w.run(150 * ms)
			c.Assert(len(list) == n, "harness: %d requests", len(list))
			// who may hear whose answer: a root listener every message, an
			// element's listener messages about it or below
			for i, a := range list {
				for j, b := range list {
					if i != j && (b.answer) {
						x, y := targetOf(a), targetOf(b)
						if x == "" || x == y || y == "" && x == "1" || len(y) > len(x) && y[:len(x)] == x {
							a.lone = false
						}
					}
				}
				w.checkAsked(a)
			}
			for p, e := range elems {
				n := w.strangers(e)
				c.Assert(n <= 0, "%d registrations are left with element %s", n, p)
			}
			if first.root != nil {
				n := w.strangers(first.root)
				c.Assert(n <= 0, "%d registrations are left with the tree", n)
			}
			w.quiet()
			c.Assert(len(w.s.Alive(vrt.Spawned)) == ioThreadsNow(w), "threads are left: %s", w.s.Describe())
			s := ""
			for _, a := range list {
				s += fmt.Sprint(a.o.what, a.timeout, len(a.ear.calls), a.ear.errs(), ";")
			}
			c.StateString(s)
		}
	}
	var l []*engine.Scenario
	l = append(l, &engine.Scenario{Name: "requests", Bound: t.Pick(1, 2),
		What: "1 or 2 requests for the root or (nested, equal, different) elements from 1 or 2 threads, each answered after 0 to 35 ms or never, timeouts of 20 ms, 1 ms or none, all schedules within the bound",
		Run:  many(false, 2)})
	l = append(l, &engine.Scenario{Name: "one request", Bound: t.Pick(3, 4), What: "one request, deeper", Run: many(false, 1)})
	l = append(l, &engine.Scenario{Name: "one request, every statement", Bound: t.Pick(2, 3), What: "one request, deviations at any statement", Run: many(true, 1)})
	if t.Thorough {
		l = append(l, &engine.Scenario{Name: "three requests", Bound: 0, What: "three requests, default schedules", Run: many(false, 3)})
		l = append(l, &engine.Scenario{Name: "requests, every statement", Bound: 1, What: "two requests, deviations at any statement", Run: many(true, 2)})
	}
	// the setting over time
	settings := []int{-1, 0, 1, 25, 40, -5}
	l = append(l, &engine.Scenario{Name: "settings", Bound: t.Pick(0, 1),
		What: fmt.Sprintf("every sequence of up to %d settings of the timeout out of %v ms (negative: ignored; -1: not set), each followed by an unanswered request or by nothing, connected or not: each request ends as configured when it was made", t.Pick(3, 4), settings),
		Run: func(c *engine.C) {
			w := newWorld(c)
			connected := c.Bool()
			n := 1 + c.Choose(t.Pick(3, 4))
			var set []int
			var req []bool
			for i := 0; i < n; i++ {
				set = append(set, settings[c.Choose(len(settings))])
				req = append(req, i == n-1 || c.Bool())
			}
			var list []*asked
			w.user("user0", func(me string) {
				if connected {
					w.connect(me)
				}
				current := time.Duration(-1) // of the library's choosing
				for i := range set {
					if set[i] != -1 {
						w.client.SetTimeout(set[i])
					}
					if set[i] >= 0 {
						current = time.Duration(set[i]) * ms
					}
					if req[i] && current >= 0 {
						a := &asked{ear: w.ear(fmt.Sprint("listener", i)), timeout: current, lone: true}
						list = append(list, a)
						a.o = w.ask(me, "root", nil, a.ear)
						c.Assert(a.o.err == "", "request refused: %s", a.o.err)
					}
				}
			})
			w.s.DevUntil = 45 * ms
			w.run(150 * ms)
			for _, a := range list {
				w.checkAsked(a)
			}
			c.StateString(w.history())
		}})
	// how long a timeout takes
	lengths := []int{1, 2, 5, 9, 10, 11, 15, 50, 63, 64, 99, 100, 101, 127, 128, 129, 250, 255, 256, 257, 999, 1000, 1001, 1024, 1500, 3600, 30000, 32767, 32768, 59999, 60000, 60001, 65535, 65536, 65537, 70000, 2147483, 2147484, 3600000, 4294968, 86400000, 2147483647, 2147483648, 4294967296, 31536000000}
	l = append(l, &engine.Scenario{Name: "lengths", Bound: 0,
		What: fmt.Sprintf("%d timeouts from 1 ms to 70 s, and up to a year when not connected, for the root or an element, unanswered, or answered in the middle or 1 ms before the end: never early, never missed", len(lengths)),
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			w.s.MaxSteps = 10000000
			n := lengths[c.Choose(len(lengths))]
			el := []*embertree.Element{nil, embertree.NewNode(1)}[c.Choose(2)]
			timeout := time.Duration(n) * ms
			delay := []time.Duration{-1, timeout / 2, timeout - ms}[c.Choose(3)]
			offline := delay < 0 && c.Bool()
			if n > 70000 && !offline {
				return // it would take too long
			}
			w.client.SetTimeout(n)
			a := &asked{ear: w.ear("listener"), timeout: timeout, lone: true}
			w.onRequest = func(p *peer, path []int32) {
				if delay >= 0 && len(path) == 0 {
					w.s.After(delay, func() { p.conn.Deliver(reply(path)) })
				}
			}
			a.answer = delay >= 0 && el == nil
			w.user("user0", func(me string) {
				if !offline {
					w.connect(me)
				}
				a.o = w.ask(me, "something", el, a.ear)
				c.Assert(a.o.err == "", "request refused: %s", a.o.err)
			})
			w.run(timeout + 60*ms)
			w.checkAsked(a)
			for _, x := range a.ear.calls {
				c.Assert(x.err == "" || x.at <= a.o.at+timeout+40*ms, "a timeout of %v came after %v", timeout, x.at-a.o.at)
			}
			w.quiet()
			c.StateString(fmt.Sprint(n, len(a.ear.calls)))
		}})
	l = append(l, &engine.Scenario{Name: "places", Bound: 0,
		What: "unanswered requests for elements 1 to 40 levels deep, by number or by path, of the four kinds, connected or not: each ends in one timeout",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			depth := []int{1, 2, 3, 5, 6, 8, 9, 16, 17, 40}[c.Choose(10)]
			e := &ref.Elem{Kind: []ref.Kind{ref.Node, ref.Param, ref.Matrix, ref.Func}[c.Choose(4)], Number: 3, Props: map[int]ref.Val{}}
			var el *embertree.Element
			if c.Bool() {
				for i := 0; i < depth; i++ {
					e.Path = append(e.Path, int32(i%3*100))
				}
				el = checks.Build(e)
			} else {
				el = checks.Build(e)
				for i, below := 1, el; i < depth; i++ {
					above := embertree.NewNode(i % 3 * 100)
					above.AddChild(below)
					below = above
				}
			}
			w.client.SetTimeout(20)
			a := &asked{ear: w.ear("listener"), timeout: 20 * ms, lone: true}
			connected := c.Bool()
			w.user("user0", func(me string) {
				if connected {
					w.connect(me)
				}
				a.o = w.ask(me, "something", el, a.ear)
				c.Assert(a.o.err == "", "request refused: %s", a.o.err)
			})
			w.run(100 * ms)
			w.checkAsked(a)
			w.quiet()
			c.StateString(fmt.Sprint(depth, len(a.ear.calls)))
		}})
	l = append(l, &engine.Scenario{Name: "long run", Bound: 0,
		What: "hundreds of requests for changing elements, all waiting at the same time or one after the other, all, every second one or none of them answered",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			w.s.MaxSteps = 10000000
			n := []int{40, 250, 700}[c.Choose(3)]
			wait := time.Duration(0)
			if n > 250 || c.Bool() {
				wait = 12 * ms
			}
			timeout := []time.Duration{0, 30 * ms, 3000 * ms}[c.Choose(3)]
			answers := c.Choose(3)
			w.client.SetTimeout(int(timeout / ms))
			var fillAll []*ref.Elem
			const elements = 50
			for i := 0; i < elements; i++ {
				fillAll = append(fillAll, &ref.Elem{Kind: ref.Node, Number: int32(i), Props: map[int]ref.Val{}})
			}
			first := w.ear("preparation")
			var tree *embertree.RootElement
			first.on = func(x call) {
				if r, ok := x.node.(*embertree.RootElement); ok && tree == nil {
					tree = r
					w.handOver()
				}
			}
			k := 0
			w.onRequest = func(p *peer, path []int32) {
				k++
				if k == 1 {
					p.conn.Deliver(ref.Message(ref.RootTLV(fillAll).Bytes(), 1000))
				} else if answers == 0 || answers == 1 && path[0]%2 == 0 {
					p.conn.Deliver(reply(path))
				}
			}
			var list []*asked
			w.user("user", func(me string) {
				w.ask(me, "root", nil, first)
				w.connect(me)
				vrt.Wait("preparation", func() bool { return tree != nil })
				w.takeOver()
				vrt.Sleep(10 * ms)
				for i := 0; i < n; i++ {
					el := tree.GetElementByNumber(i % elements)
					c.Assert(el != nil, "harness: no element")
					a := &asked{ear: w.ear(fmt.Sprint("listener", i)), timeout: timeout, answer: answers == 0 || answers == 1 && i%elements%2 == 0}
					a.lone = !a.answer
					list = append(list, a)
					a.o = w.ask(me, fmt.Sprint("element ", i%elements), el, a.ear)
					c.Assert(a.o.err == "", "request %d refused: %s", i, a.o.err)
					if wait > 0 {
						vrt.Sleep(wait)
					}
				}
			})
			w.run(time.Duration(n)*wait + timeout + 1500*ms)
			for i, a := range list {
				// an earlier request's late answer counts for a later request about the same element
				for _, x := range a.ear.calls {
					c.Assert(x.err == "" || !a.answer || timeout < 1000*ms, "request %d was answered, and timed out nevertheless", i)
				}
				if timeout == 30*ms && wait == 0 && a.answer {
					continue // the queue takes longer than the timeout
				}
				w.checkAsked(a)
			}
			for i := 0; i < elements; i++ {
				n := w.strangers(tree.GetElementByNumber(i))
				c.Assert(n <= 0, "%d registrations are left with element %d", n, i)
			}
			w.quiet()
			c.StateString(fmt.Sprint(n, wait, timeout, answers))
		}})
	// requests made by listeners
	l = append(l, &engine.Scenario{Name: "asked by a listener", Bound: t.Pick(1, 2),
		What: "the listener of a request for the root, an element or the element below (called with the answer or the timeout) makes another request for the root, the element, the one below or one beside it, which is answered or not: it hears of its own answer or timeout only",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			names := []string{"", "1", "1.1", "2"}
			one, two := names[c.Choose(4)], names[c.Choose(4)]
			d1 := []time.Duration{3 * ms, -1}[c.Choose(2)]
			d2 := []time.Duration{3 * ms, -1}[c.Choose(2)]
			timeout := []time.Duration{0, 20 * ms}[c.Choose(2)]
			both := c.Bool() // the message of the first answer is about everything
			first, elems := prepare(w)
			a := &asked{ear: w.ear("outer"), timeout: timeout, answer: d1 >= 0}
			b := &asked{ear: w.ear("inner"), timeout: timeout, answer: d2 >= 0}
			a.ear.on = func(call) {
				if b.o != nil {
					return
				}
				b.o = w.begin("callback", "get "+name0(two))
				w.finish(b.o, w.client.GetDirectory(elems[two], b.ear))
			}
			k := 0
			w.onRequest = func(p *peer, path []int32) {
				k++
				switch {
				case k == 1:
					p.conn.Deliver(fill)
				case k == 2 && d1 >= 0:
					m := reply(path)
					if both {
						m = fill
					}
					w.s.After(d1, func() { p.conn.Deliver(m) })
				case k == 3 && d2 >= 0:
					w.s.After(d2, func() { p.conn.Deliver(reply(path)) })
				}
			}
			w.user("user0", func(me string) {
				w.ask(me, "root", nil, first)
				w.connect(me)
				vrt.Wait("preparation", func() bool { return len(elems) == 3 })
				w.takeOver()
				vrt.Sleep(5 * ms)
				w.client.SetTimeout(int(timeout / ms))
				vrt.Do("start", func() {
					w.s.DevFrom = true
					w.s.DevUntil = w.s.Now() + 60*ms
				})
				a.o = w.begin(me, "get "+name0(one))
				w.finish(a.o, w.client.GetDirectory(elems[one], a.ear))
			})
			w.run(160 * ms)
			w.checkAsked(a)
			if b.o == nil {
				c.Assert(timeout == 0 && d1 < 0, "the listener was not called")
				return
			}
			// the answer to the first request was there before the second was made
			b.lone = !(timeout > 0 && a.answer && a.ear.calls[0].err != "")
			w.checkAsked(b)
			if b.lone && !b.answer {
				for _, x := range b.ear.calls {
					c.Assert(x.err != "", "an answer although the peer sent none")
				}
			}
			w.quiet()
			c.StateString(fmt.Sprint(len(a.ear.calls), len(b.ear.calls), b.ear.errs()))
		}})
	// refused, unconnected, disconnected
	l = append(l, &engine.Scenario{Name: "never sent", Bound: t.Pick(2, 3),
		What: "requests made while not connected, over the queue's limit, or cut off by a disconnect or a lost peer: each ends in one timeout or was refused, nothing is left",
		Run: func(c *engine.C) {
			w := newWorld(c)
			kind := c.Choose(4)
			w.s.DevFrom = kind != 1
			w.client.SetTimeout(20)
			n := 2
			if kind == 1 {
				n = 260
			}
			var list []*asked
			fault := false
			if kind == 3 {
				w.s.Env = func() []vrt.Action {
					if fault || len(w.peers) == 0 {
						return nil
					}
					return []vrt.Action{{Name: "reset", Do: func() { fault = true; w.peers[0].end(true) }}}
				}
			}
			nodes := []*embertree.Element{nil, embertree.NewNode(5)}
			w.user("user0", func(me string) {
				if kind >= 2 {
					w.connect(me)
				}
				for i := 0; i < n; i++ {
					if i == n-6 {
						vrt.Do("deviations", func() { w.s.DevFrom = true })
					}
					a := &asked{ear: w.ear(fmt.Sprint("listener", i)), timeout: 20 * ms, lone: true}
					list = append(list, a)
					a.o = w.begin(me, "get something")
					w.finish(a.o, w.client.GetDirectory(nodes[i%2], a.ear))
				}
				if kind == 2 {
					w.disconnect(me)
				}
			})
			w.s.DevUntil = 30 * ms
			if kind == 1 {
				w.s.DevUntil = 5 * ms
			}
			w.run(100 * ms)
			refused := 0
			for _, a := range list {
				w.checkAsked(a)
				if a.o.err != "" {
					refused++
				}
			}
			if kind == 1 {
				c.Assert(refused == n-256, "%d of %d requests were refused", refused, n)
			} else {
				c.Assert(refused == 0, "requests were refused")
			}
			n2 := w.strangers(nodes[1])
			c.Assert(n2 <= 0, "%d registrations are left with the element", n2)
			w.quiet()
			c.StateString(w.history())
		}})
	return l
}

func targetOf(a *asked) string {
	s := a.o.what[4:]
	if s == "root" {
		return ""
	}
	return s
}

func name0(s string) string {
	if s == "" {
		return "root"
	}
	return s
}

func name(path []int32) string { return name0(ref.OIDString(path)) }

func used(a *asked) bool { return a.ear.name[len(a.ear.name)-1] == '\'' }

func ioThreadsNow(w *world) int {
	n := 0
	for _, p := range w.peers {
		if !p.conn.Closed() {
			n++
		}
	}
	return n
}
