package schedcheck

import (
	"fmt"
	"time"

	"github.com/dufourgilles/emberlib/embertree"

	"verifmc/engine"
	"verifmc/ref"
	"verifmc/vrt"
)

// ---- C26: the scenarios of the other properties, and more, under the race detector ----

func init() {
	engine.Register("C26", []string{"Elements are handed from listeners to other threads with synchronisation; contents and children of elements are read by listeners only. A race is found when an explored schedule leaves the two accesses unordered; hand-overs between the threads of the harness order nothing."}, func(t engine.Tier) []*engine.Scenario {
		blind = true
		var l []*engine.Scenario
		take := func(prop string, list []*engine.Scenario, bounds map[string]int) {
			for _, s := range list {
				if b, ok := bounds[s.Name]; ok {
					s.Name = prop + " " + s.Name
					s.Bound = b
					l = append(l, s)
				}
			}
		}
		q := engine.Tier{}
		take("C21", keepaliveScenarios(q), map[string]int{"schedules": t.Pick(0, 1)})
		take("C22", gettreeScenarios(q), map[string]int{"schedules": 1, "timeouts and losses": 1, "two fetches": t.Pick(0, 1), "lost peer": t.Pick(0, 1), "at the same time": t.Pick(1, 2)})
		take("C23", timeoutScenarios(q), map[string]int{"requests": t.Pick(0, 1), "one request": t.Pick(1, 2), "never sent": 1})
		take("C24", queueScenarios(q), map[string]int{"threads": t.Pick(0, 1), "disconnects": t.Pick(1, 2)})
		take("C25", lifecycleScenarios(q), map[string]int{"two threads": t.Pick(0, 1), "disconnect inside a callback": t.Pick(0, 1)})
		// calls next to calls
		fill := func(round int) []byte {
			n := &ref.Elem{Kind: ref.Node, Number: 1, Contents: true, Props: map[int]ref.Val{0: {K: ref.VString, S: fmt.Sprint("round", round)}}}
			n.Children = []*ref.Elem{{Kind: ref.Param, Number: 1, Contents: true, Props: map[int]ref.Val{2: {K: ref.VInt, I: int64(round)}}}}
			if round > 0 {
				n.Children = append(n.Children, &ref.Elem{Kind: ref.Node, Number: int32(1 + round), Props: map[int]ref.Val{}})
			}
			return ref.Message(ref.RootTLV([]*ref.Elem{n}).Bytes(), 1000)
		}
		var tree *embertree.RootElement
		calls := []struct {
			name string
			f    func(w *world, me string, el *embertree.Element, e *ear)
		}{
			{"get root", func(w *world, me string, el *embertree.Element, e *ear) { w.ask(me, "root", nil, e) }},
			{"get element", func(w *world, me string, el *embertree.Element, e *ear) { w.ask(me, "element", el, e) }},
			{"get tree", func(w *world, me string, el *embertree.Element, e *ear) { w.getTree(me, e) }},
			{"is connected", func(w *world, me string, el *embertree.Element, e *ear) { w.isConnected(me) }},
			{"disconnect", func(w *world, me string, el *embertree.Element, e *ear) { w.disconnect(me) }},
			{"connect", func(w *world, me string, el *embertree.Element, e *ear) { w.connect(me) }},
			{"set timeout", func(w *world, me string, el *embertree.Element, e *ear) { w.client.SetTimeout(7) }},
			{"add listener", func(w *world, me string, el *embertree.Element, e *ear) { el.AddListener(e) }},
			{"remove listener", func(w *world, me string, el *embertree.Element, e *ear) { el.AddListener(e); el.RemoveListener(e) }},
			{"root has listener", func(w *world, me string, el *embertree.Element, e *ear) { tree.HasListner(e) }},
			{"root listeners", func(w *world, me string, el *embertree.Element, e *ear) {
				tree.AddListener(e)
				tree.RemoveListener(e)
			}},
			{"path", func(w *world, me string, el *embertree.Element, e *ear) { el.GetPath(); el.GetTag(); el.GetParent() }},
			{"message", func(w *world, me string, el *embertree.Element, e *ear) { el.GetQualifiedDirectoryMsg(e) }},
			{"nested message", func(w *world, me string, el *embertree.Element, e *ear) { el.GetDirectoryMsg(e) }},
		}
		l = append(l, &engine.Scenario{Name: "pairs of calls", Bound: t.Pick(1, 2),
			What: fmt.Sprintf("every pair of %d calls from two threads while messages about the same elements arrive and timers expire", len(calls)),
			Run: func(c *engine.C) {
				w := newWorld(c)
				w.s.DevFrom = false
				a, b := calls[c.Choose(len(calls))], calls[c.Choose(len(calls))]
				ready := 0
				var el [2]*embertree.Element
				first := w.ear("preparation")
				first.on = func(x call) {
					if r, ok := x.node.(*embertree.RootElement); ok && ready == 0 {
						tree = r
						_, el[0] = r.GetElementByPath([]int32{1})
						_, el[1] = r.GetElementByPath([]int32{1, 1})
						ready = 1
						w.handOver()
					}
				}
				answered := 0
				w.onRequest = func(p *peer, path []int32) {
					p.conn.Deliver(fill(answered))
					answered++
				}
				w.client.SetTimeout(12)
				both := c.Bool()
				for i, x := range []struct {
					name string
					f    func(w *world, me string, el *embertree.Element, e *ear)
				}{a, b} {
					i, x := i, x
					w.user(fmt.Sprintf("user%d", i), func(me string) {
						if i == 0 {
							w.ask(me, "root", nil, first)
							w.connect(me)
						}
						vrt.Wait("preparation", func() bool { return ready > 0 })
						w.takeOver()
						e := el[1]
						if both {
							e = el[0]
						}
						if i == 0 {
							vrt.Do("start", func() {
								w.s.DevFrom, w.s.DevUntil = true, w.s.Now()+30*ms
								for k := 2; k < 5; k++ {
									k := k
									w.s.After(time.Duration(k-2)*5*ms, func() { w.peers[0].conn.Deliver(fill(k)) })
								}
							})
							ready = 2
						} else {
							vrt.Wait("start", func() bool { return ready > 1 })
						}
						x.f(w, me, e, w.ear("listener"))
					})
				}
				w.run(80 * ms)
				c.StateString(w.history())
			}})
		for _, s := range l {
			run := s.Run
			s.Run = func(c *engine.C) {
				if !vrt.Race {
					panic("C26 needs the race detector")
				}
				run(c)
			}
		}
		return l
	})
}
