package schedcheck

import (
	"fmt"
	"time"

	"verifmc/checks"
	"verifmc/engine"
	"verifmc/ref"
	"verifmc/vrt"
)

// ---- C22: fetching the whole tree ----

// forests lists all ordered forests with n nodes as lists of subtree shapes.
type shape []shape

func forests(n int) []shape {
	if n == 0 {
		return []shape{nil}
	}
	var l []shape
	for k := 1; k <= n; k++ { // size of the first tree
		for _, first := range forests(k - 1) {
			for _, rest := range forests(n - k) {
				l = append(l, append(shape{first}, rest...))
			}
		}
	}
	return l
}

// provider makes the provider's tree of a shape; variant rotates the kinds of
// leaves and the numbers.
func provider(s shape, variant int) []*ref.Elem {
	count := 0
	var build func(s shape, depth int) []*ref.Elem
	build = func(s shape, depth int) []*ref.Elem {
		var l []*ref.Elem
		for i, kids := range s {
			kind := ref.Node
			if len(kids) == 0 {
				kind = []ref.Kind{ref.Param, ref.Node, ref.Func, ref.Matrix}[(count+variant)%4]
			}
			number := []int32{1, 2, 3, 4, 5}[i%5] + int32(i/5)*5
			if variant == 1 {
				number = []int32{0, 128, 300, 7, 70000}[i%5] + int32(i/5)*5
			}
			count++
			e := checks.Small(kind, number, 2)
			e.Props[0] = ref.Val{K: ref.VString, S: fmt.Sprintf("id%d", count)}
			e.Children = build(kids, depth+1)
			l = append(l, e)
		}
		return l
	}
	return build(s, 0)
}

type style int

const (
	byNumber   style = iota // the chain of parents, by number
	byPath                  // the element by path, children inside
	kidsByPath              // only the children, by path
	allByPath               // the element and its children, by path
	childFirst              // the children, then the element
	nStyles
)

// bare is e without what is below it, and without contents if empty.
func bare(e *ref.Elem, contents bool) *ref.Elem {
	x := checks.Clone(e)
	x.Children = nil
	if !contents {
		x.Contents, x.Props = false, map[int]ref.Val{}
		x.Args, x.Results, x.Labels, x.HasArgs, x.HasResults, x.HasLabels = nil, nil, nil, false, false, false
		x.Template = nil
		x.HasTargets, x.HasSources, x.HasConns = false, false, false
		x.Targets, x.Sources, x.Conns = nil, nil, nil
	}
	return x
}

// answer is the reply to a directory request; nil if there is no such element.
func answer(tree []*ref.Elem, path []int32, st style, full bool) []*ref.Elem {
	var l []*ref.Elem
	if st == kidsByPath {
		full = true // an inner element is described by the reply to its parent's request only
	}
	if len(path) == 0 {
		for _, e := range tree {
			x := bare(e, full)
			if st != byNumber {
				x.Path = []int32{e.Number}
			}
			l = append(l, x)
		}
		return l
	}
	var chain []*ref.Elem
	kids := tree
	for _, n := range path {
		var e *ref.Elem
		for _, k := range kids {
			if k.Number == n {
				e = k
			}
		}
		if e == nil {
			return nil
		}
		chain = append(chain, e)
		kids = e.Children
	}
	self := bare(chain[len(chain)-1], true)
	if st == byNumber {
		for _, k := range kids {
			self.Children = append(self.Children, bare(k, full))
		}
		for i := len(chain) - 2; i >= 0; i-- {
			up := bare(chain[i], false)
			up.Children = []*ref.Elem{self}
			self = up
		}
		return []*ref.Elem{self}
	}
	self.Path = path
	for _, k := range kids {
		x := bare(k, full)
		if st == byPath {
			self.Children = append(self.Children, x)
		} else {
			x.Path = append(append([]int32{}, path...), k.Number)
			l = append(l, x)
		}
	}
	switch {
	case st == byPath || len(l) == 0:
		return []*ref.Elem{self}
	case st == allByPath:
		return append([]*ref.Elem{self}, l...)
	case st == childFirst:
		return append(l, self)
	}
	return l
}

// fetch fetches a tree with as many listeners as threads and checks what they hear.
type fetch struct {
	tree    []*ref.Elem
	style   style
	full    bool // children come with their contents
	size    int  // of frames
	lossy   bool // replies may get lost
	timeout int  // ms
	getters int
	horizon time.Duration
	devs    time.Duration
	again   bool // fetch once more afterwards
	cutoff  bool // the connection may get lost
	silent  int  // the peer falls silent after so many replies, if positive
}

func (f *fetch) run(w *world) {
	c := w.c
	lost := 0
	if f.timeout > 0 {
		w.client.SetTimeout(f.timeout)
	}
	w.onRequest = func(p *peer, path []int32) {
		l := answer(f.tree, path, f.style, f.full)
		c.Assert(l != nil || len(path) == 0, "the directory of %v was requested, which does not exist", path)
		if f.silent > 0 {
			if f.silent == 1 {
				lost++
				return
			}
			f.silent--
		}
		if p.reply(l, f.size, f.lossy) {
			lost++
		}
	}
	if f.cutoff {
		w.s.Env = func() []vrt.Action {
			if len(w.peers) == 0 || w.peers[0].lost > 0 {
				return nil
			}
			return []vrt.Action{{Name: "the peer closes", Do: func() { w.peers[0].end(false); lost++ }}}
		}
	}
	var ears []*ear
	listen := func(name string) *ear {
		e := w.ear(name)
		e.look = true
		ears = append(ears, e)
		return e
	}
	for i := 0; i < f.getters; i++ {
		i := i
		e := listen(fmt.Sprintf("listener%d", i))
		w.user(fmt.Sprintf("user%d", i), func(me string) {
			if i == 0 {
				w.connect(me)
			}
			o := w.getTree(me, e)
			c.Assert(o.err == "", "request refused: %s", o.err)
			if f.again && i == 0 {
				vrt.Wait("the tree", func() bool { return len(e.calls) > 0 })
				o := w.getTree(me, listen("listener again"))
				c.Assert(o.err == "", "request refused: %s", o.err)
			}
		})
	}
	w.s.DevUntil = f.devs
	done := func() bool {
		for _, e := range ears {
			if len(e.calls) == 0 {
				return false
			}
		}
		return len(ears) > f.getters || !f.again
	}
	// until all are called, and then a little longer
	var enough time.Duration
	held := 0
	w.s.Run(f.horizon, func() bool {
		if done() && (enough == 0 || held < w.s.Held) {
			enough, held = w.s.Now()+40*ms, w.s.Held
		}
		return enough > 0 && w.s.Now() >= enough
	})
	c.Assert(len(w.s.Alive(vrt.User)) == 0 || enough == 0, "still blocked: %s", w.s.Describe())
	want := checks.Want(f.tree)
	for _, e := range ears {
		c.Assert(len(e.calls) == 1, "%s was called %d times", e.name, len(e.calls))
		x := e.calls[0]
		if lost == 0 && f.timeout > 0 && x.err != "" && (w.s.Held > 0 || w.late > 0) {
			continue // too late for the timeout
		}
		if lost == 0 {
			c.Assert(x.err == "", "%s: error %q although every request was answered", e.name, x.err)
			if len(ears[0].calls) > 0 && ears[0].calls[0].err != "" {
				continue // its requests may have been answered after it timed out
			}
			if f.getters > 1 {
				continue // answers to different requests about one element cannot be told apart
			}
			c.Assert(w.blind || x.tree == want, "%s: the tree is\n%s\ninstead of\n%s", e.name, x.tree, want)
		} else if f.getters == 1 && !f.again {
			if !f.cutoff {
				c.Assert(x.err != "", "%s: no error although %d answers are missing", e.name, lost)
			} else if x.err == "" {
				c.Assert(w.blind || x.tree == want, "%s: no error, and the tree is\n%s\ninstead of\n%s", e.name, x.tree, want)
			}
		}
	}
	w.quiet()
	c.StateString(fmt.Sprint(len(ears), lost, w.s.Now()))
}

// everyOf lists the elements of a tree.
func everyOf(l []*ref.Elem) (all []*ref.Elem) {
	for _, e := range l {
		all = append(append(all, e), everyOf(e.Children)...)
	}
	return
}

func init() {
	engine.Register("C22", []string{"Each request is answered in one message which describes the requested element and its children; the peer sends nothing unasked but keep-alive requests. Overlapping fetches each end once; completeness is claimed for one fetch at a time, as answers to different requests about one element cannot be told apart in the protocol."}, gettreeScenarios)
}

func gettreeScenarios(t engine.Tier) []*engine.Scenario {
	var l []*engine.Scenario
	shapes := func(max int) []shape {
		var all []shape
		for n := 0; n <= max; n++ {
			all = append(all, forests(n)...)
		}
		return all
	}
	pickStyle := func(c *engine.C) style { return style(c.Choose(int(nStyles))) }
	upTo := t.Pick(4, 5)
	small := shapes(upTo)
	l = append(l, &engine.Scenario{Name: "all shapes", Bound: 1,
		What: fmt.Sprintf("all %d trees of up to %d elements x 3 assignments of kinds and numbers x 5 reply styles x children with or without contents, one deviation of schedule, read cut or reply delay", len(small), upTo),
		Run: func(c *engine.C) {
			w := newWorld(c)
			s := small[c.Choose(len(small))]
			f := &fetch{tree: provider(s, c.Choose(3)), style: pickStyle(c), full: c.Bool(), size: 1000, getters: 1, horizon: 400 * ms, devs: 150 * ms}
			f.run(w)
		}})
	few := shapes(t.Pick(2, 3))
	l = append(l, &engine.Scenario{Name: "schedules", Bound: t.Pick(2, 3),
		What: "small trees, deeper in schedules, cuts and delays, replies in many frames",
		Run: func(c *engine.C) {
			w := newWorld(c)
			s := few[c.Choose(len(few))]
			f := &fetch{tree: provider(s, 0), style: pickStyle(c), full: false, size: []int{1000, 20}[c.Choose(2)], getters: 1, horizon: 300 * ms, devs: 60 * ms}
			f.run(w)
		}})
	l = append(l, &engine.Scenario{Name: "every statement", Bound: 1,
		What: "small trees with a deviation at any statement",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.Fine = true
			s := few[c.Choose(len(few))]
			f := &fetch{tree: provider(s, 0), style: pickStyle(c), full: false, size: 1000, getters: 1, horizon: 300 * ms, devs: 60 * ms, timeout: 25 * c.Choose(2)}
			f.run(w)
		}})
	l = append(l, &engine.Scenario{Name: "timeouts and losses", Bound: t.Pick(2, 3),
		What: "trees of up to 3 elements, any replies lost or late, a timeout of 25 or 12 ms",
		Run: func(c *engine.C) {
			w := newWorld(c)
			list := shapes(3)
			s := list[c.Choose(len(list))]
			f := &fetch{tree: provider(s, 0), style: []style{byNumber, byPath, kidsByPath}[c.Choose(3)], full: false, size: 1000, getters: 1, horizon: 400 * ms, devs: 100 * ms, timeout: 25, lossy: true}
			f.run(w)
		}})
	l = append(l, &engine.Scenario{Name: "lost peer", Bound: t.Pick(1, 2),
		What: "trees of up to 3 elements, the peer closes at any moment; with a timeout of 25 ms the listener is called exactly once",
		Run: func(c *engine.C) {
			w := newWorld(c)
			list := shapes(3)
			s := list[c.Choose(len(list))]
			f := &fetch{tree: provider(s, 0), style: []style{byNumber, byPath}[c.Choose(2)], size: 1000, getters: 1, horizon: 400 * ms, devs: 100 * ms, timeout: 25, cutoff: true}
			f.run(w)
		}})
	l = append(l, &engine.Scenario{Name: "two fetches", Bound: t.Pick(1, 2),
		What: "two threads fetch the tree at the same time, or one fetches it again",
		Run: func(c *engine.C) {
			w := newWorld(c)
			list := shapes(3)
			s := list[c.Choose(len(list))]
			f := &fetch{tree: provider(s, 0), style: []style{byNumber, byPath, kidsByPath, childFirst}[c.Choose(4)], size: 1000, horizon: 500 * ms, devs: 100 * ms, timeout: 40 * c.Choose(2)}
			f.getters = 1 + c.Choose(2)
			f.again = f.getters == 1
			f.run(w)
		}})
	steps := []string{"grow", "change", "lose", "reconnect", "nothing"}
	l = append(l, &engine.Scenario{Name: "again and again", Bound: t.Pick(0, 1),
		What: fmt.Sprintf("trees of up to 2 elements x 4 reply styles; they are fetched, then every sequence of up to %d times: an element is added anywhere, an element's description changes, one of the next fetch's replies gets lost, the client reconnects, or nothing; after each the tree is fetched again and is what the provider has now", t.Pick(2, 3)),
		Run: func(c *engine.C) {
			w := newWorld(c)
			list := shapes(2)
			tree := provider(list[c.Choose(len(list))], c.Choose(2))
			st := []style{byNumber, byPath, kidsByPath, childFirst}[c.Choose(4)]
			full := c.Bool()
			n := 1 + c.Choose(t.Pick(2, 3))
			w.client.SetTimeout(50)
			lose, stale := -1, false
			w.onRequest = func(p *peer, path []int32) {
				l := answer(tree, path, st, full)
				c.Assert(l != nil || len(path) == 0, "the directory of %v was requested, which does not exist", path)
				if lose--; lose != -1 {
					p.reply(l, 1000, false)
				}
			}
			fetchNow := func(me string, what string, ok bool) {
				e := w.ear(what)
				e.look = true
				o := w.getTree(me, e)
				c.Assert(o.err == "", "%s: refused: %s", what, o.err)
				vrt.Wait("the tree", func() bool { return len(e.calls) > 0 })
				w.takeOver()
				if (w.late > 0 || w.s.Held > 0) && (stale || e.calls[0].err != "") {
					stale = true // answers to this fetch may come during the next one
					return
				}
				if !ok {
					c.Assert(e.calls[0].err != "", "%s: no error although an answer is missing", what)
					return
				}
				c.Assert(e.calls[0].err == "", "%s: error %q although every request was answered", what, e.calls[0].err)
				want := checks.Want(tree)
				c.Assert(w.blind || e.calls[0].tree == want, "%s: the tree is\n%s\ninstead of\n%s", what, e.calls[0].tree, want)
			}
			w.user("user0", func(me string) {
				w.connect(me)
				fetchNow(me, "first fetch", true)
				for i := 1; i <= n; i++ {
					step := steps[c.Choose(len(steps))]
					w.s.Logf("---- %s", step)
					all := everyOf(tree)
					switch step {
					case "grow":
						x := checks.Small([]ref.Kind{ref.Node, ref.Param}[c.Choose(2)], int32(40+i), 2)
						x.Props[0] = ref.Val{K: ref.VString, S: fmt.Sprint("new", i)}
						if k := c.Choose(len(all) + 1); k == len(all) {
							tree = append(tree, x)
						} else {
							all[k].Children = append(all[k].Children, x)
						}
					case "change":
						if len(all) > 0 {
							all[c.Choose(len(all))].Props[0] = ref.Val{K: ref.VString, S: fmt.Sprint("renamed", i)}
						}
					case "lose":
						lose = c.Choose(len(all) + 1)
						fetchNow(me, fmt.Sprintf("fetch %d (an answer gets lost)", i), false)
						lose = -1
					case "reconnect":
						w.disconnect(me)
						vrt.Sleep(time.Duration(c.Choose(2)) * 30 * ms)
						c.Assert(w.connect(me), "connecting again failed")
					}
					fetchNow(me, fmt.Sprintf("fetch %d", i+1), true)
				}
			})
			w.s.DevUntil = 300 * ms
			w.run(1200 * ms)
			for _, e := range w.ears {
				c.Assert(len(e.calls) == 1, "%s: the listener was called %d times", e.name, len(e.calls))
			}
			w.quiet()
			c.StateString(w.history())
		}})
	l = append(l, &engine.Scenario{Name: "again from the callback", Bound: t.Pick(1, 2),
		What: "trees of up to 2 elements x 4 reply styles; when the listener hears of the fetched tree, an element is added anywhere and the tree is fetched again, from the call itself or from the waiting thread: the second fetch ends once and is complete",
		Run: func(c *engine.C) {
			w := newWorld(c)
			list := shapes(2)
			tree := provider(list[c.Choose(len(list))], c.Choose(2))
			st := []style{byNumber, byPath, kidsByPath, childFirst}[c.Choose(4)]
			full := c.Bool()
			w.client.SetTimeout(50 * c.Choose(2))
			w.onRequest = func(p *peer, path []int32) {
				p.reply(answer(tree, path, st, full), 1000, false)
			}
			all := everyOf(tree)
			x := checks.Small([]ref.Kind{ref.Node, ref.Param}[c.Choose(2)], 40, 2)
			x.Props[0] = ref.Val{K: ref.VString, S: "new"}
			k := c.Choose(len(all) + 1)
			inside := c.Bool()
			first, second := w.ear("first"), w.ear("second")
			first.look, second.look = true, true
			want := []string{checks.Want(tree), ""}
			again := func(me string) {
				if len(first.calls) > 1 {
					return
				}
				if k == len(all) {
					tree = append(tree, x)
				} else {
					all[k].Children = append(all[k].Children, x)
				}
				want[1] = checks.Want(tree)
				o := w.getTree(me, second)
				c.Assert(o.err == "", "request refused: %s", o.err)
			}
			if inside {
				first.on = func(call) { again("callback") }
			}
			w.user("user0", func(me string) {
				w.connect(me)
				o := w.getTree(me, first)
				c.Assert(o.err == "", "request refused: %s", o.err)
				if !inside {
					vrt.Wait("the tree", func() bool { return len(first.calls) > 0 })
					w.takeOver()
					again(me)
				}
			})
			w.s.DevUntil = 60 * ms
			w.run(400 * ms)
			for i, e := range []*ear{first, second} {
				c.Assert(len(e.calls) == 1, "%s: the listener was called %d times", e.name, len(e.calls))
				if e.calls[0].err != "" && w.late+w.s.Held > 0 {
					continue
				}
				c.Assert(e.calls[0].err == "", "%s: error %q although every request was answered", e.name, e.calls[0].err)
				c.Assert(w.blind || e.calls[0].tree == want[i], "%s: the tree is\n%s\ninstead of\n%s", e.name, e.calls[0].tree, want[i])
			}
			w.quiet()
			c.StateString(w.history())
		}})
	l = append(l, &engine.Scenario{Name: "long run", Bound: 0,
		What: "60 fetches in a row of a tree that grows at a changing place in between, on one connection or with a reconnection before every fetch, some answers missing or not, in 4 reply styles",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			w.s.MaxSteps = 100000000
			st := []style{byNumber, byPath, kidsByPath, childFirst}[c.Choose(4)]
			full := c.Bool()
			again := c.Bool()
			lossy := c.Bool()
			tree := provider(shape{{nil}}, 0)
			w.client.SetTimeout(60)
			k, lost := 0, 0
			w.onRequest = func(p *peer, path []int32) {
				l := answer(tree, path, st, full)
				c.Assert(l != nil || len(path) == 0, "the directory of %v was requested, which does not exist", path)
				if k++; lossy && k%9 == 0 {
					lost++
					return
				}
				p.reply(l, 1000, false)
			}
			const rounds = 60
			w.user("user", func(me string) {
				w.connect(me)
				for i := 1; i <= rounds; i++ {
					lost = 0
					e := w.ear(fmt.Sprint("fetch ", i))
					e.look = true
					o := w.getTree(me, e)
					c.Assert(o.err == "", "fetch %d refused: %s", i, o.err)
					vrt.Wait("the tree", func() bool { return len(e.calls) > 0 })
					w.takeOver()
					vrt.Sleep(70 * ms)
					c.Assert(len(e.calls) == 1, "fetch %d: called %d times", i, len(e.calls))
					c.Assert((e.calls[0].err != "") == (lost > 0), "fetch %d: error %q with %d answers missing", i, e.calls[0].err, lost)
					if lost == 0 {
						want := checks.Want(tree)
						c.Assert(e.calls[0].tree == want, "fetch %d: the tree is\n%s\ninstead of\n%s", i, e.calls[0].tree, want)
					}
					x := checks.Small(ref.Node, int32(100+i), 2)
					all := everyOf(tree)
					at := all[(i*7)%len(all)]
					at.Children = append(at.Children, x)
					if again {
						w.disconnect(me)
						c.Assert(w.connect(me), "connect")
					}
				}
			})
			w.run(rounds * 1500 * ms)
			w.quiet()
			c.StateString(fmt.Sprint(st, again, k))
		}})
	wideShape := func(n, below int) shape {
		var s shape
		for i := 0; i < n; i++ {
			s = append(s, make(shape, below))
		}
		return s
	}
	deep := func(n int) shape {
		var s shape
		for i := 0; i < n; i++ {
			s = shape{s}
		}
		return s
	}
	big := []shape{wideShape(17, 0), wideShape(40, 0), {wideShape(300, 0)}, wideShape(300, 0), wideShape(20, 20), deep(40), {wideShape(17, 1), wideShape(33, 0)}}
	l = append(l, &engine.Scenario{Name: "big trees", Bound: 0,
		What: "wide (up to 300 siblings, 20 x 20) and deep (40 levels) trees in all reply styles, with and without a timeout",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.MaxSteps = 10000000
			w.s.DevFrom = false
			s := big[c.Choose(len(big))]
			f := &fetch{tree: provider(s, 0), style: pickStyle(c), full: c.Bool(), size: 1000, getters: 1, horizon: 5 * time.Second, devs: 1 * ms, timeout: 200 * c.Choose(2)}
			f.run(w)
		}})
	l = append(l, &engine.Scenario{Name: "falling silent", Bound: 0,
		What: "the same big trees; the peer answers the first 0 to 310 requests and then no more: the listener is called once, with an error, however many requests were waiting",
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.MaxSteps = 10000000
			w.s.DevFrom = false
			s := big[c.Choose(len(big))]
			answers := []int{0, 1, 2, 3, 15, 16, 17, 18, 19, 33, 100, 310}[c.Choose(12)]
			f := &fetch{tree: provider(s, 0), style: pickStyle(c), full: c.Bool(), size: 1000, getters: 1, horizon: 30 * time.Second, devs: 1 * ms, timeout: []int{200, 600}[c.Choose(2)], silent: answers + 1}
			f.run(w)
		}})
	// several requests of a fetch time out, or are answered, at the same time
	l = append(l, &engine.Scenario{Name: "at the same time", Bound: t.Pick(1, 2),
		What: fmt.Sprintf("trees of one to %d elements below the root or below one element, of which each is answered at once, just when its timeout ends, or never; deviations (also at any statement) while the timeouts end: the listener is called once, and with an error if an answer is missing", t.Pick(2, 3)),
		Run: func(c *engine.C) {
			w := newWorld(c)
			w.s.DevFrom = false
			w.s.Fine = c.Bool()
			s := wideShape(1+c.Choose(t.Pick(2, 3)), 0)
			depth := 1
			if c.Bool() {
				s, depth = shape{s}, 2
			}
			tree := provider(s, 0)
			const timeout = 25 * ms
			w.client.SetTimeout(25)
			e := w.ear("listener")
			missing, late := 0, 0
			var ends time.Duration
			w.onRequest = func(p *peer, path []int32) {
				l := answer(tree, path, byPath, false)
				if len(path) < depth {
					p.reply(l, 1000, false)
					if len(path) == depth-1 { // now the timers of the leaves start
						ends = w.s.Now() + timeout
						w.s.At(ends-1*ms, func() { w.s.DevFrom, w.s.DevUntil = true, w.s.Now()+5*ms })
					}
					return
				}
				switch c.Choose(3) {
				case 0:
					p.reply(l, 1000, false)
				case 1:
					late++
					w.s.At(ends, func() { p.conn.Deliver(ref.Message(ref.RootTLV(l).Bytes(), 1000)) })
				default:
					missing++
				}
			}
			w.user("user0", func(me string) {
				w.connect(me)
				o := w.getTree(me, e)
				c.Assert(o.err == "", "request refused: %s", o.err)
			})
			w.run(120 * ms)
			c.Assert(len(e.calls) == 1, "the listener was called %d times", len(e.calls))
			if missing > 0 {
				c.Assert(e.calls[0].err != "", "no error although %d answers are missing", missing)
			} else if late == 0 {
				c.Assert(e.calls[0].err == "", "error %q although every request was answered", e.calls[0].err)
			}
			w.quiet()
			c.StateString(fmt.Sprint(missing, late, len(e.calls), e.calls[0].err))
		}})
	return l
}
