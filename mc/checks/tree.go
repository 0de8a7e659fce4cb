package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"

	"verifmc/engine"
	"verifmc/ref"
)

// ---- C11 ----

// numberBorders are element numbers where narrower integers would fall short.
var numberBorders = []int32{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<24 - 1, 1 << 24, 1 << 28, math.MaxInt32}

// forest is the model: parents by index; -1 is the tree, -2 nowhere.
type forest struct {
	els    []*embertree.Element
	nums   []int32
	parent []int
}

func (f *forest) path(i int) []int32 {
	if f.parent[i] < 0 {
		return []int32{f.nums[i]}
	}
	return append(f.path(f.parent[i]), f.nums[i])
}

func (f *forest) inTree(i int) bool {
	for f.parent[i] >= 0 {
		i = f.parent[i]
	}
	return f.parent[i] == -1
}

func (f *forest) child(p int, n int32) int {
	for i := range f.els {
		if f.parent[i] == p && f.nums[i] == n {
			return i
		}
	}
	return -1
}

// at finds what stands at a path in the tree, or -1.
func (f *forest) at(path []int32) int {
	p := -1
	for _, n := range path {
		if p = f.child(p, n); p < 0 {
			return -1
		}
	}
	return p
}

// askPaths queries the path of every element and scribbles over the answers.
func (f *forest) askPaths(c *engine.C) {
	for i, el := range f.els {
		got := el.GetPath()
		c.Step()
		same(c, ref.OIDString(got), ref.OIDString(f.path(i)), "path of element %d", i)
		_ = append(got, 77, 78)
		for k := range got {
			got[k] = -5
		}
	}
}

func (f *forest) lookups(c *engine.C, tree *embertree.RootElement, numbers []int32, depth int) {
	var walk func(path []int32)
	walk = func(path []int32) {
		if len(path) > 0 {
			q := asPath(path)
			parent, el := tree.GetElementByPath(q)
			c.Step()
			same(c, ref.OIDString(q), ref.OIDString(path), "the path asked for")
			i := f.at(path)
			up := -1
			if len(path) > 1 {
				up = f.at(path[:len(path)-1])
			}
			if i >= 0 {
				c.Assert(el == f.els[i], "looking up %v does not return the element there", path)
				if len(path) > 1 {
					c.Assert(parent == f.els[up], "looking up %v returns another parent", path)
				} else {
					c.Assert(parent == nil, "looking up %v returns a parent", path)
				}
			} else {
				c.Assert(el == nil, "looking up %v returns an element", path)
				c.Assert(parent == nil || up >= 0 && parent == f.els[up], "looking up the unknown %v returns a parent that is elsewhere", path)
			}
			if len(path) == 1 {
				c.Assert(tree.GetElementByNumber(int(path[0])) == el, "GetElementByNumber(%d)", path[0])
			}
		}
		if len(path) == depth {
			return
		}
		for _, n := range numbers {
			walk(append(path[:len(path):len(path)], n))
		}
	}
	walk(nil)
	p, e := tree.GetElementByPath(nil)
	c.Assert(p == nil && e == nil, "looking up no path returns something")
}

func init() {
	engine.Register("C11", []string{"Sibling elements have different numbers; an element is added to one parent only."}, func(t engine.Tier) []*engine.Scenario {
		mk := func(i int, n int32) *embertree.Element {
			return bare(&ref.Elem{Kind: elemKinds[i%4], Number: n})
		}
		numbers := []int32{0, 200}
		assemble := func(n, alphabet int) func(c *engine.C) {
			return func(c *engine.C) {
				f := &forest{}
				tree := embertree.NewTree()
				if alphabet == 1 {
					tree = embertree.NewRoot()
				}
				for i := 0; i < n; i++ {
					num := int32(i)
					if alphabet > 1 {
						num = numbers[c.Choose(alphabet)]
					}
					f.nums = append(f.nums, num)
					f.els = append(f.els, mk(i, num))
					f.parent = append(f.parent, -2)
				}
				for left := n; left > 0; left-- {
					k := c.Choose(left)
					i := 0
					for ; ; i++ {
						if f.parent[i] == -2 {
							if k == 0 {
								break
							}
							k--
						}
					}
					var options []int
					for p := -1; p < n; p++ {
						if p == i || f.child(p, f.nums[i]) >= 0 {
							continue
						}
						cycle := false
						for q := p; q >= 0; q = f.parent[q] {
							cycle = cycle || q == i
						}
						if !cycle {
							options = append(options, p)
						}
					}
					if len(options) == 0 {
						break
					}
					p := choose(c, options)
					if p < 0 {
						tree.AddElement(f.els[i])
					} else {
						ok(c, f.els[p].AddChild(f.els[i]), "AddChild")
					}
					f.parent[i] = p
					c.Logf("element %d (number %d) below %d", i, f.nums[i], p)
					if left > 1 && c.Bool() {
						c.Logf("paths asked")
						f.askPaths(c)
					}
				}
				f.askPaths(c)
				if alphabet > 1 {
					f.lookups(c, tree, append([]int32{7}, numbers...), t.Pick(n, n+1))
				} else {
					f.lookups(c, tree, []int32{0, 1, 2, 3, 4, 5}, 4)
				}
				f.askPaths(c)
				for i, el := range f.els {
					p, err := el.GetParent()
					ok(c, err, "GetParent")
					if f.parent[i] >= 0 {
						c.Assert(p == f.els[f.parent[i]], "parent of element %d", i)
					} else {
						c.Assert(p == nil, "element %d has a parent", i)
					}
				}
				c.StateString(fmt.Sprint(f.nums, f.parent))
			}
		}
		deep := t.Pick(4, 5)
		return []*engine.Scenario{
			{Name: "assemble", What: fmt.Sprintf("every way of assembling %d elements (all kinds, numbers that repeat in different places) into trees, in every order, paths asked or not after each step; then every lookup of up to %d numbers", deep, t.Pick(deep, deep+1)), Run: assemble(deep, 2)},
			{Name: "assemble-distinct", What: "every way of assembling 4 elements of different numbers, in every order, paths asked or not after each step; then every lookup of up to 4 numbers", Run: assemble(4, 1)},
			{Name: "by-path", What: "chains and fans of up to 5 elements below each other, each made by number or by its full path, added by AddChild, received in one nested message or received one by one", Run: func(c *engine.C) {
				n := 5
				f := &forest{}
				tree := embertree.NewTree()
				for i := 0; i < n; i++ {
					p := -1
					if i > 0 {
						p = c.Choose(i)
					}
					f.parent = append(f.parent, p)
					f.nums = append(f.nums, int32(i*130))
					e := &ref.Elem{Kind: elemKinds[i%4], Number: f.nums[i]}
					byPath := c.Bool()
					if byPath {
						e.Path = f.path(i)
					}
					if i > 0 && byPath && c.Bool() {
						ok(c, tree.Decode(reader(ref.RootTLV([]*ref.Elem{e}).Bytes())), "message")
						el := f.els[p].Children[int(f.nums[i])]
						c.Assert(el != nil, "element %v not in the tree", e.Path)
						f.els = append(f.els, el)
						continue
					}
					el := bare(e)
					f.els = append(f.els, el)
					if p < 0 {
						tree.AddElement(el)
					} else {
						ok(c, f.els[p].AddChild(el), "AddChild")
					}
				}
				f.askPaths(c)
				f.lookups(c, tree, []int32{0, 130, 260, 390, 520, 1}, 3)
				for i := range f.els {
					path := f.path(i)
					parent, el := tree.GetElementByPath(path)
					c.Assert(el == f.els[i], "looking up %v", path)
					c.Assert(f.parent[i] < 0 && parent == nil || f.parent[i] >= 0 && parent == f.els[f.parent[i]], "parent found looking up %v", path)
					parent, el = tree.GetElementByPath(append(path, 9))
					c.Assert(el == nil, "looking up %v.9", path)
					c.Assert(parent == nil || parent == f.els[i], "parent found looking up %v.9", path)
					parent, el = tree.GetElementByPath(append(path, 9, 9))
					c.Assert(el == nil && parent == nil, "looking up %v.9.9", path)
				}
				f.askPaths(c)
				c.StateString(fmt.Sprint(f.nums, f.parent))
			}},
			{Name: "numbers", What: fmt.Sprintf("chains of three elements of every combination of numbers out of %d around the powers of two, with a sibling on each level, assembled or received in four ways; every lookup with a number replaced", len(numberBorders)), Run: func(c *engine.C) {
				chain := []int32{choose(c, numberBorders), choose(c, numberBorders), choose(c, numberBorders)}
				f := &forest{}
				for i, n := range chain {
					// the element and its sibling
					p := 2*i - 2
					if i == 0 {
						p = -1
					}
					other := numberBorders[(int(n)+i)%len(numberBorders)]
					if other == n {
						other = 3
					}
					f.parent = append(f.parent, p, p)
					f.nums = append(f.nums, n, other)
				}
				tree := embertree.NewTree()
				way := c.Choose(4)
				if way == 3 {
					var top []*ref.Elem
					var els []*ref.Elem
					for i := range f.nums {
						e := &ref.Elem{Kind: ref.Node, Number: f.nums[i]}
						els = append(els, e)
						if p := f.parent[i]; p < 0 {
							top = append(top, e)
						} else {
							els[p].HasKids, els[p].Children = true, append(els[p].Children, e)
						}
					}
					ok(c, tree.Decode(reader(ref.RootTLV(top).Bytes())), "message")
				}
				for i := range f.nums {
					e := &ref.Elem{Kind: ref.Node, Number: f.nums[i]}
					if way == 1 {
						e.Path = f.path(i)
					}
					p := f.parent[i]
					if way < 2 {
						el := bare(e)
						f.els = append(f.els, el)
						if p < 0 {
							tree.AddElement(el)
						} else {
							ok(c, f.els[p].AddChild(el), "AddChild")
						}
						continue
					}
					if way == 2 {
						e.Path = f.path(i)
						ok(c, tree.Decode(reader(ref.RootTLV([]*ref.Elem{e}).Bytes())), "message")
					}
					if p < 0 {
						f.els = append(f.els, tree.GetElementByNumber(int(f.nums[i])))
					} else {
						f.els = append(f.els, f.els[p].Children[int(f.nums[i])])
					}
					c.Assert(f.els[i] != nil, "element %v is not in the tree", f.path(i))
				}
				f.askPaths(c)
				ask := func(path []int32) {
					i := f.at(path)
					_, el := tree.GetElementByPath(asPath(path))
					c.Step()
					if i >= 0 {
						c.Assert(el == f.els[i], "looking up %v does not return the element there", path)
					} else {
						c.Assert(el == nil, "looking up %v returns an element", path)
					}
				}
				for d := 1; d <= 3; d++ {
					for at := 0; at < d; at++ {
						for _, n := range numberBorders {
							path := append([]int32{}, chain[:d]...)
							path[at] = n
							ask(path)
						}
					}
					ask(f.path(2*d - 1))
				}
				c.StateString(fmt.Sprint(f.nums, way))
			}},
			{Name: "fan", N: 2, What: "all these numbers side by side on two levels, assembled or received; every lookup of up to three numbers", At: func(c *engine.C, i uint64) {
				f := &forest{}
				tree := embertree.NewTree()
				put := func(p int, n int32) {
					f.parent, f.nums = append(f.parent, p), append(f.nums, n)
					k := len(f.nums) - 1
					if i == 1 {
						e := &ref.Elem{Kind: ref.Node, Number: n, Path: f.path(k)}
						ok(c, tree.Decode(reader(ref.RootTLV([]*ref.Elem{e}).Bytes())), "message")
						_, el := tree.GetElementByPath(f.path(k))
						f.els = append(f.els, el)
						return
					}
					el := mk(0, n)
					f.els = append(f.els, el)
					if p < 0 {
						tree.AddElement(el)
					} else {
						ok(c, f.els[p].AddChild(el), "AddChild")
					}
				}
				for _, n := range numberBorders {
					put(-1, n)
				}
				for p := range numberBorders {
					for _, n := range numberBorders {
						put(p, n)
					}
				}
				f.askPaths(c)
				f.lookups(c, tree, append([]int32{5}, numberBorders...), 3)
				c.State(i)
			}},
			{Name: "deep", N: 6, What: "chains of up to 2000 elements", At: func(c *engine.C, i uint64) {
				n := []int{2, 10, 100, 127, 500, 2000}[i]
				tree := embertree.NewTree()
				var els []*embertree.Element
				var want []int32
				for k := 0; k < n; k++ {
					el := mk(0, int32(k%300))
					if k == 0 {
						tree.AddElement(el)
					} else {
						ok(c, els[k-1].AddChild(el), "AddChild")
					}
					els = append(els, el)
					want = append(want, int32(k%300))
				}
				for k := range els {
					if k%97 == 0 || k == n-1 {
						same(c, ref.OIDString(els[k].GetPath()), ref.OIDString(want[:k+1]), "path")
						p, e := tree.GetElementByPath(want[:k+1])
						c.Assert(e == els[k] && (k == 0 || p == els[k-1]), "lookup at depth %d", k)
						c.Step()
					}
				}
				c.State(i)
			}},
		}
	})
}

// ---- messages about a small tree ----

// place is a position of the example tree.
type place struct {
	path []int32
	kind ref.Kind
}

var places = []place{
	{[]int32{1}, ref.Node},
	{[]int32{1, 1}, ref.Node},
	{[]int32{1, 1, 200}, ref.Param},
	{[]int32{1, 2}, ref.Matrix},
	{[]int32{0}, ref.Func},
	{[]int32{1, 1, 0}, ref.Func},
	{[]int32{0, 3}, ref.Param},
}

func placeKind(path []int32) ref.Kind {
	for _, p := range places {
		if ref.OIDString(p.path) == ref.OIDString(path) {
			return p.kind
		}
	}
	return ref.Node
}

// say states something about a place. mode 0 states nothing but its existence.
func say(p place, mode int) *ref.Elem {
	e := &ref.Elem{Kind: p.kind, Number: p.path[len(p.path)-1], Props: map[int]ref.Val{}}
	if mode == 0 {
		return e
	}
	e.Contents = mode < 4
	switch mode {
	case 1:
		e.Props[0] = sv("one")
		switch p.kind {
		case ref.Node:
			e.Props[2] = bv(true)
			e.Template = []int32{4, 4}
		case ref.Param:
			e.Props[2], e.Props[9], e.Props[17] = iv(5), bv(true), sv("schema")
			e.Template = []int32{5, 5}
		case ref.Func:
			e.HasArgs, e.Args = true, []ref.Tuple{{Type: 1, Name: "x"}}
			e.HasResults, e.Results = true, []ref.Tuple{{Type: 2, Name: "y"}, {Type: 3, Name: "z"}}
		case ref.Matrix:
			e.Props[2], e.Props[4] = iv(2), iv(4)
			e.HasLabels, e.Labels = true, []ref.Label{{Path: []int32{9}, Text: "l"}}
			e.HasTargets, e.Targets = true, []int32{0, 1}
			e.HasSources, e.Sources = true, []int32{5}
			e.HasConns, e.Conns = true, []ref.Conn{{Target: 0, Sources: []int32{5}, Op: 0, Disp: 0}}
		}
	case 2:
		e.Props[1] = sv("two")
		switch p.kind {
		case ref.Node:
			e.Props[0], e.Props[2], e.Props[3], e.Props[4] = sv(""), bv(false), bv(false), sv("s")
		case ref.Param:
			e.Props[2], e.Props[3], e.Props[4], e.Props[12] = rv(0.5), iv(0), iv(9), ov("\x00")
		case ref.Func:
			e.HasArgs, e.Args = true, []ref.Tuple{}
			e.Template = []int32{6}
		case ref.Matrix:
			e.Props[0], e.Props[3], e.Props[5], e.Props[8], e.Props[11] = sv("m2"), iv(1), iv(7), pv(1, 1), sv("s")
			e.Template = []int32{7, 7}
			e.HasTargets, e.Targets = true, []int32{3}
			e.HasConns, e.Conns = true, []ref.Conn{{Target: 2, Sources: []int32{1, 2}, Op: 1, Disp: 2}, {Target: 0, Sources: nil, NoSources: true, Op: 2, Disp: 1}}
		}
	case 3: // empty contents
	case 4: // no contents
		switch p.kind {
		case ref.Matrix:
			e.HasConns, e.Conns = true, []ref.Conn{{Target: 1, Sources: []int32{7}, Op: 1, Disp: 3}}
			e.HasSources, e.Sources = true, []int32{}
		}
	}
	return e
}

// wrap nests e below bare ancestors, or with contents in them.
func wrap(p place, e *ref.Elem, mode int) *ref.Elem {
	for i := len(p.path) - 1; i > 0; i-- {
		up := place{p.path[:i], placeKind(p.path[:i])}
		a := say(up, mode)
		a.Children = []*ref.Elem{e}
		e = a
	}
	return e
}

// byPath addresses e by its full path.
func byPath(p place, e *ref.Elem) *ref.Elem {
	s := *e
	s.Path = p.path
	return &s
}

type message struct {
	name  string
	elems []*ref.Elem
	b     []byte
}

func msg(name string, l ...*ref.Elem) message { return message{name, l, ref.RootTLV(l).Bytes()} }

// alphabet is the set of messages about the example tree.
func alphabet() []message {
	var l []message
	for i, p := range places {
		for mode := 0; mode < 5; mode++ {
			if mode == 4 && p.kind != ref.Matrix {
				continue
			}
			name := fmt.Sprintf("%s/%d", ref.OIDString(p.path), mode)
			l = append(l, msg(name+" nested", wrap(p, say(p, mode), 0)), msg(name+" by path", byPath(p, say(p, mode))))
		}
		_ = i
	}
	full := func() *ref.Elem {
		top := say(places[0], 1)
		n := say(places[1], 2)
		n.Children = []*ref.Elem{say(places[5], 1), say(places[2], 1)}
		top.Children = []*ref.Elem{n, say(places[3], 1)}
		return top
	}
	f := full()
	l = append(l, msg("everything nested", f, say(places[4], 1)))
	l = append(l, msg("two children by path", byPath(places[2], say(places[2], 1)), byPath(places[5], say(places[5], 2))))
	l = append(l, msg("children before parents by path", byPath(places[2], say(places[2], 2)), byPath(places[1], say(places[1], 1)), byPath(places[0], say(places[0], 0))))
	l = append(l, msg("parents before children by path", byPath(places[0], say(places[0], 2)), byPath(places[1], say(places[1], 1)), byPath(places[2], say(places[2], 1)), byPath(places[3], say(places[3], 4))))
	n := byPath(places[1], say(places[1], 0))
	n.Children = []*ref.Elem{say(places[2], 2), say(places[5], 3)}
	l = append(l, msg("children below a path", n))
	l = append(l, msg("ancestors with contents", wrap(places[2], say(places[2], 1), 2)))
	l = append(l, msg("nothing", []*ref.Elem{}...))
	l = append(l, msg("the same twice", say(places[0], 1), say(places[0], 2)))
	l = append(l, msg("the same twice by path", byPath(places[2], say(places[2], 1)), byPath(places[2], say(places[2], 2))))
	l = append(l, msg("mixed", wrap(places[2], say(places[2], 2), 0), byPath(places[1], say(places[1], 1)), byPath(places[6], say(places[6], 1))))
	far := place{[]int32{1, 9, 9}, ref.Param}
	l = append(l, msg("unknown parent", byPath(far, say(far, 1))))
	far2 := place{[]int32{8, 1}, ref.Node}
	l = append(l, msg("unknown top", byPath(far2, say(far2, 2)), say(places[4], 2)))
	return l
}

// ---- the model of the tree ----

func findKid(l []*ref.Elem, n int32) *ref.Elem {
	for _, k := range l {
		if k.Num() == n {
			return k
		}
	}
	return nil
}

func cloneElem(e *ref.Elem) *ref.Elem {
	s := *e
	s.Number, s.Path = e.Num(), nil
	s.Props = map[int]ref.Val{}
	for ctx, v := range e.Props {
		s.Props[ctx] = v
	}
	if !e.Contents {
		s.Props = map[int]ref.Val{}
	}
	s.Conns = append([]ref.Conn{}, e.Conns...)
	s.Children = nil
	for _, k := range e.Children {
		s.Children = append(s.Children, cloneElem(k))
	}
	return &s
}

func mergeElem(old, upd *ref.Elem) {
	if upd.Contents {
		old.Contents = true
		for ctx, v := range upd.Props {
			old.Props[ctx] = v
		}
		if upd.HasArgs {
			old.HasArgs, old.Args = true, upd.Args
		}
		if upd.HasResults {
			old.HasResults, old.Results = true, upd.Results
		}
		if upd.HasLabels {
			old.HasLabels, old.Labels = true, upd.Labels
		}
		if upd.Template != nil {
			old.Template = upd.Template
		}
		if upd.Kind == ref.Cmd {
			old.Flags = upd.Flags
		}
	}
	if upd.HasTargets {
		old.HasTargets, old.Targets = true, upd.Targets
	}
	if upd.HasSources {
		old.HasSources, old.Sources = true, upd.Sources
	}
	for _, x := range upd.Conns {
		found := false
		for i := range old.Conns {
			if old.Conns[i].Target == x.Target {
				old.Conns[i], found = x, true
				break
			}
		}
		if !found {
			old.Conns = append(old.Conns, x)
		}
	}
	for _, k := range upd.Children {
		if o := findKid(old.Children, k.Num()); o != nil {
			mergeElem(o, k)
		} else {
			old.Children = append(old.Children, cloneElem(k))
		}
	}
}

// applyModel applies a message to the model; told counts descriptions per
// path of what listeners are to hear.
func applyModel(tree []*ref.Elem, m message, told map[string]int) []*ref.Elem {
	hear := func(path []int32) {
		if told != nil {
			told[ref.OIDString(path)]++
		}
	}
	var branch func(path []int32, e *ref.Elem)
	branch = func(path []int32, e *ref.Elem) {
		hear(path)
		for _, k := range e.Children {
			branch(append(path[:len(path):len(path)], k.Num()), k)
		}
	}
	for _, e := range m.elems {
		path := []int32{e.Num()}
		if e.Path != nil {
			path = e.Path
		}
		list := &tree
		known := true
		for _, n := range path[:len(path)-1] {
			k := findKid(*list, n)
			if k == nil {
				known = false
				break
			}
			list = &k.Children
		}
		if !known {
			continue
		}
		if o := findKid(*list, e.Num()); o != nil {
			mergeElem(o, e)
		} else {
			*list = append(*list, cloneElem(e))
		}
		if len(path) > 1 {
			hear(path[:len(path)-1])
		}
		branch(path, e)
	}
	return tree
}

func treeText(l []*ref.Elem, only func(e *ref.Elem) *ref.Elem) string {
	var kids []*ref.Elem
	for _, e := range l {
		kids = append(kids, only(byNumber(e)))
	}
	return ref.KidsText(kids)
}

// observeTree describes the tree by accessors, stateTree by its encoding.
func observeTree(c *engine.C, tree *embertree.RootElement) []*ref.Elem {
	var l []*ref.Elem
	for n, el := range tree.RootElementCollection {
		c.Assert(n == el.Number, "element %d filed under %d", el.Number, n)
		p, err := el.GetParent()
		ok(c, err, "GetParent")
		c.Assert(p == nil, "top-level element %d has a parent", n)
		l = append(l, observe(c, el))
	}
	return l
}

func stateTree(c *engine.C, tree *embertree.RootElement) []*ref.Elem {
	var l []*ref.Elem
	for _, el := range tree.RootElementCollection {
		l = append(l, statedAll(c, el))
	}
	return l
}

func asIs(e *ref.Elem) *ref.Elem { return e }

func checkTree(c *engine.C, tree *embertree.RootElement, model []*ref.Elem, full bool) {
	want := treeText(model, visible)
	same(c, treeText(observeTree(c, tree), asIs), want, "the tree by its accessors")
	if full {
		same(c, treeText(stateTree(c, tree), asIs), treeText(model, asIs), "the tree by its encoding")
	}
	c.StateString(want)
}

// ---- C12 ----

func init() {
	engine.Register("C12", []string{"Every position keeps its element kind; a message is applied as a whole by a tree that holds the results of the previous ones."}, func(t engine.Tier) []*engine.Scenario {
		all := alphabet()
		run := func(depth int, list []message, full bool) func(c *engine.C) {
			return func(c *engine.C) {
				tree := embertree.NewTree()
				var model []*ref.Elem
				for i := 0; i < depth; i++ {
					m := choose(c, list)
					ok(c, tree.Decode(reader(m.b)), "applying %s", m.name)
					model = applyModel(model, m, nil)
					c.Step()
					if c.Tracing() {
						c.Logf("%s -> %s", m.name, treeText(model, asIs))
					}
					checkTree(c, tree, model, full || i == depth-1)
				}
			}
		}
		sub := func(prefixes ...string) []message {
			var l []message
			for _, m := range all {
				for _, p := range prefixes {
					if strings.HasPrefix(m.name, p) {
						l = append(l, m)
						break
					}
				}
			}
			return l
		}
		l := []*engine.Scenario{
			{Name: "any-3", What: fmt.Sprintf("every sequence of 3 messages out of %d about a tree of seven places (nested, by path, several elements at once, unknown parents)", len(all)), Run: run(3, all, false)},
			{Name: "node-param", What: "every sequence of messages about one branch, in both addressing styles", Run: run(t.Pick(4, 5), sub("1/1", "1/2 by", "1.1/1", "1.1/2 by", "1.1.200/", "unknown parent"), false)},
			{Name: "matrix", What: "every sequence of messages about a matrix and its parent, in both addressing styles", Run: run(t.Pick(4, 5), sub("1/1 nested", "1.2/", "parents before"), false)},
			{Name: "function", What: "every sequence of messages about a function and its parameter, in both addressing styles", Run: run(t.Pick(5, 6), sub("0/", "0.3/1", "0.3/2"), false)},
		}
		if t.Thorough {
			l = append(l, &engine.Scenario{Name: "any-4", What: "every sequence of 4 messages out of all", Run: run(4, all, false)})
		}
		l = append(l, &engine.Scenario{Name: "long", N: 12, What: "histories of 1000 messages of the alphabet in twelve orders applied to one tree, also with keep-all listeners; checked after each of the first 300 and every tenth message", At: func(c *engine.C, i uint64) {
			tree := embertree.NewTree()
			var model []*ref.Elem
			stride := []int{1, 2, 3, 5, 7, 11}[i%6]
			for stride > 1 && len(all)%stride == 0 {
				stride += 2
			}
			if i >= 6 {
				tree.AddListener(&spy{})
			}
			for k := 0; k < 1000; k++ {
				m := all[(k*stride+int(i)*13+k/len(all)*int(i%5))%len(all)]
				ok(c, tree.Decode(reader(m.b)), "applying message %d, %s", k, m.name)
				model = applyModel(model, m, nil)
				c.Step()
				if k < 300 || k%10 == 0 || k >= 990 {
					checkTree(c, tree, model, k%50 == 0)
				}
			}
		}})
		l = append(l, &engine.Scenario{Name: "property-updates", What: "every property of every kind, announced with each of two values or not at all in a first and in a second message, alone or with another property, in both addressing styles", Run: func(c *engine.C) {
			k := choose(c, elemKinds)
			ctxList := ctxs(k)
			i := c.Choose(len(ctxList) + nExtras(k))
			j := (i + 1) % (len(ctxList) + nExtras(k))
			if t.Thorough {
				j = c.Choose(len(ctxList) + nExtras(k))
			}
			put := func(e *ref.Elem, i, variant int) {
				switch {
				case i >= len(ctxList):
					addExtra(e, i-len(ctxList))
					if variant == 1 { // another value
						switch {
						case i == len(ctxList):
							e.Template = []int32{9}
						case e.HasArgs && len(e.Args) > 0:
							e.Args = []ref.Tuple{}
						case e.HasResults && len(e.Results) > 0:
							e.Results = sampleTuples[:1]
						case e.HasLabels && len(e.Labels) > 0:
							e.Labels = []ref.Label{{Path: []int32{1}, Text: "other"}}
						}
					}
				default:
					e.Props[ctxList[i]] = propSample(k, ctxList[i], variant)
				}
			}
			tree := embertree.NewTree()
			var model []*ref.Elem
			n := 2 + c.Choose(2)
			for step := 0; step < n; step++ {
				e := &ref.Elem{Kind: k, Number: 5, Props: map[int]ref.Val{}}
				e.Contents = c.Bool()
				if e.Contents {
					if v := c.Choose(3); v < 2 {
						put(e, i, v)
					}
					if i != j && c.Bool() {
						put(e, j, step%2)
					}
				}
				if step > 0 && c.Bool() {
					e.Path = []int32{5}
				}
				m := msg("m", e)
				ok(c, tree.Decode(reader(m.b)), "message")
				model = applyModel(model, m, nil)
				c.Step()
				checkTree(c, tree, model, true)
			}
		}})
		l = append(l, &engine.Scenario{Name: "crosspoints", What: "sequences of three matrix messages, each stating any of several target, source and connection lists or none", Run: func(c *engine.C) {
			tree := embertree.NewTree()
			var model []*ref.Elem
			sig := [][]int32{{}, {0, 1, 2}, {2, 0}, {200}}
			con := [][]ref.Conn{
				{},
				{{Target: 1, Sources: []int32{1}, Op: 0, Disp: 0}},
				{{Target: 1, NoSources: true, Op: 0, Disp: 1}},
				{{Target: 2, Sources: []int32{1, 2}, Op: 1, Disp: 2}, {Target: 1, Sources: []int32{3}, Op: 2, Disp: 3}},
				{{Target: 0, Sources: []int32{9}}, {Target: 2, NoSources: true}, {Target: 3, Sources: []int32{8}, Disp: 1}},
				{{Target: 257, Sources: []int32{4}}, {Target: 65537, Sources: []int32{5, 70000}}, {Target: -1, NoSources: true}, {Target: 2147483647, Sources: []int32{2147483647}}},
			}
			for step := 0; step < 3; step++ {
				e := &ref.Elem{Kind: ref.Matrix, Number: 5, Props: map[int]ref.Val{}, Contents: step == 0}
				if i := c.Choose(t.Pick(3, 5)); i > 0 {
					e.HasTargets, e.Targets = true, sig[i-1]
				}
				if i := c.Choose(3); i > 0 {
					e.HasSources, e.Sources = true, sig[i]
				}
				if i := c.Choose(len(con) + 1); i > 0 {
					e.HasConns, e.Conns = true, con[i-1]
				}
				if step == 1 {
					e.Path = []int32{5}
				}
				m := msg("m", e)
				ok(c, tree.Decode(reader(m.b)), "message")
				model = applyModel(model, m, nil)
				c.Step()
				checkTree(c, tree, model, false)
			}
		}})
		l = append(l, &engine.Scenario{Name: "many-crosspoints", N: 5 * 4, What: "up to 3000 connections, targets and sources announced in one message or a few at a time, then all of them announced again with other values, partly new, forwards and backwards", At: func(c *engine.C, i uint64) {
			n := []int{100, 255, 257, 1000, 3000}[i/4]
			if i/4 == 4 && !t.Thorough {
				n = 1500
			}
			pieces, backwards := i&1 == 1, i&2 == 2
			tree := embertree.NewTree()
			var model []*ref.Elem
			for round := 0; round < 2; round++ {
				all := make([]ref.Conn, n)
				sig := make([]int32, n)
				for k := range all {
					j := k
					if backwards && round == 1 {
						j = n - 1 - k
					}
					target := j + round*(n/10)
					all[k] = ref.Conn{Target: int32(target), Sources: []int32{int32(j % 300), int32(round)}, Op: round, Disp: (j + round) % 4}
					sig[k] = int32(target)
				}
				step := n
				if pieces {
					step = (n + 6) / 7
				}
				for from := 0; from < n; from += step {
					to := from + step
					if to > n {
						to = n
					}
					e := &ref.Elem{Kind: ref.Matrix, Number: 5, Props: map[int]ref.Val{}, Contents: round == 0, HasConns: true, Conns: all[from:to]}
					if from == 0 {
						e.HasTargets, e.Targets, e.HasSources, e.Sources = true, sig, true, sig
					}
					if round == 1 {
						e.Path = []int32{5}
					}
					m := msg("m", e)
					ok(c, tree.Decode(reader(m.b)), "message")
					model = applyModel(model, m, nil)
					c.Step()
					checkTree(c, tree, model, false)
				}
			}
		}})
		l = append(l, &engine.Scenario{Name: "wide", N: 10, What: "300 to 5000 children announced in one message, one by one, backwards and twice, nested and by path", At: func(c *engine.C, i uint64) {
			tree := embertree.NewTree()
			var model []*ref.Elem
			apply := func(m message) {
				ok(c, tree.Decode(reader(m.b)), "message")
				model = applyModel(model, m, nil)
				c.Step()
			}
			apply(msg("parent", say(places[0], 1)))
			const n = 300
			var els []*ref.Elem
			for k := 0; k < n; k++ {
				num := k
				if i&1 != 0 {
					num = n - 1 - k
				}
				p := place{[]int32{1, int32(num)}, ref.Param}
				e := say(p, 1+k%2)
				if i&2 != 0 {
					e = byPath(p, e)
				} else {
					e = wrap(place{p.path, ref.Param}, e, 0)
				}
				els = append(els, e)
			}
			if i >= 8 {
				top := say(places[0], 1)
				for k := 0; k < []int{1500, 5000}[i-8]; k++ {
					top.Children = append(top.Children, say(place{[]int32{1, int32(k)}, ref.Param}, 1+k%2))
				}
				apply(msg("all in one", top))
				apply(msg("all in one", top))
			} else if i&4 != 0 {
				apply(msg("all", els...))
				apply(msg("all", els...))
			} else {
				for _, e := range els {
					apply(msg("one", e))
				}
			}
			checkTree(c, tree, model, true)
		}})
		l = append(l, directUpdates(t, false))
		far := func(tree *embertree.RootElement, model []*ref.Elem, c *engine.C, m message, full bool) []*ref.Elem {
			ok(c, tree.Decode(reader(m.b)), "applying %s", m.name)
			model = applyModel(model, m, nil)
			c.Step()
			checkTree(c, tree, model, full)
			return model
		}
		l = append(l, &engine.Scenario{Name: "branches", What: fmt.Sprintf("%d places in branches whose numbers repeat or differ by 256 and 65536, announced nested or by path, then every message about up to %d of them, by path or nested, or about new children of them", len(alikePlaces), t.Pick(2, 3)), Run: func(c *engine.C) {
			tree := embertree.NewTree()
			model := far(tree, nil, c, alikeBase(c.Bool()), false)
			far(tree, model, c, alikeMessage(c, t.Pick(2, 3)), false)
		}})
		l = append(l, &engine.Scenario{Name: "deep", What: "branches of 3 to 40 and of 130 nodes, then every sequence of two messages about places deep in them, known or new, by path or nested", Run: func(c *engine.C) {
			tree := embertree.NewTree()
			n := 3 + c.Choose(39)
			if n == 41 {
				n = 130
			}
			list := deepMessages(n)
			model := far(tree, nil, c, list[0], false)
			model = far(tree, model, c, choose(c, list[1:]), n < 20)
			far(tree, model, c, choose(c, list[1:]), false)
		}})
		l = append(l, &engine.Scenario{Name: "parents", N: 5, What: "children of 2 to 1000 elements in one message by path", At: func(c *engine.C, i uint64) {
			tree := embertree.NewTree()
			var model []*ref.Elem
			for _, m := range manyParents([]int{2, 50, 129, 300, 1000}[i]) {
				model = far(tree, model, c, m, false)
			}
		}})
		return l
	})
}

// ---- listeners ----

type spy struct {
	name  string
	calls []interface{}
	errs  int
	on    func(node interface{})
}

func (s *spy) Receive(node interface{}, err errors.Error) {
	s.calls = append(s.calls, node)
	if err != nil {
		s.errs++
	}
	if s.on != nil {
		s.on(node)
	}
}

func (s *spy) take() []interface{} {
	l := s.calls
	s.calls = nil
	return l
}

// everyElement lists the elements of a tree by path.
func everyElement(tree *embertree.RootElement) ([]string, map[string]*embertree.Element) {
	m := map[string]*embertree.Element{}
	var walk func(prefix string, el *embertree.Element)
	walk = func(prefix string, el *embertree.Element) {
		if prefix != "" {
			prefix += "."
		}
		prefix += fmt.Sprint(el.Number)
		m[prefix] = el
		for _, k := range el.Children {
			walk(prefix, k)
		}
	}
	for _, el := range tree.RootElementCollection {
		walk("", el)
	}
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	return names, m
}

func init() {
	engine.Register("C13", []string{"Listeners are registered before the message is applied or by listeners during it; every position keeps its element kind."}, func(t engine.Tier) []*engine.Scenario {
		all := alphabet()
		// base trees to start from
		var bases [][]message
		pick := func(names ...string) []message {
			var l []message
			for _, n := range names {
				for _, m := range all {
					if m.name == n {
						l = append(l, m)
					}
				}
			}
			return l
		}
		bases = append(bases,
			pick("everything nested", "0.3/1 nested"),
			pick("1/1 by path", "0/1 nested", "0.3/2 by path", "1.1/1 by path", "1.2/1 by path", "1.1.200/1 by path", "1.1.0/2 by path"),
			pick("1/1 nested", "1.1/1 by path"),
			nil,
		)
		// hear checks one message against everything that listens
		hear := func(c *engine.C, tree *embertree.RootElement, model []*ref.Elem, m message) []*ref.Elem {
			names, els := everyElement(tree)
			treeSpies := []*spy{{name: "tree a"}, {name: "tree b"}}
			gone := &spy{name: "removed"}
			both := &spy{name: "everywhere"}
			for _, s := range treeSpies {
				tree.AddListener(s)
				tree.AddListener(s)
			}
			tree.AddListener(gone)
			tree.RemoveListener(gone)
			c.Assert(!tree.HasListner(gone) && tree.HasListner(treeSpies[0]), "HasListner")
			on := map[string]*spy{}
			for _, n := range names {
				s := &spy{name: n}
				on[n] = s
				els[n].AddListener(s)
				els[n].AddListener(gone)
				els[n].AddListener(both)
				els[n].RemoveListener(gone)
				els[n].RemoveListener(treeSpies[0])
			}
			told := map[string]int{}
			model = applyModel(model, m, told)
			want := treeText(model, visible)
			treeSpies[0].on = func(interface{}) {
				same(c, treeText(observeTree(c, tree), asIs), want, "the tree as its listener finds it")
			}
			found := map[string]string{}
			for _, n := range names {
				if n := n; told[n] == 1 {
					on[n].on = func(interface{}) { found[n] = text(observe(c, els[n])) }
				}
			}
			ok(c, tree.Decode(reader(m.b)), "applying %s", m.name)
			c.Step()
			for _, n := range names {
				if told[n] == 1 {
					same(c, found[n], text(observe(c, els[n])), "%s: element %s as its listener found it, and afterwards", m.name, n)
				}
			}
			for _, s := range treeSpies {
				calls := s.take()
				if len(calls) != 1 || calls[0] != interface{}(tree) {
					c.Failf("%s: a listener of the tree was called %d times", m.name, len(calls))
				}
				tree.RemoveListener(s)
			}
			sum := 0
			for _, n := range names {
				calls := on[n].take()
				want := told[n]
				c.Logf("%s: %s told %d times, described %d times", m.name, n, len(calls), want)
				if want > 0 && len(calls) == 0 {
					c.Failf("%s: the listener of %s was not called", m.name, n)
				}
				if want == 0 && len(calls) > 0 {
					c.Failf("%s: the listener of %s was called although nothing about it changed", m.name, n)
				}
				if len(calls) > want {
					c.Failf("%s: the listener of %s was called %d times for %d descriptions", m.name, n, len(calls), want)
				}
				for _, x := range calls {
					if x != interface{}(els[n]) {
						c.Failf("%s: the listener of %s was told about something else", m.name, n)
					}
				}
				c.Assert(on[n].errs == 0, "%s: the listener of %s was told of an error", m.name, n)
				sum += len(calls)
				els[n].RemoveListener(on[n])
				els[n].RemoveListener(both)
			}
			same(c, len(both.take()), sum, "calls of a listener registered on every element")
			if len(gone.take()) > 0 {
				c.Failf("%s: a removed listener was called", m.name)
			}
			return model
		}
		setup := func(c *engine.C, base []message) (*embertree.RootElement, []*ref.Elem) {
			tree := embertree.NewTree()
			var model []*ref.Elem
			for _, m := range base {
				ok(c, tree.Decode(reader(m.b)), "applying %s", m.name)
				model = applyModel(model, m, nil)
			}
			return tree, model
		}
		n := t.Pick(2, 3)
		return []*engine.Scenario{
			{Name: "messages", What: fmt.Sprintf("every sequence of %d messages out of %d on four base trees, with listeners on the tree and on every element", n, len(all)), Run: func(c *engine.C) {
				tree, model := setup(c, bases[c.Choose(len(bases))])
				for i := 0; i < n; i++ {
					model = hear(c, tree, model, choose(c, all))
				}
				c.StateString(treeText(model, asIs))
			}},
			{Name: "rejected", What: "every message cut at every place, or made invalid at every byte of a tag: no listener of the tree may be called if it is rejected", Run: func(c *engine.C) {
				tree, _ := setup(c, bases[c.Choose(len(bases))])
				m := choose(c, all)
				s := &spy{}
				tree.AddListener(s)
				b := append([]byte{}, m.b...)
				i := c.Choose(len(b))
				if c.Bool() {
					b = b[:i]
				} else {
					b[i] ^= byte(1 << c.Choose(8))
				}
				err := tree.Decode(reader(b))
				c.Step()
				want := 1
				if err != nil {
					want = 0
				}
				same(c, len(s.take()), want, "calls of the tree's listener (error: %v)", err != nil)
				// and the tree goes on working
				ok(c, tree.Decode(reader(m.b)), "the intact message")
				same(c, len(s.take()), 1, "calls for the intact message")
			}},
			{Name: "long", N: 6, What: "600 messages of the alphabet in six orders on one tree, with listeners that stay registered, and ones registered anew for each message", At: func(c *engine.C, i uint64) {
				tree, model := setup(c, bases[int(i)%len(bases)])
				stay := &spy{}
				tree.AddListener(stay)
				for k := 0; k < 600; k++ {
					model = hear(c, tree, model, all[(k*(1+int(i))+k/len(all))%len(all)])
				}
				same(c, len(stay.take()), 600, "calls of a listener that stays")
			}},
			{Name: "many", N: 4, What: "hundreds of listeners on the tree and on one element, every second of them removed again", At: func(c *engine.C, i uint64) {
				tree, _ := setup(c, bases[0])
				el := tree.GetElementByNumber(1)
				n := []int{1, 2, 50, 500}[i]
				var spies []*spy
				for k := 0; k < n*2; k++ {
					s := &spy{}
					spies = append(spies, s)
					tree.AddListener(s)
					el.AddListener(s)
				}
				for k := 1; k < n*2; k += 2 {
					tree.RemoveListener(spies[k])
					el.RemoveListener(spies[k])
				}
				ok(c, tree.Decode(reader(pick("1/2 nested")[0].b)), "message")
				for k, s := range spies {
					want := 2 - 2*(k%2)
					same(c, len(s.take()), want, "calls of listener %d", k)
				}
				c.Steps(n)
			}},
			{Name: "changing-listeners", What: "listeners that remove themselves, remove another listener or register a further one while being told, on the tree and on an element, over two messages", Run: func(c *engine.C) {
				tree, _ := setup(c, bases[0])
				el := tree.GetElementByNumber(1)
				onTree := c.Bool()
				var reg interface {
					AddListener(embertree.Listener)
					RemoveListener(embertree.Listener)
				} = el
				var node interface{} = el
				if onTree {
					reg, node = tree, tree
				}
				var spies [3]*spy
				added := &spy{name: "added"}
				removed := map[*spy]bool{}
				for i := range spies {
					s := &spy{name: fmt.Sprint(i)}
					spies[i] = s
					act := c.Choose(5)
					other := (i + 1) % 3
					s.on = func(interface{}) {
						c.Assert(!removed[s], "a listener removed meanwhile was called")
						switch act {
						case 1:
							reg.RemoveListener(s)
							removed[s] = true
						case 2:
							reg.RemoveListener(spies[other])
							removed[spies[other]] = true
						case 3:
							reg.AddListener(added)
						case 4:
							// a listener may look at what it hears about
							if x, is := node.(*embertree.Element); is {
								x.GetPath()
								_ = x.ToString()
							} else {
								_ = tree.ToString()
								tree.HasListner(s)
							}
						}
					}
				}
				for _, s := range spies {
					reg.AddListener(s)
				}
				for i := 0; i < 2; i++ {
					before := map[*spy]bool{}
					for s := range removed {
						before[s] = true
					}
					ok(c, tree.Decode(reader(pick("1/2 nested", "1/1 by path")[i].b)), "message")
					c.Step()
					for k, s := range spies {
						calls := s.take()
						switch {
						case before[s] && len(calls) > 0:
							c.Failf("message %d: removed listener %d was called", i, k)
						case !before[s] && !removed[s] && len(calls) != 1:
							c.Failf("message %d: listener %d was called %d times", i, k, len(calls))
						case len(calls) > 1:
							c.Failf("message %d: listener %d was called %d times", i, k, len(calls))
						}
					}
					if calls := added.take(); len(calls) > 1 {
						c.Failf("the added listener was called %d times", len(calls))
					}
				}
			}},
			{Name: "joining-listeners", What: "a listener of the tree or an element that, when told of a message, registers another one with the tree or an element, and at the next removes it again: the new one hears exactly the messages that come in between", Run: func(c *engine.C) {
				type registry interface {
					AddListener(embertree.Listener)
					RemoveListener(embertree.Listener)
				}
				tree, _ := setup(c, bases[0])
				parent := tree.GetElementByNumber(1)
				nodes := []registry{tree, parent, parent.Children[1], parent.Children[2]}
				from, to := nodes[c.Choose(len(nodes))], nodes[c.Choose(len(nodes))]
				if from == registry((*embertree.Element)(nil)) || to == registry((*embertree.Element)(nil)) {
					c.Failf("harness: no such element")
				}
				added := &spy{name: "added"}
				var s, plain *spy
				calls := 0
				leaves := 1 + c.Choose(2)
				s = &spy{on: func(interface{}) {
					calls++
					if calls == 1 {
						to.AddListener(added)
					} else if calls == 1+leaves {
						to.RemoveListener(added)
					}
				}}
				from.AddListener(s)
				plain = &spy{} // hears what added could hear
				to.AddListener(plain)
				for i := 0; i < 4; i++ {
					m := choose(c, pick("1/1 by path", "1.1/1 nested", "1/2 nested"))
					joined := calls >= 1 && calls < 1+leaves
					before := calls
					ok(c, tree.Decode(reader(m.b)), "message")
					c.Step()
					could, did := len(plain.take()), len(added.take())
					switch {
					case !joined && did > 0:
						c.Failf("message %d: the new listener was called %d times although it was not registered when the message arrived", i, did)
					case joined && before == calls && did != could:
						c.Failf("message %d: the new listener was called %d times, another one %d times", i, did, could)
					case did > could:
						c.Failf("message %d: the new listener was called %d times, another one %d times", i, did, could)
					}
				}
			}},
			{Name: "registrations", What: fmt.Sprintf("every sequence of %d registrations, removals and messages with two listeners on the tree and on two elements", t.Pick(6, 8)), Run: func(c *engine.C) {
				tree, _ := setup(c, bases[0])
				type registry interface {
					AddListener(embertree.Listener)
					RemoveListener(embertree.Listener)
				}
				parent := tree.GetElementByNumber(1)
				reg := []registry{tree, parent, parent.Children[1]}[c.Choose(3)]
				other := registry(tree)
				if reg == other {
					other = parent
				}
				spies := []*spy{{name: "a"}, {name: "b"}}
				on := [2]bool{}
				other.AddListener(spies[0]) // registrations elsewhere make no difference
				for i := 0; i < t.Pick(6, 8); i++ {
					k := c.Choose(5)
					switch k {
					case 0, 1:
						reg.AddListener(spies[k])
						on[k] = true
						c.Logf("add %d", k)
					case 2, 3:
						reg.RemoveListener(spies[k-2])
						on[k-2] = false
						c.Logf("remove %d", k-2)
					case 4:
						ok(c, tree.Decode(reader(pick("1.1/1 nested")[0].b)), "message")
						c.Logf("message")
					}
					c.Step()
					for j, s := range spies {
						got := 0
						for _, x := range s.take() {
							if x == interface{}(reg) {
								got++
							}
						}
						want := 0
						if k == 4 && on[j] {
							want = 1
						}
						same(c, got, want, "calls of listener %d in step %d", j, i)
					}
				}
				c.StateString(fmt.Sprint(on))
			}},
			directUpdates(t, true),
			{Name: "branches", What: fmt.Sprintf("%d places in branches whose numbers repeat or differ by 256 and 65536, announced nested or by path, then every message about up to %d of them, by path or nested, or about new children of them", len(alikePlaces), t.Pick(2, 3)), Run: func(c *engine.C) {
				tree, model := setup(c, []message{alikeBase(c.Bool())})
				hear(c, tree, model, alikeMessage(c, t.Pick(2, 3)))
			}},
			{Name: "deep", What: "branches of 3 to 40 and of 130 nodes, then every message about places deep in them, known or new, by path or nested", Run: func(c *engine.C) {
				n := 3 + c.Choose(39)
				if n == 41 {
					n = 130
				}
				list := deepMessages(n)
				tree, model := setup(c, list[:1])
				hear(c, tree, model, choose(c, list[1:]))
			}},
			{Name: "parents", N: 4, What: "children of 2 to 300 elements in one message by path", At: func(c *engine.C, i uint64) {
				list := manyParents([]int{2, 50, 129, 300}[i])
				tree, model := setup(c, list[:1])
				for _, m := range list[1:] {
					model = hear(c, tree, model, m)
				}
			}},
			{Name: "set-contents", What: "listeners of an element whose contents are set locally", Run: func(c *engine.C) {
				tree, _ := setup(c, bases[0])
				names, els := everyElement(tree)
				at := choose(c, names)
				on := map[string]*spy{}
				for _, n := range names {
					on[n] = &spy{}
					els[n].AddListener(on[n])
				}
				s := &spy{}
				tree.AddListener(s)
				ok(c, els[at].SetContents(els[at].GetContent()), "SetContents")
				c.Step()
				for _, n := range names {
					want := 0
					if n == at {
						want = 1
					}
					same(c, len(on[n].take()), want, "calls of the listener of %s", n)
				}
				same(c, len(s.take()), 0, "calls of the listener of the tree")
			}},
		}
	})

	// ---- C14 ----

	engine.Register("C14", []string{"Elements have non-negative numbers."}, func(t engine.Tier) []*engine.Scenario {
		// isRequest checks that b is one get-directory command for the element at path, whose branch has the given kinds.
		isRequest := func(c *engine.C, b []byte, path []int32, kinds []ref.Kind, nested bool) {
			l, err := ref.ParseRoot(b)
			if err != nil {
				c.Failf("the request is not well formed: %v\n% x", err, clipb(b))
			}
			if len(l) != 1 {
				c.Failf("%d top-level elements in the request", len(l))
			}
			e := l[0]
			at := []int32{}
			for {
				if e.Kind == ref.Cmd {
					break
				}
				if e.Path != nil {
					if len(at) > 0 {
						c.Failf("a path below the top of the request")
					}
					at = append(at, e.Path...)
				} else {
					at = append(at, e.Number)
				}
				if len(at) > len(path) || ref.OIDString(at) != ref.OIDString(path[:len(at)]) {
					c.Failf("the request goes to %v instead of %v", at, path)
				}
				if e.Kind != kinds[len(at)-1] {
					c.Failf("the request calls %v a %v instead of a %v", at, e.Kind, kinds[len(at)-1])
				}
				if e.Contents || len(e.Targets)+len(e.Sources)+len(e.Conns) > 0 {
					c.Failf("the request states something about %v", at)
				}
				if len(e.Children) != 1 {
					c.Failf("%d children of %v in the request", len(e.Children), at)
				}
				e = e.Children[0]
			}
			same(c, at, path, "the element the request goes to")
			if e.Number != 32 {
				c.Failf("command %d instead of get-directory", e.Number)
			}
			if !e.Contents || e.Flags != -1 {
				c.Failf("the request asks for the fields %d (stated: %v) and not for all", e.Flags, e.Contents)
			}
			c.Step()
		}
		// ask sends both requests for element i and checks what they change.
		ask := func(c *engine.C, tree *embertree.RootElement, i int, els []*embertree.Element, paths [][]int32, kinds []ref.Kind, qualified bool) {
			before := treeText(stateTree(c, tree), asIs)
			el := els[i]
			var lis *spy
			with := c.Bool()
			if with {
				lis = &spy{}
			}
			var l embertree.Listener
			if with {
				l = lis
			}
			var m *embertree.RootElement
			if qualified {
				m = el.GetQualifiedDirectoryMsg(l)
			} else {
				var err errors.Error
				m, err = el.GetDirectoryMsg(l)
				ok(c, err, "GetDirectoryMsg")
			}
			branch := []ref.Kind{}
			for k := range paths[i] {
				for j := range paths {
					if ref.OIDString(paths[j]) == ref.OIDString(paths[i][:k+1]) {
						branch = append(branch, kinds[j])
					}
				}
			}
			b := encoded(c, m, "the request")
			isRequest(c, b, paths[i], branch, !qualified)
			isRequest(c, encoded(c, m, "the request once more"), paths[i], branch, !qualified)
			same(c, treeText(stateTree(c, tree), asIs), before, "the tree after the request was built")
			// who listens?
			for j := range els {
				ok(c, els[j].SetContents(newContents(kinds[j])), "SetContents")
				if with {
					want := 0
					if j == i {
						want = 1
					}
					same(c, len(lis.take()), want, "calls of the listener when element %v changes", paths[j])
				}
			}
			if with {
				c.Assert(!tree.HasListner(lis), "the listener is registered on the tree")
			}
			c.StateString(fmt.Sprint(paths[i], branch, qualified))
		}
		return []*engine.Scenario{
			{Name: "trees", What: "every tree of up to 4 (thorough 5) elements, each by number or path, kinds in rotation, with or without contents; a request of either style for every element", Run: func(c *engine.C) {
				n := 1 + c.Choose(t.Pick(4, 5))
				tree := embertree.NewTree()
				var els []*embertree.Element
				var paths [][]int32
				var kinds []ref.Kind
				rot := c.Choose(4)
				style := c.Choose(3)
				filled := c.Choose(2) * 2
				for i := 0; i < n; i++ {
					p := -1
					if i > 0 {
						p = c.Choose(i+1) - 1
					}
					num := []int32{1, 0, 200, 70000, math.MaxInt32}[i]
					e := small(elemKinds[(i+rot)%4], num, filled)
					path := []int32{num}
					if p >= 0 {
						path = append(append([]int32{}, paths[p]...), num)
					}
					if style == 1 || style == 2 && c.Bool() {
						e.Path = path
					}
					el := build(settable(e))
					if p < 0 {
						tree.AddElement(el)
					} else {
						ok(c, els[p].AddChild(el), "AddChild")
					}
					els, paths, kinds = append(els, el), append(paths, path), append(kinds, e.Kind)
				}
				ask(c, tree, c.Choose(n), els, paths, kinds, c.Bool())
			}},
			{Name: "assembled", What: "3 (thorough 4) elements of several kinds, made by number or along with their final path, put together in every order; requests of both styles for any of them, repeated or not, after each step and at the end name the path of the moment", Run: func(c *engine.C) {
				n := t.Pick(3, 4)
				tree := embertree.NewTree()
				parent := []int{-1}
				for i := 1; i < n; i++ {
					parent = append(parent, c.Choose(i+1)-1)
				}
				var els []*embertree.Element
				var nums []int32
				var kinds []ref.Kind
				up := make([]int, n) // -2: nowhere yet
				rot := c.Choose(4)
				for i := 0; i < n; i++ {
					num := []int32{1, 0, 200, 70000}[i]
					nums = append(nums, num)
					kinds = append(kinds, elemKinds[(i+rot)%4])
					els = append(els, bare(&ref.Elem{Kind: kinds[i], Number: num}))
					up[i] = -2
				}
				request := func() {
					for i, el := range els {
						var path []int32
						var branch []ref.Kind
						for k := i; k >= 0; k = up[k] {
							path = append([]int32{nums[k]}, path...)
							branch = append([]ref.Kind{kinds[k]}, branch...)
						}
						isRequest(c, encoded(c, el.GetQualifiedDirectoryMsg(nil), "the request by path"), path, branch, false)
						m, err := el.GetDirectoryMsg(nil)
						ok(c, err, "GetDirectoryMsg")
						isRequest(c, encoded(c, m, "the nested request"), path, branch, true)
					}
				}
				for left := n; left > 0; left-- {
					if c.Bool() {
						request()
					}
					i := c.Choose(left)
					for k := range up {
						if up[k] == -2 {
							if i == 0 {
								i = k
								break
							}
							i--
						}
					}
					if parent[i] < 0 {
						tree.AddElement(els[i])
					} else {
						ok(c, els[parent[i]].AddChild(els[i]), "AddChild")
					}
					up[i] = parent[i]
				}
				request()
				c.StateString(fmt.Sprint(parent, rot))
			}},
			{Name: "received", What: "requests of both styles for every element of trees received in every two-message sequence about seven places", Run: func(c *engine.C) {
				all := alphabet()
				tree := embertree.NewTree()
				early := c.Bool()
				for i := 0; i < 2; i++ {
					ok(c, tree.Decode(reader(choose(c, all).b)), "message")
					if _, m := everyElement(tree); early && i == 0 {
						for _, el := range m {
							el.GetQualifiedDirectoryMsg(nil)
							_, err := el.GetDirectoryMsg(nil)
							ok(c, err, "GetDirectoryMsg")
						}
					}
				}
				names, m := everyElement(tree)
				if len(names) == 0 {
					return
				}
				var els []*embertree.Element
				var paths [][]int32
				var kinds []ref.Kind
				for _, n := range names {
					els = append(els, m[n])
					p := m[n].GetPath()
					same(c, ref.OIDString(p), n, "path")
					k, _, _ := kindOfTag(m[n].GetTag())
					paths, kinds = append(paths, p), append(kinds, k)
				}
				ask(c, tree, c.Choose(len(names)), els, paths, kinds, c.Bool())
			}},
			{Name: "deep", N: 16 * 5, What: "chains of up to 200 elements by number, by path, the last one by path, the first or the middle one by path, both styles", At: func(c *engine.C, j uint64) {
				i, byPath := j/5, int(j%5)
				n := []int{1, 2, 3, 5, 17, 60, 127, 200}[i/2]
				tree := embertree.NewTree()
				var last *embertree.Element
				var path []int32
				var kinds []ref.Kind
				for k := 0; k < n; k++ {
					kinds = append(kinds, elemKinds[k%4])
					path = append(path, int32(k))
					e := &ref.Elem{Kind: kinds[k], Number: int32(k)}
					if byPath == 1 || byPath == 2 && k == n-1 || byPath == 3 && k == 0 || byPath == 4 && k == n/2 {
						e.Path = append([]int32{}, path...)
					}
					el := bare(e)
					if k == 0 {
						tree.AddElement(el)
					} else {
						ok(c, last.AddChild(el), "AddChild")
					}
					last = el
				}
				m, err := last.GetDirectoryMsg(nil)
				ok(c, err, "GetDirectoryMsg")
				if i%2 == 1 {
					m = last.GetQualifiedDirectoryMsg(nil)
				}
				isRequest(c, encoded(c, m, "the request"), path, kinds, i%2 == 0)
				c.State(j)
			}},
			{Name: "many", N: 4, What: "thousands of requests by one process for the root, 300 elements and those below them, in both styles, the first ones again at the end; some of the later ones with listeners", At: func(c *engine.C, i uint64) {
				tree := embertree.NewTree()
				var els []*embertree.Element
				var paths [][]int32
				var kinds [][]ref.Kind
				for k := int32(0); k < 300; k++ {
					up := bare(&ref.Elem{Kind: elemKinds[k%4], Number: k})
					down := bare(&ref.Elem{Kind: elemKinds[(k+1)%4], Number: 300 - k})
					tree.AddElement(up)
					ok(c, up.AddChild(down), "AddChild")
					els = append(els, up, down)
					paths = append(paths, []int32{k}, []int32{k, 300 - k})
					kinds = append(kinds, []ref.Kind{elemKinds[k%4]}, []ref.Kind{elemKinds[k%4], elemKinds[(k+1)%4]})
				}
				for round := 0; round < 3; round++ {
					for k, el := range els {
						m := el.GetQualifiedDirectoryMsg(nil)
						nested := (k+round+int(i))%2 == 0
						if nested {
							var err errors.Error
							m, err = el.GetDirectoryMsg(nil)
							ok(c, err, "GetDirectoryMsg")
						}
						isRequest(c, encoded(c, m, "the request"), paths[k], kinds[k], nested)
						if k%10 == 0 {
							m, err := tree.GetDirectoryMsg(nil)
							ok(c, err, "GetDirectoryMsg")
							isRequest(c, encoded(c, m, "the request for the root"), []int32{}, nil, true)
						}
					}
				}
				if i < 2 {
					return
				}
				s := &spy{}
				for k, el := range els {
					var l embertree.Listener
					if k%3 == 0 {
						l = s
					}
					el.GetQualifiedDirectoryMsg(l)
				}
				for k, el := range els {
					ok(c, el.SetContents(newContents(kinds[k][len(kinds[k])-1])), "SetContents")
					want := 0
					if k%3 == 0 {
						want = 1
					}
					same(c, len(s.take()), want, "calls of the listener when element %v changes", paths[k])
				}
			}},
			{Name: "root", What: "the request for the top of the tree, with and without listener, on empty, filled and received trees", Run: func(c *engine.C) {
				var tree *embertree.RootElement
				switch c.Choose(3) {
				case 0:
					tree = embertree.NewTree()
				case 1:
					tree = embertree.NewRoot()
				default:
					tree = decodeTree(c, choose(c, alphabet()).b)
				}
				before := treeText(stateTree(c, tree), asIs)
				other := &spy{}
				tree.AddListener(other)
				s := &spy{}
				with := c.Bool()
				var l embertree.Listener
				if with {
					l = s
				}
				m, err := tree.GetDirectoryMsg(l)
				ok(c, err, "GetDirectoryMsg")
				isRequest(c, encoded(c, m, "the request"), []int32{}, nil, true)
				same(c, treeText(stateTree(c, tree), asIs), before, "the tree after the request was built")
				same(c, tree.HasListner(s), with, "the listener is registered")
				c.Assert(tree.HasListner(other), "another listener is gone")
				c.Assert(!m.HasListner(s), "the listener is registered on the request")
				ok(c, tree.Decode(reader(ref.RootTLV(nil).Bytes())), "an empty message")
				want := 0
				if with {
					want = 1
				}
				same(c, len(s.take()), want, "calls of the listener")
				same(c, len(other.take()), 1, "calls of the other listener")
				c.State(uint64(len(before)))
			}},
		}
	})

	// ---- C30 ----

	engine.Register("C30", nil, func(t engine.Tier) []*engine.Scenario {
		gen := func(c *engine.C) *ref.Elem {
			k := choose(c, elemKinds)
			e := &ref.Elem{Kind: k, Number: 4, Contents: true, Props: map[int]ref.Val{}}
			if c.Bool() {
				e.Path = []int32{1, 4}
			}
			variant := c.Choose(2)
			switch c.Choose(4) {
			case 0: // everything
				for _, ctx := range ctxs(k) {
					e.Props[ctx] = propSample(k, ctx, variant)
				}
				for i := 0; i < nExtras(k); i++ {
					addExtra(e, i)
				}
			case 1: // one property
				l := ctxs(k)
				i := c.Choose(len(l) + nExtras(k))
				if i < len(l) {
					kinds := ref.PropKinds(k)[l[i]]
					e.Props[l[i]] = sample(kinds[c.Choose(len(kinds))], variant, l[i])
					if !legal(k, l[i], e.Props[l[i]]) {
						e.Props[l[i]] = iv(1)
					}
				} else {
					addExtra(e, i-len(l))
				}
			case 2: // nothing
			case 3:
				e.Contents = false
			}
			if k == ref.Matrix && c.Bool() {
				e.HasTargets, e.Targets = true, []int32{1, 2, 300}
				e.HasSources, e.Sources = true, []int32{4, 5}
				e.HasConns, e.Conns = true, []ref.Conn{{Target: 1, Sources: []int32{4, 300}, Op: 1, Disp: 2}, {Target: 2}}
			}
			for i, n := 0, c.Choose(3); i < n; i++ {
				e.Children = append(e.Children, small(elemKinds[(int(k)+i+1)%4], int32(i), 2))
			}
			return e
		}
		// mutate changes everything reachable through accessors.
		var mutate func(el *embertree.Element)
		mutate = func(el *embertree.Element) {
			buf := func(o *embertree.ContentParameter) {
				if b, err := o.GetBuffer(); err == nil {
					for i := range b {
						b[i] ^= 0xff
					}
				}
				if p, err := o.GetRelativeOID(); err == nil {
					for i := range p {
						p[i] += 7
					}
				}
				o.SetString("changed")
			}
			scribble := func(p asn1.RelativeOID) {
				for i := range p {
					p[i] += 7
				}
			}
			tup := func(l []*embertree.TupleDescription) {
				for _, x := range l {
					x.Name, x.Type = "changed", 77
				}
			}
			scribble(el.GetPath())
			switch x := el.GetContent().(type) {
			case nodeC:
				p, _ := x.GetTemplateReference()
				scribble(p)
				fillContents(x, changed(ref.Node))
			case paramC:
				buf(x.GetValueObject())
				buf(x.GetMinimumObject())
				buf(x.GetMaximumObject())
				buf(x.GetDefaultObject())
				fillContents(x, changed(ref.Param))
			case funcC:
				tup(x.GetArguments())
				tup(x.GetResult())
				fillContents(x, changed(ref.Func))
			case matC:
				p, _ := x.GetParameterLocation()
				scribble(p)
				fillContents(x, changed(ref.Matrix))
			}
			if l, err := el.GetTargets(); err == nil {
				for _, x := range l {
					x.(*embertree.Target).Number += 9
				}
			}
			if l, err := el.GetSources(); err == nil {
				for _, x := range l {
					x.(*embertree.Source).Number += 9
				}
			}
			if l, err := el.GetConnections(); err == nil {
				for _, x := range l {
					x.Target += 9
					for i := range x.Sources {
						x.Sources[i] += 9
					}
					x.SetOperation(2)
					x.SetDisposition(3)
				}
			}
			for _, k := range el.Children {
				mutate(k)
			}
			el.AddChild(bare(&ref.Elem{Kind: ref.Node, Number: 99}))
		}
		obs := []struct {
			name string
			f    func(c *engine.C, el *embertree.Element)
		}{
			{"Encode", func(c *engine.C, el *embertree.Element) { encoded(c, el, "the element") }},
			{"EncodeChildren", func(c *engine.C, el *embertree.Element) {
				ok(c, el.EncodeChildren(&asn1.ASNWriter{}), "EncodeChildren")
			}},
			{"ToString", func(c *engine.C, el *embertree.Element) {
				if a, b := el.ToString(), el.ToString(); len(a) != len(b) {
					c.Failf("printing twice gives different texts:\n%s\n%s", a, b)
				}
			}},
			{"contents", func(c *engine.C, el *embertree.Element) {
				if x := el.GetContent(); x != nil {
					_ = x.ToString()
					ok(c, x.Encode(&asn1.ASNWriter{}), "encoding the contents")
				}
			}},
			{"requests", func(c *engine.C, el *embertree.Element) {
				m, err := el.GetDirectoryMsg(nil)
				ok(c, err, "GetDirectoryMsg")
				encoded(c, m, "the request")
				encoded(c, el.GetQualifiedDirectoryMsg(nil), "the request")
			}},
			{"signals", func(c *engine.C, el *embertree.Element) {
				w := &asn1.ASNWriter{}
				el.EncodeTargets(w)
				el.EncodeSources(w)
				el.EncodeConnections(w)
			}},
			{"tree", func(c *engine.C, el *embertree.Element) {
				tree := embertree.NewTree()
				tree.AddElement(el)
				encoded(c, tree, "the tree")
				_ = tree.ToString()
			}},
		}
		depth := t.Pick(2, 3)
		return []*engine.Scenario{
			{Name: "observing", What: fmt.Sprintf("every sequence of %d encoding and printing operations on decoded and built elements of every kind and filling; the element states the same before and after", depth), Run: func(c *engine.C) {
				e := gen(c)
				var el *embertree.Element
				if c.Bool() {
					e = settable(e)
					el = build(e)
				} else {
					x, err := embertree.DecodeElement(reader(e.TLV().Bytes()))
					ok(c, err, "decode")
					el = x
				}
				first := text(statedAll(c, el))
				seen := text(observe(c, el))
				for i := 0; i < depth; i++ {
					o := choose(c, obs)
					o.f(c, el)
					c.Step()
					same(c, text(statedAll(c, el)), first, "encoding after %s", o.name)
					same(c, text(observe(c, el)), seen, "the element after %s", o.name)
				}
				same(c, first, text(e), "the first encoding")
				c.StateString(first)
			}},
			{Name: "buffers", What: "decoded elements of every kind and filling after the input was overwritten, and a second one decoded from the same input after everything in the first was changed", Run: func(c *engine.C) {
				e := gen(c)
				b := e.TLV().Bytes()
				one, err := embertree.DecodeElement(reader(b))
				ok(c, err, "decode")
				two, err := embertree.DecodeElement(reader(b))
				ok(c, err, "decode")
				want := text(statedAll(c, one))
				same(c, want, text(e), "the decoded element")
				for i := range b {
					b[i] = 0xa5
				}
				c.Step()
				same(c, text(statedAll(c, one)), want, "the element after its input was overwritten")
				same(c, text(observe(c, one)), text(visible(e)), "the element after its input was overwritten")
				mutate(one)
				c.Step()
				same(c, text(statedAll(c, two)), want, "an element after another one from the same input was changed")
				same(c, text(observe(c, two)), text(visible(e)), "an element after another one from the same input was changed")
				c.StateString(want)
			}},
			{Name: "siblings", What: "two elements of any kinds in one message: changing everything in the first leaves the second alone; the tree survives reuse of the buffer", Run: func(c *engine.C) {
				var l []*ref.Elem
				for i := 0; i < 2; i++ {
					e := small(choose(c, elemKinds), int32(i), 2)
					for _, ctx := range ctxs(e.Kind) {
						e.Props[ctx] = propSample(e.Kind, ctx, i%2)
					}
					for k := 0; k < nExtras(e.Kind); k++ {
						addExtra(e, k)
					}
					l = append(l, e)
				}
				nested := c.Bool()
				m := l
				if nested {
					top := small(ref.Node, 7, 2)
					top.Children = l
					m = []*ref.Elem{top}
				}
				b := ref.RootTLV(m).Bytes()
				tree := decodeTree(c, b)
				for i := range b {
					b[i] = 0
				}
				same(c, treeText(stateTree(c, tree), asIs), treeText(m, asIs), "the tree after its input was overwritten")
				var els []*embertree.Element
				for i := 0; i < 2; i++ {
					if nested {
						els = append(els, tree.GetElementByNumber(7).Children[i])
					} else {
						els = append(els, tree.GetElementByNumber(i))
					}
				}
				w := c.Choose(2)
				mutate(els[w])
				c.Step()
				same(c, text(statedAll(c, els[1-w])), text(l[1-w]), "an element after another one of the same message was changed")
				c.StateString(text(l[w]))
			}},
			{Name: "updates", What: "a tree updated by two messages of which the buffers are reused, every pair out of the message alphabet", Run: func(c *engine.C) {
				all := alphabet()
				tree := embertree.NewTree()
				var model []*ref.Elem
				for i := 0; i < 2; i++ {
					m := choose(c, all)
					b := append([]byte{}, m.b...)
					ok(c, tree.Decode(reader(b)), "message")
					model = applyModel(model, m, nil)
					for i := range b {
						b[i] = 0x31
					}
					c.Step()
				}
				checkTree(c, tree, model, true)
			}},
			{Name: "values", What: "values, labels, connections, signals and invocations: encoding and printing twice, reuse of the input, change of a twin", Run: func(c *engine.C) {
				switch c.Choose(4) {
				case 0:
					v := choose(c, domain(ref.VKind(c.Choose(int(ref.NVKinds)))))
					b := ref.Wrap(3, v.TLV()).Bytes()
					one, err := embertree.DecodeValue(reader(b), 3)
					ok(c, err, "DecodeValue")
					two, err := embertree.DecodeValue(reader(b), 3)
					ok(c, err, "DecodeValue")
					for i := range b {
						b[i] = 1
					}
					for i := 0; i < 2; i++ {
						w := &asn1.ASNWriter{}
						ok(c, one.Encode(3, w), "Encode")
						sameBytes(c, definite(c, written(w)), ref.Wrap(3, v.TLV()).SetForms(ref.Short).Bytes(), "value encoded (%d)", i)
						_ = one.ToString()
					}
					if x, err := one.GetBuffer(); err == nil {
						for i := range x {
							x[i] ^= 1
						}
					}
					if x, err := one.GetRelativeOID(); err == nil {
						for i := range x {
							x[i]++
						}
					}
					got, _ := objVal(two)
					same(c, got, v, "a value after its twin was changed")
				case 1:
					want := ref.Label{Path: choose(c, domain(ref.VOID)).O, Text: "gäin"}
					b := ref.LabelTLV(want).Bytes()
					one, err := embertree.DecodeLabel(reader(b))
					ok(c, err, "DecodeLabel")
					two, err := embertree.DecodeLabel(reader(b))
					ok(c, err, "DecodeLabel")
					for i := range b {
						b[i] = 1
					}
					first := encoded(c, one, "the label")
					sameBytes(c, encoded(c, one, "the label"), first, "the label encoded twice")
					for i := range one.BasePath {
						one.BasePath[i]++
					}
					same(c, fmt.Sprintf("%v %q", []int32(two.BasePath), two.Description), fmt.Sprintf("%v %q", want.Path, want.Text), "a label after its twin was changed")
				case 2:
					want := ref.Conn{Target: 3, Sources: []int32{1, 200, 3}, Op: 1, Disp: 2}
					b := ref.ConnTLV(want).Bytes()
					var one, two embertree.Connection
					ok(c, one.Decode(reader(b)), "connection")
					ok(c, two.Decode(reader(b)), "connection")
					for i := range b {
						b[i] = 1
					}
					first := encoded(c, &one, "the connection")
					sameBytes(c, encoded(c, &one, "the connection"), first, "the connection encoded twice")
					for i := range one.Sources {
						one.Sources[i]++
					}
					same(c, fmt.Sprint(observedConn(&two)), fmt.Sprint(want), "a connection after its twin was changed")
				case 3:
					v := choose(c, domain(ref.VKind(c.Choose(int(ref.NVKinds)))))
					m := ref.K(ref.App(22), ref.Wrap(0, ref.Int(5)), ref.Wrap(1, ref.K(ref.TagSeq, ref.Wrap(0, v.TLV()), ref.Wrap(0, ref.Int(1))))).SetForms(ref.Short)
					b := m.Bytes()
					want := append([]byte{}, b...)
					var inv embertree.Invocation
					ok(c, inv.Decode(reader(b)), "invocation")
					for i := range b {
						b[i] = 1
					}
					sameBytes(c, definite(c, encoded(c, &inv, "the invocation")), want, "the invocation")
					sameBytes(c, definite(c, encoded(c, &inv, "the invocation")), want, "the invocation encoded twice")
				}
				c.Step()
			}},
		}
	})
}

// definite is b with all lengths in their short form.
func definite(c *engine.C, b []byte) []byte {
	return parsed(c, b, "the encoding").SetForms(ref.Short).Bytes()
}

// changed states other values for all properties with setters.
func changed(k ref.Kind) *ref.Elem {
	e := &ref.Elem{Kind: k, Contents: true, Props: map[int]ref.Val{}}
	for _, ctx := range ctxs(k) {
		if _, ok := accessors[k][ctx]; !ok {
			continue
		}
		switch ref.PropKinds(k)[ctx][0] {
		case ref.VString:
			e.Props[ctx] = sv("changed")
		case ref.VInt:
			e.Props[ctx] = iv(1)
		case ref.VBool:
			e.Props[ctx] = bv(true)
		case ref.VOID:
			e.Props[ctx] = pv(66, 66)
		}
		if k == ref.Param && (ctx == 5 || ctx == 13) {
			e.Props[ctx] = sv("changed")
		}
	}
	return e
}
