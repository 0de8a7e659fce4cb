package checks

import (
	"fmt"

	"github.com/dufourgilles/emberlib/embertree"

	"verifmc/engine"
	"verifmc/ref"
)

// directUpdates updates an element from others without a message around it;
// heard adds listeners.
func directUpdates(t engine.Tier, heard bool) *engine.Scenario {
	what := "an element of every kind and filling, with or without children, in a tree or alone, updated directly from one or two others, by number or by path, of the same or of another kind or number"
	if heard {
		what += "; listeners on it and on all that is below it"
	}
	depth := 2
	kids := []place{{[]int32{5, 1}, ref.Param}, {[]int32{5, 200}, ref.Node}}
	return &engine.Scenario{Name: "direct", What: what, Run: func(c *engine.C) {
		few := false
		make1 := func(k ref.Kind, num int32) *ref.Elem {
			modes := 5
			if k != ref.Matrix {
				modes = 4
			}
			if few {
				e := say(place{[]int32{num}, k}, []int{0, 2}[c.Choose(2)])
				e.Children = []*ref.Elem{say(kids[0], 1)}
				return e
			}
			e := say(place{[]int32{num}, k}, c.Choose(modes))
			switch c.Choose(4) {
			case 1:
				e.Children = []*ref.Elem{say(kids[0], 1+c.Choose(2))}
			case 2:
				below := say(kids[1], c.Choose(2))
				below.Children = []*ref.Elem{say(place{[]int32{5, 200, 0}, ref.Func}, 1)}
				e.Children = []*ref.Elem{below, say(kids[0], 2)}
			case 3:
				e.Children = []*ref.Elem{say(kids[1], 2)}
			}
			return e
		}
		decode := func(e *ref.Elem) *embertree.Element {
			el, err := embertree.DecodeElement(reader(e.TLV().Bytes()))
			ok(c, err, "decoding")
			return el
		}
		kinds := []ref.Kind{ref.Node, ref.Param, ref.Func, ref.Matrix}
		k := choose(c, kinds)
		model := make1(k, 5)
		tree := embertree.NewTree()
		var el *embertree.Element
		switch c.Choose(3) {
		case 0:
			el = decode(model)
		case 1: // below another one
			top := say(place{[]int32{1}, ref.Node}, 1)
			top.Children = []*ref.Elem{model}
			ok(c, tree.Decode(reader(ref.RootTLV([]*ref.Elem{top}).Bytes())), "message")
			el = tree.GetElementByNumber(1).Children[5]
		case 2: // by path
			p := *model
			p.Path = []int32{5}
			ok(c, tree.Decode(reader(ref.RootTLV([]*ref.Elem{&p}).Bytes())), "message")
			el = tree.GetElementByNumber(5)
		}
		model = cloneElem(model)
		path := func() string { return ref.OIDString(el.GetPath()) }
		before := path()
		for i := 0; i < depth; i++ {
			few = i > 0 && !t.Thorough
			spies := map[*embertree.Element]*spy{}
			names := map[*embertree.Element]*ref.Elem{}
			var walk func(el *embertree.Element, e *ref.Elem)
			walk = func(el *embertree.Element, e *ref.Elem) {
				spies[el], names[el] = &spy{}, e
				el.AddListener(spies[el])
				for n, kid := range el.Children {
					walk(kid, findKid(e.Children, int32(n)))
				}
			}
			if heard {
				walk(el, model)
			}
			told := map[*ref.Elem]bool{}
			others := 4
			if few {
				others = 1
			}
			if other := c.Choose(others); other == 3 { // refused
				k2, n2 := k, []int32{6, 4, 5 + 256, 5 + 65536, 5 + 1<<30}[c.Choose(5)]
				if c.Bool() {
					k2, n2 = kinds[(int(k)+1)%4], 5
					for k2 == k {
						k2 = kinds[(int(k2)+1)%4]
					}
				}
				e := say(place{[]int32{n2}, k2}, 1)
				if c.Bool() {
					e.Path = []int32{n2}
				}
				err := el.Update(decode(e))
				c.Assert(err != nil, "a %v number 5 was updated from a %v number %d", k, k2, n2)
			} else {
				e := make1(k, 5)
				switch other {
				case 1:
					e.Path = []int32{5}
				case 2:
					e.Path = []int32{1, 5}
				}
				ok(c, el.Update(decode(e)), "updating")
				var mark func(old, upd *ref.Elem)
				mark = func(old, upd *ref.Elem) {
					told[old] = true
					for _, kid := range upd.Children {
						if o := findKid(old.Children, kid.Num()); o != nil {
							mark(o, kid)
						}
					}
				}
				mark(model, e)
				mergeElem(model, e)
			}
			c.Step()
			same(c, treeText([]*ref.Elem{observe(c, el)}, asIs), treeText([]*ref.Elem{model}, visible), "the updated element by its accessors")
			same(c, treeText([]*ref.Elem{statedAll(c, el)}, asIs), treeText([]*ref.Elem{model}, asIs), "the updated element by its encoding")
			same(c, path(), before, "its path")
			for x, s := range spies {
				want := 0
				if told[names[x]] {
					want = 1
				}
				same(c, len(s.calls), want, "calls of the listener of %v", names[x].Num())
				for _, who := range s.calls {
					c.Assert(who == interface{}(x), "the listener was told about something else")
				}
				c.Assert(s.errs == 0, "the listener was told of an error")
				x.RemoveListener(s)
			}
			c.StateString(fmt.Sprint(text(model), len(told)))
		}
	}}
}
