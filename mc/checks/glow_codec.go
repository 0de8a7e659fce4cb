package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"

	"verifmc/engine"
	"verifmc/ref"
)

// checkEncodes builds e through the API and checks what its encoding states.
func checkEncodes(c *engine.C, e *ref.Elem) {
	want := settable(e)
	el := build(want)
	checkStates(c, el, want)
}

func checkStates(c *engine.C, el *embertree.Element, want *ref.Elem) {
	got := stated(c, el)
	c.Step()
	same(c, text(got), text(flat(want)), "the encoding states something else than the element")
	c.StateString(text(got))
	c.Logf("%s", text(got))
	// the same element as the only one of a tree
	tree := embertree.NewTree()
	tree.AddElement(el)
	b := encoded(c, tree, "the tree")
	l, err := ref.ParseRoot(b)
	if err != nil {
		c.Failf("the tree message is not well formed: %v\n% x", err, clipb(b))
	}
	if len(l) != 1 || text(l[0]) != text(got) {
		c.Failf("the tree message states %d elements, the first being another one", len(l))
	}
	if len(want.Path) > 1 {
		return // a tree knows no parent for it
	}
	// nothing is lost on the way to the library's own decoder
	back := decodeTree(c, b)
	if len(back.RootElementCollection) != 1 {
		c.Failf("%d elements decoded instead of one", len(back.RootElementCollection))
	}
	same(c, text(stated(c, back.RootElementCollection[el.Number])), text(got), "decoding what the library encoded")
}

func reader(b []byte) *asn1.ASNReader {
	r := asn1.NewASNReader(b)
	return r
}

func decodeTree(c *engine.C, b []byte) *embertree.RootElement {
	tree := embertree.NewTree()
	ok(c, tree.Decode(reader(b)), "decoding the tree % x", clipb(b))
	return tree
}

// checkDecodes decodes the statement of e and checks accessors and encoding.
func checkDecodes(c *engine.C, e *ref.Elem) {
	b := e.TLV().Bytes()
	checkDecodesBytes(c, e, b)
	// within a tree message
	if e.Path == nil || len(e.Path) == 1 {
		tree := decodeTree(c, ref.RootTLV([]*ref.Elem{e}).Bytes())
		el := tree.GetElementByNumber(int(e.Num()))
		if el == nil || len(tree.RootElementCollection) != 1 {
			c.Failf("the tree does not hold the one element announced")
		}
		same(c, text(observe(c, el)), text(visible(e)), "properties in the tree")
	}
}

func checkDecodesBytes(c *engine.C, e *ref.Elem, b []byte) {
	r := reader(b)
	el, err := embertree.DecodeElement(r)
	c.Step()
	ok(c, err, "decoding % x", clipb(b))
	if r.Len() != 0 {
		c.Failf("%d bytes left after the element", r.Len())
	}
	want := text(visible(e))
	same(c, text(observe(c, el)), want, "the decoded element's properties for % x", clipb(b))
	c.StateString(want)
	c.Logf("% x -> %s", clipb(b), want)
	all := text(e)
	same(c, text(statedAll(c, el)), all, "encoding the decoded element for % x", clipb(b))
	again, err := embertree.DecodeElement(reader(encoded(c, el, "the decoded element")))
	ok(c, err, "decoding the encoding of the decoded element")
	same(c, text(observe(c, again)), text(visible(flat(e))), "decoding, encoding and decoding again")
	same(c, text(stated(c, again)), text(flat(e)), "decoding, encoding, decoding and encoding again")
}

// few leaves small parameter subsets out of the full product.
func fewParams(t engine.Tier) func(ctx int) bool {
	if t.Thorough {
		return nil
	}
	return func(ctx int) bool { return ctx == 6 || ctx == 7 || ctx == 10 || ctx == 11 || ctx == 14 }
}

func init() {
	engine.Register("C07", []string{"Property values stay within what the Ember+ types allow (strings, integers, reals, booleans, octets, relative object identifiers); object identifiers hold no negative number."}, func(t engine.Tier) []*engine.Scenario {
		var l []*engine.Scenario
		add := func(name, what string, run func(c *engine.C)) {
			l = append(l, &engine.Scenario{Name: name, What: what, Run: run})
		}
		for _, k := range elemKinds {
			k := k
			add("subsets-"+k.String(), "every subset of the settable properties of a "+k.String()+", two sets of values, by number and by path", func(c *engine.C) {
				checkEncodes(c, genSubset(c, k, func(ctx int) bool {
					if _, ok := accessors[k][ctx]; !ok {
						return true
					}
					return k == ref.Param && fewParams(t) != nil && fewParams(t)(ctx)
				}))
			})
		}
		add("values", "every property with every boundary value of each of its types, alone and among all others", func(c *engine.C) {
			checkEncodes(c, genValue(c))
		})
		add("addresses", "every kind under boundary numbers and paths, with and without contents", func(c *engine.C) {
			e := genAddress(c)
			if e.Kind == ref.Cmd {
				e.Contents = true
				e.Flags = choose(c, []int64{-2, -1, 0, 1, 2, 3, 127, 128, math.MaxInt32, math.MinInt32})
			}
			checkEncodes(c, e)
		})
		add("children", "every kind with every choice of up to 3 (thorough 4) children of any kind in three states of filling, each with or without a child of its own", func(c *engine.C) {
			checkEncodes(c, genFamily(c, t.Pick(2, 3), 2))
		})
		add("crosspoints-below", "every kind with one or two matrices below it, each with every subset of targets, sources and connections, with and without contents", func(c *engine.C) {
			e := small(choose(c, elemKinds), 3, 1)
			for i, n := 0, 1+c.Choose(2); i < n; i++ {
				kid := small(ref.Matrix, int32(i*7), 2*c.Choose(2))
				full := small(ref.Matrix, 0, 2)
				for _, f := range []func(on bool){
					func(on bool) {
						if kid.HasTargets, kid.Targets = on, nil; on {
							kid.Targets = full.Targets
						}
					},
					func(on bool) {
						if kid.HasSources, kid.Sources = on, nil; on {
							kid.Sources = full.Sources
						}
					},
					func(on bool) {
						if kid.HasConns, kid.Conns = on, nil; on {
							kid.Conns = full.Conns
						}
					},
				} {
					f(c.Bool())
				}
				e.Children = append(e.Children, kid)
			}
			checkEncodes(c, e)
		})
		add("children-by-path", "every kind by number or path with every choice of up to 3 children of any kind, each made by number or by path", func(c *engine.C) {
			k := choose(c, elemKinds)
			e := settable(small(k, 0, 1))
			if c.Bool() {
				e.Path = []int32{5, 0}
			}
			el := build(e)
			for i, m := 0, 1+c.Choose(3); i < m; i++ {
				kid := settable(small(elemKinds[c.Choose(4)], int32(i*100), 2*c.Choose(2)))
				e.Children = append(e.Children, kid)
				made := *kid
				if c.Bool() {
					made.Path = []int32{5, 0, kid.Number}
				}
				ok(c, el.AddChild(build(&made)), "AddChild")
			}
			got := stated(c, el)
			c.Step()
			same(c, text(got), text(e), "element with children")
			c.StateString(text(got))
		})
		add("constructors", "every element as its constructor makes it, with the contents its creator makes", func(c *engine.C) {
			e := &ref.Elem{Kind: ref.Kind(c.Choose(int(ref.NKinds))), Props: map[int]ref.Val{}}
			address(c, e)
			if e.Kind == ref.Cmd {
				e.Number = choose(c, []int32{7, 30, 31, 32, 33})
			}
			if e.Kind == ref.Matrix {
				e.Props[2], e.Props[3] = iv(int64(c.Choose(3))), iv(int64(c.Choose(2)))
				ty, mo := embertree.MatrixType(e.Props[2].I), embertree.MatrixMode(e.Props[3].I)
				e.Contents = true
				if e.Path == nil {
					el, err := embertree.NewMatrix(int(e.Number), ty, mo)
					ok(c, err, "NewMatrix")
					checkStates(c, el, e)
					return
				}
				el := embertree.NewQualifiedMatrix(asPath(e.Path), ty, mo)
				c.Assert(el != nil, "NewQualifiedMatrix returned nothing")
				if c.Bool() {
					el.CreateContent()
				} else {
					e.Contents, e.Props = false, map[int]ref.Val{}
				}
				checkStates(c, el, e)
				return
			}
			el := bare(e)
			e = settable(e)
			if e.Kind != ref.Cmd && c.Bool() {
				x := el.CreateContent()
				c.Assert(x == interface{}(el.GetContent()), "CreateContent's contents are not the element's")
				e.Contents = true
				for _, ctx := range ctxs(e.Kind) {
					if a, has := accessors[e.Kind][ctx]; has && c.Bool() {
						e.Props[ctx] = propSample(e.Kind, ctx, 0)
						if e.Kind == ref.Param && (ctx == 5 || ctx == 13) {
							e.Props[ctx] = sv("rw")
						}
						a.set(x, e.Props[ctx])
						break
					}
				}
			}
			checkStates(c, el, e)
		})
		add("overwrite", "every property set twice with different values, the second of which counts", func(c *engine.C) {
			k := choose(c, elemKinds)
			e := &ref.Elem{Kind: k, Contents: true, Props: map[int]ref.Val{}}
			address(c, e)
			el := build(e)
			for _, ctx := range ctxs(k) {
				a, has := accessors[k][ctx]
				if !has {
					continue
				}
				kinds := ref.PropKinds(k)[ctx]
				if k == ref.Param && (ctx == 5 || ctx == 13) {
					kinds = []ref.VKind{ref.VString}
				}
				from, to := c.Choose(len(kinds)+1), c.Choose(len(kinds)+1)
				set := func(i, variant int) {
					if i == len(kinds) {
						return
					}
					v := sample(kinds[i], variant, ctx)
					if !legal(k, ctx, v) {
						v = iv(int64(variant))
					}
					e.Props[ctx] = v
					a.set(el.GetContent(), v)
				}
				set(from, 0)
				set(to, 1)
				if from != 0 || to != 0 { // one property at a time
					break
				}
			}
			checkStates(c, el, e)
		})
		add("trees", "trees of up to 4 top-level elements of any kind", func(c *engine.C) {
			tree := embertree.NewTree()
			if c.Bool() {
				tree = embertree.NewRoot()
			}
			var want []string
			nums := []int32{0, 1, 128, 70000}
			for i, m := 0, c.Choose(t.Pick(4, 5)); i < m; i++ {
				e := settable(small(ref.Kind(c.Choose(int(ref.NKinds))), nums[i], 2-c.Choose(2)*2))
				if e.Kind != ref.Cmd && c.Bool() {
					e.Path = []int32{e.Number}
				}
				if e.Kind != ref.Cmd && i == 0 && c.Bool() {
					e.Children = []*ref.Elem{settable(small(ref.Param, 3, 2))}
				}
				tree.AddElement(build(e))
				want = append(want, text(e))
			}
			b := encoded(c, tree, "the tree")
			c.Step()
			got, err := ref.ParseRoot(b)
			if err != nil {
				c.Failf("the tree message is not well formed: %v\n% x", err, clipb(b))
			}
			var texts []string
			for _, n := range nums {
				for _, e := range got {
					if e.Num() == n {
						texts = append(texts, text(e))
					}
				}
			}
			same(c, strings.Join(texts, "\n"), strings.Join(want, "\n"), "the elements in the tree message")
			if len(got) != len(want) {
				c.Failf("%d elements in the message instead of %d", len(got), len(want))
			}
			c.StateString(strings.Join(texts, "\n"))
		})
		add("histories", fmt.Sprintf("every sequence of %d steps (property set, value object changed, contents replaced, child added, child changed, signals, connections, arguments and template set, encoded on its own, as a child or in a tree) on an element of each kind by number and by path; every encoding states the content of that moment", t.Pick(5, 6)), func(c *engine.C) {
			k := choose(c, elemKinds)
			e := &ref.Elem{Kind: k, Number: 5, Contents: true, Props: map[int]ref.Val{}}
			if c.Bool() {
				e.Path = []int32{1, 5}
			}
			el := build(e)
			parent := &ref.Elem{Kind: ref.Node, Number: 1, Children: []*ref.Elem{e}}
			up := build(&ref.Elem{Kind: ref.Node, Number: 1})
			ok(c, up.AddChild(el), "AddChild")
			tree := embertree.NewTree()
			tree.AddElement(up)
			set := func(x *ref.Elem, on *embertree.Element, ctx int, s string) {
				x.Props[ctx] = sv(s)
				accessors[x.Kind][ctx].set(on.GetContent(), x.Props[ctx])
			}
			ops := []func(i int){
				func(i int) { checkStates(c, el, e) },
				func(i int) {
					want := text(byNumber(flat(parent)))
					same(c, text(stated(c, up)), want, "the parent's encoding")
					l, err := ref.ParseRoot(encoded(c, tree, "the tree"))
					if err != nil || len(l) != 1 {
						c.Failf("the tree message is not well formed: %v", err)
					}
					same(c, text(l[0]), want, "the tree's encoding")
					c.Step()
				},
				func(i int) { set(e, el, 0, fmt.Sprint("id", i)) },
				func(i int) { set(e, el, 1, []string{"", "text"}[i%2]) },
				func(i int) {
					x := newContents(k)
					e.Props, e.Template, e.Args, e.HasArgs = map[int]ref.Val{0: sv(fmt.Sprint("new", i))}, nil, nil, false
					accessors[k][0].set(x, e.Props[0])
					ok(c, el.SetContents(x), "SetContents")
				},
				func(i int) {
					kid := &ref.Elem{Kind: ref.Param, Number: int32(10 + i), Contents: true, Props: map[int]ref.Val{0: sv("kid")}}
					e.Children = append(e.Children, kid)
					ok(c, el.AddChild(build(kid)), "AddChild")
				},
				func(i int) {
					if len(e.Children) > 0 {
						kid := e.Children[0]
						set(kid, el.Children[int(kid.Number)], 1, fmt.Sprint("kid", i))
					}
				},
				func(i int) {
					switch k {
					case ref.Matrix:
						e.HasTargets, e.Targets = true, append([]int32{int32(i)}, e.Targets...)
						ok(c, el.SetTargets(signals(e.Targets, false)), "SetTargets")
						e.HasConns, e.Conns = true, append([]ref.Conn{{Target: int32(i), Sources: []int32{1}}}, e.Conns...)
						ok(c, el.SetConnections(connections(e.Conns)), "SetConnections")
					case ref.Param:
						x := el.GetContent().(paramC).GetValueObject()
						x.SetInt(int64(i))
						e.Props[2] = iv(int64(i))
					case ref.Node:
						e.Template = []int32{int32(i + 1)}
						el.GetContent().(nodeC).SetTemplateReference(asPath(e.Template))
					case ref.Func:
						e.HasArgs, e.Args = true, append([]ref.Tuple{{Type: i + 1, Name: "arg"}}, e.Args...)
						el.GetContent().(funcC).SetArguments(tuples(e.Args))
					}
				},
			}
			for i := 0; i < t.Pick(5, 6); i++ {
				op := c.Choose(len(ops))
				c.Logf("step %d", op)
				ops[op](i)
			}
			ops[0](0)
		})
		sizes := []int{1, 2, 16, 17, 127, 128, 200, 256, 257, 1000}
		if t.Thorough {
			sizes = append(sizes, 5000)
		}
		add("wide", "an element with up to 1000 (thorough 5000) children, and as many top-level elements", func(c *engine.C) {
			n := choose(c, sizes)
			e := &ref.Elem{Kind: ref.Node, Number: 1, Contents: true, Props: map[int]ref.Val{}}
			for i := 0; i < n; i++ {
				e.Children = append(e.Children, small(ref.Node, int32(i*3), 2))
			}
			if c.Bool() {
				checkEncodes(c, e)
				return
			}
			tree := embertree.NewTree()
			for _, k := range e.Children {
				tree.AddElement(build(settable(k)))
			}
			l, err := ref.ParseRoot(encoded(c, tree, "the tree"))
			if err != nil {
				c.Failf("the tree message is not well formed: %v", err)
			}
			c.Step()
			same(c, len(l), n, "number of top-level elements")
			same(c, ref.KidsText(l), ref.KidsText(flat(settable(e)).Children), "top-level elements")
		})
		return l
	})

	engine.Register("C08", []string{"Messages use the value types integer, real, string, boolean, octets and relative object identifier; no property is announced twice; at most one child per number."}, func(t engine.Tier) []*engine.Scenario {
		var l []*engine.Scenario
		add := func(name, what string, run func(c *engine.C)) {
			l = append(l, &engine.Scenario{Name: name, What: what, Run: run})
		}
		for _, k := range elemKinds {
			k := k
			add("subsets-"+k.String(), "every subset of the properties of a "+k.String()+", two sets of values, by number and by path", func(c *engine.C) {
				checkDecodes(c, genSubset(c, k, func(ctx int) bool {
					return k == ref.Param && fewParams(t) != nil && (fewParams(t)(ctx) || ctx == 17)
				}))
			})
		}
		add("values", "every property with every boundary value of each of its types, alone and among all others", func(c *engine.C) {
			checkDecodes(c, genValue(c))
		})
		add("addresses", "every kind under boundary numbers and paths, with and without contents", func(c *engine.C) {
			e := genAddress(c)
			if e.Kind == ref.Cmd && e.Contents {
				e.Flags = choose(c, []int64{-2, -1, 0, 1, 2, 3, 127, 128, math.MaxInt32, math.MinInt32})
			}
			checkDecodes(c, e)
		})
		add("children", "every kind with every choice of up to 2 (thorough 3) children of any kind in three states of filling, with up to 3 levels below the first", func(c *engine.C) {
			checkDecodes(c, genFamily(c, t.Pick(2, 3), t.Pick(3, 4)))
		})
		add("order", "the properties of each kind in every order (all permutations of every choice of 3, thorough 4, of them)", func(c *engine.C) {
			k := choose(c, elemKinds)
			e := &ref.Elem{Kind: k, Contents: true, Props: map[int]ref.Val{}}
			address(c, e)
			n := len(ctxs(k))
			total := n + nExtras(k)
			picked := map[int]bool{}
			var order []int
			for i := 0; i < t.Pick(3, 4) && len(order) < total; i++ {
				j := c.Choose(total - len(order))
				for x := 0; ; x++ {
					if picked[x] {
						continue
					}
					if j == 0 {
						picked[x] = true
						order = append(order, x)
						break
					}
					j--
				}
			}
			set := ref.K(ref.TagSet)
			for _, x := range order {
				one := &ref.Elem{Kind: k, Contents: true, Props: map[int]ref.Val{}}
				if x < n {
					ctx := ctxs(k)[x]
					e.Props[ctx] = propSample(k, ctx, 0)
					one.Props[ctx] = e.Props[ctx]
				} else {
					addExtra(e, x-n)
					addExtra(one, x-n)
				}
				set.Add(one.ContentsTLV().Kids...)
			}
			m := e.TLV()
			m.Kids[1] = ref.Wrap(1, set)
			checkDecodesBytes(c, e, m.Bytes())
		})
		add("field-order", "an element's contents, children, targets, sources and connections in every order", func(c *engine.C) {
			k := choose(c, elemKinds)
			e := small(k, 9, 2)
			if c.Bool() {
				e.Path = []int32{4, 9}
			}
			e.Children = []*ref.Elem{small(ref.Param, 1, 2), small(ref.Node, 2, 0)}
			m := e.TLV()
			rest := append([]*ref.TLV{}, m.Kids[1:]...)
			m.Kids = m.Kids[:1]
			for len(rest) > 0 {
				i := c.Choose(len(rest))
				m.Add(rest[i])
				rest = append(rest[:i:i], rest[i+1:]...)
			}
			checkDecodesBytes(c, e, m.Bytes())
		})
		add("trees", "messages of up to 4 top-level elements of any kind, by number or by one-number path", func(c *engine.C) {
			var els []*ref.Elem
			for i, m := 0, c.Choose(t.Pick(4, 5)); i < m; i++ {
				e := small(ref.Kind(c.Choose(int(ref.NKinds))), []int32{0, 1, 128, 70000}[i], 2-c.Choose(2)*2)
				if e.Kind != ref.Cmd && c.Bool() {
					e.Path = []int32{e.Number}
				}
				if e.Kind != ref.Cmd && i == 0 && c.Bool() {
					e.Children = []*ref.Elem{small(ref.Param, 3, 2)}
				}
				els = append(els, e)
			}
			tree := decodeTree(c, ref.RootTLV(els).Bytes())
			c.Step()
			same(c, len(tree.RootElementCollection), len(els), "number of top-level elements")
			for _, e := range els {
				el := tree.GetElementByNumber(int(e.Num()))
				if el == nil {
					c.Failf("no element %d in the tree", e.Num())
				}
				same(c, text(observe(c, el)), text(visible(e)), "element %d", e.Num())
				same(c, text(statedAll(c, el)), text(e), "encoding of element %d", e.Num())
			}
			c.StateString(ref.KidsText(els))
		})
		add("wide", "an element with up to 1000 (thorough 5000) children, and as many top-level elements", func(c *engine.C) {
			sizes := []int{1, 2, 16, 17, 127, 128, 200, 256, 257, 1000}
			if t.Thorough {
				sizes = append(sizes, 5000)
			}
			e := &ref.Elem{Kind: ref.Node, Number: 1, Contents: true, Props: map[int]ref.Val{}}
			for i, n := 0, choose(c, sizes); i < n; i++ {
				e.Children = append(e.Children, small(ref.Node, int32(i*3), 2))
			}
			if c.Bool() {
				checkDecodes(c, e)
				return
			}
			tree := decodeTree(c, ref.RootTLV(e.Children).Bytes())
			same(c, len(tree.RootElementCollection), len(e.Children), "number of top-level elements")
			for _, k := range e.Children {
				same(c, text(observe(c, tree.GetElementByNumber(int(k.Number)))), text(visible(k)), "element %d", k.Number)
			}
		})
		add("deep", "chains of elements nested up to 60 levels", func(c *engine.C) {
			k := choose(c, elemKinds)
			n := choose(c, []int{2, 5, 10, 30, 60})
			e := small(k, 1, 2)
			top := e
			for i := 1; i < n; i++ {
				kid := small(choose2(i, k), int32(i), 2)
				e.Children = []*ref.Elem{kid}
				e = kid
			}
			checkDecodes(c, top)
		})
		add("new-contents", "elements of every kind received by number or path, with or without contents, that are then given new contents", func(c *engine.C) {
			k := choose(c, elemKinds)
			e := small(k, 4, c.Choose(3))
			if k != ref.Cmd && c.Bool() {
				e.Path = []int32{1, 4}
			}
			e.Contents = c.Bool()
			if !e.Contents {
				e = &ref.Elem{Kind: e.Kind, Number: e.Number, Path: e.Path, Children: e.Children}
			}
			el, err := embertree.DecodeElement(reader(e.TLV().Bytes()))
			ok(c, err, "decode")
			made := el.CreateContent()
			c.Step()
			if made == nil && k == ref.Matrix && e.Path == nil {
				return // matrices by number are made with their contents
			}
			if made == nil || el.GetContent() != made {
				c.Failf("CreateContent gives %T, the element has %T", made, el.GetContent())
			}
			want := map[ref.Kind]string{ref.Node: "*embertree.NodeContents", ref.Param: "*embertree.ParameterContents", ref.Func: "*embertree.FunctionContents", ref.Cmd: "*embertree.CommandContents", ref.Matrix: "*embertree.MatrixContent"}[k]
			same(c, fmt.Sprintf("%T", made), want, "new contents of a "+k.String())
			if x, is := made.(interface{ SetIdentifier(string) }); is {
				x.SetIdentifier("new")
				got := stated(c, el)
				same(c, got.Props[0].S, "new", "identifier in new contents")
				same(c, len(got.Props), map[bool]int{true: 3, false: 1}[k == ref.Matrix], "number of properties in new contents") // a matrix has a type and a mode
			}
			c.StateString(text(e))
		})
		add("glow-types", "properties whose Glow type the library does not offer: access and type as integers, null values, enumeration maps, stream descriptors", func(c *engine.C) {
			param := func(prop *ref.TLV) []byte {
				return ref.K(ref.App(1), ref.Wrap(0, ref.Int(4)), ref.Wrap(1, ref.K(ref.TagSet, ref.Wrap(0, ref.Str("p")), prop))).Bytes()
			}
			type tc struct {
				key  string
				b    []byte
				test func(x paramC) error
			}
			cases := []tc{
				{"GetAccess-integer", param(ref.Wrap(5, ref.Int(3))), func(x paramC) error {
					if _, err := x.GetAccess(); err != nil {
						return fmt.Errorf("GetAccess: %s", err.Message)
					}
					return nil
				}},
				{"GetType-integer", param(ref.Wrap(13, ref.Int(1))), func(x paramC) error {
					if _, err := x.GetType(); err != nil {
						return fmt.Errorf("GetType: %s", err.Message)
					}
					return nil
				}},
				{"value-null", param(ref.Wrap(2, ref.P(5, nil))), nil},
				{"parameter-enumMap", param(ref.Wrap(15, ref.K(ref.App(8), ref.Wrap(0, ref.K(ref.App(7), ref.Wrap(0, ref.Str("on")), ref.Wrap(1, ref.Int(1))))))), nil},
				{"parameter-streamDescriptor", param(ref.Wrap(16, ref.K(ref.App(12), ref.Wrap(0, ref.Int(1)), ref.Wrap(1, ref.Int(4))))), nil},
			}
			k := choose(c, cases)
			el, err := embertree.DecodeElement(reader(k.b))
			c.Step()
			c.StateString(k.key)
			if err != nil {
				c.Fail(k.key, "a parameter is refused: %s\n% x", err.Message, k.b)
				return
			}
			x, isParam := el.GetContent().(paramC)
			c.Assert(isParam, "no parameter contents")
			id, err := x.GetIdentifier()
			ok(c, err, "GetIdentifier")
			same(c, id, "p", "identifier")
			if k.test != nil {
				if err := k.test(x); err != nil {
					c.Fail(k.key, "%v\n% x", err, k.b)
				}
			}
		})
		return l
	})
}

func choose2(i int, k ref.Kind) ref.Kind {
	if i%3 == 0 {
		return k
	}
	return ref.Node
}
