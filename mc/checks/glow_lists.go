package checks

import (
	"fmt"
	"math"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"

	"verifmc/engine"
	"verifmc/ref"
)

var signalNumbers = []int32{0, 1, 127, 128, 300, 65535, 65536, math.MaxInt32, -1, math.MinInt32}

// numbersOf: n distinct-looking numbers starting anywhere in the list.
func numbersOf(c *engine.C, n int, start int) []int32 {
	l := []int32{}
	for i := 0; i < n; i++ {
		if n <= len(signalNumbers) {
			l = append(l, signalNumbers[(start+i*3)%len(signalNumbers)])
		} else {
			l = append(l, int32((i*7919+start)%100003))
		}
	}
	return l
}

func nonNegative(l []int32) []int32 {
	out := []int32{}
	for _, x := range l {
		if x < 0 {
			x = 5
		}
		out = append(out, x)
	}
	return out
}

var listLens = []int{0, 1, 2, 3, 5, 43, 127, 128, 300}

func matrixElem(c *engine.C) *ref.Elem {
	e := &ref.Elem{Kind: ref.Matrix, Number: 3, Props: map[int]ref.Val{}}
	if c.Bool() {
		e.Path = []int32{1, 3}
	}
	if c.Bool() {
		e.Contents = true
		e.Props = map[int]ref.Val{0: sv("m"), 2: iv(2), 3: iv(1), 4: iv(9), 5: iv(8), 8: pv(1, 2)}
	}
	return e
}

func init() {
	engine.Register("C09", []string{"Target and source numbers are 32-bit; the sources of a connection are non-negative as they are transmitted as an object identifier."}, func(t engine.Tier) []*engine.Scenario {
		lens := listLens
		if t.Thorough {
			lens = append(append([]int{}, lens...), 2000, 10000)
		}
		// both directions
		both := func(c *engine.C, e *ref.Elem) {
			if c.Bool() {
				checkDecodes(c, e)
				return
			}
			el := build(settable(e))
			got := stated(c, el)
			c.Step()
			same(c, got.SignalsText(), e.SignalsText(), "signals and connections encoded")
			same(c, text(got), text(settable(e)), "the matrix encoded")
			same(c, text(observe(c, el)), text(visible(settable(e))), "the matrix after encoding")
			back, err := embertree.DecodeElement(reader(encoded(c, el, "the matrix")))
			ok(c, err, "decoding what the library encoded")
			same(c, observe(c, back).SignalsText(), e.SignalsText(), "signals and connections decoded again")
			c.StateString(text(got))
		}
		var l []*engine.Scenario
		add := func(name, what string, run func(c *engine.C)) {
			l = append(l, &engine.Scenario{Name: name, What: what, Run: run})
		}
		add("signals", "targets and sources: every pair of list lengths up to 300 (thorough 10000) or absent, boundary numbers in every rotation", func(c *engine.C) {
			e := matrixElem(c)
			n := c.Choose(len(lens) + 1)
			m := c.Choose(len(lens) + 1)
			start := 0
			if n < 5 && m < 5 {
				start = c.Choose(len(signalNumbers))
			}
			if n < len(lens) {
				e.HasTargets, e.Targets = true, numbersOf(c, lens[n], start)
			}
			if m < len(lens) {
				e.HasSources, e.Sources = true, numbersOf(c, lens[m], start+1)
			}
			both(c, e)
		})
		add("connections", "up to 2 (thorough 3) connections with every operation and disposition, targets and source lists of every length up to 300 (thorough 10000)", func(c *engine.C) {
			e := matrixElem(c)
			n := c.Choose(t.Pick(3, 4))
			e.HasConns = n > 0 || c.Bool()
			for i := 0; i < n; i++ {
				x := ref.Conn{Target: signalNumbers[(i+c.Choose(2)*4)%len(signalNumbers)], Op: c.Choose(3), Disp: c.Choose(4)}
				k := c.Choose(4)
				if i == 0 && n == 1 {
					k = lens[c.Choose(len(lens))]
					x.Target = choose(c, signalNumbers)
				}
				x.Sources = nonNegative(numbersOf(c, k, i+c.Choose(3)))
				e.Conns = append(e.Conns, x)
			}
			both(c, e)
		})
		add("equal-items", "every sequence of up to 4 (thorough 5) targets, of sources, of sources of a connection over two numbers, and of up to 3 connections that agree in the target, the sources, the operation, several of them or all", func(c *engine.C) {
			e := matrixElem(c)
			two := []int32{7, 300}
			list := func(n int) []int32 {
				out := []int32{}
				for k := c.Choose(n + 1); k > 0; k-- {
					out = append(out, choose(c, two))
				}
				return out
			}
			switch c.Choose(4) {
			case 0:
				e.HasTargets, e.Targets = true, list(t.Pick(4, 5))
			case 1:
				e.HasSources, e.Sources = true, list(t.Pick(4, 5))
			case 2:
				e.HasConns, e.Conns = true, []ref.Conn{{Target: 7, Sources: list(t.Pick(4, 5))}}
			case 3:
				e.HasTargets, e.Targets = true, []int32{7, 300}
				e.HasSources, e.Sources = true, []int32{300, 7}
				e.HasConns = true
				for k := c.Choose(4); k > 0; k-- {
					e.Conns = append(e.Conns, ref.Conn{Target: choose(c, two), Sources: [][]int32{{}, {7}, {300, 7}}[c.Choose(3)], Op: c.Choose(2)})
				}
			}
			both(c, e)
		})
		add("optional-fields", "connections with every choice of announced fields, in every order", func(c *engine.C) {
			e := matrixElem(c)
			x := ref.Conn{Target: 4, Sources: []int32{1, 200}, Op: c.Choose(3), Disp: c.Choose(4), NoSources: c.Bool(), NoOp: c.Bool(), NoDisp: c.Bool()}
			m := ref.ConnTLV(x)
			rest := append([]*ref.TLV{}, m.Kids[1:]...)
			m.Kids = m.Kids[:1]
			for len(rest) > 0 {
				i := c.Choose(len(rest))
				m.Add(rest[i])
				rest = append(rest[:i:i], rest[i+1:]...)
			}
			y := x
			if x.NoSources {
				y.Sources = nil
			}
			if x.NoOp {
				y.Op = 0
			}
			if x.NoDisp {
				y.Disp = 0
			}
			e.HasConns, e.Conns = true, []ref.Conn{y, {Target: 5, Sources: []int32{3}, Op: 1, Disp: 1}}
			b := e.TLV()
			seq := b.Kids[len(b.Kids)-1].Kids[0]
			seq.Kids[0].Kids[0] = m
			checkDecodesBytes(c, e, b.Bytes())
			// on its own
			var k embertree.Connection
			ok(c, k.Decode(reader(m.Bytes())), "decoding a connection")
			wanted := fmt.Sprint(ref.Conn{Target: y.Target, Sources: append([]int32{}, y.Sources...), Op: y.Op, Disp: y.Disp})
			same(c, fmt.Sprint(observedConn(&k)), wanted, "connection")
			if !x.NoSources && !x.NoOp && !x.NoDisp { // the connection may have been another one before
				used := connections([]ref.Conn{{Target: 9, Sources: []int32{8, 7, 6}, Op: 2, Disp: 3}})[0]
				ok(c, used.Decode(reader(m.Bytes())), "decoding a connection once more")
				same(c, fmt.Sprint(observedConn(used)), wanted, "connection decoded into a used one")
			}
		})
		add("alone", "signals and connections encoded and decoded on their own, and the list functions of the element", func(c *engine.C) {
			n := choose(c, signalNumbers)
			switch c.Choose(4) {
			case 0, 1:
				source := c.Bool()
				s := signals([]int32{n}, source)[0]
				b := encoded(c, s, "the signal")
				got, err := ref.ParseSignal(parsed(c, b, "the signal"), source)
				if err != nil || got != n {
					c.Failf("signal %d encodes % x: %d %v", n, b, got, err)
				}
				x, derr := embertree.DecodeSignal(reader(ref.SignalTLV(n, source).Bytes()))
				ok(c, derr, "DecodeSignal")
				same(c, observedSignals(c, []embertree.Signal{x}, source), []int32{n}, "signal")
			case 2:
				x := ref.Conn{Target: n, Sources: nonNegative(numbersOf(c, c.Choose(5), c.Choose(3))), Op: c.Choose(3), Disp: c.Choose(4)}
				b := encoded(c, connections([]ref.Conn{x})[0], "the connection")
				got, err := ref.ParseConn(parsed(c, b, "the connection"))
				if err != nil {
					c.Failf("connection % x: %v", b, err)
				}
				same(c, fmt.Sprintf("%d %v %d %d", got.Target, got.Sources, got.Op, got.Disp), fmt.Sprintf("%d %v %d %d", x.Target, x.Sources, x.Op, x.Disp), "connection")
			case 3:
				el := build(matrixElem(c))
				list := numbersOf(c, c.Choose(4), c.Choose(10))
				must(el.SetTargets(signals(list, false)))
				must(el.SetSources(signals(list, true)))
				conns := []ref.Conn{{Target: n, Sources: []int32{1, 2}, Op: 2, Disp: 2}}
				must(el.SetConnections(connections(conns)))
				check := func(el *embertree.Element) {
					e := observe(c, el)
					same(c, e.Targets, list, "targets")
					same(c, e.Sources, list, "sources")
					same(c, e.SignalsText(), (&ref.Elem{Targets: list, Sources: list, Conns: conns}).SignalsText(), "signals")
				}
				check(el)
				w := &asn1.ASNWriter{}
				ok(c, el.EncodeTargets(w), "EncodeTargets")
				ok(c, el.EncodeSources(w), "EncodeSources")
				ok(c, el.EncodeConnections(w), "EncodeConnections")
				r := reader(written(w))
				other := build(&ref.Elem{Kind: ref.Matrix, Number: 1})
				oldT, oldS := signals([]int32{9, 9, 9, 9}, false), signals([]int32{8, 8, 8, 8}, true)
				oldC := connections([]ref.Conn{{Target: 9, Sources: []int32{8}}, {Target: 7, Op: 1}})
				must(other.SetTargets(oldT))
				must(other.SetSources(oldS))
				must(other.SetConnections(oldC))
				readT, _ := other.GetTargets()
				readS, _ := other.GetSources()
				readC, _ := other.GetConnections()
				if c.Bool() {
					must(other.SetTargets(signals([]int32{1, 2}, false)))
					must(other.SetSources(signals([]int32{3}, true)))
					must(other.SetConnections(connections([]ref.Conn{{Target: 5}})))
				}
				defer func() {
					same(c, observedSignals(c, readT, false), []int32{9, 9, 9, 9}, "targets read before")
					same(c, observedSignals(c, readS, true), []int32{8, 8, 8, 8}, "sources read before")
					same(c, fmt.Sprint(observedConn(readC[0]), observedConn(readC[1])), fmt.Sprint(ref.Conn{Target: 9, Sources: []int32{8}}, ref.Conn{Target: 7, Sources: []int32{}, Op: 1}), "connections read before")
					same(c, observedSignals(c, oldT, false), []int32{9, 9, 9, 9}, "targets the caller had set before")
					same(c, observedSignals(c, oldS, true), []int32{8, 8, 8, 8}, "sources the caller had set before")
					same(c, fmt.Sprint(observedConn(oldC[0]), observedConn(oldC[1])), fmt.Sprint(ref.Conn{Target: 9, Sources: []int32{8}}, ref.Conn{Target: 7, Sources: []int32{}, Op: 1}), "connections the caller had set before")
				}()
				ok(c, other.DecodeTargets(r), "DecodeTargets")
				ok(c, other.DecodeSources(r), "DecodeSources")
				ok(c, other.DecodeConnections(r), "DecodeConnections")
				same(c, r.Len(), 0, "bytes left")
				check(other)
			}
			c.Step()
		})
		return l
	})

	engine.Register("C10", []string{"Values are of the types integer, real, string, boolean, octets and relative object identifier."}, func(t engine.Tier) []*engine.Scenario {
		var l []*engine.Scenario
		add := func(name, what string, run func(c *engine.C)) {
			l = append(l, &engine.Scenario{Name: name, What: what, Run: run})
		}
		counts := []int{0, 1, 2, 3, 4, 20, 127, 128, 300}
		if t.Thorough {
			counts = append(counts, 2000)
		}
		names := []string{"", "a", "same", "same", "gäin\x00", string(make([]byte, 130))}
		tupleList := func(c *engine.C, n, from int) []ref.Tuple {
			out := []ref.Tuple{}
			for i := 0; i < n; i++ {
				name := names[(i+from)%len(names)]
				if i%5 == 4 {
					name = fmt.Sprint("n", i)
				}
				out = append(out, ref.Tuple{Type: (i*3 + from) % 256, Name: name})
			}
			return out
		}
		add("signatures", "every pair of argument and result counts up to 300 (thorough 2000), or absent, in both directions", func(c *engine.C) {
			e := &ref.Elem{Kind: ref.Func, Number: 2, Contents: true, Props: map[int]ref.Val{}}
			address(c, e)
			if c.Bool() {
				e.Props[0], e.Props[1], e.Template = sv("f"), sv("d"), []int32{1}
			}
			n, m := c.Choose(len(counts)+1), c.Choose(len(counts)+1)
			if n < len(counts) {
				e.HasArgs, e.Args = true, tupleList(c, counts[n], c.Choose(3))
			}
			if m < len(counts) {
				e.HasResults, e.Results = true, tupleList(c, counts[m], 7)
			}
			if c.Bool() {
				checkDecodes(c, e)
			} else {
				checkEncodes(c, e)
			}
		})
		add("tuples", "every type number and every interesting name of a description, fields in both orders", func(c *engine.C) {
			ty := c.Choose(256)
			name := choose(c, domain(ref.VString)).S
			x := embertree.NewArgument(embertree.ParameterType(ty), name)
			b := encoded(c, x, "the description")
			want := ref.K(ref.App(21), ref.Wrap(0, ref.Int(int64(ty))), ref.Wrap(1, ref.Str(name)))
			got := parsed(c, b, "the description")
			c.Step()
			same(c, got.SetForms(ref.Short).Bytes(), want.SetForms(ref.Short).Bytes(), "description")
			if c.Bool() {
				want.Kids[0], want.Kids[1] = want.Kids[1], want.Kids[0]
			}
			var y embertree.TupleDescription
			ok(c, y.Decode(reader(want.Bytes())), "decoding a description")
			same(c, fmt.Sprint(y), fmt.Sprint(*x), "description")
			z := embertree.NewArgument(embertree.ParameterType(ty+1), name+"?")
			ok(c, z.Decode(reader(want.Bytes())), "decoding a description once more")
			same(c, fmt.Sprint(*z), fmt.Sprint(*x), "description decoded into a used one")
		})
		types := []int64{-1 << 31, 1<<31 - 1, 1 << 32, -1 << 32, 1<<32 + 1, 1<<40 + 1, math.MaxInt64, math.MinInt64}
		for i := int64(-520); i <= 1040; i++ {
			types = append(types, i)
		}
		for i := uint(10); i < 31; i++ {
			types = append(types, 1<<i-1, 1<<i, 1<<i+1, -(1 << i), -(1<<i)+1)
		}
		add("tuple-types", "every type number from -520 to 1040 and around every power of two: those a description cannot hold are refused, alone and in the signature of a known function", func(c *engine.C) {
			ty := choose(c, types)
			fits := ty >= 0 && ty <= 255
			var y embertree.TupleDescription
			d := ref.K(ref.App(21), ref.Wrap(0, ref.Int(ty)), ref.Wrap(1, ref.Str("x")))
			err := y.Decode(reader(d.Bytes()))
			c.Step()
			if fits {
				ok(c, err, "decoding a description of type %d", ty)
				same(c, int64(y.Type), ty, "type")
			} else if err == nil {
				c.Failf("a description of type %d is accepted as one of type %d", ty, y.Type)
			}
			old := &ref.Elem{Kind: ref.Func, Number: 2, Contents: true, HasArgs: true, Args: []ref.Tuple{{Type: 3, Name: "a"}}, HasResults: true, Results: []ref.Tuple{{Type: 4, Name: "r"}}}
			tree := decodeTree(c, ref.RootTLV([]*ref.Elem{old}).Bytes())
			upd := &ref.Elem{Kind: ref.Func, Number: 2, Contents: true}
			if c.Bool() {
				upd.Path = []int32{2}
			}
			list := []ref.Tuple{{Type: 1, Name: "b"}, {Type: int(ty), Name: "c"}}
			results := c.Bool()
			if results {
				upd.HasResults, upd.Results = true, list
			} else {
				upd.HasArgs, upd.Args = true, list
			}
			err = tree.Decode(reader(ref.RootTLV([]*ref.Elem{upd}).Bytes()))
			f := tree.GetElementByNumber(2).GetContent().(*embertree.FunctionContents)
			got := [2]string{}
			for i, l := range [][]*embertree.TupleDescription{f.GetArguments(), f.GetResult()} {
				for _, x := range l {
					got[i] += fmt.Sprintf("%d %s;", x.Type, x.Name)
				}
			}
			want := [2]string{"3 a;", "4 r;"}
			if fits {
				ok(c, err, "message")
				k := 0
				if results {
					k = 1
				}
				want[k] = fmt.Sprintf("1 b;%d c;", ty)
			} else if err == nil {
				c.Failf("a function with a description of type %d is accepted: %v", ty, got)
			}
			same(c, got, want, "signature in the tree")
			c.Step()
			c.State(uint64(ty))
		})
		add("equal-tuples", "every sequence of up to 4 (thorough 5) arguments or results over two types and two names", func(c *engine.C) {
			e := &ref.Elem{Kind: ref.Func, Number: 2, Contents: true, Props: map[int]ref.Val{}}
			address(c, e)
			var list []ref.Tuple
			for k := c.Choose(t.Pick(5, 6)); k > 0; k-- {
				list = append(list, ref.Tuple{Type: 1 + c.Choose(2), Name: []string{"x", "y"}[c.Choose(2)]})
			}
			which := c.Choose(3)
			if which != 0 {
				e.HasArgs, e.Args = true, list
			}
			if which != 1 {
				e.HasResults, e.Results = true, list
			}
			if c.Bool() {
				checkDecodes(c, e)
			} else {
				checkEncodes(c, e)
			}
		})
		checkInvocation := func(c *engine.C, id int, vals []ref.Val) {
			var args []*embertree.ContentParameter
			want := ref.K(ref.App(22), ref.Wrap(0, ref.Int(int64(id))))
			seq := ref.K(ref.TagSeq)
			for _, v := range vals {
				a := embertree.NewContentParameter()
				setObj(a, v)
				args = append(args, a)
				seq.Add(ref.Wrap(0, v.TLV()))
			}
			if len(vals) > 0 {
				want.Add(ref.Wrap(1, seq))
			}
			describe := func(b []byte) string {
				m := parsed(c, b, "the invocation")
				if m.Tag != ref.App(22) || len(m.Kids) == 0 {
					c.Failf("not an invocation: % x", clipb(b))
				}
				s := ""
				for _, k := range m.Kids {
					switch {
					case k.Tag == ref.Ctx(0) && len(k.Kids) == 1:
						v, err := ref.ParseVal(k.Kids[0])
						s += fmt.Sprint("id ", v, err)
					case k.Tag == ref.Ctx(1) && len(k.Kids) == 1 && k.Kids[0].Tag == ref.TagSeq:
						for _, a := range k.Kids[0].Kids {
							if a.Tag != ref.Ctx(0) || len(a.Kids) != 1 {
								c.Failf("argument % x", clipb(a.Bytes()))
							}
							v, err := ref.ParseVal(a.Kids[0])
							s += fmt.Sprint(" arg ", v, err)
						}
					default:
						c.Failf("item %#x in an invocation", k.Tag)
					}
				}
				return s
			}
			wanted := describe(want.Bytes())
			inv := embertree.NewInvocation(id, args)
			same(c, describe(encoded(c, inv, "the invocation")), wanted, "invocation encoded")
			c.Step()
			c.StateString(wanted)
			var back embertree.Invocation
			r := reader(want.Bytes())
			ok(c, back.Decode(r), "decoding an invocation")
			same(c, r.Len(), 0, "bytes left")
			same(c, describe(encoded(c, &back, "the decoded invocation")), wanted, "invocation decoded and encoded again")
			if len(vals) > 0 { // the invocation may have been another one before
				old := embertree.NewContentParameter()
				old.SetString("old")
				used := embertree.NewInvocation(9, []*embertree.ContentParameter{old})
				ok(c, used.Decode(reader(want.Bytes())), "decoding an invocation once more")
				same(c, describe(encoded(c, used, "the decoded invocation")), wanted, "invocation decoded into a used one")
			}
		}
		all := func() []ref.Val {
			var l []ref.Val
			for k := ref.VInt; k < ref.NVKinds; k++ {
				l = append(l, domain(k)...)
			}
			return l
		}()
		add("invocation-values", "invocations with every identifier and one argument of every boundary value of every type", func(c *engine.C) {
			id := choose(c, []int{0, 1, 127, 128, 65536, math.MaxInt32, -1, math.MinInt32})
			checkInvocation(c, id, []ref.Val{choose(c, all)})
		})
		add("invocation-lists", "every sequence of up to 4 (thorough 5) arguments over all types, and long lists", func(c *engine.C) {
			n := c.Choose(t.Pick(5, 6) + len(counts))
			var vals []ref.Val
			if n >= t.Pick(5, 6) {
				for i := 0; i < counts[n-t.Pick(5, 6)]; i++ {
					vals = append(vals, sample(ref.VKind(i%int(ref.NVKinds)), i%2, i%20))
				}
			} else {
				for i := 0; i < n; i++ {
					vals = append(vals, sample(ref.VKind(c.Choose(int(ref.NVKinds))), i%2, i))
				}
			}
			checkInvocation(c, 77, vals)
		})
		add("invocation-equal", "every sequence of up to 5 (thorough 6) arguments over equal and similar values", func(c *engine.C) {
			similar := []ref.Val{iv(1), sv("1"), bv(true), rv(1)}
			var vals []ref.Val
			for k := c.Choose(t.Pick(6, 7)); k > 0; k-- {
				vals = append(vals, choose(c, similar))
			}
			checkInvocation(c, 1, vals)
		})
		add("labels", "labels on their own: every interesting path and text", func(c *engine.C) {
			p, s := choose(c, domain(ref.VOID)).O, choose(c, domain(ref.VString)).S
			lab := embertree.NewLabel(asPath(p), s)
			b := encoded(c, lab, "the label")
			got, err := ref.ParseLabel(parsed(c, b, "the label"))
			if err != nil {
				c.Failf("label % x: %v", clipb(b), err)
			}
			same(c, fmt.Sprintf("%v %q", got.Path, got.Text), fmt.Sprintf("%v %q", p, s), "label encoded")
			r := reader(ref.LabelTLV(ref.Label{Path: p, Text: s}).Bytes())
			x, derr := embertree.DecodeLabel(r)
			ok(c, derr, "DecodeLabel")
			same(c, r.Len(), 0, "bytes left")
			same(c, fmt.Sprintf("%v %q", []int32(x.BasePath), x.Description), fmt.Sprintf("%v %q", p, s), "label decoded")
			c.Step()
		})
		add("matrix-labels", "matrices with every number of labels up to 300 (thorough 2000) or none, any subset of five other properties, labels at any place among them, by number and path, and updated by a message that mentions them or not", func(c *engine.C) {
			e := &ref.Elem{Kind: ref.Matrix, Number: 2, Contents: true, Props: map[int]ref.Val{}}
			address(c, e)
			for _, ctx := range []int{0, 2, 9, 11} {
				if c.Bool() {
					e.Props[ctx] = propSample(ref.Matrix, ctx, 0)
				}
			}
			if c.Bool() {
				e.Template = []int32{3, 4}
			}
			e.HasLabels = true
			for i, n := 0, choose(c, counts); i < n; i++ {
				e.Labels = append(e.Labels, ref.Label{Path: []int32{int32(i), 200}, Text: names[i%len(names)]})
			}
			m := e.TLV()
			set := m.Kids[1].Kids[0]
			var at int
			for i, k := range set.Kids {
				if k.Tag == ref.Ctx(10) {
					at = i
				}
			}
			if to := c.Choose(len(set.Kids)); to < len(set.Kids) {
				lab := set.Kids[at]
				rest := append(append([]*ref.TLV{}, set.Kids[:at]...), set.Kids[at+1:]...)
				set.Kids = append(append(append([]*ref.TLV{}, rest[:to]...), lab), rest[to:]...)
			}
			checkDecodesBytes(c, e, m.Bytes())
		})
		add("equal-labels", "every sequence of up to 4 (thorough 5) labels of a matrix over two paths and two texts", func(c *engine.C) {
			e := &ref.Elem{Kind: ref.Matrix, Number: 2, Contents: true, HasLabels: true, Props: map[int]ref.Val{}}
			address(c, e)
			for k := c.Choose(t.Pick(5, 6)); k > 0; k-- {
				e.Labels = append(e.Labels, ref.Label{Path: [][]int32{{1, 2}, {3}}[c.Choose(2)], Text: []string{"a", "b"}[c.Choose(2)]})
			}
			checkDecodes(c, e)
		})
		add("matrix-label-updates", "labels of a matrix in the tree after a second message about it with or without labels", func(c *engine.C) {
			n, k := c.Choose(4), c.Choose(5)-1
			mk := func(n int, base int32) *ref.Elem {
				e := &ref.Elem{Kind: ref.Matrix, Number: 2, Contents: true, Props: map[int]ref.Val{0: sv("m")}}
				e.HasLabels = n != 0 // -1: an empty list
				for i := 0; i < n; i++ {
					e.Labels = append(e.Labels, ref.Label{Path: []int32{base + int32(i)}, Text: fmt.Sprint(base, i)})
				}
				return e
			}
			first, second := mk(n, 10), mk(k, 200)
			if c.Bool() {
				second.Path = []int32{2}
			}
			tree := decodeTree(c, ref.RootTLV([]*ref.Elem{first}).Bytes())
			ok(c, tree.Decode(reader(ref.RootTLV([]*ref.Elem{second}).Bytes())), "second message")
			want := second
			if k == 0 {
				want = first
			}
			same(c, stated(c, tree.GetElementByNumber(2)).ContentsText(), want.ContentsText(), "contents with labels")
			// contents that were other contents before
			x := &embertree.MatrixContent{}
			ok(c, x.Decode(reader(first.ContentsTLV().Bytes())), "decoding contents")
			ok(c, x.Decode(reader(second.ContentsTLV().Bytes())), "decoding contents once more")
			el := build(&ref.Elem{Kind: ref.Matrix, Number: 2})
			must(el.SetContents(x))
			same(c, stated(c, el).ContentsText(), want.ContentsText(), "contents decoded into used ones")
			c.Step()
		})
		return l
	})

	engine.Register("C15", nil, func(t engine.Tier) []*engine.Scenario {
		vals := [][]ref.Val{
			{sv("a"), sv("")}, {bv(true), bv(false)}, {iv(5), iv(0)}, {ov("\x01\x02"), ov("\x03")}, {rv(1.5), rv(0)}, {pv(1, 2), pv(7)},
		}
		types := []embertree.ValueType{embertree.ValueTypeString, embertree.ValueTypeBool, embertree.ValueTypeInteger, embertree.ValueTypeBuffer, embertree.ValueTypeReal, embertree.ValueTypeOID}
		kinds := []ref.VKind{ref.VString, ref.VBool, ref.VInt, ref.VOctets, ref.VReal, ref.VOID}
		// check compares every accessor with the model; -1 is unset
		type read struct {
			b []byte
			o asn1.RelativeOID
			v ref.Val
		}
		check := func(c *engine.C, o *embertree.ContentParameter, ty int, v ref.Val) (kept read) {
			kept.v = v
			same(c, o.IsSet(), ty >= 0, "IsSet")
			want := embertree.ValueTypeUnset
			if ty >= 0 {
				want = types[ty]
			}
			same(c, o.GetType(), want, "type")
			for i := range types {
				var got ref.Val
				var err interface{}
				bad := false
				switch kinds[i] {
				case ref.VString:
					x, e := o.GetString()
					got, err, bad = sv(x), e, e != nil
				case ref.VBool:
					x, e := o.GetBool()
					got, err, bad = bv(x), e, e != nil
				case ref.VInt:
					x, e := o.GetInt()
					got, err, bad = iv(x), e, e != nil
				case ref.VOctets:
					x, e := o.GetBuffer()
					got, err, bad = ov(string(x)), e, e != nil
					if !bad {
						kept.b = x
					}
				case ref.VReal:
					x, e := o.GetReal()
					got, err, bad = rv(x), e, e != nil
				case ref.VOID:
					x, e := o.GetRelativeOID()
					got, err, bad = pv(x...), e, e != nil
					if !bad {
						kept.o = x
					}
				}
				c.Step()
				if i == ty {
					if bad {
						c.Failf("the accessor of %s reports %v", embertree.ValueType2String(types[i]), err)
					}
					same(c, got, v, "value")
				} else if !bad {
					c.Failf("a value of type %s is read as %s without error", embertree.ValueType2String(want), embertree.ValueType2String(types[i]))
				}
			}
			return kept
		}
		depth := t.Pick(4, 5)
		nset := len(vals) * 2
		var l []*engine.Scenario
		l = append(l, &engine.Scenario{Name: "assignments", What: fmt.Sprintf("every sequence of %d assignments (two values of each of the six types) and copies between two value objects, all accessors of both checked after each; the first steps also on objects inside parameter contents", depth), Run: func(c *engine.C) {
			var o [2]*embertree.ContentParameter
			if c.Bool() {
				o[0], o[1] = embertree.NewContentParameter(), &embertree.ContentParameter{}
			} else {
				p := embertree.NewParameterContents().(paramC)
				o[0], o[1] = p.GetValueObject(), p.GetDefaultObject()
			}
			ty := [2]int{-1, -1}
			var v [2]ref.Val
			var got []read
			for i := 0; i < depth; i++ {
				// by symmetry the first step is on the first object
				w := 0
				if i > 0 {
					w = c.Choose(2)
				}
				op := c.Choose(nset + 2)
				switch {
				case op < nset:
					ty[w], v[w] = op/2, vals[op/2][op%2]
					setObj(o[w], v[w])
					c.Logf("object %d := %v", w, v[w])
				default:
					from := 1 - w
					if op == nset+1 {
						from = w
					}
					err := o[w].Set(o[from])
					legal := ty[w] < 0 || ty[w] == ty[from]
					c.Logf("object %d := object %d: %v", w, from, err)
					if legal && err != nil {
						c.Failf("copying a %d into a %d is refused: %s", ty[from], ty[w], err.Message)
					}
					if !legal && err == nil {
						c.Failf("copying a %d into a %d is accepted", ty[from], ty[w])
					}
					if legal {
						ty[w], v[w] = ty[from], v[from]
					}
				}
				got = append(got, check(c, o[0], ty[0], v[0]), check(c, o[1], ty[1], v[1]))
				c.StateString(fmt.Sprint(ty, v))
			}
			for _, x := range got {
				if x.b != nil {
					same(c, string(x.b), x.v.S, "octets read earlier")
				}
				if x.o != nil {
					same(c, []int32(x.o), x.v.O, "identifier read earlier")
				}
			}
		}})
		var all []ref.Val
		for _, k := range kinds {
			all = append(all, domain(k)...)
		}
		l = append(l, &engine.Scenario{Name: "values", What: "every boundary value of every type, assigned, copied, encoded, decoded and printed", Run: func(c *engine.C) {
			i := c.Choose(len(all))
			v := all[i]
			ty := -1
			for k := range kinds {
				if kinds[k] == v.K {
					ty = k
				}
			}
			o, p := embertree.NewContentParameter(), embertree.NewContentParameter()
			setObj(o, v)
			check(c, o, ty, v)
			ok(c, p.Set(o), "copy")
			check(c, p, ty, v)
			ctx := uint8(c.Choose(3) * 9)
			w := &asn1.ASNWriter{}
			ok(c, p.Encode(ctx, w), "encode")
			q, err := embertree.DecodeValue(reader(written(w)), ctx)
			ok(c, err, "DecodeValue")
			check(c, q, ty, v)
			_ = o.ToString()
			check(c, o, ty, v)
			// an unset source leaves an unset target unset and is refused by a set one
			u := embertree.NewContentParameter()
			if o.Set(u) == nil {
				c.Failf("an unset value is copied over a set one")
			}
			check(c, o, ty, v)
			check(c, u, -1, v)
			w = &asn1.ASNWriter{}
			ok(c, u.Encode(ctx, w), "encoding an unset value")
			same(c, w.Len(), 0, "bytes of an unset value")
			c.StateString(v.String())
		}})
		return l
	})

	engine.Register("C16", nil, func(t engine.Tier) []*engine.Scenario {
		ints := []int64{math.MinInt32, math.MinInt16, -129, -128, 65535, 65536, 1 << 20, math.MaxInt32}
		for i := int64(-300); i <= 1100; i++ {
			ints = append(ints, i)
		}
		for i := uint(10); i < 31; i++ {
			for d := int64(0); d < 4; d++ {
				ints = append(ints, 1<<i+d, -(1<<i)+d)
			}
		}
		longs := append(append([]int64{}, ints...), 1<<32, 1<<32+1, 1<<32+2, -1<<32, -1<<32+1, math.MaxInt64, math.MinInt64, math.MinInt64+1)
		var l []*engine.Scenario
		add := func(name, what string, n int, at func(c *engine.C, i int)) {
			l = append(l, &engine.Scenario{Name: name, What: what, N: uint64(n), At: func(c *engine.C, i uint64) { at(c, int(i)) }})
		}
		add("setters", "operation and disposition of a connection: every number from -300 to 1100 and around every power of two, after every legal previous setting", len(longs), func(c *engine.C, i int) {
			v := longs[i]
			for prev := 0; prev < 4; prev++ {
				var k embertree.Connection
				must(k.SetOperation(prev % 3))
				must(k.SetDisposition(prev))
				err := k.SetOperation(int(v))
				want := prev % 3
				if v >= 0 && v <= 2 {
					want = int(v)
					ok(c, err, "SetOperation(%d)", v)
				} else if err == nil {
					c.Failf("operation %d is accepted", v)
				}
				same(c, int(k.GetOperation()), want, "operation after setting %d", v)
				same(c, int(k.GetDisposition()), prev, "disposition after setting the operation")
				err = k.SetDisposition(int(v))
				wantd := prev
				if v >= 0 && v <= 3 {
					wantd = int(v)
					ok(c, err, "SetDisposition(%d)", v)
				} else if err == nil {
					c.Failf("disposition %d is accepted", v)
				}
				same(c, int(k.GetDisposition()), wantd, "disposition after setting %d", v)
				same(c, int(k.GetOperation()), want, "operation after setting the disposition")
				got, perr := ref.ParseConn(parsed(c, encoded(c, &k, "the connection"), "the connection"))
				if perr != nil || got.Op != want || got.Disp != wantd {
					c.Failf("encoded operation %d disposition %d (%v)", got.Op, got.Disp, perr)
				}
				c.Steps(2)
			}
			c.State(uint64(v))
		})
		add("messages", "connections received with every such operation or disposition, directly, in a matrix and in a tree that already has the connection", len(ints), func(c *engine.C, i int) {
			v := int(ints[i])
			for field := 0; field < 2; field++ {
				x := ref.Conn{Target: 1, Sources: []int32{2}, Op: 1, Disp: 1}
				legal := false
				if field == 0 {
					x.Op, legal = v, v >= 0 && v <= 2
				} else {
					x.Disp, legal = v, v >= 0 && v <= 3
				}
				var k embertree.Connection
				must(k.SetOperation(2))
				must(k.SetDisposition(3))
				err := k.Decode(reader(ref.ConnTLV(x).Bytes()))
				if legal {
					ok(c, err, "connection %+v", x)
					same(c, [2]int{int(k.GetOperation()), int(k.GetDisposition())}, [2]int{x.Op, x.Disp}, "operation and disposition")
				} else {
					if err == nil {
						c.Failf("a connection with operation %d and disposition %d is accepted", x.Op, x.Disp)
					}
					if field == 0 {
						same(c, int(k.GetOperation()), 2, "operation after a refused one")
					} else {
						same(c, int(k.GetDisposition()), 3, "disposition after a refused one")
					}
				}
				old := ref.Conn{Target: 1, Sources: []int32{9}, Op: 2, Disp: 3}
				m := &ref.Elem{Kind: ref.Matrix, Number: 6, Contents: true, Props: map[int]ref.Val{0: sv("m")}, HasConns: true, Conns: []ref.Conn{old}}
				for q := 0; q < 2; q++ {
					tree := decodeTree(c, ref.RootTLV([]*ref.Elem{m}).Bytes())
					upd := &ref.Elem{Kind: ref.Matrix, Number: 6, HasConns: true, Conns: []ref.Conn{x}}
					if q == 1 {
						upd.Path = []int32{6}
					}
					err := tree.Decode(reader(ref.RootTLV([]*ref.Elem{upd}).Bytes()))
					want := x
					if !legal {
						if err == nil {
							c.Failf("a message with operation %d and disposition %d is accepted", x.Op, x.Disp)
						}
						want = old
					} else {
						ok(c, err, "message")
					}
					conns, gerr := tree.GetElementByNumber(6).GetConnections()
					ok(c, gerr, "GetConnections")
					if len(conns) != 1 {
						c.Failf("%d connections", len(conns))
					}
					same(c, fmt.Sprint(observedConn(conns[0])), fmt.Sprint(ref.Conn{Target: 1, Sources: want.Sources, Op: want.Op, Disp: want.Disp}), "connection in the tree")
					c.Step()
				}
			}
			c.State(uint64(v))
		})
		add("matrix", "every 8-bit matrix type and mode, set, validated, and given to the constructors", 256*2, func(c *engine.C, i int) {
			v := int8(i / 2)
			mode := i%2 == 1
			top := int8(2)
			if mode {
				top = 1
			}
			legal := v >= 0 && v <= top
			refuse := func(err bool, what string) {
				if err == legal {
					c.Failf("%s with %d (mode: %v) gives error: %v", what, v, mode, err)
				}
			}
			for prev := int8(0); prev <= top; prev++ {
				x := &embertree.MatrixContent{}
				if mode {
					refuse(embertree.ValidateMatrixMode(embertree.MatrixMode(v)) != nil, "ValidateMatrixMode")
					must(x.SetMode(embertree.MatrixMode(prev)))
					must(x.SetType(embertree.NToN))
					refuse(x.SetMode(embertree.MatrixMode(v)) != nil, "SetMode")
				} else {
					refuse(embertree.ValidateMatrixType(embertree.MatrixType(v)) != nil, "ValidateMatrixType")
					must(x.SetType(embertree.MatrixType(prev)))
					must(x.SetMode(embertree.NonLinear))
					refuse(x.SetType(embertree.MatrixType(v)) != nil, "SetType")
				}
				want := prev
				if legal {
					want = v
				}
				ty, err := x.GetType()
				ok(c, err, "GetType")
				mo, err := x.GetMode()
				ok(c, err, "GetMode")
				if mode {
					same(c, [2]int8{int8(ty), int8(mo)}, [2]int8{2, want}, "type and mode after setting mode %d", v)
				} else {
					same(c, [2]int8{int8(ty), int8(mo)}, [2]int8{want, 1}, "type and mode after setting type %d", v)
				}
				c.Step()
			}
			for other := int8(-1); other <= top+1; other++ {
				ty, mo := embertree.MatrixType(v), embertree.MatrixMode(other)
				if mode {
					ty, mo = embertree.MatrixType(other), embertree.MatrixMode(v)
				}
				fine := ty >= 0 && ty <= 2 && mo >= 0 && mo <= 1
				x, err := embertree.NewMatrixContent(ty, mo)
				if (err == nil) != fine || (x != nil) != fine {
					c.Failf("NewMatrixContent(%d,%d): %v %v", ty, mo, x, err)
				}
				m, err := embertree.NewMatrix(4, ty, mo)
				if (err == nil) != fine || (m != nil) != fine {
					c.Failf("NewMatrix(%d,%d): %v", ty, mo, err)
				}
				q := embertree.NewQualifiedMatrix([]int32{1, 4}, ty, mo)
				if (q != nil) != fine {
					c.Failf("NewQualifiedMatrix(%d,%d): %v", ty, mo, q != nil)
				}
				if fine {
					q.CreateContent()
					for _, y := range []embertree.EmberContents{x, m.GetContent(), q.GetContent()} {
						gt, err := y.(matC).GetType()
						ok(c, err, "GetType")
						gm, err := y.(matC).GetMode()
						ok(c, err, "GetMode")
						same(c, [2]int{int(gt), int(gm)}, [2]int{int(ty), int(mo)}, "type and mode of a new matrix")
					}
				}
				c.Step()
			}
			c.State(uint64(i))
		})
		add("matrix-messages", "matrices received with every such type or mode, by number and path, alone and in a tree that already has the matrix", len(longs), func(c *engine.C, i int) {
			v := longs[i]
			for q := 0; q < 8; q++ {
				mode, bypath, between := q&1 == 1, q&2 == 2, q&4 == 4
				top, was, field := int64(2), int64(1), 2
				if mode {
					top, field = 1, 3
				}
				legal := v >= 0 && v <= top
				old := &ref.Elem{Kind: ref.Matrix, Number: 6, Contents: true, Props: map[int]ref.Val{0: sv("m"), 2: iv(1), 3: iv(1), 4: iv(5)}}
				upd := &ref.Elem{Kind: ref.Matrix, Number: 6, Contents: true, Props: map[int]ref.Val{field: iv(v)}}
				if bypath {
					upd.Path = []int32{6}
				}
				if between {
					upd.Props[1], upd.Props[4] = sv("d"), iv(5)
				}
				read := func(e *embertree.Element) int64 {
					x := e.GetContent().(matC)
					if mode {
						m, err := x.GetMode()
						ok(c, err, "GetMode")
						return int64(m)
					}
					m, err := x.GetType()
					ok(c, err, "GetType")
					return int64(m)
				}
				e, err := embertree.DecodeElement(reader(upd.TLV().Bytes()))
				if legal {
					ok(c, err, "matrix")
					same(c, read(e), v, "setting of the received matrix")
				} else if err == nil {
					c.Failf("a matrix with %d as its type or mode (mode: %v) is accepted; it reads as %d", v, mode, read(e))
				}
				tree := decodeTree(c, ref.RootTLV([]*ref.Elem{old}).Bytes())
				err = tree.Decode(reader(ref.RootTLV([]*ref.Elem{upd}).Bytes()))
				want := was
				if legal {
					ok(c, err, "message")
					want = v
				} else if err == nil {
					c.Failf("a message with %d as a matrix's type or mode (mode: %v) is accepted", v, mode)
				}
				same(c, read(tree.GetElementByNumber(6)), want, "setting in the tree")
				c.Steps(2)
			}
			c.State(uint64(v))
		})
		others := []ref.Kind{ref.Node, ref.Param, ref.Func, ref.Cmd}
		l = append(l, &engine.Scenario{Name: "not-a-matrix", What: "every signal and connection operation on every kind of element that is not a matrix, by number and path", Run: func(c *engine.C) {
			e := small(choose(c, others), 4, c.Choose(3))
			if e.Kind != ref.Cmd && c.Bool() {
				e.Path = []int32{1, 4}
			}
			e = settable(e)
			var el *embertree.Element
			if c.Bool() {
				el = build(e)
			} else {
				var err error
				x, derr := embertree.DecodeElement(reader(e.TLV().Bytes()))
				ok(c, derr, "decode")
				_ = err
				el = x
			}
			before := encoded(c, el, "the element")
			w := &asn1.ASNWriter{}
			src := &ref.Elem{Kind: ref.Matrix, Number: 1, HasTargets: true, Targets: []int32{1}, HasSources: true, Sources: []int32{2}, HasConns: true, Conns: []ref.Conn{{Target: 1}}}
			items := src.TLV().Kids[1:]
			op := c.Choose(12)
			var failed bool
			switch op {
			case 0:
				failed = el.SetTargets(signals([]int32{1}, false)) != nil
			case 1:
				failed = el.SetSources(signals([]int32{1}, true)) != nil
			case 2:
				failed = el.SetConnections(connections([]ref.Conn{{Target: 1}})) != nil
			case 3:
				x, err := el.GetTargets()
				failed = err != nil && len(x) == 0
			case 4:
				x, err := el.GetSources()
				failed = err != nil && len(x) == 0
			case 5:
				x, err := el.GetConnections()
				failed = err != nil && len(x) == 0
			case 6:
				failed = el.EncodeTargets(w) != nil
			case 7:
				failed = el.EncodeSources(w) != nil
			case 8:
				failed = el.EncodeConnections(w) != nil
			case 9:
				failed = el.DecodeTargets(reader(items[0].Bytes())) != nil
			case 10:
				failed = el.DecodeSources(reader(items[1].Bytes())) != nil
			case 11:
				failed = el.DecodeConnections(reader(items[2].Bytes())) != nil
			}
			c.Step()
			if !failed {
				c.Failf("operation %d succeeds on a %v", op, e.Kind)
			}
			same(c, w.Len(), 0, "bytes written by a refused operation")
			sameBytes(c, encoded(c, el, "the element"), before, "the element after a refused operation")
			c.State(uint64(op))
			// an element that is no matrix but carries signals is refused as a whole
			m := e.TLV()
			m.Add(items[c.Choose(3)])
			if _, err := embertree.DecodeElement(reader(m.Bytes())); err == nil {
				c.Failf("a %v with signals is accepted", e.Kind)
			}
		}})
		return l
	})
}
