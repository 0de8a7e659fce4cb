package checks

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"verifmc/engine"
	"verifmc/ref"

	"github.com/dufourgilles/emberlib/embertree"
)

// printedCtxs are the properties that the text of an element shows.
func printedCtxs(k ref.Kind) []int {
	switch k {
	case ref.Node, ref.Matrix:
		return []int{0, 1, 2, 3}
	case ref.Param:
		return []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14}
	}
	return []int{0, 1}
}

var printedTypes = []ref.VKind{ref.VInt, ref.VString, ref.VBool, ref.VReal, ref.VOctets, ref.VOID}

// printedSample is a value of a property that appears nowhere else.
func printedSample(k ref.Kind, ctx, variant, typ int, wire bool) ref.Val {
	kind := ref.PropKinds(k)[ctx][0]
	if k == ref.Param {
		switch ctx {
		case 2, 3, 4, 12:
			kind = printedTypes[(typ+ctx)%len(printedTypes)]
		case 5, 13:
			if !wire {
				kind = ref.VString
			}
		}
	}
	if k == ref.Matrix && (ctx == 2 || ctx == 3) {
		return iv(int64(variant))
	}
	n := 810000 + ctx*10 + variant
	switch kind {
	case ref.VInt:
		return iv(int64(n * (1 - 2*variant)))
	case ref.VString:
		return sv([]string{"x%%d%d", "\"Ünï\"\n\t%d,"}[variant] + fmt.Sprint(n))
	case ref.VBool:
		return bv(variant == 0)
	case ref.VReal:
		return rv(float64(n) + 0.5)
	case ref.VOctets:
		return ov(string([]byte{0x10, byte(ctx), byte(variant)}))
	}
	return pv(1, int32(n), 2)
}

// shownAs is how a value appears ("" when its form is free).
func shownAs(v ref.Val) string {
	switch v.K {
	case ref.VInt:
		return strconv.FormatInt(v.I, 10)
	case ref.VString:
		return v.S
	case ref.VReal:
		return strconv.FormatFloat(v.R, 'f', -1, 64)
	case ref.VOID:
		return ref.OIDString(v.O)
	}
	return ""
}

// printed is the text of the element, built by setters or decoded.
func printed(c *engine.C, e *ref.Elem, wire bool) string {
	c.Step()
	if !wire {
		return build(e).ToString()
	}
	el, err := embertree.DecodeElement(reader(e.TLV().Bytes()))
	ok(c, err, "decoding")
	return el.ToString()
}

func init() {
	engine.Register("C32", []string{"The layout of the text is free; of a function's, a matrix's and a node's properties the ones judged are identifier and description, type and mode, and is-root and is-online."}, func(t engine.Tier) []*engine.Scenario {
		var l []*engine.Scenario
		l = append(l, &engine.Scenario{Name: "properties", What: "every subset of the properties that are printed, of two values each (a parameter's values of the six types), by number or path, built by setters or decoded: each that is set is shown with its value, none that is not set, and another value prints differently", Run: func(c *engine.C) {
			k := elemKinds[c.Choose(len(elemKinds))]
			e := &ref.Elem{Kind: k, Contents: true, Props: map[int]ref.Val{}}
			wire := c.Bool()
			where := "7345678"
			if c.Bool() {
				e.Path = []int32{1, 200, 7345678}
				where = "1.200.7345678"
			} else {
				e.Number = 7345678
			}
			variant, typ := 0, 0
			if k == ref.Param {
				typ = c.Choose(t.Pick(2, len(printedTypes)))
			}
			variant = c.Choose(2)
			for _, ctx := range printedCtxs(k) {
				if c.Bool() {
					e.Props[ctx] = printedSample(k, ctx, variant, typ, wire)
				}
			}
			s := printed(c, e, wire)
			c.StateString(s)
			c.Logf("%s", s)
			c.Assert(strings.Contains(s, where), "the address %s is not shown:\n%s", where, s)
			for _, ctx := range printedCtxs(k) {
				v, set := e.Props[ctx]
				other := printedSample(k, ctx, 1-variant, typ, wire)
				if set {
					c.Assert(strings.Contains(s, shownAs(v)), "property %d is %v, which is not shown:\n%s", ctx, v, s)
				} else if x := shownAs(printedSample(k, ctx, variant, typ, wire)); x != "" && k != ref.Matrix {
					c.Assert(!strings.Contains(s, x), "property %d is not set, but shown as %s:\n%s", ctx, x, s)
				}
				if k == ref.Matrix && !set && (ctx == 2 || ctx == 3) {
					continue // there are defaults
				}
				// another value
				e.Props[ctx] = other
				c.Assert(printed(c, e, wire) != s, "property %d prints the same when it is %v:\n%s", ctx, other, s)
				if set {
					delete(e.Props, ctx)
					if k != ref.Matrix || ctx < 2 {
						c.Assert(printed(c, e, wire) != s, "property %d prints the same when it is not set:\n%s", ctx, s)
					}
					e.Props[ctx] = v
				} else {
					delete(e.Props, ctx)
				}
			}
		}})
		ints := []int64{0, 1, -1, 9, 10, 255, -256, 1 << 31, 1<<63 - 1, -1 << 63}
		strs := []string{"", " ", "a", "A", "aa", "a b", "%", "%s", "0", "1", "é", "a\n"}
		reals := []float64{0, 1, -1, 0.5, -0.5, 1.25, 100, 1e6, 12345.5, -1e9,
			0.1, 0.1 + 0.2, 0.3, 1.0 / 3, 0.33333333, 1e-6, 1e-7, -1e-7, 2e-7, 1e-100, 5e-324, 1e-323, 2.5000001, 2.50000011, 1e15 + 0.125, 1e15 + 0.25, 1e22, 1e23, 1.7976931348623157e308, -1.7976931348623157e308,
			math.Inf(1), math.Inf(-1)}
		var octets []string
		some := []byte{0, 1, 0x0f, 0x10, 0x11, 0x7f, 0x80, 0xff}
		for i := range some {
			octets = append(octets, string(some[i:i+1]))
			for j := range some {
				octets = append(octets, string([]byte{some[i], some[j]}))
				if t.Thorough || i < 5 && j < 5 {
					for k := range some {
						octets = append(octets, string([]byte{some[i], some[j], some[k]}))
					}
				}
			}
		}
		oids := [][]int32{{0}, {1}, {10}, {1, 0}, {0, 1}, {1, 1}, {11}, {1, 1, 1}, {11, 1}, {1, 11}, {2147483647}, {1, 2, 3, 4, 5}}
		// long ones that differ at their ends
		long := func(n int) string { return strings.Repeat("long text ", 1000)[:n] }
		for _, n := range []int{15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 1024, 4096} {
			strs = append(strs, long(n), long(n-1)+"!")
			octets = append(octets, long(n), long(n-1)+"!")
		}
		manyNumbers := make([]int32, 100)
		for i := range manyNumbers {
			manyNumbers[i] = int32(i * i)
		}
		var values []ref.Val
		for _, x := range ints {
			values = append(values, iv(x))
		}
		for _, x := range strs {
			values = append(values, sv(x))
		}
		for _, x := range reals {
			values = append(values, rv(x))
		}
		for _, x := range octets {
			values = append(values, ov(x))
		}
		oids = append(oids, manyNumbers, manyNumbers[:99], manyNumbers[:33], manyNumbers[:17])
		for _, x := range oids {
			values = append(values, pv(x...))
		}
		values = append(values, bv(false), bv(true))
		places := []int{2, 3, 4, 12}
		l = append(l, &engine.Scenario{Name: "values", N: uint64(len(values) * len(places)), What: fmt.Sprintf("each of %d values of the six types as a parameter's value, minimum, maximum and default, against every other of the same type: it is shown and they print differently", len(values)), At: func(c *engine.C, at uint64) {
			i := int(at)
			ctx, v := places[i%len(places)], values[i/len(places)]
			with := func(v ref.Val) (string, string) {
				e := &ref.Elem{Kind: ref.Param, Number: 7345678, Contents: true, Props: map[int]ref.Val{ctx: v}}
				o := embertree.NewContentParameter()
				setObj(o, v)
				return printed(c, e, false), o.ToString()
			}
			s, alone := with(v)
			c.StateString(s)
			if v.K != ref.VReal {
				c.Assert(strings.Contains(s, shownAs(v)) && strings.Contains(alone, shownAs(v)), "%v is not shown in\n%s\n%s", v, s, alone)
			}
			if v.K == ref.VReal {
				x, err := strconv.ParseFloat(alone, 64)
				c.Assert(err == nil && x == v.R, "%v is printed as %q", v.R, alone)
			}
			c.Assert(strings.Contains(s, alone), "%v is printed as %q, but in the parameter as\n%s", v, alone, s)
			for _, o := range values {
				if o.K == v.K && text0(o) != text0(v) {
					s2, alone2 := with(o)
					c.Assert(s != s2 && alone != alone2, "%v and %v are both printed as %s", v, o, alone)
				}
			}
		}})
		depth := t.Pick(5, 6)
		l = append(l, &engine.Scenario{Name: "trees", What: fmt.Sprintf("every forest of 1 to %d elements of the four kinds (rotating), built or decoded, with or without contents: the text of a tree or of an element shows every element of it once, below its parent, and printing changes nothing", depth), Run: func(c *engine.C) {
			n := 1 + c.Choose(depth)
			shift := c.Choose(4)
			empty := c.Choose(n + 1) // one of them has no contents
			parent := make([]int, n)
			els := make([]*ref.Elem, n)
			var tops []*ref.Elem
			name := func(i int) string { return fmt.Sprintf("name<%d>", i) }
			for i := range els {
				e := &ref.Elem{Kind: elemKinds[(i+shift)%4], Number: int32(910000 + i), Contents: i+1 != empty, Props: map[int]ref.Val{}}
				if e.Contents {
					e.Props[0] = sv(name(i))
				}
				els[i] = e
				parent[i] = c.Choose(i+1) - 1
				if parent[i] < 0 {
					tops = append(tops, e)
				} else {
					els[parent[i]].Children = append(els[parent[i]].Children, e)
				}
			}
			tree := embertree.NewTree()
			if c.Bool() {
				tree = decodeTree(c, ref.RootTLV(tops).Bytes())
			} else {
				for _, e := range tops {
					tree.AddElement(build(e))
				}
			}
			before := treeText(observeTree(c, tree), asIs)
			check := func(s string, in func(i int) bool) {
				for i := range els {
					want := 0
					if in(i) {
						want = 1
					}
					number := strconv.Itoa(910000 + i)
					if want == 1 {
						c.Assert(strings.Contains(s, number), "element %s is missing in\n%s", number, s)
					}
					if i+1 != empty {
						c.Assert(strings.Count(s, name(i)) == want, "%s shows %d times in\n%s", name(i), strings.Count(s, name(i)), s)
					}
					if p := parent[i]; want == 1 && p >= 0 && in(p) && i+1 != empty && p+1 != empty {
						c.Assert(strings.Index(s, name(p)) < strings.Index(s, name(i)), "%s comes after its child %s in\n%s", name(p), name(i), s)
					}
				}
			}
			s := tree.ToString()
			// the top elements are in no particular order
			lines := func(s string) string {
				l := strings.Split(s, "\n")
				sort.Strings(l)
				return strings.Join(l, "\n")
			}
			c.StateString(lines(s))
			check(s, func(int) bool { return true })
			above := func(a, i int) bool {
				for ; i >= 0; i = parent[i] {
					if i == a {
						return true
					}
				}
				return false
			}
			var walk func(el *embertree.Element)
			walk = func(el *embertree.Element) {
				a := el.Number - 910000
				check(el.ToString(), func(i int) bool { return above(a, i) })
				c.Step()
				for _, k := range el.Children {
					walk(k)
				}
			}
			for _, el := range tree.RootElementCollection {
				walk(el)
			}
			c.Assert(lines(tree.ToString()) == lines(s), "printing again gives another text than\n%s", s)
			c.Assert(before == treeText(observeTree(c, tree), asIs), "printing changed the tree\n%s", s)
		}})
		return l
	})
}

func text0(v ref.Val) string { return fmt.Sprintf("%d %v", v.K, v) }
