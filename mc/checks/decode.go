package checks

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"

	"verifmc/engine"
	"verifmc/ref"
)

// An entry is one of the library's decoding entry points.
type entry struct {
	name string
	// decode returns a description function of what was decoded.
	decode func(r *asn1.ASNReader) (result, errors.Error)
}

type result interface {
	// use prints and encodes what was decoded (whatever it is) and returns the size of the output.
	use() int
	// describe says all that was decoded.
	describe(c *engine.C) string
}

type treeResult struct{ *embertree.RootElement }

func (t treeResult) use() int {
	n := len(t.ToString())
	w := &asn1.ASNWriter{}
	t.Encode(w)
	return n + w.Len()
}

func (t treeResult) describe(c *engine.C) string {
	var l []string
	for n, el := range t.RootElementCollection {
		c.Assert(n == el.Number, "element number %d filed under %d", el.Number, n)
		l = append(l, elemResult{el}.describe(c))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

type elemResult struct{ *embertree.Element }

func (e elemResult) use() int {
	n := len(e.ToString())
	w := &asn1.ASNWriter{}
	e.Encode(w)
	e.GetPath()
	e.GetDirectoryMsg(nil)
	return n + w.Len()
}

func (e elemResult) describe(c *engine.C) string {
	return text(observe(c, e.Element)) + " / " + text(statedAll(c, e.Element))
}

type contentsResult struct {
	k ref.Kind
	embertree.EmberContents
}

func (x contentsResult) use() int {
	n := len(x.ToString())
	w := &asn1.ASNWriter{}
	x.Encode(w)
	return n + w.Len()
}

func (x contentsResult) describe(c *engine.C) string {
	e := &ref.Elem{Kind: x.k, Props: map[int]ref.Val{}}
	observeContents(c, e, x.EmberContents)
	return fmt.Sprintf("%s / % x", text(e), encoded(c, x, "the contents"))
}

type encResult struct {
	encoder
	text func() string
}

func (x encResult) use() int {
	w := &asn1.ASNWriter{}
	x.Encode(w)
	return w.Len()
}

func (x encResult) describe(c *engine.C) string {
	s := ""
	if x.text != nil {
		s = x.text()
	}
	return fmt.Sprintf("%s / % x", s, encoded(c, x.encoder, "the result"))
}

type textResult string

func (x textResult) use() int                    { return len(x) }
func (x textResult) describe(c *engine.C) string { return string(x) }

type signalsResult []embertree.Signal

func (x signalsResult) use() int {
	w := &asn1.ASNWriter{}
	for _, s := range x {
		s.Encode(w)
	}
	return w.Len()
}

func (x signalsResult) describe(c *engine.C) string {
	s := ""
	for _, y := range x {
		w := &asn1.ASNWriter{}
		ok(c, y.Encode(w), "encoding a signal")
		s += fmt.Sprintf("%T % x;", y, written(w))
	}
	return s
}

type valueEncoder struct{ v *embertree.ContentParameter }

func (x valueEncoder) Encode(w *asn1.ASNWriter) errors.Error {
	x.v.ToString()
	return x.v.Encode(3, w)
}

var entries = map[string]entry{}

func addEntry(name string, f func(r *asn1.ASNReader) (result, errors.Error)) {
	entries[name] = entry{name, f}
}

func entryNames() []string {
	var l []string
	for n := range entries {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func init() {
	addEntry("tree", func(r *asn1.ASNReader) (result, errors.Error) {
		t := embertree.NewTree()
		err := t.Decode(r)
		return treeResult{t}, err
	})
	addEntry("element", func(r *asn1.ASNReader) (result, errors.Error) {
		e, err := embertree.DecodeElement(r)
		return elemResult{e}, err
	})
	for k := ref.Node; k < ref.NKinds; k++ {
		k := k
		addEntry(fmt.Sprintf("contents of %v", k), func(r *asn1.ASNReader) (result, errors.Error) {
			x := newContents(k)
			err := x.Decode(r)
			return contentsResult{k, x}, err
		})
	}
	addEntry("new matrix contents", func(r *asn1.ASNReader) (result, errors.Error) {
		x := embertree.NewDefaultMatrixContents()
		err := x.Decode(r)
		return contentsResult{ref.Matrix, x}, err
	})
	addEntry("signal", func(r *asn1.ASNReader) (result, errors.Error) {
		s, err := embertree.DecodeSignal(r)
		return signalsResult{s}, err
	})
	addEntry("target", func(r *asn1.ASNReader) (result, errors.Error) {
		s := embertree.NewTarget(99)
		err := s.Decode(r)
		return signalsResult{s}, err
	})
	addEntry("source", func(r *asn1.ASNReader) (result, errors.Error) {
		s := embertree.NewSource(99)
		err := s.Decode(r)
		return signalsResult{s}, err
	})
	addEntry("targets", func(r *asn1.ASNReader) (result, errors.Error) {
		s, err := embertree.DeodeSignals(r, asn1.Context(3))
		return signalsResult(s), err
	})
	addEntry("targets of matrix", func(r *asn1.ASNReader) (result, errors.Error) {
		m, _ := embertree.NewMatrix(1, embertree.OneToN, embertree.Linear)
		err := m.DecodeTargets(r)
		return elemResult{m}, err
	})
	addEntry("sources of matrix", func(r *asn1.ASNReader) (result, errors.Error) {
		m, _ := embertree.NewMatrix(1, embertree.OneToN, embertree.Linear)
		err := m.DecodeSources(r)
		return elemResult{m}, err
	})
	addEntry("connections of matrix", func(r *asn1.ASNReader) (result, errors.Error) {
		m, _ := embertree.NewMatrix(1, embertree.OneToN, embertree.Linear)
		err := m.DecodeConnections(r)
		return elemResult{m}, err
	})
	addEntry("connection", func(r *asn1.ASNReader) (result, errors.Error) {
		x := &embertree.Connection{}
		err := x.Decode(r)
		return encResult{x, func() string { return fmt.Sprint(observedConn(x)) }}, err
	})
	addEntry("label", func(r *asn1.ASNReader) (result, errors.Error) {
		x, err := embertree.DecodeLabel(r)
		return encResult{x, func() string { return fmt.Sprintf("%v %q", x.BasePath, x.Description) }}, err
	})
	addEntry("labels", func(r *asn1.ASNReader) (result, errors.Error) {
		x := &embertree.MatrixContent{}
		err := x.DecodeLabels(r)
		return contentsResult{ref.Matrix, x}, err
	})
	addEntry("invocation", func(r *asn1.ASNReader) (result, errors.Error) {
		x := embertree.NewInvocation(0, nil)
		err := x.Decode(r)
		return encResult{x, nil}, err
	})
	addEntry("tuple", func(r *asn1.ASNReader) (result, errors.Error) {
		x := embertree.NewArgument(0, "")
		err := x.Decode(r)
		return encResult{x, func() string { return fmt.Sprintf("%d %q", x.Type, x.Name) }}, err
	})
	addEntry("value", func(r *asn1.ASNReader) (result, errors.Error) {
		x, err := embertree.DecodeValue(r, 2)
		if err != nil {
			return nil, err
		}
		if !x.IsSet() {
			return textResult("unset"), nil
		}
		return encResult{valueEncoder{x}, func() string { v, _ := objVal(x); return v.String() }}, err
	})
	prim := func(name string, f func(r *asn1.ASNReader) (interface{}, errors.Error)) {
		addEntry(name, func(r *asn1.ASNReader) (result, errors.Error) {
			v, err := f(r)
			return textResult(fmt.Sprint(v)), err
		})
	}
	prim("ReadInt", func(r *asn1.ASNReader) (interface{}, errors.Error) { v, e := r.ReadInt(); return v, e })
	prim("ReadInt64", func(r *asn1.ASNReader) (interface{}, errors.Error) { v, e := r.ReadInt64(); return v, e })
	prim("ReadBoolean", func(r *asn1.ASNReader) (interface{}, errors.Error) { v, e := r.ReadBoolean(); return v, e })
	prim("ReadReal", func(r *asn1.ASNReader) (interface{}, errors.Error) { v, e := r.ReadReal(); return v, e })
	prim("ReadString", func(r *asn1.ASNReader) (interface{}, errors.Error) { v, e := r.ReadString(); return v, e })
	prim("ReadOctetString", func(r *asn1.ASNReader) (interface{}, errors.Error) { v, e := r.ReadOctetString(); return v, e })
	prim("ReadBitString", func(r *asn1.ASNReader) (interface{}, errors.Error) { v, e := r.ReadBitString(); return v, e })
	prim("ReadOID", func(r *asn1.ASNReader) (interface{}, errors.Error) { v, e := r.ReadOID(ref.TagOID); return v, e })
	prim("ReadLength", func(r *asn1.ASNReader) (interface{}, errors.Error) { v, e := r.ReadLength(); return v, e })
}

// A wire is a message for an entry point.
type wire struct {
	entry string
	name  string
	tlv   *ref.TLV
}

func (m wire) String() string { return m.entry + " <- " + m.name }

func clone(t *ref.TLV) *ref.TLV {
	x := *t
	x.Kids = nil
	for _, k := range t.Kids {
		x.Kids = append(x.Kids, clone(k))
	}
	return &x
}

// corpus lists small messages for every entry point, together covering every
// container there is, also without content.
func corpus() []wire {
	var out []wire
	add := func(entry, name string, t *ref.TLV) { out = append(out, wire{entry, name, t}) }
	elem := func(name string, e *ref.Elem) {
		add("element", name, e.TLV())
	}
	root := func(name string, l ...*ref.Elem) { add("tree", name, ref.RootTLV(l)) }
	for k := ref.Node; k < ref.NKinds; k++ {
		for mode := 0; mode < 3; mode++ {
			e := small(k, 3, mode)
			elem(fmt.Sprintf("%v %d", k, mode), e)
			if k == ref.Cmd || mode == 2 {
				continue
			}
			q := *e
			q.Path = []int32{7, 300}
			elem(fmt.Sprintf("qualified %v %d", k, mode), &q)
		}
		if k != ref.Cmd {
			add(fmt.Sprintf("contents of %v", k), "empty", ref.K(ref.TagSet))
			x := &ref.Elem{Kind: k, Contents: true, Props: map[int]ref.Val{0: sv("id"), 1: sv("")}}
			if k == ref.Node {
				x.Props[2], x.Props[3] = bv(true), bv(false)
				x.Template = []int32{1, 2}
			}
			if k == ref.Param {
				x.Props[2], x.Props[3], x.Props[8] = rv(1.5), iv(-1), iv(300)
			}
			add(fmt.Sprintf("contents of %v", k), "some", x.ContentsTLV())
		} else {
			add("contents of cmd", "flags", ref.Int(-1))
		}
	}
	// functions and matrices with empty lists
	f := &ref.Elem{Kind: ref.Func, Contents: true, HasArgs: true, HasResults: true, Props: map[int]ref.Val{}}
	add("contents of func", "empty lists", f.ContentsTLV())
	f = &ref.Elem{Kind: ref.Func, Contents: true, HasArgs: true, Args: sampleTuples[:2], HasResults: true, Results: sampleTuples[2:], Props: map[int]ref.Val{0: sv("f")}}
	add("contents of func", "lists", f.ContentsTLV())
	elem("empty tuple", (&ref.Elem{Kind: ref.Func, Number: 1, Contents: true, HasArgs: true, Args: sampleTuples[1:2]}))
	mx := &ref.Elem{Kind: ref.Matrix, Number: 2, HasTargets: true, HasSources: true, HasConns: true}
	elem("matrix with empty lists", mx)
	mx = &ref.Elem{Kind: ref.Matrix, Number: 2, Contents: true, HasLabels: true, Props: map[int]ref.Val{2: iv(1), 8: pv(1, 2)}}
	elem("matrix without labels", mx)
	add("contents of matrix", "labels", (&ref.Elem{Kind: ref.Matrix, HasLabels: true, Labels: []ref.Label{{Path: []int32{1}, Text: "P"}}, Props: map[int]ref.Val{4: iv(2), 11: sv("s")}}).ContentsTLV())
	add("labels", "none", ref.Wrap(10, ref.K(ref.TagSeq)))
	add("labels", "one", ref.Wrap(10, ref.K(ref.TagSeq, ref.Wrap(0, ref.LabelTLV(ref.Label{Path: []int32{1, 2}, Text: "L"})))))
	add("label", "label", ref.LabelTLV(ref.Label{Path: []int32{1, 200}, Text: "Text"}))
	add("label", "blank", ref.LabelTLV(ref.Label{}))
	for i, s := range []string{"targets", "sources"} {
		entry := s
		if i == 0 {
			add("targets", "none", ref.Wrap(3, ref.K(ref.TagSeq)))
			add("targets", "two", ref.Wrap(3, ref.K(ref.TagSeq, ref.Wrap(0, ref.SignalTLV(1, false)), ref.Wrap(0, ref.SignalTLV(300, false)))))
		}
		add(entry+" of matrix", "one", ref.Wrap(3+i, ref.K(ref.TagSeq, ref.Wrap(0, ref.SignalTLV(5, i == 1)))))
		add("signal", s, ref.SignalTLV(70000, i == 1))
	}
	add("target", "target", ref.SignalTLV(4, false))
	add("source", "source", ref.SignalTLV(4, true))
	add("connections of matrix", "none", ref.Wrap(5, ref.K(ref.TagSeq)))
	add("connections of matrix", "one", ref.Wrap(5, ref.K(ref.TagSeq, ref.Wrap(0, ref.ConnTLV(ref.Conn{Target: 1, Sources: []int32{2, 3}, Op: 1, Disp: 2})))))
	add("connection", "full", ref.ConnTLV(ref.Conn{Target: 300, Sources: []int32{1, 300}, Op: 2, Disp: 3}))
	add("connection", "no sources", ref.ConnTLV(ref.Conn{Target: 0}))
	add("connection", "bare", ref.ConnTLV(ref.Conn{Target: 1, NoSources: true, NoOp: true, NoDisp: true}))
	add("invocation", "empty", ref.K(ref.App(22)))
	add("invocation", "no arguments", ref.K(ref.App(22), ref.Wrap(0, ref.Int(5)), ref.Wrap(1, ref.K(ref.TagSeq))))
	add("invocation", "two", ref.K(ref.App(22), ref.Wrap(0, ref.Int(5)), ref.Wrap(1, ref.K(ref.TagSeq, ref.Wrap(0, ref.Int(1)), ref.Wrap(0, ref.Str("x"))))))
	add("tuple", "empty", ref.K(ref.App(21)))
	add("tuple", "full", ref.K(ref.App(21), ref.Wrap(0, ref.Int(3)), ref.Wrap(1, ref.Str("name"))))
	for _, v := range []ref.Val{iv(1), iv(-70000), rv(1.5), sv("text"), sv(""), bv(true), ov("\x00\x01"), pv(1, 300), sv(strings.Repeat("x", 127))} {
		add("value", v.String(), ref.Wrap(2, v.TLV()))
	}
	add("value", "bits", ref.Wrap(2, ref.P(ref.TagBits, []byte{0, 1})))
	add("value", "none", ref.K(ref.Ctx(2)))
	// trees
	add("tree", "nothing", ref.RootTLV(nil))
	root("no elements", []*ref.Elem{}...)
	out[len(out)-1].tlv = ref.K(ref.App(0), ref.K(ref.App(11)))
	root("bare node", small(ref.Node, 0, 0))
	root("node without content", small(ref.Node, 1, 1))
	n := small(ref.Node, 1, 1)
	n.HasKids = true
	root("node without children", n)
	n = small(ref.Node, 1, 0)
	n.Children = []*ref.Elem{small(ref.Param, 1, 1), small(ref.Node, 2, 0)}
	root("two children", n)
	n = small(ref.Node, 1, 0)
	n.Children = []*ref.Elem{small(ref.Node, 1, 0)}
	n.Children[0].Children = []*ref.Elem{small(ref.Cmd, 32, 0)}
	root("command", n)
	root("two elements", small(ref.Param, 1, 2), small(ref.Matrix, 2, 0))
	q := small(ref.Node, 0, 1)
	q.Path = []int32{1}
	qp := small(ref.Param, 0, 1)
	qp.Path = []int32{1, 2}
	root("path-addressed", q, qp)
	qm := small(ref.Matrix, 0, 0)
	qm.Path = []int32{1, 3}
	root("path-addressed matrix", small(ref.Node, 1, 0), qm)
	for _, size := range []int{125, 126, 127, 128, 253, 256, 300} {
		add("element", fmt.Sprintf("description of %d", size), (&ref.Elem{Kind: ref.Node, Number: 1, Contents: true, Props: map[int]ref.Val{1: sv(strings.Repeat("d", size))}}).TLV())
	}
	return out
}

// bigger lists messages whose containers need wide lengths.
func bigger() []wire {
	var out []wire
	for _, size := range []int{65520, 65536, 70000, 1 << 24} {
		e := &ref.Elem{Kind: ref.Node, Number: 1, Contents: true, Props: map[int]ref.Val{1: sv(strings.Repeat("d", size))}}
		out = append(out, wire{"tree", fmt.Sprintf("description of %d", size), ref.RootTLV([]*ref.Elem{e})})
		if size > 70000 {
			continue
		}
		p := &ref.Elem{Kind: ref.Node, Number: 1}
		for i := 0; i < size/40; i++ {
			p.Children = append(p.Children, small(ref.Param, int32(i), 2))
		}
		out = append(out, wire{"tree", fmt.Sprintf("%d children", size/40), ref.RootTLV([]*ref.Elem{p})})
	}
	return out
}

// decoded runs the message's entry point and describes the outcome.
func (m wire) decoded(c *engine.C, b []byte) string {
	r := asn1.NewASNReader(b)
	x, err := entries[m.entry].decode(r)
	c.Step()
	if err != nil {
		c.Failf("%v refused: %v\n% x", m, err, clipb(b))
	}
	if r.Len() != 0 {
		c.Failf("%v: %d bytes left after % x", m, r.Len(), clipb(b))
	}
	return x.describe(c)
}

func baseline(c *engine.C, key string, m wire) string {
	k := "baseline " + key
	if v, ok := c.Data[k]; ok {
		return v.(string)
	}
	v := m.decoded(c, clone(m.tlv).SetForms(ref.Short).Bytes())
	c.Data[k] = v
	return v
}

func formNames(l []*ref.TLV) string {
	s := ""
	for _, x := range l {
		s += x.Form.String() + " "
	}
	return s
}

func init() {
	engine.Register("C04", []string{"Only containers vary: lengths of primitive items are always in the shortest definite form (indefinite primitives are illegal)."}, func(t engine.Tier) []*engine.Scenario {
		list, big := corpus(), bigger()
		if !t.Thorough {
			big = big[:6]
		}
		check := func(c *engine.C, name string, i int, m wire, l []*ref.TLV, tlv *ref.TLV) {
			b := tlv.Bytes()
			want := baseline(c, fmt.Sprint(name, i), m)
			got := m.decoded(c, b)
			if got != want {
				c.Failf("%v decodes differently with lengths %s\n% x\n got %s\nwant %s", m, formNames(l), clipb(b), got, want)
			}
			c.StateBytes(b)
			c.Logf("%v with lengths %s: %s", m, formNames(l), got)
		}
		full := t.Pick(6, 8)
		two := t.Pick(13, 18)
		return []*engine.Scenario{{
			Name:  "forms",
			Bound: t.Pick(2, 3),
			What:  fmt.Sprintf("%d messages for %d entry points x every uniform length form (indefinite, shortest, 1-4 length bytes), with up to %d containers in any other form", len(list), len(entries), t.Pick(2, 3)),
			Run: func(c *engine.C) {
				i := c.Choose(len(list))
				tlv := clone(list[i].tlv)
				l := tlv.Containers()
				base := c.Choose(int(ref.NForms))
				for _, x := range l {
					x.Form = ref.Form((base + c.Deviate(int(ref.NForms))) % int(ref.NForms))
				}
				check(c, "small", i, list[i], l, tlv)
			},
		}, {
			Name: "all forms",
			What: fmt.Sprintf("messages of up to %d containers x all assignments of the six length forms", full),
			Run: func(c *engine.C) {
				i := c.Choose(len(list))
				tlv := clone(list[i].tlv)
				l := tlv.Containers()
				if len(l) > full {
					return
				}
				for _, x := range l {
					x.Form = ref.Form(c.Choose(int(ref.NForms)))
				}
				check(c, "small", i, list[i], l, tlv)
			},
		}, {
			Name: "definite or indefinite",
			What: fmt.Sprintf("messages of up to %d containers x all assignments of definite and indefinite", two),
			Run: func(c *engine.C) {
				i := c.Choose(len(list))
				tlv := clone(list[i].tlv)
				l := tlv.Containers()
				if len(l) > two {
					return
				}
				for _, x := range l {
					x.Form = ref.Form(c.Choose(2))
				}
				check(c, "small", i, list[i], l, tlv)
			},
		}, {
			Name:  "big",
			Bound: 1,
			What:  fmt.Sprintf("%d messages whose containers hold 64 KiB and more x every uniform form, with one of the outer containers in any other form", len(big)),
			Run: func(c *engine.C) {
				i := c.Choose(len(big))
				tlv := clone(big[i].tlv)
				l := tlv.Containers()
				base := c.Choose(int(ref.NForms))
				for k, x := range l {
					x.Form = ref.Form(base)
					if k < 8 && len(b0(big[i])) < 1<<20 {
						x.Form = ref.Form((base + c.Deviate(int(ref.NForms))) % int(ref.NForms))
					}
				}
				if len(l) > 8 {
					l = l[:8]
				}
				check(c, "big", i, big[i], l, tlv)
			},
		}}
	})
	engine.Register("C06", []string{"A message is given to the decoder as one buffer."}, func(t engine.Tier) []*engine.Scenario {
		list := corpus()
		assign := func(c *engine.C, l []*ref.TLV) {
			left := 0 // containers that may differ
			if len(l) > 0 {
				n := len(l[0].Bytes())
				switch {
				case n < 50:
					left = 2
				case n < 100 || t.Thorough:
					left = 1
				}
			}
			base := c.Choose(int(ref.NForms) + 2)
			for i, x := range l {
				switch {
				case base < int(ref.NForms) && left == 0:
					x.Form = ref.Form(base)
				case base < int(ref.NForms):
					d := c.Deviate(int(ref.NForms))
					x.Form = ref.Form((base + d) % int(ref.NForms))
					if d != 0 {
						left--
					}
				case (i%2 == 0) == (base == int(ref.NForms)):
					x.Form = ref.Indef
				default:
					x.Form = ref.Short
				}
			}
		}
		accepts := func(m wire, b []byte) (result, bool) {
			x, err := entries[m.entry].decode(asn1.NewASNReader(b))
			return x, err == nil
		}
		return []*engine.Scenario{{
			Name:  "cuts",
			Bound: t.Pick(1, 2),
			What:  fmt.Sprintf("%d messages for %d entry points x every uniform or alternating length form with up to %d containers in any other form (one for long messages) x every proper prefix", len(list), len(entries), t.Pick(1, 2)),
			Run: func(c *engine.C) {
				m := choose(c, list)
				tlv := clone(m.tlv)
				l := tlv.Containers()
				assign(c, l)
				b := tlv.Bytes()
				m.decoded(c, b) // complete: accepted
				for n := 0; n < len(b); n++ {
					c.Step()
					x, acc := accepts(m, append([]byte{}, b[:n]...))
					c.StateBytes(b[:n])
					if !acc {
						continue
					}
					if n == len(b)-1 && len(l) > 0 && l[0].Form != ref.Indef {
						// recorded finding: read as if the missing byte were 0
						filled := append(append([]byte{}, b[:n]...), 0)
						if y, acc := accepts(m, filled); acc && y.describe(c) == x.describe(c) {
							c.Fail("one-missing-byte", "%v accepted without the last of its %d bytes: % x", m, len(b), b[:min(n, 40)])
							continue
						}
					}
					c.Failf("%v accepted although cut after %d of %d bytes: % x", m, n, len(b), clipb(b[:n]))
				}
				c.Logf("%v with lengths %s: every prefix of % x refused", m, formNames(l), clipb(b))
			},
		}, {
			Name:  "overruns",
			Bound: t.Pick(1, 2),
			What:  fmt.Sprintf("the same messages and forms x every item but the outermost announcing 1..9, 100, 1000 or 2^16..2^32-1 bytes more than the innermost definite container around it holds, or the message (definite lengths in 1-4 bytes)"),
			Run: func(c *engine.C) {
				m := choose(c, list)
				tlv := clone(m.tlv)
				l := tlv.Containers()
				assign(c, l)
				b := tlv.Bytes()
				for _, it := range layout(tlv) {
					if it.parent == nil {
						continue
					}
					for _, d := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 1000, 1 << 16, 1 << 24, 1<<31 - 1 - 70000, 1 << 31, 1<<32 - 1 - 70000} {
						for f := ref.Short; f < ref.NForms; f++ {
							bad := overrun(tlv, it, d, f)
							if bad == nil {
								continue
							}
							c.Step()
							if _, acc := accepts(m, bad); acc {
								c.Failf("%v accepted although the item at %d announces %d bytes more than its container holds: % x", m, it.at, d, clipb(bad))
							}
						}
					}
				}
				c.StateBytes(b)
				c.Logf("%v: % x", m, clipb(b))
			},
		}, {
			Name:  "short containers",
			Bound: t.Pick(1, 2),
			What:  "the same messages and forms x every definite container announcing any smaller length that ends inside one of its items",
			Run: func(c *engine.C) {
				m := choose(c, list)
				tlv := clone(m.tlv)
				l := tlv.Containers()
				assign(c, l)
				b := tlv.Bytes()
				for _, it := range layout(tlv) {
					if !it.tlv.Cons || it.tlv.Form == ref.Indef {
						continue
					}
					// lengths at which an item of the container ends
					ends := map[int]bool{0: true}
					n := 0
					for _, k := range it.tlv.Kids {
						n += len(k.Bytes())
						ends[n] = true
					}
					for short := 1; short < n; short++ {
						if ends[short] {
							continue
						}
						h := ref.Length(n, it.tlv.Form)
						hs := ref.Length(short, it.tlv.Form)
						bad := append([]byte{}, b[:it.at+1]...)
						bad = append(bad, hs...)
						bad = append(bad, b[it.at+1+len(h):]...)
						if len(hs) != len(h) {
							continue // would also change the containers around
						}
						c.Step()
						if _, acc := accepts(m, bad); acc {
							if it.parent == nil {
								// bytes after a complete message are none of its business,
								// but here the message is not complete
								c.Failf("%v accepted although its outermost container ends inside an item: % x", m, clipb(bad))
							}
							c.Failf("%v accepted although the container at %d ends inside an item: % x", m, it.at, clipb(bad))
						}
					}
				}
				c.StateBytes(b)
				c.Logf("%v: % x", m, clipb(b))
			},
		}}
	})
}

func b0(m wire) []byte { return m.tlv.Bytes() }

// A place says where an item is.
type item struct {
	tlv, parent *ref.TLV
	at          int // offset of its tag
	parentEnd   int // offset where the content of the innermost container of definite length around it ends
}

func layout(t *ref.TLV) []item {
	var out []item
	var walk func(t, parent *ref.TLV, at, end int)
	walk = func(t, parent *ref.TLV, at, end int) {
		out = append(out, item{t, parent, at, end})
		if !t.Cons {
			return
		}
		own := len(t.Bytes())
		n := 0
		for _, k := range t.Kids {
			n += len(k.Bytes())
		}
		start := at + own - n
		if t.Form == ref.Indef {
			start -= 2
		} else {
			end = at + own
		}
		for _, k := range t.Kids {
			walk(k, t, start, end)
			start += len(k.Bytes())
		}
	}
	walk(t, nil, 0, len(t.Bytes()))
	return out
}

// overrun serialises t with the length of one item replaced by one exceeding
// what is left in its container by d. The lengths of the containers around
// account for the wider length field.
func overrun(t *ref.TLV, it item, d int, f ref.Form) []byte {
	var ser func(x *ref.TLV) []byte
	ser = func(x *ref.TLV) []byte {
		var body []byte
		if x.Cons {
			for _, k := range x.Kids {
				body = append(body, ser(k)...)
			}
			if x.Form == ref.Indef && x != it.tlv {
				return append(append([]byte{x.Tag, 0x80}, body...), 0, 0)
			}
		} else {
			body = x.Prim
		}
		n, form := len(body), x.Form
		if x == it.tlv {
			// what the container holds from here on
			own := len(x.Bytes())
			after := it.parentEnd - (it.at + own)
			if x.Cons && x.Form == ref.Indef {
				body = append(body, 0, 0) // stays as content
			}
			n, form = len(body)+after+d, f
			if n > 1<<32-1 {
				return nil
			}
		}
		return append(append([]byte{x.Tag}, ref.Length(n, form)...), body...)
	}
	return ser(t)
}

// ---- C05: nothing a peer sends does harm ----

// limits on what decoding may allocate and how long it may take
const (
	allocBase    = 512 << 10
	allocPerByte = 1500
)

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// harmless decodes b and uses the result.
func harmless(c *engine.C, e entry, b []byte) bool {
	x, err := e.decode(asn1.NewASNReader(b))
	c.Step()
	if err != nil {
		_ = err.Message
		return false
	}
	x.use()
	return true
}

// metered is harmless with an eye on memory and time.
func metered(c *engine.C, e entry, b []byte, what string) {
	if c.Data["warm"] == nil { // first-use allocations of the runtime
		harmless(c, e, []byte{0x60, 0x80, 0, 0})
		c.Data["warm"] = true
	}
	start, before := time.Now(), allocated()
	x, err := e.decode(asn1.NewASNReader(b))
	c.Step()
	used := allocated() - before
	if limit := uint64(allocBase + allocPerByte*len(b)); used > limit {
		c.Failf("%s decoding %d bytes (%s) allocated %d bytes: % x", e.name, len(b), what, used, clipb(b))
	}
	if err == nil {
		before = allocated()
		n := x.use()
		used = allocated() - before
		if limit := uint64(allocBase + allocPerByte*(len(b)+n)); used > limit {
			c.Failf("%s: using what was decoded from %d bytes (%s; output of %d bytes) allocated %d bytes", e.name, len(b), what, n, used)
		}
	}
	if d := time.Since(start); d > 15*time.Second {
		c.Failf("%s took %v for %d bytes (%s)", e.name, d, len(b), what)
	}
}

// symbols: tags, lengths and end markers
var symbols = []byte{0x00, 0x80, 0x01, 0x02, 0x05, 0x7f, 0x81, 0x84, 0x85, 0xff, 0x03, 0x04, 0x09, 0x0c, 0x0d, 0xa0, 0xa1, 0xa2, 0xa3, 0xa5, 0xaa, 0x30, 0x31, 0x60, 0x63, 0x6b}

var smallAlphabet = []byte{0x00, 0x80, 0x01, 0x02, 0x04, 0x81, 0x84, 0xff, 0xa0, 0x30, 0x31}

// ownTags are the tags an entry point looks for first.
func ownTags(list []wire, name string) []byte {
	seen := map[byte]bool{}
	for _, a := range smallAlphabet {
		seen[a] = true
	}
	var out []byte
	for _, m := range list {
		if m.entry == name {
			for _, x := range []*ref.TLV{m.tlv, first(m.tlv)} {
				if x != nil && !seen[x.Tag] {
					seen[x.Tag] = true
					out = append(out, x.Tag)
				}
			}
		}
	}
	for _, t := range []byte{ref.TagInt, ref.TagReal, ref.TagString, ref.TagOID, ref.TagOctets, ref.TagBits, ref.TagBool} {
		if strings.HasPrefix(name, "Read") && !seen[t] {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func first(t *ref.TLV) *ref.TLV {
	if len(t.Kids) > 0 {
		return t.Kids[0]
	}
	return nil
}

func init() {
	engine.Register("C05", []string{
		fmt.Sprintf("In proportion means: at most %d KiB plus %d bytes allocated per byte of input (per byte of input and output for printing and encoding), at most 15 s for the largest inputs, 30 s for any; 3 GiB heap limit throughout.", allocBase>>10, allocPerByte),
	}, func(t engine.Tier) []*engine.Scenario {
		list := corpus()
		names := entryNames()
		long := t.Pick(4, 5)
		var scs []*engine.Scenario
		// every short string
		alph := map[string][]byte{}
		for _, n := range names {
			alph[n] = append(append([]byte{}, smallAlphabet...), ownTags(list, n)...)
		}
		for _, n := range names {
			n, a := n, alph[n]
			total := pow(uint64(len(a)), long)
			scs = append(scs, &engine.Scenario{
				Name: "strings for " + n,
				What: fmt.Sprintf("every string of up to %d bytes over %d tags, lengths and markers", long, len(a)),
				N:    total,
				At: func(c *engine.C, i uint64) {
					b := make([]byte, long)
					for k := range b {
						b[k] = a[i%uint64(len(a))]
						i /= uint64(len(a))
					}
					l := long
					// strings ending in symbol 0 also stand for the shorter ones
					for {
						harmless(c, entries[n], b[:l:l])
						if l == 0 || b[l-1] != a[0] {
							break
						}
						l--
					}
				},
			})
		}
		// every string of all byte values
		scs = append(scs, &engine.Scenario{
			Name: "all strings of two bytes",
			What: "every string of two bytes for every entry point",
			N:    uint64(len(names)) * 65536,
			At: func(c *engine.C, i uint64) {
				harmless(c, entries[names[i>>16]], []byte{byte(i >> 8), byte(i)})
			},
		})
		// messages gone wrong after any prefix
		type start struct {
			m wire
			b []byte
		}
		var starts []start
		seen := map[string]bool{}
		for _, m := range list {
			for _, f := range []ref.Form{ref.Indef, ref.Long1} {
				b := clone(m.tlv).SetForms(f).Bytes()
				for n := 0; n <= len(b) && n < 160; n++ {
					k := m.entry + string(b[:n])
					if !seen[k] {
						seen[k] = true
						starts = append(starts, start{m, b[:n:n]})
					}
				}
			}
		}
		tail := t.Pick(2, 3)
		scs = append(scs, &engine.Scenario{
			Name: "tails",
			What: fmt.Sprintf("%d prefixes of messages followed by every string of %d bytes over %d tags, lengths and markers", len(starts), tail, len(symbols)),
			N:    uint64(len(starts)) * pow(uint64(len(symbols)), tail),
			At: func(c *engine.C, i uint64) {
				s := starts[i%uint64(len(starts))]
				i /= uint64(len(starts))
				b := append([]byte{}, s.b...)
				for k := 0; k < tail; k++ {
					b = append(b, symbols[i%uint64(len(symbols))])
					i /= uint64(len(symbols))
				}
				harmless(c, entries[s.m.entry], b)
			},
		})
		// damaged messages
		type whole struct {
			m wire
			b []byte
		}
		var wholes []whole
		for _, m := range list {
			for _, f := range []ref.Form{ref.Indef, ref.Short, ref.Long4} {
				b := clone(m.tlv).SetForms(f).Bytes()
				if len(b) < 170 {
					wholes = append(wholes, whole{m, b})
				}
			}
		}
		scs = append(scs, &engine.Scenario{
			Name: "one damage",
			What: fmt.Sprintf("%d messages (in three length forms) x every byte replaced by every value, deleted, doubled, or any byte of the symbols inserted", len(wholes)),
			Run: func(c *engine.C) {
				w := wholes[c.Choose(len(wholes))]
				at := c.Choose(len(w.b))
				e := entries[w.m.entry]
				b := append([]byte{}, w.b...)
				for v := 0; v < 256; v++ {
					b[at] = byte(v)
					harmless(c, e, append([]byte{}, b...))
				}
				harmless(c, e, append(append([]byte{}, w.b[:at]...), w.b[at+1:]...))
				harmless(c, e, append(append([]byte{}, w.b[:at+1]...), w.b[at:]...))
				for _, v := range symbols {
					harmless(c, e, append(append(append([]byte{}, w.b[:at]...), v), w.b[at:]...))
				}
				c.StateBytes(w.b)
			},
		})
		if t.Thorough {
			scs = append(scs, &engine.Scenario{
				Name: "two damages",
				What: "messages of up to 60 bytes x every two bytes replaced by every two bytes of the symbols",
				Run: func(c *engine.C) {
					w := wholes[c.Choose(len(wholes))]
					if len(w.b) > 60 {
						return
					}
					at := c.Choose(len(w.b))
					e := entries[w.m.entry]
					for two := at + 1; two < len(w.b); two++ {
						b := append([]byte{}, w.b...)
						for _, v := range smallAlphabet {
							for _, u := range smallAlphabet {
								b[at], b[two] = v, u
								harmless(c, e, append([]byte{}, b...))
							}
						}
					}
				},
			})
		}
		// lengths that lie
		lengths := []uint64{0, 1, 1 << 8, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1}
		scs = append(scs, &engine.Scenario{
			Name: "huge lengths",
			What: fmt.Sprintf("%d messages (length forms indefinite and 4 bytes) x every item's length replaced by %d lengths up to 2^32-1 or indefinite, allocation metered", len(list), len(lengths)),
			Run: func(c *engine.C) {
				m := choose(c, list)
				f := []ref.Form{ref.Indef, ref.Long4}[c.Choose(2)]
				tlv := clone(m.tlv).SetForms(f)
				b := tlv.Bytes()
				its := layout(tlv)
				it := its[c.Choose(len(its))]
				k := c.Choose(len(lengths) + 1)
				h := it.at + 1 + 1
				if b[it.at+1] > 0x80 {
					h += int(b[it.at+1] & 0x7f)
				}
				bad := append([]byte{}, b[:it.at+1]...)
				if k == len(lengths) {
					bad = append(bad, 0x80)
				} else {
					n := lengths[k]
					bad = append(bad, 0x84, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
				}
				bad = append(bad, b[h:]...)
				metered(c, entries[m.entry], bad, "length replaced")
				metered(c, entries[m.entry], bad[:len(bad)-len(b[h:])], "cut after the length")
				c.StateBytes(bad)
			},
		})
		// every item many times over
		type rep struct {
			m  wire
			at int // index into layout
		}
		var reps []rep
		for _, m := range list {
			if len(m.tlv.Bytes()) > 120 {
				continue
			}
			for at := range layout(clone(m.tlv)) {
				if at > 0 {
					reps = append(reps, rep{m, at})
				}
			}
		}
		scs = append(scs, &engine.Scenario{
			Name: "repeated items",
			What: fmt.Sprintf("%d items of messages, each repeated to %d KiB (length forms indefinite and short; copies the same or with numbers of their own), allocation and time metered", len(reps), t.Pick(512, 2048)),
			N:    uint64(len(reps)) * 4,
			At: func(c *engine.C, i uint64) {
				r := reps[i/4]
				tlv := clone(r.m.tlv).SetForms([]ref.Form{ref.Indef, ref.Short}[i&1])
				it := layout(tlv)[r.at]
				copies := t.Pick(512, 2048) << 10 / (len(it.tlv.Bytes()) + 1)
				var kids []*ref.TLV
				for _, k := range it.parent.Kids {
					kids = append(kids, k)
					if k != it.tlv {
						continue
					}
					for j := 1; j < copies; j++ {
						copied := it.tlv
						if i&2 != 0 {
							copied = clone(it.tlv)
							if !renumber(copied, int32(j)) {
								return
							}
						}
						kids = append(kids, copied)
					}
				}
				it.parent.Kids = kids
				b := tlv.Bytes()
				metered(c, entries[r.m.entry], b, fmt.Sprintf("%v, item %d (tag %#x) %d times", r.m, r.at, it.tlv.Tag, copies))
				c.State(i)
			},
		})
		// large inputs
		bombs := bombList(t)
		scs = append(scs, &engine.Scenario{
			Name: "large inputs",
			What: fmt.Sprintf("%d shapes of large messages (deep, wide, both, unterminated; up to 1 MiB), allocation and time metered", len(bombs)),
			N:    uint64(len(bombs)),
			At: func(c *engine.C, i uint64) {
				b := bombs[i]
				data := b.make()
				metered(c, entries[b.entry], data, b.name)
				c.Logf("%s: %s, %d bytes", b.entry, b.name, len(data))
				c.State(i)
			},
		})
		return scs
	})
}

// renumber gives the first number in t, or the end of the first path, the value n.
func renumber(t *ref.TLV, n int32) bool {
	if !t.Cons {
		if t.Tag == ref.TagInt {
			t.Prim = ref.Int(int64(n)).Prim
			return true
		}
		if t.Tag == ref.TagOID {
			t.Prim = ref.OID([]int32{7, n}).Prim
			return true
		}
		return false
	}
	for _, k := range t.Kids {
		if renumber(k, n) {
			return true
		}
	}
	return false
}

type bomb struct {
	entry, name string
	make        func() []byte
}

// bombList: containers nested deep, lists grown long, both together.
func bombList(t engine.Tier) []bomb {
	var out []bomb
	add := func(entry, name string, f func() []byte) { out = append(out, bomb{entry, name, f}) }
	// def wraps body into a container of definite length
	def := func(tag byte, body []byte) []byte {
		return append(append([]byte{tag}, ref.Length(len(body), ref.Short)...), body...)
	}
	rep := func(n int, b []byte) []byte {
		out := make([]byte, 0, n*len(b))
		for i := 0; i < n; i++ {
			out = append(out, b...)
		}
		return out
	}
	num := func(n int) []byte { return def(0xa0, ref.Int(int64(n)).Bytes()) }
	node := func(n int, rest []byte) []byte { return def(0x63, append(num(n), rest...)) }
	root := func(b []byte) []byte { return def(0x60, def(0x6b, b)) }
	contents := func(set []byte) []byte { return def(0xa1, def(0x31, set)) }
	size := 1 << 20

	// nesting of nodes: element > children(ctx 2, app 4, ctx 0) > element ...
	for _, depth := range []int{100, 500, 1000, 1300, 5000, 60000} {
		depth := depth
		indef := func(closed bool) []byte {
			b := []byte{0x60, 0x80, 0x6b, 0x80, 0xa0, 0x80}
			for i := 0; i < depth; i++ {
				b = append(b, 0x63, 0x80, 0xa0, 0x03, 0x02, 0x01, 0x01)
				b = append(b, 0xa2, 0x80, 0x64, 0x80, 0xa0, 0x80)
			}
			b = append(b, 0x63, 0x80, 0xa0, 0x03, 0x02, 0x01, 0x01, 0, 0)
			if closed {
				for i := 0; i < 4*depth+3; i++ {
					b = append(b, 0, 0)
				}
			}
			return b
		}
		add("tree", fmt.Sprintf("%d nodes nested, indefinite", depth), func() []byte { return indef(true) })
		for _, every := range []int{1, 30, 1000} {
			every := every
			add("tree", fmt.Sprintf("%d nodes nested, indefinite, but every %d levels a definite length", depth, every), func() []byte {
				open := []byte{0x63, 0x80, 0xa0, 0x03, 0x02, 0x01, 0x01, 0xa2, 0x80, 0x64, 0x80}
				inner := node(1, nil)
				var heads [][]byte
				n := len(inner)
				var tail []byte // the ends, inside out
				for i := 0; i < depth; i++ {
					h := append([]byte{}, open...)
					if i%every == 0 {
						h = append(append(h, 0xa0), ref.Length(n, ref.Short)...)
						tail = append(tail, 0, 0, 0, 0, 0, 0)
						n += len(h) + 6
					} else {
						h = append(h, 0xa0, 0x80)
						tail = append(tail, 0, 0, 0, 0, 0, 0, 0, 0)
						n += len(h) + 8
					}
					heads = append(heads, h)
				}
				b := []byte{0x60, 0x80, 0x6b, 0x80, 0xa0, 0x80}
				for i := len(heads) - 1; i >= 0; i-- {
					b = append(b, heads[i]...)
				}
				b = append(b, inner...)
				b = append(b, tail...)
				return append(b, 0, 0, 0, 0, 0, 0)
			})
		}
		add("tree", fmt.Sprintf("%d nodes nested, unterminated", depth), func() []byte { return indef(false) })
		if depth > 1300 {
			add("element", fmt.Sprintf("%d containers in one another, definite lengths that lie", depth), func() []byte {
				return rep(depth, []byte{0x63, 0x84, 0x7f, 0xff, 0xff, 0xff, 0xa0, 0x03, 0x02, 0x01, 0x01, 0xa2, 0x84, 0x7f, 0xff, 0xff, 0xff, 0x64, 0x84, 0x7f, 0xff, 0xff, 0xff, 0xa0, 0x84, 0x7f, 0xff, 0xff, 0xff})
			})
			continue
		}
		for _, payload := range []int{0, size / 2} {
			payload := payload
			add("tree", fmt.Sprintf("%d nodes nested, definite, %d bytes inside", depth, payload), func() []byte {
				// built inside out from the header sizes, to stay linear
				inner := node(1, contents(def(0xa1, ref.Str(strings.Repeat("x", payload)).Bytes())))
				var heads [][]byte
				n := len(inner)
				for i := 0; i < depth; i++ {
					for _, tag := range []byte{0xa0, 0x64, 0xa2} {
						h := append([]byte{tag}, ref.Length(n, ref.Short)...)
						heads = append(heads, h)
						n += len(h)
					}
					h := append(append([]byte{0x63}, ref.Length(n+5, ref.Short)...), num(1)...)
					heads = append(heads, h)
					n += len(h)
				}
				for _, tag := range []byte{0xa0, 0x6b, 0x60} {
					h := append([]byte{tag}, ref.Length(n, ref.Short)...)
					heads = append(heads, h)
					n += len(h)
				}
				b := make([]byte, 0, n)
				for i := len(heads) - 1; i >= 0; i-- {
					b = append(b, heads[i]...)
				}
				return append(b, inner...)
			})
			add("tree", fmt.Sprintf("%d nodes nested, indefinite, %d bytes of children inside", depth, payload), func() []byte {
				b := []byte{0x60, 0x80, 0x6b, 0x80, 0xa0, 0x80}
				for i := 0; i < depth; i++ {
					b = append(b, 0x63, 0x80, 0xa0, 0x03, 0x02, 0x01, 0x01)
					b = append(b, 0xa2, 0x80, 0x64, 0x80, 0xa0, 0x80)
				}
				b = append(b, 0x63, 0x80, 0xa0, 0x03, 0x02, 0x01, 0x01)
				b = append(b, 0xa2, 0x80, 0x64, 0x80)
				for i := 0; len(b) < payload; i++ {
					b = append(b, def(0xa0, node(i, nil))...)
				}
				b = append(b, 0, 0, 0, 0, 0, 0)
				for i := 0; i < 4*depth+3; i++ {
					b = append(b, 0, 0)
				}
				return b
			})
		}
	}
	// any one tag repeated: every container the decoders know
	for _, tag := range []byte{0x60, 0x63, 0x6a, 0x61, 0x69, 0x6d, 0x71, 0x73, 0x74, 0x62, 0x64, 0x6b, 0x72, 0x75, 0x76, 0x70, 0x6e, 0x6f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa5, 0x30, 0x31} {
		tag := tag
		for _, e := range []string{"tree", "element", "invocation", "connection", "value", "contents of func", "labels"} {
			add(e, fmt.Sprintf("tag %#x without end", tag), func() []byte { return rep(size/4, []byte{tag, 0x80}) })
		}
	}
	// long lists
	add("tree", "many nodes", func() []byte {
		var l []byte
		for i := 0; len(l) < size; i++ {
			l = append(l, def(0xa0, node(i, nil))...)
		}
		return root(l)
	})
	add("tree", "the same node again and again", func() []byte { return root(rep(size/20, def(0xa0, node(1, contents(nil))))) })
	add("tree", "many children", func() []byte {
		var l []byte
		for i := 0; len(l) < size; i++ {
			l = append(l, def(0xa0, node(i, nil))...)
		}
		return root(def(0xa0, node(1, def(0xa2, def(0x64, l)))))
	})
	add("tree", "the same child again and again", func() []byte {
		return root(def(0xa0, node(1, def(0xa2, def(0x64, rep(size/12, def(0xa0, node(1, nil))))))))
	})
	add("tree", "many children lists", func() []byte {
		return root(def(0xa0, node(1, rep(size/20, def(0xa2, def(0x64, def(0xa0, node(1, nil))))))))
	})
	add("tree", "many path-addressed elements", func() []byte {
		l := def(0xa0, node(1, nil))
		for i := 0; len(l) < size; i++ {
			l = append(l, def(0xa0, def(0x6a, def(0xa0, ref.OID([]int32{1, int32(i)}).Bytes())))...)
		}
		return root(l)
	})
	add("tree", "many elements with long unknown paths", func() []byte {
		path := make([]int32, 200)
		return root(rep(size/220, def(0xa0, def(0x6a, def(0xa0, ref.OID(path).Bytes())))))
	})
	add("element", "one long path", func() []byte { return def(0x6a, def(0xa0, ref.OID(make([]int32, size)).Bytes())) })
	add("element", "contents again and again", func() []byte { return node(1, rep(size/10, contents(def(0xa1, ref.Str("x").Bytes())))) })
	add("element", "a property again and again", func() []byte { return node(1, contents(rep(size/5, def(0xa1, ref.Str("x").Bytes())))) })
	for _, e := range []string{"node", "param", "func", "matrix"} {
		add("contents of "+e, "a property again and again", func() []byte { return def(0x31, rep(size/5, def(0xa0, ref.Str("x").Bytes()))) })
		add("contents of "+e, "one long text", func() []byte { return def(0x31, def(0xa1, ref.Str(strings.Repeat("t", size)).Bytes())) })
		add("contents of "+e, "one long indefinite text", func() []byte {
			return append([]byte{0x31, 0x80, 0xa1, 0x80, 0x0c, 0x80}, append([]byte(strings.Repeat("t", size)), 0, 0, 0, 0, 0, 0)...)
		})
		add("contents of "+e, "an unterminated text", func() []byte {
			return append([]byte{0x31, 0x80, 0xa1, 0x80, 0x0c, 0x80}, strings.Repeat("t", size)...)
		})
		add("contents of "+e, "zeros", func() []byte { return append([]byte{0x31, 0x80}, make([]byte, size)...) })
	}
	add("contents of func", "many arguments", func() []byte {
		return def(0x31, def(0xa2, def(0x30, rep(size/14, def(0xa0, ref.K(ref.App(21), ref.Wrap(0, ref.Int(1)), ref.Wrap(1, ref.Str("a"))).Bytes())))))
	})
	add("contents of func", "argument lists again and again", func() []byte { return def(0x31, rep(size/4, def(0xa2, def(0x30, nil)))) })
	add("labels", "many labels", func() []byte {
		return def(0xaa, def(0x30, rep(size/14, def(0xa0, ref.LabelTLV(ref.Label{Path: []int32{1}, Text: "a"}).Bytes()))))
	})
	add("targets", "many targets", func() []byte {
		return def(0xa3, def(0x30, rep(size/9, def(0xa0, ref.SignalTLV(1, false).Bytes()))))
	})
	add("connections of matrix", "many connections", func() []byte {
		return def(0xa5, def(0x30, rep(size/20, def(0xa0, ref.ConnTLV(ref.Conn{Target: 1, Sources: []int32{1}}).Bytes()))))
	})
	add("connection", "many sources", func() []byte {
		return ref.ConnTLV(ref.Conn{Target: 1, Sources: make([]int32, size)}).Bytes()
	})
	add("invocation", "many arguments", func() []byte {
		return def(0x76, def(0xa1, def(0x30, rep(size/5, def(0xa0, ref.Int(1).Bytes())))))
	})
	add("element", "matrix with target lists again and again", func() []byte {
		return def(0x6d, append(num(1), rep(size/4, def(0xa3, def(0x30, nil)))...))
	})
	add("ReadString", "indefinite", func() []byte { return append([]byte{0x0c, 0x80}, strings.Repeat("t", size)...) })
	add("ReadString", "long", func() []byte { return ref.Str(strings.Repeat("t", size)).Bytes() })
	add("ReadOID", "long", func() []byte { return ref.OID(make([]int32, size)).Bytes() })
	add("ReadReal", "long", func() []byte {
		return append(append([]byte{0x09}, ref.Length(size, ref.Short)...), make([]byte, size)...)
	})
	return out
}
