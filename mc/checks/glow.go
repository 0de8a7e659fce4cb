package checks

import (
	"math"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"

	"verifmc/engine"
	"verifmc/ref"
)

// ---- access to the properties of contents through the library's accessors ----

type accessor struct {
	get func(x interface{}) (ref.Val, bool) // value, is set
	set func(x interface{}, v ref.Val)
}

func strGet(s string, err errors.Error) (ref.Val, bool) {
	return ref.Val{K: ref.VString, S: s}, err == nil
}
func intGet(i int64, err errors.Error) (ref.Val, bool) { return ref.Val{K: ref.VInt, I: i}, err == nil }
func boolGet(b bool, err errors.Error) (ref.Val, bool) {
	return ref.Val{K: ref.VBool, B: b}, err == nil
}

// objVal reads a value object.
func objVal(o *embertree.ContentParameter) (ref.Val, bool) {
	switch o.GetType() {
	case embertree.ValueTypeString:
		return strGet(o.GetString())
	case embertree.ValueTypeBool:
		return boolGet(o.GetBool())
	case embertree.ValueTypeInteger:
		return intGet(o.GetInt())
	case embertree.ValueTypeBuffer:
		b, err := o.GetBuffer()
		return ref.Val{K: ref.VOctets, S: string(b)}, err == nil
	case embertree.ValueTypeReal:
		r, err := o.GetReal()
		return ref.Val{K: ref.VReal, R: r}, err == nil
	case embertree.ValueTypeOID:
		p, err := o.GetRelativeOID()
		return ref.Val{K: ref.VOID, O: p}, err == nil
	}
	return ref.Val{}, false
}

func setObj(o *embertree.ContentParameter, v ref.Val) {
	switch v.K {
	case ref.VString:
		o.SetString(v.S)
	case ref.VBool:
		o.SetBool(v.B)
	case ref.VInt:
		o.SetInt(v.I)
	case ref.VOctets:
		o.SetBuffer([]byte(v.S))
	case ref.VReal:
		o.SetReal(v.R)
	case ref.VOID:
		o.SetRelativeOID(v.O)
	}
}

type (
	nodeC  = *embertree.NodeContents
	paramC = *embertree.ParameterContents
	funcC  = *embertree.FunctionContents
	matC   = *embertree.MatrixContent
)

func objAcc(f func(x paramC) *embertree.ContentParameter) accessor {
	return accessor{
		func(x interface{}) (ref.Val, bool) { return objVal(f(x.(paramC))) },
		func(x interface{}, v ref.Val) { setObj(f(x.(paramC)), v) },
	}
}

// accessors by kind and context number.
var accessors = map[ref.Kind]map[int]accessor{
	ref.Node: {
		0: {func(x interface{}) (ref.Val, bool) { return strGet(x.(nodeC).GetIdentifier()) }, func(x interface{}, v ref.Val) { x.(nodeC).SetIdentifier(v.S) }},
		1: {func(x interface{}) (ref.Val, bool) { return strGet(x.(nodeC).GetDescription()) }, func(x interface{}, v ref.Val) { x.(nodeC).SetDescription(v.S) }},
		2: {func(x interface{}) (ref.Val, bool) { return boolGet(x.(nodeC).GetIsRoot()) }, func(x interface{}, v ref.Val) { x.(nodeC).SetIsRoot(v.B) }},
		3: {func(x interface{}) (ref.Val, bool) { return boolGet(x.(nodeC).GetIsOnline()) }, func(x interface{}, v ref.Val) { x.(nodeC).SetIsOnline(v.B) }},
		4: {func(x interface{}) (ref.Val, bool) { return strGet(x.(nodeC).GetSchemaIdentifiers()) }, func(x interface{}, v ref.Val) { x.(nodeC).SetSchemaIdentifiers(v.S) }},
	},
	ref.Param: {
		0:  {func(x interface{}) (ref.Val, bool) { return strGet(x.(paramC).GetIdentifier()) }, func(x interface{}, v ref.Val) { x.(paramC).SetIdentifier(v.S) }},
		1:  {func(x interface{}) (ref.Val, bool) { return strGet(x.(paramC).GetDescription()) }, func(x interface{}, v ref.Val) { x.(paramC).SetDescription(v.S) }},
		2:  objAcc(func(x paramC) *embertree.ContentParameter { return x.GetValueObject() }),
		3:  objAcc(func(x paramC) *embertree.ContentParameter { return x.GetMinimumObject() }),
		4:  objAcc(func(x paramC) *embertree.ContentParameter { return x.GetMaximumObject() }),
		5:  {func(x interface{}) (ref.Val, bool) { return strGet(x.(paramC).GetAccess()) }, func(x interface{}, v ref.Val) { x.(paramC).SetAccess(v.S) }},
		6:  {func(x interface{}) (ref.Val, bool) { return strGet(x.(paramC).GetFormat()) }, func(x interface{}, v ref.Val) { x.(paramC).SetFormat(v.S) }},
		7:  {func(x interface{}) (ref.Val, bool) { return strGet(x.(paramC).GetEnumeration()) }, func(x interface{}, v ref.Val) { x.(paramC).SetEnumeration(v.S) }},
		8:  {func(x interface{}) (ref.Val, bool) { return intGet(x.(paramC).GetFactor()) }, func(x interface{}, v ref.Val) { x.(paramC).SetFactor(v.I) }},
		9:  {func(x interface{}) (ref.Val, bool) { return boolGet(x.(paramC).GetOnline()) }, func(x interface{}, v ref.Val) { x.(paramC).SetOnline(v.B) }},
		10: {func(x interface{}) (ref.Val, bool) { return strGet(x.(paramC).GetFormula()) }, func(x interface{}, v ref.Val) { x.(paramC).SetFormula(v.S) }},
		11: {func(x interface{}) (ref.Val, bool) { return intGet(x.(paramC).GetStep()) }, func(x interface{}, v ref.Val) { x.(paramC).SetStep(v.I) }},
		12: objAcc(func(x paramC) *embertree.ContentParameter { return x.GetDefaultObject() }),
		13: {func(x interface{}) (ref.Val, bool) { return strGet(x.(paramC).GetType()) }, func(x interface{}, v ref.Val) { x.(paramC).SetType(v.S) }},
		14: {func(x interface{}) (ref.Val, bool) { return intGet(x.(paramC).GetStreamIdentifier()) }, func(x interface{}, v ref.Val) { x.(paramC).SetStreanIdentifier(v.I) }},
	},
	ref.Func: {
		0: {func(x interface{}) (ref.Val, bool) { return strGet(x.(funcC).GetIdentifier()) }, func(x interface{}, v ref.Val) { x.(funcC).SetIdentifier(v.S) }},
		1: {func(x interface{}) (ref.Val, bool) { return strGet(x.(funcC).GetDescription()) }, func(x interface{}, v ref.Val) { x.(funcC).SetDescription(v.S) }},
	},
	ref.Matrix: {
		0: {func(x interface{}) (ref.Val, bool) { return strGet(x.(matC).GetIdentifier()) }, func(x interface{}, v ref.Val) { x.(matC).SetIdentifier(v.S) }},
		1: {func(x interface{}) (ref.Val, bool) { return strGet(x.(matC).GetDescription()) }, func(x interface{}, v ref.Val) { x.(matC).SetDescription(v.S) }},
		2: {func(x interface{}) (ref.Val, bool) { t, err := x.(matC).GetType(); return intGet(int64(t), err) }, func(x interface{}, v ref.Val) { must(x.(matC).SetType(embertree.MatrixType(v.I))) }},
		3: {func(x interface{}) (ref.Val, bool) { t, err := x.(matC).GetMode(); return intGet(int64(t), err) }, func(x interface{}, v ref.Val) { must(x.(matC).SetMode(embertree.MatrixMode(v.I))) }},
		4: {func(x interface{}) (ref.Val, bool) { t, err := x.(matC).GetTargetCount(); return intGet(int64(t), err) }, func(x interface{}, v ref.Val) { must(x.(matC).SetTargetCount(int(v.I))) }},
		5: {func(x interface{}) (ref.Val, bool) { t, err := x.(matC).GetSourceCount(); return intGet(int64(t), err) }, func(x interface{}, v ref.Val) { must(x.(matC).SetSourceCount(int(v.I))) }},
		6: {func(x interface{}) (ref.Val, bool) {
			t, err := x.(matC).GetMaxTotalConnects()
			return intGet(int64(t), err)
		}, func(x interface{}, v ref.Val) { must(x.(matC).SetMaxTotalConnects(int(v.I))) }},
		7: {func(x interface{}) (ref.Val, bool) {
			t, err := x.(matC).GetMaxConnectsPerTarget()
			return intGet(int64(t), err)
		}, func(x interface{}, v ref.Val) { must(x.(matC).SetMaxConnectsPerTarget(int(v.I))) }},
		8: {func(x interface{}) (ref.Val, bool) {
			p, err := x.(matC).GetParameterLocation()
			return ref.Val{K: ref.VOID, O: p}, err == nil
		}, func(x interface{}, v ref.Val) { must(x.(matC).SetParameterLocation(v.O)) }},
		9: {func(x interface{}) (ref.Val, bool) {
			t, err := x.(matC).GetGainParameterNumber()
			return intGet(int64(t), err)
		}, func(x interface{}, v ref.Val) { must(x.(matC).SetGainParameterNumber(int(v.I))) }},
		11: {func(x interface{}) (ref.Val, bool) { return strGet(x.(matC).GetSchemaIdentifier()) }, func(x interface{}, v ref.Val) { must(x.(matC).SetSchemaIdentifier(v.S)) }},
	},
}

func must(err errors.Error) {
	if err != nil {
		panic(err)
	}
}

// ---- building elements through the library's API ----

func asPath(p []int32) asn1.RelativeOID { return append(asn1.RelativeOID{}, p...) }

func tuples(l []ref.Tuple) []*embertree.TupleDescription {
	out := []*embertree.TupleDescription{}
	for _, t := range l {
		out = append(out, embertree.NewArgument(embertree.ParameterType(t.Type), t.Name))
	}
	return out
}

func signals(l []int32, source bool) []embertree.Signal {
	out := []embertree.Signal{}
	for _, n := range l {
		if source {
			out = append(out, embertree.NewSource(n))
		} else {
			out = append(out, embertree.NewTarget(n))
		}
	}
	return out
}

func connections(l []ref.Conn) []*embertree.Connection {
	out := []*embertree.Connection{}
	for _, x := range l {
		k := &embertree.Connection{Target: x.Target, Sources: append([]int32{}, x.Sources...)}
		must(k.SetOperation(x.Op))
		must(k.SetDisposition(x.Disp))
		out = append(out, k)
	}
	return out
}

// newContents makes empty contents of a kind.
func newContents(k ref.Kind) embertree.EmberContents {
	switch k {
	case ref.Node:
		return embertree.NewNodeContents()
	case ref.Param:
		return embertree.NewParameterContents()
	case ref.Func:
		return embertree.NewFunctionContents()
	case ref.Matrix:
		return &embertree.MatrixContent{}
	}
	return embertree.NewCommandContents()
}

// fillContents sets the properties of e (those with setters).
func fillContents(contents interface{}, e *ref.Elem) {
	for ctx, v := range e.Props {
		if a, ok := accessors[e.Kind][ctx]; ok {
			a.set(contents, v)
		}
	}
	switch x := contents.(type) {
	case nodeC:
		if e.Template != nil {
			x.SetTemplateReference(asPath(e.Template))
		}
	case funcC:
		if e.HasArgs {
			x.SetArguments(tuples(e.Args))
		}
		if e.HasResults {
			x.SetResult(tuples(e.Results))
		}
	case *embertree.CommandContents:
		x.SetFieldFlags(embertree.FieldFlags(e.Flags))
	}
}

// bare makes the library's element of that kind and address, without contents.
func bare(e *ref.Elem) *embertree.Element {
	n := int(e.Number)
	if e.Path != nil {
		switch e.Kind {
		case ref.Node:
			return embertree.NewQualifiedNode(asPath(e.Path))
		case ref.Param:
			return embertree.NewQualifiedParameter(asPath(e.Path))
		case ref.Func:
			return embertree.NewQualifiedElement(embertree.QualifiedFunctionApplication, asPath(e.Path), embertree.NewFunctionContents)
		}
		return embertree.NewQualifiedMatrix(asPath(e.Path), embertree.OneToN, embertree.Linear)
	}
	switch e.Kind {
	case ref.Node:
		return embertree.NewNode(n)
	case ref.Param:
		return embertree.NewParameter(n)
	case ref.Func:
		return embertree.NewFunction(n)
	case ref.Matrix:
		m, err := embertree.NewMatrix(n, embertree.OneToN, embertree.Linear)
		must(err)
		return m
	}
	return embertree.NewCommand(n)
}

// build makes the element through the library's API. A matrix by number and
// a command always have contents.
func build(e *ref.Elem) *embertree.Element {
	el := bare(e)
	if e.Contents {
		contents := newContents(e.Kind)
		fillContents(contents, e)
		must(el.SetContents(contents))
	}
	if e.Kind == ref.Matrix {
		if e.HasTargets {
			must(el.SetTargets(signals(e.Targets, false)))
		}
		if e.HasSources {
			must(el.SetSources(signals(e.Sources, true)))
		}
		if e.HasConns {
			must(el.SetConnections(connections(e.Conns)))
		}
	}
	for _, k := range e.Children {
		must(el.AddChild(build(k)))
	}
	return el
}

// settable is what remains of e when it can only be stated through setters.
func settable(e *ref.Elem) *ref.Elem {
	s := *e
	s.Props = map[int]ref.Val{}
	for ctx, v := range e.Props {
		if _, ok := accessors[e.Kind][ctx]; !ok {
			continue
		}
		if e.Kind == ref.Param && (ctx == 5 || ctx == 13) && v.K != ref.VString {
			v = ref.Val{K: ref.VString, S: "rw"}
		}
		s.Props[ctx] = v
	}
	if e.Kind != ref.Node {
		s.Template = nil
	}
	s.Labels, s.HasLabels = nil, false
	if (e.Kind == ref.Matrix || e.Kind == ref.Cmd) && !e.Contents {
		// these never come without contents
		s.Contents = true
		if e.Kind == ref.Cmd {
			s.Flags = 0
			if s.Number == 32 {
				s.Flags = -1
			}
		}
	}
	s.Children = nil
	for _, k := range e.Children {
		s.Children = append(s.Children, settable(k))
	}
	return &s
}

// ---- observing elements through the library's accessors ----

func kindOfTag(tag uint8) (ref.Kind, bool, bool) {
	for k := ref.Node; k < ref.NKinds; k++ {
		if tag == ref.ElemTag(k, false) {
			return k, false, true
		}
		if k != ref.Cmd && tag == ref.ElemTag(k, true) {
			return k, true, true
		}
	}
	return 0, false, false
}

func contentsKind(x embertree.EmberContents) (ref.Kind, bool) {
	switch x.(type) {
	case nodeC:
		return ref.Node, true
	case paramC:
		return ref.Param, true
	case funcC:
		return ref.Func, true
	case matC:
		return ref.Matrix, true
	case *embertree.CommandContents:
		return ref.Cmd, true
	}
	return 0, false
}

func observedTuples(l []*embertree.TupleDescription) []ref.Tuple {
	out := []ref.Tuple{}
	for _, t := range l {
		out = append(out, ref.Tuple{Type: int(t.Type), Name: t.Name})
	}
	return out
}

func observedSignals(c *engine.C, l []embertree.Signal, source bool) []int32 {
	out := []int32{}
	for _, s := range l {
		switch x := s.(type) {
		case *embertree.Target:
			c.Assert(!source, "a target among the sources")
			out = append(out, x.Number)
		case *embertree.Source:
			c.Assert(source, "a source among the targets")
			out = append(out, x.Number)
		default:
			c.Failf("signal of type %T", s)
		}
	}
	return out
}

func observedConn(x *embertree.Connection) ref.Conn {
	return ref.Conn{Target: x.Target, Sources: append([]int32{}, x.Sources...), Op: int(x.GetOperation()), Disp: int(x.GetDisposition())}
}

// observeContents describes contents by what their accessors say.
func observeContents(c *engine.C, e *ref.Elem, x embertree.EmberContents) {
	if x == nil {
		return
	}
	k, known := contentsKind(x)
	if !known || k != e.Kind {
		c.Failf("a %v has contents of type %T", e.Kind, x)
	}
	e.Contents = true
	for ctx, a := range accessors[k] {
		if v, set := a.get(x); set {
			e.Props[ctx] = v
		}
	}
	switch x := x.(type) {
	case nodeC:
		p, err := x.GetTemplateReference()
		ok(c, err, "GetTemplateReference")
		e.Template = p
	case funcC:
		e.Args, e.HasArgs = observedTuples(x.GetArguments()), true
		e.Results, e.HasResults = observedTuples(x.GetResult()), true
	case *embertree.CommandContents:
		e.Flags = int64(x.GetFieldFlags())
	}
}

// observe describes an element by what its accessors say.
func observe(c *engine.C, el *embertree.Element) *ref.Elem {
	k, q, known := kindOfTag(el.GetTag())
	if !known {
		c.Failf("element with tag %#x", el.GetTag())
	}
	e := &ref.Elem{Kind: k, Number: int32(el.Number), Props: map[int]ref.Val{}}
	if q {
		e.Path = el.GetPath()
		if len(e.Path) == 0 || int(e.Path[len(e.Path)-1]) != el.Number {
			c.Failf("element with path %v and number %d", e.Path, el.Number)
		}
	}
	x := el.GetContent()
	y, err := el.GetContents()
	ok(c, err, "GetContents")
	c.Assert(x == y, "GetContent and GetContents differ")
	observeContents(c, e, x)
	targets, err := el.GetTargets()
	if k != ref.Matrix {
		c.Assert(err != nil, "a %v has targets", k)
	} else {
		ok(c, err, "GetTargets")
		e.Targets, e.HasTargets = observedSignals(c, targets, false), true
		sources, err := el.GetSources()
		ok(c, err, "GetSources")
		e.Sources, e.HasSources = observedSignals(c, sources, true), true
		conns, err := el.GetConnections()
		ok(c, err, "GetConnections")
		e.HasConns = true
		for _, x := range conns {
			e.Conns = append(e.Conns, observedConn(x))
		}
	}
	for n, kid := range el.Children {
		c.Assert(n == kid.Number, "child number %d filed under %d", kid.Number, n)
		p, err := kid.GetParent()
		ok(c, err, "GetParent")
		c.Assert(p == el, "child number %d does not know its parent", n)
		e.Children = append(e.Children, observe(c, kid))
	}
	return e
}

// visible is what accessors can tell about e.
func visible(e *ref.Elem) *ref.Elem {
	s := *e
	s.Props = map[int]ref.Val{}
	for ctx, v := range e.Props {
		if _, ok := accessors[e.Kind][ctx]; !ok {
			continue
		}
		if e.Kind == ref.Param && (ctx == 5 || ctx == 13) && v.K != ref.VString {
			continue // known findings of C08
		}
		s.Props[ctx] = v
	}
	if e.Kind != ref.Node {
		s.Template = nil
	}
	s.Labels, s.HasLabels = nil, false
	if e.Kind == ref.Matrix && e.Contents {
		for _, ctx := range []int{2, 3} {
			if _, set := s.Props[ctx]; !set {
				s.Props[ctx] = ref.Val{K: ref.VInt}
			}
		}
	}
	s.Children = nil
	for _, k := range e.Children {
		s.Children = append(s.Children, visible(k))
	}
	return &s
}

// ---- observing elements through their encoding ----

type encoder interface {
	Encode(w *asn1.ASNWriter) errors.Error
}

func encoded(c *engine.C, x encoder, what string) []byte {
	w := &asn1.ASNWriter{}
	ok(c, x.Encode(w), "encoding %s", what)
	return written(w)
}

func parsed(c *engine.C, b []byte, what string) *ref.TLV {
	t, err := ref.Parse(b)
	if err != nil {
		c.Failf("%s is not well formed: %v\n% x", what, err, clipb(b))
	}
	return t
}

// stated is what the encoding of an element states, with its direct children.
func stated(c *engine.C, el *embertree.Element) *ref.Elem {
	b := encoded(c, el, "the element")
	e, err := ref.ParseElem(parsed(c, b, "the encoding"))
	if err != nil {
		c.Failf("the encoding is not an element: %v\n% x", err, clipb(b))
	}
	return e
}

// statedAll is what the encodings of an element and all its descendants state.
func statedAll(c *engine.C, el *embertree.Element) *ref.Elem {
	e := stated(c, el)
	if len(e.Children) != len(el.Children) {
		c.Failf("%d children encoded instead of %d", len(e.Children), len(el.Children))
	}
	for i, k := range e.Children {
		kid := el.Children[int(k.Num())]
		if kid == nil {
			c.Failf("child %d encoded which does not exist", k.Num())
		}
		full := statedAll(c, kid)
		o := ref.DumpOpt{NoKids: true, NoAddress: true}
		same(c, k.Text(o), full.Text(o), "an element encoded as a child and on its own")
		same(c, k.Num(), full.Num(), "number of an element encoded as a child and on its own")
		e.Children[i] = full
	}
	return e
}

// flat is e without grandchildren.
func flat(e *ref.Elem) *ref.Elem {
	s := *e
	s.Children = nil
	for _, k := range e.Children {
		x := *k
		x.Children = nil
		s.Children = append(s.Children, &x)
	}
	return &s
}

// byNumber is e with every element known by its number only.
func byNumber(e *ref.Elem) *ref.Elem {
	s := *e
	s.Number, s.Path = e.Num(), nil
	s.Children = nil
	for _, k := range e.Children {
		s.Children = append(s.Children, byNumber(k))
	}
	return &s
}

func text(e *ref.Elem) string { return e.Text(ref.DumpOpt{}) }

// ---- generators ----

func sv(s string) ref.Val   { return ref.Val{K: ref.VString, S: s} }
func iv(i int64) ref.Val    { return ref.Val{K: ref.VInt, I: i} }
func rv(r float64) ref.Val  { return ref.Val{K: ref.VReal, R: r} }
func bv(b bool) ref.Val     { return ref.Val{K: ref.VBool, B: b} }
func ov(s string) ref.Val   { return ref.Val{K: ref.VOctets, S: s} }
func pv(o ...int32) ref.Val { return ref.Val{K: ref.VOID, O: append([]int32{}, o...)} }

// domain lists interesting values of a type.
func domain(k ref.VKind) []ref.Val {
	switch k {
	case ref.VInt:
		var l []ref.Val
		for _, i := range []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32769, 1<<23 - 1, 1 << 23, 1<<31 - 1, -1 << 31, 1 << 31, 1<<32 + 5, 1 << 40, -1 << 47, math.MaxInt64, math.MinInt64} {
			l = append(l, iv(i))
		}
		return l
	case ref.VReal:
		var l []ref.Val
		for _, r := range []float64{0, 1, -1, 1.5, 0.1, -0.3, 1e300, 5e-324, -2.3e-310, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1 << 52, 255, 256, math.Pi} {
			l = append(l, rv(r))
		}
		return l
	case ref.VString:
		return []ref.Val{sv(""), sv("a"), sv("gäin ÿ\x00\xff"), sv(strings.Repeat("x", 127)), sv(strings.Repeat("y", 128)), sv(strings.Repeat("z", 255)), sv(strings.Repeat("n", 256)), sv(strings.Repeat("l", 70000)), sv("\x00\x00"), sv("%s%d\n")}
	case ref.VBool:
		return []ref.Val{bv(true), bv(false)}
	case ref.VOctets:
		return []ref.Val{ov(""), ov("\x00"), ov("\x00\x00"), ov("\xff\xfe\xfd"), ov(strings.Repeat("\xa5", 130)), ov(strings.Repeat("\x01", 66000))}
	}
	long := make([]int32, 200)
	for i := range long {
		long[i] = int32(i * 1000)
	}
	return []ref.Val{pv(1), pv(0), pv(), pv(127), pv(128), pv(1, 2, 3), pv(16383, 16384, 0), pv(math.MaxInt32, 1), pv(long...)}
}

// sample is one value of a type (two variants).
func sample(k ref.VKind, variant, ctx int) ref.Val {
	switch k {
	case ref.VInt:
		if variant == 0 {
			return iv(int64(ctx + 1))
		}
		return iv(int64(-200 * (ctx + 1)))
	case ref.VReal:
		return rv(float64(ctx) + []float64{0.5, -0.25}[variant])
	case ref.VString:
		return sv([]string{"", "text "}[variant] + string(rune('a'+ctx)))
	case ref.VBool:
		return bv(variant == 0)
	case ref.VOctets:
		return ov("\x00\xff")
	}
	return pv(1, int32(ctx+200), int32(variant))
}

// intDomain limits values to what a property may hold.
func legal(k ref.Kind, ctx int, v ref.Val) bool {
	if k == ref.Matrix && ctx == 2 {
		return v.I >= 0 && v.I <= 2
	}
	if k == ref.Matrix && ctx == 3 {
		return v.I >= 0 && v.I <= 1
	}
	return true
}

func propSample(k ref.Kind, ctx, variant int) ref.Val {
	kinds := ref.PropKinds(k)[ctx]
	if k == ref.Matrix && (ctx == 2 || ctx == 3) {
		return iv(int64(1 - variant + ctx*0))
	}
	return sample(kinds[variant%len(kinds)], variant, ctx)
}

var sampleTuples = []ref.Tuple{{Type: 1, Name: "a"}, {Type: 3, Name: ""}, {Type: 255, Name: "third"}}

// extras are the structured properties of a kind (by index).
func nExtras(k ref.Kind) int {
	switch k {
	case ref.Func:
		return 3
	case ref.Matrix:
		return 2
	case ref.Cmd:
		return 0
	}
	return 1
}

func addExtra(e *ref.Elem, i int) {
	switch {
	case i == 0:
		e.Template = []int32{1, 300, 0}
	case e.Kind == ref.Func && i == 1:
		e.HasArgs, e.Args = true, sampleTuples[:2]
	case e.Kind == ref.Func && i == 2:
		e.HasResults, e.Results = true, sampleTuples[1:]
	case e.Kind == ref.Matrix && i == 1:
		e.HasLabels, e.Labels = true, []ref.Label{{Path: []int32{1, 2, 3}, Text: "Primary"}, {Path: []int32{200}, Text: ""}}
	}
}

func ctxs(k ref.Kind) []int {
	var l []int
	for i := 0; i < 20; i++ {
		if ref.PropKinds(k)[i] != nil {
			l = append(l, i)
		}
	}
	return l
}

var elemKinds = []ref.Kind{ref.Node, ref.Param, ref.Func, ref.Matrix}

// address gives an element one of its two kinds of address.
func address(c *engine.C, e *ref.Elem) {
	if e.Kind != ref.Cmd && c.Bool() {
		e.Path = []int32{1, 200, 3}
	} else {
		e.Number = 7
	}
}

// genSubset: any subset of properties.
func genSubset(c *engine.C, k ref.Kind, skip func(ctx int) bool) *ref.Elem {
	e := &ref.Elem{Kind: k, Contents: true, Props: map[int]ref.Val{}}
	address(c, e)
	variant := c.Choose(2)
	for _, ctx := range ctxs(k) {
		if skip != nil && skip(ctx) {
			continue
		}
		if c.Bool() {
			e.Props[ctx] = propSample(k, ctx, variant)
		}
	}
	for i := 0; i < nExtras(k); i++ {
		if c.Bool() {
			addExtra(e, i)
		}
	}
	return e
}

// genValue: one property with any value, alone or among all others.
func genValue(c *engine.C) *ref.Elem {
	k := choose(c, elemKinds)
	e := &ref.Elem{Kind: k, Contents: true, Props: map[int]ref.Val{}}
	address(c, e)
	l := ctxs(k)
	ctx := choose(c, l)
	if c.Bool() {
		for _, x := range l {
			e.Props[x] = propSample(k, x, 0)
		}
		for i := 0; i < nExtras(k); i++ {
			addExtra(e, i)
		}
	}
	kind := choose(c, ref.PropKinds(k)[ctx])
	v := choose(c, domain(kind))
	if !legal(k, ctx, v) {
		v = iv(2)
		if ctx == 3 {
			v = iv(1)
		}
	}
	e.Props[ctx] = v
	return e
}

// genAddress: any number or path.
func genAddress(c *engine.C) *ref.Elem {
	k := ref.Kind(c.Choose(int(ref.NKinds)))
	e := &ref.Elem{Kind: k, Contents: c.Bool()}
	if k != ref.Cmd && c.Bool() {
		comps := []int32{0, 1, 127, 128, 16383, 16384, math.MaxInt32}
		for i, n := 0, 1+c.Choose(3); i < n; i++ {
			e.Path = append(e.Path, choose(c, comps))
		}
		if c.Bool() {
			for len(e.Path) < 150 {
				e.Path = append(e.Path, int32(len(e.Path)))
			}
		}
		return e
	}
	e.Number = choose(c, []int32{0, 1, 2, 30, 32, 33, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 23, math.MaxInt32, -1, -128, -129, math.MinInt32})
	return e
}

// small is an element with little in it.
func small(k ref.Kind, number int32, mode int) *ref.Elem {
	e := &ref.Elem{Kind: k, Number: number, Props: map[int]ref.Val{}}
	switch mode {
	case 1:
		e.Contents = true
		if k == ref.Cmd {
			e.Flags = -1
		}
	case 2:
		e.Contents = true
		if k == ref.Cmd {
			e.Flags = 5
		} else {
			e.Props[0] = sv("id")
			addExtra(e, nExtras(k)-1)
		}
		if k == ref.Matrix {
			e.HasTargets, e.Targets = true, []int32{0, 1}
			e.HasSources, e.Sources = true, []int32{300}
			e.HasConns, e.Conns = true, []ref.Conn{{Target: 1, Sources: []int32{300, 0}, Op: 1, Disp: 3}}
		}
	}
	return e
}

// genFamily: an element with up to n direct children, and below each up to depth-1 levels of one child.
func genFamily(c *engine.C, n, depth int) *ref.Elem {
	k := choose(c, elemKinds)
	e := small(k, 0, c.Choose(3))
	if c.Bool() {
		e.Path = []int32{5, 0}
	}
	for i, m := 0, c.Choose(n+1); i < m; i++ {
		kid := small(ref.Kind(c.Choose(int(ref.NKinds))), []int32{0, 1, 32, 128, 70000}[i], c.Choose(3))
		e.Children = append(e.Children, kid)
		below := kid
		for d := 1; d < depth && below.Kind != ref.Cmd && i == 0 && c.Bool(); d++ {
			kid := small(ref.Kind(c.Choose(int(ref.NKinds))), int32(d), c.Choose(3))
			below.Children = []*ref.Elem{kid}
			below = kid
		}
	}
	return e
}
