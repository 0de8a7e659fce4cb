package ref

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Kind of a Glow element.
type Kind int

const (
	Node Kind = iota
	Param
	Func
	Matrix
	Cmd
	NKinds
)

func (k Kind) String() string { return [...]string{"node", "param", "func", "matrix", "cmd"}[k] }

var kindTag = map[Kind]int{Node: 3, Param: 1, Func: 19, Matrix: 13, Cmd: 2}
var kindQTag = map[Kind]int{Node: 10, Param: 9, Func: 20, Matrix: 17}

// ElemTag is the tag of an element of this kind.
func ElemTag(k Kind, qualified bool) byte {
	if qualified {
		return App(kindQTag[k])
	}
	return App(kindTag[k])
}

// VKind of a value.
type VKind int

const (
	VInt VKind = iota
	VReal
	VString
	VBool
	VOctets
	VOID
	NVKinds
)

// Val is a typed value.
type Val struct {
	K VKind
	I int64
	R float64
	S string
	B bool
	O []int32
}

func (v Val) String() string {
	switch v.K {
	case VInt:
		return fmt.Sprintf("int:%d", v.I)
	case VReal:
		if v.R == 0 {
			return "real:0"
		}
		if v.R != v.R {
			return "real:nan"
		}
		return fmt.Sprintf("real:%016x", math.Float64bits(v.R))
	case VString:
		return fmt.Sprintf("str:%q", v.S)
	case VBool:
		return fmt.Sprintf("bool:%v", v.B)
	case VOctets:
		return fmt.Sprintf("oct:%x", v.S)
	case VOID:
		return "oid:" + OIDString(v.O)
	}
	return "?"
}

// TLV encodes v.
func (v Val) TLV() *TLV {
	switch v.K {
	case VInt:
		return Int(v.I)
	case VReal:
		return Real(v.R)
	case VString:
		return Str(v.S)
	case VBool:
		return Bool(v.B)
	case VOctets:
		return P(TagOctets, []byte(v.S))
	}
	return OID(v.O)
}

// ParseVal decodes a value.
func ParseVal(t *TLV) (Val, error) {
	if t.Cons {
		return Val{}, fmt.Errorf("value with tag %#x", t.Tag)
	}
	switch t.Tag {
	case TagInt:
		if len(t.Prim) < 1 || len(t.Prim) > 8 || string(IntBytes(IntValue(t.Prim))) != string(t.Prim) {
			return Val{}, fmt.Errorf("integer content % x", t.Prim)
		}
		return Val{K: VInt, I: IntValue(t.Prim)}, nil
	case TagReal:
		r, err := RealValue(t.Prim)
		return Val{K: VReal, R: r}, err
	case TagString:
		return Val{K: VString, S: string(t.Prim)}, nil
	case TagBool:
		if len(t.Prim) != 1 {
			return Val{}, errors.New("boolean length")
		}
		return Val{K: VBool, B: t.Prim[0] != 0}, nil
	case TagOctets, TagBits:
		return Val{K: VOctets, S: string(t.Prim)}, nil
	case TagOID:
		o, err := OIDValue(t.Prim)
		return Val{K: VOID, O: o}, err
	}
	return Val{}, fmt.Errorf("value with tag %#x", t.Tag)
}

func OIDString(o []int32) string {
	var sb strings.Builder
	for i, x := range o {
		if i > 0 {
			sb.WriteByte('.')
		}
		fmt.Fprint(&sb, x)
	}
	return sb.String()
}

// Tuple is an argument or result description; Arg an invocation argument.
type Tuple struct {
	Type int
	Name string
}

// Label of a matrix.
type Label struct {
	Path []int32
	Text string
}

// Conn is a matrix connection.
type Conn struct {
	Target  int32
	Sources []int32
	Op      int
	Disp    int
	// which optional fields a message mentions
	NoSources, NoOp, NoDisp bool
}

// Elem is one element of a message or of a tree.
type Elem struct {
	Kind                             Kind
	Path                             []int32 // nil: numbered
	Number                           int32
	Contents                         bool // has a contents container
	Props                            map[int]Val
	Template                         []int32
	Args                             []Tuple
	Results                          []Tuple
	Labels                           []Label
	HasArgs, HasResults, HasLabels   bool
	Flags                            int64 // commands
	Children                         []*Elem
	HasKids                          bool
	Targets, Sources                 []int32
	Conns                            []Conn
	HasTargets, HasSources, HasConns bool
}

// Num is the element's own number.
func (e *Elem) Num() int32 {
	if e.Path != nil {
		return e.Path[len(e.Path)-1]
	}
	return e.Number
}

// TemplateCtx is the context of the template reference.
func TemplateCtx(k Kind) int {
	switch k {
	case Node:
		return 5
	case Param:
		return 18
	case Func:
		return 4
	}
	return 12
}

// PropKinds lists the legal types of the simple properties by context.
func PropKinds(k Kind) map[int][]VKind {
	str, num, boo := []VKind{VString}, []VKind{VInt}, []VKind{VBool}
	any := []VKind{VInt, VReal, VString, VBool, VOctets}
	switch k {
	case Node:
		return map[int][]VKind{0: str, 1: str, 2: boo, 3: boo, 4: str}
	case Param:
		return map[int][]VKind{0: str, 1: str, 2: any, 3: {VInt, VReal}, 4: {VInt, VReal}, 5: num, 6: str, 7: str, 8: num,
			9: boo, 10: str, 11: num, 12: any, 13: num, 14: num, 17: str}
	case Func:
		return map[int][]VKind{0: str, 1: str}
	case Matrix:
		return map[int][]VKind{0: str, 1: str, 2: num, 3: num, 4: num, 5: num, 6: num, 7: num, 8: {VOID}, 9: num, 11: str}
	}
	return nil
}

func sortedProps(m map[int]Val) []int {
	var l []int
	for c := range m {
		l = append(l, c)
	}
	sort.Ints(l)
	return l
}

func tuplesTLV(ts []Tuple) *TLV {
	seq := K(TagSeq)
	for _, t := range ts {
		seq.Add(Wrap(0, K(App(21), Wrap(0, Int(int64(t.Type))), Wrap(1, Str(t.Name)))))
	}
	return seq
}

// LabelTLV encodes a label.
func LabelTLV(l Label) *TLV { return K(App(18), Wrap(0, OID(l.Path)), Wrap(1, Str(l.Text))) }

// SignalTLV encodes a target (or source) number.
func SignalTLV(n int32, source bool) *TLV {
	tag := 14
	if source {
		tag = 15
	}
	return K(App(tag), Wrap(0, Int(int64(n))))
}

// ConnTLV encodes a connection.
func ConnTLV(c Conn) *TLV {
	t := K(App(16), Wrap(0, Int(int64(c.Target))))
	if !c.NoSources {
		t.Add(Wrap(1, OID(c.Sources)))
	}
	if !c.NoOp {
		t.Add(Wrap(2, Int(int64(c.Op))))
	}
	if !c.NoDisp {
		t.Add(Wrap(3, Int(int64(c.Disp))))
	}
	return t
}

// ContentsTLV encodes the contents container's content.
func (e *Elem) ContentsTLV() *TLV {
	if e.Kind == Cmd {
		return Int(e.Flags)
	}
	set := K(TagSet)
	type item struct {
		ctx int
		t   *TLV
	}
	var items []item
	for _, c := range sortedProps(e.Props) {
		items = append(items, item{c, Wrap(c, e.Props[c].TLV())})
	}
	if e.HasArgs {
		items = append(items, item{2, Wrap(2, tuplesTLV(e.Args))})
	}
	if e.HasResults {
		items = append(items, item{3, Wrap(3, tuplesTLV(e.Results))})
	}
	if e.HasLabels {
		seq := K(TagSeq)
		for _, l := range e.Labels {
			seq.Add(Wrap(0, LabelTLV(l)))
		}
		items = append(items, item{10, Wrap(10, seq)})
	}
	if e.Template != nil {
		c := TemplateCtx(e.Kind)
		items = append(items, item{c, Wrap(c, OID(e.Template))})
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].ctx < items[j].ctx })
	for _, it := range items {
		set.Add(it.t)
	}
	return set
}

// TLV encodes the element.
func (e *Elem) TLV() *TLV {
	t := K(ElemTag(e.Kind, e.Path != nil))
	if e.Path != nil {
		t.Add(Wrap(0, OID(e.Path)))
	} else {
		t.Add(Wrap(0, Int(int64(e.Number))))
	}
	if e.Contents {
		t.Add(Wrap(1, e.ContentsTLV()))
	}
	if e.HasKids || len(e.Children) > 0 {
		col := K(App(4))
		for _, k := range e.Children {
			col.Add(Wrap(0, k.TLV()))
		}
		t.Add(Wrap(2, col))
	}
	if e.Kind == Matrix {
		if e.HasTargets {
			seq := K(TagSeq)
			for _, n := range e.Targets {
				seq.Add(Wrap(0, SignalTLV(n, false)))
			}
			t.Add(Wrap(3, seq))
		}
		if e.HasSources {
			seq := K(TagSeq)
			for _, n := range e.Sources {
				seq.Add(Wrap(0, SignalTLV(n, true)))
			}
			t.Add(Wrap(4, seq))
		}
		if e.HasConns {
			seq := K(TagSeq)
			for _, c := range e.Conns {
				seq.Add(Wrap(0, ConnTLV(c)))
			}
			t.Add(Wrap(5, seq))
		}
	}
	return t
}

// RootTLV encodes a tree message.
func RootTLV(elems []*Elem) *TLV {
	root := K(App(0))
	if elems != nil {
		col := K(App(11))
		for _, e := range elems {
			col.Add(Wrap(0, e.TLV()))
		}
		root.Add(col)
	}
	return root
}

// ---- parsing ----

func want(t *TLV, tag byte, kids int) error {
	if t.Tag != tag || !t.Cons {
		return fmt.Errorf("tag %#x instead of %#x", t.Tag, tag)
	}
	if kids >= 0 && len(t.Kids) != kids {
		return fmt.Errorf("%d items in %#x instead of %d", len(t.Kids), tag, kids)
	}
	return nil
}

func intIn(t *TLV, ctx int) (int64, error) {
	if err := want(t, Ctx(ctx), 1); err != nil {
		return 0, err
	}
	v, err := ParseVal(t.Kids[0])
	if err == nil && v.K != VInt {
		err = fmt.Errorf("not an integer: %v", v)
	}
	return v.I, err
}

func strIn(t *TLV, ctx int) (string, error) {
	if err := want(t, Ctx(ctx), 1); err != nil {
		return "", err
	}
	v, err := ParseVal(t.Kids[0])
	if err == nil && v.K != VString {
		err = fmt.Errorf("not a string: %v", v)
	}
	return v.S, err
}

func oidIn(t *TLV, ctx int) ([]int32, error) {
	if err := want(t, Ctx(ctx), 1); err != nil {
		return nil, err
	}
	v, err := ParseVal(t.Kids[0])
	if err == nil && v.K != VOID {
		err = fmt.Errorf("not an identifier: %v", v)
	}
	return v.O, err
}

// seqOf visits the items of [ctx]{ SEQUENCE { [0] item ... } }.
func seqOf(t *TLV, ctx int, inner byte, f func(*TLV) error) error {
	if err := want(t, Ctx(ctx), 1); err != nil {
		return err
	}
	s := t.Kids[0]
	if err := want(s, inner, -1); err != nil {
		return err
	}
	for _, k := range s.Kids {
		if err := want(k, Ctx(0), 1); err != nil {
			return err
		}
		if err := f(k.Kids[0]); err != nil {
			return err
		}
	}
	return nil
}

func parseTuples(t *TLV, ctx int) ([]Tuple, error) {
	out := []Tuple{}
	err := seqOf(t, ctx, TagSeq, func(x *TLV) error {
		if err := want(x, App(21), 2); err != nil {
			return err
		}
		ty, err := intIn(x.Kids[0], 0)
		if err != nil {
			return err
		}
		n, err := strIn(x.Kids[1], 1)
		out = append(out, Tuple{int(ty), n})
		return err
	})
	return out, err
}

// ParseLabel decodes a label.
func ParseLabel(x *TLV) (Label, error) {
	if err := want(x, App(18), 2); err != nil {
		return Label{}, err
	}
	p, err := oidIn(x.Kids[0], 0)
	if err != nil {
		return Label{}, err
	}
	s, err := strIn(x.Kids[1], 1)
	return Label{p, s}, err
}

// ParseConn decodes a connection.
func ParseConn(x *TLV) (Conn, error) {
	c := Conn{NoSources: true, NoOp: true, NoDisp: true}
	if err := want(x, App(16), -1); err != nil {
		return c, err
	}
	if len(x.Kids) == 0 {
		return c, errors.New("connection without target")
	}
	t, err := intIn(x.Kids[0], 0)
	if err != nil {
		return c, err
	}
	c.Target = int32(t)
	for _, k := range x.Kids[1:] {
		switch k.Tag {
		case Ctx(1):
			if !c.NoSources {
				return c, errors.New("sources twice")
			}
			c.NoSources = false
			c.Sources, err = oidIn(k, 1)
		case Ctx(2):
			if !c.NoOp {
				return c, errors.New("operation twice")
			}
			var v int64
			c.NoOp = false
			v, err = intIn(k, 2)
			c.Op = int(v)
		case Ctx(3):
			if !c.NoDisp {
				return c, errors.New("disposition twice")
			}
			var v int64
			c.NoDisp = false
			v, err = intIn(k, 3)
			c.Disp = int(v)
		default:
			err = fmt.Errorf("tag %#x in a connection", k.Tag)
		}
		if err != nil {
			return c, err
		}
	}
	return c, nil
}

// ParseSignal decodes a target or source.
func ParseSignal(x *TLV, source bool) (int32, error) {
	tag := 14
	if source {
		tag = 15
	}
	if err := want(x, App(tag), 1); err != nil {
		return 0, err
	}
	n, err := intIn(x.Kids[0], 0)
	return int32(n), err
}

// ParseElem strictly decodes an element.
func ParseElem(t *TLV) (*Elem, error) {
	e := &Elem{Props: map[int]Val{}}
	found, q := false, false
	for k, n := range kindTag {
		if t.Tag == App(n) {
			e.Kind, found = k, true
		}
	}
	for k, n := range kindQTag {
		if t.Tag == App(n) {
			e.Kind, found, q = k, true, true
		}
	}
	if !found || !t.Cons {
		return nil, fmt.Errorf("element tag %#x", t.Tag)
	}
	if len(t.Kids) == 0 {
		return nil, errors.New("element without number")
	}
	var err error
	if q {
		e.Path, err = oidIn(t.Kids[0], 0)
		if err == nil && len(e.Path) == 0 {
			err = errors.New("empty path")
		}
	} else {
		var n int64
		n, err = intIn(t.Kids[0], 0)
		if n != int64(int32(n)) {
			err = errors.New("number too big")
		}
		e.Number = int32(n)
	}
	if err != nil {
		return nil, err
	}
	last := byte(0)
	for _, k := range t.Kids[1:] {
		if k.Tag <= last {
			return nil, fmt.Errorf("tag %#x after %#x", k.Tag, last)
		}
		last = k.Tag
		switch {
		case k.Tag == Ctx(1):
			e.Contents = true
			if err := want(k, Ctx(1), 1); err != nil {
				return nil, err
			}
			err = e.parseContents(k.Kids[0])
		case k.Tag == Ctx(2) && e.Kind != Cmd:
			e.HasKids = true
			err = seqOf(k, 2, App(4), func(x *TLV) error {
				c, err := ParseElem(x)
				if err == nil && c.Path != nil {
					err = errors.New("child with a path")
				}
				e.Children = append(e.Children, c)
				return err
			})
		case k.Tag == Ctx(3) && e.Kind == Matrix:
			e.HasTargets = true
			err = seqOf(k, 3, TagSeq, func(x *TLV) error {
				n, err := ParseSignal(x, false)
				e.Targets = append(e.Targets, n)
				return err
			})
		case k.Tag == Ctx(4) && e.Kind == Matrix:
			e.HasSources = true
			err = seqOf(k, 4, TagSeq, func(x *TLV) error {
				n, err := ParseSignal(x, true)
				e.Sources = append(e.Sources, n)
				return err
			})
		case k.Tag == Ctx(5) && e.Kind == Matrix:
			e.HasConns = true
			err = seqOf(k, 5, TagSeq, func(x *TLV) error {
				c, err := ParseConn(x)
				e.Conns = append(e.Conns, c)
				return err
			})
		default:
			err = fmt.Errorf("tag %#x in a %v", k.Tag, e.Kind)
		}
		if err != nil {
			return nil, err
		}
	}
	return e, nil
}

func (e *Elem) parseContents(t *TLV) error {
	if e.Kind == Cmd {
		v, err := ParseVal(t)
		if err == nil && v.K != VInt {
			err = errors.New("command contents")
		}
		e.Flags = v.I
		return err
	}
	if err := want(t, TagSet, -1); err != nil {
		return err
	}
	kinds := PropKinds(e.Kind)
	seen := map[byte]bool{}
	for _, k := range t.Kids {
		if seen[k.Tag] {
			return fmt.Errorf("property %#x twice", k.Tag)
		}
		seen[k.Tag] = true
		ctx := int(k.Tag) - 0xa0
		var err error
		switch {
		case ctx == TemplateCtx(e.Kind):
			e.Template, err = oidIn(k, ctx)
		case e.Kind == Func && ctx == 2:
			e.HasArgs = true
			e.Args, err = parseTuples(k, 2)
		case e.Kind == Func && ctx == 3:
			e.HasResults = true
			e.Results, err = parseTuples(k, 3)
		case e.Kind == Matrix && ctx == 10:
			e.HasLabels = true
			err = seqOf(k, 10, TagSeq, func(x *TLV) error {
				l, err := ParseLabel(x)
				e.Labels = append(e.Labels, l)
				return err
			})
		case kinds[ctx] != nil:
			if err = want(k, Ctx(ctx), 1); err == nil {
				e.Props[ctx], err = ParseVal(k.Kids[0])
			}
		default:
			err = fmt.Errorf("property %#x in a %v", k.Tag, e.Kind)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// ParseRoot strictly decodes a tree message.
func ParseRoot(b []byte) ([]*Elem, error) {
	t, err := Parse(b)
	if err != nil {
		return nil, err
	}
	if err := want(t, App(0), -1); err != nil {
		return nil, err
	}
	if len(t.Kids) == 0 {
		return nil, nil
	}
	if len(t.Kids) != 1 {
		return nil, errors.New("more than one item in the root")
	}
	if err := want(t.Kids[0], App(11), -1); err != nil {
		return nil, err
	}
	out := []*Elem{}
	for _, k := range t.Kids[0].Kids {
		if err := want(k, Ctx(0), 1); err != nil {
			return nil, err
		}
		e, err := ParseElem(k.Kids[0])
		if err != nil {
			return nil, err
		}
		out = append(out, e)
	}
	return out, nil
}

// ---- canonical text ----

// DumpOpt selects what Dump prints.
type DumpOpt struct {
	NoKids    bool
	NoAddress bool // neither number nor path of the top element
}

// Text is the canonical description of e: everything it states, with absent
// and empty lists printed alike and children by number.
func (e *Elem) Text(o DumpOpt) string {
	var sb strings.Builder
	sb.WriteString(e.Kind.String())
	if !o.NoAddress {
		if e.Path != nil {
			sb.WriteString(" path=" + OIDString(e.Path))
		} else {
			fmt.Fprintf(&sb, " number=%d", e.Number)
		}
	}
	sb.WriteString(" " + e.ContentsText())
	if e.Kind == Matrix {
		sb.WriteString(e.SignalsText())
	}
	if !o.NoKids {
		sb.WriteString(KidsText(e.Children))
	}
	return sb.String()
}

// ContentsText is the canonical description of the contents.
func (e *Elem) ContentsText() string {
	if !e.Contents {
		return "-"
	}
	var sb strings.Builder
	sb.WriteByte('{')
	if e.Kind == Cmd {
		fmt.Fprintf(&sb, "flags=%d", e.Flags)
	}
	for _, c := range sortedProps(e.Props) {
		fmt.Fprintf(&sb, "%d=%v;", c, e.Props[c])
	}
	if len(e.Args) > 0 {
		fmt.Fprintf(&sb, "args=%q;", e.Args)
	}
	if len(e.Results) > 0 {
		fmt.Fprintf(&sb, "results=%q;", e.Results)
	}
	for _, l := range e.Labels {
		fmt.Fprintf(&sb, "label=%s:%q;", OIDString(l.Path), l.Text)
	}
	if e.Template != nil {
		fmt.Fprintf(&sb, "template=%s;", OIDString(e.Template))
	}
	sb.WriteByte('}')
	return sb.String()
}

// SignalsText describes targets, sources and connections.
func (e *Elem) SignalsText() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, " t=%v s=%v c=[", e.Targets, e.Sources)
	for _, c := range e.Conns {
		fmt.Fprintf(&sb, "%d<-%v/%d/%d ", c.Target, c.Sources, c.Op, c.Disp)
	}
	sb.WriteByte(']')
	return sb.String()
}

// KidsText describes children by number.
func KidsText(kids []*Elem) string {
	if len(kids) == 0 {
		return ""
	}
	l := append([]*Elem{}, kids...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].Num() < l[j].Num() })
	var parts []string
	for _, k := range l {
		parts = append(parts, k.Text(DumpOpt{}))
	}
	return " (" + strings.Join(parts, ", ") + ")"
}
