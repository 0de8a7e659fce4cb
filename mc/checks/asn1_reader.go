package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"

	"verifmc/engine"
	"verifmc/ref"
)

// cursor is the model of a reader: where it stands in the whole message.
type cursor struct {
	r               *asn1.ASNReader
	start, pos, end int
	open            int // indefinite containers entered
	sub             bool
	dead            bool // a consuming operation failed: the position is unspecified
}

type readerMsg struct {
	name string
	b    []byte
}

func readerMessages() []readerMsg {
	i := func(v int64) *ref.TLV { return ref.Int(v) }
	mk := func(name string, f ref.Form, t *ref.TLV) readerMsg {
		return readerMsg{name, t.SetForms(f).Bytes()}
	}
	build := func() *ref.TLV {
		return ref.K(ref.TagSeq, i(5), ref.K(ref.TagSet, ref.Str("ab"), ref.K(ref.TagSeq, i(300))), ref.Bool(true))
	}
	var l []readerMsg
	for f := ref.Indef; f < ref.Long3; f++ {
		l = append(l, mk("nested-"+f.String(), f, build()))
	}
	mixed := build()
	mixed.Form = ref.Indef
	mixed.Kids[1].Form = ref.Short
	mixed.Kids[1].Kids[1].Form = ref.Indef
	l = append(l, readerMsg{"mixed-1", mixed.Bytes()})
	mixed = build()
	mixed.Form = ref.Short
	mixed.Kids[1].Form = ref.Indef
	mixed.Kids[1].Kids[1].Form = ref.Long2
	l = append(l, readerMsg{"mixed-2", mixed.Bytes()})
	l = append(l, readerMsg{"two", append(ref.K(ref.TagSeq, i(1)).Bytes(), ref.K(ref.TagSet, i(2), i(3)).Bytes()...)})
	empty := ref.K(ref.TagSeq, ref.K(ref.TagSet), ref.K(ref.TagSeq), i(0))
	l = append(l, mk("empty-short", ref.Short, empty), mk("empty-indef", ref.Indef, empty), mk("empty-82", ref.Long2, empty))
	l = append(l, readerMsg{"items", append(append(append(ref.Str("x").Bytes(), ref.Real(1.5).Bytes()...), ref.OID([]int32{1, 200}).Bytes()...), ref.P(ref.TagOctets, []byte{0, 0}).Bytes()...)})
	l = append(l, readerMsg{"zeros", []byte{0x30, 0x06, 0, 0, 2, 1, 0, 0, 0, 0}})
	l = append(l, readerMsg{"single-zero", []byte{0x30, 0x80, 0x31, 0x03, 2, 1, 0, 0}})
	l = append(l, readerMsg{"overrun", []byte{0x30, 0x06, 0x31, 0x05, 2, 1, 7, 0, 2, 1, 9, 0}})
	l = append(l, readerMsg{"unterminated", []byte{0x30, 0x80, 0x31, 0x80, 2, 1, 7, 0, 0}})
	l = append(l, readerMsg{"deep", ref.K(0x30, ref.K(0x30, ref.K(0x31, ref.K(0x30, ref.K(0x31, i(9)))))).Bytes()})
	l = append(l, readerMsg{"long-string", ref.K(0x30, ref.Str(string(make([]byte, 130))), i(1)).Bytes()})
	l = append(l, readerMsg{"indef-string", []byte{0x30, 0x80, 0x0c, 0x80, 'a', 'b', 0, 0, 2, 1, 5, 0, 0}})
	l = append(l, readerMsg{"nothing", nil})
	return l
}

const (
	opPeek = iota
	opByte
	opEnter
	opCheckEnd
	opReadEnd
	opInt
	opInt64
	opString
	opOther // the item by its own tag: boolean, real, identifier, octets
	opLength
	opNew2
	opNew0
	nReaderOps
)

var readerOpNames = [...]string{"Peek", "ReadByte", "ReadSequenceStart", "CheckSequenceEnd", "ReadSequenceEnd", "ReadInt", "ReadInt64", "ReadString", "read item", "ReadLength", "NewReader(2)", "NewReader(0)"}

// item parses a primitive item at the cursor: content, position behind it.
func (k *cursor) item(m []byte, tag byte) (content []byte, next int, good bool) {
	b := m[k.pos:k.end]
	if len(b) == 0 || b[0] != tag {
		return nil, 0, false
	}
	h, rest := header(b)
	if !h.legal {
		return nil, 0, false
	}
	if h.n < 0 {
		for i := 0; i+1 < len(rest); i++ {
			if rest[i] == 0 && rest[i+1] == 0 {
				return rest[:i], k.end - len(rest) + i + 2, true
			}
		}
		return nil, 0, false
	}
	if h.n > len(rest) {
		return nil, 0, false
	}
	return rest[:h.n], k.end - len(rest) + h.n, true
}

func readerWalk(c *engine.C, m []byte, depth int) {
	live := []*cursor{{r: asn1.NewASNReader(m), end: len(m)}}
	var h uint64
	for step := 0; step < depth; step++ {
		var alive []*cursor
		for _, k := range live {
			if !k.dead {
				alive = append(alive, k)
			}
		}
		if len(alive) == 0 {
			return
		}
		k := alive[c.Choose(len(alive))]
		op := c.Choose(nReaderOps)
		left := m[k.pos:k.end]
		desc := fmt.Sprintf("%s at %d (reader %d..%d, %d open)", readerOpNames[op], k.pos, k.start, k.end, k.open)
		c.Logf("%s", desc)
		// expect compares the outcome of a consuming operation; it reports
		// whether the operation succeeded.
		expect := func(good bool, next int, err errors.Error) bool {
			if good != (err == nil) {
				c.Failf("%s: error %v, expected success %v", desc, err, good)
			}
			if !good {
				k.dead = true
				if k.r.Len() > len(left) || k.r.Len() < 0 {
					c.Failf("%s failed and left %d bytes of %d", desc, k.r.Len(), len(left))
				}
				return false
			}
			k.pos = next
			return true
		}
		switch op {
		case opPeek:
			b, err := k.r.Peek()
			if (len(left) > 0) != (err == nil) || err == nil && b != left[0] {
				c.Failf("%s = %#x, %v", desc, b, err)
			}
		case opByte:
			b, err := k.r.ReadByte()
			if expect(len(left) > 0, k.pos+1, err) && b != left[0] {
				c.Failf("%s = %#x instead of %#x", desc, b, left[0])
			}
		case opEnter:
			tag := byte(ref.TagSeq)
			if len(left) > 0 && (left[0] == ref.TagSet || left[0] == ref.TagSeq) {
				tag = left[0]
			}
			n, sub, err := k.r.ReadSequenceStart(tag)
			good := len(left) > 0 && left[0] == tag
			var hd lengthHeader
			var rest []byte
			if good {
				hd, rest = header(left)
				good = hd.legal && hd.n <= len(rest)
				if hd.legal && hd.n == len(rest)+1 && !k.sub && k.open == 0 {
					k.dead = true // see C06: a message may lack its last byte
					break
				}
			}
			next := k.end - len(rest)
			if good && hd.n >= 0 {
				next += hd.n
			}
			if !expect(good, next, err) {
				break
			}
			if hd.n < 0 {
				if sub != k.r || n >= 0 {
					c.Failf("%s: indefinite container of length %d, new reader %v", desc, n, sub != k.r)
				}
				k.open++
				break
			}
			if n != hd.n || sub == nil {
				c.Failf("%s: length %d instead of %d, reader %v", desc, n, hd.n, sub)
			}
			live = append(live, &cursor{r: sub, start: next - hd.n, pos: next - hd.n, end: next, sub: true})
		case opCheckEnd, opReadEnd:
			atEnd := len(left) == 0 && k.open == 0
			marker := len(left) >= 2 && left[0] == 0 && left[1] == 0
			fails := len(left) == 0 && k.open > 0 || len(left) == 1 && left[0] == 0
			var end bool
			var err errors.Error
			if op == opCheckEnd {
				end, err = k.r.CheckSequenceEnd()
				if fails != (err != nil) || end != (atEnd || marker) {
					c.Failf("%s = %v, %v; at end %v, marker %v", desc, end, err, atEnd, marker)
				}
			} else {
				err = k.r.ReadSequenceEnd()
				if (err == nil) != (atEnd || marker) {
					c.Failf("%s: %v; at end %v, marker %v", desc, err, atEnd, marker)
				}
			}
			if marker {
				k.pos += 2
				if k.open > 0 {
					k.open--
				}
			}
		case opInt, opInt64:
			content, next, good := k.item(m, ref.TagInt)
			width := 4
			if op == opInt64 {
				width = 8
			}
			if good && left[1] == 0x80 || len(content) == 0 || len(content) > width {
				good = false
			}
			var v int64
			var err errors.Error
			if op == opInt {
				var x int
				x, err = k.r.ReadInt()
				v = int64(x)
			} else {
				v, err = k.r.ReadInt64()
			}
			if good && err != nil && string(ref.IntBytes(ref.IntValue(content))) != string(content) {
				k.dead = true
				break
			}
			if expect(good, next, err) && v != ref.IntValue(content) {
				c.Failf("%s = %d instead of %d", desc, v, ref.IntValue(content))
			}
		case opString:
			content, next, good := k.item(m, ref.TagString)
			s, err := k.r.ReadString()
			if expect(good, next, err) && s != string(content) {
				c.Failf("%s = %q instead of %q", desc, s, content)
			}
		case opOther:
			if len(left) == 0 {
				_, err := k.r.ReadBoolean()
				expect(false, 0, err)
				break
			}
			content, next, good := k.item(m, left[0])
			switch left[0] {
			case ref.TagReal:
				v, err := k.r.ReadReal()
				w, rerr := ref.RealValue(content)
				if rerr != nil {
					k.dead = true
				} else if expect(good, next, err) && !sameReal(v, w) && math.Abs(w) > 1e-300 {
					c.Failf("%s = %v instead of %v", desc, v, w)
				}
			case ref.TagOID:
				v, err := k.r.ReadOID(ref.TagOID)
				w, rerr := ref.OIDValue(content)
				if rerr != nil && good {
					k.dead = true
				} else if expect(good, next, err) && ref.OIDString(v) != ref.OIDString(w) {
					c.Failf("%s = %v instead of %v", desc, v, w)
				}
			case ref.TagOctets:
				v, err := k.r.ReadOctetString()
				if expect(good, next, err) && string(v) != string(content) {
					c.Failf("%s = % x instead of % x", desc, v, content)
				}
			default:
				v, err := k.r.ReadBoolean()
				good = good && left[0] == ref.TagBool && len(content) == 1 && left[1] != 0x80
				if expect(good, next, err) && v != (content[0] != 0) {
					c.Failf("%s = %v", desc, v)
				}
			}
		case opLength:
			hd, rest := header(append([]byte{0}, left...))
			n, err := k.r.ReadLength()
			if expect(hd.legal && len(left) > 0, k.end-len(rest), err) && n != hd.n && !(n < 0 && hd.n < 0) {
				c.Failf("%s = %d instead of %d", desc, n, hd.n)
			}
		case opNew2, opNew0:
			n := 2
			if op == opNew0 {
				n = 0
			}
			sub, err := k.r.NewReader(n)
			if n == len(left)+1 && !k.sub && k.open == 0 {
				k.dead = true
				break
			}
			if expect(n <= len(left), k.pos+n, err) {
				live = append(live, &cursor{r: sub, start: k.pos - n, pos: k.pos - n, end: k.pos, sub: true})
			}
		}
		c.Step()
		h = h * 31
		for i, k := range live {
			if k.dead {
				h = h*31 + 7
				continue
			}
			if k.r.Len() != k.end-k.pos || k.r.Offset() != k.pos-k.start || k.r.TopOffset() != k.pos {
				c.Failf("after %s: reader %d (%d..%d) should stand at %d; remaining %d, offset %d, absolute offset %d",
					desc, i, k.start, k.end, k.pos, k.r.Len(), k.r.Offset(), k.r.TopOffset())
			}
			h = h*31 + uint64(k.pos*1000+k.start)
		}
		c.State(h ^ uint64(len(m))<<48)
	}
}

// drain reads a whole message through its containers and checks every position.
func drain(c *engine.C, t *ref.TLV, r *asn1.ASNReader, m []byte, at int) int {
	if r.TopOffset() != at {
		c.Failf("in front of tag %#x the reader reports offset %d instead of %d", t.Tag, r.TopOffset(), at)
	}
	size := len(t.Bytes())
	if !t.Cons {
		var err errors.Error
		switch t.Tag {
		case ref.TagInt:
			_, err = r.ReadInt64()
		case ref.TagString:
			_, err = r.ReadString()
		default:
			_, err = r.ReadBoolean()
		}
		ok(c, err, "item at %d", at)
		c.Step()
		return at + size
	}
	n, sub, err := r.ReadSequenceStart(t.Tag)
	ok(c, err, "container at %d", at)
	c.Step()
	body := 0
	for _, k := range t.Kids {
		body += len(k.Bytes())
	}
	head := size - body
	if t.Form == ref.Indef {
		head -= 2
		if n >= 0 || sub != r {
			c.Failf("indefinite container at %d reports length %d", at, n)
		}
	} else if n != body || sub.Len() != body {
		c.Failf("container at %d of %d bytes reports length %d and %d bytes left", at, body, n, sub.Len())
	}
	pos := at + head
	for _, k := range t.Kids {
		end, err := sub.CheckSequenceEnd()
		if err != nil || end {
			c.Failf("end of container reported at %d (%v), %d more to come", pos, err, len(t.Kids))
		}
		pos = drain(c, k, sub, m, pos)
		if sub.TopOffset() != pos {
			c.Failf("behind an item the reader reports offset %d instead of %d", sub.TopOffset(), pos)
		}
	}
	ok(c, sub.ReadSequenceEnd(), "end of the container at %d", at)
	c.Step()
	if r.TopOffset() != at+size {
		c.Failf("behind the container at %d the reader reports offset %d instead of %d", at, r.TopOffset(), at+size)
	}
	return at + size
}

func init() {
	engine.Register("C29", []string{"after a failed consuming operation a reader's position is unspecified (its other properties are kept); other readers are unaffected"}, func(t engine.Tier) []*engine.Scenario {
		var out []*engine.Scenario
		depth := t.Pick(5, 7)
		for _, m := range readerMessages() {
			m := m
			out = append(out, &engine.Scenario{Name: "ops-" + m.name, What: fmt.Sprintf("every sequence of %d reader operations on any live reader of % x", depth, clipb(m.b)), Run: func(c *engine.C) {
				readerWalk(c, m.b, depth)
			}})
		}
		sizes := []int{0, 100, 120, 127, 128, 250, 256, 4000, 32760, 65530, 65536, 1 << 20, 1<<24 + 3}
		out = append(out, &engine.Scenario{Name: "big", N: uint64(len(sizes)) * 4 * 3 * 2, What: "containers 3 to 300 deep behind and in front of strings of up to 2^24 bytes, in every length form", At: func(c *engine.C, i uint64) {
			size := sizes[i%uint64(len(sizes))]
			i /= uint64(len(sizes))
			form := []ref.Form{ref.Indef, ref.Short, ref.Long1, ref.Long4}[i%4]
			i /= 4
			deep := []int{3, 40, 300}[i%3]
			if size > 1<<17 {
				deep = 3
			} else if size > 5000 && deep > 40 {
				deep = 40
			}
			filler := ref.Str(strings.Repeat("x", size))
			tr := ref.K(ref.TagSeq)
			tr.Form = ref.Indef
			tr.Add(ref.Int(5), filler)
			at := tr
			for k := 0; k < deep; k++ {
				x := ref.K(0xa0 + byte(k%5))
				if form == ref.Indef || k%7 != 3 {
					x.Form = form
				}
				if i/3 == 0 {
					at.Add(x, ref.Int(int64(k)))
				} else {
					at.Add(ref.Int(int64(k)), x)
				}
				if k%20 == 19 && size < 1<<17 {
					x.Add(filler)
				}
				at = x
			}
			at.Add(ref.Int(7), filler, ref.Str("end"))
			b := tr.Bytes()
			c.State(uint64(len(b)))
			c.Logf("%d bytes", len(b))
			drain(c, tr, asn1.NewASNReader(b), b, 0)
		}})
		out = append(out, &engine.Scenario{Name: "trees", What: "every container tree of up to 3 levels and 2 members per level, all length forms, read to the end", Run: func(c *engine.C) {
			budget := t.Pick(4, 5)
			var build func(level int) *ref.TLV
			build = func(level int) *ref.TLV {
				if level == 3 || budget == 0 || level > 0 && !c.Bool() {
					return choose(c, []*ref.TLV{ref.Int(1 << 20), ref.Str("")})
				}
				budget--
				k := ref.K(ref.TagSeq + byte(level%2))
				k.Form = choose(c, []ref.Form{ref.Indef, ref.Short, ref.Long1, ref.Long4})
				for n := c.Choose(3); n > 0; n-- {
					k.Add(build(level + 1))
				}
				return k
			}
			tr := build(0)
			b := tr.Bytes()
			c.StateBytes(b)
			c.Logf("% x", b)
			drain(c, tr, asn1.NewASNReader(b), b, 0)
		}})
		return out
	})
}
