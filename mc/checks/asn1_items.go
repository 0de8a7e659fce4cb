package checks

import (
	"bytes"
	"fmt"
	"math"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"

	"verifmc/engine"
	"verifmc/ref"
)

const trailer = 0x5a

// atEnd checks that r stands exactly in front of the trailer.
func atTrailer(c *engine.C, r *asn1.ASNReader, n int, what string) {
	if r.Len() != 1 || r.Offset() != n {
		c.Failf("%s: reader at offset %d with %d bytes left, item has %d bytes and 1 follows", what, r.Offset(), r.Len(), n)
	}
	if b, err := r.Peek(); err != nil || b != trailer {
		c.Failf("%s: byte after the item is %#x (%v)", what, b, err)
	}
}

func checkInt32(c *engine.C, v int32) {
	want := ref.IntBytes(int64(v))
	w := asn1.NewASNWriter()
	ok(c, w.WriteInt(int(v)), "WriteInt(%d)", v)
	w.WriteByte(trailer)
	b := written(w)
	if len(b) != len(want)+3 || b[0] != ref.TagInt || int(b[1]) != len(want) || !bytes.Equal(b[2:len(b)-1], want) {
		c.Failf("WriteInt(%d) wrote % x, shortest content is % x", v, b[:len(b)-1], want)
	}
	r := asn1.NewASNReader(b)
	g, err := r.ReadInt()
	if err != nil || g != int(v) {
		c.Failf("ReadInt of WriteInt(%d) = %d, %v", v, g, err)
	}
	atTrailer(c, r, len(b)-1, "ReadInt")
	c.Step()
}

func checkInt32Variants(c *engine.C, v int32) {
	want := ref.IntBytes(int64(v))
	for _, tag := range []byte{0x0a, 0x02, 0x82} {
		w := asn1.NewASNWriter()
		if tag == 0x0a {
			ok(c, w.WriteEnum(int(v)), "WriteEnum(%d)", v)
		} else {
			ok(c, w.WriteIntTag(int(v), tag), "WriteIntTag(%d, %#x)", v, tag)
		}
		sameBytes(c, written(w), append([]byte{tag, byte(len(want))}, want...), "integer %d with tag %#x", v, tag)
	}
	// the wide reader takes 32-bit integers, too
	r := asn1.NewASNReader(append(append([]byte{2, byte(len(want))}, want...), trailer))
	g, err := r.ReadInt64()
	if err != nil || g != int64(v) {
		c.Failf("ReadInt64 of %d = %d, %v", v, g, err)
	}
	atTrailer(c, r, 2+len(want), "ReadInt64")
	c.Steps(4)
}

func checkInt64(c *engine.C, v int64) {
	want := ref.IntBytes(v)
	w := asn1.NewASNWriter()
	ok(c, w.WriteInt64(v), "WriteInt64(%d)", v)
	w.WriteByte(trailer)
	b := written(w)
	if len(b) != len(want)+3 || b[0] != ref.TagInt || int(b[1]) != len(want) || !bytes.Equal(b[2:len(b)-1], want) {
		c.Failf("WriteInt64(%d) wrote % x, shortest content is % x", v, b[:len(b)-1], want)
	}
	r := asn1.NewASNReader(b)
	g, err := r.ReadInt64()
	if err != nil || g != v {
		c.Failf("ReadInt64 of WriteInt64(%d) = %d, %v", v, g, err)
	}
	atTrailer(c, r, len(b)-1, "ReadInt64")
	c.Step()
}

var intBytes24 = []byte{0, 1, 2, 3, 0x0f, 0x10, 0x1f, 0x20, 0x3f, 0x40, 0x55, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0xaa, 0xbf, 0xc0, 0xdf, 0xef, 0xf0, 0xfe, 0xff}
var intBytes5 = []byte{0, 1, 0x7f, 0x80, 0xff}
var intBytes9 = []byte{0, 1, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff}

// around returns the numbers within 300 of every power of two and its negative.
func around() []int64 {
	var l []int64
	for k := uint(0); k < 64; k++ {
		for d := int64(-300); d <= 300; d++ {
			l = append(l, int64(uint64(1)<<k)+d, -int64(uint64(1)<<k)+d)
		}
	}
	return l
}

// lengthHeader describes an announced length.
type lengthHeader struct {
	b     []byte
	n     int // announced length; -1 indefinite
	legal bool
}

func lengthHeaders(max int) []lengthHeader {
	var l []lengthHeader
	for n := 0; n <= max; n++ {
		l = append(l, lengthHeader{ref.Length(n, ref.Short), n, true})
		for _, f := range []ref.Form{ref.Long1, ref.Long2, ref.Long3, ref.Long4} {
			l = append(l, lengthHeader{ref.Length(n, f), n, true})
		}
	}
	for _, n := range []int{0x7f, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff} {
		l = append(l, lengthHeader{ref.Length(n, ref.Short), n, true})
	}
	l = append(l, lengthHeader{[]byte{0x80}, -1, true})
	for k := 5; k <= 127; k++ {
		l = append(l, lengthHeader{append([]byte{0x80 | byte(k)}, 0, 0, 0, 0, 0, 0, 0, 1), 0, false})
	}
	// length fields cut short, if nothing follows
	for k := 1; k <= 4; k++ {
		for j := 0; j < k; j++ {
			l = append(l, lengthHeader{append([]byte{0x80 | byte(k)}, make([]byte, j)...), 0, false})
		}
	}
	return l
}

// header reads the length header of an item and returns the bytes behind it.
func header(item []byte) (lengthHeader, []byte) {
	b := item[1:]
	bad := lengthHeader{b, 0, false}
	if len(b) == 0 || b[0] > 0x84 {
		return bad, nil
	}
	if b[0] == 0x80 {
		return lengthHeader{b[:1], -1, true}, b[1:]
	}
	if b[0] < 0x80 {
		return lengthHeader{b[:1], int(b[0]), true}, b[1:]
	}
	k := int(b[0] & 0x7f)
	if len(b) < 1+k {
		return bad, nil
	}
	n := 0
	for _, x := range b[1 : 1+k] {
		n = n<<8 | int(x)
	}
	return lengthHeader{b[:1+k], n, true}, b[1+k:]
}

func init() {
	engine.Register("C01", []string{"the integer writers' domain is 32 bits (WriteInt, WriteIntTag, WriteEnum) and 64 bits (WriteInt64)",
		"the library has no reader for ENUMERATED; what the enumerated writer writes is compared byte for byte"}, func(t engine.Tier) []*engine.Scenario {
		var out []*engine.Scenario
		if t.Thorough {
			out = append(out, &engine.Scenario{Name: "int32-all", N: 1 << 20, What: "every 32-bit integer: bytes written, value and position read back", At: func(c *engine.C, i uint64) {
				for j := uint32(0); j < 1<<12; j++ {
					checkInt32(c, int32(uint32(i)<<12|j))
				}
				c.State(i)
			}})
		}
		out = append(out, &engine.Scenario{Name: "int32-bytes", N: pow(24, 4), What: "32-bit integers made of 24 byte values in every position, all integer writers and readers", At: func(c *engine.C, i uint64) {
			v := int32(0)
			for _, d := range digits(i, 24, 4) {
				v = v<<8 | int32(intBytes24[d])
			}
			c.State(uint64(uint32(v)))
			c.Logf("value %d", v)
			checkInt32(c, v)
			checkInt32Variants(c, v)
		}})
		out = append(out, &engine.Scenario{Name: "int32-small", N: 1 << 10, What: "every integer of -2^17..2^17", At: func(c *engine.C, i uint64) {
			for j := 0; j < 256; j++ {
				v := int32(i)*256 + int32(j) - 1<<17
				c.State(uint64(uint32(v)))
				checkInt32(c, v)
				checkInt32Variants(c, v)
				checkInt64(c, int64(v))
			}
		}})
		near := around()
		out = append(out, &engine.Scenario{Name: "int64-near-powers", N: uint64(len(near)), What: "64-bit integers within 300 of every power of two", At: func(c *engine.C, i uint64) {
			c.State(uint64(near[i]))
			checkInt64(c, near[i])
			if near[i] == int64(int32(near[i])) {
				checkInt32(c, int32(near[i]))
			}
		}})
		bs := intBytes5
		if t.Thorough {
			bs = intBytes9
		}
		out = append(out, &engine.Scenario{Name: "int64-bytes", N: pow(uint64(len(bs)), 7), What: fmt.Sprintf("64-bit integers made of %d byte values in every position", len(bs)), At: func(c *engine.C, i uint64) {
			u := uint64(0)
			for _, d := range digits(i, uint64(len(bs)), 7) {
				u = u<<8 | uint64(bs[d])
			}
			for _, b := range bs {
				c.State(u<<8 | uint64(b))
				checkInt64(c, int64(u<<8|uint64(b)))
			}
		}})
		hs := lengthHeaders(10)
		pats := []byte{0x00, 0x80, 0xff}
		if t.Thorough {
			pats = []byte{0x00, 0x01, 0x7f, 0x80, 0xff}
		}
		out = append(out, &engine.Scenario{Name: "refusals", What: "every length header (0..10 and large lengths in every form, indefinite, illegal, cut) x available content of 0..10 bytes x content patterns x reader x enclosing container", Run: func(c *engine.C) {
			h := choose(c, hs)
			avail := c.Choose(11)
			content := make([]byte, avail)
			if h.legal && h.n >= 0 && h.n <= 8 {
				for i := range content {
					if i < 2 || i == avail-1 || t.Thorough && i < 5 {
						content[i] = choose(c, pats)
					} else {
						content[i] = 0x31 + byte(i)
					}
				}
			}
			item := append(append([]byte{2}, h.b...), content...)
			for wide := 0; wide < 2; wide++ {
				for ctx := 0; ctx < 3; ctx++ {
					checkIntRefusal(c, item, h, content, wide == 1, ctx)
				}
			}
		}})
		out = append(out, &engine.Scenario{Name: "tags", N: 256, What: "every tag byte but INTEGER in front of every integer content of 0..8 bytes", At: func(c *engine.C, i uint64) {
			for n := 0; n <= 8; n++ {
				b := append([]byte{byte(i), byte(n)}, []byte{1, 2, 3, 4, 5, 6, 7, 8}[:n]...)
				_, e1 := asn1.NewASNReader(b).ReadInt()
				_, e2 := asn1.NewASNReader(b).ReadInt64()
				if i == 2 {
					if (e1 == nil) != (n >= 1 && n <= 4) || (e2 == nil) != (n >= 1) {
						c.Failf("% x: ReadInt error %v, ReadInt64 error %v", b, e1, e2)
					}
				} else if e1 == nil || e2 == nil {
					c.Failf("% x read as an integer (ReadInt error %v, ReadInt64 error %v)", b, e1, e2)
				}
				c.Steps(2)
				c.StateBytes(b)
			}
			if _, err := asn1.NewASNReader(nil).ReadInt(); err == nil {
				c.Failf("integer read from nothing")
			}
			if _, err := asn1.NewASNReader(nil).ReadInt64(); err == nil {
				c.Failf("integer read from nothing")
			}
		}})
		return out
	})
}

// checkIntRefusal reads an item that may be illegal: alone (ctx 0), at the end
// of a definite container inside a longer message (1), or of an indefinite one (2).
func checkIntRefusal(c *engine.C, item []byte, h lengthHeader, content []byte, wide bool, ctx int) {
	width := 4
	if wide {
		width = 8
	}
	var r *asn1.ASNReader
	h, content = header(item)
	avail := len(content)
	switch ctx {
	case 0:
		r = asn1.NewASNReader(item)
	case 1:
		msg := append([]byte{0x30, byte(len(item))}, item...)
		msg = append(msg, 1, 2, 3, 4, 5, 6, 7, 8, 9)
		top := asn1.NewASNReader(msg)
		_, sub, err := top.ReadSequenceStart(0x30)
		ok(c, err, "container")
		r = sub
	case 2:
		msg := append([]byte{0x30, 0x80}, item...)
		top := asn1.NewASNReader(msg)
		_, sub, err := top.ReadSequenceStart(0x30)
		ok(c, err, "container")
		r = sub
	}
	var g int64
	var err errors.Error
	if wide {
		g, err = r.ReadInt64()
	} else {
		var v int
		v, err = r.ReadInt()
		g = int64(v)
	}
	c.Step()
	c.Logf("% x: %d, error %v", item, g, err != nil)
	legal := h.legal && h.n >= 1 && h.n <= width && h.n <= avail
	if !legal {
		if err == nil {
			c.Failf("integer % x (announced %d, available %d, width %d) yields %d instead of an error", item, h.n, avail, width, g)
		}
		return
	}
	body := content[:h.n]
	want := ref.IntValue(body)
	minimal := bytes.Equal(ref.IntBytes(want), body)
	if err != nil {
		if minimal {
			c.Failf("integer % x refused: %v", item, err)
		}
		return
	}
	if g != want {
		c.Failf("integer % x yields %d instead of %d", item, g, want)
	}
	if r.Len() != avail-h.n {
		c.Failf("after % x the reader has %d bytes left instead of %d", item, r.Len(), avail-h.n)
	}
	c.State(uint64(g)*3 + uint64(width))
}

// ---- C02 ----

func sameReal(a, b float64) bool {
	if a == 0 && b == 0 {
		return true
	}
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

func checkReal(c *engine.C, v float64) {
	w := asn1.NewASNWriter()
	ok(c, w.WriteReal(v), "WriteReal(%x)", math.Float64bits(v))
	w.WriteByte(trailer)
	b := written(w)
	n := len(b) - 1
	if n < 2 || b[0] != ref.TagReal || int(b[1]) != n-2 {
		c.Failf("WriteReal(%v = %016x) wrote % x", v, math.Float64bits(v), b)
	}
	d, err := ref.RealValue(b[2:n])
	if err != nil || !sameReal(d, v) {
		c.Failf("WriteReal(%v = %016x) wrote % x, which denotes %v (%v)", v, math.Float64bits(v), b[:n], d, err)
	}
	r := asn1.NewASNReader(b)
	g, e := r.ReadReal()
	if e != nil || !sameReal(g, v) {
		c.Failf("ReadReal of WriteReal(%v = %016x) = %v = %016x (%v), bytes % x", v, math.Float64bits(v), g, math.Float64bits(g), e, b[:n])
	}
	atTrailer(c, r, n, "ReadReal")
	c.Step()
}

// mantissas of 52 bits: every single bit, runs from either end, byte borders.
func mantissas(thorough bool) []uint64 {
	const all = uint64(1)<<52 - 1
	set := map[uint64]bool{0: true, all: true, 0x5555555555555: true, 0xaaaaaaaaaaaaa: true, 0x1: true}
	for k := uint(0); k < 52; k++ {
		set[1<<k] = true
		set[(1<<k)-1] = true
		set[all&^(1<<k)] = true
		set[all&^((1<<k)-1)] = true
		set[(1<<k)|1] = true
		set[(uint64(1)<<51)|1<<k] = true
		if thorough {
			for j := uint(0); j < k; j++ {
				set[1<<k|1<<j] = true
				set[(1<<k)-(1<<j)] = true
			}
		}
	}
	for k := uint(0); k+8 <= 52; k += 4 {
		for _, b := range []uint64{0x7f, 0x80, 0x81, 0xff, 0xa5} {
			set[b<<k] = true
		}
	}
	out := make([]uint64, 0, len(set))
	for m := range set {
		out = append(out, m)
	}
	// a fixed order
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j-1] > out[j]; j-- {
			out[j-1], out[j] = out[j], out[j-1]
		}
	}
	return out
}

// readRealTwice checks that reading content is deterministic and harmless.
func readRealTwice(c *engine.C, content []byte) {
	b := append(append([]byte{ref.TagReal}, ref.Length(len(content), ref.Short)...), content...)
	b = append(b, trailer)
	r := asn1.NewASNReader(b)
	g, err := r.ReadReal()
	g2, err2 := asn1.NewASNReader(b).ReadReal()
	if (err == nil) != (err2 == nil) || err == nil && !sameReal(g, g2) {
		c.Failf("real % x reads as %v (%v) and then as %v (%v)", content, g, err, g2, err2)
	}
	c.Steps(2)
	d, derr := ref.RealValue(content)
	if derr != nil {
		c.Logf("% x malformed: %v, error %v", content, g, err != nil)
		illformed := len(content) == 1 && content[0] != 0x40 && content[0] != 0x41 && content[0] != 0x42
		if len(content) > 1 && content[0]&0xb0 == 0x80 {
			n := int(content[0]&3) + 1
			// (three exponent octets are legal; four are read although X.690 means something else by them)
			illformed = len(content) < 1+n+1
			if !illformed && realTooBig(content, n) {
				illformed = true
			}
		}
		if illformed && err == nil {
			c.Failf("real % x yields %v instead of an error", content, g)
		}
		return
	}
	// well formed: the value is exact unless it lies outside the doubles
	if err != nil {
		wide := len(content) > 1 && len(content)-2-int(content[0]&3) > 8
		if !math.IsInf(d, 0) && d != 0 && !wide {
			c.Failf("real % x denotes %v but is refused: %v", content, d, err)
		}
		return
	}
	c.State(math.Float64bits(g))
	if math.IsInf(d, 0) && len(content) > 1 {
		c.Failf("real % x is outside the doubles but yields %v", content, g)
	}
	if !sameReal(g, d) && !inexact(content) {
		c.Failf("real % x denotes %v (%016x) but yields %v (%016x)", content, d, math.Float64bits(d), g, math.Float64bits(g))
	}
	atTrailer(c, r, len(b)-1, "ReadReal")
}

// realTooBig: the exponent of the leading bit is beyond the doubles (and the
// significand is not zero).
func realTooBig(content []byte, n int) bool {
	zero := true
	for _, x := range content[1+n:] {
		if x != 0 {
			zero = false
		}
	}
	return !zero && ref.IntValue(content[1:1+n]) > 1023
}

// inexact: the value has more digits than the (subnormal) double can hold.
func inexact(content []byte) bool {
	n := int(content[0]&3) + 1
	e := ref.IntValue(content[1 : 1+n])
	bits := 0
	m := uint64(0)
	for _, x := range content[1+n:] {
		m = m<<8 | uint64(x)
	}
	for x := m; x != 0; x >>= 1 {
		bits++
	}
	return e < -1022 && int64(bits) > e+1075
}

func init() {
	engine.Register("C02", []string{"negative zero may read back as zero", "values that a double cannot hold exactly need not be read exactly"}, func(t engine.Tier) []*engine.Scenario {
		ms := mantissas(t.Thorough)
		var out []*engine.Scenario
		out = append(out, &engine.Scenario{Name: "values", N: 2048 * 2, What: fmt.Sprintf("every sign and exponent with %d mantissa shapes", len(ms)), At: func(c *engine.C, i uint64) {
			for _, m := range ms {
				v := math.Float64frombits(i<<52 | m)
				c.State(i<<52 | m)
				checkReal(c, v)
			}
		}})
		out = append(out, &engine.Scenario{Name: "integers", N: 2000, What: "small integers, decimals and their inverses", At: func(c *engine.C, i uint64) {
			f := float64(i)
			for _, v := range []float64{f, -f, f / 10, -f / 100, 1 / (f + 1), f * 1e15, f * 1e300, f * 1e-310, math.Sqrt(f)} {
				c.State(math.Float64bits(v))
				checkReal(c, v)
			}
		}})
		out = append(out, &engine.Scenario{Name: "contents-0-2", N: 65536, What: "every content of up to two bytes", At: func(c *engine.C, i uint64) {
			if i == 0 {
				readRealTwice(c, nil)
			}
			if i < 256 {
				readRealTwice(c, []byte{byte(i)})
			}
			readRealTwice(c, []byte{byte(i >> 8), byte(i)})
		}})
		out = append(out, &engine.Scenario{Name: "contents-3", N: 65536, What: "every content of three bytes", At: func(c *engine.C, i uint64) {
			for k := 0; k < 256; k++ {
				readRealTwice(c, []byte{byte(i >> 8), byte(i), byte(k)})
			}
		}})
		pats := []byte{0x00, 0x01, 0x7f, 0x80, 0xff, 0xfc, 0x04, 0x03}
		depth := t.Pick(4, 6)
		out = append(out, &engine.Scenario{Name: "contents-pattern", N: 256 * pow(uint64(len(pats)), depth), What: "every preamble, contents of 4..14 bytes whose ends are products of 8 byte values", At: func(c *engine.C, i uint64) {
			pre := byte(i)
			ds := digits(i>>8, uint64(len(pats)), depth)
			for n := 4; n <= 14; n += 1 {
				b := make([]byte, n)
				b[0] = pre
				for j := 1; j < n; j++ {
					b[j] = pats[ds[(j-1)%depth]]
				}
				readRealTwice(c, b)
			}
		}})
		exps := []int64{-1 << 31, -70000, -1100, -1080, -1076, -1075, -1074, -1073, -1060, -1050, -1024, -1023, -1022, -1021, -129, -128, -1, 0, 1, 127, 128, 1021, 1022, 1023, 1024, 1025, 70000, 1<<31 - 1}
		out = append(out, &engine.Scenario{Name: "contents-boundary", N: uint64(len(exps) * len(ms)), What: "exponents around the ends of the double range with every mantissa shape made odd, exponent fields of 1..4 bytes, leading zero bytes", At: func(c *engine.C, i uint64) {
			e := exps[i%uint64(len(exps))]
			m := ms[i/uint64(len(exps))] | 1
			for n := 1; n <= 4; n++ {
				eb := ref.IntBytes(e)
				if len(eb) > n {
					continue
				}
				for len(eb) < n {
					p := byte(0)
					if e < 0 {
						p = 0xff
					}
					eb = append([]byte{p}, eb...)
				}
				for pad := 0; pad < 3; pad++ {
					mb := ref.IntBytes(int64(m))
					for j := 0; j < pad; j++ {
						mb = append([]byte{0}, mb...)
					}
					for _, sign := range []byte{0, 0x40} {
						readRealTwice(c, append(append([]byte{0x80 | sign | byte(n-1)}, eb...), mb...))
					}
				}
			}
		}})
		hs := lengthHeaders(16)
		out = append(out, &engine.Scenario{Name: "refusals", N: uint64(len(hs)) * 20, What: "length headers x available bytes; announced bytes must be there", At: func(c *engine.C, i uint64) {
			h := hs[i%uint64(len(hs))]
			avail := int(i / uint64(len(hs)))
			content := []byte{0x81, 0x00, 0x05, 0x15, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}[:avail]
			b := append(append([]byte{ref.TagReal}, h.b...), content...)
			h, content = header(b)
			avail = len(content)
			_, err := asn1.NewASNReader(b).ReadReal()
			if err == nil && (!h.legal || h.n > avail || h.n < 0) {
				c.Failf("real % x (announced %d of %d) is accepted", b, h.n, avail)
			}
			c.Step()
			for tag := 0; tag < 256; tag++ {
				if tag == ref.TagReal {
					continue
				}
				b[0] = byte(tag)
				if _, err := asn1.NewASNReader(b).ReadReal(); err == nil {
					c.Failf("% x read as a real", b)
				}
				c.Step()
			}
		}})
		return out
	})
}

// ---- C03 ----

func lens(t engine.Tier) []int {
	var l []int
	for n := 0; n <= t.Pick(600, 3000); n++ {
		l = append(l, n)
	}
	for _, b := range []int{1 << 12, 1 << 14, 1 << 15, 1 << 16, 1 << 17} {
		for d := -3; d <= 3; d++ {
			l = append(l, b+d)
		}
	}
	for d := -2; d <= 2; d++ {
		l = append(l, 1<<24+d)
	}
	return l
}

func readItem(r *asn1.ASNReader, kind int) (string, errors.Error) {
	switch kind {
	case 0:
		return r.ReadString()
	case 1:
		b, err := r.ReadOctetString()
		return string(b), err
	case 2:
		b, err := r.ReadBitString()
		return string(b), err
	case 3:
		o, err := r.ReadOID(ref.TagOID)
		return oidText(o), err
	case 4:
		b, err := r.ReadBoolean()
		return fmt.Sprint(b), err
	}
	o, err := r.ReadOID(0x06)
	return oidText(o), err
}

func oidText(o []int32) string { return ref.OIDString(o) }

var itemTags = []byte{ref.TagString, ref.TagOctets, ref.TagBits, ref.TagOID, ref.TagBool, 0x06}

// checkItem writes content as the given kind and reads it back, alone and
// inside containers.
func checkItem(c *engine.C, kind int, content []byte) {
	w := asn1.NewASNWriter()
	if kind == 0 {
		ok(c, w.WriteString(string(content)), "WriteString")
	} else {
		ok(c, w.WriteBuffer(content, itemTags[kind]), "WriteBuffer")
	}
	w.WriteByte(trailer)
	b := written(w)
	t, err := ref.Parse(b[:len(b)-1])
	if err != nil || t.Tag != itemTags[kind] || !bytes.Equal(t.Prim, content) {
		c.Failf("kind %d, %d bytes: written item is not well formed (%v): % x...", kind, len(content), err, clipb(b))
	}
	r := asn1.NewASNReader(b)
	g, e := readItem(r, kind)
	if e != nil || g != string(content) {
		c.Failf("kind %d, %d bytes: read back %d bytes, %v", kind, len(content), len(g), e)
	}
	atTrailer(c, r, len(b)-1, "item")
	c.Step()
}

func checkOID(c *engine.C, o []int32) {
	neg := false
	for _, x := range o {
		if x < 0 {
			neg = true
		}
	}
	w := asn1.NewASNWriter()
	e := w.WriteRelativeOID(asn1.RelativeOID(o))
	if neg {
		if e == nil {
			c.Failf("identifier %v with a negative number written as % x", o, written(w))
		}
		c.Step()
		return
	}
	ok(c, e, "WriteRelativeOID(%v)", o)
	w.WriteByte(trailer)
	b := written(w)
	n := len(b) - 1
	t, err := ref.Parse(b[:n])
	if err != nil || t.Tag != ref.TagOID {
		c.Failf("identifier %v written as % x: %v", o, b[:n], err)
	}
	v, err := ref.OIDValue(t.Prim)
	if err != nil || ref.OIDString(v) != ref.OIDString(o) {
		c.Failf("identifier %v written as % x, which denotes %v (%v)", o, b[:n], v, err)
	}
	r := asn1.NewASNReader(b)
	g, e := r.ReadOID(ref.TagOID)
	if e != nil || oidText(g) != oidText(o) || len(g) != len(o) {
		c.Failf("identifier %v read back as %v, %v", o, g, e)
	}
	atTrailer(c, r, n, "ReadOID")
	c.Step()
	c.StateBytes(b)
}

func oidNumbers() []int32 {
	l := []int32{0, 1, 2, 63, 64, 100}
	for k := uint(7); k <= 28; k += 7 {
		for d := int32(-2); d <= 2; d++ {
			l = append(l, int32(1)<<k+d)
		}
	}
	for k := uint(8); k <= 30; k++ {
		l = append(l, int32(1)<<k, int32(1)<<k-1)
	}
	return append(l, math.MaxInt32, math.MaxInt32-1, math.MaxInt32-127, math.MaxInt32-128)
}

func init() {
	engine.Register("C03", []string{"identifier numbers are 32-bit", "content lengths above 2^24+2 are not run (memory)"}, func(t engine.Tier) []*engine.Scenario {
		var out []*engine.Scenario
		ls := lens(t)
		out = append(out, &engine.Scenario{Name: "lengths", N: uint64(len(ls)), What: "strings and octet buffers of every length 0.. and around every length-field border", At: func(c *engine.C, i uint64) {
			n := ls[i]
			content := make([]byte, n)
			for j := range content {
				content[j] = byte(j*7 + n)
			}
			for kind := 0; kind < 3; kind++ {
				if n > 1<<20 && kind == 2 {
					continue
				}
				checkItem(c, kind, content)
			}
			c.State(uint64(n))
			c.Logf("length %d", n)
		}})
		out = append(out, &engine.Scenario{Name: "oid-lengths", N: 700, What: "identifiers of 0..700 numbers of 1 to 5 bytes", At: func(c *engine.C, i uint64) {
			for _, v := range []int32{0, 5, 127, 128, 16384, 1 << 21, math.MaxInt32} {
				o := make([]int32, i)
				for j := range o {
					o[j] = v
				}
				checkOID(c, o)
			}
		}})
		out = append(out, &engine.Scenario{Name: "content-bytes", N: 65536, What: "every two-byte content of strings and buffers, also as whole zero runs", At: func(c *engine.C, i uint64) {
			for kind := 0; kind < 3; kind++ {
				checkItem(c, kind, []byte{byte(i >> 8), byte(i)})
				checkItem(c, kind, []byte{0, byte(i >> 8), 0, byte(i), 0})
			}
			c.State(i)
		}})
		nums := oidNumbers()
		k := uint64(len(nums))
		out = append(out, &engine.Scenario{Name: "oid-numbers", N: k*k*k + k*k + k + 1, What: "identifiers of up to three numbers around every 7-bit and bit border", At: func(c *engine.C, i uint64) {
			if i == k*k*k+k*k+k {
				checkOID(c, nil)
				return
			}
			n := 3
			if i >= k*k*k {
				i -= k * k * k
				n = 2
				if i >= k*k {
					i -= k * k
					n = 1
				}
			}
			var o []int32
			for _, d := range digits(i, k, n) {
				o = append(o, nums[d])
			}
			checkOID(c, o)
		}})
		if t.Thorough {
			out = append(out, &engine.Scenario{Name: "oid-single-all", N: 1 << 19, What: "every identifier of one number", At: func(c *engine.C, i uint64) {
				for j := uint32(0); j < 1<<12; j++ {
					v := int32(uint32(i)<<12 | j)
					w := asn1.NewASNWriter()
					ok(c, w.WriteRelativeOID(asn1.RelativeOID{v}), "identifier %d", v)
					b := written(w)
					want := ref.OIDBytes([]int32{v})
					if len(b) != len(want)+2 || b[0] != ref.TagOID || int(b[1]) != len(want) || !bytes.Equal(b[2:], want) {
						c.Failf("identifier %d written as % x", v, b)
					}
					g, err := asn1.NewASNReader(b).ReadOID(ref.TagOID)
					if err != nil || len(g) != 1 || g[0] != v {
						c.Failf("identifier %d read back as %v (%v)", v, g, err)
					}
					c.Step()
				}
			}})
		}
		negs := []int32{-1, -2, -127, -128, -129, math.MinInt32, math.MinInt32 + 1, -1 << 30}
		out = append(out, &engine.Scenario{Name: "oid-negative", N: uint64(len(negs)) * 4, What: "negative numbers in every position", At: func(c *engine.C, i uint64) {
			o := []int32{1, 2, 3, 4}
			o[i%4] = negs[i/4]
			for n := int(i%4) + 1; n <= 4; n++ {
				checkOID(c, o[:n])
			}
		}})
		out = append(out, &engine.Scenario{Name: "booleans", N: 256, What: "booleans and every content byte", At: func(c *engine.C, i uint64) {
			if i < 2 {
				w := asn1.NewASNWriter()
				ok(c, w.WriteBoolean(i == 1), "WriteBoolean")
				w.WriteByte(trailer)
				b := written(w)
				want := byte(0)
				if i == 1 {
					want = 0xff
				}
				sameBytes(c, b, []byte{1, 1, want, trailer}, "WriteBoolean(%v)", i == 1)
				r := asn1.NewASNReader(b)
				g, err := r.ReadBoolean()
				if err != nil || g != (i == 1) {
					c.Failf("boolean read back as %v, %v", g, err)
				}
				atTrailer(c, r, 3, "ReadBoolean")
			}
			g, err := asn1.NewASNReader([]byte{1, 1, byte(i)}).ReadBoolean()
			if err != nil || g != (i != 0) {
				c.Failf("boolean content %#x reads as %v, %v", i, g, err)
			}
			c.Step()
		}})
		out = append(out, &engine.Scenario{Name: "nulls", What: "up to four nulls and booleans in a container", Run: func(c *engine.C) {
			w := asn1.NewASNWriter()
			ok(c, w.StartSequence(0xa1), "StartSequence")
			want := ""
			n := c.Choose(5)
			for i := 0; i < n; i++ {
				if c.Bool() {
					ok(c, w.WriteNull(), "WriteNull")
					want += "05() "
				} else {
					ok(c, w.WriteBoolean(true), "WriteBoolean")
					want += "01(ff) "
				}
			}
			ok(c, w.EndSequence(), "EndSequence")
			c.Step()
			b := written(w)
			l, err := ref.Parse(b)
			if err != nil {
				c.Failf("% x is not well formed: %v", b, err)
			}
			got := ""
			for _, x := range l.Kids {
				got += fmt.Sprintf("%02x(%x) ", x.Tag, x.Prim)
			}
			same(c, got, want, "what % x holds", b)
			c.StateString(want)
		}})
		hs := lengthHeaders(6)
		out = append(out, &engine.Scenario{Name: "refusals", N: uint64(len(hs)) * 8 * 6, What: "length headers x available bytes x kind, alone and inside containers with bytes behind; also every wrong tag", At: func(c *engine.C, i uint64) {
			kind := int(i % 6)
			avail := int(i / 6 % 8)
			h := hs[i/48]
			content := []byte{1, 2, 3, 4, 5, 6, 7}[:avail]
			item := append(append([]byte{itemTags[kind]}, h.b...), content...)
			h, content = header(item)
			avail = len(content)
			for ctx := 0; ctx < 3; ctx++ {
				var r *asn1.ASNReader
				switch ctx {
				case 0:
					r = asn1.NewASNReader(item)
				case 1:
					msg := append([]byte{0x30, byte(len(item))}, item...)
					msg = append(msg, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 0)
					_, sub, err := asn1.NewASNReader(msg).ReadSequenceStart(0x30)
					ok(c, err, "container")
					r = sub
				case 2:
					_, sub, err := asn1.NewASNReader(append([]byte{0x30, 0x80}, item...)).ReadSequenceStart(0x30)
					ok(c, err, "container")
					r = sub
				}
				g, err := readItem(r, kind)
				c.Step()
				legal := h.legal && h.n >= 0 && h.n <= avail && (kind != 4 || h.n == 1)
				if !legal {
					if err == nil {
						c.Failf("item % x (announced %d of %d) reads as %q", item, h.n, avail, g)
					}
					continue
				}
				if err != nil {
					c.Failf("item % x refused: %v", item, err)
				}
				want := string(content[:h.n])
				if kind == 3 || kind == 5 {
					v, _ := ref.OIDValue(content[:h.n])
					want = ref.OIDString(v)
				} else if kind == 4 {
					want = "true"
				}
				if g != want || r.Len() != avail-h.n {
					c.Failf("item % x reads as %q instead of %q, %d bytes left of %d", item, g, want, r.Len(), avail)
				}
			}
			for tag := 0; tag < 256; tag++ {
				if byte(tag) == itemTags[kind] {
					continue
				}
				b := append([]byte{}, item...)
				b[0] = byte(tag)
				if g, err := readItem(asn1.NewASNReader(b), kind); err == nil {
					c.Failf("item % x of tag %#x read as kind %d: %q", b, tag, kind, g)
				}
				c.Step()
			}
		}})
		out = append(out, &engine.Scenario{Name: "oid-contents", N: 1 << 16, What: "identifier contents of two arbitrary bytes and runs of continuation bytes: exact or refused", At: func(c *engine.C, i uint64) {
			for n := 1; n <= 8; n++ {
				content := make([]byte, n)
				for j := range content {
					content[j] = 0x81
				}
				content[0] = byte(i >> 8)
				content[n-1] = byte(i)
				b := append([]byte{ref.TagOID, byte(n)}, content...)
				g, err := asn1.NewASNReader(b).ReadOID(ref.TagOID)
				v, rerr := ref.OIDValue(content)
				c.Step()
				if rerr == nil && (err != nil || oidText(g) != ref.OIDString(v)) {
					c.Failf("identifier % x denotes %v, read %v (%v)", content, v, g, err)
				}
				if rerr != nil && err == nil && rerr.Error() != "padded number" {
					c.Failf("identifier % x (%v) reads as %v", content, rerr, g)
				}
			}
		}})
		return out
	})
}
