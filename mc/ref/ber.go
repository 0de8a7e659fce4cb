// Package ref holds independent reference implementations of the formats the
// library speaks: BER as Ember+ uses it, the Glow DTD, and S101 framing. It
// shares no code with the library.
package ref

import (
	"errors"
	"fmt"
	"math"
)

// Form is how the length of a container or item is expressed.
type Form int

const (
	Indef Form = iota
	Short      // shortest definite form
	Long1      // 0x81 nn (shortest form if the length needs more)
	Long2
	Long3
	Long4
	NForms
)

func (f Form) String() string { return [...]string{"indef", "short", "81", "82", "83", "84"}[f] }

// TLV is a BER item; containers have Cons set.
type TLV struct {
	Tag  byte
	Cons bool
	Prim []byte
	Kids []*TLV
	Form Form
}

const (
	TagBool   = 0x01
	TagInt    = 0x02
	TagBits   = 0x03
	TagOctets = 0x04
	TagNull   = 0x05
	TagReal   = 0x09
	TagString = 0x0c
	TagOID    = 0x0d
	TagSeq    = 0x30
	TagSet    = 0x31
)

// App and Ctx are constructed application and context tags.
func App(n int) byte { return 0x60 | byte(n) }
func Ctx(n int) byte { return 0xa0 | byte(n) }

// P makes a primitive item, K a container.
func P(tag byte, b []byte) *TLV      { return &TLV{Tag: tag, Prim: b, Form: Short} }
func K(tag byte, kids ...*TLV) *TLV  { return &TLV{Tag: tag, Cons: true, Kids: kids, Form: Short} }
func (t *TLV) Add(kids ...*TLV) *TLV { t.Kids = append(t.Kids, kids...); return t }
func Wrap(ctx int, inner *TLV) *TLV  { return K(Ctx(ctx), inner) }

// Length encodes a definite length in the given form.
func Length(n int, f Form) []byte {
	min := 0
	switch {
	case n > 0xffffff:
		min = 4
	case n > 0xffff:
		min = 3
	case n > 0xff:
		min = 2
	case n > 0x7f:
		min = 1
	}
	k := min
	if f >= Long1 && int(f-Long1)+1 > k {
		k = int(f-Long1) + 1
	}
	if k == 0 {
		return []byte{byte(n)}
	}
	out := []byte{0x80 | byte(k)}
	for i := k - 1; i >= 0; i-- {
		out = append(out, byte(n>>(8*uint(i))))
	}
	return out
}

// Bytes serialises t.
func (t *TLV) Bytes() []byte {
	var body []byte
	if t.Cons {
		for _, k := range t.Kids {
			body = append(body, k.Bytes()...)
		}
	} else {
		body = t.Prim
	}
	out := []byte{t.Tag}
	if t.Cons && t.Form == Indef {
		out = append(out, 0x80)
		out = append(out, body...)
		return append(out, 0, 0)
	}
	out = append(out, Length(len(body), t.Form)...)
	return append(out, body...)
}

// Containers lists t and the containers below, in order.
func (t *TLV) Containers() []*TLV {
	var out []*TLV
	var walk func(x *TLV)
	walk = func(x *TLV) {
		if x.Cons {
			out = append(out, x)
			for _, k := range x.Kids {
				walk(k)
			}
		}
	}
	walk(t)
	return out
}

// SetForms gives every container the form f.
func (t *TLV) SetForms(f Form) *TLV {
	for _, c := range t.Containers() {
		c.Form = f
	}
	return t
}

// Parse reads one item off b; nothing may follow it.
func Parse(b []byte) (*TLV, error) {
	t, rest, err := parse(b, 0)
	if err != nil {
		return nil, err
	}
	if len(rest) != 0 {
		return nil, fmt.Errorf("%d bytes after the item", len(rest))
	}
	return t, nil
}

func parse(b []byte, depth int) (*TLV, []byte, error) {
	if len(b) < 2 {
		return nil, nil, errors.New("item cut short")
	}
	if depth > 1000 {
		return nil, nil, errors.New("too deep")
	}
	tag := b[0]
	if tag&0x1f == 0x1f {
		return nil, nil, errors.New("multi-byte tag")
	}
	cons := tag&0x20 != 0
	n := int(b[1])
	b = b[2:]
	if n == 0x80 {
		if !cons {
			return nil, nil, errors.New("indefinite primitive")
		}
		t := &TLV{Tag: tag, Cons: true, Form: Indef}
		for {
			if len(b) >= 2 && b[0] == 0 && b[1] == 0 {
				return t, b[2:], nil
			}
			k, rest, err := parse(b, depth+1)
			if err != nil {
				return nil, nil, err
			}
			t.Kids = append(t.Kids, k)
			b = rest
		}
	}
	form := Short
	if n > 0x80 {
		k := n & 0x7f
		if k > 4 || len(b) < k {
			return nil, nil, errors.New("bad length")
		}
		form = Long1 + Form(k-1)
		n = 0
		for i := 0; i < k; i++ {
			n = n<<8 | int(b[i])
		}
		b = b[k:]
	}
	if n > len(b) {
		return nil, nil, fmt.Errorf("length %d of %d bytes", n, len(b))
	}
	t := &TLV{Tag: tag, Cons: cons, Form: form}
	body := b[:n]
	if !cons {
		t.Prim = body
		return t, b[n:], nil
	}
	for len(body) > 0 {
		k, rest, err := parse(body, depth+1)
		if err != nil {
			return nil, nil, err
		}
		t.Kids = append(t.Kids, k)
		body = rest
	}
	return t, b[n:], nil
}

// IntBytes is the shortest two's complement form of v.
func IntBytes(v int64) []byte {
	n := 1
	for n < 8 && (v < -(int64(1)<<(8*uint(n)-1)) || v > int64(1)<<(8*uint(n)-1)-1) {
		n++
	}
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(v >> (8 * uint(n-1-i)))
	}
	return out
}

// IntValue reads two's complement content of 1 to 8 bytes.
func IntValue(b []byte) int64 {
	v := int64(0)
	if b[0]&0x80 != 0 {
		v = -1
	}
	for _, x := range b {
		v = v<<8 | int64(x)
	}
	return v
}

func Int(v int64) *TLV { return P(TagInt, IntBytes(v)) }

func Str(s string) *TLV { return P(TagString, []byte(s)) }

func Bool(b bool) *TLV {
	if b {
		return P(TagBool, []byte{0xff})
	}
	return P(TagBool, []byte{0})
}

// OIDBytes encodes non-negative numbers in 7-bit groups.
func OIDBytes(o []int32) []byte {
	var out []byte
	for _, v := range o {
		started := false
		for s := 28; s >= 0; s -= 7 {
			g := byte(uint32(v)>>uint(s)) & 0x7f
			if g == 0 && !started && s > 0 {
				continue
			}
			started = true
			if s > 0 {
				g |= 0x80
			}
			out = append(out, g)
		}
	}
	return out
}

func OID(o []int32) *TLV { return P(TagOID, OIDBytes(o)) }

// OIDValue decodes shortest-form 7-bit groups.
func OIDValue(b []byte) ([]int32, error) {
	out := []int32{}
	v, open := uint64(0), false
	for _, x := range b {
		if !open && x == 0x80 {
			return nil, errors.New("padded number")
		}
		v = v<<7 | uint64(x&0x7f)
		open = x&0x80 != 0
		if v > math.MaxInt32 {
			return nil, errors.New("number too big")
		}
		if !open {
			out = append(out, int32(v))
			v = 0
		}
	}
	if open {
		return nil, errors.New("number cut short")
	}
	return out, nil
}

// RealBytes is the canonical base-2 content of r: exponent of the leading
// bit in the fewest bytes, significand made odd.
func RealBytes(r float64) []byte {
	switch {
	case r == 0:
		return nil
	case math.IsInf(r, 1):
		return []byte{0x40}
	case math.IsInf(r, -1):
		return []byte{0x41}
	case r != r:
		return []byte{0x42}
	}
	pre := byte(0x80)
	if r < 0 {
		pre |= 0x40
		r = -r
	}
	frac, exp := math.Frexp(r) // r = frac * 2^exp, frac in [0.5,1)
	m := uint64(frac * (1 << 53))
	for m&1 == 0 {
		m >>= 1
	}
	eb := IntBytes(int64(exp - 1))
	mb := IntBytes(int64(m))
	return append(append([]byte{pre | byte(len(eb)-1)}, eb...), mb...)
}

func Real(r float64) *TLV { return P(TagReal, RealBytes(r)) }

// RealValue decodes content as RealBytes writes it; significands may be
// padded with zero bytes in front. It is exact or fails.
func RealValue(b []byte) (float64, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(b) == 1 {
		switch b[0] {
		case 0x40:
			return math.Inf(1), nil
		case 0x41:
			return math.Inf(-1), nil
		case 0x42:
			return math.NaN(), nil
		}
		return 0, errors.New("unknown special")
	}
	if b[0]&0xbc != 0x80 || b[0]&3 == 3 {
		return 0, fmt.Errorf("preamble %#x", b[0])
	}
	n := int(b[0]&3) + 1
	if len(b) < 1+n+1 {
		return 0, errors.New("no significand")
	}
	eb := b[1 : 1+n]
	e := IntValue(eb)
	if string(IntBytes(e)) != string(eb) {
		return 0, errors.New("padded exponent")
	}
	mb := b[1+n:]
	for len(mb) > 1 && mb[0] == 0 {
		mb = mb[1:]
	}
	if len(mb) > 8 {
		return 0, errors.New("significand too long")
	}
	var m uint64
	for _, x := range mb {
		m = m<<8 | uint64(x)
	}
	if m&1 == 0 {
		return 0, errors.New("even significand")
	}
	bits := 0
	for x := m; x != 0; x >>= 1 {
		bits++
	}
	if bits > 53 {
		return 0, errors.New("significand exceeds a double")
	}
	r := math.Ldexp(float64(m), int(e)-(bits-1))
	if b[0]&0x40 != 0 {
		r = -r
	}
	return r, nil
}
