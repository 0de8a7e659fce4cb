package checks

import (
	"bytes"
	"fmt"

	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"

	"verifmc/engine"
	"verifmc/ref"
)

// ---- C17 ----

// Neither the payload of a frame nor the frame on the wire may be longer.
const (
	maxFramePayload = 1024
	maxFrameWire    = 1290
)

func checkEncoded(c *engine.C, payload []byte) {
	orig := append([]byte{}, payload...)
	fl := socket.EncodeMessage(payload)
	sameBytes(c, payload, orig, "EncodeMessage changed its input")
	n := fl.Size()
	if n < 1 {
		c.Failf("no frame for %d bytes", len(payload))
	}
	var got []byte
	for i := 0; i < n; i++ {
		b, err := fl.GetBytesAt(i)
		ok(c, err, "GetBytesAt(%d)", i)
		buf, err := fl.GetAt(i)
		ok(c, err, "GetAt(%d)", i)
		sameBytes(c, buf.Bytes(), b, "GetAt(%d) differs from GetBytesAt", i)
		for k := range buf.Bytes() {
			buf.Bytes()[k] = 0xaa
		}
		buf.Next(5)
		buf.Reset()
		b2, err := fl.GetBytesAt(i)
		ok(c, err, "GetBytesAt(%d)", i)
		sameBytes(c, b2, b, "frame %d read a second time", i)
		for k := range b2 {
			b2[k] = 0x55
		}
		buf, err = fl.GetAt(i)
		ok(c, err, "GetAt(%d)", i)
		sameBytes(c, buf.Bytes(), b, "frame %d read a third time", i)
		f, perr := ref.ParseFrame(b)
		if perr != nil {
			c.Failf("frame %d of %d for a payload of %d bytes: %v\n% x", i, n, len(payload), perr, clipb(b))
		}
		flags := byte(0)
		if i == 0 {
			flags |= ref.FlagFirst
		}
		if i == n-1 {
			flags |= ref.FlagLast
		}
		if f.Cmd != 0 || f.Flags != flags {
			c.Failf("frame %d of %d for a payload of %d bytes: command %d, flags %#x instead of %#x", i, n, len(payload), f.Cmd, f.Flags, flags)
		}
		if len(f.Payload) > maxFramePayload || f.Size > maxFrameWire {
			c.Failf("frame %d of %d carries %d bytes, %d on the wire", i, n, len(f.Payload), f.Size)
		}
		if len(f.Payload) == 0 && len(payload) > 0 {
			c.Failf("frame %d of %d carries nothing", i, n)
		}
		got = append(got, f.Payload...)
		c.Step()
	}
	sameBytes(c, got, payload, "payloads of the frames do not concatenate to the message of %d bytes", len(payload))
	for _, i := range []int{-1, n, n + 1} {
		if _, err := fl.GetBytesAt(i); err == nil {
			c.Failf("GetBytesAt(%d) of %d frames", i, n)
		}
		if _, err := fl.GetAt(i); err == nil {
			c.Failf("GetAt(%d) of %d frames", i, n)
		}
	}
	if fl.Size() != n {
		c.Failf("size changed")
	}
	c.State(uint64(n)<<32 ^ engine.Hash(got))
}

func fill(n int, pat int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch pat {
		case 0:
			b[i] = byte(i*7) & 0x7f
		case 1:
			b[i] = 0xf8 + byte(i%8)
		case 2:
			b[i] = []byte{0x10, 0xff}[i%2]
		case 3:
			b[i] = byte(i * 37)
		case 4:
			b[i] = 0xfd
		case 5:
			b[i] = []byte{0xfe, 0x10}[i%2]
		case 6:
			b[i] = 0xf7
		}
	}
	return b
}

func init() {
	engine.Register("C17", []string{"the frame size limit is 1024 payload bytes and 1290 bytes on the wire (S101)"}, func(t engine.Tier) []*engine.Scenario {
		var out []*engine.Scenario
		out = append(out, &engine.Scenario{Name: "short", N: 65536, What: "every payload of up to two bytes (all check sums), also with bytes around", At: func(c *engine.C, i uint64) {
			if i == 0 {
				checkEncoded(c, nil)
			}
			if i < 256 {
				checkEncoded(c, []byte{byte(i)})
			}
			checkEncoded(c, []byte{byte(i >> 8), byte(i)})
			checkEncoded(c, []byte{0xff, byte(i >> 8), 0xfd, byte(i), 0xfe})
			for _, b := range [][]byte{{byte(i >> 8), byte(i)}, {0xfd, byte(i >> 8), byte(i)}, {byte(i)}} {
				if g, w := socket.CalculateCRC(bytes.NewReader(b)), ref.CRC(b); g != w {
					c.Failf("check sum of % x is %#x instead of %#x", b, g, w)
				}
				if g, w := socket.CalculateCRCCE(bytes.NewReader(ref.Escape(b))), ref.CRC(b); g != w {
					c.Failf("check sum of escaped % x is %#x instead of %#x", b, g, w)
				}
			}
			b := []byte{0x31, byte(i >> 8), byte(i)}
			if g, w := socket.ValidateFrame(bytes.NewReader(b)), ref.CRC(b[:1])^0xffff == uint16(b[1])|uint16(b[2])<<8; g != w {
				c.Failf("ValidateFrame(% x) = %v", b, g)
			}
		}})
		top := t.Pick(3200, 9000)
		out = append(out, &engine.Scenario{Name: "lengths", N: uint64(top+1) * 7, What: fmt.Sprintf("every payload length 0..%d x 7 fillings", top), At: func(c *engine.C, i uint64) {
			c.Logf("length %d filling %d", i/7, i%7)
			checkEncoded(c, fill(int(i/7), int(i%7)))
		}})
		width := t.Pick(8, 11)
		var at []int
		for k := 1; k <= t.Pick(2, 4); k++ {
			for d := -12; d <= 4; d++ {
				at = append(at, 1024*k+d)
			}
		}
		for d := -8; d <= 3; d++ {
			at = append(at, 512+d)
		}
		out = append(out, &engine.Scenario{Name: "borders", N: uint64(len(at)) * pow(2, width) * 4 * 2, What: fmt.Sprintf("every pattern of plain and reserved bytes in a window of %d around every frame border x bytes behind x filling in front", width), At: func(c *engine.C, i uint64) {
			pat := i % 2
			i /= 2
			tail := int(i % 4)
			i /= 4
			bits := i % pow(2, width)
			n := at[i/pow(2, width)]
			f := 0
			if pat == 1 {
				f = 4 // all escaped: twice the size
				n = n / 2
			}
			b := fill(n, f)
			for k := 0; k < width; k++ {
				if bits>>uint(k)&1 == 1 {
					b = append(b, 0xff)
				} else {
					b = append(b, 0x21)
				}
			}
			b = append(b, fill(tail, 1)...)
			checkEncoded(c, b)
		}})
		big := []int{1 << 16, 1 << 20, 1 << 22}
		for _, k := range []int{63, 64, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025} {
			big = append(big, 1024*k-1, 1024*k, 1024*k+1, 512*k+3)
		}
		out = append(out, &engine.Scenario{Name: "big", N: uint64(len(big)) * 7, What: "payloads of up to 1025 frames (4 MiB) around every power of two x 7 fillings", At: func(c *engine.C, i uint64) {
			checkEncoded(c, fill(big[i/7], int(i%7)))
		}})
		out = append(out, &engine.Scenario{Name: "keep-alive", N: 1, What: "both keep-alive frames, twice", At: func(c *engine.C, i uint64) {
			for k := 0; k < 2; k++ {
				sameBytes(c, socket.GetKeepaliveRequest().Bytes(), ref.KeepAliveReq(), "keep-alive request")
				sameBytes(c, socket.GetKeepAliveResponse().Bytes(), ref.KeepAliveResp(), "keep-alive response")
				b, q := socket.GetKeepAliveResponse(), socket.GetKeepaliveRequest()
				socket.GetKeepAliveResponse().Next(5)
				socket.GetKeepaliveRequest().Next(5)
				sameBytes(c, b.Bytes(), ref.KeepAliveResp(), "keep-alive response after another one was made and read")
				sameBytes(c, q.Bytes(), ref.KeepAliveReq(), "keep-alive request after another one was made and read")
				b.Reset()
				b.WriteString("xxxxxxxxxxxxxxx")
				q.Reset()
				q.WriteString("xxxxxxxxxxxxxxx")
				c.Steps(4)
			}
			c.State(1)
		}})
		return out
	})
}

// ---- decoder under test ----

type sink struct {
	events []string
	raw    [][]byte // delivered messages and keep-alive frames, not copied
	copies [][]byte // copied at delivery
	errs   int
	reqs   int
	resps  int
	dec    *socket.S101Decoder
}

func newSink() *sink {
	s := &sink{}
	s.dec = socket.NewS101Decoder(
		func(b []byte) errors.Error { s.keep(b); s.reqs++; s.events = append(s.events, "req"); return nil },
		func(b []byte) errors.Error { s.keep(b); s.resps++; s.events = append(s.events, "resp"); return nil },
		func(b []byte) errors.Error {
			s.keep(b)
			s.events = append(s.events, fmt.Sprintf("msg %x", b))
			return nil
		},
		func(e errors.Error) { s.errs++ })
	return s
}

func (s *sink) keep(b []byte) {
	s.raw = append(s.raw, b)
	s.copies = append(s.copies, append([]byte{}, b...))
}

// feed delivers b in a larger buffer that is overwritten afterwards.
func (s *sink) feed(b []byte) {
	buf := make([]byte, len(b)+3)
	copy(buf, b)
	copy(buf[len(b):], []byte{0xff, 0xfe, 0xfd})
	s.dec.DecodeBuffer(len(b), buf)
	for i := range buf {
		buf[i] = 0xee
	}
}

func (s *sink) intact(c *engine.C) {
	for i := range s.raw {
		sameBytes(c, s.raw[i], s.copies[i], "message or keep-alive %d changed after its delivery", i)
	}
}

// ---- C18 ----

// part is a piece of a stream with what it must produce.
type part struct {
	name string
	wire []byte
	ev   []string
}

func msgPart(name string, payload []byte, wire []byte) part {
	return part{name, wire, []string{fmt.Sprintf("msg %x", payload)}}
}

func wireOf(payload []byte) []byte {
	fl := socket.EncodeMessage(payload)
	var out []byte
	for i := 0; i < fl.Size(); i++ {
		b, _ := fl.GetBytesAt(i)
		out = append(out, b...)
	}
	return out
}

func parts() []part {
	req := part{"req", ref.KeepAliveReq(), []string{"req"}}
	resp := part{"resp", ref.KeepAliveResp(), []string{"resp"}}
	esc := []byte{0xff, 0xfe, 0xfd, 0xf8, 0xdd, 0xde}
	var l []part
	l = append(l,
		msgPart("plain", []byte{1, 2, 3}, ref.Message([]byte{1, 2, 3}, 100)),
		msgPart("empty", nil, ref.Message(nil, 100)),
		msgPart("escaped", esc, ref.Message(esc, 100)),
		msgPart("two frames", []byte{5, 0xff, 0xfe, 6}, ref.Message([]byte{5, 0xff, 0xfe, 6}, 2)),
		msgPart("three frames", []byte{7, 8, 9}, ref.Message([]byte{7, 8, 9}, 1)),
		req, resp)
	// keep-alives inside a message
	p := []byte{0xfd, 4, 0xff}
	w := ref.Frame(ref.FlagFirst, p[:1])
	w = append(w, ref.KeepAliveReq()...)
	w = append(w, ref.Frame(0, p[1:2])...)
	w = append(w, ref.KeepAliveResp()...)
	w = append(w, ref.KeepAliveReq()...)
	w = append(w, ref.Frame(ref.FlagLast, p[2:])...)
	l = append(l, part{"inside", w, []string{"req", "resp", "req", fmt.Sprintf("msg %x", p)}})
	l = append(l, msgPart("own", []byte{0x60, 0xfe, 0x80}, wireOf([]byte{0x60, 0xfe, 0x80})))
	// check sums that need escaping
	for v := 0; v < 65536; v++ {
		b := []byte{byte(v), byte(v >> 8)}
		crc := ^ref.CRC(append([]byte{0, 0x0e, 0, 1, 0xc0, 1, 2, 0x1f, 2}, b...))
		if byte(crc) >= 0xfd && byte(crc>>8) >= 0xfd {
			l = append(l, msgPart("escaped check sum", b, ref.Message(b, 100)))
			break
		}
	}
	return l
}

func checkStream(c *engine.C, wire []byte, want []string, cuts []int, what string) {
	s := newSink()
	from := 0
	for _, k := range append(append([]int{}, cuts...), len(wire)) {
		if k < from {
			k = from
		}
		s.feed(wire[from:k])
		from = k
	}
	same(c, s.events, want, "%s, pieces end at %v", what, cuts)
	if s.errs != 0 {
		c.Failf("%s, pieces end at %v: %d errors reported", what, cuts, s.errs)
	}
	s.intact(c)
	c.Steps(len(cuts) + 1)
}

func init() {
	engine.Register("C18", nil, func(t engine.Tier) []*engine.Scenario {
		var out []*engine.Scenario
		ps := parts()
		cut := func(name string, count int, ncuts int) {
			out = append(out, &engine.Scenario{Name: name, What: fmt.Sprintf("every sequence of %d stream parts (%d kinds of message and keep-alive) delivered with every choice of %d cut positions", count, len(ps), ncuts), Run: func(c *engine.C) {
				var wire []byte
				var want []string
				what := ""
				for k := 0; k < count; k++ {
					p := choose(c, ps)
					wire = append(wire, p.wire...)
					want = append(want, p.ev...)
					what += p.name + " "
				}
				first := 0
				if ncuts > 1 {
					first = c.Choose(len(wire) + 1)
				}
				c.Logf("%s: % x", what, wire)
				// the remaining cuts are enumerated here
				n := len(wire)
				cuts := make([]int, ncuts)
				var rec func(i, from int)
				rec = func(i, from int) {
					if i == ncuts {
						checkStream(c, wire, want, cuts, what)
						return
					}
					for k := from; k <= n; k++ {
						cuts[i] = k
						rec(i+1, k)
					}
				}
				if ncuts > 1 {
					cuts[0] = first
					rec(1, first)
				} else {
					rec(0, 0)
				}
				c.State(engine.Hash(wire)*131 + uint64(first))
			}})
		}
		cut("one-part-3-cuts", 1, 3)
		cut("two-parts-2-cuts", 2, 2)
		cut("three-parts-1-cut", 3, 1)
		if t.Thorough {
			cut("one-part-4-cuts", 1, 4)
			cut("two-parts-3-cuts", 2, 3)
			cut("four-parts-1-cut", 4, 1)
		}
		out = append(out, &engine.Scenario{Name: "pieces", What: "every sequence of three parts in pieces of each fixed size 1..80", Run: func(c *engine.C) {
			var wire []byte
			var want []string
			for k := 0; k < 3; k++ {
				p := choose(c, ps)
				wire = append(wire, p.wire...)
				want = append(want, p.ev...)
			}
			for size := 1; size <= 80 && size <= len(wire); size++ {
				var cuts []int
				for k := size; k < len(wire); k += size {
					cuts = append(cuts, k)
				}
				checkStream(c, wire, want, cuts, fmt.Sprintf("pieces of %d", size))
				c.State(engine.Hash(wire)*131 + uint64(size))
			}
		}})
		out = append(out, &engine.Scenario{Name: "all-compositions", N: 1 << 14, What: "an escaped single-frame message in every composition of its bytes into pieces", At: func(c *engine.C, i uint64) {
			wire := ref.Frame(0xc0, []byte{0xfe, 1})[:]
			wire = wire[:len(wire)]
			// 16 or 17 bytes: cuts at positions 1..14 and one at the end
			var cuts []int
			for k := 0; k < 14; k++ {
				if i>>uint(k)&1 == 1 {
					cuts = append(cuts, k+1)
				}
			}
			for _, extra := range []bool{false, true} {
				cs := cuts
				if extra {
					cs = append(append([]int{}, cuts...), len(wire)-1)
				}
				checkStream(c, wire, []string{"msg fe01"}, cs, "composition")
			}
			c.State(i)
		}})
		big := fill(2500, 3)
		out = append(out, &engine.Scenario{Name: "big", N: uint64(len(wireOf(big)) + 1), What: "a message of several full frames between two others, cut at every position and around it", At: func(c *engine.C, i uint64) {
			wire := append(append(ref.Frame(0xc0, []byte{9}), wireOf(big)...), ref.Frame(0xc0, []byte{8})...)
			want := []string{"msg 09", fmt.Sprintf("msg %x", big), "msg 08"}
			p := int(i) + 16
			checkStream(c, wire, want, []int{p}, "big")
			checkStream(c, wire, want, []int{p, p + 1}, "big")
			checkStream(c, wire, want, []int{p / 2, p, p, p + 7}, "big")
			c.State(i)
		}})
		// any peer's frames: payloads up to what fits into 1290 bytes on the wire
		after := ref.Frame(0xc0, []byte{8})
		out = append(out, &engine.Scenario{Name: "sizes", N: 1278 * 4, What: "single-frame messages of every size that fits a frame of 1290 bytes x 4 fillings, each whole, in two pieces and byte by byte, with a message behind", At: func(c *engine.C, i uint64) {
			b := fill(int(i/4), []int{0, 1, 3, 5}[i%4])
			wire := ref.Message(b, 4096)
			if len(wire) > 1290 {
				return
			}
			want := []string{fmt.Sprintf("msg %x", b), "msg 08"}
			wire = append(wire, after...)
			checkStream(c, wire, want, nil, "sizes")
			checkStream(c, wire, want, []int{len(wire) / 2}, "sizes")
			if i%16 == 0 {
				var cuts []int
				for k := 1; k < len(wire); k++ {
					cuts = append(cuts, k)
				}
				checkStream(c, wire, want, cuts, "sizes")
			}
			c.State(i)
		}})
		uneven := []int{0, 1, 1000, 1024, 1025, 1277}
		frames := t.Pick(4, 5)
		out = append(out, &engine.Scenario{Name: "uneven", What: fmt.Sprintf("messages of up to %d frames of every combination of %d sizes up to 1277, with or without keep-alives between, in pieces of 1, 700, 4096 bytes and whole", frames, len(uneven)), Run: func(c *engine.C) {
			n := 1 + c.Choose(frames)
			var wire, all []byte
			var want []string
			alive := c.Bool()
			for k := 0; k < n; k++ {
				part := fill(choose(c, uneven), 0)
				for x := range part {
					part[x] = byte(k*50+x) & 0x7f
				}
				all = append(all, part...)
				var flags byte
				if k == 0 {
					flags |= ref.FlagFirst
				}
				if k == n-1 {
					flags |= ref.FlagLast
				}
				if len(part) == 0 {
					flags |= 0x20
				}
				wire = append(wire, ref.Frame(flags, part)...)
				if alive && k < n-1 {
					wire = append(wire, ref.KeepAliveReq()...)
					want = append(want, "req")
				}
			}
			want = append(want, fmt.Sprintf("msg %x", all), "msg 08")
			wire = append(wire, after...)
			for _, size := range []int{1, 700, 4096, 1 << 20} {
				var cuts []int
				for k := size; k < len(wire); k += size {
					cuts = append(cuts, k)
				}
				checkStream(c, wire, want, cuts, fmt.Sprintf("pieces of %d", size))
			}
			c.State(engine.Hash(wire))
		}})
		out = append(out, &engine.Scenario{Name: "long", N: 6, What: "one message of up to 2000 frames (2 MiB), and streams of up to 5000 messages through one decoder, in pieces of 65536 bytes and of 1000", At: func(c *engine.C, i uint64) {
			var wire []byte
			var want []string
			if i < 3 {
				b := fill([]int{65537, 1 << 20, 2 << 20}[i], 3)
				wire = append(ref.Message(b, 1024), after...)
				want = []string{fmt.Sprintf("msg %x", b), "msg 08"}
			} else {
				for k := 0; k < []int{300, 1000, 5000}[i-3]; k++ {
					b := fill(k%1500, 3)
					wire = append(wire, ref.Message(b, 1024)...)
					want = append(want, fmt.Sprintf("msg %x", b))
					if k%7 == 0 {
						wire = append(wire, ref.KeepAliveReq()...)
						want = append(want, "req")
					}
				}
			}
			for _, size := range []int{65536, 1000} {
				var cuts []int
				for k := size; k < len(wire); k += size {
					cuts = append(cuts, k)
				}
				checkStream(c, wire, want, cuts, fmt.Sprintf("pieces of %d", size))
			}
			c.State(i)
		}})
		return out
	})
}

// ---- C19 ----

// accepted lists the messages of the well-formed single frames of a stream:
// from the last start byte to the end byte, or from the previous end byte if
// the start byte is missing.
func accepted(stream []byte) map[string]bool {
	m := map[string]bool{}
	var cur []byte
	for _, x := range stream {
		switch x {
		case ref.BOF:
			cur = nil
		case ref.EOF:
			// unescape
			var content []byte
			esc := false
			for _, y := range cur {
				if esc {
					content = append(content, y^0x20)
					esc = false
				} else if y == ref.CE {
					esc = true
				} else {
					content = append(content, y)
				}
			}
			cur = nil
			if esc || len(content) < 11 {
				continue
			}
			body := content[:len(content)-2]
			crc := ^ref.CRC(body)
			if byte(crc) == content[len(body)] && byte(crc>>8) == content[len(body)+1] {
				m[fmt.Sprintf("msg %x", body[9:])] = true
			}
		default:
			cur = append(cur, x)
		}
	}
	return m
}

// damaged decodes before + mangled + after, where mangled is what became of
// the frame of message mid, and checks what is delivered.
func damaged(c *engine.C, before, mangled, after []byte, wantBefore, wantAfter []string, mid string, what string, a ...interface{}) {
	stream := append(append(append([]byte{}, before...), mangled...), after...)
	s := newSink()
	s.feed(stream[:len(before)])
	if s.errs != 0 {
		c.Failf("error reported before the damage")
	}
	s.feed(stream[len(before) : len(before)+len(mangled)])
	s.feed(stream[len(before)+len(mangled):])
	c.Step()
	ev := s.events
	desc := func() string {
		return fmt.Sprintf("%s\nstream % x\nmangled % x", fmt.Sprintf(what, a...), clipb(stream), clipb(mangled))
	}
	if len(ev) < len(wantBefore)+len(wantAfter) {
		c.Failf("neighbours lost: %v; %s", ev, desc())
	}
	for i, w := range wantBefore {
		if ev[i] != w {
			c.Failf("message in front of the damage: %s instead of %s; %s", ev[i], w, desc())
		}
	}
	for i, w := range wantAfter {
		if ev[len(ev)-len(wantAfter)+i] != w {
			c.Failf("message behind the damage: %v, missing %s; %s", ev, w, desc())
		}
	}
	delivered := false
	var acc map[string]bool
	for _, e := range ev[len(wantBefore) : len(ev)-len(wantAfter)] {
		if e == mid {
			if delivered {
				c.Failf("message delivered twice; %s", desc())
			}
			delivered = true
			continue
		}
		if acc == nil {
			acc = accepted(stream)
		}
		if !acc[e] {
			c.Failf("message %s was never sent; %s", e, desc())
		}
	}
	visible := false
	for _, x := range mangled {
		if x != ref.BOF {
			visible = true
		}
	}
	if !delivered && visible && s.errs == 0 {
		c.Failf("damage not reported; %s", desc())
	}
	c.StateString(fmt.Sprint(ev, s.errs))
}

func init() {
	engine.Register("C19", []string{"damage that turns frames into other frames with a valid check sum is exempt, decided by a reference decoder"}, func(t engine.Tier) []*engine.Scenario {
		var out []*engine.Scenario
		m1, m3 := []byte{0x11, 0xff}, []byte{0x33}
		before, after := ref.Frame(0xc0, m1), ref.Frame(0xc0, m3)
		w1, w3 := []string{"msg 11ff"}, []string{"msg 33"}
		mids := [][]byte{{0x22, 0x80, 0x41}, {0xfe, 0xfd, 0x01, 0xff}, nil}
		type mid struct {
			name string
			wire []byte
			ev   string
		}
		var ms []mid
		for _, m := range mids {
			ms = append(ms, mid{fmt.Sprintf("%x", m), ref.Frame(0xc0, m), fmt.Sprintf("msg %x", m)})
		}
		ms = append(ms, mid{"req", ref.KeepAliveReq(), "req"}, mid{"resp", ref.KeepAliveResp(), "resp"})
		for mi := range ms {
			m := ms[mi]
			n := len(m.wire)
			out = append(out, &engine.Scenario{Name: "substitute-" + m.name, N: uint64(n) * 256, What: "every byte of the middle frame replaced by every byte", At: func(c *engine.C, i uint64) {
				b := append([]byte{}, m.wire...)
				b[i/256] = byte(i)
				damaged(c, before, b, after, w1, w3, m.ev, "byte %d replaced by %#x", i/256, byte(i))
			}})
			out = append(out, &engine.Scenario{Name: "insert-" + m.name, N: uint64(n+1) * 256, What: "every byte inserted at every position", At: func(c *engine.C, i uint64) {
				p := i / 256
				b := append(append(append([]byte{}, m.wire[:p]...), byte(i)), m.wire[p:]...)
				damaged(c, before, b, after, w1, w3, m.ev, "%#x inserted at %d", byte(i), p)
			}})
			out = append(out, &engine.Scenario{Name: "lose-" + m.name, N: uint64(n * n), What: "every range of bytes lost or sent twice", At: func(c *engine.C, i uint64) {
				p, q := int(i)/n, int(i)%n+1
				if p < q {
					b := append(append([]byte{}, m.wire[:p]...), m.wire[q:]...)
					damaged(c, before, b, after, w1, w3, m.ev, "bytes %d..%d lost", p, q)
					if p > 0 && q < n {
						b = append(append([]byte{}, m.wire[:q]...), m.wire[p:]...)
						damaged(c, before, b, after, w1, w3, m.ev, "bytes %d..%d doubled", p, q)
					}
				}
			}})
			vals := []byte{0xfe, 0xff, 0xfd, 0x00, 0xdd, 0x01, 0xf8}
			if t.Thorough {
				vals = append(vals, 0xde, 0xdf, 0x0e, 0x80, 0xc0, 0xd8, 0x22, 0x40)
			}
			k := len(vals)
			out = append(out, &engine.Scenario{Name: "substitute2-" + m.name, N: uint64(n * n * k * k), What: fmt.Sprintf("every two bytes replaced by any of %d values", k), At: func(c *engine.C, i uint64) {
				d := digits(i, uint64(k), 2)
				i /= uint64(k * k)
				p, q := int(i)/n, int(i)%n
				if p >= q {
					return
				}
				b := append([]byte{}, m.wire...)
				b[p], b[q] = vals[d[0]], vals[d[1]]
				damaged(c, before, b, after, w1, w3, m.ev, "bytes %d, %d replaced by %#x, %#x", p, q, b[p], b[q])
			}})
			out = append(out, &engine.Scenario{Name: "bits-" + m.name, N: uint64(8*n) * 24, What: "every burst of up to 24 flipped bits", At: func(c *engine.C, i uint64) {
				p, l := int(i)/24, int(i)%24+1
				for _, inner := range []uint32{0, 0xffffff, 0x555555, 0x924924} {
					b := append([]byte{}, m.wire...)
					for j := 0; j < l && p+j < 8*n; j++ {
						if j == 0 || j == l-1 || inner>>uint(j)&1 == 1 {
							b[(p+j)/8] ^= 1 << uint((p+j)%8)
						}
					}
					damaged(c, before, b, after, w1, w3, m.ev, "burst of %d bits at %d", l, p)
				}
			}})
		}
		var contents [][]byte
		for _, m := range mids {
			contents = append(contents, append([]byte{0, 0x0e, 0, 1, 0xc0, 1, 2, 0x1f, 2}, m...))
		}
		contents = append(contents, []byte{0, 0x0e, 1, 1}, []byte{0, 0x0e, 2, 1})
		out = append(out, &engine.Scenario{Name: "check sums", N: uint64(len(contents)) << 16, What: "frames with every value of the check sum: the right one only is accepted", At: func(c *engine.C, i uint64) {
			h := contents[i>>16]
			sum := uint16(i)
			wire := append([]byte{ref.BOF}, ref.Escape(append(append([]byte{}, h...), byte(sum), byte(sum>>8)))...)
			wire = append(wire, ref.EOF)
			s := newSink()
			s.feed(wire)
			want := []string(nil)
			if sum == ^ref.CRC(h) {
				want = []string{ms[i>>16].ev}
			}
			same(c, s.events, want, "content % x with check sum %#04x", h, sum)
			c.Assert((s.errs == 0) == (want != nil), "content % x with check sum %#04x: %d errors told", h, sum, s.errs)
			c.Step()
		}})
		out = append(out, &engine.Scenario{Name: "in passing", N: 5 * 200, What: "a damaged frame (wrong check sum, cut at its start, cut at its end, an escape at the end, empty) at every place of 200 messages received in one piece and in pieces of 1000 bytes", At: func(c *engine.C, i uint64) {
			hurt := int(i % 200)
			for _, size := range []int{0, 1000} {
				var wire []byte
				var want []string
				for k := 0; k < 200; k++ {
					m := fill(k*3, 3)
					f := ref.Frame(0xc0, m)
					if k == hurt {
						switch i / 200 {
						case 0:
							f[2] ^= 4
						case 1:
							f = f[3:]
						case 2:
							f = f[:len(f)-1]
						case 3:
							f = append(f[:len(f)-1], 0xfd, 0xff)
						default:
							f = []byte{0xfe, 0xff}
						}
					} else {
						want = append(want, fmt.Sprintf("msg %x", m))
					}
					wire = append(wire, f...)
				}
				s := newSink()
				if size == 0 {
					s.feed(wire)
				}
				for size > 0 && len(wire) > 0 {
					n := size
					if n > len(wire) {
						n = len(wire)
					}
					s.feed(wire[:n])
					wire = wire[n:]
				}
				same(c, s.events, want, "frame %d of 200 damaged (%d), pieces of %d", hurt, i/200, size)
				c.Assert(s.errs > 0 || hurt == 199 && i/200 == 2, "frame %d of 200 damaged (%d): not told", hurt, i/200)
				c.Step()
			}
			c.State(i)
		}})
		sizes := []int{1000, 1270, 1300, 4000, 16384, 32768, 60000, 65530, 65536, 70000, 131072, 1 << 20}
		out = append(out, &engine.Scenario{Name: "large", N: uint64(len(sizes)) * 7, What: "frames of 1000 bytes to 1 MiB with one bit changed at seven places, between two others: never delivered, the others are", At: func(c *engine.C, i uint64) {
			n, place := sizes[i/7], int(i%7)
			f := ref.Frame(0xc0, fill(n, 3))
			// flip a bit of a byte that is and stays an ordinary one
			at := []int{1, 3, 12, len(f) / 3, len(f) / 2, len(f) - 40, len(f) - 2}[place]
			for f[at] >= 0xf8 || f[at]^4 >= 0xf8 || f[at-1] == 0xfd {
				at--
			}
			f[at] ^= 4
			s := newSink()
			m := fill(20, 3)
			s.feed(ref.Frame(0xc0, m))
			s.feed(f)
			s.feed(ref.Frame(0xc0, m))
			c.Step()
			c.Assert(len(s.raw) == 2, "a frame of %d bytes with byte %d changed: %d messages delivered instead of 2", n, at, len(s.raw))
			for _, b := range s.raw {
				sameBytes(c, b, m, "a frame of %d bytes with byte %d changed", n, at)
			}
			c.Assert(s.errs > 0, "a frame of %d bytes with byte %d changed: not told", n, at)
			c.State(i)
		}})
		alpha := []byte{0xfe, 0xff, 0xfd, 0x00, 0xdd, 0x0e, 0x01, 0xf8}
		depth := t.Pick(6, 8)
		out = append(out, &engine.Scenario{Name: "noise", N: pow(8, depth), What: fmt.Sprintf("every stream of %d bytes over %x between two frames: no panic, both neighbours delivered", depth, alpha), At: func(c *engine.C, i uint64) {
			b := make([]byte, depth)
			for j, d := range digits(i, 8, depth) {
				b[j] = alpha[d]
			}
			damaged(c, before, b, after, w1, w3, "none", "noise")
		}})
		heads := [][]byte{{0, 0x0e, 0, 1, 0xc0, 1, 2, 0x1f, 2, 0x99}, {0, 0x0e, 0, 1, 0x80, 1, 2}, {0, 0x0e, 0}, {0, 0x0e, 1, 1}, {1, 0x0e, 0, 1, 0xc0, 1, 2, 0x1f, 2}, {0, 0x0e, 7, 1}, {}, {0}, {0, 0x0e}}
		out = append(out, &engine.Scenario{Name: "valid-crc", What: "well-framed contents that are cut at every length or carry every value in every header byte, then a frame", Run: func(c *engine.C) {
			h := append([]byte{}, choose(c, heads)...)
			h = h[:c.Choose(len(h)+1)]
			if len(h) > 0 {
				p := c.Choose(len(h))
				h[p] = byte(c.Choose(256))
			}
			frame := ref.Raw(h)
			s := newSink()
			s.feed(frame)
			s.feed(after)
			if len(s.events) == 0 || s.events[len(s.events)-1] != "msg 33" {
				c.Failf("frame behind content % x lost: %v", h, s.events)
			}
			c.Step()
			c.StateString(fmt.Sprint(s.events, s.errs))
		}})
		return out
	})
}

// ---- C20 ----

type frameKind struct {
	name    string
	content func(p []byte) []byte // unescaped content; nil: raw bytes in wire
	flags   byte
	data    bool // Ember+ data with the given flags
	ev      string
}

func frameKinds() []frameKind {
	hdr := func(h ...byte) func([]byte) []byte {
		return func(p []byte) []byte { return append(append([]byte{}, h...), p...) }
	}
	var l []frameKind
	names := []string{"middle", "empty-middle", "last", "empty-last", "first", "empty-first", "single", "empty-single"}
	for i, f := range []byte{0, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0} {
		l = append(l, frameKind{names[i], hdr(0, 0x0e, 0, 1, f, 1, 2, 0x1f, 2), f, true, ""})
	}
	l = append(l,
		frameKind{"request", func(p []byte) []byte { return []byte{0, 0x0e, 1, 1} }, 0, false, "req"},
		frameKind{"response", func(p []byte) []byte { return []byte{0, 0x0e, 2, 1} }, 0, false, "resp"},
		frameKind{"slot", hdr(1, 0x0e, 0, 1, 0x40, 1, 2, 0x1f, 2), 0, false, ""},
		frameKind{"type", hdr(0, 0x0d, 0, 1, 0xc0, 1, 2, 0x1f, 2), 0, false, ""},
		frameKind{"command", hdr(0, 0x0e, 3, 1, 0xc0, 1, 2, 0x1f, 2), 0, false, ""},
		frameKind{"dtd", hdr(0, 0x0e, 0, 1, 0xc0, 2, 2, 0x1f, 2), 0, false, ""},
		frameKind{"dtd-first", hdr(0, 0x0e, 0, 1, 0x80, 0, 2, 0x1f, 2), 0, false, ""},
		frameKind{"header-length", hdr(0, 0x0e, 0, 1, 0x40, 1, 3, 0x1f, 2), 0, false, ""},
		frameKind{"header-length-0", hdr(0, 0x0e, 0, 1, 0x00, 1, 0, 0x1f, 2), 0, false, ""},
		frameKind{"short", func(p []byte) []byte { return []byte{0, 0x0e, 0, 1, 0x40, 1, 2, 0x1f} }, 0, false, ""},
		frameKind{"tiny", func(p []byte) []byte { return []byte{0, 0x0e} }, 0, false, ""},
		frameKind{"crc", nil, 0x40, false, ""},
		frameKind{"cut", nil, 0x40, false, ""})
	return l
}

func init() {
	engine.Register("C20", []string{"bits of the flags byte other than first, last and empty are zero", "the version byte and the DTD version are not judged"}, func(t engine.Tier) []*engine.Scenario {
		kinds := frameKinds()
		run := func(name string, depth int, pick []int, direct bool) *engine.Scenario {
			return &engine.Scenario{Name: name, What: fmt.Sprintf("every sequence of %d frames over %d kinds", depth, len(pick)), Run: func(c *engine.C) {
				s := newSink()
				var model ref.Reassembler
				var want []string
				cut := false
				for step := 0; step < depth; step++ {
					k := kinds[pick[c.Choose(len(pick))]]
					payload := []byte{byte(0x30 + step), 0xff}
					var content []byte
					if k.content != nil {
						content = k.content(payload)
					}
					refused := false
					switch {
					case k.ev != "":
						want = append(want, k.ev)
					case k.data:
						var msg []byte
						var deliver bool
						msg, deliver, refused = model.Feed(k.flags, payload)
						if deliver {
							want = append(want, fmt.Sprintf("msg %x", msg))
						}
					default:
						refused = true
					}
					if refused {
						model.Reject()
					}
					errs := s.errs
					if k.name == "cut" {
						// a frame without its end is reported when the next one starts
						b := ref.Frame(0, payload)
						s.feed(b[:len(b)-1])
						if cut && s.errs == errs {
							c.Failf("frame %d: no error for the unterminated frame in front of it", step)
						}
						cut = true
						same(c, s.events, want, "after frame %d (%s)", step, k.name)
						continue
					}
					if direct && content != nil {
						crc := ^ref.CRC(content)
						err := s.dec.HandleFrame(append(append([]byte{}, content...), byte(crc), byte(crc>>8)))
						if err != nil {
							s.errs++
						}
					} else if content != nil {
						s.feed(ref.Raw(content))
					} else {
						b := ref.Frame(k.flags, payload)
						b[6] ^= 0x10
						s.feed(b)
					}
					c.Step()
					c.Logf("%s: delivered %v, %d errors", k.name, s.events, s.errs)
					if (refused || cut && !direct) != (s.errs > errs) {
						c.Failf("frame %d (%s): %d errors reported, expected refusal: %v", step, k.name, s.errs-errs, refused)
					}
					cut = false
					same(c, s.events, want, "after frame %d (%s)", step, k.name)
				}
				s.intact(c)
				c.StateString(fmt.Sprint(want, s.errs))
			}}
		}
		all := make([]int, len(kinds))
		for i := range all {
			all[i] = i
		}
		whole := all[:len(all)-1]
		var out []*engine.Scenario
		out = append(out, run("all-kinds", t.Pick(4, 5), all, false))
		out = append(out, run("all-kinds-direct", t.Pick(4, 5), whole, true))
		out = append(out, run("data-kinds", t.Pick(6, 7), []int{0, 1, 2, 3, 4, 5, 6, 7}, false))
		out = append(out, run("core-kinds", t.Pick(7, 8), []int{0, 2, 4, 6, 19, 20}, false))
		out = append(out, &engine.Scenario{Name: "header-bytes", N: 9 * 256, What: "every value of every header byte of a single frame, and of a continuation frame", At: func(c *engine.C, i uint64) {
			p, v := int(i/256), byte(i)
			for _, flags := range []byte{0xc0, 0} {
				s := newSink()
				s.feed(ref.Frame(0x80, []byte{1}))
				content := []byte{0, 0x0e, 0, 1, flags, 1, 2, 0x1f, 2, 7}
				content[p] = v
				if p == 4 {
					if v&0x1f != 0 {
						continue
					}
					flags = v
				}
				s.feed(ref.Raw(content))
				want := []string{}
				bad := false
				switch p {
				case 0:
					bad = v != 0
				case 1:
					bad = v != 0x0e
				case 2:
					bad = v > 2
				case 5:
					bad = v != 1
				case 6:
					bad = v != 2
				}
				if p == 2 && v == 1 {
					want = []string{"req"}
				}
				if p == 2 && v == 2 {
					want = []string{"resp"}
				}
				data := !bad && !(p == 2 && v > 0)
				var m ref.Reassembler
				m.Feed(0x80, []byte{1})
				if bad {
					m.Reject()
				}
				if data {
					msg, del, _ := m.Feed(flags, []byte{7})
					if del {
						want = append(want, fmt.Sprintf("msg %x", msg))
					}
				}
				if p == 3 && v != 1 || p > 6 {
					// other versions: accepted or refused, but not half
					if s.errs > 0 {
						continue
					}
				}
				if bad != (s.errs > 0) {
					c.Failf("header byte %d = %#x: %d errors", p, v, s.errs)
				}
				s.feed(ref.Frame(0x40, []byte{9}))
				if msg, del, _ := m.Feed(0x40, []byte{9}); del {
					want = append(want, fmt.Sprintf("msg %x", msg))
				}
				same(c, s.events, want, "header byte %d = %#x, flags %#x", p, v, flags)
				c.Steps(2)
				c.StateString(fmt.Sprint(want))
			}
		}})
		out = append(out, &engine.Scenario{Name: "many", N: 40, What: "messages of 1..40 frames, complete, headless, tailless and interrupted, three in a row", At: func(c *engine.C, i uint64) {
			n := int(i) + 1
			for skip := -1; skip <= n; skip++ {
				s := newSink()
				var m ref.Reassembler
				var want []string
				for rep := 0; rep < 3; rep++ {
					for k := 0; k < n; k++ {
						f := byte(0)
						if k == 0 {
							f |= 0x80
						}
						if k == n-1 {
							f |= 0x40
						}
						if k == skip && rep == 1 {
							continue
						}
						p := []byte{byte(rep), byte(k), 0xfe}
						s.feed(ref.Frame(f, p))
						msg, del, _ := m.Feed(f, p)
						if del {
							want = append(want, fmt.Sprintf("msg %x", msg))
						}
						c.Step()
					}
				}
				same(c, s.events, want, "%d frames, frame %d of the second message missing", n, skip)
				s.intact(c)
			}
			c.State(i)
		}})
		out = append(out, &engine.Scenario{Name: "large in pieces", What: "messages of 2 to 70 full frames with one frame in the middle or at an end that is damaged, or something refused (unknown command, another slot, a short frame, another DTD, a keep-alive request) in between: nothing of it is delivered when a frame was refused, the messages around it are", Run: func(c *engine.C) {
			n := choose(c, []int{2, 3, 4, 5, 6, 9, 17, 33, 64, 65, 70})
			at := choose(c, []int{0, 1, n / 2, n - 2, n - 1})
			what := c.Choose(7)
			if at < 0 || at >= n {
				return
			}
			s := newSink()
			message := func(tag byte, hurt bool) []byte {
				var whole []byte
				for k := 0; k < n; k++ {
					f := byte(0)
					if k == 0 {
						f |= 0x80
					}
					if k == n-1 {
						f |= 0x40
					}
					p := append([]byte{tag, byte(k)}, fill(1000, 3)...)
					whole = append(whole, p...)
					frame := ref.Frame(f, p)
					if hurt && k == at {
						if what == 0 {
							frame[len(frame)/2] ^= 1
						} else {
							s.feed(ref.Raw([][]byte{{0, 0x0e, 9, 1}, {1, 0x0e, 0, 1, 0, 1, 2, 0x1f, 2}, {0, 0x0e, 0, 1}, {0, 0x0e, 0, 1, 0, 9, 2, 0x1f, 2}, {0, 0x0e, 1, 1}, {0, 0x0e, 2, 1}}[what-1]))
						}
					}
					s.feed(frame)
					c.Step()
				}
				return whole
			}
			first := message(1, false)
			hurt := message(2, true)
			last := message(3, false)
			want := [][]byte{first, last}
			// in front of a message, or between its frames without being refused, nothing is lost
			if what >= 5 || what > 0 && at == 0 {
				want = [][]byte{first, hurt, last}
			}
			var got [][]byte
			for i, e := range s.events {
				if e != "req" && e != "resp" {
					got = append(got, s.raw[i])
				}
			}
			c.Assert(len(got) == len(want), "%d frames, refused at %d (%d): %d messages delivered instead of %d", n, at, what, len(got), len(want))
			for i := range want {
				sameBytes(c, got[i], want[i], "%d frames, refused at %d (%d): message %d", n, at, what, i)
			}
			s.intact(c)
			c.StateString(fmt.Sprint(n, at, what))
		}})
		out = append(out, &engine.Scenario{Name: "very many", N: 13 * 8, What: "messages of 127 to 65537 frames, and of 4 MiB, complete, without one frame near the start, the end or a power of two, three in a row", At: func(c *engine.C, i uint64) {
			n := []int{127, 128, 129, 255, 256, 257, 300, 511, 512, 1025, 4097, 65537, 4096}[i/8]
			skip := []int{-1, 0, 1, n / 2, n - 2, n - 1, 127, 255}[i%8]
			if skip >= n {
				return
			}
			s := newSink()
			var m ref.Reassembler
			delivered := 0
			for rep := 0; rep < 3; rep++ {
				for k := 0; k < n; k++ {
					f := byte(0)
					if k == 0 {
						f |= 0x80
					}
					if k == n-1 {
						f |= 0x40
					}
					if k == skip && rep == 1 {
						continue
					}
					p := []byte{byte(rep), byte(k), byte(k >> 8)}
					if i/8 == 12 {
						p = append(p, fill(1021, 3)...)
					}
					s.feed(ref.Frame(f, p))
					msg, del, _ := m.Feed(f, p)
					c.Step()
					if !del {
						continue
					}
					c.Assert(len(s.raw) == delivered+1, "%d frames, frame %d of the second message missing: message %d was not delivered", n, skip, delivered)
					sameBytes(c, s.raw[delivered], msg, "%d frames, frame %d of the second message missing: message %d", n, skip, delivered)
					delivered++
				}
				c.Assert(len(s.raw) == delivered, "%d frames, frame %d of the second message missing: %d messages delivered of %d", n, skip, len(s.raw), delivered)
			}
			s.intact(c)
			c.State(i)
		}})
		return out
	})
}
