package ref

import (
	"errors"
	"fmt"
)

const (
	BOF = 0xfe
	EOF = 0xff
	CE  = 0xfd

	FlagFirst = 0x80
	FlagLast  = 0x40
	FlagEmpty = 0x20
)

// CRC is CRC-16/X-25 before the final inversion, bit by bit.
func CRC(b []byte) uint16 {
	crc := uint16(0xffff)
	for _, x := range b {
		crc ^= uint16(x)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0x8408
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

// Escape escapes the reserved bytes.
func Escape(b []byte) []byte {
	var out []byte
	for _, x := range b {
		if x >= 0xf8 {
			out = append(out, CE, x^0x20)
		} else {
			out = append(out, x)
		}
	}
	return out
}

// Raw builds a frame around unescaped content (header and payload).
func Raw(content []byte) []byte {
	c := ^CRC(content)
	full := append(append([]byte{}, content...), byte(c), byte(c>>8))
	out := []byte{BOF}
	out = append(out, Escape(full)...)
	return append(out, EOF)
}

// Frame builds an Ember+ data frame.
func Frame(flags byte, payload []byte) []byte {
	return Raw(append([]byte{0, 0x0e, 0, 1, flags, 1, 2, 0x1f, 2}, payload...))
}

// Message splits payload into frames of at most max payload bytes.
func Message(payload []byte, max int) []byte {
	if len(payload) <= max {
		return Frame(FlagFirst|FlagLast, payload)
	}
	var out []byte
	for i := 0; i < len(payload); i += max {
		j := i + max
		f := byte(0)
		if i == 0 {
			f = FlagFirst
		}
		if j >= len(payload) {
			j = len(payload)
			f = FlagLast
		}
		out = append(out, Frame(f, payload[i:j])...)
	}
	return out
}

// KeepAliveReq and KeepAliveResp are the keep-alive frames.
func KeepAliveReq() []byte  { return Raw([]byte{0, 0x0e, 1, 1}) }
func KeepAliveResp() []byte { return Raw([]byte{0, 0x0e, 2, 1}) }

// ParsedFrame is a well-formed frame.
type ParsedFrame struct {
	Cmd     byte // 0 data, 1 keep-alive request, 2 keep-alive response
	Flags   byte
	Payload []byte
	Size    int // bytes on the wire
}

// ParseFrame strictly parses one whole frame.
func ParseFrame(b []byte) (*ParsedFrame, error) {
	if len(b) < 2 || b[0] != BOF || b[len(b)-1] != EOF {
		return nil, errors.New("frame is not delimited")
	}
	var c []byte
	in := b[1 : len(b)-1]
	for i := 0; i < len(in); i++ {
		x := in[i]
		if x == CE {
			i++
			if i >= len(in) || in[i]^0x20 < 0xf8 {
				return nil, errors.New("bad escape")
			}
			x = in[i] ^ 0x20
		} else if x >= 0xf8 {
			return nil, fmt.Errorf("raw reserved byte %#x", x)
		}
		c = append(c, x)
	}
	if len(c) < 6 {
		return nil, errors.New("frame too short")
	}
	body := c[:len(c)-2]
	crc := ^CRC(body)
	if c[len(c)-2] != byte(crc) || c[len(c)-1] != byte(crc>>8) {
		return nil, errors.New("bad CRC")
	}
	if body[0] != 0 || body[1] != 0x0e || body[3] != 1 {
		return nil, fmt.Errorf("bad header % x", body[:4])
	}
	p := &ParsedFrame{Cmd: body[2], Size: len(b)}
	switch p.Cmd {
	case 1, 2:
		if len(body) != 4 {
			return nil, errors.New("keep-alive with payload")
		}
	case 0:
		if len(body) < 9 || body[5] != 1 || body[6] != 2 || body[7] != 0x1f || body[8] != 2 {
			return nil, errors.New("bad Ember+ header")
		}
		p.Flags = body[4]
		p.Payload = body[9:]
	default:
		return nil, fmt.Errorf("command %d", p.Cmd)
	}
	return p, nil
}

// SplitFrames cuts a byte stream that consists of frames only; rest is an
// unfinished frame at the end.
func SplitFrames(b []byte) (frames [][]byte, rest []byte, err error) {
	for len(b) > 0 {
		if b[0] != BOF {
			return frames, b, fmt.Errorf("byte %#x between frames", b[0])
		}
		i := 1
		for i < len(b) && b[i] != EOF {
			if b[i] == BOF {
				return frames, b, errors.New("start byte inside a frame")
			}
			i++
		}
		if i == len(b) {
			return frames, b, nil
		}
		frames = append(frames, b[:i+1])
		b = b[i+1:]
	}
	return frames, nil, nil
}

// Reassembler is the reference of message reassembly over whole frames.
type Reassembler struct {
	buf  []byte
	open bool
}

// Feed takes the frame's flags and payload; it returns a message or nil, and
// whether the frame is refused.
func (r *Reassembler) Feed(flags byte, payload []byte) (msg []byte, deliver, refused bool) {
	if flags&FlagFirst != 0 {
		r.buf, r.open = nil, true
	} else if !r.open {
		return nil, false, true
	}
	if flags&FlagEmpty == 0 {
		r.buf = append(r.buf, payload...)
	}
	if flags&FlagLast != 0 {
		r.open = false
		return append([]byte{}, r.buf...), true, false
	}
	return nil, false, false
}

// Reject notes that a frame was refused.
func (r *Reassembler) Reject() { r.open, r.buf = false, nil }
