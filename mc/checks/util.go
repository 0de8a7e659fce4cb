// Package checks holds the scenarios of the sequential properties.
package checks

import (
	"bytes"
	"fmt"
	"io"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"

	"verifmc/engine"
)

// written drains a writer.
func written(w *asn1.ASNWriter) []byte {
	out := make([]byte, w.Len())
	n := 0
	for n < len(out) {
		// in two pieces
		part := out[n:]
		if n == 0 {
			part = part[:(len(out)+1)/2]
		}
		k, err := w.Read(part)
		if err != nil || k == 0 {
			break
		}
		n += k
	}
	return out[:n]
}

// ok ends the execution if err is set.
func ok(c *engine.C, err errors.Error, what string, a ...interface{}) {
	if err != nil {
		c.Failf("%s: %v", fmt.Sprintf(what, a...), err)
	}
}

func same(c *engine.C, got, want interface{}, what string, a ...interface{}) {
	g, w := fmt.Sprint(got), fmt.Sprint(want)
	if g != w {
		c.Failf("%s:\n got %s\nwant %s", fmt.Sprintf(what, a...), g, w)
	}
}

func sameBytes(c *engine.C, got, want []byte, what string, a ...interface{}) {
	if !bytes.Equal(got, want) {
		c.Failf("%s:\n got % x\nwant % x", fmt.Sprintf(what, a...), clipb(got), clipb(want))
	}
}

func clipb(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

func choose[T any](c *engine.C, list []T) T { return list[c.Choose(len(list))] }

// digits splits i into digits of the given base, least significant first.
func digits(i uint64, base uint64, n int) []int {
	out := make([]int, n)
	for k := range out {
		out[k] = int(i % base)
		i /= base
	}
	return out
}

func pow(b uint64, n int) uint64 {
	r := uint64(1)
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

var _ = io.EOF
