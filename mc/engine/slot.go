package engine

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// slot is shared memory in which a worker records the case it is running, so
// that the coordinator can name it when the worker dies or stops.
type slot struct {
	mem []byte
}

const slotSize = 1 << 18

const maxSlotChoices = (slotSize - 64) / 2

func openSlot(path string) (*slot, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &slot{mem}, nil
}

func (s *slot) counter() *uint64 { return (*uint64)(unsafe.Pointer(&s.mem[0])) }

func (s *slot) begin() {
	atomic.AddUint64(s.counter(), 1)
	binary.LittleEndian.PutUint32(s.mem[24:], 0)
}

func (s *slot) progress() uint64 { return atomic.LoadUint64(s.counter()) }

func (s *slot) work(w work) {
	binary.LittleEndian.PutUint32(s.mem[8:], uint32(w.Scenario))
	binary.LittleEndian.PutUint32(s.mem[12:], uint32(w.Bound))
}

func (s *slot) index(i uint64) { binary.LittleEndian.PutUint64(s.mem[16:], i) }

func (s *slot) choice(pos int, v int32) {
	if pos < maxSlotChoices {
		binary.LittleEndian.PutUint16(s.mem[64+2*pos:], uint16(v))
		binary.LittleEndian.PutUint32(s.mem[24:], uint32(pos+1))
	}
}

func (s *slot) read(list []*Scenario) *caseID {
	sc := int(binary.LittleEndian.Uint32(s.mem[8:]))
	if sc >= len(list) {
		return nil
	}
	id := &caseID{Scenario: list[sc].Name, Bound: int(binary.LittleEndian.Uint32(s.mem[12:]))}
	if list[sc].Run == nil {
		id.Index = binary.LittleEndian.Uint64(s.mem[16:])
		return id
	}
	n := int(binary.LittleEndian.Uint32(s.mem[24:]))
	for i := 0; i < n && i < maxSlotChoices; i++ {
		id.Choices = append(id.Choices, int32(binary.LittleEndian.Uint16(s.mem[64+2*i:])))
	}
	return id
}
