package vrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Entry is one key of a map being ranged over.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Load returns the value if the key is still there.
func (e Entry[K, V]) Load() (V, bool) { v, ok := e.m[e.K]; return v, ok }

// Has tells if the key is still there.
func (e Entry[K, V]) Has() bool { _, ok := e.m[e.K]; return ok }

// Entries lists the keys of a map in a deterministic order, or the reverse.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	var l []Entry[K, V]
	for k := range m {
		l = append(l, Entry[K, V]{k, m})
	}
	if len(l) < 2 {
		return l
	}
	sort.Slice(l, func(i, j int) bool { return less(l[i].K, l[j].K) })
	if reversed() {
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

func reversed() bool {
	t := current()
	if t == nil || t.dead() {
		return false
	}
	t.request("range over map", false, nil, nil, func(t *Thread) {
		t.n = 0
		if t.s.DevFrom {
			t.n = t.s.C.Deviate(2)
		}
		if t.n > 0 {
			t.s.Logf("** map iterated backwards")
		}
	})
	return t.n == 1
}

func less(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() == y.Kind() {
		switch x.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return x.Int() < y.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return x.Uint() < y.Uint()
		case reflect.String:
			return x.String() < y.String()
		case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
			return noteOf(a) < noteOf(b)
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// Note remembers the order in which keys came up.
func Note(k interface{}) {
	if active != nil {
		noteOf(k)
	}
}

//go:norace
func noteOf(k interface{}) int {
	s := active
	if s == nil {
		return 0
	}
	for i := 0; i < len(s.notes); i++ {
		if s.notes[i] == k {
			return i
		}
	}
	n := make([]interface{}, len(s.notes)+1)
	for i := range s.notes {
		n[i] = s.notes[i]
	}
	n[len(s.notes)] = k
	s.notes = n
	return len(n) - 1
}
