// Package engine is a small stateless model checker: it enumerates every
// execution of nondeterministic programs ("scenarios") that run the real
// library, spread over worker processes.
//
// A scenario is either a choice program (Run), whose calls of Choose and
// Deviate span a tree of executions all of which are run, or an indexed
// family (N, At) all of whose members are run. Deviate is a choice whose
// alternatives to 0 cost one unit of the scenario's deviation bound; bounds
// are explored in increasing order.
package engine

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Scenario is one bounded space of executions.
type Scenario struct {
	Name  string
	Bound int    // deviation bound of a choice program
	N     uint64 // number of cases of an indexed family
	Run   func(c *C)
	At    func(c *C, i uint64)
	// Serial scenarios are never run next to other work in the same process
	// (each worker is single threaded, so this only serialises across workers).
	Serial bool
	// What says what the scenario enumerates, for the evidence file.
	What string
}

// Tier carries the tier-dependent bounds.
type Tier struct {
	Thorough bool
}

// Pick returns q in the quick tier and t in the thorough tier.
func (t Tier) Pick(q, th int) int {
	if t.Thorough {
		return th
	}
	return q
}

type builder func(Tier) []*Scenario

type propertyEntry struct {
	build       builder
	assumptions []string
}

var registry = map[string]*propertyEntry{}

// Register adds scenarios for a property.
func Register(id string, assumptions []string, b func(Tier) []*Scenario) {
	if e := registry[id]; e != nil {
		old := e.build
		e.build = func(t Tier) []*Scenario { return append(old(t), b(t)...) }
		e.assumptions = append(e.assumptions, assumptions...)
		return
	}
	registry[id] = &propertyEntry{b, assumptions}
}

func scenarios(id string, t Tier) []*Scenario {
	e := registry[id]
	if e == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		os.Exit(2)
	}
	list := e.build(t)
	seen := map[string]bool{}
	for _, s := range list {
		if seen[s.Name] {
			panic("duplicate scenario " + s.Name)
		}
		seen[s.Name] = true
	}
	if only := os.Getenv("MC_ONLY"); only != "" {
		var l []*Scenario
		for _, s := range list {
			if strings.Contains(s.Name, only) {
				l = append(l, s)
			}
		}
		list = l
	}
	return list
}

// Failure is a property violation in one execution.
type Failure struct {
	Key string // identifies the failing input or call site, for known findings
	Msg string
}

type divergence struct{ msg string }

// C is the context of one execution.
type C struct {
	prefix  []int32
	choices []int32
	sizes   []int32
	dev     []bool
	devUsed int
	bound   int

	prevSizes []int32 // sizes seen on the previous execution, for divergence detection
	prevLen   int

	steps   uint64
	states  map[uint64]struct{}
	tracing bool
	trace   []string
	slot    *slot
	known   func(key string) bool
	knownAt map[string]string
	cleanup []func()
	Data    map[string]interface{} // per worker scratch, survives executions
}

const maxStates = 3 << 20

// Choose returns a value in [0,n); all of them are explored.
func (c *C) Choose(n int) int { return c.choose(n, false) }

// Deviate returns a value in [0,n); values other than 0 cost one deviation.
func (c *C) Deviate(n int) int { return c.choose(n, true) }

// Bool is Choose(2) as a boolean.
func (c *C) Bool() bool { return c.choose(2, false) == 1 }

func (c *C) choose(n int, dev bool) int {
	if n <= 1 {
		return 0
	}
	if dev && c.devUsed >= c.bound {
		return 0
	}
	pos := len(c.choices)
	v := int32(0)
	if pos < len(c.prefix) {
		v = c.prefix[pos]
		if int(v) >= n {
			panic(divergence{fmt.Sprintf("choice %d of %d at position %d", v, n, pos)})
		}
		if pos < c.prevLen && c.prevSizes[pos] != int32(n) {
			panic(divergence{fmt.Sprintf("%d alternatives instead of %d at position %d", n, c.prevSizes[pos], pos)})
		}
	}
	c.choices = append(c.choices, v)
	c.sizes = append(c.sizes, int32(n))
	c.dev = append(c.dev, dev)
	if c.slot != nil {
		c.slot.choice(pos, v)
	}
	if dev && v != 0 {
		c.devUsed++
	}
	return int(v)
}

// DevLeft tells how many deviations may still be made.
func (c *C) DevLeft() int { return c.bound - c.devUsed }

// Step counts one compared transition.
func (c *C) Step() { c.steps++ }

// Steps counts n compared transitions.
func (c *C) Steps(n int) { c.steps += uint64(n) }

// State records an observed abstract state.
func (c *C) State(h uint64) {
	if len(c.states) < maxStates {
		c.states[h] = struct{}{}
	}
}

// StateBytes records the hash of b as a state.
func (c *C) StateBytes(b []byte) { c.State(Hash(b)) }

// StateString records the hash of s as a state.
func (c *C) StateString(s string) { c.State(HashString(s)) }

// Hash is FNV-1a.
func Hash(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h ^= uint64(x)
		h *= 1099511628211
	}
	return h
}

// HashString is FNV-1a.
func HashString(b string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(b); i++ {
		h ^= uint64(b[i])
		h *= 1099511628211
	}
	return h
}

// Logf adds to the trace of the execution, if it is being traced.
func (c *C) Logf(format string, a ...interface{}) {
	if c.tracing {
		if len(c.trace) < 3000 {
			c.trace = append(c.trace, fmt.Sprintf(format, a...))
		}
	}
}

// Tracing tells whether Logf has any effect.
func (c *C) Tracing() bool { return c.tracing }

// Defer registers f to run after the execution, whatever its outcome.
func (c *C) Defer(f func()) { c.cleanup = append(c.cleanup, f) }

// Failf reports a violation and ends the execution.
func (c *C) Failf(format string, a ...interface{}) {
	panic(&Failure{Msg: fmt.Sprintf(format, a...)})
}

// Fail reports a violation identified by key and ends the execution, unless
// the key is a listed known finding, in which case it is noted and the
// execution goes on.
func (c *C) Fail(key, format string, a ...interface{}) {
	if c.known != nil && c.known(key) {
		if c.knownAt == nil {
			c.knownAt = map[string]string{}
		}
		if _, ok := c.knownAt[key]; !ok {
			c.knownAt[key] = fmt.Sprintf(format, a...)
		}
		return
	}
	panic(&Failure{Key: key, Msg: fmt.Sprintf(format, a...)})
}

// Assert reports a violation unless ok.
func (c *C) Assert(ok bool, format string, a ...interface{}) {
	if !ok {
		c.Failf(format, a...)
	}
}

func (c *C) begin(prefix []int32, bound int) {
	c.prevSizes, c.sizes = c.sizes, c.prevSizes[:0]
	c.prefix = prefix
	c.choices = c.choices[:0]
	c.dev = c.dev[:0]
	c.devUsed = 0
	c.bound = bound
	c.trace = nil
	if c.slot != nil {
		c.slot.begin()
	}
}

// run executes one case; it returns the failure, if any, and whether the
// execution diverged from its prefix.
func (c *C) run(f func()) (fail *Failure, diverged string) {
	defer func() {
		r := recover()
		for i := len(c.cleanup) - 1; i >= 0; i-- {
			c.cleanup[i]()
		}
		c.cleanup = c.cleanup[:0]
		switch x := r.(type) {
		case nil:
		case *Failure:
			fail = x
		case divergence:
			diverged = x.msg
		default:
			st := string(debug.Stack())
			fail = &Failure{Msg: fmt.Sprintf("panic: %v\n%s", r, trimStack(st))}
		}
		if fail == nil && diverged == "" && len(c.choices) < len(c.prefix) {
			diverged = "execution ended inside its prefix"
		}
	}()
	f()
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines) && len(out) < 24; i++ {
		l := lines[i]
		if strings.Contains(l, "runtime/panic.go") || strings.Contains(l, "debug.Stack") || strings.Contains(l, "debug/stack.go") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// work is a part of a scenario's space.
type work struct {
	Scenario int     `json:"s"`
	Bound    int     `json:"b"`
	Prefix   []int32 `json:"p,omitempty"`
	Lo       uint64  `json:"lo,omitempty"`
	Hi       uint64  `json:"hi,omitempty"`
}

type result struct {
	Execs    uint64            `json:"e"`
	Steps    uint64            `json:"t"`
	Rest     []work            `json:"r,omitempty"`
	Fail     *Failure          `json:"f,omitempty"`
	FailCase *caseID           `json:"c,omitempty"`
	Trace    []string          `json:"tr,omitempty"`
	Flaky    []string          `json:"fl,omitempty"`
	Known    map[string]string `json:"k,omitempty"`
	Diverged []string          `json:"d,omitempty"`
	Last     *caseID           `json:"l,omitempty"`
	MaxDepth int               `json:"m,omitempty"`
}

type caseID struct {
	Scenario string  `json:"scenario"`
	Bound    int     `json:"bound"`
	Index    uint64  `json:"index"`
	Choices  []int32 `json:"choices,omitempty"`
}

func (c *C) exec(s *Scenario, w work, prefix []int32, i uint64) (*Failure, string) {
	c.begin(prefix, w.Bound)
	if s.Run != nil {
		return c.run(func() { s.Run(c) })
	}
	if c.slot != nil {
		c.slot.index(i)
	}
	return c.run(func() { s.At(c, i) })
}

// explore works on w until done or the time slice is over.
func (c *C) explore(list []*Scenario, w work, slice time.Duration) *result {
	s := list[w.Scenario]
	res := &result{}
	steps0 := c.steps
	end := time.Now().Add(slice)
	finish := func() *result {
		res.Steps = c.steps - steps0
		res.Known = c.knownAt
		c.knownAt = nil
		return res
	}
	if c.slot != nil {
		c.slot.work(w)
	}
	confirm := func(f *Failure, id *caseID) bool {
		// The only nondeterminism left in the code under test is the iteration
		// order of maps: a failure is believed if it comes back.
		again, k := 0, 0
		lastDiv := ""
		for ; k < 60 && again < 3; k++ {
			c.prevLen = 0
			f2, div := c.exec(s, w, append([]int32(nil), id.Choices...), id.Index)
			if div != "" {
				lastDiv = div
			} else if f2 != nil {
				again++
			}
		}
		if again == 0 {
			res.Flaky = append(res.Flaky, fmt.Sprintf("%s: %s (not seen again in %d runs of the same case; %s)", s.Name, firstLine(f.Msg), k, lastDiv))
			return false
		}
		c.tracing = true
		c.prevLen = 0
		for k := 0; k < 60; k++ {
			f2, _ := c.exec(s, w, append([]int32(nil), id.Choices...), id.Index)
			if f2 != nil {
				break
			}
		}
		res.Trace = c.trace
		c.tracing = false
		return true
	}
	if s.Run == nil {
		for i := w.Lo; i < w.Hi; i++ {
			f, _ := c.exec(s, w, nil, i)
			res.Execs++
			if f != nil {
				id := &caseID{Scenario: s.Name, Index: i}
				if confirm(f, id) {
					res.Fail, res.FailCase = f, id
					return finish()
				}
			}
			if i&15 == 15 && time.Now().After(end) {
				if i+1 < w.Hi {
					// split the rest so that other workers can help
					rest := w.Hi - (i + 1)
					k := uint64(1)
					if rest > 64 {
						k = 8
					}
					for j := uint64(0); j < k; j++ {
						lo := i + 1 + rest*j/k
						hi := i + 1 + rest*(j+1)/k
						if lo < hi {
							res.Rest = append(res.Rest, work{Scenario: w.Scenario, Lo: lo, Hi: hi})
						}
					}
				}
				break
			}
		}
		return finish()
	}
	prefix := append([]int32(nil), w.Prefix...)
	lo := len(prefix)
	c.prevLen = 0
	for {
		f, div := c.exec(s, w, prefix, 0)
		res.Execs++
		if len(c.choices) > res.MaxDepth {
			res.MaxDepth = len(c.choices)
		}
		if div != "" {
			res.Diverged = append(res.Diverged, s.Name+": "+div)
			if len(res.Diverged) > 20 {
				return finish()
			}
			// continue with the next sibling of the prefix
			if len(prefix) <= lo {
				return finish()
			}
			c.choices = append(c.choices[:0], prefix...)
			for len(c.sizes) < len(c.choices) {
				c.sizes = append(c.sizes, c.prevSizes[len(c.sizes)])
			}
			for len(c.dev) < len(c.choices) {
				c.dev = append(c.dev, false)
			}
		}
		if f != nil {
			id := &caseID{Scenario: s.Name, Bound: w.Bound, Choices: append([]int32(nil), c.choices...)}
			sizes := append([]int32(nil), c.sizes...)
			dev := append([]bool(nil), c.dev...)
			ok := confirm(f, id)
			c.choices = append(c.choices[:0], id.Choices...)
			c.sizes = append(c.sizes[:0], sizes...)
			c.dev = append(c.dev[:0], dev...)
			if ok {
				res.Fail, res.FailCase = f, id
				return finish()
			}
			if len(res.Flaky) > 20 {
				return finish()
			}
		}
		// backtrack
		i := len(c.choices) - 1
		for i >= lo && c.choices[i]+1 >= c.sizes[i] {
			i--
		}
		if i < lo {
			return finish()
		}
		if time.Now().After(end) {
			for j := lo; j <= i; j++ {
				for v := c.choices[j] + 1; v < c.sizes[j]; v++ {
					p := append(append([]int32(nil), c.choices[:j]...), v)
					res.Rest = append(res.Rest, work{Scenario: w.Scenario, Bound: w.Bound, Prefix: p})
				}
			}
			return finish()
		}
		prefix = append(prefix[:0], c.choices[:i+1]...)
		prefix[i]++
		c.prevLen = i + 1
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func sortedKeys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
