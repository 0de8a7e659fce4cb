package engine

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	slice       = 250 * time.Millisecond
	hangAfter   = 30 * time.Second
	maxHeap     = 3 << 30
	exitMemory  = 67
	aloneReruns = 3
	dataRace    = "data race"
)

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Case     caseID   `json:"case"`
	Kind     string   `json:"kind"` // failure, crash, hang
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
}

// Main is the entry point of a check binary.
func Main() {
	mode := "check"
	args := os.Args[1:]
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		mode, args = args[0], args[1:]
	}
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	prop := fs.String("property", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	root := fs.String("root", ".", "directory of MANIFEST.json")
	slotPath := fs.String("slot", "", "worker: shared slot file")
	statesPath := fs.String("states", "", "worker: where to leave the state hashes")
	budget := fs.Duration("budget", 0, "time after which exploration stops")
	nw := fs.Int("workers", 0, "worker processes")
	file := fs.String("file", "", "replay: file")
	fs.Parse(args)
	if *tier != "quick" && *tier != "thorough" {
		fmt.Fprintln(os.Stderr, "bad tier", *tier)
		os.Exit(2)
	}
	switch mode {
	case "worker":
		workerMain(*prop, *tier, *slotPath, *statesPath, *root)
	case "alone":
		aloneMain(*file, *root)
	case "replay":
		os.Exit(replayMain(*file, *root))
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, s := range scenarios(id, Tier{*tier == "thorough"}) {
				fmt.Println(id, s.Name, s.What)
			}
		}
	case "check":
		if *budget == 0 {
			*budget = 150 * time.Second
			if *tier == "thorough" {
				*budget = 780 * time.Second
			}
		}
		if *nw == 0 {
			*nw = runtime.NumCPU()
			if *nw > 8 {
				*nw = 8
			}
		}
		os.Exit(checkMain(*prop, *tier, *root, *budget, *nw))
	default:
		fmt.Fprintln(os.Stderr, "bad mode", mode)
		os.Exit(2)
	}
}

// ---- worker ----

func limits() {
	runtime.GOMAXPROCS(2)
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(200)
	go func() {
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(200 * time.Millisecond)
			metrics.Read(sample)
			if sample[0].Value.Uint64() > maxHeap {
				os.Exit(exitMemory)
			}
		}
	}()
}

func newC(prop, root string) *C {
	kf := loadKnown(root, prop)
	c := &C{states: map[uint64]struct{}{}, Data: map[string]interface{}{}}
	c.known = func(k string) bool { return k != "" && kf[k] }
	return c
}

func workerMain(prop, tier, slotPath, statesPath, root string) {
	limits()
	out := os.NewFile(3, "results")
	list := scenarios(prop, Tier{tier == "thorough"})
	c := newC(prop, root)
	sl, err := openSlot(slotPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c.slot = sl
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	enc := json.NewEncoder(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			break
		}
		var w work
		if err := json.Unmarshal(line, &w); err != nil {
			os.Exit(2)
		}
		if err := enc.Encode(c.explore(list, w, slice)); err != nil {
			os.Exit(2)
		}
	}
	buf := make([]byte, 8*len(c.states))
	i := 0
	for h := range c.states {
		binary.LittleEndian.PutUint64(buf[8*i:], h)
		i++
	}
	os.WriteFile(statesPath, buf, 0o600)
	os.Exit(0)
}

func findScenario(list []*Scenario, name string) *Scenario {
	for _, s := range list {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// aloneMain runs one case; exit 0 if it passed, 1 with the failure on stdout.
func aloneMain(file, root string) {
	limits()
	r, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	list := scenarios(r.Property, Tier{r.Tier == "thorough"})
	s := findScenario(list, r.Case.Scenario)
	if s == nil {
		fmt.Println("no such scenario:", r.Case.Scenario)
		os.Exit(3)
	}
	c := newC(r.Property, root)
	c.tracing = true
	tries := 1
	if r.Kind == "failure" {
		tries = 60 // map order may have to be right
	}
	var f *Failure
	var div string
	for k := 0; k < tries && f == nil; k++ {
		c.prevLen = 0
		f, div = c.exec(s, work{Bound: r.Case.Bound}, r.Case.Choices, r.Case.Index)
	}
	for _, l := range c.trace {
		fmt.Println("  ", l)
	}
	if div != "" {
		fmt.Println("diverged:", div)
		os.Exit(3)
	}
	if f != nil {
		fmt.Println("FAIL:", f.Key, f.Msg)
		os.Exit(1)
	}
	fmt.Println("passed")
	os.Exit(0)
}

func readReplay(file string) (*replayFile, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var r replayFile
	return &r, json.Unmarshal(b, &r)
}

func replayMain(file, root string) int {
	r, err := readReplay(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("replaying %s %s: %s\n", r.Property, r.Case.Scenario, r.Message)
	bad, out := runAlone(file, root)
	fmt.Print(out)
	if bad {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	return 0
}

// workerExe is the program that runs cases: the one built for that next to
// this one (with the race detector, which this process does without), or this
// one.
func workerExe() string {
	self, _ := os.Executable()
	if _, err := os.Stat(self + "-worker"); err == nil {
		return self + "-worker"
	}
	return self
}

func workerEnv() []string {
	return append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
}

// runAlone runs a replay file in a fresh process; it returns whether the case
// failed there (failure, crash, hang or memory).
func runAlone(file, root string) (bool, string) {
	cmd := exec.Command(workerExe(), "alone", "-file", file, "-root", root)
	cmd.Env = workerEnv()
	var sb strings.Builder
	var mu sync.Mutex
	w := writerFunc(func(p []byte) (int, error) {
		mu.Lock()
		defer mu.Unlock()
		if sb.Len() < 64<<10 {
			sb.Write(p)
		}
		return len(p), nil
	})
	cmd.Stdout, cmd.Stderr = w, w
	setpgid(cmd)
	if err := cmd.Start(); err != nil {
		return false, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		mu.Lock()
		defer mu.Unlock()
		if err == nil {
			return false, sb.String()
		}
		code := cmd.ProcessState.ExitCode()
		if code == 3 {
			return false, sb.String()
		}
		return true, sb.String() + fmt.Sprintf("(exit %d)\n", code)
	case <-time.After(hangAfter):
		cmd.Process.Kill()
		<-done
		mu.Lock()
		defer mu.Unlock()
		return true, sb.String() + fmt.Sprintf("(no result after %v)\n", hangAfter)
	}
}

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

func setpgid(cmd *exec.Cmd) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
}

// ---- known findings ----

func loadKnown(root, prop string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.jsonl"))
	if err != nil {
		return m
	}
	for _, line := range strings.Split(string(b), "\n") {
		var k struct{ Status, Property, Key string }
		if json.Unmarshal([]byte(line), &k) == nil && k.Status == "known" && k.Property == prop {
			m[k.Key] = true
		}
	}
	return m
}

// ---- coordinator ----

type stage struct {
	pending int // work items queued or running
	queue   []work
	bound   int
	spent   time.Duration
	execs   uint64
	done    bool
	depth   int
	perB    []uint64
	touched time.Time
}

type worker struct {
	id     int
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	slot   *slot
	states string
	stderr *tail
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 96<<10 {
		t.buf = append(t.buf[:32<<10:32<<10], t.buf[len(t.buf)-(32<<10):]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.buf)
}

func checkMain(prop, tier, root string, budget time.Duration, nw int) int {
	start := time.Now()
	list := scenarios(prop, Tier{tier == "thorough"})
	scratch, err := os.MkdirTemp("", "mc-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; os.RemoveAll(scratch); os.Exit(2) }()

	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stages := make([]*stage, len(list))
	enqueue := func(i int) {
		s, st := list[i], stages[i]
		if s.Run != nil {
			st.queue = append(st.queue, work{Scenario: i, Bound: st.bound})
			st.pending++
			return
		}
		k := uint64(16 * nw)
		if k > s.N {
			k = s.N
		}
		if s.N == 0 {
			st.done = true
			return
		}
		if s.Serial {
			k = 1
		}
		for j := k; j > 0; j-- {
			st.queue = append(st.queue, work{Scenario: i, Lo: s.N/k*(j-1) + min(s.N%k, j-1), Hi: s.N/k*j + min(s.N%k, j)})
			st.pending++
		}
	}
	for i := range list {
		stages[i] = &stage{perB: make([]uint64, list[i].Bound+1)}
		enqueue(i)
	}
	var (
		execs, steps uint64
		flaky, divs  []string
		knownHits    = map[string]string{}
		violation    *replayFile
		timeout      bool
		stop         bool
		errText      string
		crashes      int
		stateFiles   []string
	)
	serialBusy := false
	// next returns work, nil when everything is done or stopped.
	next := func() *work {
		mu.Lock()
		defer mu.Unlock()
		for {
			if stop {
				return nil
			}
			if time.Since(start) > budget {
				for _, st := range stages {
					if !st.done {
						timeout = true
					}
				}
				stop = true
				cond.Broadcast()
				return nil
			}
			best := -1
			alldone := true
			for i, st := range stages {
				if !st.done {
					alldone = false
				}
				if len(st.queue) == 0 || list[i].Serial && serialBusy {
					continue
				}
				if best < 0 || st.spent < stages[best].spent {
					best = i
				}
			}
			if alldone {
				stop = true
				cond.Broadcast()
				return nil
			}
			if best >= 0 {
				st := stages[best]
				w := st.queue[len(st.queue)-1]
				st.queue = st.queue[:len(st.queue)-1]
				if list[best].Serial {
					serialBusy = true
				}
				return &w
			}
			cond.Wait()
		}
	}
	account := func(w work, r *result, took time.Duration) {
		mu.Lock()
		defer mu.Unlock()
		st := stages[w.Scenario]
		if list[w.Scenario].Serial {
			serialBusy = false
		}
		st.spent += took
		if r != nil {
			execs += r.Execs
			steps += r.Steps
			st.execs += r.Execs
			if r.MaxDepth > st.depth {
				st.depth = r.MaxDepth
			}
			if w.Bound < len(st.perB) {
				st.perB[w.Bound] += r.Execs
			}
			for k, v := range r.Known {
				knownHits[k] = v
			}
			if len(flaky) < 50 {
				flaky = append(flaky, r.Flaky...)
			}
			if len(divs) < 50 {
				divs = append(divs, r.Diverged...)
			}
			for i := len(r.Rest) - 1; i >= 0; i-- {
				st.queue = append(st.queue, r.Rest[i])
				st.pending++
			}
			if r.Fail != nil && violation == nil {
				violation = &replayFile{Property: prop, Tier: tier, Case: *r.FailCase, Kind: "failure", Message: r.Fail.Msg, Trace: r.Trace}
				stop = true
			}
		}
		st.pending--
		if st.pending == 0 && !stop {
			if list[w.Scenario].Run != nil && st.bound < list[w.Scenario].Bound {
				st.bound++
				enqueue(w.Scenario)
			} else {
				st.done = true
			}
		}
		cond.Broadcast()
	}
	spawn := func(id, gen int) (*worker, error) {
		wk := &worker{id: id, stderr: &tail{}}
		slotPath := filepath.Join(scratch, fmt.Sprintf("slot%d.%d", id, gen))
		wk.states = filepath.Join(scratch, fmt.Sprintf("states%d.%d", id, gen))
		sl, err := openSlot(slotPath)
		if err != nil {
			return nil, err
		}
		wk.slot = sl
		absroot, _ := filepath.Abs(root)
		wk.cmd = exec.Command(workerExe(), "worker", "-property", prop, "-tier", tier, "-slot", slotPath, "-states", wk.states, "-root", absroot)
		wk.cmd.Dir = scratch
		pr, pw, err := os.Pipe()
		if err != nil {
			return nil, err
		}
		wk.cmd.ExtraFiles = []*os.File{pw}
		wk.cmd.Stderr = wk.stderr
		wk.in, err = wk.cmd.StdinPipe()
		if err != nil {
			return nil, err
		}
		setpgid(wk.cmd)
		wk.cmd.Env = workerEnv()
		if err := wk.cmd.Start(); err != nil {
			return nil, err
		}
		pw.Close()
		wk.out = bufio.NewReaderSize(pr, 1<<20)
		return wk, nil
	}
	var wg sync.WaitGroup
	// crashed deals with a worker that died or hung on a case.
	crashed := func(w work, id *caseID, kind, text string) {
		if id == nil {
			return
		}
		mu.Lock()
		already := violation != nil
		crashes++
		many := crashes > 6
		mu.Unlock()
		if already || many {
			return
		}
		rf := &replayFile{Property: prop, Tier: tier, Case: *id, Kind: kind, Message: text}
		b, _ := json.Marshal(rf)
		tmp, err := os.CreateTemp(scratch, "crash")
		if err != nil {
			return
		}
		tmp.Write(b)
		tmp.Close()
		// a failure has to come back each time the case runs alone; the race
		// detector may overlook a race, but does not report what is none
		out, times, need := "", 0, aloneReruns
		for k := 0; k < aloneReruns && (times == k || kind == dataRace); k++ {
			bad, o := runAlone(tmp.Name(), root)
			if bad {
				times++
				out = o
			}
			if kind == dataRace && bad {
				need = 1
				break
			}
		}
		if times < need {
			mu.Lock()
			flaky = append(flaky, fmt.Sprintf("%s (%s) not reproduced alone: %s", id.Scenario, kind, firstLine(text)))
			mu.Unlock()
			return
		}
		rf.Message = text + "\n--- alone ---\n" + out
		mu.Lock()
		if violation == nil {
			violation = rf
			stop = true
		}
		cond.Broadcast()
		mu.Unlock()
	}
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			runtime.LockOSThread() // Pdeathsig follows the thread
			var wk *worker
			gen := 0
			for {
				w := next()
				if w == nil {
					break
				}
				if wk == nil {
					gen++
					var err error
					wk, err = spawn(id, gen)
					if err != nil {
						mu.Lock()
						errText = err.Error()
						stop = true
						mu.Unlock()
						account(*w, nil, 0)
						break
					}
				}
				t0 := time.Now()
				b, _ := json.Marshal(w)
				wk.in.Write(append(b, '\n'))
				type answer struct {
					line []byte
					err  error
				}
				ch := make(chan answer, 1)
				go func(r *bufio.Reader) {
					l, err := r.ReadBytes('\n')
					ch <- answer{l, err}
				}(wk.out)
				last := wk.slot.progress()
				lastAt := time.Now()
				var a answer
				hung := false
			wait:
				for {
					select {
					case a = <-ch:
						break wait
					case <-time.After(500 * time.Millisecond):
						p := wk.slot.progress()
						if p != last {
							last, lastAt = p, time.Now()
						} else if time.Since(lastAt) > hangAfter {
							hung = true
							break wait
						}
					}
				}
				if hung {
					idc := wk.slot.read(list)
					wk.cmd.Process.Signal(syscall.SIGQUIT)
					time.Sleep(time.Second)
					wk.cmd.Process.Kill()
					wk.cmd.Wait()
					crashed(*w, idc, "hang", fmt.Sprintf("no progress for %v\n%s", hangAfter, clip(wk.stderr.String())))
					account(*w, &result{Flaky: []string{"hang: part of " + list[w.Scenario].Name + " unexplored"}}, time.Since(t0))
					wk = nil
					continue
				}
				var r result
				if a.err != nil || json.Unmarshal(a.line, &r) != nil {
					wk.cmd.Wait()
					idc := wk.slot.read(list)
					code := wk.cmd.ProcessState.ExitCode()
					kind := fmt.Sprintf("crash (exit %d)", code)
					if code == exitMemory {
						kind = "memory limit exceeded"
					} else if code == 66 {
						kind = dataRace
					}
					crashed(*w, idc, kind, kind+"\n"+clip(wk.stderr.String()))
					account(*w, &result{Flaky: []string{kind + ": part of " + list[w.Scenario].Name + " unexplored"}}, time.Since(t0))
					wk = nil
					continue
				}
				account(*w, &r, time.Since(t0))
			}
			if wk != nil {
				wk.in.Close()
				done := make(chan struct{})
				go func() { wk.cmd.Wait(); close(done) }()
				select {
				case <-done:
				case <-time.After(20 * time.Second):
					wk.cmd.Process.Kill()
					<-done
				}
				mu.Lock()
				stateFiles = append(stateFiles, wk.states)
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	if errText != "" {
		fmt.Fprintln(os.Stderr, errText)
		return 2
	}
	// merge states
	states := map[uint64]struct{}{}
	for _, f := range stateFiles {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for i := 0; i+8 <= len(b); i += 8 {
			states[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
		}
	}
	// samples: a traced execution of each scenario (in this process; only
	// scenarios that completed without trouble are re-run)
	var samples []interface{}
	var perScenario []interface{}
	for i, s := range list {
		st := stages[i]
		e := map[string]interface{}{"scenario": s.Name, "executions": st.execs, "complete": st.done}
		if s.What != "" {
			e["enumerates"] = s.What
		}
		if s.Run != nil {
			e["max_depth"] = st.depth
			if s.Bound > 0 {
				cb := st.bound - 1
				if st.done {
					cb = s.Bound
				}
				e["deviation_bound"] = s.Bound
				e["deviation_bound_completed"] = cb
				e["executions_per_bound"] = st.perB
			}
		}
		perScenario = append(perScenario, e)
	}
	if violation == nil {
		for i, s := range list {
			if stages[i].execs == 0 || len(samples) >= 12 {
				continue
			}
			id := caseID{Scenario: s.Name, Bound: s.Bound, Index: s.N / 2}
			rf := replayFile{Property: prop, Tier: tier, Case: id}
			b, _ := json.Marshal(rf)
			p := filepath.Join(scratch, fmt.Sprintf("sample%d", i))
			os.WriteFile(p, b, 0o600)
			_, out := runAlone(p, root)
			if len(out) > 1500 {
				out = out[:1500] + "..."
			}
			samples = append(samples, map[string]interface{}{"scenario": s.Name, "case": id, "trace": strings.Split(strings.TrimSpace(out), "\n")})
		}
	} else {
		samples = append(samples, violation)
	}
	var names []string
	for k := range knownHits {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k, firstLine(knownHits[k]))
	}
	viol := 0
	if violation != nil {
		viol = 1
	}
	complete := violation == nil && !timeout && len(flaky) == 0 && len(divs) == 0
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   steps,
		"traces_validated_against_impl": execs,
		"samples":                       samples,
		"exhaustive":                    complete,
		"scenarios":                     perScenario,
		"rule":                          "every execution runs the real code; states are distinct observations (hashed), transitions are library steps compared with the reference model",
		"workers":                       nw,
	}
	if timeout {
		cov["stopped_by_time_budget_s"] = budget.Seconds()
	}
	if len(flaky) > 0 {
		cov["unreproducible"] = flaky
	}
	if len(divs) > 0 {
		cov["diverged"] = divs
	}
	if len(names) > 0 {
		cov["known_findings_hit"] = names
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": viol,
		"assumptions": append([]string{"enumeration is complete only within the bounds of each scenario"}, registry[prop].assumptions...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d executions, %d transitions, %d states, %.1fs, exhaustive=%v\n", prop, tier, execs, steps, len(states), time.Since(start).Seconds(), complete)
	for _, f := range flaky {
		fmt.Println("unreproducible:", f)
	}
	for _, f := range divs {
		fmt.Println("diverged:", f)
	}
	if violation != nil {
		b, _ := json.MarshalIndent(violation, "", " ")
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", prop, Hash(b)))
		os.WriteFile(p, b, 0o644)
		fmt.Printf("scenario %s case %+v\n", violation.Case.Scenario, violation.Case)
		fmt.Println(clip(violation.Message))
		for _, l := range violation.Trace {
			fmt.Println("   ", l)
		}
		if abs, err := filepath.Abs(p); err == nil {
			p = abs
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		return 1
	}
	return 0
}

func clip(s string) string {
	if len(s) > 6000 {
		return s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}
