package sim

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/32bitkid/mpeg/simtick"
)

var mainArgs []string

// Scenario is a family of runs for a property.
type Scenario struct {
	Name   string
	Weight int
	Run    func(*Ctx)
}

// Property is what one check decides.
type Property struct {
	ID        string
	Scenarios []Scenario
	Quick     int // runs
	Thorough  int // runs, at most
	Fresh     int // every other worker starts a new process after this many runs, if not 0
	Rule      string
	Real      []string
	Stub      []string
	Assume    []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

// runOne executes one run of a property from a tape.
func runOne(prop string, t *Tape, tracing bool) (*Ctx, *Violation) {
	p := properties[prop]
	c := newCtx(prop, t)
	c.tracing = tracing
	v := execute(c, func(c *Ctx) {
		w := make([]int, len(p.Scenarios))
		for i, s := range p.Scenarios {
			w[i] = s.Weight
		}
		s := p.Scenarios[c.Pick(w...)]
		c.Ev("scenario " + s.Name)
		c.probes["runs: "+s.Name]++
		s.Run(c)
	})
	return c, v
}

// ---- replay files

type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	Class    string   `json:"violation_class"`
	Message  string   `json:"message"`
	After    []int    `json:"after_runs,omitempty"` // runs of the same seed that come first in the process, for violations that depend on global state
	Tape     []uint32 `json:"tape"`
	Original int      `json:"original_tape_length"`
	Tries    int      `json:"minimisation_runs"`
	Trace    []string `json:"trace"`
	Full     []uint32 `json:"full_tape,omitempty"` // from a worker: the tape before it was minimised
}

// ---- known findings

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Class    string `json:"class"`  // violation class it matches, exactly
	Match    string `json:"match"`  // text its message contains
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if err != nil {
		return nil
	}
	var fs struct{ Findings []finding }
	if err := json.Unmarshal(b, &fs); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		os.Exit(2)
	}
	return fs.Findings
}

func (v *Violation) known(fs []finding, prop string) *finding {
	for i := range fs {
		f := &fs[i]
		if f.Status == "open" && f.Property == prop && f.Class == v.Class && f.Match != "" && strings.Contains(v.Msg, f.Match) {
			return f
		}
	}
	return nil
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// ---- worker

type workerResult struct {
	Runs       int
	Nontrivial int
	Steps      int64
	Ticks      int64
	Bytes      int64
	SimTime    time.Duration
	Faults     map[string]int
	Probes     map[string]int
	Replay     *Replay
	Known      map[string]int
	Samples    [][]string
	MaxAlloc   uint64
}

// limitMemory makes a run that asks for too much memory crash here, where it is seen,
// rather than bring the machine into trouble.
func limitMemory() {
	const limit = 3 << 30
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: limit, Max: limit})
}

func workerMain(args []string) {
	limitMemory()
	switch args[0] {
	case "worker":
		// worker PROP SEED FIRST STRIDE END DEADLINE OUT STATUS SAMPLES
		prop := args[1]
		seed, _ := strconv.ParseUint(args[2], 10, 64)
		first, _ := strconv.Atoi(args[3])
		stride, _ := strconv.Atoi(args[4])
		end, _ := strconv.Atoi(args[5])
		deadline, _ := strconv.ParseInt(args[6], 10, 64)
		worker(prop, seed, first, stride, end, deadline, args[7], args[8], args[9] == "1")
	case "one":
		// one TAPEFILE PROP SEED RUN   or   one TAPEFILE PROP replay FILE
		one(args[1:])
	}
}

func worker(prop string, seed uint64, first, stride, end int, deadline int64, out, status string, samples bool) {
	known := loadFindings()
	res := workerResult{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	hashes, err := os.Create(out + ".hashes")
	if err != nil {
		panic(err)
	}
	hw := bufio.NewWriter(hashes)
	st, err := os.OpenFile(status, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	var rec [8]byte
	for run := first; run < end; run += stride {
		if run/stride%16 == 0 && time.Now().Unix() > deadline {
			break
		}
		binary.LittleEndian.PutUint64(rec[:], uint64(run))
		st.WriteAt(rec[:], 0)
		tracing := samples && len(res.Samples) < 3 && run/stride >= 3
		c, v := runOne(prop, newTape(seed, prop, run), tracing)
		res.Runs++
		res.Steps += c.steps
		res.Ticks += simtick.N
		res.Bytes += c.inBytes
		res.SimTime += c.simTime
		for k, n := range c.faults {
			res.Faults[k] += n
		}
		for k, n := range c.probes {
			res.Probes[k] += n
		}
		var h [17]byte
		binary.LittleEndian.PutUint64(h[0:], uint64(run))
		binary.LittleEndian.PutUint64(h[8:], c.hash)
		if c.nontrivial {
			res.Nontrivial++
			h[16] = 1
			if tracing {
				tr := c.trace
				if len(tr) > 40 {
					tr = append(append([]string{}, tr[:30]...), fmt.Sprintf("... %d more events", len(tr)-30))
				}
				res.Samples = append(res.Samples, append([]string{fmt.Sprintf("run %d, %d choices", run, len(c.Tape.rec))}, tr...))
			}
		}
		hw.Write(h[:])
		if v != nil {
			if f := v.known(known, prop); f != nil {
				res.Known[f.What]++
				continue
			}
			tape := append([]uint32{}, c.Tape.rec...)
			best, tries := shrink(prop, tape, v.Class, known)
			c2, v2 := runOne(prop, replayTape(best), true)
			if v2 == nil || v2.Class != v.Class {
				// Should not happen; report the unminimised run.
				best = tape
				c2, v2 = runOne(prop, replayTape(best), true)
				if v2 == nil {
					c2, v2 = c, v
				}
			}
			res.Replay = &Replay{Property: prop, Seed: seed, Run: run, Class: v2.Class, Message: v2.Msg, Tape: best, Original: len(tape), Tries: tries, Trace: tail(c2.trace, 400), Full: tape}
			break
		}
	}
	hw.Flush()
	hashes.Close()
	b, _ := json.Marshal(res)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return append([]string{fmt.Sprintf("... %d earlier events", len(s)-n)}, s[len(s)-n:]...)
	}
	return s
}

// shrink minimises a tape while the run fails in the same way.
func shrink(prop string, tape []uint32, class string, known []finding) ([]uint32, int) {
	if os.Getenv("VERIF_FAST") != "" { // for sweeps over many changes
		return tape, 0
	}
	deadline := time.Now().Add(25 * time.Second)
	tries := 0
	fails := func(t []uint32) bool {
		tries++
		_, v := runOne(prop, replayTape(t), false)
		return v != nil && v.Class == class && v.known(known, prop) == nil
	}
	return shrinkWith(tape, fails, func() bool { return tries > 4000 || time.Now().After(deadline) }), tries
}

func shrinkWith(tape []uint32, fails func([]uint32) bool, stop func() bool) []uint32 {
	best := tape
	try := func(t []uint32) bool {
		if stop() {
			return false
		}
		if fails(t) {
			best = append([]uint32{}, t...)
			return true
		}
		return false
	}
	// drop the end
	for n := len(best) / 2; n > 0 && !stop(); {
		if n <= len(best) && try(best[:len(best)-n]) {
			continue
		}
		n /= 2
	}
	for changed := true; changed && !stop(); {
		changed = false
		for size := 64; size >= 1; size /= 2 {
			if size > len(best) {
				continue
			}
			for i := 0; i+size <= len(best) && !stop(); {
				// delete a block
				t := append(append([]uint32{}, best[:i]...), best[i+size:]...)
				if try(t) {
					changed = true
					continue
				}
				// or zero it
				zero := true
				for _, v := range best[i : i+size] {
					zero = zero && v == 0
				}
				if !zero {
					t = append([]uint32{}, best...)
					for j := i; j < i+size; j++ {
						t[j] = 0
					}
					if try(t) {
						changed = true
					}
				}
				i += size
			}
		}
		// smaller values
		for i := 0; i < len(best) && !stop(); i++ {
			for best[i] > 0 {
				t := append([]uint32{}, best...)
				t[i] = best[i] / 2
				if try(t) {
					changed = true
					continue
				}
				t = append([]uint32{}, best...)
				t[i] = best[i] - 1
				if best[i] < 64 && try(t) {
					changed = true
					continue
				}
				break
			}
		}
	}
	return best
}

// one executes a single run in its own process, and prints its outcome.
func one(args []string) {
	var t *Tape
	prop := args[1]
	if args[2] == "replay" {
		r := readReplay(args[3])
		for _, run := range r.After {
			runOne(prop, newTape(r.Seed, prop, run), false)
		}
		t = replayTape(r.Tape)
	} else {
		seed, _ := strconv.ParseUint(args[2], 10, 64)
		run, _ := strconv.Atoi(args[3])
		t = newTape(seed, prop, run)
	}
	if args[0] != "-" {
		f, err := os.Create(args[0])
		if err != nil {
			panic(err)
		}
		t.sink = func(v uint32) {
			var b [4]byte
			binary.LittleEndian.PutUint32(b[:], v)
			f.Write(b[:])
		}
	}
	c, v := runOne(prop, t, true)
	if v != nil {
		out, _ := json.Marshal(Replay{Property: prop, Class: v.Class, Message: v.Msg, Trace: tail(c.trace, 400)})
		fmt.Printf("\nOUTCOME %s\n", out)
	} else {
		fmt.Printf("\nOUTCOME none hash=%x\n", c.hash)
		for _, l := range tail(c.trace, 400) {
			fmt.Println("  ", l)
		}
	}
}

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, path, err)
		os.Exit(2)
	}
	return &r
}

// ---- coordinator

func self(args ...string) *exec.Cmd {
	cmd := exec.Command(os.Args[0], append([]string{"--"}, args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all", "GOMEMLIMIT=1GiB")
	return cmd
}

// runSingle executes one run in a process of its own. crashed is the class of a panic
// or fatal error that ended the process.
func runSingle(args []string, limit time.Duration) (r *Replay, crashed string, output string, timedOut bool) {
	cmd := self(args...)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var to atomic.Bool
	tm := time.AfterFunc(limit, func() { to.Store(true); cmd.Process.Kill() })
	err := cmd.Wait()
	tm.Stop()
	out := buf.String()
	if i := strings.LastIndex(out, "\nOUTCOME "); i >= 0 {
		line := out[i+9:]
		rest := ""
		if j := strings.IndexByte(line, '\n'); j >= 0 {
			line, rest = line[:j], line[j+1:]
		}
		if strings.HasPrefix(line, "none") {
			return nil, "", line + "\n" + rest, false
		}
		var rr Replay
		if json.Unmarshal([]byte(line), &rr) == nil {
			return &rr, "", out, false
		}
	}
	if to.Load() {
		return nil, "", out, true
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
			fmt.Fprintln(os.Stderr, out)
			fmt.Fprintln(os.Stderr, "the simulator itself failed")
			os.Exit(2)
		}
		return nil, crashClass(out), out, false
	}
	return nil, "", out, false
}

// crashClass tells a crash of the code under test from any other death of a process.
func crashClass(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "panic: ") {
			if strings.Contains(l, "step budget exceeded") {
				return "no-progress"
			}
			return "panic: " + normalise(strings.TrimSuffix(strings.TrimPrefix(l, "panic: "), " [recovered]"))
		}
		if strings.HasPrefix(l, "fatal error: ") {
			return normalise(l)
		}
	}
	return ""
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(2)
}

func coordinate(args []string) int {
	if len(args) < 1 {
		fatal("usage: PROP quick|thorough, replay FILE, trace PROP SEED RUN, or determinism PROP SEEDS RUNS")
	}
	switch args[0] {
	case "replay":
		return replayCmd(args[1])
	case "trace":
		r, cr, out, to := runSingle([]string{"one", "-", args[1], args[2], args[3]}, time.Minute)
		if r != nil {
			for _, l := range r.Trace {
				fmt.Println(l)
			}
			fmt.Println("VIOLATION", r.Class, r.Message)
		} else {
			fmt.Println(cr, out, to)
		}
		return 0
	case "determinism":
		return determinismCmd(args[1:])
	}
	tier := "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	return check(args[0], tier)
}

func replayCmd(path string) int {
	r := readReplay(path)
	if properties[r.Property] == nil {
		fatal("unknown property %q", r.Property)
	}
	rr, crashed, out, to := runSingle([]string{"one", "-", r.Property, "replay", path}, 2*time.Minute)
	switch {
	case rr != nil:
		for _, l := range rr.Trace {
			fmt.Println("  ", l)
		}
		fmt.Printf("%s: %s\n", rr.Class, rr.Message)
		if rr.Class != r.Class {
			fmt.Printf("(recorded class: %s)\n", r.Class)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		return 1
	case crashed != "":
		fmt.Println(out)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		return 1
	case to:
		fatal("replay did not end")
	}
	fmt.Println("the recorded run does not break the property on this tree")
	return 0
}

func workers() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && n > 0 {
		return n
	}
	return 8
}

func seedFromEnv() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

type batch struct {
	results []*workerResult
	hashes  map[uint64]bool // of non-trivial runs
	byRun   map[int]uint64
	replay  *Replay
	status  string
}

// runBatch spreads runs [0, end) over worker processes.
func runBatch(dir, prop string, seed uint64, end, nw int, deadline time.Time, stopOnViolation bool) *batch {
	b := &batch{hashes: map[uint64]bool{}, byRun: map[int]uint64{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var crashes []int
	var problems []string
	var stopped atomic.Bool
	procs := map[int]*exec.Cmd{}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		part := func(w, first, end int) (done bool) {
			out := filepath.Join(dir, fmt.Sprintf("w%d.json", w))
			status := filepath.Join(dir, fmt.Sprintf("w%d.status", w))
			samples := "0"
			if w == 0 && first == 0 {
				samples = "1"
			}
			cmd := self("worker", prop, fmt.Sprint(seed), fmt.Sprint(first), fmt.Sprint(nw), fmt.Sprint(end), fmt.Sprint(deadline.Unix()), out, status, samples)
			var buf bytes.Buffer
			cmd.Stdout = &buf
			cmd.Stderr = &buf
			os.Remove(status)
			mu.Lock()
			if stopped.Load() {
				mu.Unlock()
				return false
			}
			if err := cmd.Start(); err != nil {
				problems = append(problems, err.Error())
				mu.Unlock()
				return false
			}
			procs[w] = cmd
			mu.Unlock()
			// A run takes milliseconds, and the step budget ends it long before
			// this: a worker that makes no progress at all is in real trouble.
			watch := make(chan struct{})
			var stuck atomic.Bool
			go func() {
				last, since := int64(-2), time.Now()
				for {
					select {
					case <-watch:
						return
					case <-time.After(500 * time.Millisecond):
					}
					if cur := readStatus(status); cur != last {
						last, since = cur, time.Now()
					} else if time.Since(since) > 120*time.Second {
						stuck.Store(true)
						cmd.Process.Kill()
						return
					}
				}
			}()
			err := cmd.Wait()
			close(watch)
			mu.Lock()
			defer mu.Unlock()
			delete(procs, w)
			if stopped.Load() {
				return false
			}
			var res workerResult
			js, rerr := os.ReadFile(out)
			if err == nil && rerr == nil && json.Unmarshal(js, &res) == nil {
				b.results = append(b.results, &res)
				b.addHashes(out + ".hashes")
				if res.Replay != nil && (b.replay == nil || res.Replay.Run < b.replay.Run) {
					b.replay = res.Replay
				}
				return res.Replay == nil && res.Runs == (end-first+nw-1)/nw
			}
			run := readStatus(status)
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				problems = append(problems, "the simulator itself failed in run "+fmt.Sprint(run)+":\n"+lastBytes(buf.String(), 4000))
				return false
			}
			if stuck.Load() {
				problems = append(problems, fmt.Sprintf("run %d did not end; output:\n%s", run, lastBytes(buf.String(), 4000)))
				return false
			}
			crashes = append(crashes, int(run))
			problems = append(problems, fmt.Sprintf("worker died in run %d (%v):\n%s", run, err, lastBytes(buf.String(), 4000)))
			return false
		}
		go func(w int) {
			defer wg.Done()
			// What the code does once in a process, it does in the first runs of each.
			step := end
			if f := properties[prop].Fresh; f > 0 && w%2 == 0 {
				step = f * nw
			}
			for first := w; first < end; first += step {
				if !part(w, first, min(end, first+step)) {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	if b.replay == nil && len(crashes) > 0 {
		sort.Ints(crashes)
		for _, run := range crashes {
			if r := confirmCrash(dir, prop, seed, run); r != nil {
				b.replay = r
				return b
			}
		}
	}
	if b.replay == nil && len(problems) > 0 {
		for _, p := range problems {
			fmt.Fprintln(os.Stderr, p)
		}
		fatal("%s: check could not be completed", prop)
	}
	return b
}

func (b *batch) addHashes(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	for i := 0; i+17 <= len(data); i += 17 {
		run := int(binary.LittleEndian.Uint64(data[i:]))
		h := binary.LittleEndian.Uint64(data[i+8:])
		b.byRun[run] = h
		if data[i+16] == 1 {
			b.hashes[h] = true
		}
	}
}

func readStatus(path string) int64 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int64(binary.LittleEndian.Uint64(b))
}

func lastBytes(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// confirmCrash repeats, in a process of its own, a run that ended its worker. If that
// ends in the same way twice it is the code under test that does it.
func confirmCrash(dir, prop string, seed uint64, run int) *Replay {
	tape := filepath.Join(dir, "crash.tape")
	args := []string{"one", tape, prop, fmt.Sprint(seed), fmt.Sprint(run)}
	r1, class1, out, _ := runSingle(args, 2*time.Minute)
	if r1 != nil {
		return r1
	}
	_, class2, _, _ := runSingle(args, 2*time.Minute)
	if class1 == "" || class1 != class2 {
		return nil
	}
	raw, _ := os.ReadFile(tape)
	rec := make([]uint32, len(raw)/4)
	for i := range rec {
		rec[i] = binary.LittleEndian.Uint32(raw[4*i:])
	}
	tries := 0
	deadline := time.Now().Add(40 * time.Second)
	cand := filepath.Join(dir, "cand.json")
	best := shrinkWith(rec, func(t []uint32) bool {
		tries++
		js, _ := json.Marshal(Replay{Property: prop, Tape: t})
		os.WriteFile(cand, js, 0o644)
		_, cl, _, _ := runSingle([]string{"one", "-", prop, "replay", cand}, time.Minute)
		return cl == class1
	}, func() bool { return tries > 300 || time.Now().After(deadline) })
	return &Replay{Property: prop, Seed: seed, Run: run, Class: class1, Message: lastBytes(out, 3000), Tape: best, Original: len(rec), Tries: tries}
}

func check(prop, tier string) int {
	p := properties[prop]
	if p == nil {
		fatal("unknown property %q", prop)
	}
	start := time.Now()
	seed := seedFromEnv()
	runs := p.Quick
	cap := 240 * time.Second
	if tier == "thorough" {
		runs = p.Thorough
		cap = 780 * time.Second
		if n, err := strconv.Atoi(os.Getenv("VERIF_THOROUGH_SECONDS")); err == nil {
			cap = time.Duration(n) * time.Second
		}
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil && n > 0 {
		runs = n
	}
	dir, err := os.MkdirTemp("", "verifsim-run")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	fmt.Printf("%s %s: VERIF_SEED=%d, up to %d runs, %d workers\n", prop, tier, seed, runs, workers())
	b := runBatch(dir, prop, seed, runs, workers(), start.Add(cap), true)

	// Determinism: repeat a sample of the runs at another worker count.
	sample := runs / 20
	if sample > 400 {
		sample = 400
	}
	if sample < 20 {
		sample = 20
	}
	compared, differ := 0, 0
	if b.replay == nil {
		d2, err := os.MkdirTemp("", "verifsim-det")
		if err != nil {
			fatal("%v", err)
		}
		b2 := runBatch(d2, prop, seed, sample, 3, time.Now().Add(60*time.Second), true)
		os.RemoveAll(d2)
		for run, h := range b2.byRun {
			if h1, ok := b.byRun[run]; ok {
				compared++
				if h1 != h {
					differ++
				}
			}
		}
	}

	tot := workerResult{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	for _, r := range b.results {
		tot.Runs += r.Runs
		tot.Nontrivial += r.Nontrivial
		tot.Steps += r.Steps
		tot.Ticks += r.Ticks
		tot.Bytes += r.Bytes
		tot.SimTime += r.SimTime
		for k, n := range r.Faults {
			tot.Faults[k] += n
		}
		for k, n := range r.Probes {
			tot.Probes[k] += n
		}
		for k, n := range r.Known {
			tot.Known[k] += n
		}
		tot.Samples = append(tot.Samples, r.Samples...)
	}
	wall := time.Since(start).Seconds()
	violations := 0
	exit := 0
	if b.replay != nil {
		violations = 1
		exit = 1
		rdir := filepath.Join(verifDir(), "replays")
		if err := os.MkdirAll(rdir, 0o755); err != nil {
			fatal("%v", err)
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-seed%d-run%d.json", prop, tier, seed, b.replay.Run))
		// The replay file must reproduce the violation in a fresh process.
		full := b.replay.Full
		b.replay.Full = nil
		try := func(tape []uint32, after []int) bool {
			b.replay.Tape, b.replay.After = tape, after
			js, _ := json.MarshalIndent(b.replay, "", " ")
			if err := os.WriteFile(path, js, 0o644); err != nil {
				fatal("%v", err)
			}
			rr, crashed, _, _ := runSingle([]string{"one", "-", prop, "replay", path}, 2*time.Minute)
			if rr != nil {
				b.replay.Class, b.replay.Message, b.replay.Trace = rr.Class, rr.Message, rr.Trace
			}
			return crashed != "" || rr != nil
		}
		best := b.replay.Tape
		reproduced := try(best, nil)
		if !reproduced && full != nil {
			// The code keeps something from one run to the next in global variables, so runs only count
			// in processes of their own; perhaps it even takes other runs before this one.
			var after []int
			nw := workers()
			reproduced = try(full, nil)
			for n := 1; !reproduced && time.Since(start) < 10*time.Minute; n *= 4 {
				after = nil
				for run := b.replay.Run - n*nw; run < b.replay.Run; run += nw {
					if run >= 0 {
						after = append(after, run)
					}
				}
				if reproduced = try(full, after); n*nw > b.replay.Run {
					break
				}
			}
			if best = full; reproduced {
				tries := 0
				limit := time.Now().Add(60 * time.Second)
				stop := func() bool { return tries > 1000 || time.Now().After(limit) }
				fails := func(t []uint32) bool { tries++; return try(t, after) }
				for len(after) > 1 { // most of them should not matter
					half := len(after) / 2
					if b := after[half:]; try(full, b) {
						after = b
					} else if b := after[:half]; try(full, b) {
						after = b
					} else {
						break
					}
				}
				best = shrinkWith(full, fails, stop)
				b.replay.Tries += tries
				reproduced = try(best, after)
			}
		}
		fmt.Printf("run %d: %s\n%s\n", b.replay.Run, b.replay.Class, b.replay.Message)
		for _, l := range tail(b.replay.Trace, 60) {
			fmt.Println("  ", l)
		}
		fmt.Printf("minimised from %d to %d choices in %d runs; replay in a fresh process reproduces: %v\n", b.replay.Original, len(b.replay.Tape), b.replay.Tries, reproduced)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	for k := range tot.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	for _, f := range loadFindings() {
		if f.Status == "open" && f.Property == prop && tot.Known[f.What] == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this batch)\n", prop, f.What)
		}
	}
	if len(tot.Samples) == 0 {
		tot.Samples = [][]string{{"no run completed"}}
	}
	if p.Assume == nil {
		p.Assume = []string{}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": int64(seed), "level": "exploration", "wall_s": wall, "violations": violations,
		"assumptions": p.Assume,
		"coverage": map[string]any{
			"evaluations": tot.Runs, "distinct_nontrivial": len(b.hashes),
			"rule":                             p.Rule + " Counted as distinct by the hash of the run's event log (scheduling decisions, source reads and faults, operations and their results), among runs in which at least one fault, fragmentation or scheduling decision took effect.",
			"samples":                          tot.Samples,
			"seeds_per_hour":                   int(float64(tot.Runs) / wall * 3600),
			"nontrivial_runs":                  tot.Nontrivial,
			"faults_injected":                  tot.Faults,
			"probes":                           tot.Probes,
			"simulated_events":                 tot.Steps,
			"simulated_time":                   simulatedTime(tot.SimTime),
			"steps_of_code_under_test":         tot.Ticks,
			"input_bytes":                      tot.Bytes,
			"workers":                          workers(),
			"determinism_runs_repeated":        compared,
			"determinism_event_logs_differing": differ,
			"real_components":                  p.Real,
			"stubbed_components":               p.Stub,
		},
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	edir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(edir, 0o755)
	if err := os.WriteFile(filepath.Join(edir, prop+".json"), js, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial), %d simulated events, %.1f s, determinism sample %d/%d equal\n", prop, tier, tot.Runs, len(b.hashes), tot.Steps, wall, compared-differ, compared)
	return exit
}

func simulatedTime(d time.Duration) string {
	if d == 0 {
		return "none: nothing in these runs has a clock, a timer or a goroutine of its own; progress is counted in simulated events and in steps of the code under test"
	}
	return fmt.Sprintf("%.0f hours of a simulated clock, while goroutines were held back or had come to rest (the code under test has no clock or timer; one that it grew would run on this clock)", d.Hours())
}

// determinismCmd repeats runs across processes and worker counts and compares logs.
func determinismCmd(args []string) int {
	seeds, runs := 10, 500
	if len(args) > 1 {
		seeds, _ = strconv.Atoi(args[1])
	}
	if len(args) > 2 {
		runs, _ = strconv.Atoi(args[2])
	}
	bad := 0
	for seed := 1; seed <= seeds; seed++ {
		var ref map[int]uint64
		for _, nw := range []int{8, 3, 1} {
			dir, _ := os.MkdirTemp("", "verifsim-det")
			b := runBatch(dir, args[0], uint64(seed), runs, nw, time.Now().Add(time.Hour), true)
			os.RemoveAll(dir)
			if b.replay != nil {
				fmt.Printf("seed %d: violation in run %d: %s %s\n", seed, b.replay.Run, b.replay.Class, b.replay.Message)
				return 1
			}
			if ref == nil {
				ref = b.byRun
				continue
			}
			for r, h := range ref {
				if b.byRun[r] != h {
					bad++
					if bad < 10 {
						fmt.Printf("%s seed %d run %d differs at %d workers\n", args[0], seed, r, nw)
					}
				}
			}
		}
	}
	fmt.Printf("%s: %d seeds x %d runs x 3 worker counts, %d differences\n", args[0], seeds, runs, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

// allocated returns the bytes allocated so far.
func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}
