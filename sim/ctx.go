package sim

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/32bitkid/mpeg/simsync"
	"github.com/32bitkid/mpeg/simtick"
)

// Violation is the outcome of a run that broke its property.
type Violation struct {
	Class string // stays the same while the run is minimised
	Msg   string
}

type failure struct{ v *Violation }

// Ctx is one simulated run.
type Ctx struct {
	huge   bool // there is a very long run of packets
	noHuge bool // every packet takes many scheduling decisions

	*Tape
	Prop       string
	hash       uint64
	tracing    bool
	trace      []string
	faults     map[string]int
	probes     map[string]int
	steps      int64 // seam events: source reads, deliveries, scheduling steps
	nontrivial bool
	viol       *Violation
	sched      *Sched
	inBytes    int64         // bytes of input handed to the code under test
	simTime    time.Duration // that passed on the simulated clock
	delivered  int           // items that a driver got out of a component
	pidPool    []uint32      // programs of the transport streams
	pending    int           // bytes asked for by a read that has not returned
}

func newCtx(prop string, t *Tape) *Ctx {
	return &Ctx{Tape: t, Prop: prop, faults: map[string]int{}, probes: map[string]int{}, hash: 14695981039346656037}
}

// Ev records an event in the run's log. Only its hash is kept unless tracing.
func (c *Ctx) Ev(what string, vals ...int) {
	c.steps++
	h := c.hash
	for i := 0; i < len(what); i++ {
		h = (h ^ uint64(what[i])) * 1099511628211
	}
	for _, v := range vals {
		h = (h ^ uint64(v)) * 1099511628211
		h ^= h >> 29
	}
	c.hash = h
	if c.tracing && len(c.trace) < 4000 {
		s := what
		for _, v := range vals {
			s += fmt.Sprintf(" %d", v)
		}
		c.trace = append(c.trace, s)
	}
}

// Note adds a line to the trace only.
func (c *Ctx) Note(format string, args ...any) {
	if c.tracing && len(c.trace) < 4000 {
		c.trace = append(c.trace, "# "+fmt.Sprintf(format, args...))
	}
}

func (c *Ctx) Fault(kind string) { c.faults[kind]++; c.nontrivial = true; c.Note("fault: %s", kind) }
func (c *Ctx) Probe(name string) { c.probes[name]++ }

// Fail ends the run with a violation. Use it on the run's own goroutine.
func (c *Ctx) Fail(class, format string, args ...any) {
	v := &Violation{class, fmt.Sprintf(format, args...)}
	panic(failure{v})
}

// FailLater records a violation seen on another goroutine; the first one counts.
func (c *Ctx) FailLater(class, format string, args ...any) {
	if c.viol == nil {
		c.viol = &Violation{class, fmt.Sprintf(format, args...)}
	}
}

// harnessError is a mistake of the simulator itself: never a violation.
type harnessError struct{ msg string }

func bug(format string, args ...any) {
	panic(harnessError{fmt.Sprintf(format, args...)})
}

// longRun draws how many of something there are in a row: now and then more than small
// counters can count.
func (c *Ctx) longRun(lo, hi int) int {
	switch c.Pick(400, 26, 1) {
	case 1:
		c.Probe("run of thousands")
		return 1024 + c.N(4000)
	case 2:
		if c.noHuge {
			break
		}
		c.Probe("run of more than 65536")
		c.huge = true
		return 65500 + c.N(200)
	}
	return c.Range(lo, hi)
}

// much tells that there is too much input to deliver or read it byte by byte.
func (c *Ctx) much() bool { return c.huge || c.inBytes > 400_000 }

// stepBudget bounds the steps the code under test may take without having
// received a byte from a source, and without a new source.
const stepBudget = 400_000_000

// progress gives the code under test a fresh budget of steps.
func progress() { simtick.Limit = simtick.N + stepBudget }

// execute runs f as one simulated run, and returns the violation if there is one.
func execute(c *Ctx, f func(*Ctx)) (v *Violation) {
	simtick.N = 0
	simsync.Run++
	simtick.Every(0, nil)
	simtick.First(nil)
	progress()
	simtick.Yield = nil
	simtick.Panic = func(p any) bool {
		if vv := c.classify(p); vv != nil && c.viol == nil {
			c.viol = vv
		}
		return true
	}
	defer func() {
		p := recover()
		simtick.Limit = 1 << 62
		simtick.Yield = nil
		if p != nil {
			if c.viol == nil {
				c.viol = c.classify(p)
			}
		}
		v = c.viol
	}()
	f(c)
	return c.viol
}

// classify turns a recovered panic into a violation.
func (c *Ctx) classify(p any) *Violation {
	switch x := p.(type) {
	case failure:
		return x.v
	case harnessError:
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", x.msg)
		fmt.Fprintln(os.Stderr, stack())
		os.Exit(3)
	case simtick.Exceeded:
		return &Violation{"no-progress", "the code under test kept running without reading or delivering anything (step budget exceeded)"}
	}
	st := stack()
	// The innermost frame that is not the runtime's tells whose panic it is.
	if blame(st) {
		fmt.Fprintln(os.Stderr, "HARNESS PANIC:", p)
		fmt.Fprintln(os.Stderr, st)
		os.Exit(3)
	}
	return &Violation{"panic: " + normalise(fmt.Sprint(p)), fmt.Sprintf("panic: %v\n%s", p, trimStack(st))}
}

func stack() string {
	buf := make([]byte, 16384)
	return string(buf[:runtime.Stack(buf, false)])
}

// blame reports whether the simulator itself, not the code it runs, panicked.
func blame(st string) bool {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(st[i:], "\n")[2:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "github.com/32bitkid/") {
			return false
		}
		if strings.HasPrefix(l, "verifsim") {
			return true
		}
	}
	return false
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "github.com/32bitkid/") {
			if i := strings.LastIndex(l, "("); i > 0 && !strings.HasPrefix(l, "\t") {
				out = append(out, l[:i])
			}
		}
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func normalise(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= '0' && r <= '9' {
			r = '#'
		}
		b.WriteRune(r)
	}
	return b.String()
}
