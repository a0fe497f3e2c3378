package sim

import (
	"fmt"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/32bitkid/mpeg/simtick"
)

// Sched decides who runs. Every goroutine of a run - the simulated callers as well as
// those that the code under test starts - lives in a synctest bubble, and stops at
// gates: reads of a simulated source, calls of a tester, the steps of a caller, and
// the yield points that instrumentation adds to goroutines of the code under test.
// After an operation that may have set somebody else in motion, a caller passes a gate
// before it touches anything shared, so that there is never more than one at it.
// When nothing can move any more, the scheduler picks one of those that wait at a gate.
type Sched struct {
	c        *Ctx
	mu       sync.Mutex
	parked   []*parking
	steps    int
	limit    int
	strategy int
	prio     map[string]int
	change   []int
	last     string
	yields   bool
	running  bool
	root     string
	before   func() // called when Run begins
	clock    bool   // time passes while goroutines wait
	idle     int
}

type parking struct {
	name string
	ch   chan struct{}
}

const (
	schedFirst   = iota // always the first by name: sequential as can be
	schedUniform        // any
	schedSticky         // the same one as long as it can run
	schedPCT            // random priorities, with a few changes
	schedStrategies
)

var theT *testing.T

// Concurrent runs body in a bubble under a scheduler. The body sets the run up and
// then calls Sched.Run. It returns whether goroutines were left blocked for ever.
func (c *Ctx) Concurrent(body func(s *Sched)) (leaked string) {
	s := &Sched{c: c, limit: 2_000_000, prio: map[string]int{}}
	s.strategy = c.Pick(1, 3, 2, 3)
	s.yields = c.Chance(3) && !c.huge // thousands of goroutines that have yielded are slow
	s.clock = c.Chance(4)
	if s.strategy == schedPCT {
		for i := c.N(4); i > 0; i-- {
			s.change = append(s.change, c.N(400))
		}
	}
	c.Ev("schedule", s.strategy)
	c.sched = s
	simtick.Choose = func(n int) int { return c.N(n) }
	var inner any
	defer func() {
		simtick.Yield = nil
		simtick.Choose = nil
		c.sched = nil
		if p := recover(); p != nil {
			msg := fmt.Sprint(p)
			if strings.Contains(msg, "deadlock: ") {
				leaked = msg
			} else {
				panic(p)
			}
		}
		if inner != nil {
			panic(inner)
		}
	}()
	synctest.Test(theT, func(t *testing.T) {
		// A panic of the root would end the process: carry it out of the bubble.
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(failure); !ok {
					p = c.carry(p)
				}
				inner = p
			}
		}()
		s.root = goid()
		// Goroutines that are started while the root sets things up stop at their first
		// yield point, in case that they get there before Run.
		simtick.Yield = func(site int) {
			if s.yields && (s.running || goid() != s.root) {
				s.Gate(yieldName(site))
			}
		}
		body(s)
		synctest.Wait()
	})
	return
}

// carry classifies a panic where its stack can still be seen.
func (c *Ctx) carry(p any) any {
	if v := c.classify(p); v != nil {
		return failure{v}
	}
	return p
}

// goid names the calling goroutine.
func goid() string {
	var b [40]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	if len(f) < 2 {
		bug("no goroutine id in %q", b)
	}
	return f[1]
}

var yieldNames []string

func yieldName(site int) string {
	for len(yieldNames) <= site {
		yieldNames = append(yieldNames, fmt.Sprintf("yield%d", len(yieldNames)))
	}
	return yieldNames[site]
}

// Preempted is a gate somewhere inside the code under test. It has the name of the gate
// that the caller came through last.
func (s *Sched) Preempted(demote bool) {
	name := s.last
	if demote {
		s.prio[name] = -1 - s.steps
	}
	s.Gate(name)
}

// Gate stops the calling goroutine until the scheduler picks it.
func (s *Sched) Gate(name string) {
	s.mu.Lock()
	p := &parking{name: name, ch: make(chan struct{})}
	// Sorted by name, and by arrival where names are equal.
	i := sort.Search(len(s.parked), func(i int) bool { return s.parked[i].name > name })
	s.parked = slices.Insert(s.parked, i, p)
	s.mu.Unlock()
	<-p.ch
}

// Go starts a simulated caller.
func (s *Sched) Go(name string, f func()) {
	go func() {
		defer func() {
			if p := recover(); p != nil {
				if s.c.viol == nil {
					s.c.viol = s.c.classify(p)
				}
			}
		}()
		s.Gate(name)
		f()
	}()
}

// Run schedules until nobody waits at a gate any more.
func (s *Sched) Run() {
	s.running = true
	defer func() { s.running, s.yields = false, false }()
	if s.before != nil {
		s.before()
	}
	for {
		synctest.Wait()
		if s.c.viol != nil {
			panic(failure{s.c.viol})
		}
		if len(s.parked) == 0 {
			if s.idle < 3 {
				// Somebody may wait for a timer.
				s.idle++
				time.Sleep(time.Hour)
				s.c.simTime += time.Hour
				continue
			}
			return
		}
		s.idle = 0
		if s.clock && s.c.N(8) == 7 {
			// Everybody who waits at a gate, or for somebody who does, is slow.
			d := []time.Duration{time.Millisecond, 100 * time.Millisecond, 5 * time.Second, time.Hour}[s.c.N(4)]
			time.Sleep(d)
			s.c.simTime += d
			s.c.Fault("clock: time passes")
			synctest.Wait()
			if s.c.viol != nil {
				panic(failure{s.c.viol})
			}
			if len(s.parked) == 0 {
				continue
			}
		}
		s.steps++
		if s.steps > s.limit+20*int(s.c.inBytes) {
			s.c.Fail("no-progress", "%d scheduling steps and the run has not come to an end", s.steps)
		}
		i := s.choose()
		p := s.parked[i]
		s.parked = append(s.parked[:i], s.parked[i+1:]...)
		s.last = p.name
		s.c.Ev("run " + p.name)
		close(p.ch)
	}
}

func (s *Sched) choose() int {
	n := len(s.parked)
	if n == 1 {
		return 0
	}
	switch s.strategy {
	case schedFirst:
		return 0
	case schedSticky:
		i := sort.Search(n, func(i int) bool { return s.parked[i].name >= s.last })
		for ; i < n && s.parked[i].name == s.last; i++ {
			if s.c.N(8) != 7 {
				return i
			}
		}
		return s.c.N(n)
	case schedPCT:
		for _, at := range s.change {
			if at == s.steps {
				s.prio[s.last] = -s.steps
			}
		}
		best := 0
		for i := 0; i < n; {
			name := s.parked[i].name
			if _, ok := s.prio[name]; !ok {
				s.prio[name] = s.c.N(1000)
			}
			if s.prio[name] > s.prio[s.parked[best].name] {
				best = i
			}
			// On to the next name.
			i += sort.Search(n-i, func(k int) bool { return s.parked[i+k].name > name })
		}
		return best
	}
	return s.c.N(n)
}

func init() { runtime.GOMAXPROCS(1) }
