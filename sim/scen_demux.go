package sim

import (
	"bytes"
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
)

// A receiver of transport packets under the scheduler: it takes packets at its own
// pace, looks at each when it gets it, again some time later, and at the end.
type tsReceiver struct {
	name   string
	ch     ts.PacketChannel
	where  tester
	want   []*tsPacket
	got    []*ts.Packet
	closed bool
	lag    int
}

func (r *tsReceiver) run(c *Ctx, s *Sched) {
	for {
		s.Gate(r.name + " recv")
		p, ok := <-r.ch
		s.Gate(r.name + " got")
		if !ok {
			r.closed = true
			c.Ev(r.name+" closed", len(r.got))
			if len(r.got) < len(r.want) {
				c.FailLater("packet-lost", "%s (%s): closed after %d packets, want %d", r.name, r.where.name, len(r.got), len(r.want))
			}
			break
		}
		i := len(r.got)
		c.Ev(r.name+" packet", i)
		if i >= len(r.want) {
			c.FailLater("packet-extra", "%s (%s): packet %d, want only %d", r.name, r.where.name, i, len(r.want))
			return
		}
		if d := r.want[i].diff(p); d != "" {
			c.FailLater("packet-differs", "%s (%s): packet %d: %s", r.name, r.where.name, i, d)
			return
		}
		r.got = append(r.got, p)
		if r.lag > 0 && i >= r.lag {
			r.inspect(c, i-r.lag, "later")
		}
	}
}

func (r *tsReceiver) inspect(c *Ctx, i int, when string) {
	if d := r.want[i].diff(r.got[i]); d != "" {
		c.FailLater("packet-changed", "%s (%s): packet %d was right when it was delivered, %s: %s", r.name, r.where.name, i, when, d)
	}
}

// gatedTester makes a tester a point where somebody else may run.
func gatedTester(s *Sched, name string, t ts.PacketTester) ts.PacketTester {
	return func(p *ts.Packet) bool {
		s.Gate(name)
		return t(p)
	}
}

func scenDemux(c *Ctx)       { demux(c, false) }
func scenDemuxWindow(c *Ctx) { demux(c, true) }

func demux(c *Ctx, windowed bool) {
	o := tsOpts{max: 14, markers: true}
	if windowed {
		o.max = 10
	}
	pkts := genStream(c, o)
	var hasSkip, hasTake bool
	if windowed {
		hasSkip, hasTake = c.Pick(1, 2) == 1, c.Pick(1, 2) == 1
		if hasSkip && !c.Chance(5) && len(pkts) > 0 {
			for k := 1 + c.N(2); k > 0; k-- {
				pkts[c.N(len(pkts))].scram = 1
			}
		}
		if hasTake && !c.Chance(4) && len(pkts) > 0 {
			for k := 1 + c.N(3); k > 0; k-- {
				pkts[c.N(len(pkts))].prio = true
			}
		}
	}
	src := NewSource(c, "ts", encodeAll(pkts))
	whole, endErr := len(pkts), io.EOF
	if windowed || c.Chance(4) {
		whole, endErr = genEnd(c, src)
		if windowed && c.Chance(6) { // lost sync
			off := c.N(whole + 1)
			if off*188 <= len(src.data) && len(src.faults) == 0 {
				c.Fault("stream: garbage inserted")
				d := append([]byte{}, src.data[:off*188]...)
				g := 189 + c.N(100)
				d = append(d, genGarbage(c, g, 0)...)
				src.data = append(d, src.data[off*188:]...)
				whole, endErr = off, ts.ErrNoSyncByte
				if c.Chance(3) { // and then the source
					at := c.Range(0, g)
					if c.Bool() {
						at = c.Range(180, 190)
					}
					e := c.anyError(1)
					c.Probe("source fails while the sync byte is looked for")
					src.faults = append(src.faults, &Fault{Off: off*188 + at, Err: e, Count: -1, WithData: c.Bool()})
					if at <= 188 {
						endErr = e
					}
				}
			}
		}
	}
	// the window
	open, closed := !hasSkip, false
	var in []*tsPacket
	first := true
	for _, p := range pkts[:whole] {
		if !open {
			if p.scram != 1 {
				continue
			}
			open = true
			c.Probe("window opened")
		} else if hasTake && p.prio && !(first && !hasSkip) {
			closed = true
			c.Probe("window closed")
			break
		}
		first = false
		in = append(in, p)
	}
	wantErr := endErr
	if closed {
		wantErr = nil
	}
	c.Note("%d packets, window of %d, then %v", len(pkts), len(in), wantErr)

	var recvs []*tsReceiver
	doneSeen := false
	leaked := c.Concurrent(func(s *Sched) {
		if c.Bool() {
			src.gate = s.Gate
		}
		d := ts.NewDemuxer(src.reader())
		gates := c.Chance(3)
		if hasSkip {
			t := ts.PacketTester(func(p *ts.Packet) bool { return p.TransportScramblingControl == 1 })
			if gates {
				t = gatedTester(s, "skip", t)
			}
			d.SkipUntil(t)
		}
		if hasTake {
			t := ts.PacketTester(func(p *ts.Packet) bool { return !p.TransportPriority })
			if gates {
				t = gatedTester(s, "take", t)
			}
			d.TakeWhile(t)
		}
		n := c.N(4)
		if windowed && c.Chance(20) {
			n = -1
			c.Probe("no channels")
		}
		if c.Chance(100) { // more than there are bits in small words
			n = []int{6, 8, 16, 32, 64}[c.N(5)] + c.N(3)
			c.Probe("many channels")
		}
		for i := n; i >= 0; i-- {
			r := &tsReceiver{name: fmt.Sprintf("receiver%d", i), where: genTester(c, 1), lag: c.N(4)}
			lib := r.where.lib
			if gates && c.Bool() {
				lib = gatedTester(s, "tester", lib)
			}
			r.ch = d.Where(lib)
			for _, p := range in {
				if r.where.model(p) {
					r.want = append(r.want, p)
				}
			}
			recvs = append(recvs, r)
			s.Go(r.name, func() { r.run(c, s) })
		}
		done := d.Go()
		s.Go("waiter", func() {
			v, ok := <-done
			s.Gate("waiter got")
			if !ok || !v {
				c.FailLater("no-completion", "completion was signalled with %v, %v", v, ok)
				return
			}
			doneSeen = true
			c.Ev("done")
			for _, r := range recvs {
				if cap(r.ch) > 0 || r.closed {
					continue
				}
				select {
				case _, ok := <-r.ch:
					if ok {
						c.FailLater("late-packet", "a packet was delivered after completion was signalled")
					}
				default:
					c.FailLater("not-closed", "completion was signalled before the channel of %s was closed", r.name)
				}
			}
			if err := d.Err(); err != wantErr {
				c.FailLater("wrong-error", "Err() = %v, want %v", err, wantErr)
			}
		})
		s.Run()
		for _, r := range recvs {
			for i := range r.got {
				r.inspect(c, i, "at the end of the run")
			}
		}
		if c.viol != nil {
			panic(failure{c.viol})
		}
	})
	c.nontrivial = true
	if c.viol != nil {
		return
	}
	for _, r := range recvs {
		if !r.closed {
			c.Fail("not-closed", "%s: its channel was never closed (%d of %d packets received): %s", r.name, len(r.got), len(r.want), leaked)
		}
	}
	if !doneSeen {
		c.Fail("no-completion", "completion was never signalled: %s", leaked)
	}
	if leaked != "" {
		c.Fail("goroutine-leak", "a goroutine is blocked for ever after completion: %s", leaked)
	}
}

// ---- C08: channel adapters

type bytesReceiver struct {
	name   string
	ch     <-chan []byte
	want   [][]byte
	got    [][]byte
	closed bool
}

func (r *bytesReceiver) run(c *Ctx, s *Sched) {
	for {
		s.Gate(r.name + " recv")
		b, ok := <-r.ch
		s.Gate(r.name + " got")
		if !ok {
			r.closed = true
			c.Ev(r.name+" closed", len(r.got))
			if len(r.got) < len(r.want) {
				c.FailLater("item-lost", "%s: closed after %d items, want %d", r.name, len(r.got), len(r.want))
			}
			return
		}
		i := len(r.got)
		c.Ev(r.name+" item", i, len(b))
		if i >= len(r.want) {
			c.FailLater("item-extra", "%s: item %d, want only %d", r.name, i, len(r.want))
			return
		}
		if !bytes.Equal(b, r.want[i]) {
			c.FailLater("item-differs", "%s: item %d has %d bytes, want %d; differs at %d", r.name, i, len(b), len(r.want[i]), firstDiff(b, r.want[i]))
			return
		}
		r.got = append(r.got, b)
	}
}

func (r *bytesReceiver) inspect(c *Ctx) {
	for i := range r.got {
		if !bytes.Equal(r.got[i], r.want[i]) {
			c.FailLater("item-changed", "%s: item %d was right when it was emitted, and has changed since", r.name, i)
		}
	}
}

// toLib makes the library's packet out of a model packet.
func (m *tsPacket) toLib(c *Ctx) *ts.Packet {
	p, err := ts.NewPacket(bitreader.NewReader(bytes.NewReader(m.encode())))
	if err != nil {
		c.FailLater("packet-lost", "a packet of its own does not parse: %v", err)
	}
	return p
}

func (m *pesPacket) toLib(c *Ctx) *pes.Packet {
	if m.unbounded {
		return &pes.Packet{StreamID: m.id, Payload: append([]byte{}, m.payload...)}
	}
	p, err := pes.NewPacket(bitreader.NewReader(bytes.NewReader(m.encode())))
	if err != nil {
		c.FailLater("packet-lost", "a packet of its own does not parse: %v", err)
	}
	return p
}

// keeper holds on to packets that were given away, which stay what they were.
type keeper struct {
	ts  []*ts.Packet
	tsm []*tsPacket
	pes []*pes.Packet
	psm []*pesPacket
}

func (k *keeper) inspect(c *Ctx) {
	for i, p := range k.ts {
		if d := k.tsm[i].diff(p); d != "" {
			c.FailLater("packet-changed", "transport packet %d, which went through an adapter, has changed: %s", i, d)
		}
	}
	for i, p := range k.pes {
		if d := k.psm[i].diff(p); d != "" && !k.psm[i].unbounded {
			c.FailLater("packet-changed", "PES packet %d, which went through an adapter, has changed: %s", i, d)
		}
	}
}

func scenAdapters(c *Ctx) {
	var recvs []*bytesReceiver
	var kept keeper
	var besides []*tsReceiver
	leaked := c.Concurrent(func(s *Sched) {
		n := 1 + c.N(2)
		for k := 0; k < n; k++ {
			r := &bytesReceiver{name: fmt.Sprintf("consumer%d", k)}
			recvs = append(recvs, r)
			producer := fmt.Sprintf("producer%d", k)
			switch kind := c.N(5); kind {
			case 0, 1: // fed by hand
				pkts := genStream(c, tsOpts{max: 12})
				ch := make(chan *ts.Packet, c.Pick(4, 1, 1))
				if kind == 0 {
					r.ch = ts.PacketChannel(ch).PayloadOnly()
					for _, p := range pkts {
						r.want = append(r.want, p.payload)
					}
				} else {
					r.ch = ts.PacketChannel(ch).PayloadUnit()
					r.want = modelUnits(pkts, func(*tsPacket) bool { return true }).units
				}
				s.Go(producer, func() {
					for _, p := range pkts {
						x := p.toLib(c)
						kept.ts, kept.tsm = append(kept.ts, x), append(kept.tsm, p)
						s.Gate(producer + " send")
						ch <- x
					}
					s.Gate(producer + " close")
					close(ch)
				})
			case 2, 3: // fed by a demuxer
				pkts := genStream(c, tsOpts{max: 12})
				where := genTester(c, 1)
				src := NewSource(c, "ts", encodeAll(pkts))
				if c.Bool() {
					src.gate = s.Gate
				}
				d := ts.NewDemuxer(src.reader())
				// Somebody else may take the same packets, before the adapter or after it.
				var beside *tsReceiver
				if c.Chance(3) {
					beside = &tsReceiver{name: fmt.Sprintf("beside%d", k), where: where, lag: c.N(4)}
					for _, p := range pkts {
						if where.model(p) {
							beside.want = append(beside.want, p)
						}
					}
					besides = append(besides, beside)
				}
				first := c.Bool()
				if beside != nil && first {
					beside.ch = d.Where(where.lib)
				}
				ch := d.Where(where.lib)
				if beside != nil && !first {
					beside.ch = d.Where(where.lib)
				}
				if beside != nil {
					s.Go(beside.name, func() { beside.run(c, s) })
				}
				if kind == 2 {
					r.ch = ch.PayloadOnly()
					for _, p := range pkts {
						if where.model(p) {
							r.want = append(r.want, p.payload)
						}
					}
				} else {
					r.ch = ch.PayloadUnit()
					r.want = modelUnits(acceptedOnly(pkts, where), func(*tsPacket) bool { return true }).units
				}
				done := d.Go()
				s.Go(producer, func() { <-done })
			case 4:
				pkts := genPES(c, pesOpts{max: 8})
				ch := make(chan *pes.Packet, c.Pick(4, 1, 1))
				r.ch = pes.PacketChannel(ch).PayloadOnly()
				for _, p := range pkts {
					r.want = append(r.want, p.payload)
				}
				s.Go(producer, func() {
					for _, p := range pkts {
						x := p.toLib(c)
						kept.pes, kept.psm = append(kept.pes, x), append(kept.psm, p)
						s.Gate(producer + " send")
						ch <- x
					}
					s.Gate(producer + " close")
					close(ch)
				})
			}
			s.Go(r.name, func() { r.run(c, s) })
		}
		s.Run()
		for _, r := range recvs {
			r.inspect(c)
		}
		kept.inspect(c)
		for _, r := range besides {
			for i := range r.got {
				r.inspect(c, i, "at the end of the run")
			}
		}
		if c.viol != nil {
			panic(failure{c.viol})
		}
	})
	c.nontrivial = true
	if c.viol != nil {
		return
	}
	for _, r := range besides {
		if !r.closed {
			c.Fail("not-closed", "the channel of %s was never closed (%d of %d packets): %s", r.name, len(r.got), len(r.want), leaked)
		}
	}
	for _, r := range recvs {
		if !r.closed {
			c.Fail("not-closed", "%s: the output was never closed (%d of %d items): %s", r.name, len(r.got), len(r.want), leaked)
		}
	}
	if leaked != "" {
		c.Fail("goroutine-leak", "a goroutine is blocked for ever: %s", leaked)
	}
}

func acceptedOnly(pkts []*tsPacket, t tester) (out []*tsPacket) {
	for _, p := range pkts {
		if t.model(p) {
			out = append(out, p)
		}
	}
	return
}

func init() {
	real := []string{"ts.Demuxer, ts.Packet, ts.PacketChannel, pes.PacketChannel and the goroutines they start (built from the repository's tree, instrumented with yield points)", "github.com/32bitkid/bitreader", "Go channels"}
	stub := []string{"goroutine scheduling (simulator decides at gates and yield points, testing/synctest for quiescence)", "io.Reader source", "receivers, waiter and producers (simulated callers)"}
	register(&Property{ID: "C06", Quick: 120000, Thorough: 5000000,
		Scenarios: []Scenario{{"demux", 1, scenDemux}},
		Rule:      "A run draws a multiplex, one to four channels with overlapping testers, and a schedule of demuxer, source and receivers; receivers compare packets at delivery, some packets later, and at the end.",
		Real:      real, Stub: stub})
	register(&Property{ID: "C07", Quick: 200000, Thorough: 5000000,
		Scenarios: []Scenario{{"window", 1, scenDemuxWindow}},
		Rule:      "As C06, with skip and take conditions and a drawn cause of termination (EOF, cut, lost sync, source error, window closed); completion, closing and Err are checked in the order in which they happen.",
		Real:      real, Stub: stub})
	register(&Property{ID: "C08", Quick: 200000, Thorough: 5000000,
		Scenarios: []Scenario{{"adapters", 1, scenAdapters}},
		Rule:      "A run connects one or two adapters to producers (by hand or a demuxer) and consumers under a drawn schedule, and compares the emitted slices at delivery and at the end.",
		Real:      real, Stub: stub})
}
