package sim

import (
	"bytes"
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
)

// ---- C11

func scenPackReader(c *Ctx) {
	packs := genPS(c, psOpts{maxPacks: 5, maxPkts: 4})
	hasEnd := !c.Chance(5)
	w := encodePS(packs, hasEnd)
	s := NewSource(c, "ps", w.data)
	if c.Chance(3) {
		// transient errors where the reader is between two parts
		genBoundaryFaults(c, s, w.starts, 5, true)
	}
	total := len(w.want)
	endErr, either := io.EOF, false
	switch c.Pick(5, 3, 3) {
	case 1:
		cut := c.N(len(w.data) + 1)
		c.Fault("stream: cut")
		s.data = w.data[:cut]
		total = w.avail(cut)
		either = true
	case 2:
		off := c.N(len(w.data) + 1)
		if hasEnd && off == len(w.data) {
			off--
		}
		e := c.anyError(900)
		var keep []*Fault
		for _, f := range s.faults {
			if f.Off < off {
				keep = append(keep, f)
			}
		}
		s.faults = append(keep, &Fault{Off: off, Err: e, Count: -1, WithData: c.Bool()})
		total = w.avail(off)
		endErr = e
	}
	if !hasEnd && endErr == io.EOF {
		either = true
	}
	r := ps.NewPackReader(s.reader())
	var got []byte
	errs := 0
	readDriver(c, r, genSizes(c), func(p []byte, err error) bool {
		got = append(got, p...)
		if len(got) > total {
			c.Fail("bytes-extra", "%d bytes delivered, want %d", len(got), total)
		}
		if !bytes.Equal(p, w.want[len(got)-len(p):len(got)]) {
			c.Fail("bytes-differ", "differs at byte %d of %d", firstDiff(got, w.want), len(w.want))
		}
		if err == nil {
			return false
		}
		if e, ok := err.(*SimErr); ok && err != endErr {
			f := s.byErr(e)
			if f == nil || f.fired == 0 {
				c.Fail("wrong-error", "error that the source did not return: %v", err)
			}
			if out := w.avail(f.Off); len(got) != out {
				c.Fail("bytes-lost", "source error at %d reported with %d bytes delivered, %d were there", f.Off, len(got), out)
			}
			errs++
			if errs > s.transient() {
				c.Fail("error-repeated", "errors keep coming")
			}
			// The reader may have had a whole part in view that it now reads again.
			return true
		}
		if err != endErr && !(either && isEnd(err)) {
			c.Fail("wrong-end", "ended with %v after %d of %d bytes, want %v", err, len(got), total, endErr)
		}
		if len(got) != total {
			c.Fail("bytes-lost", "ended with %v after %d bytes, want %d", err, len(got), total)
		}
		return true
	})
	c.nontrivial = true
}

// ---- C12

type heldPacket struct {
	model *pesPacket
	p     *pes.Packet
}

// gatedReader is a bit reader whose every use is a point where somebody else may run.
type gatedReader struct {
	bitreader.BitReader
	gate func(string)
	name string
}

func (g *gatedReader) Peek32(n uint) (uint32, error) { g.gate(g.name); return g.BitReader.Peek32(n) }

func scenPSDecoder(c *Ctx) {
	packs := genPS(c, psOpts{maxPacks: 4, maxPkts: 3, pes: pesOpts{maxData: 120}})
	w := encodePS(packs, true)
	s := NewSource(c, "ps", w.data)
	limit := len(w.data)
	var wantErr error
	either, ok := false, true
	var broken *psPack
	switch c.Pick(5, 2, 2, 1, 1) {
	case 4:
		// a header that is not one
		i := c.N(len(packs))
		at := packs[i].markers()
		bit := at[c.N(len(at))]
		at0 := w.heads[i] - len(packs[i].header())
		s.data[at0+bit/8] ^= 0x80 >> (bit % 8)
		c.Fault("stream: malformed pack header")
		limit, wantErr, ok, broken = at0, ps.ErrMarkerNotFound, false, packs[i]
	case 1:
		cut := c.N(len(w.data))
		c.Fault("stream: cut")
		s.data = w.data[:cut]
		limit, either, ok = cut, true, false
	case 2:
		off := c.N(len(w.data))
		if c.Bool() {
			off = w.starts[c.N(len(w.starts))]
		}
		e := c.anyError(900)
		n := -1
		if c.Bool() {
			n = 1 // the decoder stops at the first one all the same
		}
		s.faults = append(s.faults, &Fault{Off: off, Err: e, Count: n})
		limit, wantErr, ok = off, e, false
	case 3:
		// something else in place of the end code
		c.Fault("stream: end code missing")
		stray := make([]byte, 1+c.N(8))
		for i := range stray {
			stray[i] = byte(c.N(256))
		}
		stray[0] &= 0x7f // not the next stream of a system header
		if c.Chance(3) {
			copy(stray, []byte{0, 0, 2, 0})
		}
		if len(stray) > 2 && stray[0] == 0 && stray[1] == 0 && stray[2] == 1 {
			stray[2] = 3
		}
		s.data = append(append([]byte(nil), s.data[:w.endCode]...), stray...)
		wantErr, ok = ps.ErrProgramEndCodeNotFound, false
		if len(stray) < 4 {
			// too little to be an end code
			limit, wantErr, either = len(s.data), nil, true
			if c.Bool() {
				e := c.anyError(900)
				s.faults = append(s.faults, &Fault{Off: limit, Err: e, Count: -1, WithData: c.Bool()})
				wantErr, either = e, false
			}
		}
	}
	s.plainEnd()
	// what can be delivered
	var want []*psPack
	for i, p := range packs {
		if w.heads[i] > limit || p == broken {
			break
		}
		q := *p
		q.pkts = nil
		for j, k := range p.pkts {
			if w.ends[i][j] <= limit {
				q.pkts = append(q.pkts, k)
			}
		}
		want = append(want, &q)
	}
	// A header is read together with a look at what follows it: if those four bytes are
	// not there the pack may be reported or not.
	optional := -1
	// Likewise, the end of the list of streams in a system header shows in what follows.
	if n := len(want); n > 0 && broken == nil && (limit < w.heads[n-1]+4 && want[n-1].sys == nil || limit == w.heads[n-1]) {
		optional = n - 1
	}

	var held []heldPacket
	inspect := func(i int, when string) {
		if d := held[i].model.diff(held[i].p); d != "" {
			c.FailLater("packet-changed", "packet %d was right when it was delivered, %s: %s", i, when, d)
		}
	}
	packsSeen := 0
	closed, doneSeen := false, false
	leaked := c.Concurrent(func(sc *Sched) {
		if c.Bool() {
			s.gate = sc.Gate
		}
		var br bitreader.BitReader = bitreader.NewReader(s.reader())
		if c.Chance(3) {
			br = &gatedReader{br, sc.Gate, "bits"}
		}
		d := ps.NewDecoder(br)
		done := d.Go()
		late := c.Bool()
		// Packets of a pack may be consumed by somebody else than who takes packs.
		helper := c.Bool()
		sc.Go("consumer", func() {
			var prev <-chan *pes.Packet
			prevName := -1
			for {
				sc.Gate("consumer pack")
				p, isOpen := <-d.Packs()
				sc.Gate("consumer got")
				if prev != nil && cap(prev) == 0 { // with a buffer, it may be closed and not empty
					select {
					case x, ok := <-prev:
						if ok {
							c.FailLater("pack-overlap", "pack %d: packet %#x still delivered after the next pack", prevName, x.StreamID)
						}
					default:
						c.FailLater("pack-overlap", "the channel of pack %d was not closed when the next event of the pack channel came", prevName)
					}
				}
				if !isOpen {
					closed = true
					c.Ev("packs closed", packsSeen)
					break
				}
				i := packsSeen
				c.Ev("pack", i)
				if i >= len(want) {
					c.FailLater("pack-extra", "pack %d, want only %d", i, len(want))
					return
				}
				if df := want[i].diff(p); df != "" {
					c.FailLater("pack-differs", "pack %d: %s", i, df)
					return
				}
				packsSeen++
				ch := p.Packets()
				prev, prevName = ch, i
				drain := func(name string) {
					k := 0
					for {
						sc.Gate(name)
						x, ok := <-ch
						sc.Gate(name + " got")
						if !ok {
							c.Ev("pack drained", i, k)
							if k != len(want[i].pkts) {
								c.FailLater("packet-lost", "pack %d: %d packets, want %d", i, k, len(want[i].pkts))
							}
							return
						}
						c.Ev("packet", i, k)
						if k >= len(want[i].pkts) {
							c.FailLater("packet-extra", "pack %d: packet %d, want only %d", i, k, len(want[i].pkts))
							return
						}
						if df := want[i].pkts[k].diff(x); df != "" {
							c.FailLater("packet-differs", "pack %d packet %d: %s", i, k, df)
							return
						}
						held = append(held, heldPacket{want[i].pkts[k], x})
						if late && len(held) > 1 {
							inspect(len(held)-2, "later")
						}
						k++
					}
				}
				if helper {
					name := fmt.Sprintf("helper%d", i)
					if c.huge {
						name = fmt.Sprintf("helper%d", i%16)
					}
					sc.Go(name, func() { drain(name + " recv") })
				} else {
					drain("consumer recv")
				}
			}
		})
		sc.Go("waiter", func() {
			v, isOpen := <-done
			sc.Gate("waiter got")
			doneSeen = true
			c.Ev("done")
			if !isOpen || v != ok {
				c.FailLater("wrong-completion", "completion was signalled with %v, %v, want %v", v, isOpen, ok)
				return
			}
			err := d.Err()
			if err != wantErr && !(either && isEnd(err)) {
				c.FailLater("wrong-error", "Err() = %v, want %v", err, wantErr)
			}
			select {
			case _, isOpen := <-d.Packs():
				if isOpen {
					c.FailLater("late-pack", "a pack was delivered after completion was signalled")
				}
			default:
				if !closed && cap(d.Packs()) == 0 {
					c.FailLater("not-closed", "completion was signalled before the pack channel was closed")
				}
			}
		})
		sc.Run()
		for i := range held {
			inspect(i, "at the end of the run")
		}
		if c.viol != nil {
			panic(failure{c.viol})
		}
	})
	c.nontrivial = true
	if c.viol != nil {
		return
	}
	if !closed {
		c.Fail("not-closed", "the pack channel was never closed (%d of %d packs): %s", packsSeen, len(want), leaked)
	}
	if packsSeen != len(want) && !(optional >= 0 && packsSeen == optional) {
		c.Fail("pack-lost", "%d packs delivered, want %d", packsSeen, len(want))
	}
	if !doneSeen {
		c.Fail("no-completion", "completion was never signalled: %s", leaked)
	}
	if leaked != "" {
		c.Fail("goroutine-leak", "a goroutine is blocked for ever after completion: %s", leaked)
	}
}

func init() {
	register(&Property{ID: "C11", Quick: 600000, Thorough: 20000000,
		Scenarios: []Scenario{{"reader", 1, scenPackReader}},
		Rule:      "A run draws packs (stuffing, system headers, padding, empty packs) and reads the payload with drawn sizes, fragmentation, transient errors between parts, cuts at any byte or a persistent error.",
		Real:      []string{"ps pack reader, pack header, system header, pes.Packet (built from the repository's tree, instrumented)", "github.com/32bitkid/bitreader"}, Stub: stubSrc,
		Assume: []string{"time stamps are compared modulo 2^32, the width of the API's fields"}})
	register(&Property{ID: "C12", Quick: 120000, Thorough: 5000000,
		Scenarios: []Scenario{{"decoder", 1, scenPSDecoder}},
		Rule:      "A run decodes drawn packs under a drawn schedule of the decoder's goroutines, a consumer (packets possibly taken by a helper), and a waiter, with cuts, source errors and a missing end code.",
		Real:      []string{"ps.Decoder and the goroutines it starts, pes.Packet (built from the repository's tree, instrumented with yield points)", "github.com/32bitkid/bitreader", "Go channels"},
		Stub:      []string{"goroutine scheduling", "io.Reader source", "consumer, helper and waiter (simulated callers)"},
		Assume:    []string{"the consumer drains every pack's channel, as the design requires"}})
}
