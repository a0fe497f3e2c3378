package sim

import (
	"io"
	"sort"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
)

// A component is something that takes a byte source apart: what it reads, what has to
// come out when only part of that can be read, and a driver that compares as it goes.
type component struct {
	name    string
	data    []byte
	ownBits bool // the caller makes the bit reader: see Source.plainEnd
	bits    bool // the bit reader can be replaced
	async   bool // the error is not seen again by reading on
	starts  []int
	// avail is how many items can be out if only off bytes can be read. eof tells that
	// the input ends there, rather than fails.
	avail func(off int, eof bool) (lo, hi int)
	// ready is how many of them must be out when the source halts there, where it differs.
	ready func(off int) int
	// run reads until an error (nil: success is reported otherwise), and checks that what
	// comes out is the next item for as long as there are fewer than exact.
	run func(c *Ctx, s *Source, exact int, after func(err error) bool) (got int, err error)
	// launch starts a component that has goroutines of its own, and those that use it,
	// under a scheduler; the function that it returns tells the outcome afterwards.
	launch func(c *Ctx, sc *Sched, s *Source, exact int, tag string) (outcome func(leaked string) (got int, err error))
	// the error at the end of the undamaged input
	end error
	// nothing beyond these bytes is ever looked at
	stop int
	// keeps damaged data from asking for a lot of memory legitimately
	clamp func(data []byte)
	// the memory that the headers in damaged data ask for
	mem func(data []byte) uint64
}

// bounded counts items whose ends are at most off.
func upTo(ends []int, off int) int { return sort.SearchInts(ends, off+1) }

// eop stands for the end of a payload unit in a sequence of bytes.
const eop = 256

// readItems drives a reader whose items are bytes (and EOP, where the reader has it).
func readItems(c *Ctx, r io.Reader, want []uint16, exact int, hasEOP bool, after func(error) bool) (got int, err error) {
	n := 0
	first := true
	final := error(nil)
	eops := 0
	check := func(v uint16) {
		if n < exact && (n >= len(want) || want[n] != v) {
			switch {
			case n >= len(want):
				c.Fail("bytes-extra", "more than the %d bytes there are", len(want))
			case v == eop || want[n] == eop:
				c.Fail("unit-cut", "EOP misplaced at item %d", n)
			default:
				c.Fail("bytes-differ", "differs at byte %d of %d", n, len(want))
			}
		}
		n++
		c.delivered = n
	}
	errsInARow := 0
	readDriver(c, r, genSizes(c), func(p []byte, err error) bool {
		for _, b := range p {
			check(uint16(b))
		}
		if len(p) > 0 {
			errsInARow = 0
		}
		if err == ts.EOP && hasEOP {
			if first {
				check(eop)
			} else if eops++; eops > len(want)+50_000 {
				c.Fail("no-progress", "EOP again and again")
			}
			return false
		}
		if err == nil {
			return false
		}
		if first {
			first = false
			final = err
			got = n
		}
		errsInARow++
		return errsInARow > 30 || after == nil || after(err)
	})
	return got, final
}

func toItems(b []byte) []uint16 {
	out := make([]uint16, len(b))
	for i, v := range b {
		out[i] = uint16(v)
	}
	return out
}

// readPackets drives a function that reads one item, and gives its difference from the
// model's item i.
func readPackets(c *Ctx, exact, size int, next func() error, diff func(i int) string, after func(error) bool) (got int, err error) {
	n := 0
	first := true
	final := error(nil)
	errsInARow := 0
	for calls := 0; ; calls++ {
		if calls > size+1000 {
			c.Fail("no-progress", "%d packets or errors from %d bytes, and no end", calls, size)
		}
		err := next()
		c.Ev("item", n, errCode(err))
		if err == nil {
			errsInARow = 0
			if n < exact {
				if d := diff(n); d != "" {
					c.Fail("packet-differs", "packet %d: %s", n, d)
				}
			}
			n++
			c.delivered = n
			continue
		}
		if first {
			first = false
			final = err
			got = n
		}
		errsInARow++
		if errsInARow > 30 || after == nil || after(err) {
			return got, final
		}
	}
}

func compTSPackets(c *Ctx) *component {
	pkts := genStream(c, tsOpts{max: 14})
	k := &component{name: "ts.Packet", data: encodeAll(pkts), ownBits: true, end: io.EOF}
	k.starts = tsBounds(len(pkts))
	k.avail = func(off int, eof bool) (int, int) { return off / 188, off / 188 }
	k.run = func(c *Ctx, s *Source, exact int, after func(error) bool) (int, error) {
		br := s.bitReader(bitreader.NewReader(s.reader()))
		p := new(ts.Packet)
		reuse := c.Bool()
		return readPackets(c, exact, len(s.data), func() (err error) {
			if reuse {
				return p.Next(br)
			}
			p, err = ts.NewPacket(br)
			return
		}, func(i int) string {
			if i >= len(pkts) {
				return "there is no such packet"
			}
			return pkts[i].diff(p)
		}, after)
	}
	return k
}

func compTSPayload(c *Ctx) *component {
	pkts := genStream(c, tsOpts{max: 14})
	where := genTester(c, 1)
	k := &component{name: "ts.NewPayloadReader", data: encodeAll(pkts), end: io.EOF}
	k.starts = tsBounds(len(pkts))
	var want []byte
	outs := []int{0}
	for _, p := range pkts {
		if where.model(p) {
			want = append(want, p.payload...)
		}
		outs = append(outs, len(want))
	}
	k.avail = func(off int, eof bool) (int, int) { return outs[off/188], outs[off/188] }
	items := toItems(want)
	k.run = func(c *Ctx, s *Source, exact int, after func(error) bool) (int, error) {
		return readItems(c, ts.NewPayloadReader(s.reader(), where.lib), items, exact, false, after)
	}
	return k
}

func compTSUnit(c *Ctx) *component {
	pkts := genStream(c, tsOpts{max: 14})
	where := genTester(c, 1)
	k := &component{name: "ts.NewPayloadUnitReader", data: encodeAll(pkts), end: io.EOF}
	k.starts = tsBounds(len(pkts))
	items, outs, open := unitItems(pkts, where)
	k.avail = func(off int, eof bool) (int, int) {
		i := off / 188
		n := outs[i]
		if eof && off%188 == 0 && open[i] {
			n++ // the last unit ends with EOP
		}
		return n, n
	}
	k.ready = func(off int) int { // the reader collects whole units
		n := outs[off/188]
		for n > 0 && items[n-1] != eop {
			n--
		}
		return n
	}
	k.run = func(c *Ctx, s *Source, exact int, after func(error) bool) (int, error) {
		want := items
		// Where the input ends early its last unit ends there as well.
		if n := len(s.data); n%188 == 0 && n/188 < len(outs) && open[n/188] {
			want = append(append([]uint16{}, items[:outs[n/188]]...), eop)
			if n == len(k.data) {
				want = items
			}
		}
		return readItems(c, ts.NewPayloadUnitReader(s.reader(), where.lib), want, exact, true, after)
	}
	return k
}

// unitItems is what the payload unit reader delivers, how much of that after each packet,
// and whether a unit has begun by then.
func unitItems(pkts []*tsPacket, where tester) (items []uint16, outs []int, open []bool) {
	outs, open = []int{0}, []bool{false}
	in := false
	for _, p := range pkts {
		if where.model(p) {
			if p.pusi {
				if in {
					items = append(items, eop)
				}
				in = true
			}
			if in {
				items = append(items, toItems(p.payload)...)
			}
		}
		outs = append(outs, len(items))
		open = append(open, in)
	}
	if in {
		items = append(items, eop)
	}
	return
}

func compPESPackets(c *Ctx) *component {
	pkts := genPES(c, pesOpts{max: 8})
	k := &component{name: "pes.Packet", ownBits: true, end: io.EOF}
	var ends []int
	for _, p := range pkts {
		k.starts = append(k.starts, len(k.data))
		k.data = append(k.data, p.encode()...)
		ends = append(ends, len(k.data))
	}
	k.starts = append(k.starts, len(k.data))
	k.avail = func(off int, eof bool) (int, int) { n := upTo(ends, off); return n, n }
	k.run = func(c *Ctx, s *Source, exact int, after func(error) bool) (int, error) {
		br := s.bitReader(bitreader.NewReader(s.reader()))
		p := new(pes.Packet)
		reuse := c.Bool()
		return readPackets(c, exact, len(s.data), func() (err error) {
			if reuse {
				return p.Next(br)
			}
			p, err = pes.NewPacket(br)
			return
		}, func(i int) string {
			if i >= len(pkts) {
				return "there is no such packet"
			}
			return pkts[i].diff(p)
		}, after)
	}
	return k
}

func compPESPayload(c *Ctx) *component {
	pkts := genPES(c, pesOpts{max: 8})
	k := &component{name: "pes.NewPayloadReader", end: io.EOF}
	var want []byte
	var ends []int
	outs := []int{0}
	for _, p := range pkts {
		k.starts = append(k.starts, len(k.data))
		k.data = append(k.data, p.encode()...)
		want = append(want, p.payload...)
		ends = append(ends, len(k.data))
		outs = append(outs, len(want))
	}
	k.starts = append(k.starts, len(k.data))
	k.avail = func(off int, eof bool) (int, int) { n := outs[upTo(ends, off)]; return n, n }
	items := toItems(want)
	k.run = func(c *Ctx, s *Source, exact int, after func(error) bool) (int, error) {
		return readItems(c, pes.NewPayloadReader(s.reader()), items, exact, false, after)
	}
	return k
}

// avail is how much of the elementary stream is out when only off bytes of the transport
// stream can be read.
func (l *esLayout) avail(off int) (lo, hi int) {
	if i := off / 188; i > 0 {
		lo = l.done[i-1]
		// A packet of unstated length ends with its payload unit; where the input
		// fails or ends inside that unit, some of it may come out or not.
		done := lo
		hi = done
		end := 0
		for _, p := range l.pes {
			start := end
			end += len(p.payload)
			if p.unbounded && end == done && start < lo {
				lo = start
			}
			if end > done {
				if p.unbounded && start == done {
					hi = end
				}
				break
			}
		}
	}
	return
}

func compStack(c *Ctx) *component {
	es := make([]byte, 1+c.N(2500))
	c.Rand().Data(es)
	l := genES(c, es, true)
	k := &component{name: "pes.NewPayloadReader over ts", data: encodeAll(l.pkts), end: io.EOF}
	k.starts = tsBounds(len(l.pkts))
	items := toItems(es)
	k.avail = func(off int, eof bool) (lo, hi int) { return l.avail(off) }
	k.run = func(c *Ctx, s *Source, exact int, after func(error) bool) (int, error) {
		return readItems(c, l.stack(c, s.reader()), items, exact, false, after)
	}
	return k
}

func compPackReader(c *Ctx) *component {
	packs := genPS(c, psOpts{maxPacks: 4, maxPkts: 4, pes: pesOpts{maxData: 300}})
	w := encodePS(packs, true)
	k := &component{name: "ps.NewPackReader", data: w.data, starts: w.starts, end: io.EOF}
	k.stop = len(w.data)
	k.avail = func(off int, eof bool) (int, int) { n := w.avail(off); return n, n }
	items := toItems(w.want)
	k.run = func(c *Ctx, s *Source, exact int, after func(error) bool) (int, error) {
		return readItems(c, ps.NewPackReader(s.reader()), items, exact, false, after)
	}
	return k
}

// compDemuxer: the items are packets.
func compDemuxer(c *Ctx) *component {
	pkts := genStream(c, tsOpts{max: 10})
	k := &component{name: "ts.Demuxer", data: encodeAll(pkts), end: io.EOF, async: true}
	k.starts = tsBounds(len(pkts))
	k.avail = func(off int, eof bool) (int, int) { return off / 188, off / 188 }
	k.launch = func(c *Ctx, sc *Sched, s *Source, exact int, tag string) func(string) (int, error) {
		closed, finished := false, false
		got := 0
		var err error
		if c.Bool() {
			s.gate = sc.Gate
		}
		d := ts.NewDemuxer(s.reader())
		ch := d.Where(func(*ts.Packet) bool { return true })
		done := d.Go()
		sc.Go(tag+"receiver", func() {
			for {
				sc.Gate(tag + "recv")
				p, ok := <-ch
				sc.Gate(tag + "got")
				if !ok {
					closed = true
					return
				}
				if got < exact {
					if got >= len(pkts) {
						c.FailLater("packet-extra", "packet %d, want only %d", got, len(pkts))
						return
					}
					if df := pkts[got].diff(p); df != "" {
						c.FailLater("packet-differs", "packet %d: %s", got, df)
						return
					}
				}
				got++
				c.delivered = got
			}
		})
		sc.Go(tag+"waiter", func() {
			<-done
			sc.Gate(tag + "done")
			finished = true
			err = d.Err()
		})
		return func(leaked string) (int, error) {
			settle(c, leaked, closed, finished)
			return got, err
		}
	}
	k.run = k.alone
	return k
}

// alone runs a component that has goroutines of its own.
func (k *component) alone(c *Ctx, s *Source, exact int, after func(error) bool) (int, error) {
	var outcome func(string) (int, error)
	leaked := c.Concurrent(func(sc *Sched) {
		outcome = k.launch(c, sc, s, exact, "")
		sc.Run()
	})
	return outcome(leaked)
}

func settle(c *Ctx, leaked string, closed, finished bool) {
	if c.viol != nil {
		panic(failure{c.viol})
	}
	if !closed {
		c.Fail("not-closed", "the channel was never closed: %s", leaked)
	}
	if !finished {
		c.Fail("no-completion", "completion was never signalled: %s", leaked)
	}
	if leaked != "" {
		c.Fail("goroutine-leak", "a goroutine is blocked for ever after completion: %s", leaked)
	}
}

// compDecoder: the items are the packets of all packs.
func compDecoder(c *Ctx) *component {
	packs := genPS(c, psOpts{maxPacks: 3, maxPkts: 3, pes: pesOpts{maxData: 120}})
	w := encodePS(packs, true)
	k := &component{name: "ps.Decoder", data: w.data, starts: w.starts, end: nil, async: true, ownBits: true}
	k.stop = len(w.data)
	var all []*pesPacket
	var ends []int
	for i, p := range packs {
		all = append(all, p.pkts...)
		ends = append(ends, w.ends[i]...)
	}
	k.avail = func(off int, eof bool) (int, int) { n := upTo(ends, off); return n, n }
	k.launch = func(c *Ctx, sc *Sched, s *Source, exact int, tag string) func(string) (int, error) {
		closed, finished := false, false
		got := 0
		var err error
		if c.Bool() {
			s.gate = sc.Gate
		}
		d := ps.NewDecoder(s.bitReader(bitreader.NewReader(s.reader())))
		done := d.Go()
		sc.Go(tag+"receiver", func() {
			for {
				sc.Gate(tag + "recv pack")
				pack, ok := <-d.Packs()
				sc.Gate(tag + "got pack")
				if !ok {
					closed = true
					return
				}
				for {
					sc.Gate(tag + "recv")
					p, ok := <-pack.Packets()
					sc.Gate(tag + "got")
					if !ok {
						break
					}
					if got < exact {
						if got >= len(all) {
							c.FailLater("packet-extra", "packet %d, want only %d", got, len(all))
							return
						}
						if df := all[got].diff(p); df != "" {
							c.FailLater("packet-differs", "packet %d: %s", got, df)
							return
						}
					}
					got++
					c.delivered = got
				}
			}
		})
		sc.Go(tag+"waiter", func() {
			ok := <-done
			sc.Gate(tag + "done")
			finished = true
			err = d.Err()
			if ok != (err == nil) {
				c.FailLater("wrong-completion", "completion was signalled with %v and Err() = %v", ok, err)
			}
		})
		return func(leaked string) (int, error) {
			settle(c, leaked, closed, finished)
			return got, err
		}
	}
	k.run = k.alone
	return k
}

var components = []func(*Ctx) *component{
	compTSPackets, compTSPayload, compTSUnit, compPESPackets, compPESPayload, compStack, compPackReader, compDemuxer, compDecoder,
}

func genComponent(c *Ctx) *component { return drawComponent(c, 3, 3, 3, 3, 3, 3, 3, 1, 1) }

func drawComponent(c *Ctx, weights ...int) *component {
	k := components[c.Pick(weights...)](c)
	c.Probe("component: " + k.name)
	c.Note("component %s, %d bytes", k.name, len(k.data))
	return k
}

// anyOffset draws an offset, biased to the seams of a stream.
func anyOffset(c *Ctx, k *component) int {
	n := len(k.data) + 1
	if c.Bool() && len(k.starts) > 0 {
		o := k.starts[c.N(len(k.starts))]
		if !c.Chance(4) {
			o += c.N(24) - 4
		}
		if o >= 0 && o < n {
			return o
		}
	}
	return c.N(n)
}

// ---- C13

func scenSourceError(c *Ctx) { sourceError(c, genComponent(c)) }

func sourceError(c *Ctx, k *component) {
	if (k.ownBits || k.bits) && c.Chance(6) {
		siteErrors(c, k)
		return
	}
	off := anyOffset(c, k)
	bit := c.N(8)
	for n := sweep(c, k); n > 0; n-- {
		sourceErrorAt(c, k, off, bit)
		off = (off + 1) % (len(k.data) + 1)
		bit = (bit + 3) % 8
	}
}

// siteErrors has the bit reader fail in calls drawn so that every place in the code that
// calls it is as likely as any other, however rarely it is reached.
func siteErrors(c *Ctx, k *component) {
	var sites [][]int
	index := map[uint64]int{}
	s := NewSource(c, k.name, k.data).Plain()
	s.bits = &bitSource{c: c, at: 8 * len(k.data), fired: 1, once: true}
	s.bits.rec = func(bit int, site uint64) {
		i, ok := index[site]
		if !ok {
			i = len(sites)
			index[site] = i
			sites = append(sites, nil)
		}
		sites[i] = append(sites[i], bit)
	}
	k.run(c, s, 1<<30, nil)
	if len(sites) == 0 {
		return
	}
	c.Probe("faults by call site")
	n := 2 + c.N(40)
	if k.async {
		n = 1
	}
	for ; n > 0; n-- {
		bits := sites[c.N(len(sites))]
		bit := bits[c.N(len(bits))]
		if bit >= 8*len(k.data) {
			bit = 8*len(k.data) - 1
		}
		sourceErrorWith(c, k, bit/8, bit%8, true)
	}
}

// sweep draws how many consecutive offsets of a stream are tried.
func sweep(c *Ctx, k *component) int {
	if k.async || len(k.data) > 200_000 || !c.Chance(12) {
		return 1
	}
	c.Probe("sweep over consecutive offsets")
	return 2 + c.N(60)
}

func sourceErrorAt(c *Ctx, k *component, off, bit int) {
	sourceErrorWith(c, k, off, bit, (k.ownBits || k.bits) && c.Chance(3))
}

// sourceErrorWith has the source or, if atBit, the bit reader fail.
func sourceErrorWith(c *Ctx, k *component, off, bit int, atBit bool) {
	s := NewSource(c, k.name, k.data)
	if k.stop > 0 && off >= k.stop {
		off = k.stop - 1
	}
	e := c.anyError(1)
	f := &Fault{Off: off, Err: e, Count: -1, WithData: c.Bool()}
	transient := c.Chance(3) || atBit && c.Bool()
	if transient {
		f.Count = 1
	}
	if atBit {
		if off == len(k.data) {
			bit = 0 // the end comes first
		}
		s.bits = &bitSource{c: c, at: 8*off + bit, err: e, once: transient}
	} else {
		s.faults = []*Fault{f}
	}
	unused := func() bool { return s.bits != nil && !s.bits.called }
	if k.ownBits {
		s.plainEnd()
	}
	lo, hi := k.avail(off, false)
	c.Note("error at %d of %d (transient %v): %d..%d items", off, len(k.data), transient, lo, hi)
	more := 0
	got, err := k.run(c, s, hi+1, func(err error) bool {
		more++
		if transient || unused() {
			return true
		}
		if err != e {
			c.Fail("error-replaced", "%s: the source failed for good at byte %d of %d, read %d after that returned %v", k.name, off, len(k.data), more, err)
		}
		return more > 3
	})
	if unused() {
		return
	}
	c.nontrivial = true
	where := ""
	if transient {
		where = " once"
	}
	if err != e {
		c.Fail("error-replaced", "%s: the source failed%s at byte %d of %d, and %v was reported after %d items, want the source's error after %d", k.name, where, off, len(k.data), err, got, lo)
	}
	if got > hi {
		c.Fail("bytes-extra", "%s: %d items before the source's error at byte %d, only %d were complete", k.name, got, off, hi)
	}
	if got < lo {
		c.Fail("bytes-lost", "%s: %d items before the source's error at byte %d, %d were complete", k.name, got, off, lo)
	}
}

// ---- C23

// scenStall has the source come to a halt, and looks at what was delivered by then.
func scenStall(c *Ctx) {
	if c.Chance(4) {
		sourceStall(c, compVideo(c))
		return
	}
	// Not the reader over a reader: io.Reader lets a Read wait until it can fill its
	// buffer, and so the outer one waits for up to seven bytes more than it needs.
	sourceStall(c, drawComponent(c, 3, 3, 3, 3, 3, 0, 3, 1, 1))
}

func sourceStall(c *Ctx, k *component) {
	off := anyOffset(c, k)
	for n := sweep(c, k); n > 0; n-- {
		if off > 0 {
			sourceStallAt(c, k, off)
		}
		off = (off + 1) % (len(k.data) + 1)
	}
}

func sourceStallAt(c *Ctx, k *component, off int) {
	s := NewSource(c, k.name, k.data)
	if k.ownBits {
		s.plainEnd()
	}
	s.finalData = false
	s.stall = off
	lo, hi := k.avail(off, false)
	if k.ready != nil {
		lo = k.ready(off)
	}
	c.Note("stalled at %d of %d: %d..%d items", off, len(k.data), lo, hi)
	c.delivered, c.pending = 0, 0
	waiting := false
	if k.launch != nil {
		c.Concurrent(func(sc *Sched) {
			k.launch(c, sc, s, hi+1, "")
			sc.Run()
		})
		if c.viol != nil {
			panic(failure{c.viol})
		}
		waiting = s.pos >= off
	} else {
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(stalled); !ok {
						panic(p)
					}
					waiting = true
				}
			}()
			k.run(c, s, hi+1, nil)
		}()
	}
	if waiting {
		c.Fault("source: stalled")
	}
	if c.delivered < lo && (c.pending == 0 || c.delivered+c.pending <= lo) {
		c.Fail("held-back", "%s: the source came to a halt at byte %d of %d; %d items were delivered by then, and %d more asked for, but %d had arrived", k.name, off, len(k.data), c.delivered, c.pending, lo)
	}
	if c.delivered > hi {
		c.Fail("bytes-extra", "%s: %d items before byte %d, only %d were complete", k.name, c.delivered, off, hi)
	}
}

// ---- C14

func scenCut(c *Ctx) { cutShort(c, genComponent(c)) }

func cutShort(c *Ctx, k *component) {
	cut := anyOffset(c, k)
	for n := sweep(c, k); n > 0; n-- {
		cutShortAt(c, k, cut)
		cut = (cut + 1) % (len(k.data) + 1)
	}
}

func cutShortAt(c *Ctx, k *component, cut int) {
	s := NewSource(c, k.name, k.data)
	if k.stop > 0 && cut >= k.stop {
		cut = k.stop - 1
	}
	c.Fault("stream: cut")
	s.data = s.data[:cut]
	if k.ownBits {
		s.plainEnd()
	}
	lo, hi := k.avail(cut, true)
	c.Note("cut to %d of %d: %d..%d items", cut, len(k.data), lo, hi)
	more := 0
	got, err := k.run(c, s, hi+1, func(err error) bool {
		more++
		if !isEnd(err) {
			c.Fail("wrong-end", "%s: cut at byte %d of %d, read %d from there returned %v", k.name, cut, len(k.data), more, err)
		}
		return more > 3
	})
	c.nontrivial = true
	if !isEnd(err) {
		c.Fail("wrong-end", "%s: cut at byte %d of %d, %v was reported after %d items", k.name, cut, len(k.data), err, got)
	}
	if got > hi {
		c.Fail("bytes-extra", "%s: %d items from a stream cut at byte %d, only %d were complete", k.name, got, cut, hi)
	}
	if got < lo {
		c.Fail("bytes-lost", "%s: %d items from a stream cut at byte %d, %d were complete", k.name, got, cut, lo)
	}
}

// ---- C15

// corrupt damages data, and returns the offset of the first damage.
func corrupt(c *Ctx, data []byte, starts []int) ([]byte, int) {
	first := len(data)
	for k := 1 + c.N(4); k > 0 && len(data) > 0; k-- {
		at := c.N(len(data))
		if c.Bool() && len(starts) > 0 {
			if o := starts[c.N(len(starts))] + c.N(24); o < len(data) {
				at = o
			}
		}
		if at < first {
			first = at
		}
		span := func(max int) int {
			n := 1 + c.N(max)
			if at+n > len(data) {
				n = len(data) - at
			}
			return n
		}
		switch c.N(7) {
		case 0:
			c.Fault("stored byte: bits flipped")
			data[at] ^= byte(1 << c.N(8))
		case 1:
			c.Fault("stored byte: overwritten")
			data[at] = []byte{0, 0xff, 0x47, 1, byte(c.N(256))}[c.N(5)]
		case 2:
			c.Fault("stored bytes: lost")
			n := span(300)
			data = append(data[:at:at], data[at+n:]...)
		case 3:
			c.Fault("stored bytes: inserted")
			g := make([]byte, 1+c.N(300))
			c.Rand().Fill(g)
			data = append(append(data[:at:at], g...), data[at:]...)
		case 4:
			c.Fault("stored bytes: duplicated")
			n := span(400)
			data = append(append(data[:at+n:at+n], data[at:at+n]...), data[at+n:]...)
		case 5:
			c.Fault("stored bytes: zeroed")
			n := span(64)
			for i := at; i < at+n; i++ {
				data[i] = 0
			}
		case 6:
			c.Fault("stored bytes: swapped")
			n := span(200) / 2
			for i := 0; i < n; i++ {
				data[at+i], data[at+n+i] = data[at+n+i], data[at+i]
			}
		}
	}
	return data, first
}

func scenCorrupt(c *Ctx) { corrupted(c, genComponent(c)) }

func corrupted(c *Ctx, k *component) {
	data, first := corrupt(c, append([]byte{}, k.data...), k.starts)
	if k.clamp != nil {
		k.clamp(data)
	}
	s := NewSource(c, k.name, data)
	if k.ownBits {
		s.plainEnd()
	}
	lo, _ := k.avail(first, false)
	c.Note("first damage at %d of %d: %d items before it", first, len(k.data), lo)
	before := allocated()
	ends := 0
	got, err := k.run(c, s, lo, func(err error) bool {
		if isEnd(err) {
			ends++
		}
		return ends > 2
	})
	c.nontrivial = true
	used := allocated() - before
	limit := uint64(4<<20 + 2000*len(data))
	if k.mem != nil {
		limit += k.mem(data)
	}
	if used > limit {
		c.Fail("memory", "%s: %d bytes of memory for %d bytes of input", k.name, used, len(data))
	}
	if got < lo {
		c.Fail("bytes-lost", "%s: %d items (then %v), %d were complete before the first damaged byte %d", k.name, got, err, lo, first)
	}
}

func init() {
	real := []string{"ts.Packet, ts payload reader, ts payload unit reader, ts.Demuxer, pes.Packet, pes payload reader, ps pack reader, ps.Decoder, alone and stacked (built from the repository's tree, instrumented)", "github.com/32bitkid/bitreader"}
	stub := append([]string{"goroutine scheduling and receivers (demuxer, decoder)"}, stubSrc...)
	register(&Property{ID: "C13", Quick: 600000, Thorough: 20000000,
		Scenarios: []Scenario{{"error", 1, scenSourceError}},
		Rule:      "A run draws a component and its input, an error at any byte (biased to the seams; once or for good; alone or with bytes), fragmentation and read sizes, and wants exactly the complete items and then that error value.",
		Real:      real, Stub: stub,
		Assume: []string{"packets and decoders over a bit reader that the caller makes are not given errors together with bytes: github.com/32bitkid/bitreader drops those bytes"}})
	register(&Property{ID: "C23", Quick: 160000, Thorough: 20000000,
		Scenarios: []Scenario{{"stall", 1, scenStall}},
		Rule:      "A run draws a component and its input, and the source comes to a halt at any byte (biased to the seams): what is complete by then must have been delivered, except what a read that is not full yet has in its buffer.",
		Real:      append([]string{"video.VideoSequence"}, real...), Stub: stub})
	register(&Property{ID: "C14", Quick: 700000, Thorough: 20000000,
		Scenarios: []Scenario{{"cut", 1, scenCut}},
		Rule:      "A run draws a component and its input, cuts that at any byte (biased to the seams), and wants exactly the complete items and then the end of input, again on every further read.",
		Real:      real, Stub: stub})
	register(&Property{ID: "C15", Quick: 700000, Thorough: 20000000,
		Scenarios: []Scenario{{"corrupt", 1, scenCorrupt}},
		Rule:      "A run draws a component and its input and damages that in up to four places, reads on through errors, bounds steps, reads and memory, and wants the items before the first damage to be exact.",
		Real:      real, Stub: stub})
}
