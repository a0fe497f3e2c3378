package sim

import (
	"bytes"
	"fmt"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ts"
)

// ---- C01: packets are parsed exactly, whatever was read before

// plainEnd makes a source fit for a bit reader that the caller makes, rather than the
// library: those drop bytes that come together with an error.
func (s *Source) plainEnd() *Source {
	s.finalData = false
	for _, f := range s.faults {
		f.WithData = false
	}
	return s
}

func scenPacketParse(c *Ctx) {
	pkts := genStream(c, tsOpts{max: 30, min: 1})
	var data []byte
	markers := map[int]uint32{} // packet index -> marker after it
	src := []int{}              // offset of each packet
	for i, p := range pkts {
		src = append(src, len(data))
		data = append(data, p.encode()...)
		if c.Chance(8) {
			m := uint32(0xBEEF0000 + i)
			markers[i] = m
			data = append(data, byte(m>>24), byte(m>>16), byte(m>>8), byte(m))
		}
	}
	s := NewSource(c, "ts", data)
	id := 1
	for i := range pkts {
		if c.Chance(10) {
			s.faults = append(s.faults, &Fault{Off: src[i], Err: &SimErr{ID: id}, Count: 1 + c.N(3)})
			id++
		}
	}
	s.plainEnd()
	br := bitreader.NewReader(s.reader())
	var p *ts.Packet
	errs := 0
	for i := 0; i < len(pkts); {
		var err error
		fresh := p == nil || c.Chance(3)
		if fresh {
			p, err = ts.NewPacket(br)
		} else {
			err = p.Next(br)
		}
		c.Ev("packet", i, errCode(err))
		if err != nil {
			f := s.faultAt(src[i], err)
			if f == nil {
				c.Fail("wrong-error", "packet %d of %d: unexpected error %v", i, len(pkts), err)
			}
			errs++
			if errs > s.transient() {
				c.Fail("error-repeated", "more errors than were injected")
			}
			continue
		}
		if d := pkts[i].diff(p); d != "" {
			c.Fail("packet-differs", "packet %d (reused=%v): %s", i, !fresh, d)
		}
		if !fresh && i > 0 {
			if (pkts[i-1].af != nil) && pkts[i].af == nil {
				c.Probe("reused: adaptation field before, none now")
			}
			if len(pkts[i-1].payload) > 0 && len(pkts[i].payload) == 0 {
				c.Probe("reused: payload before, none now")
			}
			c.nontrivial = true
		}
		if m, ok := markers[i]; ok {
			for k := 0; ; k++ {
				v, err := br.Read32(32)
				if err != nil {
					if s.faultAt(src[i]+188, err) == nil && (i+1 >= len(src) || s.faultAt(src[i+1], err) == nil) {
						c.Fail("wrong-length", "reading what follows packet %d: %v", i, err)
					}
					if k > 20 {
						c.Fail("wrong-length", "reading what follows packet %d: %v", i, err)
					}
					continue
				}
				if v != m {
					c.Fail("wrong-length", "packet %d: what follows it reads %#x, want %#x: the packet did not take 188 bytes", i, v, m)
				}
				break
			}
		}
		i++
	}
	if s.mode != fragFull {
		c.nontrivial = true
	}
	err := p.Next(br)
	if err != io.EOF {
		c.Fail("wrong-end", "after the last packet: %v, want EOF", err)
	}
}

// faultAt finds the fault at an offset that made err.
func (s *Source) faultAt(off int, err error) *Fault {
	for _, f := range s.faults {
		if f.Off == off && f.Err == err {
			return f
		}
	}
	return nil
}

// ---- C02: resynchronisation

// damage draws bytes in place of or between packets.
func genGarbage(c *Ctx, n int, sync int) []byte {
	g := make([]byte, n)
	r := c.Rand()
	r.Fill(g)
	cleanSync(g)
	if n > 0 {
		for i := 0; i < sync; i++ {
			g[r.N(n)] = 0x47
		}
	}
	return g
}

type segment struct {
	intact []*tsPacket
	data   []byte
}

func genDamaged(c *Ctx) (segs []segment, data []byte) {
	pids := c.pids()
	n := c.Range(1, 4)
	for i := 0; i < n; i++ {
		if i > 0 || c.Bool() {
			var d []byte
			switch c.N(4) {
			case 0: // garbage inserted
				c.Fault("stream: garbage inserted")
				size := []int{1, 5, 187, 188, 189, 376, 377, 600}[c.N(8)]
				if c.Bool() {
					size = c.N(700)
				}
				d = genGarbage(c, size, c.N(3))
			case 1: // bytes lost
				c.Fault("stream: bytes lost")
				ps := encodeAll(genStream(c, tsOpts{max: 4, min: 1, pids: pids}))
				a := c.N(len(ps))
				b := a + 1 + c.N(len(ps)-a)
				d = append(append(d, ps[:a]...), ps[b:]...)
			case 2: // bytes altered
				c.Fault("stream: bytes altered")
				d = encodeAll(genStream(c, tsOpts{max: 4, min: 1, pids: pids}))
				for k := 1 + c.N(6); k > 0; k-- {
					if c.Bool() {
						d[c.N(len(d)/188)*188+c.N(6)] ^= byte(1 + c.N(255)) // headers
					} else {
						d[c.N(len(d))] ^= byte(1 + c.N(255))
					}
				}
			case 3: // a tail of a packet, then the head of another
				c.Fault("stream: packets cut short")
				ps := encodeAll(genStream(c, tsOpts{max: 2, min: 2, pids: pids}))
				d = append(append(d, ps[c.N(188):188]...), ps[188:188+c.N(188)]...)
			}
			segs = append(segs, segment{data: d})
			data = append(data, d...)
		}
		run := genStream(c, tsOpts{max: 8, min: 3, pids: pids, noSync: true})
		b := encodeAll(run)
		segs = append(segs, segment{intact: run, data: b})
		data = append(data, b...)
	}
	return
}

func scenResync(c *Ctx) {
	segs, data := genDamaged(c)
	s := NewSource(c, "ts", data).plainEnd()
	br := bitreader.NewReader(s.reader())
	// item: a packet read, or nil for an error
	type item struct {
		p   *ts.Packet
		err error
	}
	var items []item
	var p *ts.Packet
	reuse := c.Bool()
	for calls := 0; ; calls++ {
		if p == nil || !reuse {
			p = new(ts.Packet)
		}
		err := p.Next(br)
		c.Ev("packet", calls, errCode(err))
		if isEnd(err) {
			break
		}
		if calls > len(data)/4+50 {
			c.Fail("no-progress", "%d reads of %d bytes and no end", calls, len(data))
		}
		if err != nil {
			if err == ts.ErrNoSyncByte {
				c.Probe("no sync byte")
			}
			items = append(items, item{nil, err})
			continue
		}
		q := *p
		q.Payload = append([]byte{}, p.Payload...)
		items = append(items, item{&q, nil})
	}
	at := 0
	for k, sg := range segs {
		if sg.intact == nil {
			continue
		}
		want := sg.intact
		if k > 0 { // the first may be swallowed
			want = want[1:]
		}
		// Find the run among what was read: consecutive, nothing in between. Packets
		// may look alike, so report the place where most of it is.
		best, why := -1, "not found at all"
		found := -1
		for i := at; i < len(items) && found < 0; i++ {
			j := 0
			msg := ""
			for ; j < len(want) && i+j < len(items); j++ {
				if items[i+j].p == nil {
					msg = "error " + items[i+j].err.Error()
					break
				}
				if d := want[j].diff(items[i+j].p); d != "" {
					msg = d
					break
				}
			}
			if j == len(want) {
				found = i
			} else if j > best {
				best = j
				if msg == "" {
					msg = "the stream ended"
				}
				why = fmt.Sprintf("at packet %d: %s", j+len(sg.intact)-len(want), msg)
			}
			if k == 0 && found < 0 {
				break // nothing may come before an undamaged start
			}
		}
		if found < 0 {
			c.Fail("packet-lost", "intact run of %d packets (segment %d) was not read as it is: %s", len(sg.intact), k, why)
		}
		i := found
		at = i + len(want)
	}
	// Nothing may be invented either: every packet is 188 bytes of the stream.
	if len(items) > 0 && at > len(items) {
		bug("resync bookkeeping")
	}
}

// scenSearch looks at the search distance.
func scenSearch(c *Ctx) {
	var data []byte
	pkts := genStream(c, tsOpts{max: 5, min: 2, noSync: true, pids: c.pids()})
	gaps := make([]int, len(pkts))
	for i, p := range pkts {
		if i == 0 || c.Chance(3) {
			g := []int{0, 1, 2, 100, 186, 187, 188, 189, 190, 375, 376, 377, 564, 565}[c.N(14)]
			if g > 0 {
				c.Fault("stream: garbage inserted")
			}
			gaps[i] = g
			data = append(data, genGarbage(c, g, 0)...)
		}
		data = append(data, p.encode()...)
	}
	s := NewSource(c, "ts", data).plainEnd()
	br := bitreader.NewReader(s.reader())
	p := new(ts.Packet)
	for i, w := range pkts {
		errs := 0
		for {
			err := p.Next(br)
			c.Ev("packet", i, errCode(err))
			if err == nil {
				break
			}
			if err != ts.ErrNoSyncByte {
				c.Fail("wrong-error", "searching %d bytes for packet %d: %v, want ErrNoSyncByte", gaps[i], i, err)
			}
			errs++
			if errs > gaps[i]/188+2 {
				c.Fail("no-progress", "ErrNoSyncByte %d times while searching %d bytes", errs, gaps[i])
			}
		}
		if gaps[i] <= 188 && errs > 0 {
			c.Fail("search-distance", "sync byte %d bytes away was not found by the same call", gaps[i])
		}
		if gaps[i] > 188 && errs == 0 {
			c.Fail("search-distance", "no ErrNoSyncByte although the sync byte is %d bytes away", gaps[i])
		}
		if d := w.diff(p); d != "" {
			c.Fail("packet-differs", "packet %d after %d bytes of garbage: %s", i, gaps[i], d)
		}
	}
}

// scenHiccup has the source fail for a moment anywhere, inside of packets too.
func scenHiccup(c *Ctx) {
	pkts := genStream(c, tsOpts{max: 10, min: 2, noSync: true, pids: c.pids()})
	var data []byte
	var ends []int
	gaps := [][2]int{}
	for i, p := range pkts {
		if i > 0 && c.Chance(6) {
			g := []int{1, 100, 187, 188, 189, 200, 376, 400, 800}[c.N(9)]
			c.Fault("stream: garbage inserted")
			gaps = append(gaps, [2]int{len(data), len(data) + g})
			data = append(data, genGarbage(c, g, 0)...)
		}
		data = append(data, p.encode()...)
		ends = append(ends, len(data))
	}
	s := NewSource(c, "ts", data).plainEnd()
	e := c.ioError(1)
	hurt := map[int]bool{} // packets that may be missing
	mark := func(off int) {
		i := upTo(ends, off)
		hurt[i] = true
		if i < len(ends) && off >= ends[i]-188 {
			hurt[i+1] = true
		}
	}
	failed, fails := 0, 0
	br := bitreader.NewReader(s.reader())
	if c.Bool() {
		b := c.N(8 * len(s.data))
		s.bits = &bitSource{c: c, at: b, err: e, once: true}
		br = s.bitReader(br)
		mark(b / 8)
	} else {
		off := 0
		for k := 1 + c.N(3); k > 0; k-- {
			off += c.N(len(s.data))
			if len(gaps) > 0 && c.Bool() { // while the sync byte is looked for
				if g := gaps[c.N(len(gaps))]; g[0] >= off-len(s.data) {
					off = c.Range(g[0], g[1])
					if n := (off - g[0]) / 188; c.Bool() && n > 0 {
						off = g[0] + 188*n - c.N(4)
					}
					c.Probe("source fails while the sync byte is looked for")
				}
			}
			if len(s.faults) > 0 && off <= s.faults[len(s.faults)-1].Off {
				break
			}
			if off < len(s.data) {
				fails++
				s.faults = append(s.faults, &Fault{Off: off, Err: e, Count: 1})
				mark(off)
			}
			off++
		}
	}
	at := 0
	p := new(ts.Packet)
	reuse := c.Bool()
	for calls := 0; ; calls++ {
		if !reuse {
			p = new(ts.Packet)
		}
		err := p.Next(br)
		c.Ev("packet", calls, errCode(err))
		if isEnd(err) {
			break
		}
		if calls > len(pkts)+50+5*len(gaps) {
			c.Fail("no-progress", "%d reads of %d packets and no end", calls, len(pkts))
		}
		if err == e {
			failed++
			continue
		}
		if err == ts.ErrNoSyncByte {
			continue
		}
		if err != nil {
			c.Fail("wrong-error", "the source failed for a moment, and a packet after that was read as %v", err)
		}
		d := ""
		for ; at < len(pkts); at++ {
			if d = pkts[at].diff(p); d == "" || !hurt[at] {
				break
			}
		}
		if at == len(pkts) {
			c.Fail("packet-extra", "a packet that is not in the stream, or once more")
		}
		if d != "" {
			c.Fail("packet-lost", "packet %d, not near the place where the source failed, was not read as it is: %s", at, d)
		}
		at++
	}
	if failed < fails {
		c.Fail("error-lost", "the source failed %d times, of which %d were reported", fails, failed)
	}
	for ; at < len(pkts); at++ {
		if !hurt[at] {
			c.Fail("packet-lost", "packet %d, not near the place where the source failed, was never read", at)
		}
	}
}

// scenReaderResync reads a payload reader on after ErrNoSyncByte.
func scenReaderResync(c *Ctx) {
	units := c.Bool()
	readerResync(c, units, !units && c.Chance(3), !units && c.Chance(3))
}

func scenPayloadResync(c *Ctx) { readerResync(c, false, false, false) }
func scenUnitResync(c *Ctx)    { readerResync(c, true, false, false) }
func scenWindowResync(c *Ctx) {
	k := c.N(3)
	readerResync(c, false, k != 1, k != 2)
}

func readerResync(c *Ctx, units, skip, take bool) {
	var data, want []byte
	pkts := genStream(c, tsOpts{max: 12, min: 2, noSync: true, pids: c.pids()})
	where := genTester(c, 1)
	far := 0
	open, closed := !skip, false
	if skip || take {
		c.Probe("sync lost with a window set")
		for _, p := range pkts {
			if p.afc != 0 { // else the header may hold a sync byte
				p.prio = c.Chance(6)
				if c.Chance(4) {
					p.scram = 1
				}
			}
		}
	}
	failAt, whole := -1, len(pkts)
	for i, p := range pkts {
		if i > 0 && c.Chance(3) && !closed {
			g := []int{1, 100, 188, 189, 190, 376, 400, 800}[c.N(8)]
			c.Fault("stream: garbage inserted")
			if c.Chance(8) { // the source fails while the sync byte is looked for
				at := c.Range(0, g)
				if c.Bool() && g > 188 {
					at = 188*(1+c.N(g/188)) - c.N(4)
				}
				failAt, whole = len(data)+at, i
				data = append(data, genGarbage(c, g, 0)...)
				far += at / 189
				break
			}
			if g > 188 {
				far++
			}
			data = append(data, genGarbage(c, g, 0)...)
		}
		data = append(data, p.encode()...)
		in := open
		if !open && p.scram == 1 {
			open, in = true, true
		} else if open && take && p.prio {
			closed = true
		}
		if in && !closed && where.model(p) {
			want = append(want, p.payload...)
		}
	}
	s := NewSource(c, "ts", data)
	failure := c.ioError(1)
	if failAt >= 0 {
		c.Probe("source fails while the sync byte is looked for")
		s.faults = append(s.faults, &Fault{Off: failAt, Err: failure, Count: -1, WithData: c.Bool()})
	}
	items := toItems(want)
	pr := ts.NewPayloadReader(s.reader(), where.lib)
	if skip {
		pr.SkipUntil(func(p *ts.Packet) bool { return p.TransportScramblingControl == 1 })
	}
	if take {
		pr.TakeWhile(func(p *ts.Packet) bool { return !p.TransportPriority })
	}
	var r io.Reader = pr
	if units {
		r = ts.NewPayloadUnitReader(s.reader(), where.lib)
		var outs []int
		items, outs, _ = unitItems(pkts, where)
		if failAt >= 0 { // and the unit does not end there
			items = items[:outs[whole]]
		}
	}
	got, errs := 0, 0
	check := func(v uint16) {
		if got >= len(items) || items[got] != v {
			c.Fail("bytes-differ", "payload differs at item %d of %d (units %v)", got, len(items), units)
		}
		got++
	}
	readDriver(c, r, genSizes(c), func(p []byte, err error) bool {
		for _, v := range p {
			check(uint16(v))
		}
		if err == nil {
			return false
		}
		if err == ts.EOP && units {
			check(eop)
			return false
		}
		if err == io.EOF && (failAt < 0 || closed) {
			return true
		}
		if err == failure && failAt >= 0 && !closed {
			return true
		}
		if err != ts.ErrNoSyncByte {
			c.Fail("wrong-error", "unexpected error %v", err)
		}
		errs++
		if errs > 5*far {
			c.Fail("no-progress", "%d errors for %d gaps", errs, far)
		}
		return false
	})
	if errs < far {
		c.Fail("search-distance", "%d ErrNoSyncByte for %d gaps without a sync byte within 188 bytes", errs, far)
	}
	if got != len(items) {
		c.Fail("bytes-lost", "got %d items of %d (units %v)", got, len(items), units)
	}
}

// ---- C03, C04: payload reader

// genFaults places faults on the boundaries of packets of size unit.
func genBoundaryFaults(c *Ctx, s *Source, bounds []int, chance int, withData bool) {
	id := 1
	for _, off := range bounds {
		if c.Chance(chance) {
			s.faults = append(s.faults, &Fault{Off: off, Err: &SimErr{ID: id}, Count: 1 + c.N(2), WithData: withData && c.Bool()})
			id++
		}
	}
}

// tsBounds lists the offsets at which packets start, and the end.
func tsBounds(n int) []int {
	b := make([]int, n+1)
	for i := range b {
		b[i] = 188 * i
	}
	return b
}

type tsEnd int

const (
	endPlain tsEnd = iota
	endCut         // truncated inside a packet
	endError       // persistent error
)

// genEnd draws how a stream of n packets ends, and applies it to the source. It
// returns how many packets can be read, and the error that follows.
func genEnd(c *Ctx, s *Source) (whole int, want error) {
	n := len(s.data) / 188
	switch tsEnd(c.Pick(5, 2, 3)) {
	case endCut:
		if n == 0 {
			return 0, io.EOF
		}
		cut := c.N(n*188 + 1)
		c.Fault("stream: cut")
		s.data = s.data[:cut]
		if cut%188 == 0 {
			return cut / 188, io.EOF
		}
		return cut / 188, io.ErrUnexpectedEOF
	case endError:
		off := c.N(n*188 + 1)
		if c.Bool() {
			off = off / 188 * 188
		}
		e := c.anyError(900)
		var keep []*Fault
		for _, f := range s.faults {
			if f.Off < off {
				keep = append(keep, f)
			}
		}
		s.faults = append(keep, &Fault{Off: off, Err: e, Count: -1, WithData: c.Bool()})
		return off / 188, e
	}
	return n, io.EOF
}

func scenPayloadReader(c *Ctx) { payloadReader(c, false) }
func scenWindow(c *Ctx)        { payloadReader(c, true) }

func payloadReader(c *Ctx, windowed bool) {
	pkts := genStream(c, tsOpts{max: 24, markers: windowed})
	where := genTester(c, 2)
	var skip, take func(*tsPacket) bool
	if windowed {
		hasSkip, hasTake := c.Pick(1, 3) == 1, c.Pick(1, 3) == 1
		// markers: scrambling control 1 opens, transport priority closes
		if hasSkip {
			skip = func(p *tsPacket) bool { return p.scram == 1 }
			if !c.Chance(4) && len(pkts) > 0 {
				for k := 1 + c.N(2); k > 0; k-- {
					pkts[c.N(len(pkts))].scram = 1
				}
			}
		}
		if hasTake {
			take = func(p *tsPacket) bool { return !p.prio }
			if !c.Chance(4) && len(pkts) > 0 {
				for k := 1 + c.N(3); k > 0; k-- {
					pkts[c.N(len(pkts))].prio = true
				}
			}
		}
	}
	s := NewSource(c, "ts", encodeAll(pkts))
	var bounds []int
	if c.Bool() {
		bounds = tsBounds(len(pkts))
	}
	genBoundaryFaults(c, s, bounds, 5, true)
	whole, endErr := genEnd(c, s)

	r := ts.NewPayloadReader(s.reader(), where.lib)
	if skip != nil {
		r.SkipUntil(func(p *ts.Packet) bool { return p.TransportScramblingControl == 1 })
	}
	if take != nil {
		r.TakeWhile(func(p *ts.Packet) bool { return !p.TransportPriority })
	}
	// The model: which packets' payload comes out, and how that ends.
	var want []byte
	open := skip == nil
	closed := -1
	end := make([]int, 0, whole) // bytes out by the end of packet i
	for i := 0; i < whole; i++ {
		p := pkts[i]
		if closed >= 0 {
			break
		}
		in := open
		if !open && skip(p) {
			open, in = true, true
			c.Probe("window opened")
		} else if open && take != nil && !take(p) {
			closed = i
			in = false
			c.Probe("window closed")
		}
		if in && where.model(p) {
			want = append(want, p.payload...)
		}
		end = append(end, len(want))
	}
	if closed >= 0 {
		endErr = io.EOF
	}
	if !open && windowed {
		c.Probe("window never opened")
	}
	c.Note("where %s, %d packets, window %v..%d, want %d bytes then %v", where.name, len(pkts), skip != nil, closed, len(want), endErr)
	var got []byte
	ended, later := false, 0
	lastErrs := 0
	readDriver(c, r, genSizes(c), func(p []byte, err error) bool {
		got = append(got, p...)
		if len(got) > len(want) {
			c.Fail("bytes-extra", "%d bytes delivered, the window has only %d", len(got), len(want))
		}
		if !bytes.Equal(p, want[len(got)-len(p):len(got)]) {
			c.Fail("bytes-differ", "differs at byte %d of %d", firstDiff(got, want), len(want))
		}
		if ended {
			if len(p) > 0 {
				c.Fail("bytes-extra", "bytes after the end")
			}
			if err == nil && p == nil {
				return false
			}
			later++
			// a zero-length read may return nothing at all
			if err != endErr && err != nil && !(endErr == io.ErrUnexpectedEOF && err == io.EOF) {
				c.Fail("wrong-end", "read %d after the end (%v) returned %v", later, endErr, err)
			}
			return later > 4
		}
		if err == nil {
			return false
		}
		if e, ok := err.(*SimErr); ok && err != endErr {
			// a transient error: everything before it must be out
			f := s.byErr(e)
			if f == nil || f.fired == 0 {
				c.Fail("wrong-error", "error that the source did not return: %v", err)
			}
			lastErrs++
			if lastErrs > s.transient() {
				c.Fail("error-repeated", "errors keep coming")
			}
			i := f.Off / 188
			if i > len(end) {
				i = len(end)
			}
			if i > 0 && len(got) != end[i-1] {
				c.Fail("bytes-lost", "source error at packet %d reported with %d bytes delivered, %d were there", i, len(got), end[i-1])
			}
			return false
		}
		if err != endErr {
			c.Fail("wrong-end", "ended with %v after %d of %d bytes, want %v", err, len(got), len(want), endErr)
		}
		if len(got) != len(want) {
			c.Fail("bytes-lost", "ended with %v after %d bytes, want %d", err, len(got), len(want))
		}
		ended = true
		return false
	})
	c.nontrivial = true
}

func (s *Source) byErr(e error) *Fault {
	for _, f := range s.faults {
		if f.Err == e {
			return f
		}
	}
	return nil
}

// ---- C05: payload unit reader

type unitModel struct {
	units [][]byte
	// done[i]: bytes of unit cur[i] buffered once packet i has been read
	cur  []int
	size []int
}

// modelUnits divides accepted packets into units.
func modelUnits(pkts []*tsPacket, where func(*tsPacket) bool) *unitModel {
	m := &unitModel{}
	for _, p := range pkts {
		if where(p) {
			if p.pusi {
				m.units = append(m.units, []byte{})
			}
			if n := len(m.units); n > 0 {
				m.units[n-1] = append(m.units[n-1], p.payload...)
			}
		}
		n := len(m.units)
		m.cur = append(m.cur, n-1)
		if n > 0 {
			m.size = append(m.size, len(m.units[n-1]))
		} else {
			m.size = append(m.size, 0)
		}
	}
	return m
}

func scenUnitReader(c *Ctx) {
	pkts := genStream(c, tsOpts{max: 24})
	where := genTester(c, 1)
	s := NewSource(c, "ts", encodeAll(pkts))
	var bounds []int
	if c.Bool() {
		bounds = tsBounds(len(pkts))
	}
	genBoundaryFaults(c, s, bounds, 5, true)
	whole, endErr := genEnd(c, s)
	m := modelUnits(pkts[:whole], where.model)
	all := modelUnits(pkts, where.model)
	r := ts.NewPayloadUnitReader(s.reader(), where.lib)

	var acc []byte // bytes of the unit being read
	unit := 0      // its index
	ended := 0
	errs := 0
	var lastErr error
	readDriver(c, r, genSizes(c), func(p []byte, err error) bool {
		acc = append(acc, p...)
		if len(p) > 0 {
			if unit >= len(m.units) {
				c.Fail("bytes-extra", "%d bytes beyond the last unit", len(p))
			}
			u := m.units[unit]
			if len(acc) > len(u) || !bytes.Equal(p, u[len(acc)-len(p):len(acc)]) {
				c.Fail("bytes-differ", "unit %d of %d (%d bytes): differs at byte %d (%d bytes read without EOP)", unit, len(m.units), len(u), firstDiff(acc, u), len(acc))
			}
		}
		if ended > 0 && len(p) > 0 {
			c.Fail("bytes-extra", "bytes after the end")
		}
		switch {
		case err == nil:
			return false
		case err == ts.EOP:
			if ended > 0 {
				if lastErr == io.EOF {
					c.Fail("extra-eop", "EOP after the end")
				}
				ended++
				return ended > 6
			}
			if unit >= len(m.units) {
				c.Fail("extra-eop", "EOP beyond the last unit (%d units)", len(m.units))
			}
			if len(acc) != len(m.units[unit]) {
				c.Fail("unit-cut", "EOP after %d bytes of unit %d, want %d", len(acc), unit, len(m.units[unit]))
			}
			if unit == len(m.units)-1 && endErr != io.EOF {
				c.Fail("unit-cut", "unit %d ended with EOP although the source failed inside it (%v)", unit, endErr)
			}
			c.Probe("unit delivered")
			unit++
			acc = acc[:0]
			return false
		}
		if e, ok := err.(*SimErr); ok && err != endErr && ended == 0 {
			f := s.byErr(e)
			if f == nil || f.fired == 0 {
				c.Fail("wrong-error", "error that the source did not return: %v", err)
			}
			errs++
			if errs > s.transient() {
				c.Fail("error-repeated", "errors keep coming")
			}
			if i := f.Off/188 - 1; i >= 0 && all.cur[i] >= 0 {
				if all.cur[i] != unit || len(acc) != all.size[i] {
					c.Fail("bytes-lost", "source error after packet %d: %d bytes of unit %d delivered, want %d bytes of unit %d", i, len(acc), unit, all.size[i], all.cur[i])
				}
				c.Probe("error inside a unit")
			} else if len(acc) > 0 || unit > 0 {
				c.Fail("bytes-extra", "error before the first unit start but bytes were delivered")
			}
			return false
		}
		if ended > 0 {
			if err != endErr && err != io.EOF {
				c.Fail("wrong-end", "after the end (%v): %v", endErr, err)
			}
			ended++
			return ended > 6
		}
		if err != endErr {
			c.Fail("wrong-end", "ended with %v in unit %d of %d, want %v", err, unit, len(m.units), endErr)
		}
		lastErr = err
		if endErr == io.EOF {
			if unit != len(m.units) || len(acc) > 0 {
				c.Fail("unit-lost", "EOF after %d units and %d bytes, want %d units", unit, len(acc), len(m.units))
			}
		} else if len(m.units) > 0 {
			if unit != len(m.units)-1 || len(acc) != len(m.units[unit]) {
				c.Fail("bytes-lost", "%v after %d bytes of unit %d, want %d bytes of unit %d", err, len(acc), unit, len(m.units[len(m.units)-1]), len(m.units)-1)
			}
		}
		ended = 1
		return false
	})
	c.nontrivial = true
}

var (
	realTS  = []string{"ts.Packet, adaptation field, payload reader, payload unit reader (built from the repository's tree, instrumented)", "github.com/32bitkid/bitreader"}
	stubSrc = []string{"io.Reader source (simulated: fragmentation, errors, truncation)"}
)

func init() {
	register(&Property{ID: "C01", Quick: 400000, Thorough: 20000000,
		Scenarios: []Scenario{{"parse", 1, scenPacketParse}},
		Rule:      "A run draws a multiplex of up to 30 packets (all adaptation field layouts), inserts raw markers between some, draws fragmentation and transient errors, and reads it with reused and new Packet values, comparing each packet with the model value it was encoded from.",
		Real:      realTS, Stub: stubSrc,
		Assume: []string{"private data bytes of an adaptation field have no exported accessor and are not compared"}})
	register(&Property{ID: "C02", Quick: 400000, Thorough: 20000000,
		Scenarios: []Scenario{{"damage", 3, scenResync}, {"search", 1, scenSearch}, {"hiccup", 1, scenHiccup}, {"reader", 1, scenReaderResync}},
		Rule:      "A run alternates intact runs of packets with damage (garbage, loss, alteration, cuts), reads to the end through errors, and looks for every intact packet but the first of each run.",
		Real:      realTS, Stub: stubSrc})
	register(&Property{ID: "C03", Quick: 400000, Thorough: 20000000,
		Scenarios: []Scenario{{"payload", 9, scenPayloadReader}, {"lost sync", 1, scenPayloadResync}},
		Rule:      "A run draws a multiplex, a tester, read sizes, fragmentation, transient errors at packet boundaries and an ending (EOF, cut at any byte, persistent error), and compares the bytes with the concatenated payloads of the model.",
		Real:      realTS, Stub: stubSrc})
	register(&Property{ID: "C04", Quick: 400000, Thorough: 20000000,
		Scenarios: []Scenario{{"window", 9, scenWindow}, {"lost sync", 1, scenWindowResync}},
		Rule:      "As C03 with a skip and/or take condition met at drawn packets (or never).",
		Real:      realTS, Stub: stubSrc})
	register(&Property{ID: "C05", Quick: 400000, Thorough: 20000000,
		Scenarios: []Scenario{{"units", 9, scenUnitReader}, {"lost sync", 1, scenUnitResync}},
		Rule:      "A run draws a multiplex with unit starts, a tester, read sizes, fragmentation, transient errors at packet boundaries and an ending, and compares each unit and each EOP with the model.",
		Real:      realTS, Stub: stubSrc})
}
