package sim

import (
	"bytes"
	"io"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ts"
)

// ---- C09

func scenPESPackets(c *Ctx) {
	pkts := genPES(c, pesOpts{min: 1})
	var data []byte
	var at []int
	for _, p := range pkts {
		at = append(at, len(data))
		data = append(data, p.encode()...)
	}
	s := NewSource(c, "pes", data)
	for i := range pkts {
		if c.Chance(10) {
			s.faults = append(s.faults, &Fault{Off: at[i], Err: &SimErr{ID: i + 1}, Count: 1 + c.N(2)})
		}
	}
	cut := -1
	if c.Chance(3) {
		cut = c.N(len(data) + 1)
		c.Fault("stream: cut")
		s.data = s.data[:cut]
	}
	s.plainEnd()
	br := bitreader.NewReader(s.reader())
	var p *pes.Packet
	errs := 0
	for i := 0; i < len(pkts); {
		if cut >= 0 && at[i]+len(pkts[i].encode()) > cut {
			break
		}
		var err error
		fresh := p == nil || c.Chance(3)
		if fresh {
			p, err = pes.NewPacket(br)
		} else {
			err = p.Next(br)
			c.nontrivial = true
		}
		c.Ev("packet", i, errCode(err))
		if err != nil {
			if s.faultAt(at[i], err) == nil {
				c.Fail("wrong-error", "packet %d (stream id %#x): unexpected error %v", i, pkts[i].id, err)
			}
			errs++
			if errs > s.transient() {
				c.Fail("error-repeated", "more errors than were injected")
			}
			continue
		}
		if d := pkts[i].diff(p); d != "" {
			c.Fail("packet-differs", "packet %d (stream id %#x, reused=%v): %s", i, pkts[i].id, !fresh, d)
		}
		i++
	}
	if s.mode != fragFull {
		c.nontrivial = true
	}
	if p == nil {
		p = new(pes.Packet)
	}
	var err error
	for k := 0; k < 5; k++ {
		err = p.Next(br)
		if _, ok := err.(*SimErr); !ok {
			break
		}
	}
	if cut < 0 {
		if err != io.EOF {
			c.Fail("wrong-end", "after the last packet: %v, want EOF", err)
		}
		return
	}
	inside := cut
	for i := range at {
		if at[i] <= cut {
			inside = cut - at[i]
			if n := len(pkts[i].encode()); inside >= n {
				inside -= n
			}
		}
	}
	switch {
	case err == nil:
		c.Fail("cut-packet", "the packet that was cut was delivered: %+v", *p)
	case inside == 0 && err != io.EOF, inside >= 3 && err != io.ErrUnexpectedEOF, !isEnd(err):
		c.Fail("wrong-end", "stream cut %d bytes into a packet: %v", inside, err)
	}
}

func scenPESReader(c *Ctx) {
	pkts := genPES(c, pesOpts{max: 12})
	var data, want []byte
	type part struct{ off, out int } // by input offset off, out bytes can be out
	var parts []part
	var at []int
	for _, p := range pkts {
		at = append(at, len(data))
		data = append(data, p.encode()...)
		want = append(want, p.payload...)
		parts = append(parts, part{len(data), len(want)})
	}
	avail := func(off int) (out, inside int) {
		start := 0
		for _, p := range parts {
			if p.off <= off {
				out, start = p.out, p.off
			}
		}
		return out, off - start
	}
	s := NewSource(c, "pes", data)
	if c.Bool() {
		genBoundaryFaults(c, s, at, 5, true)
	}
	total, endErr := len(want), io.EOF
	switch c.Pick(5, 2, 2) {
	case 1:
		cut := c.N(len(data) + 1)
		c.Fault("stream: cut")
		s.data = data[:cut]
		var inside int
		total, inside = avail(cut)
		if inside >= 3 {
			endErr = io.ErrUnexpectedEOF
		} else if inside > 0 {
			endErr = nil // either
		}
	case 2:
		off := c.N(len(data) + 1)
		e := c.anyError(900)
		var keep []*Fault
		for _, f := range s.faults {
			if f.Off < off {
				keep = append(keep, f)
			}
		}
		s.faults = append(keep, &Fault{Off: off, Err: e, Count: -1, WithData: c.Bool()})
		total, _ = avail(off)
		endErr = e
	}
	r := pes.NewPayloadReader(s.reader())
	var got []byte
	errs, later := 0, 0
	readDriver(c, r, genSizes(c), func(p []byte, err error) bool {
		got = append(got, p...)
		if len(got) > total {
			c.Fail("bytes-extra", "%d bytes delivered, want %d", len(got), total)
		}
		if !bytes.Equal(p, want[len(got)-len(p):len(got)]) {
			c.Fail("bytes-differ", "differs at byte %d of %d", firstDiff(got, want), len(want))
		}
		if later > 0 {
			later++
			return later > 4
		}
		if err == nil {
			return false
		}
		if e, ok := err.(*SimErr); ok && err != endErr {
			f := s.byErr(e)
			if f == nil || f.fired == 0 {
				c.Fail("wrong-error", "error that the source did not return: %v", err)
			}
			if out, _ := avail(f.Off); len(got) != out {
				c.Fail("bytes-lost", "source error at %d reported with %d bytes delivered, %d were there", f.Off, len(got), out)
			}
			errs++
			if errs > s.transient() {
				c.Fail("error-repeated", "errors keep coming")
			}
			return false
		}
		if err != endErr && !(endErr == nil && isEnd(err)) {
			c.Fail("wrong-end", "ended with %v after %d of %d bytes, want %v", err, len(got), total, endErr)
		}
		if len(got) != total {
			c.Fail("bytes-lost", "ended with %v after %d bytes, want %d", err, len(got), total)
		}
		later = 1
		return false
	})
	c.nontrivial = true
}

// scenPESMalformed breaks one packet of a stream in a particular way.
func scenPESMalformed(c *Ctx) {
	pkts := genPES(c, pesOpts{min: 1, max: 5, plain: true})
	k := c.N(len(pkts))
	m := pkts[k]
	e := m.encode()
	var want []error
	what := ""
	switch c.N(8) {
	case 0:
		what = "start code prefix"
		e[c.N(3)] ^= byte(1 << c.N(8))
		want = []error{pes.ErrStartCodePrefixNotFound}
	case 1:
		what = "header marker"
		e[6] ^= byte(0x40 << c.N(2))
		want = []error{pes.ErrMarkerNotFound}
	case 2:
		if m.ptsdts < 2 {
			return
		}
		what = "time stamp marker"
		off := 9
		if m.ptsdts == 3 && c.Bool() {
			off = 14
		}
		e[off+[]int{0, 0, 2, 4}[c.N(4)]] ^= 1 // the marker bits
		if c.Bool() {
			e[off] ^= 0x10
			e[off] |= 1
			e[off+2] |= 1
			e[off+4] |= 1
		}
		want = []error{pes.ErrMarkerNotFound}
	case 3:
		if m.stuffing == 0 {
			return
		}
		if c.Chance(4) {
			// More than there ought to be
			if n := 33 + c.N(150); len(m.fields())+n < 256 {
				m.stuffing = n
				e = m.encode()
			}
		}
		what = "stuffing byte"
		e[9+len(m.fields())+c.N(m.stuffing)] ^= byte(1 << c.N(8))
		want = []error{pes.ErrInvalidStuffingByte, pes.ErrInvalidLength}
	case 4:
		if len(m.fields()) == 0 {
			return
		}
		what = "header data length smaller than the fields"
		e[8] = byte(c.N(len(m.fields())))
	case 5:
		what = "packet length smaller than the header"
		n := c.N(3 + len(m.fields()) + m.stuffing)
		if n == 0 {
			return // that means unbounded
		}
		e[4], e[5] = byte(n>>8), byte(n)
	case 6, 7:
		if m.ext == nil {
			return
		}
		off := 9 + len(m.fields())
		if m.ext.ext2 != nil {
			off -= 1 + len(m.ext.ext2)
		}
		switch {
		case m.ext.ext2 != nil && (!m.ext.pstd || c.Bool()):
			what = "second extension marker"
			e[off] ^= 0x80
		case m.ext.pstd:
			what = "P-STD buffer marker"
			e[off-2] ^= []byte{0x40, 0x80, 0xc0}[c.N(3)]
		default:
			return
		}
		want = []error{pes.ErrMarkerNotFound}
	}
	c.Fault("stream: packet malformed")
	c.Probe("malformed: " + what)
	var data, out []byte
	for i, p := range pkts {
		if i == k {
			data = append(data, e...)
		} else {
			data = append(data, p.encode()...)
		}
		if i < k {
			out = append(out, p.payload...)
		}
	}
	check := func(err error) {
		if err == nil {
			c.Fail("malformed-accepted", "packet %d with a bad %s was accepted", k, what)
		}
		for _, w := range want {
			if w == err {
				return
			}
		}
		if len(want) > 0 {
			c.Fail("wrong-error", "packet %d with a bad %s: %v, want %v", k, what, err, want)
		}
	}
	s := NewSource(c, "pes", data)
	if c.Bool() {
		s.plainEnd()
		br := bitreader.NewReader(s.reader())
		p := new(pes.Packet)
		for i := 0; i <= k; i++ {
			err := p.Next(br)
			c.Ev("packet", i, errCode(err))
			if i == k {
				check(err)
				return
			}
			if err != nil {
				c.Fail("wrong-error", "packet %d: %v", i, err)
			}
			if d := pkts[i].diff(p); d != "" {
				c.Fail("packet-differs", "packet %d: %s", i, d)
			}
		}
	}
	var got []byte
	readDriver(c, pes.NewPayloadReader(s.reader()), genSizes(c), func(p []byte, err error) bool {
		got = append(got, p...)
		if len(got) > len(out) || !bytes.Equal(p, out[len(got)-len(p):len(got)]) {
			c.Fail("bytes-extra", "data beyond the packets before the malformed one")
		}
		if err == nil {
			return false
		}
		check(err)
		if len(got) != len(out) {
			c.Fail("bytes-lost", "%d bytes before the malformed packet, want %d", len(got), len(out))
		}
		return true
	})
}

// ---- C10: elementary stream through PES and TS

// esLayout is an elementary stream, cut into PES packets and transport packets.
type esLayout struct {
	es   []byte
	pid  uint32
	pkts []*tsPacket
	pes  []*pesPacket
	// done[i]: elementary bytes whose PES packet ends in transport packet i or before
	done  []int
	unit  bool // needs the unit reader (there are packets of unstated length)
	where tester
}

// genES cuts an elementary stream into PES packets and those into TS packets, among
// packets of other PIDs.
func genES(c *Ctx, es []byte, unboundedOK bool) *esLayout {
	l := &esLayout{es: es, pid: c.pids()[0]}
	r := c.Rand()
	rest := es
	id := uint32(0xe0)
	headers := c.Chance(3) // with anything in them
	if headers {
		id = []uint32{0xe0, 0xef, 0xc0, 0xdf, 0xbd, 0xfd}[c.N(6)]
		unboundedOK = unboundedOK && id>>4 == 0xe
	}
	mode := c.N(3) // sizes of PES packets
	if len(es) > 20000 {
		mode = 3
	}
	perUnit := 1
	if c.Chance(3) {
		perUnit = 3
	}
	unbounded := unboundedOK && (len(es) > 1<<20 || c.Bool())
	var units [][]*pesPacket
	for len(rest) > 0 {
		var u []*pesPacket
		n := 1
		if perUnit > 1 {
			n = 1 + r.N(perUnit)
		}
		for k := 0; k < n && len(rest) > 0; k++ {
			var size int
			switch mode {
			case 0:
				size = 1000 + r.N(2000)
			case 1:
				size = 1 + r.N(400)
			case 2:
				size = 150 + r.N(60)
			case 3:
				size = []int{65450, 40000, 3000}[r.N(3)]
				size -= r.N(size / 3)
			}
			open := unbounded && (r.N(2) == 1 || len(es) > 1<<20)
			if open && mode == 3 {
				size = 50000 + r.N(100000) // more than a length field can state
				if len(es) > 1<<20 {
					size = len(rest)
				}
			}
			if r.N(16) == 15 {
				size = 0
			}
			if size > len(rest) {
				size = len(rest)
			}
			if headers && r.N(10) == 9 {
				u = append(u, &pesPacket{id: 0xbe, padding: r.N(200)})
			}
			if size > 65100 && !open {
				size = 65100 // any header goes with it
			}
			p := &pesPacket{id: id, payload: rest[:size]}
			if headers {
				p = genPESPacket(newCtx("", r.tape()), &pesOpts{plain: true, ids: []uint32{id}, maxData: 1}, r)
				p.payload = rest[:size]
			}
			rest = rest[size:]
			if !headers {
				p.align = r.N(2) == 1
				switch r.N(3) {
				case 1:
					p.ptsdts, p.pts = 2, uint64(r.N(1<<30))
				case 2:
					p.ptsdts, p.pts, p.dts = 3, uint64(r.N(1<<30)), uint64(r.N(1<<30))
				}
				if r.N(6) == 0 {
					p.ext = &pesExt{pstd: true, pstdScale: 1, pstdSize: 100}
				}
				p.stuffing = []int{0, 0, 1, 3}[r.N(4)]
			}
			u = append(u, p)
			if open {
				p.unbounded = true
				l.unit = true
				break
			}
		}
		units = append(units, u)
		l.pes = append(l.pes, u...)
	}
	other := c.pids()[1:4]
	ratio := c.N(3)
	cc := map[uint32]uint32{}
	out := 0
	o := &tsOpts{pids: other, pusi: 4}
	noise := func() {
		for k := 0; k < ratio; k++ {
			if r.N(2) == 1 {
				t := replayTape(nil)
				if r.N(2) == 1 {
					t = r.tape() // anything but a plain packet
				}
				l.pkts = append(l.pkts, genPacket(newCtx("", t), o, cc, r))
				l.pkts[len(l.pkts)-1].pid = other[r.N(3)]
				l.done = append(l.done, out)
			}
		}
	}
	if c.Chance(3) {
		noise()
	}
	for _, u := range units {
		var data []byte
		type mark struct{ off, out int }
		var marks []mark
		o2 := out
		for _, p := range u {
			data = append(data, p.encode()...)
			o2 += len(p.payload)
			marks = append(marks, mark{len(data), o2})
		}
		first := true
		off := 0
		for len(data) > 0 {
			noise()
			p := &tsPacket{pid: l.pid, pusi: first, afc: 1, cc: cc[l.pid] & 15}
			n := 184
			if r.N(6) == 0 || len(data) < 184 {
				p.afc = 3
				n = 183
				if r.N(2) == 1 {
					n = 1 + r.N(183)
				}
				if n > len(data) {
					n = len(data)
				}
				p.af = &adaptation{length: 183 - n}
				if p.af.length > 7 && r.N(2) == 1 {
					p.af.hasPCR, p.af.pcrBase = true, uint64(r.N(1<<30))
				}
			}
			if r.N(12) == 0 && !first { // a packet without payload
				q := &tsPacket{pid: l.pid, afc: 2, cc: cc[l.pid] & 15, af: &adaptation{length: 183}}
				l.pkts = append(l.pkts, q)
				l.done = append(l.done, out)
			}
			cc[l.pid]++
			first = false
			p.payload = data[:n:n]
			data = data[n:]
			off += n
			for _, m := range marks {
				if m.off <= off {
					out = m.out
				}
			}
			l.pkts = append(l.pkts, p)
			l.done = append(l.done, out)
		}
	}
	noise()
	pid := l.pid
	l.where = tester{"video pid", ts.IsPID(pid), func(p *tsPacket) bool { return p.pid == pid }}
	return l
}

// stack puts the readers on top of a transport stream source.
func (l *esLayout) stack(c *Ctx, s io.Reader) io.Reader {
	if l.unit || c.Bool() {
		c.Probe("over the unit reader")
		return pes.NewPayloadReader(ts.NewPayloadUnitReader(s, l.where.lib))
	}
	c.Probe("over the payload reader")
	return pes.NewPayloadReader(ts.NewPayloadReader(s, l.where.lib))
}

func scenES(c *Ctx) {
	es := make([]byte, []int{0, 1, 200, 3000, 9000}[c.N(5)])
	if c.Chance(120) {
		c.Probe("large stream")
		es = make([]byte, 200000)
	}
	if len(es) > 1 {
		es = es[:1+c.N(len(es))]
	}
	if !c.noHuge && c.Chance(3000) {
		c.Probe("packet of more than 1 MiB")
		c.huge = true
		es = make([]byte, 1<<20+c.N(4<<20))
	}
	c.Rand().Data(es)
	l := genES(c, es, true)
	s := NewSource(c, "ts", encodeAll(l.pkts))
	r := l.stack(c, s.reader())
	var got []byte
	readDriver(c, r, genSizes(c), func(p []byte, err error) bool {
		got = append(got, p...)
		if len(got) > len(es) {
			c.Fail("bytes-extra", "%d bytes out of an elementary stream of %d", len(got), len(es))
		}
		if !bytes.Equal(p, es[len(got)-len(p):len(got)]) {
			c.Fail("bytes-differ", "differs at byte %d of %d", firstDiff(got, es), len(es))
		}
		if err == nil {
			return false
		}
		if err == ts.EOP {
			c.Fail("eop-leaked", "EOP after %d of %d bytes", len(got), len(es))
		}
		if err != io.EOF {
			c.Fail("wrong-end", "ended with %v after %d of %d bytes", err, len(got), len(es))
		}
		if len(got) != len(es) {
			c.Fail("bytes-lost", "EOF after %d bytes of %d", len(got), len(es))
		}
		return true
	})
	if l.unit {
		c.Probe("packets of unstated length")
	}
	c.nontrivial = true
}

func init() {
	real := []string{"pes.Packet, header, extension, pes payload reader (and for C10 the ts readers), built from the repository's tree, instrumented", "github.com/32bitkid/bitreader"}
	register(&Property{ID: "C09", Quick: 900000, Thorough: 20000000,
		Scenarios: []Scenario{{"packets", 3, scenPESPackets}, {"reader", 3, scenPESReader}, {"malformed", 1, scenPESMalformed}},
		Rule:      "A run draws PES packets (all optional fields, padding, header-less ids), fragmentation, errors between packets, cuts at any byte or one malformed packet, and reads packets (reused and new) or the payload with drawn sizes.",
		Real:      real, Stub: stubSrc,
		Assume: []string{"time stamps are compared modulo 2^32, the width of the API's fields"}})
	register(&Property{ID: "C10", Quick: 500000, Thorough: 10000000,
		Scenarios: []Scenario{{"es", 1, scenES}},
		Rule:      "A run cuts an elementary stream into PES packets (stated and unstated length) and transport packets among other PIDs, and reads it back through stacked readers with drawn sizes and fragmentation.",
		Real:      real, Stub: stubSrc})
}
