package sim

import (
	"bytes"
	"fmt"
	"slices"

	"github.com/32bitkid/mpeg/ts"
)

// The reference model of the transport stream layer: packets as values, and the bytes
// that carry them. Nothing here parses; expectations come from the values.

type afExt struct {
	ltw, piecewise, seamless bool
	ltwValid                 bool
	ltwOffset                uint16
	rate                     uint32
	spliceType               uint8
	dts                      uint64
	reserved                 int // extra bytes
}

type adaptation struct {
	length                                      int
	disc, random, prio                          bool
	hasPCR, hasOPCR, hasSplice, hasPriv, hasExt bool
	pcrBase, opcrBase                           uint64
	pcrExt, opcrExt                             uint64
	splice                                      uint8
	priv                                        []byte
	ext                                         afExt
	fill                                        byte // in reserved bits and stuffing, inverted
}

type tsPacket struct {
	tei, pusi, prio bool
	pid             uint32
	scram           uint32
	afc             uint32
	cc              uint32
	af              *adaptation
	payload         []byte
}

// bitWriter writes bits, most significant first.
type bitWriter struct {
	b    []byte
	free uint // unused bits in the last byte
}

func (w *bitWriter) put(v uint64, n uint) {
	for n > 0 {
		if w.free == 0 {
			w.b = append(w.b, 0)
			w.free = 8
		}
		k := n
		if k > w.free {
			k = w.free
		}
		part := byte(v >> (n - k) & (1<<k - 1))
		w.b[len(w.b)-1] |= part << (w.free - k)
		w.free -= k
		n -= k
	}
}

func (w *bitWriter) flag(b bool) {
	if b {
		w.put(1, 1)
	} else {
		w.put(0, 1)
	}
}

func (w *bitWriter) bytes(p []byte) {
	if w.free == 0 {
		w.b = append(w.b, p...)
		return
	}
	for _, b := range p {
		w.put(uint64(b), 8)
	}
}

func (w *bitWriter) aligned() bool { return w.free == 0 }

// body encodes everything after the length byte, without stuffing.
func (a *adaptation) body() []byte {
	w := &bitWriter{}
	w.flag(a.disc)
	w.flag(a.random)
	w.flag(a.prio)
	w.flag(a.hasPCR)
	w.flag(a.hasOPCR)
	w.flag(a.hasSplice)
	w.flag(a.hasPriv)
	w.flag(a.hasExt)
	pcr := func(base, ext uint64) {
		w.put(base, 33)
		w.put(0x3f^uint64(a.fill), 6)
		w.put(ext, 9)
	}
	if a.hasPCR {
		pcr(a.pcrBase, a.pcrExt)
	}
	if a.hasOPCR {
		pcr(a.opcrBase, a.opcrExt)
	}
	if a.hasSplice {
		w.put(uint64(a.splice), 8)
	}
	if a.hasPriv {
		w.put(uint64(len(a.priv)), 8)
		w.bytes(a.priv)
	}
	if a.hasExt {
		e := a.ext
		n := 1 + e.reserved
		if e.ltw {
			n += 2
		}
		if e.piecewise {
			n += 3
		}
		if e.seamless {
			n += 5
		}
		w.put(uint64(n), 8)
		w.flag(e.ltw)
		w.flag(e.piecewise)
		w.flag(e.seamless)
		w.put(0x1f^uint64(a.fill), 5)
		if e.ltw {
			w.flag(e.ltwValid)
			w.put(uint64(e.ltwOffset), 15)
		}
		if e.piecewise {
			w.put(3^uint64(a.fill), 2)
			w.put(uint64(e.rate), 22)
		}
		if e.seamless {
			w.put(uint64(e.spliceType), 4)
			w.put(e.dts>>30, 3)
			w.put(1, 1)
			w.put(e.dts>>15, 15)
			w.put(1, 1)
			w.put(e.dts, 15)
			w.put(1, 1)
		}
		for i := 0; i < e.reserved; i++ {
			w.put(0xff^uint64(a.fill), 8)
		}
	}
	return w.b
}

func (p *tsPacket) encode() []byte {
	w := &bitWriter{b: make([]byte, 0, 188)}
	w.put(0x47, 8)
	w.flag(p.tei)
	w.flag(p.pusi)
	w.flag(p.prio)
	w.put(uint64(p.pid), 13)
	w.put(uint64(p.scram), 2)
	w.put(uint64(p.afc), 2)
	w.put(uint64(p.cc), 4)
	if p.af != nil {
		w.put(uint64(p.af.length), 8)
		if p.af.length > 0 {
			body := p.af.body()
			w.bytes(body)
			for i := len(body); i < p.af.length; i++ {
				w.put(0xff^uint64(p.af.fill), 8)
			}
		}
	}
	w.bytes(p.payload)
	for len(w.b) < 188 {
		w.b = append(w.b, 0xff)
	}
	if len(w.b) != 188 {
		bug("packet of %d bytes", len(w.b))
	}
	return w.b
}

// diff compares a parsed packet with the one that was put in. Empty if they agree.
func (m *tsPacket) diff(p *ts.Packet) string {
	if p == nil {
		return "nil packet"
	}
	var d []string
	ne := func(name string, got, want any) {
		if got != want {
			d = append(d, fmt.Sprintf("%s: got %v, want %v", name, got, want))
		}
	}
	ne("TransportErrorIndicator", p.TransportErrorIndicator, m.tei)
	ne("PayloadUnitStartIndicator", p.PayloadUnitStartIndicator, m.pusi)
	ne("TransportPriority", p.TransportPriority, m.prio)
	ne("PID", p.PID, m.pid)
	ne("TransportScramblingControl", p.TransportScramblingControl, m.scram)
	ne("AdaptationFieldControl", uint32(p.AdaptationFieldControl), m.afc)
	ne("ContinuityCounter", p.ContinuityCounter, m.cc)
	ne("len(Payload)", len(p.Payload), len(m.payload))
	if !bytes.Equal(p.Payload, m.payload) {
		d = append(d, "payload bytes differ")
	}
	if (p.AdaptationField != nil) != (m.af != nil) {
		ne("has AdaptationField", p.AdaptationField != nil, m.af != nil)
	} else if m.af != nil {
		a, b := p.AdaptationField, *m.af
		if b.length == 0 {
			b = adaptation{}
		}
		ne("DiscontinuityIndicator", a.DiscontinuityIndicator, b.disc)
		ne("RandomAccessIndicator", a.RandomAccessIndicator, b.random)
		ne("ElementaryStreamPriorityIndicator", a.ElementaryStreamPriorityIndicator, b.prio)
		ne("PCRFlag", a.PCRFlag, b.hasPCR)
		ne("OPCRFlag", a.OPCRFlag, b.hasOPCR)
		ne("SplicingPointFlag", a.SplicingPointFlag, b.hasSplice)
		ne("TransportPrivateDataFlag", a.TransportPrivateDataFlag, b.hasPriv)
		ne("AdaptationFieldExtensionFlag", a.AdaptationFieldExtensionFlag, b.hasExt)
		ne("PCR", a.PCR, b.pcrBase*300+b.pcrExt)
		ne("OPCR", a.OPCR, b.opcrBase*300+b.opcrExt)
		ne("SpliceCountdown", a.SpliceCountdown, b.splice)
		ne("has TransportPrivateData", a.TransportPrivateData != nil, b.hasPriv)
		ne("has extension", a.AdapatationExtension != nil, b.hasExt)
		if x := a.AdapatationExtension; x != nil && b.hasExt {
			e := b.ext
			ne("LegalTimeWindowFlag", x.LegalTimeWindowFlag, e.ltw)
			ne("PiecewiseRateFlag", x.PiecewiseRateFlag, e.piecewise)
			ne("SeamlessSpliceFlag", x.SeamlessSpliceFlag, e.seamless)
			ne("LTWValidFlag", x.LTWValidFlag, e.ltwValid)
			ne("LTWOffset", x.LTWOffset, e.ltwOffset)
			ne("PiecewiseRate", x.PiecewiseRate, e.rate)
			ne("SpliceType", x.SpliceType, e.spliceType)
			ne("DTSNextAU", x.DTSNextAU, e.dts)
		}
	}
	if len(d) == 0 {
		return ""
	}
	return fmt.Sprint(d)
}

// tsOpts shapes a generated stream.
type tsOpts struct {
	max      int // packets
	min      int
	pids     []uint32
	noSync   bool // no 0x47 other than at the start of packets
	markers  bool // use scrambling control and priority as markers only
	fullOnly bool // plain payload packets only
	short    bool // never much longer than max
	pusi     int  // 1 in pusi packets starts a unit (0: drawn)
}

var commonPIDs = []uint32{0x31, 0x100, 0x1ffe, 0, 0x1fff}

const foreignPID = 0x1abc

// pids are those the programs of a run use. None makes for a sync byte in a header.
func (c *Ctx) pids() []uint32 {
	if c.pidPool == nil {
		c.pidPool = commonPIDs
		if c.Chance(3) {
			r := c.Rand()
			c.pidPool = make([]uint32, len(commonPIDs))
			for i := range c.pidPool {
				v := uint32(r.Bits(13))
				if r.N(3) == 0 {
					v = uint32(r.N(64)) // tables live here
				}
				if v&0xff == 0x47 || v>>8 == 7 || v == foreignPID || slices.Contains(c.pidPool[:i], v) || slices.Contains(commonPIDs, v) {
					v = commonPIDs[i]
				}
				c.pidPool[i] = v
			}
		}
	}
	return c.pidPool
}

// genAdaptation draws an adaptation field that takes up to max bytes after its length.
func genAdaptation(c *Ctx, max int, noSync bool) *adaptation {
	a := &adaptation{}
	r := c.Rand()
	if c.N(8) == 0 { // length 0: nothing but the length byte
		return a
	}
	left := max - 1
	a.disc, a.random, a.prio = r.N(2) == 1, r.N(2) == 1, r.N(2) == 1
	big := func(bits uint) uint64 {
		return r.Bits(bits)
	}
	if c.Bool() && left >= 6 {
		a.hasPCR, a.pcrBase, a.pcrExt = true, big(33), uint64(r.N(300))
		left -= 6
	}
	if c.Bool() && left >= 6 {
		a.hasOPCR, a.opcrBase, a.opcrExt = true, big(33), uint64(r.N(300))
		left -= 6
	}
	if c.Bool() && left >= 1 {
		a.hasSplice, a.splice = true, uint8(r.Bits(8))
		left--
	}
	if c.Bool() && left >= 1 {
		n := []int{0, 1, 5, 40, left - 1}[c.N(5)]
		if n > left-1 {
			n = left - 1
		}
		a.hasPriv, a.priv = true, make([]byte, n)
		r.Data(a.priv)
		left -= n + 1
	}
	if c.Bool() && left >= 12 {
		a.hasExt = true
		e := &a.ext
		e.ltw, e.piecewise, e.seamless = c.Bool(), c.Bool(), c.Bool()
		left -= 2
		if e.ltw {
			e.ltwValid, e.ltwOffset = r.N(2) == 1, uint16(big(15))
			left -= 2
		}
		if e.piecewise {
			e.rate = uint32(big(22))
			left -= 3
		}
		if e.seamless {
			e.spliceType, e.dts = uint8(r.N(16)), big(33)
			left -= 5
		}
		if c.Chance(4) {
			e.reserved = []int{c.N(4), c.N(100)}[c.N(2)]
			if e.reserved > left {
				e.reserved = left
			}
			left -= e.reserved
		}
	}
	used := max - left
	switch c.N(3) {
	case 0:
	case 1:
		used += c.N(left + 1)
	case 2:
		used = max
	}
	a.length = used
	if !noSync && r.N(6) == 0 {
		// not as the standard has it, but nothing to do with what is read
		a.fill = byte(r.next())
	}
	if noSync {
		for _, b := range a.body() {
			if b == 0x47 {
				return &adaptation{length: 0}
			}
		}
		if a.length == 0x47 {
			a.length++
			if a.length > max {
				a.length = 0
			}
		}
	}
	return a
}

func cleanSync(p []byte) {
	for i := range p {
		if p[i] == 0x47 {
			p[i] = 0x46
		}
	}
}

// genPacket draws a packet.
func genPacket(c *Ctx, o *tsOpts, cc map[uint32]uint32, r *Rng) *tsPacket {
	p := &tsPacket{}
	pids := o.pids
	if pids == nil {
		pids = c.pids()
	}
	p.pid = pids[c.N(len(pids))]
	n := o.pusi
	if n == 0 {
		n = 3
	}
	p.pusi = c.Chance(n)
	p.afc = 1
	if !o.fullOnly {
		switch c.Pick(6, 3, 1, 1) {
		case 1:
			p.afc = 3
		case 2:
			p.afc = 2
		case 3:
			p.afc = uint32(c.N(2)) // 0 is reserved: no payload, no adaptation field
		}
	}
	p.cc = cc[p.pid] & 15
	if p.afc&1 == 1 {
		cc[p.pid]++
	}
	if !o.markers && c.Chance(4) {
		p.tei, p.prio, p.scram = r.N(2) == 1, r.N(2) == 1, uint32(r.N(4))
	}
	size := 184
	switch p.afc {
	case 2:
		p.af = genAdaptation(c, 183, o.noSync)
		if !c.Chance(4) {
			// by the book the field fills the packet
			p.af.length = 183
		}
		size = 0
	case 3:
		p.af = genAdaptation(c, 183, o.noSync)
		size = 183 - p.af.length
	case 0:
		size = 0
	}
	p.payload = make([]byte, size)
	r.Data(p.payload)
	if size >= 4 && !o.noSync && r.N(3) == 0 {
		p.payload[r.N(size)] = 0x47
	}
	if o.noSync {
		cleanSync(p.payload)
		for {
			b := p.encode()
			if bytes.IndexByte(b[1:], 0x47) < 0 {
				break
			}
			// headers only: pid, scrambling and counter bits, or the length
			switch {
			case p.scram != 0 || p.tei || p.prio:
				p.scram, p.tei, p.prio = 0, false, false
			case p.af != nil && (p.af.disc || p.af.hasPCR || p.af.hasPriv || p.af.hasExt || p.af.hasSplice || p.af.hasOPCR):
				l := p.af.length
				p.af = &adaptation{length: l}
				if l == 0x47 {
					bug("length")
				}
			case p.pusi:
				p.pusi = false
			default:
				p.pid = 0x31
				if p.cc == 7 {
					p.cc = 8
				}
				if b := p.encode(); bytes.IndexByte(b[1:], 0x47) >= 0 {
					bug("cannot avoid the sync byte: %x", b)
				}
			}
		}
	}
	return p
}

// genStream draws a transport stream.
func genStream(c *Ctx, o tsOpts) []*tsPacket {
	if o.max == 0 {
		o.max = 24
	}
	r := c.Rand()
	cc := map[uint32]uint32{}
	n := c.Range(o.min, o.max)
	if o.pusi == 0 {
		o.pusi = []int{3, 1000, 6, 2, 1}[c.N(5)]
	}
	if o.pids == nil {
		o.pids = c.pids()[:1+c.N(len(commonPIDs))]
		if !o.noSync && c.Chance(8) {
			o.pids = nil
			for i := 1 + c.N(4); i > 0; i-- {
				o.pids = append(o.pids, uint32(r.N(1<<13)))
			}
		}
	}
	repeats, gaps := c.Chance(6) && !o.noSync, c.Chance(6)
	ps := make([]*tsPacket, n)
	for i := range ps {
		if i > 0 && repeats && c.Chance(4) {
			// sent twice, as 2.4.3.3 allows: both are packets all the same
			q := *ps[i-1]
			ps[i] = &q
			c.Probe("packet repeated")
			continue
		}
		if gaps && c.Chance(4) {
			pid := o.pids[c.N(len(o.pids))]
			cc[pid] += uint32(r.N(16))
			c.Probe("gap in the continuity counter")
		}
		ps[i] = genPacket(c, &o, cc, r)
	}
	if !o.short && c.Chance(32) {
		// a long run of packets of one program, for whatever counts packets
		run := make([]*tsPacket, c.longRun(30, 350))
		pid := o.pids[c.N(len(o.pids))]
		if c.Chance(2) {
			pid = foreignPID
		}
		for i := range run {
			q := &tsPacket{pid: pid, afc: 1, cc: cc[pid] & 15, payload: make([]byte, 184)}
			cc[pid]++
			r.Data(q.payload)
			cleanSync(q.payload)
			if o.noSync && bytes.IndexByte(q.encode()[1:], 0x47) >= 0 {
				bug("sync byte in a header")
			}
			run[i] = q
		}
		at := c.N(len(ps) + 1)
		ps = append(ps[:at:at], append(run, ps[at:]...)...)
		c.Probe("long run of packets of one program")
	}
	return ps
}

func encodeAll(ps []*tsPacket) []byte {
	var b []byte
	for _, p := range ps {
		b = append(b, p.encode()...)
	}
	return b
}

// tester pairs a packet tester of the library with its meaning for the model.
type tester struct {
	name  string
	lib   ts.PacketTester
	model func(*tsPacket) bool
}

func genTester(c *Ctx, depth int) tester {
	switch k := c.Pick(6, 2, 1, 1, 1, 1); {
	case k == 1:
		return tester{"unit start", ts.IsPayloadUnitStart, func(p *tsPacket) bool { return p.pusi }}
	case k == 2:
		return tester{"any", func(*ts.Packet) bool { return true }, func(*tsPacket) bool { return true }}
	case k == 3 && depth > 0:
		a := genTester(c, depth-1)
		return tester{"not " + a.name, a.lib.Not(), func(p *tsPacket) bool { return !a.model(p) }}
	case k == 4 && depth > 0:
		a, b := genTester(c, depth-1), genTester(c, depth-1)
		return tester{"(" + a.name + " and " + b.name + ")", a.lib.And(b.lib), func(p *tsPacket) bool { return a.model(p) && b.model(p) }}
	case k == 5 && depth > 0:
		a, b := genTester(c, depth-1), genTester(c, depth-1)
		return tester{"(" + a.name + " or " + b.name + ")", a.lib.Or(b.lib), func(p *tsPacket) bool { return a.model(p) || b.model(p) }}
	}
	pid := c.pids()[c.N(len(commonPIDs))]
	return tester{fmt.Sprintf("pid %#x", pid), ts.IsPID(pid), func(p *tsPacket) bool { return p.pid == pid }}
}
