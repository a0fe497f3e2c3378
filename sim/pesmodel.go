package sim

import (
	"bytes"
	"fmt"

	"github.com/32bitkid/mpeg/pes"
)

// The reference model of PES packets.

type pesExt struct {
	priv       []byte // 16 bytes or nil
	packHeader []byte // nil: none
	counter    bool
	pstd       bool
	pstdScale  uint32
	pstdSize   uint32
	ext2       []byte // nil: none
}

type pesPacket struct {
	id                       uint32
	unbounded                bool
	scrambling               uint32
	prio, align, copyr, orig bool
	ptsdts                   uint32
	pts, dts                 uint64
	escr, esrate, trick, aci bool
	crc                      bool
	ext                      *pesExt
	stuffing                 int
	fill                     uint64 // in the fields that are skipped
	payload                  []byte
	padding                  int
}

// hasHeader lists the stream ids without a header, from the standard (2.4.3.7).
func (p *pesPacket) hasHeader() bool {
	switch p.id {
	case 0xbc, 0xbe, 0xbf, 0xf0, 0xf1, 0xf2, 0xf8, 0xff:
		return false
	}
	return true
}

func (p *pesPacket) fields() []byte {
	w := &bitWriter{}
	stamp := func(marker uint64, t uint64) {
		w.put(marker, 4)
		w.put(t>>30, 3)
		w.put(1, 1)
		w.put(t>>15, 15)
		w.put(1, 1)
		w.put(t, 15)
		w.put(1, 1)
	}
	switch p.ptsdts {
	case 2:
		stamp(2, p.pts)
	case 3:
		stamp(3, p.pts)
		stamp(1, p.dts)
	}
	if p.escr {
		v := p.fill
		w.put(3, 2)
		for _, n := range []uint{3, 15, 15, 9} {
			w.put(v, n)
			w.put(1, 1)
			v = v>>7 ^ v<<20
		}
	}
	if p.esrate {
		w.put(1, 1)
		w.put(p.fill>>3, 22)
		w.put(1, 1)
	}
	if p.trick {
		w.put(0x21^p.fill>>5, 8)
	}
	if p.aci {
		w.put(1, 1)
		w.put(0x55^p.fill>>2, 7)
	}
	if p.crc {
		w.put(0xbeef^p.fill>>9, 16)
	}
	if e := p.ext; e != nil {
		w.flag(e.priv != nil)
		w.flag(e.packHeader != nil)
		w.flag(e.counter)
		w.flag(e.pstd)
		w.put(7^p.fill>>8, 3)
		w.flag(e.ext2 != nil)
		if e.priv != nil {
			w.bytes(e.priv)
		}
		if e.packHeader != nil {
			w.put(uint64(len(e.packHeader)), 8)
			w.bytes(e.packHeader)
		}
		if e.counter {
			w.put(1, 1)
			w.put(1^p.fill>>4, 7)
			w.put(1, 1)
			w.put(0x55^p.fill>>6, 7)
		}
		if e.pstd {
			w.put(1, 2)
			w.put(uint64(e.pstdScale), 1)
			w.put(uint64(e.pstdSize), 13)
		}
		if e.ext2 != nil {
			w.put(uint64(0x80|len(e.ext2)), 8)
			w.bytes(e.ext2)
		}
	}
	return w.b
}

// wireLength is the PES_packet_length field.
func (p *pesPacket) wireLength() int {
	if p.unbounded {
		return 0
	}
	if p.id == 0xbe {
		return p.padding
	}
	if !p.hasHeader() {
		return len(p.payload)
	}
	return 3 + len(p.fields()) + p.stuffing + len(p.payload)
}

func (p *pesPacket) encode() []byte {
	w := &bitWriter{}
	w.put(1, 24)
	w.put(uint64(p.id), 8)
	w.put(uint64(p.wireLength()), 16)
	switch {
	case p.id == 0xbe:
		for i := 0; i < p.padding; i++ {
			w.put(0xff, 8)
		}
	case !p.hasHeader():
		w.bytes(p.payload)
	default:
		f := p.fields()
		w.put(2, 2)
		w.put(uint64(p.scrambling), 2)
		w.flag(p.prio)
		w.flag(p.align)
		w.flag(p.copyr)
		w.flag(p.orig)
		w.put(uint64(p.ptsdts), 2)
		w.flag(p.escr)
		w.flag(p.esrate)
		w.flag(p.trick)
		w.flag(p.aci)
		w.flag(p.crc)
		w.flag(p.ext != nil)
		w.put(uint64(len(f)+p.stuffing), 8)
		w.bytes(f)
		for i := 0; i < p.stuffing; i++ {
			w.put(0xff, 8)
		}
		w.bytes(p.payload)
	}
	return w.b
}

func (m *pesPacket) diff(p *pes.Packet) string {
	if p == nil {
		return "nil packet"
	}
	var d []string
	ne := func(name string, got, want any) {
		if got != want {
			d = append(d, fmt.Sprintf("%s: got %v, want %v", name, got, want))
		}
	}
	ne("StreamID", p.StreamID, m.id)
	ne("PacketLength", p.PacketLength, uint32(m.wireLength()))
	ne("len(Payload)", len(p.Payload), len(m.payload))
	if !bytes.Equal(p.Payload, m.payload) {
		d = append(d, "payload bytes differ")
	}
	ne("has Header", p.Header != nil, m.hasHeader())
	if h := p.Header; h != nil && m.hasHeader() {
		ne("ScramblingControl", h.ScramblingControl, m.scrambling)
		ne("Priority", h.Priority, m.prio)
		ne("DataAlignmentIndicator", h.DataAlignmentIndicator, m.align)
		ne("Copyright", h.Copyright, m.copyr)
		ne("OrignalOrCopy", h.OrignalOrCopy, m.orig)
		ne("PtsDtsFlags", h.PtsDtsFlags, m.ptsdts)
		ne("EscrFlag", h.EscrFlag, m.escr)
		ne("EsRateFlag", h.EsRateFlag, m.esrate)
		ne("DsmTrickModeFlag", h.DsmTrickModeFlag, m.trick)
		ne("AdditionalCopyInfoFlag", h.AdditionalCopyInfoFlag, m.aci)
		ne("CrcFlag", h.CrcFlag, m.crc)
		ne("ExtensionFlag", h.ExtensionFlag, m.ext != nil)
		ne("HeaderDataLength", h.HeaderDataLength, uint32(len(m.fields())+m.stuffing))
		if m.ptsdts >= 2 {
			ne("PresentationTimeStamp", h.PresentationTimeStamp, uint32(m.pts))
		} else {
			ne("PresentationTimeStamp", h.PresentationTimeStamp, uint32(0))
		}
		if m.ptsdts == 3 {
			ne("DecodingTimeStamp", h.DecodingTimeStamp, uint32(m.dts))
		} else {
			ne("DecodingTimeStamp", h.DecodingTimeStamp, uint32(0))
		}
		ne("has Extension", h.Extension != nil, m.ext != nil)
		if x, e := h.Extension, m.ext; x != nil && e != nil {
			ne("PrivateDataFlag", x.PrivateDataFlag, e.priv != nil)
			ne("PackHeaderFieldFlag", x.PackHeaderFieldFlag, e.packHeader != nil)
			ne("ProgramPacketSequenceCounterFlag", x.ProgramPacketSequenceCounterFlag, e.counter)
			ne("P_STD_BufferFlag", x.P_STD_BufferFlag, e.pstd)
			ne("ExtensionFlag2", x.ExtensionFlag2, e.ext2 != nil)
			if !bytes.Equal(x.PrivateData, e.priv) {
				d = append(d, "PrivateData differs")
			}
			ne("has P_STD_Buffer", x.P_STD_Buffer != nil, e.pstd)
			if x.P_STD_Buffer != nil && e.pstd {
				ne("P_STD Scale", x.P_STD_Buffer.Scale, e.pstdScale)
				ne("P_STD Size", x.P_STD_Buffer.Size, e.pstdSize)
			}
		}
	}
	if len(d) == 0 {
		return ""
	}
	return fmt.Sprint(d)
}

type pesOpts struct {
	max, min  int
	ids       []uint32
	plain     bool // streams with a header, carrying elementary data, only
	maxData   int
	noOptions bool
	few       bool // no long runs
}

var videoIDs = []uint32{0xe0, 0xe1, 0xc0, 0xbd, 0xfd}

func genPESPacket(c *Ctx, o *pesOpts, r *Rng) *pesPacket {
	p := &pesPacket{}
	ids := o.ids
	if ids == nil {
		ids = videoIDs
	}
	p.id = ids[c.N(len(ids))]
	if !o.plain {
		switch c.Pick(8, 2, 2) {
		case 1:
			p.id = 0xbe
			p.padding = []int{0, 1, 7, 100, 600}[c.N(5)]
			if o.maxData == 0 && c.Chance(150) {
				p.padding = 65535 - c.N(40000)
			}
			return p
		case 2:
			p.id = []uint32{0xbf, 0xbc, 0xf0, 0xf1, 0xf2, 0xf8, 0xff, 0xbd + uint32(c.N(66))}[c.N(8)]
			if p.id == 0xbe {
				p.id = 0xbd
			}
		}
	}
	max := o.maxData
	if max == 0 {
		max = 700
	}
	n := []int{c.N(max + 1), 0, 1, 8, c.N(40)}[c.N(5)]
	if n > max {
		n = max
	}
	if o.maxData == 0 && c.Chance(60) {
		n = []int{4000, 32500, 65000, 1 << 13}[c.N(4)] + c.N(200)
		c.Probe("large PES packet")
	}
	fullest := o.maxData == 0 && c.Chance(150)
	if fullest {
		// as large as the length field allows
		defer func() {
			p.payload = nil
			p.payload = make([]byte, 65535-(len(p.encode())-6)-c.Pick(3, 1, 1))
			r.Data(p.payload)
			c.Probe("PES packet of the largest size")
		}()
	}
	p.payload = make([]byte, n)
	r.Data(p.payload)
	if !p.hasHeader() {
		return p
	}
	if c.Bool() && !o.noOptions {
		p.scrambling = uint32(r.N(4))
		p.prio, p.align, p.copyr, p.orig = r.N(2) == 1, r.N(2) == 1, r.N(2) == 1, r.N(2) == 1
	}
	stamp := func() uint64 {
		return r.Bits(33)
	}
	switch c.N(3) {
	case 1:
		p.ptsdts, p.pts = 2, stamp()
	case 2:
		p.ptsdts, p.pts, p.dts = 3, stamp(), stamp()
	}
	if !o.noOptions && c.Bool() {
		p.escr, p.esrate, p.trick, p.aci, p.crc = c.Chance(3), c.Chance(3), c.Chance(3), c.Chance(3), c.Chance(3)
		if c.Bool() {
			e := &pesExt{}
			if c.Bool() {
				e.priv = make([]byte, 16)
				r.Data(e.priv)
			}
			if c.Chance(3) {
				e.packHeader = make([]byte, []int{c.N(20), c.N(20), 60 + c.N(140)}[c.N(3)])
				r.Data(e.packHeader)
			}
			e.counter = c.Chance(3)
			if c.Bool() {
				e.pstd, e.pstdScale, e.pstdSize = true, uint32(r.N(2)), uint32(r.Bits(13))
			}
			if c.Chance(3) {
				e.ext2 = make([]byte, []int{c.N(10), c.N(10), 20 + c.N(108)}[c.N(3)])
				r.Data(e.ext2)
			}
			p.ext = e
		}
		if r.N(2) == 1 {
			p.fill = r.next()
		}
	}
	if c.Chance(3) {
		p.stuffing = []int{1, 2, 5, 32}[c.N(4)]
	}
	if n := len(p.fields()) + p.stuffing; n > 255 { // more than a header takes
		h := p.ext.packHeader
		p.ext.packHeader = h[:len(h)-(n-255)]
	}
	return p
}

func genPES(c *Ctx, o pesOpts) []*pesPacket {
	r := c.Rand()
	if o.max == 0 {
		o.max = 10
	}
	n := c.Range(o.min, o.max)
	ps := make([]*pesPacket, n)
	for i := range ps {
		ps[i] = genPESPacket(c, &o, r)
	}
	if !o.plain && !o.few && c.Chance(60) {
		// a long run of packets with little in them, for whatever counts packets
		run := make([]*pesPacket, c.longRun(30, 300))
		id := []uint32{0xbe, 0xe0, 0xbf}[c.N(3)]
		for i := range run {
			run[i] = &pesPacket{id: id}
			if id != 0xbe && c.N(4) == 0 {
				run[i].payload = make([]byte, 1+i%3)
				r.Data(run[i].payload)
			}
		}
		at := c.N(len(ps) + 1)
		ps = append(ps[:at:at], append(run, ps[at:]...)...)
		c.Probe("long run of small PES packets")
	}
	return ps
}
