package sim

import (
	"fmt"

	"github.com/32bitkid/mpeg/ps"
)

// The reference model of program streams.

type sysStream struct {
	id    uint32
	scale bool
	size  uint32
}

type sysHeader struct {
	rate, audio, video                  uint32
	fixed, csps, alock, vlock, restrict bool
	streams                             []sysStream
}

type psPack struct {
	scr      uint64
	scrExt   uint32
	mux      uint32
	stuffing int
	fill     uint64 // in reserved bits, inverted
	sys      *sysHeader
	pkts     []*pesPacket
}

func (p *psPack) header() []byte {
	w := &bitWriter{}
	w.put(0x000001BA, 32)
	w.put(1, 2)
	w.put(p.scr>>30, 3)
	w.put(1, 1)
	w.put(p.scr>>15, 15)
	w.put(1, 1)
	w.put(p.scr, 15)
	w.put(1, 1)
	w.put(uint64(p.scrExt), 9)
	w.put(1, 1)
	w.put(uint64(p.mux), 22)
	w.put(3, 2)
	w.put(0x1f^p.fill, 5)
	w.put(uint64(p.stuffing), 3)
	for i := 0; i < p.stuffing; i++ {
		w.put(0xff, 8)
	}
	if s := p.sys; s != nil {
		w.put(0x000001BB, 32)
		w.put(uint64(6+3*len(s.streams)), 16)
		w.put(1, 1)
		w.put(uint64(s.rate), 22)
		w.put(1, 1)
		w.put(uint64(s.audio), 6)
		w.flag(s.fixed)
		w.flag(s.csps)
		w.flag(s.alock)
		w.flag(s.vlock)
		w.put(1, 1)
		w.put(uint64(s.video), 5)
		w.flag(s.restrict)
		w.put(0x7f^p.fill>>5, 7)
		for _, st := range s.streams {
			w.put(uint64(st.id), 8)
			w.put(3, 2)
			w.flag(st.scale)
			w.put(uint64(st.size), 13)
		}
	}
	return w.b
}

// markers is where the header has bits of a fixed value that are checked for.
func (p *psPack) markers() []int {
	at := []int{32, 33, 37, 53, 69, 79, 102, 103}
	if s := p.sys; s != nil {
		h := 8 * (14 + p.stuffing)
		at = append(at, h+48, h+71, h+82)
		for i := range s.streams {
			at = append(at, h+96+24*i+8, h+96+24*i+9)
		}
	}
	return at
}

func (m *psPack) diff(p *ps.Pack) string {
	if p == nil || p.PackHeader == nil {
		return "nil pack"
	}
	var d []string
	ne := func(name string, got, want any) {
		if got != want {
			d = append(d, fmt.Sprintf("%s: got %v, want %v", name, got, want))
		}
	}
	h := p.PackHeader
	ne("SystemClockReferenceBase", h.SystemClockReferenceBase, uint32(m.scr))
	ne("SystemClockReferenceExtension", h.SystemClockReferenceExtension, m.scrExt)
	ne("ProgramMuxRate", h.ProgramMuxRate, m.mux)
	ne("has SystemHeader", h.SystemHeader != nil, m.sys != nil)
	if s, x := h.SystemHeader, m.sys; s != nil && x != nil {
		ne("HeaderLength", s.HeaderLength, uint32(6+3*len(x.streams)))
		ne("RateBound", s.RateBound, x.rate)
		ne("AudioBound", s.AudioBound, x.audio)
		ne("Fixed", s.Fixed, x.fixed)
		ne("CSPS", s.CSPS, x.csps)
		ne("SystemAudioLock", s.SystemAudioLock, x.alock)
		ne("SystemVideoLock", s.SystemVideoLock, x.vlock)
		ne("VideoBound", s.VideoBound, x.video)
		ne("PacketRateRestriction", s.PacketRateRestriction, x.restrict)
		ne("streams", len(s.Streams), len(x.streams))
		for i := range x.streams {
			if i < len(s.Streams) {
				ne("StreamID", s.Streams[i].StreamID, x.streams[i].id)
				ne("P_STD_BufferBoundScale", s.Streams[i].P_STD_BufferBoundScale, x.streams[i].scale)
				ne("P_STD_BufferSizeBound", s.Streams[i].P_STD_BufferSizeBound, x.streams[i].size)
			}
		}
	}
	if len(d) == 0 {
		return ""
	}
	return fmt.Sprint(d)
}

type psOpts struct {
	maxPacks, maxPkts int
	pes               pesOpts
}

func genPS(c *Ctx, o psOpts) []*psPack {
	r := c.Rand()
	n := c.Range(1, o.maxPacks)
	if c.Chance(60) {
		n = c.longRun(20, 150)
		c.Probe("many packs")
	}
	packs := make([]*psPack, n)
	for i := range packs {
		p := &psPack{}
		p.scr = r.Bits(33)
		p.scrExt = uint32(r.Bits(9))
		p.mux = uint32(r.Bits(22))
		if r.N(6) == 0 {
			p.fill = r.next()
		}
		if c.Chance(3) {
			p.stuffing = 1 + c.N(7)
		}
		if c.Chance(3) {
			s := &sysHeader{rate: uint32(r.Bits(22)), audio: uint32(r.Bits(6)), video: uint32(r.Bits(5)),
				fixed: r.N(2) == 1, csps: r.N(2) == 1, alock: r.N(2) == 1, vlock: r.N(2) == 1, restrict: r.N(2) == 1}
			k := c.N(4)
			if c.Chance(12) {
				k = 4 + c.N(66)
				c.Probe("many streams in a system header")
			}
			for ; k > 0; k-- {
				s.streams = append(s.streams, sysStream{uint32([]int{0xe0 + r.N(16), 0xc0 + r.N(32), 0xb8, 0xb9, 0xbc + r.N(68)}[r.N(5)]), r.N(2) == 1, uint32(r.Bits(13))})
			}
			p.sys = s
		}
		po := o.pes
		po.max = o.maxPkts
		if n > 1000 {
			po.max, po.maxData, po.few = 1, 20, true
		}
		p.pkts = genPES(c, po)
		packs[i] = p
	}
	return packs
}

// psWire is an encoded program stream and where its parts end.
type psWire struct {
	data    []byte
	heads   []int   // end of each pack's header
	ends    [][]int // end of each packet
	outs    [][]int // payload bytes up to and including each packet
	want    []byte
	starts  []int // offsets of packs, packets, and the program end code
	endCode int
}

func encodePS(packs []*psPack, end bool) *psWire {
	w := &psWire{}
	for _, p := range packs {
		w.starts = append(w.starts, len(w.data))
		w.data = append(w.data, p.header()...)
		w.heads = append(w.heads, len(w.data))
		var ends, outs []int
		for _, k := range p.pkts {
			w.starts = append(w.starts, len(w.data))
			w.data = append(w.data, k.encode()...)
			w.want = append(w.want, k.payload...)
			ends = append(ends, len(w.data))
			outs = append(outs, len(w.want))
		}
		w.ends = append(w.ends, ends)
		w.outs = append(w.outs, outs)
	}
	w.endCode = len(w.data)
	w.starts = append(w.starts, len(w.data))
	if end {
		w.data = append(w.data, 0, 0, 1, 0xb9)
	}
	return w
}

// avail is how much payload can be out when only off bytes can be read.
func (w *psWire) avail(off int) (out int) {
	for i := range w.ends {
		for j, e := range w.ends[i] {
			if e <= off {
				out = w.outs[i][j]
			}
		}
	}
	return
}
