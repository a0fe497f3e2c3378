package sim

import (
	"fmt"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/video"
)

// ---- C24

// probePart is a stretch of a stream that begins with a start code: a header that one of
// the header readers takes, or anything else.
type probePart struct {
	kind       string
	start, end int // the bytes of it, with the stuffing that its reader consumes
	bad        bool
	pack       *psPack
	gop        *vGOP
}

func genProbeStream(c *Ctx) (data []byte, parts []*probePart) {
	r := c.Rand()
	for n := c.Range(1, 8); n > 0; n-- {
		p := &probePart{start: len(data)}
		w := &bitWriter{}
		stuff := 0
		switch c.N(4) {
		case 0:
			p.kind = "pack"
			p.pack = genPS(c, psOpts{maxPacks: 1, maxPkts: 1, pes: pesOpts{}})[0]
			w.b = p.pack.header()
			if c.Chance(5) {
				p.bad = true
				at := p.pack.markers()
				bit := at[c.N(len(at))]
				w.b[bit/8] ^= 0x80 >> (bit % 8)
				c.Probe("malformed header")
			}
		case 1:
			p.kind = "gop"
			g := &vGOP{closed: r.N(2) == 1, broken: r.N(2) == 1, drop: r.N(2) == 1, hh: r.N(24), mm: r.N(60), ss: r.N(60), pp: r.N(60)}
			p.gop = g
			w.put(0x1b8, 32)
			w.flag(g.drop)
			w.put(uint64(g.hh), 5)
			w.put(uint64(g.mm), 6)
			w.put(1, 1)
			w.put(uint64(g.ss), 6)
			w.put(uint64(g.pp), 6)
			w.flag(g.closed)
			w.flag(g.broken)
			w.put(0, 5)
			stuff = c.Pick(4, 1, 1, 1, 1)
		case 2:
			p.kind = "sequence"
			w.put(0x1b3, 32)
			w.put(uint64(r.N(1<<16))<<16|uint64(r.N(1<<16)), 32)
			w.put(uint64(1+r.N(1<<18-1)), 18)
			if c.Chance(8) {
				p.bad = true
				w.put(0, 1)
				c.Probe("malformed header")
			} else {
				w.put(1, 1)
			}
			w.put(uint64(1+r.N(1023)), 10)
			w.put(0, 1)
			for i := 0; i < 2; i++ {
				load := r.N(2) == 1
				w.flag(load)
				for k := 0; load && k < 64; k++ {
					w.put(uint64(1+r.N(255)), 8)
				}
			}
			stuff = c.Pick(4, 1, 1, 1, 1)
		case 3:
			p.kind = "other"
			w.put(uint64(0x100|[]int{0x00, 0x01, 0xaf, 0xb2, 0xb5, 0xb7, 0xb9, 0xe0}[c.N(8)]), 32)
			for k := c.N(40); k > 0; k-- {
				w.put(uint64(0x20+r.N(0xe0)), 8)
			}
		}
		data = append(data, w.b...)
		if stuff > 0 && c.Chance(12) {
			stuff = []int{20, 200, 2000}[c.N(3)] + c.N(100)
		}
		if stuff > 0 && c.Chance(8) {
			p.bad = true
			data = append(data, byte(2+r.N(250)))
			c.Probe("malformed header")
		}
		data = append(data, make([]byte, stuff)...)
		p.end = len(data)
		parts = append(parts, p)
	}
	return append(data, 0, 0, 1, 0xb7), parts
}

// bitsAt is the n bits at a position.
func bitsAt(data []byte, pos, n int) (v uint64) {
	for i := pos; i < pos+n; i++ {
		v = v<<1 | uint64(data[i/8]>>(7-i%8)&1)
	}
	return
}

// scenProbes puts start-code probes and header readers, and what the caller reads for itself in
// between, in any order on a bit stream, and follows the position.
func scenProbes(c *Ctx) {
	data, parts := genProbeStream(c)
	s := NewSource(c, "stream", data)
	s.plainEnd()
	limit := 8 * len(data)
	var fault error
	switch c.N(4) {
	case 0:
		fault = c.ioError(1)
		off := c.N(len(data) + 1)
		s.faults = []*Fault{{Off: off, Err: fault, Count: -1}}
		limit = 8 * off
	case 1, 2:
		fault = c.ioError(1)
		s.bits = &bitSource{c: c, at: c.N(limit), err: fault, once: true}
	}
	var raw bitreader.BitReader
	if c.Bool() {
		raw = bitreader.NewReader(s.reader())
	} else {
		raw = video.NewVideoSequence(s.reader())
	}
	br := s.bitReader(raw)
	fired := func() int {
		if s.bits != nil {
			return s.bits.fired
		}
		return 0
	}
	pos := 0
	// still says that the reader is where it has to be.
	still := func(op string) {
		n := limit - pos
		if n > 32 {
			n = 32
		}
		if n > 0 {
			got, err := raw.Peek32(uint(n))
			if err != nil {
				c.Fail("position", "%s at bit %d: the next %d bits cannot be read afterwards: %v", op, pos, n, err)
			}
			if want := uint32(bitsAt(data, pos, n)); got != want {
				c.Fail("position", "%s: the next %d bits should be %#x (bit %d), and are %#x", op, n, want, pos, got)
			}
		}
		if raw.IsAligned() != (pos%8 == 0) {
			c.Fail("position", "%s: aligned %v at bit %d", op, raw.IsAligned(), pos)
		}
	}
	short := func(err error) bool { // of the right kind
		if s.bits == nil && fault != nil {
			return err == fault
		}
		return isEnd(err)
	}
	c.nontrivial = true
	for ops := 3 + c.N(24); ops > 0; ops-- {
		switch k := c.Pick(4, 4, 3, 4, 3, 6); k {
		case 0, 1, 2, 3: // probes
			width := 32
			if k == 2 {
				width = 4
			}
			enough := pos+width <= limit
			var next uint32
			if enough {
				next = uint32(bitsAt(data, pos, width))
			}
			code := next
			if k == 2 {
				if c.Chance(3) || !enough {
					code = uint32(c.N(16))
				}
			} else if c.Chance(3) || !enough {
				code = uint32(0x100 | []int{0x00, 0x01, 0xaf, 0xb0, 0xb2, 0xb3, 0xb5, 0xb7, 0xb8, 0xb9, 0xba, 0xbb}[c.N(12)])
			}
			assert := c.Bool()
			was := fired()
			var got bool
			var err, unexpected error
			op := ""
			switch k {
			case 0, 3:
				op = "video.StartCode"
				x := video.StartCode(code)
				if slice := code >= 0x101 && code <= 0x1af; x.IsSlice() != slice {
					c.Fail("probe", "video.StartCode(%#x).IsSlice: %v", code, !slice)
				}
				unexpected = video.ErrUnexpectedStartCode
				if assert {
					err = x.Assert(br)
				} else {
					got, err = x.Check(br)
				}
			case 1:
				op = "ps.StartCode"
				x := ps.StartCode(code)
				unexpected = ps.ErrUnexpectedStartCode
				if assert {
					err = x.Assert(br)
				} else {
					got, err = x.Check(br)
				}
			case 2:
				op = "video.ExtensionID"
				x := video.ExtensionID(code)
				// 11 and 12 have got a meaning after the first edition of the standard.
				if reserved := code == 0 || code == 6 || code > 12; code != 11 && code != 12 && x.IsReserved() != reserved {
					c.Fail("probe", "video.ExtensionID(%d).IsReserved: %v", code, !reserved)
				}
				unexpected = video.ErrUnexpectedExtensionID
				if assert {
					err = x.Assert(br)
				} else {
					got, err = x.Check(br)
				}
			}
			op = fmt.Sprintf("%s(%#x).", op, code) + map[bool]string{true: "Assert", false: "Check"}[assert]
			c.Ev(op, pos, errCode(err))
			match := enough && code == next
			switch {
			case fired() > was:
				if err != fault {
					c.Fail("error-replaced", "%s at bit %d: the bit reader failed with %v, and %v was returned", op, pos, fault, err)
				}
			case !enough:
				if !short(err) {
					c.Fail("error-replaced", "%s at bit %d of %d: returned %v", op, pos, limit, err)
				}
			case assert && !match:
				if err != unexpected {
					c.Fail("probe", "%s at bit %d, where there is %#x: %v", op, pos, next, err)
				}
			case err != nil:
				c.Fail("probe", "%s at bit %d, where there is %#x: %v", op, pos, next, err)
			case assert:
				pos += width
				c.Probe("code asserted")
			case got != match:
				c.Fail("probe", "%s at bit %d, where there is %#x: %v", op, pos, next, got)
			}
			still(op)
		case 4: // the caller's own reading
			n := 1 + c.N(32)
			if c.Bool() {
				n = 8
			}
			if pos+n > limit {
				continue
			}
			v, err := raw.Read32(uint(n))
			if err != nil || v != uint32(bitsAt(data, pos, n)) {
				c.Fail("position", "read of %d bits at bit %d: %#x, %v", n, pos, v, err)
			}
			pos += n
			if s.bits != nil {
				s.bits.pos = pos
				s.bits.saw(0, nil)
			}
		case 5: // a header
			if c.Chance(4) == false {
				// from the beginning of some part that lies ahead
				for _, p := range parts {
					if 8*p.start >= pos && (c.Bool() || p == parts[len(parts)-1]) && 8*p.start <= limit {
						if err := raw.Skip(uint(8*p.start - pos)); err != nil {
							c.Fail("position", "skip from bit %d to %d: %v", pos, 8*p.start, err)
						}
						pos = 8 * p.start
						if s.bits != nil {
							s.bits.pos = pos
							s.bits.saw(0, nil)
						}
						break
					}
				}
			}
			var at *probePart
			for _, p := range parts {
				if 8*p.start == pos {
					at = p
				}
			}
			kind := []string{"pack", "gop", "sequence"}[c.N(3)]
			if at != nil && at.kind != "other" && !c.Chance(4) {
				kind = at.kind
			}
			was := fired()
			var err, unexpected error
			var code uint32
			diff := ""
			switch kind {
			case "pack":
				var h *ps.PackHeader
				h, err = ps.NewPackHeader(br)
				code, unexpected = 0x1ba, ps.ErrUnexpectedStartCode
				if err == nil && at != nil && at.pack != nil {
					diff = at.pack.diff(&ps.Pack{PackHeader: h})
				}
			case "gop":
				var h *video.GroupOfPicturesHeader
				h, err = video.ReadGOPHeader(br)
				code, unexpected = 0x1b8, video.ErrUnexpectedStartCode
				if err == nil && at != nil && at.gop != nil {
					diff = at.gop.diff(h)
				}
			case "sequence":
				var h *video.SequenceHeader
				h, err = video.ReadSequenceHeader(br)
				code, unexpected = 0x1b3, video.ErrUnexpectedStartCode
				if err == nil && h == nil {
					diff = "nil header"
				}
			}
			c.Ev("header "+kind, pos, errCode(err))
			op := "reader of a " + kind + " header"
			enough := pos+32 <= limit
			switch {
			case fired() > was:
				if err != fault {
					c.Fail("error-replaced", "%s at bit %d: the bit reader failed with %v, and %v was returned", op, pos, fault, err)
				}
				return // somewhere in the header
			case !enough:
				if !short(err) {
					c.Fail("error-replaced", "%s at bit %d of %d: returned %v", op, pos, limit, err)
				}
			case uint32(bitsAt(data, pos, 32)) != code:
				if err != unexpected {
					c.Fail("probe", "%s at bit %d, where there is %#x: %v", op, pos, bitsAt(data, pos, 32), err)
				}
			case at == nil:
				return // a code where none was put
			case at.bad:
				if err == nil {
					c.Fail("malformed-accepted", "%s: no error for a malformed header at bit %d", op, pos)
				}
				return
			default:
				// Where it ends is only told by the start code after it.
				need, tail := 8*at.end, 24
				if kind == "pack" {
					tail = 32
				}
				if need+tail > limit {
					if !short(err) && !(kind == "pack" && err == nil) {
						c.Fail("error-replaced", "%s, header at bits %d to %d of %d: %v", op, pos, need, limit, err)
					}
					return
				}
				if err != nil {
					c.Fail("header", "%s at bit %d: %v", op, pos, err)
				}
				if diff != "" {
					c.Fail("header", "%s at bit %d: %s", op, pos, diff)
				}
				pos = 8 * at.end
				c.Probe("header read: " + kind)
			}
			still(op)
		}
	}
}

func (g *vGOP) diff(h *video.GroupOfPicturesHeader) string {
	if h == nil {
		return "nil header"
	}
	want := video.TimeCode{DropFrame: g.drop, Hours: int32(g.hh), Minutes: int32(g.mm), Seconds: int32(g.ss), Pictures: int32(g.pp)}
	if got := h.TimeCode(); got != want {
		return fmt.Sprintf("time code %+v, want %+v", got, want)
	}
	if h.ClosedGOP != g.closed || h.BrokenLink != g.broken {
		return fmt.Sprintf("closed %v, broken %v, want %v, %v", h.ClosedGOP, h.BrokenLink, g.closed, g.broken)
	}
	return ""
}

func init() {
	register(&Property{ID: "C24", Quick: 1500000, Thorough: 100000000,
		Scenarios: []Scenario{{"probes", 1, scenProbes}},
		Rule:      "A run draws headers and other data, a history of probes, header reads and reads of its own over a bit stream, an error at any bit or byte, and fragmentation; a model of the position tells the outcome of each call and where the stream stands after it.",
		Real:      []string{"ps.StartCode, video.StartCode, video.ExtensionID, ps.NewPackHeader, video.ReadGOPHeader, video.ReadSequenceHeader (built from the repository's tree, instrumented)", "github.com/32bitkid/bitreader"},
		Stub:      stubSrc})
}
