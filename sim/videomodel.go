package sim

import (
	"bytes"
	"fmt"
	"image"
	"sort"
)

// The video model: an encoder of MPEG-2 video sequences that makes its choices macroblock
// by macroblock, and reconstructs every picture the way ISO/IEC 13818-2 says.

type runLevel struct{ run, level int }

type vFrame struct {
	w, h      int // of the coded area
	y, cb, cr []byte
}

func newVFrame(mbw, mbh int) *vFrame {
	return &vFrame{mbw * 16, mbh * 16, make([]byte, mbw*mbh*256), make([]byte, mbw*mbh*64), make([]byte, mbw*mbh*64)}
}

func (f *vFrame) diff(g *image.YCbCr) string {
	if g == nil {
		return "there is no frame"
	}
	if g.Rect != image.Rect(0, 0, f.w, f.h) || g.SubsampleRatio != image.YCbCrSubsampleRatio420 {
		return fmt.Sprintf("the frame is %v %v, want %dx%d 4:2:0", g.Rect, g.SubsampleRatio, f.w, f.h)
	}
	plane := func(name string, got []uint8, stride int, want []byte, w int) string {
		for y := 0; y*w < len(want); y++ {
			if len(got) < y*stride+w {
				return name + " is cut short"
			}
			if a, b := got[y*stride:y*stride+w], want[y*w:(y+1)*w]; !bytes.Equal(a, b) {
				x := firstDiff(a, b)
				return fmt.Sprintf("%s differs at (%d,%d) of %dx%d: %d, want %d", name, x, y, w, len(want)/w, a[x], b[x])
			}
		}
		return ""
	}
	if d := plane("luma", g.Y, g.YStride, f.y, f.w); d != "" {
		return d
	}
	if d := plane("Cb", g.Cb, g.CStride, f.cb, f.w/2); d != "" {
		return d
	}
	return plane("Cr", g.Cr, g.CStride, f.cr, f.w/2)
}

type vGOP struct {
	header         bool
	closed, broken bool
	drop           bool
	hh, mm, ss, pp int
}

type vPic struct {
	typ   byte
	tr    int
	disp  int   // display index within its group
	gop   *vGOP // whose header was read last
	seq   *vSeq
	frame *vFrame
	done  int // offset of the start code after the picture
}

type vSeq struct {
	w, h, mbw, mbh int
	progressive    bool
	noB            bool // no B-pictures
}

// vItem is what one call of Next must return: a frame, or the end of a sequence.
type vItem struct {
	pic  *vPic
	eos  bool
	need int   // bytes of the stream that must have been read
	last *vPic // the picture decoded last by then
}

type vSync struct {
	off  int
	item int // first item that follows from here
	seq  *vSeq
	gop  *vGOP
}

type vStream struct {
	data   []byte
	starts []int // of start codes
	items  []vItem
	gops   []vSync
	seqs   []vSync
	pics   []*vPic // in decoding order
}

// avail is how many items are out when only off bytes can be read.
func (s *vStream) avail(off int) int {
	return sort.Search(len(s.items), func(i int) bool { return s.items[i].need > off })
}

type vOpts struct {
	maxSeqs, maxGOPs int
	small            bool // pictures of a few macroblocks only
	headers          bool // every group has a header, and is closed
	oneHeader        bool // no repeated sequence headers
	noMatrices       bool // no matrices for single pictures
	tall             bool // now and then, pictures of many rows
}

type vEnc struct {
	c *Ctx
	r *Rng
	o vOpts
	s *vStream
	w bitWriter

	extreme string // what there is unusually much of in this stream

	seq  *vSeq
	mats [2][64]int // raster order: intra, non-intra
	refs [2]*vFrame // older, newer

	// the picture that is being encoded
	p       *vPic
	inside  bool
	fcode   [2][2]int
	dcPrec  int
	fpfd    bool
	conceal bool
	qtype   int
	ivlc    bool
	alt     bool
	style   int

	// the slice that is being encoded
	dc  [3]int
	pmv [2][2]int
	qsc int

	shown  int   // pictures of earlier groups
	header *vGOP // the last one written
}

var vScan = func() (s [2][64]int) {
	// s[alternate][n] is the raster position of the n-th coefficient.
	x, y, up := 0, 0, true
	for n := 0; n < 64; n++ {
		s[0][n] = y*8 + x
		if up {
			switch {
			case x == 7:
				y++
				up = false
			case y == 0:
				x++
				up = false
			default:
				x++
				y--
			}
		} else {
			switch {
			case y == 7:
				x++
				up = true
			case x == 0:
				y++
				up = true
			default:
				x--
				y++
			}
		}
	}
	s[1] = [64]int{
		0, 8, 16, 24, 1, 9, 2, 10, 17, 25, 32, 40, 48, 56, 57, 49,
		41, 33, 26, 18, 3, 11, 4, 12, 19, 27, 34, 42, 50, 58, 35, 43,
		51, 59, 20, 28, 5, 13, 6, 14, 21, 29, 36, 44, 52, 60, 37, 45,
		53, 61, 22, 30, 7, 15, 23, 31, 38, 46, 54, 62, 39, 47, 55, 63,
	}
	return
}()

// The default intra matrix, in the order in which it would be transmitted.
var vDefaultIntra = [64]int{
	8, 16, 16, 19, 16, 19, 22, 22, 22, 22, 22, 22, 26, 24, 26, 27,
	27, 27, 26, 26, 26, 26, 27, 27, 27, 29, 29, 29, 34, 34, 34, 29,
	29, 29, 27, 27, 29, 29, 32, 32, 34, 34, 37, 38, 37, 35, 35, 34,
	35, 38, 38, 40, 40, 40, 48, 48, 46, 46, 56, 56, 58, 69, 69, 83,
}

var vScale = func() (s [2][32]int) {
	for i := 1; i < 32; i++ {
		s[0][i] = 2 * i
	}
	v, step := 0, 1
	for i := 1; i < 32; i++ {
		v += step
		s[1][i] = v
		if i%8 == 0 || (i > 8 && (i-8)%8 == 0) {
			step *= 2
		}
	}
	return
}()

func (e *vEnc) vlc(code string) {
	if code == "" {
		bug("no such variable length code")
	}
	for i := 0; i < len(code); i++ {
		e.w.put(uint64(code[i]-'0'), 1)
	}
}

func (e *vEnc) startCode(id int) {
	if !e.w.aligned() {
		e.w.put(0, e.w.free)
	}
	if e.r.N(12) == 11 {
		k := 1 + e.r.N(5)
		if e.extreme == "stuffing" {
			k = []int{30, 300, 3000}[e.r.N(3)] + e.r.N(30)
		}
		for ; k > 0; k-- {
			e.w.put(0, 8)
		}
	}
	e.s.starts = append(e.s.starts, len(e.w.b))
	e.w.put(uint64(0x100|id), 32)
}

// ends marks the pictures that end at the start code written last.
func (e *vEnc) ends(p *vPic) {
	if p != nil && p.done == 0 {
		p.done = e.s.starts[len(e.s.starts)-1]
	}
}

func (e *vEnc) prevPic() *vPic {
	if n := len(e.s.pics); n > 0 {
		return e.s.pics[n-1]
	}
	return nil
}

func (e *vEnc) code(id int) {
	e.startCode(id)
	if !e.inside {
		e.ends(e.prevPic())
	}
}

func (e *vEnc) userData() {
	e.code(0xb2)
	n := e.r.N(20)
	if e.extreme == "user data" {
		n = []int{100, 300, 5000}[e.r.N(3)] + e.r.N(300)
		if e.r.N(10) == 9 {
			n = 65400 + e.r.N(400)
		}
	}
	zeros := 0
	for i := 0; i < n; i++ {
		b := e.r.N(256)
		if b == 0 || (zeros > 0 && e.r.N(3) == 2) {
			b = 0
		}
		if zeros == 2 && b < 2 {
			b = 2
		}
		if i == n-1 && b < 2 {
			b = 0x80
		}
		if b == 0 {
			zeros++
		} else {
			zeros = 0
		}
		e.w.put(uint64(b), 8)
	}
}

func (e *vEnc) matrix(which int) {
	var m [64]int
	base := 1 + e.r.N(60)
	for n := range m {
		v := base + n*e.r.N(3)
		if e.r.N(6) == 5 {
			v = 1 + e.r.N(255)
		}
		if v > 255 {
			v = 255
		}
		if n == 0 && which == 0 {
			v = 8
		}
		e.w.put(uint64(v), 8)
		m[n] = v
	}
	// Matrices are always transmitted in zigzag order.
	for n, v := range m {
		e.mats[which][vScan[0][n]] = v
	}
}

func (e *vEnc) sequenceHeader(first bool) {
	c := e.c
	if first {
		s := &vSeq{progressive: c.Bool(), noB: c.Chance(4)}
		s.mbw, s.mbh = c.Range(1, 4), c.Range(1, 3)
		if e.extreme == "macroblocks" {
			s.mbw, s.mbh = 5+c.N(18), 4+c.N(15)
		} else if e.o.small {
			if c.Chance(16) { // address increments of many bits
				s.mbw, s.mbh = 8+c.N(36), 1
			} else if e.o.tall && c.Chance(12) {
				s.mbw, s.mbh = 1, 10+c.N(20)
			}
		} else {
			switch c.Pick(28, 2, 1, 1) {
			case 1: // address increments with escapes
				s.mbw, s.mbh = 30+c.N(50), 1
			case 2: // slices beyond the reach of a start code
				s.mbw, s.mbh = 1, 175+c.N(5)
			case 3: // the size needs its extension
				s.mbw, s.mbh = 256<<c.Pick(6, 1)+c.N(3), 1
				if s.mbw > 500 {
					s.mbw += 256 * c.N(2)
				}
				if c.Chance(4) {
					s.mbw, s.mbh = s.mbh, s.mbw
				}
			}
		}
		s.w, s.h = s.mbw*16-c.N(16), s.mbh*16-c.N(16)
		if s.w&0xfff == 0 {
			s.w++
		}
		if s.h&0xfff == 0 {
			s.h++
		}
		if s.mbh >= 175 {
			s.h = s.mbh*16 - []int{0, 0, 15, 1 + c.N(14)}[c.N(4)]
			if s.h&0xfff == 0 {
				s.h--
			}
			if s.h <= 2800 {
				s.progressive = true // no slice could be in the last row of an interlaced one
			}
		}
		s.mbw, s.mbh = (s.w+15)/16, (s.h+15)/16
		if !s.progressive {
			s.mbh = (s.h + 31) / 32 * 2
		}
		e.seq = s
		c.Note("sequence %dx%d progressive %v", s.w, s.h, s.progressive)
	}
	s := e.seq
	e.code(0xb3)
	off := e.s.starts[len(e.s.starts)-1]
	e.s.seqs = append(e.s.seqs, vSync{off: off, item: -1, seq: s})
	e.w.put(uint64(s.w&0xfff), 12)
	e.w.put(uint64(s.h&0xfff), 12)
	e.w.put(uint64(1+e.r.N(4)), 4)
	e.w.put(uint64(1+e.r.N(8)), 4)
	e.w.put(uint64(1+e.r.N(1<<18-1)), 18)
	e.w.put(1, 1)
	e.w.put(uint64(1+e.r.N(1023)), 10)
	e.w.put(0, 1)
	load := c.Chance(3)
	e.w.flag(load)
	if load {
		e.matrix(0)
		c.Probe("loaded intra matrix")
	} else {
		for n, v := range vDefaultIntra {
			e.mats[0][vScan[0][n]] = v
		}
	}
	load = c.Chance(3)
	e.w.flag(load)
	if load {
		e.matrix(1)
		c.Probe("loaded non-intra matrix")
	} else {
		for n := range e.mats[1] {
			e.mats[1][n] = 16
		}
	}
	// sequence extension
	e.code(0xb5)
	e.w.put(1, 4)
	e.w.put([]uint64{0x48, 0x44, 0x46, 0x4a, 0x58, 0x14, 0x18}[e.r.N(7)], 8)
	e.w.flag(s.progressive)
	e.w.put(1, 2)
	e.w.put(uint64(s.w>>12), 2)
	e.w.put(uint64(s.h>>12), 2)
	e.w.put(uint64(e.r.N(1<<12)), 12)
	e.w.put(1, 1)
	e.w.put(uint64(e.r.N(256)), 8)
	e.w.flag(s.noB && e.r.N(2) == 1) // low_delay
	e.w.put(uint64(e.r.N(128)), 7)
	k := c.Pick(6, 2, 1)
	if e.extreme == "extensions" {
		k = c.N(12)
	}
	for ; k > 0; k-- {
		if c.Bool() {
			e.userData()
		} else {
			e.code(0xb5)
			e.w.put(2, 4)
			e.w.put(uint64(e.r.N(6)), 3)
			colour := e.r.N(2) == 1
			e.w.flag(colour)
			if colour {
				for i := 0; i < 3; i++ {
					e.w.put(uint64(1+e.r.N(7)), 8)
				}
			}
			e.w.put(uint64(1+e.r.N(1<<14-1)), 14)
			e.w.put(1, 1)
			e.w.put(uint64(1+e.r.N(1<<14-1)), 14)
		}
	}
}

func (e *vEnc) gopHeader(g *vGOP) {
	e.code(0xb8)
	off := e.s.starts[len(e.s.starts)-1]
	e.s.gops = append(e.s.gops, vSync{off: off, item: -1, seq: e.seq, gop: g})
	e.w.flag(g.drop)
	e.w.put(uint64(g.hh), 5)
	e.w.put(uint64(g.mm), 6)
	e.w.put(1, 1)
	e.w.put(uint64(g.ss), 6)
	e.w.put(uint64(g.pp), 6)
	e.w.flag(g.closed)
	e.w.flag(g.broken)
	for k := e.c.Pick(6, 1); k > 0; k-- {
		e.userData()
	}
}

// picture encodes one picture and reconstructs it.
func (e *vEnc) picture(p *vPic, backwardOnly bool) {
	c, r := e.c, e.r
	e.code(0x00)
	e.inside = true
	e.s.pics = append(e.s.pics, p)
	e.p = p
	p.seq = e.seq
	p.frame = newVFrame(e.seq.mbw, e.seq.mbh)
	e.w.put(uint64(p.tr), 10)
	e.w.put(uint64(map[byte]int{'I': 1, 'P': 2, 'B': 3}[p.typ]), 3)
	e.w.put(uint64(1+r.N(0xffff)), 16)
	if p.typ != 'I' {
		e.w.put(7, 4)
	}
	if p.typ == 'B' {
		e.w.put(7, 4)
	}
	k := c.Pick(12, 1, 1)
	if e.extreme == "extra information" {
		k = r.N([]int{10, 40, 400}[r.N(3)])
	}
	for ; k > 0; k-- {
		e.w.put(1, 1)
		e.w.put(uint64(r.N(256)), 8)
	}
	e.w.put(0, 1)

	// picture coding extension
	e.fpfd = e.seq.progressive || c.Bool()
	e.conceal = c.Chance(4)
	e.dcPrec = c.N(4)
	e.qtype = c.N(2)
	e.ivlc = c.Bool()
	e.alt = c.Bool()
	e.style = c.N(6)
	e.code(0xb5)
	e.w.put(8, 4)
	for s := 0; s < 2; s++ {
		for t := 0; t < 2; t++ {
			e.fcode[s][t] = 15
			if (s == 0 && (p.typ != 'I' || e.conceal)) || (s == 1 && p.typ == 'B') {
				e.fcode[s][t] = 1 + r.N(4)
				if r.N(8) == 7 {
					e.fcode[s][t] = 1 + r.N(9)
				}
			}
			e.w.put(uint64(e.fcode[s][t]), 4)
		}
	}
	e.w.put(uint64(e.dcPrec), 2)
	e.w.put(3, 2)
	e.w.put(uint64(r.N(2)), 1)
	e.w.flag(e.fpfd)
	e.w.flag(e.conceal)
	e.w.put(uint64(e.qtype), 1)
	e.w.flag(e.ivlc)
	e.w.flag(e.alt)
	prog := e.seq.progressive || (e.fpfd && r.N(2) == 1)
	e.w.flag(prog && r.N(4) == 0) // repeat_first_field: for displays to heed
	e.w.flag(prog)
	e.w.flag(prog)
	composite := r.N(10) == 9
	e.w.flag(composite)
	if composite {
		e.w.put(r.next(), 20)
	}
	k = c.Pick(8, 2, 1)
	if e.extreme == "extensions" {
		k = c.N(12)
	}
	for ; k > 0; k-- {
		kind := c.Pick(2, 2, 1, 1)
		if kind == 1 && e.o.noMatrices {
			kind = 0
		}
		switch kind {
		case 0:
			e.userData()
		case 1:
			c.Probe("quant matrix extension")
			e.code(0xb5)
			e.w.put(3, 4)
			for i := 0; i < 2; i++ {
				load := r.N(2) == 1
				e.w.flag(load)
				if load {
					e.matrix(i)
				}
			}
			e.w.put(0, 2)
		case 2:
			c.Probe("copyright extension")
			e.code(0xb5)
			e.w.put(4, 4)
			e.w.put(uint64(r.N(2)), 1)
			e.w.put(uint64(r.N(256)), 8)
			e.w.put(1, 1)
			e.w.put(0, 7)
			for _, n := range []uint{20, 22, 22} {
				e.w.put(1, 1)
				e.w.put(r.next()|1, n)
			}
		case 3:
			c.Probe("picture display extension")
			e.code(0xb5)
			e.w.put(7, 4)
			for i := 1 + r.N(3); i > 0; i-- {
				e.w.put(r.next()|1, 16)
				e.w.put(1, 1)
				e.w.put(r.next()|1, 16)
				e.w.put(1, 1)
			}
		}
	}

	oneSlice := c.Chance(2)
	for row := 0; row < e.seq.mbh; row++ {
		for col := 0; col < e.seq.mbw; {
			n := e.seq.mbw - col
			if !oneSlice && r.N(3) == 2 {
				n = 1 + r.N(n)
			}
			e.slice(row, col, n, backwardOnly)
			col += n
		}
	}
	e.inside = false
	if p.typ != 'B' {
		e.refs[0], e.refs[1] = e.refs[1], p.frame
	}
}

type vMode struct {
	intra    bool
	fwd, bwd bool
	mv       [2][2]int
}

func (e *vEnc) slice(row, col, n int, backwardOnly bool) {
	r := e.r
	if e.seq.h > 2800 {
		e.code(1 + row&0x7f)
		e.w.put(uint64(row>>7), 3)
	} else {
		e.code(1 + row)
	}
	e.qsc = 1 + r.N(31)
	e.w.put(uint64(e.qsc), 5)
	if r.N(10) == 9 {
		e.w.put(1, 1) // intra_slice_flag
		e.w.put(uint64(r.N(2)), 1)
		e.w.put(0, 7)
		k := r.N(r.N(10) + 1)
		if e.extreme == "extra information" {
			k = r.N([]int{10, 40, 400}[r.N(3)])
		}
		for ; k > 0; k-- {
			e.w.put(1, 1)
			e.w.put(uint64(r.N(256)), 8)
		}
	}
	e.w.put(0, 1)
	e.resetDC()
	e.pmv = [2][2]int{}

	inc := col + 1
	var prev vMode
	for k := 0; k < n; k++ {
		x := col + k
		skipOK := k > 0 && k < n-1 && e.p.typ != 'I' && !(e.p.typ == 'B' && prev.intra)
		limit := 4
		if e.style == 3 {
			limit = 40
		}
		if skipOK && r.N(limit) > 2 && (e.p.typ == 'P' || e.contains(&prev, x, row)) {
			inc++
			e.resetDC()
			if e.p.typ == 'P' {
				e.pmv = [2][2]int{}
				prev = vMode{fwd: true}
			}
			e.reconstruct(x, row, &prev, 0, nil, false)
			continue
		}
		for inc > 33 {
			e.w.put(8, 11)
			inc -= 33
		}
		e.vlc(vlcIncrement[inc])
		inc = 1
		prev = e.macroblock(x, row, backwardOnly)
	}
}

// contains tells whether the vectors of a macroblock stay in the picture at x.
func (e *vEnc) contains(m *vMode, x, row int) bool {
	for s, used := range []bool{m.fwd, m.bwd} {
		if used && (m.mv[s][0] < -32*x || m.mv[s][0] > 32*(e.seq.mbw-1-x) || m.mv[s][1] < -32*row || m.mv[s][1] > 32*(e.seq.mbh-1-row)) {
			return false
		}
	}
	return true
}

func (e *vEnc) resetDC() {
	for i := range e.dc {
		e.dc[i] = 1 << (7 + uint(e.dcPrec))
	}
}

func (e *vEnc) macroblock(x, row int, backwardOnly bool) vMode {
	r := e.r
	var typ string
	switch e.p.typ {
	case 'I':
		typ = []string{"I", "QI"}[r.N(2)]
	case 'P':
		typ = []string{"FP", "F", "P", "I", "QFP", "QP", "QI"}[r.N(7)]
	case 'B':
		if backwardOnly {
			typ = []string{"B", "BP", "QBP", "I", "QI"}[r.N(5)]
		} else {
			typ = []string{"FB", "FBP", "F", "FP", "B", "BP", "I", "QFBP", "QFP", "QBP", "QI"}[r.N(11)]
		}
	}
	has := func(c byte) bool { return bytes.IndexByte([]byte(typ), c) >= 0 }
	table := map[byte]map[string]string{'I': vlcTypeI, 'P': vlcTypeP, 'B': vlcTypeB}[e.p.typ]
	e.vlc(table[typ])
	m := vMode{intra: has('I'), fwd: has('F'), bwd: has('B')}
	pattern := has('P')
	if (m.fwd || m.bwd) && !e.fpfd {
		e.w.put(2, 2) // frame-based prediction
	}
	field := false
	if !e.fpfd && (m.intra || pattern) {
		field = r.N(2) == 1
		e.w.flag(field)
		if field {
			e.c.Probe("field DCT")
		}
	}
	if has('Q') {
		e.qsc = 1 + r.N(31)
		e.w.put(uint64(e.qsc), 5)
	}
	if !m.intra {
		e.resetDC()
	}
	if m.intra && !e.conceal {
		e.pmv = [2][2]int{}
	}
	if e.p.typ == 'P' && !m.intra && !m.fwd {
		e.pmv = [2][2]int{}
	}
	if m.fwd || (m.intra && e.conceal) {
		m.mv[0] = e.vector(0, x, row, m.intra)
	}
	if m.bwd {
		m.mv[1] = e.vector(1, x, row, false)
	}
	if m.intra && e.conceal {
		e.w.put(1, 1)
	}
	if e.p.typ == 'P' && !m.intra && !m.fwd {
		m.fwd = true // with a zero vector
	}
	cbp := 0
	if m.intra {
		cbp = 63
	} else if pattern {
		cbp = 1 + r.N(63)
		e.vlc(vlcPattern[cbp])
	}
	var blocks [6][64]int32
	for i := 0; i < 6; i++ {
		if cbp>>(5-uint(i))&1 == 1 {
			e.block(i, m.intra, &blocks[i])
		}
	}
	e.reconstruct(x, row, &m, cbp, &blocks, field)
	return m
}

// vector draws and encodes a motion vector.
func (e *vEnc) vector(s, x, row int, conceal bool) (mv [2]int) {
	r := e.r
	for t := 0; t < 2; t++ {
		f := 1 << uint(e.fcode[s][t]-1)
		low, high := -16*f, 16*f-1
		lo, hi := low, high
		if !conceal {
			pos, size := x*16, e.seq.mbw*16
			if t == 1 {
				pos, size = row*16, e.seq.mbh*16
			}
			if a := -2 * pos; a > lo {
				lo = a
			}
			if b := 2 * (size - 16 - pos); b < hi {
				hi = b
			}
		}
		v := 0
		switch r.N(5) {
		case 1:
			v = lo + r.N(hi-lo+1)
		case 2:
			v = e.pmv[s][t]
		case 3:
			v = r.N(9) - 4
		case 4:
			v = []int{lo, hi}[r.N(2)]
		}
		if v < lo {
			v = lo
		}
		if v > hi {
			v = hi
		}
		mv[t] = v
		delta := v - e.pmv[s][t]
		if delta < low {
			delta += 32 * f
		}
		if delta > high {
			delta -= 32 * f
		}
		if delta == low && r.N(2) == 1 {
			delta = -low // the other way round to the same vector
		}
		a := delta
		if a < 0 {
			a = -a
		}
		code, res := a, 0
		if f > 1 && a > 0 {
			code, res = (a-1)/f+1, (a-1)%f
		}
		if delta < 0 {
			code = -code
		}
		e.vlc(vlcMotion[code])
		if f > 1 && code != 0 {
			e.w.put(uint64(res), uint(e.fcode[s][t]-1))
		}
		e.pmv[s][t] = v
	}
	return
}

// block draws and encodes the coefficients of a block, and gives its samples.
func (e *vEnc) block(i int, intra bool, out *[64]int32) {
	r := e.r
	var qf [64]int
	n := 0
	cc := 0
	if i > 3 {
		cc = i - 3
	}
	if intra {
		max := 1<<(8+uint(e.dcPrec)) - 1
		v := e.dc[cc]
		switch r.N(4) {
		case 1:
			v = r.N(max + 1)
		case 2:
			v += r.N(41) - 20
		case 3:
			v = []int{0, max}[r.N(2)]
		}
		if v < 0 {
			v = 0
		}
		if v > max {
			v = max
		}
		diff := v - e.dc[cc]
		e.dc[cc] = v
		a := diff
		if a < 0 {
			a = -a
		}
		size := uint(0)
		for a>>size != 0 {
			size++
		}
		if cc == 0 {
			e.vlc(vlcDCLuma[int(size)])
		} else {
			e.vlc(vlcDCChroma[int(size)])
		}
		if diff < 0 {
			e.w.put(uint64(diff+(1<<size)-1), size)
		} else if size > 0 {
			e.w.put(uint64(diff), size)
		}
		qf[0] = v
		n = 1
	}
	table, entries := vlcCoef0, vlcEntries0
	if intra && e.ivlc {
		table, entries = vlcCoef1, vlcEntries1
	}
	count := r.N(4)
	switch e.style {
	case 1:
		count = r.N(20)
	case 2:
		count = r.N(66)
	}
	if !intra && count == 0 {
		count = 1
	}
	for ; count > 0 && n < 64; count-- {
		run := 0
		switch r.N(4) {
		case 1:
			run = r.N(4)
		case 2:
			run = r.N(16)
		case 3:
			if r.N(4) == 3 {
				run = r.N(64)
			}
		}
		if n+run > 63 {
			run = 63 - n
		}
		a := 1
		switch r.N(6) {
		case 1, 2:
			a = 1 + r.N(4)
		case 3:
			a = 1 + r.N(45)
		case 4:
			if r.N(6) == 5 {
				a = 1 + r.N(2047)
			}
		}
		if r.N(4) == 3 { // any code of the table
			if rl := entries[r.N(len(entries))]; n+rl.run < 64 {
				run, a = rl.run, rl.level
			}
		}
		neg := r.N(2) == 1
		code := table[runLevel{run, a}]
		if r.N(40) == 39 {
			code = ""
		}
		if code == "" {
			e.vlc(table[runLevel{-2, 0}])
			e.w.put(uint64(run), 6)
			lv := a
			if neg {
				lv = -a
			}
			e.w.put(uint64(lv)&0xfff, 12)
		} else {
			if !intra && n == 0 && run == 0 && a == 1 {
				code = "1"
			}
			e.vlc(code)
			e.w.flag(neg)
		}
		n += run
		if neg {
			a = -a
		}
		alt := 0
		if e.alt {
			alt = 1
		}
		qf[vScan[alt][n]] = a
		n++
	}
	e.vlc(table[runLevel{-1, 0}])
	e.dequantise(&qf, intra)
	for k, v := range qf {
		out[k] = int32(v)
	}
	vIDCT(out)
}

func (e *vEnc) dequantise(qf *[64]int, intra bool) {
	scale := vScale[e.qtype][e.qsc]
	sum := 0
	for k := range qf {
		v := qf[k]
		switch {
		case intra && k == 0:
			v <<= 3 - uint(e.dcPrec)
		case intra:
			v = v * 2 * e.mats[0][k] * scale / 32
		case v > 0:
			v = (2*v + 1) * e.mats[1][k] * scale / 32
		case v < 0:
			v = (2*v - 1) * e.mats[1][k] * scale / 32
		}
		if v > 2047 {
			v = 2047
		}
		if v < -2048 {
			v = -2048
		}
		qf[k] = v
		sum += v
	}
	if sum%2 == 0 {
		if qf[63]%2 == 0 {
			qf[63]++
		} else {
			qf[63]--
		}
	}
}

// vIDCT is the integer inverse transform of the MPEG software simulation group's
// decoder, which the library uses as well.
func vIDCT(b *[64]int32) {
	const c1, c2, c3, c5, c6, c7 = 2841, 2676, 2408, 1609, 1108, 565
	pass := func(base, step int, col bool) {
		at := func(i int) *int32 { return &b[base+i*step] }
		var x0, x1 int32
		round, sh := int32(0), uint(0)
		if col {
			x0, x1 = *at(0)<<8+8192, *at(4)<<8
			round, sh = 4, 3
		} else {
			x0, x1 = *at(0)<<11+128, *at(4)<<11
		}
		// Odd part.
		p := c7*(*at(1)+*at(7)) + round
		o1, o7 := (p+(c1-c7)**at(1))>>sh, (p-(c1+c7)**at(7))>>sh
		p = c3*(*at(5)+*at(3)) + round
		o5, o3 := (p-(c3-c5)**at(5))>>sh, (p-(c3+c5)**at(3))>>sh
		// Even part.
		p = c6*(*at(2)+*at(6)) + round
		e6, e2 := (p-(c2+c6)**at(6))>>sh, (p+(c2-c6)**at(2))>>sh
		s0, s1 := x0+x1, x0-x1
		a0, a3, a1, a2 := s0+e2, s0-e2, s1+e6, s1-e6
		q0, q1, q2, q3 := o1+o5, o1-o5, o7+o3, o7-o3
		m1, m2 := (181*(q1+q3)+128)>>8, (181*(q1-q3)+128)>>8
		down := uint(8)
		if col {
			down = 14
		}
		*at(0), *at(7) = (a0+q0)>>down, (a0-q0)>>down
		*at(1), *at(6) = (a1+m1)>>down, (a1-m1)>>down
		*at(2), *at(5) = (a2+m2)>>down, (a2-m2)>>down
		*at(3), *at(4) = (a3+q2)>>down, (a3-q2)>>down
	}
	for i := 0; i < 8; i++ {
		pass(8*i, 1, false)
	}
	for i := 0; i < 8; i++ {
		pass(i, 8, true)
	}
}

// predict forms the prediction of a w x w block from one reference plane.
func vPredict(plane []byte, stride, x, y, w int, mv [2]int, out []int) {
	hx, hy := mv[0]&1, mv[1]&1
	px, py := x+(mv[0]-hx)/2, y+(mv[1]-hy)/2
	for v := 0; v < w; v++ {
		for u := 0; u < w; u++ {
			sum, n := 0, 0
			for dy := 0; dy <= hy; dy++ {
				for dx := 0; dx <= hx; dx++ {
					sum += int(plane[(py+v+dy)*stride+px+u+dx])
					n++
				}
			}
			out[v*w+u] = (sum + n/2) / n
		}
	}
}

// reconstruct puts a macroblock into the picture.
func (e *vEnc) reconstruct(x, row int, m *vMode, cbp int, blocks *[6][64]int32, field bool) {
	f := e.p.frame
	do := func(dst []byte, refs [2][]byte, stride, w int, half bool, res func(u, v int) int) {
		var pred [2][256]int
		used := 0
		var which [2]int
		for s := 0; s < 2; s++ {
			if (s == 0 && !m.fwd) || (s == 1 && !m.bwd) {
				continue
			}
			mv := m.mv[s]
			if half {
				mv[0], mv[1] = mv[0]/2, mv[1]/2
			}
			vPredict(refs[s], stride, x*w, row*w, w, mv, pred[s][:])
			which[used] = s
			used++
		}
		for v := 0; v < w; v++ {
			for u := 0; u < w; u++ {
				val := 0
				switch used {
				case 1:
					val = pred[which[0]][v*w+u]
				case 2:
					val = (pred[0][v*w+u] + pred[1][v*w+u] + 1) / 2
				}
				val += res(u, v)
				if val < 0 {
					val = 0
				}
				if val > 255 {
					val = 255
				}
				dst[(row*w+v)*stride+x*w+u] = byte(val)
			}
		}
	}
	// P-pictures predict from the newest reference picture, B-pictures from the two newest.
	past, future := e.refs[1], e.refs[1]
	if e.p.typ == 'B' {
		past = e.refs[0]
	}
	var ys, cbs, crs [2][]byte
	if m.fwd {
		ys[0], cbs[0], crs[0] = past.y, past.cb, past.cr
	}
	if m.bwd {
		ys[1], cbs[1], crs[1] = future.y, future.cb, future.cr
	}
	do(f.y, ys, f.w, 16, false, func(u, v int) int {
		b, line := v/8*2+u/8, v%8
		if field {
			b, line = v%2*2+u/8, v/2
		}
		if cbp>>(5-uint(b))&1 == 0 {
			return 0
		}
		return int(blocks[b][line*8+u%8])
	})
	chroma := func(b int) func(u, v int) int {
		return func(u, v int) int {
			if cbp>>(5-uint(b))&1 == 0 {
				return 0
			}
			return int(blocks[b][v*8+u])
		}
	}
	do(f.cb, cbs, f.w/2, 8, true, chroma(4))
	do(f.cr, crs, f.w/2, 8, true, chroma(5))
}

// genVideo draws a video stream.
func genVideo(c *Ctx, o vOpts) *vStream {
	e := &vEnc{c: c, r: c.Rand(), o: o, s: &vStream{}}
	for k := c.Pick(4, 1) * (1 + c.N(6)); k > 0; k-- {
		e.w.put(0, 8) // stuffing before the first start code
	}
	e.genExtreme()
	nseq := c.Range(1, o.maxSeqs)
	if e.extreme == "sequences" {
		nseq = c.Range(3, 40)
		e.o.maxGOPs = 1
	}
	for i := 0; i < nseq; i++ {
		e.sequence(i, nseq)
	}
	s := e.s
	s.data = e.w.b
	// Nothing but the start codes may look like one.
	at := map[int]bool{}
	for _, o := range s.starts {
		at[o] = true
	}
	for i := 0; i+3 <= len(s.data); i++ {
		if s.data[i] == 0 && s.data[i+1] == 0 && s.data[i+2] == 1 && !at[i] {
			bug("start code emulated at %d of %d", i, len(s.data))
		}
	}
	e.settle()
	return s
}

// settle works out what a caller must have read for an item: it grows with the items.
func (e *vEnc) settle() {
	s := e.s
	need := 0
	for i := range s.items {
		if s.items[i].need < need {
			s.items[i].need = need
		}
		need = s.items[i].need
	}
}

// genExtreme draws what a stream has unusually much of, if anything.
func (e *vEnc) genExtreme() {
	c := e.c
	n := 12
	if e.o.small {
		n = 40
	}
	if !c.Chance(n) {
		return
	}
	e.extreme = []string{"stuffing", "user data", "extra information", "extensions", "sequences", "groups", "anchors", "B-pictures", "macroblocks"}[c.N(9)]
	if e.extreme == "macroblocks" && e.o.small {
		e.extreme = "B-pictures"
	}
	if e.extreme == "sequences" && e.o.maxSeqs == 1 {
		e.extreme = "groups"
	}
	c.Probe("unusually much: " + e.extreme)
}

func (e *vEnc) sequence(index, of int) {
	c := e.c
	e.sequenceHeader(true)
	e.refs = [2]*vFrame{}
	ngops := c.Range(1, e.o.maxGOPs)
	if e.extreme == "groups" {
		ngops = c.Range(4, 40)
	}
	if e.extreme == "very many groups" {
		ngops = c.Range(257, 300)
	}
	noHeaders := index == 0 && !e.o.headers && c.Chance(6)
	base := 0 // temporal reference of the first picture of the group
	for g := 0; g < ngops; g++ {
		if g > 0 && !e.o.oneHeader && c.Chance(3) {
			e.sequenceHeader(false)
			c.Probe("repeated sequence header")
		}
		gop := &vGOP{}
		if !noHeaders && (g == 0 || e.o.headers || !c.Chance(5)) {
			gop.header = true
			base = 0
		}
		lead := c.Pick(4, 1, 1)
		if e.extreme == "B-pictures" {
			lead = c.N(20)
		}
		if e.seq.noB {
			lead = 0
		}
		if g == 0 || e.o.headers {
			gop.closed = true
			if !gop.header {
				lead = 0 // nothing says that it is closed
			}
		} else {
			gop.closed = gop.header && c.Chance(3)
		}
		gop.broken = c.Chance(8)
		gop.drop, gop.hh, gop.mm, gop.ss, gop.pp = e.r.N(2) == 1, e.r.N(24), e.r.N(60), e.r.N(60), e.r.N(60)
		if gop.header {
			e.gopHeader(gop)
			e.header = gop
		}
		n := e.group(gop, lead, base)
		base += n
	}
	if index == of-1 && c.Chance(3) {
		// The stream just ends after the last picture: nothing says that it is complete.
		if !e.w.aligned() {
			e.w.put(0, e.w.free)
		}
		e.prevPic().done = 1 << 40
		e.finish()
		return
	}
	e.code(0xb7)
	e.finish()
	off := e.s.starts[len(e.s.starts)-1]
	e.s.items = append(e.s.items, vItem{eos: true, need: off + 4, last: e.prevPic()})
}

// finish works out the items of the sequence that ends here: its pictures in display
// order.
func (e *vEnc) finish() {
	s := e.s
	first := 0
	for first < len(s.pics) && s.pics[first].seq != e.seq {
		first++
	}
	pics := s.pics[first:]
	idx := make([]int, len(pics))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return pics[idx[a]].disp < pics[idx[b]].disp })
	itemAt := make([]int, len(pics)) // by decoding order
	latest := 0
	for _, i := range idx {
		if i > latest {
			latest = i
		}
		itemAt[i] = len(s.items)
		s.items = append(s.items, vItem{pic: pics[i], need: pics[i].done + 4, last: pics[latest]})
	}
	// Where a group starts, its first item is the one of its lowest display index.
	mark := func(list []vSync) {
		for k := range list {
			if list[k].item >= 0 {
				continue
			}
			best := len(s.items)
			for i, p := range pics {
				if p.done > list[k].off && itemAt[i] < best {
					best = itemAt[i]
				}
			}
			list[k].item = best
		}
	}
	mark(s.gops)
	mark(s.seqs)
}

// group encodes one group of pictures, and returns how many there are.
func (e *vEnc) group(gop *vGOP, lead, base int) int {
	c := e.c
	anchors := c.Range(1, 3)
	switch e.extreme {
	case "groups", "sequences":
		anchors = c.Range(1, 2)
	case "anchors":
		anchors = c.Range(4, 40)
	}
	disp := e.shown
	total := 0
	pic := func(typ byte, at int, backward bool) {
		p := &vPic{typ: typ, tr: (base + at) % 1024, disp: disp + at, gop: e.header}
		e.picture(p, backward)
		c.Ev("picture", int(typ), p.tr, len(e.w.b))
	}
	// the I-picture, and those before it in display order
	pic('I', lead, false)
	for i := 0; i < lead; i++ {
		pic('B', i, gop.closed)
	}
	total = lead + 1
	for a := 1; a < anchors; a++ {
		b := c.Pick(3, 1, 1)
		if e.extreme == "B-pictures" {
			b = c.N(20)
		}
		if e.seq.noB {
			b = 0
		}
		typ := byte('P')
		if c.Chance(6) {
			typ = 'I'
		}
		pic(typ, total+b, false)
		for i := 0; i < b; i++ {
			pic('B', total+i, false)
		}
		total += b + 1
	}
	e.shown += total
	return total
}
