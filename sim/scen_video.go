package sim

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"image"
	"io"
	"os"
	"path/filepath"
	"strings"
	"unsafe"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/simtick"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

// vReader is a video decoder and the item that is due next.
type vReader struct {
	v    *video.VideoSequence
	st   *vStream
	n    int
	held []*image.YCbCr // by item; nil for the end of a sequence
}

// next calls Next, and turns the end of a sequence into an item.
func (d *vReader) next() error {
	img, err := d.v.Next()
	if err == video.EOS {
		d.held = append(d.held, nil)
		return nil
	}
	if err == nil {
		if img == nil {
			img = &image.YCbCr{}
		}
		d.held = append(d.held, img)
	}
	return err
}

// diff compares what was returned last with item i.
func (d *vReader) diff(i int) string {
	img := d.held[len(d.held)-1]
	if i >= len(d.st.items) {
		return "there are no more"
	}
	it := &d.st.items[i]
	switch {
	case it.eos && img != nil:
		return "a frame where the sequence ends"
	case it.eos:
		return ""
	case img == nil:
		return "the sequence ends where a frame is due"
	}
	return it.pic.diff(img)
}

func (p *vPic) diff(img *image.YCbCr) string {
	if df := p.frame.diff(img); df != "" {
		return fmt.Sprintf("%c-picture %d of the group: %s", p.typ, p.tr, df)
	}
	return ""
}

// headers compares what the decoder tells about the stream with item i.
func (d *vReader) headers(c *Ctx, i int) {
	it := &d.st.items[i]
	if it.last == nil {
		return
	}
	q := it.last.seq
	if w, h := d.v.Size(); w != q.w || h != q.h {
		c.Fail("wrong-size", "item %d: Size() = %dx%d, want %dx%d", i, w, h, q.w, q.h)
	}
	if d.v.PictureHeader == nil {
		c.Fail("wrong-header", "item %d: no picture header", i)
	}
	if got, want := d.v.PictureHeader.String(), fmt.Sprintf("[%c%d]", it.last.typ, it.last.tr); got != want {
		c.Fail("wrong-header", "item %d: the picture decoded last is %s, want %s", i, got, want)
	}
	if g := it.last.gop; g != nil {
		h := d.v.GroupOfPicturesHeader
		if h == nil {
			c.Fail("wrong-header", "item %d: no group header", i)
		}
		want := video.TimeCode{DropFrame: g.drop, Hours: int32(g.hh), Minutes: int32(g.mm), Seconds: int32(g.ss), Pictures: int32(g.pp)}
		if h.ClosedGOP != g.closed || h.BrokenLink != g.broken || h.TimeCode() != want {
			c.Fail("wrong-header", "item %d: group header %v %v %v, want %v %v %v", i, h.ClosedGOP, h.BrokenLink, h.TimeCode(), g.closed, g.broken, want)
		}
	}
}

func vEvents(c *Ctx, st *vStream) {
	if dir := os.Getenv("VERIF_DUMP"); dir != "" {
		st.dump(dir)
	}
	c.nontrivial = true
	c.Note("%d bytes, %d pictures, %d items", len(st.data), len(st.pics), len(st.items))
	for _, p := range st.pics {
		c.probes["pictures: "+string(p.typ)]++
	}
}

// dump writes the stream of a run, and a digest of every item that must come out of it.
func (s *vStream) dump(dir string) {
	var b strings.Builder
	for _, it := range s.items {
		if it.eos {
			b.WriteString("end of sequence\n")
			continue
		}
		f := it.pic.frame
		h := sha1.New()
		h.Write(f.y)
		h.Write(f.cb)
		h.Write(f.cr)
		fmt.Fprintf(&b, "%dx%d %x\n", f.w, f.h, h.Sum(nil))
	}
	if os.WriteFile(filepath.Join(dir, "stream.m2v"), s.data, 0o644) != nil ||
		os.WriteFile(filepath.Join(dir, "frames.txt"), []byte(b.String()), 0o644) != nil {
		bug("cannot dump the stream")
	}
}

// ---- C16

func scenVideo(c *Ctx) {
	st := genVideo(c, vOpts{maxSeqs: 2, maxGOPs: 3})
	vEvents(c, st)
	s := NewSource(c, "video", st.data)
	playAll(c, st, s, func(int, *vReader) {})
}

// scenLong is about streams without group headers that are longer than a temporal
// reference can count.
func scenLong(c *Ctx) {
	e := &vEnc{c: c, r: c.Rand(), o: vOpts{small: true}, s: &vStream{}}
	if kind := c.Pick(4, 1, 1); kind > 0 {
		// many groups, or sequences, of few pictures
		e.o.maxGOPs = 1
		seqs := 1
		if kind == 1 {
			e.o.oneHeader, e.extreme = true, "very many groups"
		} else {
			seqs = 257 + c.N(40)
		}
		c.Probe([]string{"more than 256 groups", "more than 256 sequences"}[kind-1])
		for i := 0; i < seqs; i++ {
			e.sequence(i, seqs)
		}
		st := e.s
		st.data = e.w.b
		e.settle()
		vEvents(c, st)
		playAll(c, st, NewSource(c, "video", st.data), func(int, *vReader) {})
		return
	}
	s := &vSeq{w: 16, h: 16, mbw: 1, mbh: 1, progressive: true}
	e.seq = s
	e.sequenceHeader(false)
	base := 0
	c.Probe("temporal reference wraps")
	for base < 1030+c.N(40) {
		lead := 0
		if base > 0 {
			lead = e.r.N(3)
		}
		base += e.group(&vGOP{}, lead, base)
	}
	for k := c.N(4); k > 0; k-- {
		// groups that count from zero again
		g := &vGOP{header: true, closed: c.Bool()}
		e.gopHeader(g)
		e.header = g
		e.group(g, c.N(3), 0)
	}
	e.code(0xb7)
	e.finish()
	st := e.s
	st.data = e.w.b
	off := st.starts[len(st.starts)-1]
	st.items = append(st.items, vItem{eos: true, need: off + 4, last: e.prevPic()})
	vEvents(c, st)
	playAll(c, st, NewSource(c, "video", st.data), func(int, *vReader) {})
}

// playAll reads a complete stream, and compares all of it.
func playAll(c *Ctx, st *vStream, r io.Reader, each func(i int, d *vReader)) {
	d := &vReader{v: video.NewVideoSequence(r), st: st}
	if w, h := d.v.Size(); w != -1 || h != -1 {
		c.Fail("wrong-size", "before the first sequence header Size() = %dx%d", w, h)
	}
	n := st.avail(len(st.data))
	for i := 0; ; i++ {
		err := d.next()
		c.Ev("next", i, errCode(err))
		if err != nil {
			if i < n {
				c.Fail("frames-lost", "Next() returned %v after %d of %d items", err, i, n)
			}
			if !isEnd(err) {
				c.Fail("wrong-end", "the stream ended with %v", err)
			}
			break
		}
		if i >= n {
			c.Fail("frames-extra", "more than the %d items there are", n)
		}
		if df := d.diff(i); df != "" {
			c.Fail("frame-differs", "item %d of %d: %s", i, n, df)
		}
		d.headers(c, i)
		each(i, d)
	}
	for k := 0; k < 3; k++ {
		if _, err := d.v.Next(); !isEnd(err) {
			c.Fail("wrong-end", "Next() after the end returned %v", err)
		}
	}
	each(-1, d)
}

// ---- C17, C19

func compVideo(c *Ctx) *component {
	st := genVideo(c, vOpts{maxSeqs: 2, maxGOPs: 2, small: true, tall: true})
	vEvents(c, st)
	k := &component{name: "video.VideoSequence", bits: true, data: st.data, starts: st.starts, end: io.EOF}
	k.avail = func(off int, eof bool) (int, int) { n := st.avail(off); return n, n }
	k.run = func(c *Ctx, s *Source, exact int, after func(error) bool) (int, error) {
		d := &vReader{v: video.NewVideoSequence(s.reader()), st: st}
		d.v.BitReader = s.bitReader(d.v.BitReader)
		return readPackets(c, exact, len(s.data), d.next, d.diff, after)
	}
	k.clamp, k.mem = clampVideo, frameMemory
	return k
}

func scenVideoError(c *Ctx)   { sourceError(c, compVideo(c)) }
func scenVideoCut(c *Ctx)     { cutShort(c, compVideo(c)) }
func scenVideoCorrupt(c *Ctx) { corrupted(c, compVideo(c)) }

// ---- C18

// overlap tells whether two frames have samples in the same memory.
func overlap(a, b *image.YCbCr) bool {
	for _, x := range [][]byte{a.Y, a.Cb, a.Cr} {
		for _, y := range [][]byte{b.Y, b.Cb, b.Cr} {
			if len(x) == 0 || len(y) == 0 {
				continue
			}
			p, q := uintptr(unsafe.Pointer(&x[0])), uintptr(unsafe.Pointer(&y[0]))
			if p < q+uintptr(len(y)) && q < p+uintptr(len(x)) {
				return true
			}
		}
	}
	return false
}

func scenVideoHeld(c *Ctx) {
	st := genVideo(c, vOpts{maxSeqs: 2, maxGOPs: 3, small: true})
	vEvents(c, st)
	s := NewSource(c, "video", st.data)
	every := 1 + c.N(4)
	check := func(d *vReader, upto int, when string) {
		for i, img := range d.held[:upto] {
			if img == nil || i >= len(st.items) || st.items[i].eos {
				continue
			}
			if df := st.items[i].pic.diff(img); df != "" {
				c.Fail("frame-changed", "the frame of item %d is no longer what it was, %s: %s", i, when, df)
			}
			for j, other := range d.held[:i] {
				if other == img {
					c.Fail("frame-shared", "items %d and %d are the same frame", j, i)
				}
				if other != nil && overlap(other, img) {
					c.Fail("frame-shared", "items %d and %d are frames that share memory", j, i)
				}
			}
		}
	}
	if c.Chance(3) {
		// The stream is damaged or cut somewhere.
		k := &component{starts: st.starts}
		data, first := corrupt(c, append([]byte{}, st.data...), k.starts)
		clampVideo(data)
		s = NewSource(c, "video", data)
		good := st.avail(first)
		d := &vReader{v: video.NewVideoSequence(s.reader()), st: st}
		errs := 0
		for i := 0; i < len(data)+100 && errs < 20; i++ {
			if err := d.next(); err != nil {
				errs++
			}
			if n := len(d.held); n > 0 && n <= good && errs == 0 {
				if df := d.diff(n - 1); df != "" {
					c.Fail("frame-differs", "item %d: %s", n-1, df)
				}
			}
			if i%every == 0 {
				n := len(d.held)
				if n > good {
					n = good
				}
				check(d, n, fmt.Sprintf("after %d more calls", i-n))
			}
		}
		n := len(d.held)
		if n > good {
			n = good
		}
		check(d, n, "at the end")
		return
	}
	playAll(c, st, s, func(i int, d *vReader) {
		if i < 0 {
			check(d, len(d.held), "at the end")
		} else if i%every == 0 {
			check(d, len(d.held), fmt.Sprintf("after item %d", i))
		}
	})
}

// clampVideo keeps the sizes of damaged sequence headers below 1024: a bigger frame is
// what such a header asks for.
func clampVideo(data []byte) {
	for i := 0; i+10 < len(data); i++ {
		if data[i] != 0 || data[i+1] != 0 || data[i+2] != 1 {
			continue
		}
		switch {
		case data[i+3] == 0xb3:
			data[i+4] &= 0x3f
			data[i+5] &= 0xf1
		case data[i+3] == 0xb5 && data[i+4]>>4 == 1:
			data[i+5] &^= 0x01
			data[i+6] &^= 0xe0
		}
	}
}

// frameMemory is what the pictures of damaged data take, if each is as big as the biggest.
func frameMemory(data []byte) uint64 {
	pictures, size := 0, 0
	for i := 0; i+7 < len(data); i++ {
		if data[i] != 0 || data[i+1] != 0 || data[i+2] != 1 {
			continue
		}
		switch data[i+3] {
		case 0:
			pictures++
		case 0xb3:
			w := int(data[i+4])<<4 | int(data[i+5])>>4
			h := int(data[i+5]&15)<<8 | int(data[i+6])
			if n := (w + 16) * (h + 32) * 3 / 2; n > size {
				size = n
			}
		}
	}
	return uint64(pictures) * uint64(size)
}

// ---- C20

func scenRandomAccess(c *Ctx) {
	st := genVideo(c, vOpts{maxSeqs: 2, maxGOPs: 4, small: true, headers: true})
	vEvents(c, st)
	off := c.N(len(st.data))
	if c.Bool() {
		q := st.seqs[c.N(len(st.seqs))]
		off = q.off + c.N(9) - 4
		if off < 0 {
			off = 0
		}
	}
	c.Fault("stream: joined in the middle")
	data := st.data[off:]
	if c.Chance(60) {
		// something else comes first
		g := make([]byte, []int{1 << 10, 1 << 14, 1 << 16, 1 << 17, 1 << 21}[c.Pick(4, 4, 4, 4, 1)]+c.N(3000))
		c.Rand().Data(g)
		for i := range g {
			if g[i] == 0xb3 {
				g[i] = 0xb2
			}
		}
		g = append(g, 0xff)
		data = append(g, data...)
		c.Probe("joined far before the stream")
	}
	s := NewSource(c, "video", data)
	v := video.NewVideoSequence(s.reader())
	if err := v.AlignTo(video.SequenceHeaderStartCode); err != nil {
		for _, q := range st.seqs {
			if q.off >= off {
				c.Fail("sync-lost", "AlignTo from byte %d: %v, but there is a sequence header at %d", off, err, q.off)
			}
		}
		if !isEnd(err) {
			c.Fail("wrong-end", "AlignTo from byte %d: %v", off, err)
		}
		return
	}
	c.Probe("joined at a sequence header")
	follow(c, st, v, st.seqs, off, len(st.data), "", 0, nil)
}

// follow reads to the end after AlignTo, from the first sync point at or after off, and
// wants every item from there. Up to stale frames from before may come first; why tells
// what is wrong with such a frame.
func follow(c *Ctx, st *vStream, v *video.VideoSequence, syncs []vSync, off, size int, how string, stale int, why func(img *image.YCbCr) string) {
	item := -1
	for _, q := range syncs {
		if q.off >= off {
			item = q.item
			break
		}
	}
	if item < 0 {
		c.Fail("sync-wrong", "AlignTo found a start code after byte %d where there is none", off)
	}
	n := st.avail(size)
	d := &vReader{v: v, st: st}
	var got []string // differences to the item due, for each number of stale frames
	var err error
	for err == nil {
		err = d.next()
		c.Ev("next", len(d.held), errCode(err))
		if len(d.held) > len(st.items)+10 {
			c.Fail("frames-extra", "%d items after AlignTo", len(d.held))
		}
	}
	if !isEnd(err) {
		c.Fail("wrong-end", "after AlignTo%s and %d of %d items Next() returned %v", how, len(d.held), n-item, err)
	}
	for k := 0; k <= stale && k <= len(d.held); k++ {
		df := ""
		if len(d.held)-k != n-item && !(n < item && len(d.held) == k) {
			df = fmt.Sprintf("%d items, want %d", len(d.held)-k, n-item)
		}
		all := d.held
		for i := item; i < n && df == ""; i++ {
			d.held = all[:k+i-item+1]
			if x := d.diff(i); x != "" {
				df = fmt.Sprintf("item %d (%d after AlignTo): %s", i, i-item, x)
			}
		}
		d.held = all
		for i := 0; i < k && df == ""; i++ {
			df = why(all[i])
		}
		if df == "" {
			return
		}
		got = append(got, df)
	}
	c.Fail("not-recovered", "from byte %d%s: %s", off, how, got[0])
}

func scenRecover(c *Ctx) {
	toGOP := c.Bool()
	o := vOpts{maxSeqs: 2, maxGOPs: 4, small: true, headers: true}
	if toGOP {
		o.maxSeqs, o.oneHeader, o.noMatrices = 1, true, true
	}
	st := genVideo(c, o)
	vEvents(c, st)
	syncs, code := st.seqs, video.SequenceHeaderStartCode
	if toGOP {
		syncs, code = st.gops, video.GroupStartCode
	}
	data := append([]byte{}, st.data...)
	first := 0 // the first sync point that can be found again
	var fault *Fault
	at := 0
	if c.Bool() {
		// The source fails once.
		at = st.starts[2] + 12 + c.N(len(data)-st.starts[2]-12)
		if c.Bool() {
			at = syncs[c.N(len(syncs))].off + c.N(12)
			if min := st.starts[2] + 12; at < min {
				at = min
			}
		}
		fault = &Fault{Off: at, Err: c.ioError(7), Count: 1, WithData: c.Bool()}
		first = at - 3
	} else {
		// Part of a slice is zero: an error for certain, but not beyond it.
		var cand []int
		for i, o := range st.starts {
			if id := data[o+3]; id >= 1 && id <= 0xaf {
				end := len(data)
				if i+1 < len(st.starts) {
					end = st.starts[i+1]
				}
				if end-o > 4+12 {
					cand = append(cand, i)
				}
			}
		}
		if len(cand) == 0 {
			c.Probe("no slice to damage")
			return
		}
		i := cand[c.N(len(cand))]
		o, end := st.starts[i], len(data)
		if i+1 < len(st.starts) {
			end = st.starts[i+1]
		}
		// Zeros up to a byte that is neither 0 nor 1.
		from := o + 4 + c.N(end-o-4-11)
		to := from + 9
		for to < end && data[to] < 2 {
			to++
		}
		if to >= end {
			c.Probe("no slice to damage")
			return
		}
		for j := from; j < to; j++ {
			data[j] = 0
		}
		c.Fault("stored bytes: zeroed")
		at = from
		first = to
	}
	s := NewSource(c, "video", data)
	if fault != nil {
		s.faults = []*Fault{fault}
	}
	good := st.avail(at)
	d := &vReader{v: video.NewVideoSequence(s.reader()), st: st}
	var err error
	for err == nil {
		if err = d.next(); err == nil {
			i := len(d.held) - 1
			if i < good {
				if df := d.diff(i); df != "" {
					c.Fail("frame-differs", "item %d: %s", i, df)
				}
			}
			if i > len(st.items) {
				c.Fail("frames-extra", "%d items", i)
			}
		}
	}
	c.Note("fault at %d of %d: %v after %d items, %d were complete", at, len(data), err, len(d.held), good)
	if fault != nil && fault.fired == 0 {
		bug("the fault at %d never fired", at)
	}
	if fault != nil && err != fault.Err {
		c.Fail("error-replaced", "the source failed once at byte %d of %d, and Next() returned %v", at, len(data), err)
	}
	if fault == nil && isEnd(err) {
		c.Fail("damage-unnoticed", "%d zero bytes inside a slice, and the stream ended with %v", first-at, err)
	}
	if err := d.v.AlignTo(code); err != nil {
		for _, q := range syncs {
			if q.off >= first {
				c.Fail("sync-lost", "after the fault at byte %d: AlignTo: %v, but there is a start code at %d", at, err, q.off)
			}
		}
		if !isEnd(err) {
			c.Fail("wrong-end", "AlignTo: %v", err)
		}
		return
	}
	c.Probe("recovered")
	follow(c, st, d.v, syncs, first, len(data), fmt.Sprintf(" after the fault at %d", at), 2, func(img *image.YCbCr) string {
		if img == nil {
			return "the end of a sequence"
		}
		for _, x := range d.held {
			if x == img {
				return "a frame that had been returned before the fault comes again"
			}
		}
		for i := len(d.held); i < len(st.items); i++ {
			if p := st.items[i].pic; p != nil && p.typ != 'B' && p.done+4 <= at && p.diff(img) == "" {
				return ""
			}
		}
		return "a frame that is not one of the references decoded before the fault"
	})
}

// ---- C21

func scenInstances(c *Ctx) {
	c.noHuge = true
	n := c.Range(2, 4)
	type inst struct {
		k *component
		s *Source
	}
	var all []inst
	for i := 0; i < n; i++ {
		var k *component
		if i > 0 && all[i-1].k.launch == nil && c.Chance(3) {
			k = all[i-1].k // the same stream again
		} else if c.Chance(2) {
			k = compVideo(c)
		} else {
			k = components[c.N(len(components))](c)
			c.Probe("component: " + k.name)
		}
		s := NewSource(c, fmt.Sprintf("src%d", i), k.data)
		if k.ownBits {
			s.plainEnd()
		}
		all = append(all, inst{k, s})
	}
	pre := c.N(5)
	finished := 0
	verdict := func(in inst, got int, err error) {
		lo, hi := in.k.avail(len(in.k.data), true)
		if err != in.k.end && (in.k.launch != nil || !isEnd(err)) {
			c.Fail("wrong-end", "%s: ended with %v", in.k.name, err)
		}
		if got < lo || got > hi {
			c.Fail("bytes-lost", "%s: %d items, want %d..%d", in.k.name, got, lo, hi)
		}
	}
	outcomes := make([]func(string) (int, error), n)
	leaked := c.Concurrent(func(sc *Sched) {
		for i := range all {
			in := all[i]
			name := fmt.Sprintf("user%d", i)
			if in.k.launch != nil {
				// Steps are counted: no two goroutines may run at a time.
				sc.yields = true
				outcomes[i] = in.k.launch(c, sc, in.s, 1<<30, name+" ")
				continue
			}
			in.s.gate = sc.Gate
			sc.Go(in.s.name, func() {
				got, err := in.k.run(c, in.s, 1<<30, nil)
				verdict(in, got, err)
				finished++
			})
		}
		x := uint64(c.N(1<<16))<<1 | 1
		next := func(n uint64) uint64 {
			x = x*6364136223846793005 + 1442695040888963407
			return (x >> 33) % n
		}
		switch pre {
		case 1, 2, 3:
			step := []uint64{0, 120, 1200, 12000}[pre]
			c.Probe("preempted every now and then")
			sc.before = func() {
				simtick.Every(1+int64(next(step)), func() int64 { sc.Preempted(false); return 1 + int64(next(step)) })
			}
		case 4:
			// Whoever gets somewhere first may be held there, while the others come to the same place.
			odds := []uint64{2, 8, 32}[c.N(3)]
			demote := c.Chance(2)
			if demote {
				sc.strategy = schedPCT
			}
			c.Probe("preempted where nobody has been")
			sc.before = func() {
				simtick.First(func() {
					if next(odds) == 0 {
						sc.Preempted(demote)
					}
				})
			}
		}
		sc.Run()
	})
	simtick.Every(0, nil)
	simtick.First(nil)
	if c.viol != nil {
		panic(failure{c.viol})
	}
	for i, outcome := range outcomes {
		if outcome != nil {
			got, err := outcome(leaked)
			verdict(all[i], got, err)
			finished++
		}
	}
	if finished != n {
		c.Fail("no-progress", "%d of %d readers came to their end: %s", finished, n, leaked)
	}
	c.nontrivial = true
}

// ---- C22

func scenVideoStack(c *Ctx) {
	st := genVideo(c, vOpts{maxSeqs: 2, maxGOPs: 2, small: true})
	vEvents(c, st)
	var r io.Reader
	var s *Source
	avail := func(off int) (lo, hi int) { return 0, len(st.data) }
	switch c.N(4) {
	case 0, 1:
		l := genES(c, st.data, true)
		s = NewSource(c, "ts", encodeAll(l.pkts))
		r = l.stack(c, s.reader())
		avail = func(off int) (lo, hi int) { return l.avail(off) }
	case 2:
		var data []byte
		var ends, outs []int
		out := 0
		for _, p := range cutPES(c, st.data) {
			data = append(data, p.encode()...)
			out += len(p.payload)
			ends = append(ends, len(data))
			outs = append(outs, out)
		}
		s = NewSource(c, "pes", data)
		r = pes.NewPayloadReader(s.reader())
		avail = func(off int) (lo, hi int) {
			if i := upTo(ends, off); i > 0 {
				lo = outs[i-1]
			}
			return lo, lo
		}
		c.Probe("over PES")
	case 3:
		var packs []*psPack
		for rest := cutPES(c, st.data); len(rest) > 0; {
			p := genPS(c, psOpts{maxPacks: 1, maxPkts: 1})[0]
			k := 1 + c.N(len(rest))
			p.pkts, rest = rest[:k:k], rest[k:]
			packs = append(packs, p)
		}
		w := encodePS(packs, true)
		if !bytes.Equal(w.want, st.data) {
			bug("the program stream does not carry the video")
		}
		s = NewSource(c, "ps", w.data)
		r = ps.NewPackReader(s.reader())
		avail = func(off int) (lo, hi int) { n := w.avail(off); return n, n }
		c.Probe("over PS")
	}
	if !c.Chance(3) {
		playAll(c, st, r, func(int, *vReader) {})
		return
	}
	// The source fails, or ends early.
	off := c.N(len(s.data) + 1)
	lo, hi := avail(off)
	cut := c.Bool()
	e := c.anyError(1)
	if cut {
		c.Fault("stream: cut")
		s.data = s.data[:off]
		hi = len(st.data)
	} else {
		s.faults = []*Fault{{Off: off, Err: e, Count: -1, WithData: c.Bool()}}
	}
	d := &vReader{v: video.NewVideoSequence(r), st: st}
	min, max := st.avail(lo), st.avail(hi)
	got, err := readPackets(c, len(st.items), len(st.data), d.next, d.diff, nil)
	if cut {
		if !isEnd(err) && off < len(st.data) {
			c.Fail("wrong-end", "cut at byte %d: %v", off, err)
		}
	} else if err != e && !(isEnd(err) && off >= len(s.data)) {
		c.Fail("error-replaced", "the source failed at byte %d of %d, and Next() returned %v", off, len(s.data), err)
	}
	if got < min || got > max {
		c.Fail("frames-lost", "%d items out of a stream that failed at byte %d of %d, want %d..%d", got, off, len(s.data), min, max)
	}
}

// chanReader is what a caller makes to read the slices of a channel as a stream.
type chanReader struct {
	ch   <-chan []byte
	rest []byte
	gate func(string)
	err  func() error // at the end of the channel
}

func (r *chanReader) Read(p []byte) (int, error) {
	for len(r.rest) == 0 {
		r.gate("recv")
		b, ok := <-r.ch
		r.gate("got")
		if !ok {
			return 0, r.err()
		}
		r.rest = b
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

// scenVideoChannels is about video that comes through the demuxer or the program stream
// decoder and the channel adapters.
func scenVideoChannels(c *Ctx) {
	c.noHuge = true
	st := genVideo(c, vOpts{maxSeqs: 1, maxGOPs: 2, small: true})
	vEvents(c, st)
	var s *Source
	var lo, hi, off int
	var fault error
	ownBits := false // the caller makes the bit reader
	// harm cuts the source short or makes it fail.
	harm := func() {
		off = len(s.data)
		if c.Chance(3) {
			off = c.N(len(s.data) + 1)
			if c.Bool() {
				c.Fault("stream: cut")
				s.data = s.data[:off]
			} else {
				fault = c.anyError(1)
				s.faults = []*Fault{{Off: off, Err: fault, Count: -1, WithData: !ownBits && c.Bool()}}
			}
		}
	}
	var start func(sc *Sched) io.Reader
	switch c.N(3) {
	case 0, 1:
		l := genES(c, st.data, false)
		s = NewSource(c, "ts", encodeAll(l.pkts))
		harm()
		lo, hi = l.avail(off)
		units := c.Bool()
		if units {
			c.Probe("over the demuxer, by units")
		} else {
			c.Probe("over the demuxer")
		}
		other := c.Bool()
		start = func(sc *Sched) io.Reader {
			d := ts.NewDemuxer(s.reader())
			ch := d.Where(l.where.lib)
			if other {
				rest := d.Where(func(p *ts.Packet) bool { return p.PID != l.pid })
				sc.Go("other", func() {
					for {
						sc.Gate("other recv")
						if _, ok := <-rest; !ok {
							return
						}
						sc.Gate("other got")
					}
				})
			}
			done := d.Go()
			r := &chanReader{gate: sc.Gate, err: func() error {
				// completion is signalled once, but the end may be asked for again
				if done != nil {
					<-done
					sc.Gate("done")
					done = nil
				}
				return d.Err()
			}}
			if units {
				r.ch = ch.PayloadUnit()
			} else {
				r.ch = ch.PayloadOnly()
			}
			return pes.NewPayloadReader(r)
		}
	case 2:
		var packs []*psPack
		for rest := cutPES(c, st.data); len(rest) > 0; {
			p := genPS(c, psOpts{maxPacks: 1, maxPkts: 1})[0]
			k := 1 + c.N(len(rest))
			p.pkts, rest = rest[:k:k], rest[k:]
			packs = append(packs, p)
		}
		w := encodePS(packs, true)
		s = NewSource(c, "ps", w.data).plainEnd()
		ownBits = true
		harm()
		lo = w.avail(off)
		hi = lo
		c.Probe("over the program stream decoder")
		start = func(sc *Sched) io.Reader {
			d := ps.NewDecoder(bitreader.NewReader(s.reader()))
			out := make(chan []byte)
			done := d.Go()
			sc.Go("packs", func() {
				defer close(out)
				for {
					sc.Gate("packs recv")
					pack, ok := <-d.Packs()
					sc.Gate("packs got")
					if !ok {
						<-done
						sc.Gate("packs done")
						return
					}
					data := pes.PacketChannel(pack.Packets()).PayloadOnly()
					for {
						b, ok := <-data
						sc.Gate("data got")
						if !ok {
							break
						}
						sc.Gate("data send")
						out <- b
						sc.Gate("data sent")
					}
				}
			})
			return &chanReader{ch: out, gate: sc.Gate, err: func() error {
				if err := d.Err(); err != nil {
					return err
				}
				return io.EOF
			}}
		}
	}
	got, finished := 0, false
	var err error
	leaked := c.Concurrent(func(sc *Sched) {
		if c.Bool() {
			s.gate = sc.Gate
		}
		r := start(sc)
		sc.Go("viewer", func() {
			d := &vReader{v: video.NewVideoSequence(r), st: st}
			got, err = readPackets(c, len(st.items), len(st.data), d.next, d.diff, nil)
			finished = true
		})
		sc.Run()
	})
	if c.viol != nil {
		panic(failure{c.viol})
	}
	if !finished {
		c.Fail("no-progress", "Next did not return: %s", leaked)
	}
	if fault != nil {
		if err != fault && !(isEnd(err) && off >= len(s.data)) {
			c.Fail("error-replaced", "the source failed at byte %d of %d, and Next() returned %v", off, len(s.data), err)
		}
	} else if !isEnd(err) {
		c.Fail("wrong-end", "cut at byte %d: %v", off, err)
	}
	min, max := st.avail(lo), st.avail(hi)
	if got < min || got > max {
		c.Fail("frames-lost", "%d items out of a stream that ended at byte %d of %d, want %d..%d", got, off, len(s.data), min, max)
	}
}

// cutPES cuts an elementary stream into PES packets.
func cutPES(c *Ctx, es []byte) (out []*pesPacket) {
	r := c.Rand()
	for len(es) > 0 {
		p := genPESPacket(c, &pesOpts{plain: true, maxData: 1}, r)
		n := 1 + r.N(400)
		if n > len(es) {
			n = len(es)
		}
		p.payload, es = es[:n], es[n:]
		out = append(out, p)
	}
	return
}

func init() {
	real := []string{"video.VideoSequence with all headers, macroblock, vector, block, inverse quantisation and transform, prediction and frame reordering code (built from the repository's tree, instrumented)", "github.com/32bitkid/bitreader, github.com/32bitkid/huffman"}
	model := []string{"the oracle decodes nothing: a model encoder makes the stream and reconstructs each picture as ISO/IEC 13818-2 says, with the inverse transform of the MPEG Software Simulation Group (which the library states it uses), bit for bit"}
	subset := []string{"streams within what the library supports: frame pictures with frame prediction, 4:2:0, no scalability", "the last picture of a stream counts as complete when a start code follows it"}
	register(&Property{ID: "C16", Quick: 20000, Thorough: 1200000,
		Scenarios: []Scenario{{"play", 30, scenVideo}, {"long", 1, scenLong}},
		Rule:      "A run draws a video stream macroblock by macroblock and how the source delivers it, and compares every sample of every frame, the order, the ends of sequences, and the headers that can be seen.",
		Real:      real, Stub: stubSrc, Assume: append(model, subset...)})
	register(&Property{ID: "C17", Quick: 60000, Thorough: 7200000,
		Scenarios: []Scenario{{"error", 1, scenVideoError}, {"cut", 1, scenVideoCut}},
		Rule:      "A run draws a video stream and a source error (once or for good, alone or with bytes) or an early end at any byte, biased to start codes, and wants exactly the frames that were complete, and then that error or the end.",
		Real:      real, Stub: stubSrc, Assume: subset})
	register(&Property{ID: "C18", Quick: 50000, Thorough: 3000000,
		Scenarios: []Scenario{{"held", 1, scenVideoHeld}},
		Rule:      "A run holds on to every frame that Next returned, while the stream goes on, ends or is damaged, and compares all of them again with the model, and with each other for identity.",
		Real:      real, Stub: stubSrc, Assume: subset})
	register(&Property{ID: "C19", Quick: 150000, Thorough: 9000000,
		Scenarios: []Scenario{{"corrupt", 5, scenVideoCorrupt}, {"unsupported", 1, scenUnsupported}},
		Rule:      "A run damages a video stream in up to four places, calls Next on through errors, bounds steps, calls and memory, and wants the frames before the first damage to be exact; or it puts something unsupported into a stream and wants an error there.",
		Real:      real, Stub: stubSrc, Assume: append([]string{"sizes in damaged sequence headers are kept below 1024: a bigger frame is what such a header asks for"}, subset...)})
	register(&Property{ID: "C20", Quick: 80000, Thorough: 4800000,
		Scenarios: []Scenario{{"join", 2, scenRandomAccess}, {"recover", 2, scenRecover}, {"seek", 2, scenSeek}, {"align", 1, scenAlign}},
		Rule:      "A run joins a stream at any byte, or has the source fail once or part of a slice zeroed, then calls AlignTo, and wants every item from that sync point on; or it looks for start codes in arbitrary bytes.",
		Real:      real, Stub: stubSrc, Assume: append([]string{"every group has a header and is closed; recovery at a group header needs the sequence header and matrices that were in force"}, subset...)})
	register(&Property{ID: "C21", Quick: 30000, Thorough: 3600000, Fresh: 25,
		Scenarios: []Scenario{{"instances", 1, scenInstances}},
		Rule:      "A run lets 2 to 4 readers or decoders take turns, switching at source reads and between any two statements under the seeded scheduler, and wants from each what it gives alone.",
		Real:      append([]string{"all readers, packet parsers, demuxer and decoder of ts, pes and ps"}, real...), Stub: append([]string{"goroutine scheduling"}, stubSrc...), Assume: subset})
	register(&Property{ID: "C22", Quick: 60000, Thorough: 3600000,
		Scenarios: []Scenario{{"stack", 3, scenVideoStack}, {"channels", 1, scenVideoChannels}},
		Rule:      "A run carries a video stream in PES packets, a program stream, or PES packets over a transport stream with other programs, through fragmented, failing or ending sources, by readers or by demuxer, decoder and channel adapters under a drawn schedule, and compares every frame.",
		Real:      append([]string{"ts, pes and ps payload readers, stacked; ts.Demuxer, ps.Decoder and the channel adapters"}, real...), Stub: append([]string{"goroutine scheduling", "the reader that takes byte slices from a channel (the caller's part)"}, stubSrc...), Assume: subset})
}
