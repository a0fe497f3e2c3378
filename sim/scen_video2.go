package sim

import (
	"bytes"

	"github.com/32bitkid/mpeg/video"
)

// scenUnsupported puts something that the library does not support where a picture or a
// sequence would start, and wants the frames before it, and an error that is not the end.
func scenUnsupported(c *Ctx) {
	st := genVideo(c, vOpts{maxSeqs: 2, maxGOPs: 2, small: true})
	vEvents(c, st)
	r := c.Rand()
	var at []int
	kind := c.N(7)
	onSeq := kind < 3
	for _, o := range st.starts {
		if id := st.data[o+3]; (onSeq && id == 0xb3) || (!onSeq && id == 0) {
			at = append(at, o)
		}
	}
	if c.Chance(3) {
		at = at[:1]
	}
	off := at[c.N(len(at))]
	w := &bitWriter{b: append([]byte{}, st.data[:off]...)}
	code := func(id int) {
		if !w.aligned() {
			w.put(0, w.free)
		}
		w.put(uint64(0x100|id), 32)
	}
	sequence := func() {
		code(0xb3)
		w.put(32, 12)
		w.put(32, 12)
		w.put(1, 4)
		w.put(3, 4)
		w.put(1000, 18)
		w.put(1, 1)
		w.put(20, 10)
		w.put(0, 3)
	}
	extension := func(chroma uint64) {
		code(0xb5)
		w.put(1, 4)
		w.put(0x48, 8)
		w.put(1, 1)
		w.put(chroma, 2)
		w.put(0, 16)
		w.put(1, 1)
		w.put(0, 16)
	}
	group := func() {
		code(0xb8)
		w.put(1<<12, 25)
		w.put(2, 2)
	}
	picture := func(typ uint64) {
		code(0)
		w.put(uint64(r.N(8)), 10)
		w.put(typ, 3)
		w.put(0xffff, 16)
		if typ == 2 || typ == 3 {
			w.put(7, 4)
		}
		if typ == 3 {
			w.put(7, 4)
		}
		w.put(0, 1)
	}
	coding := func(fpfd uint64) {
		code(0xb5)
		w.put(8, 4)
		w.put(0x2222, 16)
		w.put(0, 2)
		w.put(3, 2)
		w.put(0, 1)
		w.put(fpfd, 1)
		w.put(0, 8)
	}
	slice := func() {
		code(1)
		w.put(4, 5)
		w.put(0, 1)
		w.put(1, 1) // address increment
	}
	switch kind {
	case 0:
		c.Fault("unsupported: MPEG-1")
		sequence()
		group()
		picture(1)
	case 1:
		c.Fault("unsupported: chroma format")
		sequence()
		extension([]uint64{0, 2, 3}[c.N(3)])
		group()
		picture(1)
		coding(1)
	case 2:
		c.Fault("unsupported: scalable sequence")
		sequence()
		extension(1)
		code(0xb5)
		w.put(5, 4)
		w.put(uint64(r.N(4)), 2)
		w.put(r.next()&15, 4)
		w.put(1, 2)
		group()
		picture(1)
		coding(1)
	case 3:
		c.Fault("unsupported: scalable picture")
		picture(1)
		coding(1)
		code(0xb5)
		w.put(9, 4)
		w.put(r.next()|1, 40)
	case 4:
		c.Fault("unsupported: D-picture")
		picture(4)
		coding(1)
		slice()
		w.put(1, 1)
	case 5:
		c.Fault("unsupported: reserved picture type")
		picture([]uint64{0, 5, 6, 7}[c.N(4)])
		coding(1)
		slice()
		w.put(1, 1)
	case 6:
		c.Fault("unsupported: dual prime")
		picture(2)
		coding(0)
		slice()
		w.put(1, 1) // forward, pattern
		w.put(3, 2)
		w.put(1, 1)
	}
	w.put(1, 1)
	for i := 0; i < 6; i++ {
		w.put(r.next()|1, 17)
	}
	code(0xb7)
	code(0xb7)
	s := NewSource(c, "video", w.b)
	n := st.avail(off + 4)
	d := &vReader{v: video.NewVideoSequence(s.reader()), st: st}
	got, err := readPackets(c, n, len(w.b), d.next, d.diff, func(error) bool { return len(d.held) > n+20 || c.Chance(8) })
	if got != n {
		c.Fail("frames-lost", "%d items before something unsupported at byte %d, then %v; want %d", got, off, err, n)
	}
	if isEnd(err) || err == video.EOS {
		c.Fail("unsupported-unnoticed", "something unsupported at byte %d, and Next() returned %v", off, err)
	}
}

// scenAlign looks for start codes in bytes that have many of them.
func scenAlign(c *Ctx) {
	r := c.Rand()
	size := 1 + c.N(400)
	style := c.N(3)
	if c.Chance(60) {
		// far away from anything
		size, style = []int{1 << 12, 1 << 14, 1 << 16, 1 << 17, 1 << 21}[c.Pick(4, 4, 4, 4, 1)]+c.N(3000), 2
		c.Probe("start code far away")
	}
	data := make([]byte, size)
	for i := range data {
		switch style {
		case 0:
			data[i] = []byte{0, 0, 0, 1, 1, 0xb3, 0xb8, 0xb7}[r.N(8)]
		case 1:
			data[i] = byte(r.N(3))
		default:
			data[i] = byte(r.N(256))
		}
	}
	ids := []byte{0xb3, 0xb8, 0xb7, 0x00, 0x01, 0xb5}
	for k := c.N(6); k > 0; k-- {
		if o := c.N(len(data)); o+4 <= len(data) {
			copy(data[o:], []byte{0, 0, 1, ids[c.N(len(ids))]})
		}
	}
	c.nontrivial = true
	s := NewSource(c, "video", data)
	e := c.ioError(3)
	fail := c.Chance(3)
	f := &Fault{Off: c.N(len(data)), Err: e, Count: 1 + c.N(2), WithData: c.Bool()}
	if fail {
		s.faults = []*Fault{f}
	}
	v := video.NewVideoSequence(s.reader())
	pos := 0 // in bits
	retries, times := 0, f.Count
	again := func(err error) bool {
		if err != e {
			return false
		}
		if retries++; retries > times {
			c.Fail("error-replaced", "the source failed %d times, and its error was reported %d times", times, retries)
		}
		return true
	}
	for steps := 1 + c.N(6); steps > 0; steps-- {
		if c.Chance(2) {
			n := 1 + c.N(40)
			if pos+n > len(data)*8 {
				return
			}
			err := v.Skip(uint(n))
			if err != nil {
				// How far it got is the bit reader's affair.
				if fail && err == e {
					return
				}
				c.Fail("wrong-end", "Skip(%d) at bit %d of %d: %v", n, pos, len(data)*8, err)
			}
			pos += n
		}
		id := ids[c.N(len(ids))]
		code := video.StartCode(0x100 | uint32(id))
		from := (pos + 7) / 8
		err := v.AlignTo(code)
		for again(err) {
			c.Probe("AlignTo went on after an error")
			err = v.AlignTo(code)
		}
		c.Ev("align", int(id), from, errCode(err))
		want := bytes.Index(data[from:], []byte{0, 0, 1, id})
		if want < 0 {
			if !isEnd(err) {
				c.Fail("sync-wrong", "AlignTo(%x) from byte %d: %v, and there is none", uint32(code), from, err)
			}
			return
		}
		if err != nil {
			c.Fail("sync-lost", "AlignTo(%x) from byte %d: %v, and there is one at %d", uint32(code), from, err, from+want)
		}
		pos = (from + want) * 8
		if v.IsAligned() == false {
			c.Fail("sync-wrong", "AlignTo(%x) left the reader unaligned", uint32(code))
		}
		// What follows is the start code and the bytes after it.
		var got []byte
		for n := c.N(12); n > 0 && pos < len(data)*8; n-- {
			b, err := v.Read8(8)
			for again(err) {
				b, err = v.Read8(8)
			}
			if err != nil {
				c.Fail("wrong-end", "reading byte %d of %d: %v", pos/8, len(data), err)
			}
			got = append(got, b)
			pos += 8
		}
		if end := pos / 8; !bytes.Equal(got, data[end-len(got):end]) {
			c.Fail("sync-wrong", "AlignTo(%x) from byte %d: followed by %x, want %x", uint32(code), from, got, data[end-len(got):end])
		}
	}
}

// ---- C20: seeking, and recovering more than once

// scenSeek plays a stream, skips ahead to sync points now and then, and has the source
// fail now and then, and wants every item from each sync point on.
func scenSeek(c *Ctx) {
	toGOP := c.Bool()
	o := vOpts{maxSeqs: 3, maxGOPs: 5, small: true, headers: true}
	if toGOP {
		o.maxSeqs, o.oneHeader, o.noMatrices = 1, true, true
	}
	st := genVideo(c, o)
	vEvents(c, st)
	syncs, code := st.seqs, video.SequenceHeaderStartCode
	if toGOP {
		syncs, code = st.gops, video.GroupStartCode
	}
	s := NewSource(c, "video", st.data)
	if min := st.starts[2] + 12; c.Chance(2) {
		at := min
		k, many := c.N(4), false
		if len(syncs) > 8 && c.Bool() {
			k, many = len(syncs), true
			c.Probe("a fault in every part of a long stream")
		}
		for ; k > 0 && at < len(st.data); k-- {
			if many {
				if at += c.N(2*len(st.data)/len(syncs) + 1); at >= len(st.data) {
					break
				}
			} else if q := syncs[c.N(len(syncs))].off + c.N(12); c.Bool() && q >= at {
				at = q
			} else {
				at += c.N(len(st.data) - at)
			}
			s.faults = append(s.faults, &Fault{Off: at, Err: c.ioError(len(s.faults)), Count: 1, WithData: c.Bool()})
			at++
		}
	}
	faults := s.faults
	d := &vReader{v: video.NewVideoSequence(s.reader()), st: st}
	end := st.avail(len(st.data))
	item := 0         // due next
	from := 0         // the byte decoding started from last
	pos := 0          // the first byte that has not been consumed
	fresh := false    // nothing due has come since AlignTo
	var stale []*vPic // that may come first then
	staleLeft := 0
	failed := func(err error) *Fault {
		if len(faults) > 0 && faults[0].Err == err && faults[0].fired > 0 {
			f := faults[0]
			faults = faults[1:]
			return f
		}
		return nil
	}
	for round := 0; ; round++ {
		count := []int{0, 1, 1 + c.N(4), 1 << 30}[c.Pick(1, 2, 4, 2)]
		if round > 8 {
			count = 1 << 30
		}
		if round == 0 && count == 0 && toGOP {
			count = 1 // it takes a sequence header to begin with
		}
		limit := 1 << 40 // end of what may have been decoded
		for k := 0; k < count || (fresh && staleLeft < 2); {
			err := d.next()
			c.Ev("next", item, len(d.held), errCode(err))
			if err != nil {
				f := failed(err)
				if f != nil {
					if n := st.avail(f.Off); item < n && !fresh {
						c.Fail("frames-lost", "the source failed once at byte %d, with item %d due and %d complete", f.Off, item, n)
					}
					limit = f.Off
					pos = f.Off - 3
					break
				}
				if !isEnd(err) {
					c.Fail("wrong-error", "item %d of %d: Next() returned %v", item, end, err)
				}
				if item < end {
					c.Fail("frames-lost", "the stream ended with item %d of %d due, after %d times AlignTo", item, end, round)
				}
				return
			}
			df := "it comes after the end"
			if item < end {
				df = d.diff(item)
			}
			img := d.held[len(d.held)-1]
			old := false
			if fresh && staleLeft > 0 && img != nil {
				for _, p := range stale {
					if p.diff(img) == "" {
						old = true
					}
				}
				for _, x := range d.held[:len(d.held)-1] {
					if x == img {
						old = false
					}
				}
			}
			switch {
			case df == "" && old:
				c.Probe("a frame that may be either")
				return
			case df == "":
				if it := &st.items[item]; it.need-4 > pos || fresh {
					pos = it.need - 4
				}
				if !fresh || staleLeft == 2 {
					d.headers(c, item)
				}
				fresh = false
				item++
				k++
			case old:
				staleLeft--
				c.Probe("a reference frame from before the sync point")
			default:
				c.Fail("not-recovered", "item %d, after %d times AlignTo, the last to byte %d: %s", item, round, from, df)
			}
		}
		if round > 0 {
			c.Probe("aligned again")
		}
		for {
			err := d.v.AlignTo(code)
			c.Ev("align", pos, errCode(err))
			if err == nil {
				break
			}
			next := len(st.data)
			for i := len(syncs) - 1; i >= 0; i-- {
				if syncs[i].off >= pos {
					next = syncs[i].off
				}
			}
			if f := failed(err); f != nil {
				if next+4 <= f.Off {
					c.Fail("sync-lost", "AlignTo from byte %d failed with the source at %d, but there is a start code at %d", pos, f.Off, next)
				}
				continue
			}
			if !isEnd(err) {
				c.Fail("wrong-end", "AlignTo from byte %d: %v", pos, err)
			}
			if next < len(st.data) {
				c.Fail("sync-lost", "AlignTo from byte %d: %v, but there is a start code at %d", pos, err, next)
			}
			return
		}
		if !fresh {
			stale = nil
		}
		if limit == 1<<40 {
			limit = pos + 4
		}
		for _, p := range st.pics {
			if p.typ != 'B' && p.done > from && p.done+4 <= limit {
				stale = append(stale, p)
			}
		}
		to := -1
		for i := range syncs {
			if syncs[i].off >= pos {
				to = i
				break
			}
		}
		if to < 0 {
			c.Fail("sync-wrong", "AlignTo found a start code after byte %d where there is none", pos)
		}
		if limit <= pos+4 {
			c.Probe("skipped ahead")
		}
		from, item, pos = syncs[to].off, syncs[to].item, syncs[to].off
		fresh, staleLeft = true, 2
	}
}
