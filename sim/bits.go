package sim

import (
	"runtime"

	"github.com/32bitkid/bitreader"
)

// bitSource is a bit reader that fails at one bit: the first call that needs a bit from
// there on, and that no call before has seen. Faults at bytes cannot reach every call,
// because a bit reader buffers whole bytes.
type bitSource struct {
	bitreader.BitReader
	c      *Ctx
	at     int // the first bit that is missing
	err    error
	once   bool
	fired  int
	pos    int // bits consumed
	seen   int // bits that were returned, consumed or not
	called bool
	rec    func(bit int, site uint64) // told about every call that needs a bit that none has seen
}

// callSite identifies who calls the bit reader, by the frames above it.
func callSite() uint64 {
	var pcs [6]uintptr
	n := runtime.Callers(4, pcs[:])
	h := uint64(14695981039346656037)
	for _, pc := range pcs[:n] {
		h = (h ^ uint64(pc)) * 1099511628211
	}
	return h
}

// need tells whether a call that needs the next n bits goes through.
func (b *bitSource) need(n uint) error {
	b.called = true
	end := b.pos + int(n)
	if b.rec != nil && end > b.seen {
		b.rec(max(b.pos, b.seen), callSite())
	}
	if end > b.at && end > b.seen && !(b.once && b.fired > 0) {
		b.fired++
		if b.fired == 1 {
			b.c.Fault("bit reader: error at a bit")
			b.c.Ev("bit error", b.at, int(n))
			if e, ok := b.err.(*SimErr); ok {
				e.kind = b.at & 3
			}
		}
		return b.err
	}
	return nil
}

func (b *bitSource) took(n uint, err error) {
	if err == nil {
		b.pos += int(n)
		b.saw(0, nil)
	}
}

func (b *bitSource) saw(n uint, err error) {
	if err == nil && b.pos+int(n) > b.seen {
		b.seen = b.pos + int(n)
	}
}

func (b *bitSource) Read1() (v bool, err error) {
	if err = b.need(1); err == nil {
		v, err = b.BitReader.Read1()
		b.took(1, err)
	}
	return
}

func (b *bitSource) Read8(n uint) (v uint8, err error) {
	if err = b.need(n); err == nil {
		v, err = b.BitReader.Read8(n)
		b.took(n, err)
	}
	return
}

func (b *bitSource) Read16(n uint) (v uint16, err error) {
	if err = b.need(n); err == nil {
		v, err = b.BitReader.Read16(n)
		b.took(n, err)
	}
	return
}

func (b *bitSource) Read32(n uint) (v uint32, err error) {
	if err = b.need(n); err == nil {
		v, err = b.BitReader.Read32(n)
		b.took(n, err)
	}
	return
}

func (b *bitSource) Read64(n uint) (v uint64, err error) {
	if err = b.need(n); err == nil {
		v, err = b.BitReader.Read64(n)
		b.took(n, err)
	}
	return
}

func (b *bitSource) Peek1() (v bool, err error) {
	if err = b.need(1); err == nil {
		v, err = b.BitReader.Peek1()
		b.saw(1, err)
	}
	return
}

func (b *bitSource) Peek8(n uint) (v uint8, err error) {
	if err = b.need(n); err == nil {
		v, err = b.BitReader.Peek8(n)
		b.saw(n, err)
	}
	return
}

func (b *bitSource) Peek16(n uint) (v uint16, err error) {
	if err = b.need(n); err == nil {
		v, err = b.BitReader.Peek16(n)
		b.saw(n, err)
	}
	return
}

func (b *bitSource) Peek32(n uint) (v uint32, err error) {
	if err = b.need(n); err == nil {
		v, err = b.BitReader.Peek32(n)
		b.saw(n, err)
	}
	return
}

func (b *bitSource) Peek64(n uint) (v uint64, err error) {
	if err = b.need(n); err == nil {
		v, err = b.BitReader.Peek64(n)
		b.saw(n, err)
	}
	return
}

// Skip consumes what there is before it fails, as the real one does.
func (b *bitSource) Skip(n uint) error {
	fail := b.need(n)
	if fail != nil {
		n = 0
		if b.at > b.pos {
			n = uint(b.at - b.pos)
		}
	}
	err := b.BitReader.Skip(n)
	b.took(n, err)
	if fail != nil {
		return fail
	}
	return err
}

// Align only discards bits of a byte that was seen.
func (b *bitSource) Align() (n uint, err error) {
	b.called = true
	n, err = b.BitReader.Align()
	b.took(n, err)
	return
}

func (b *bitSource) Read(p []byte) (n int, err error) {
	b.Align()
	if b.rec != nil && len(p) > 0 {
		b.rec(max(b.pos, b.seen), callSite())
	}
	if end := b.pos + 8*len(p); end > b.at && end > b.seen && !(b.once && b.fired > 0) {
		if k := (b.at - b.pos) / 8; k > 0 && len(p) > 0 {
			p = p[:k]
		} else {
			return 0, b.need(uint(8 * len(p)))
		}
	}
	n, err = b.BitReader.Read(p)
	if n > 0 {
		b.took(uint(8*n), nil)
	}
	return n, err
}

// bitReader puts the bit source of this run, if any, on top of a bit reader.
func (s *Source) bitReader(br bitreader.BitReader) bitreader.BitReader {
	if s.bits == nil {
		return br
	}
	s.bits.BitReader = br
	return s.bits
}
