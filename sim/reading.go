package sim

import (
	"bytes"
	"io"
)

// readSizes draws the sizes of the buffers that a caller reads into.
type readSizes struct {
	mode, fixed int
	rng         *Rng
	zeros       bool
}

func genSizes(c *Ctx) *readSizes {
	s := &readSizes{mode: c.N(5), rng: c.Rand()}
	if c.much() && s.mode == 1 {
		s.mode = 4
	}
	if c.Chance(24) {
		s.mode = 5
		s.fixed = []int{32767, 65535, 65536, 70000, 200000}[c.N(5)]
		c.Probe("huge buffers")
	}
	switch s.mode {
	case 0:
		s.fixed = 4096
	case 1:
		s.fixed = []int{1, 2, 3, 5, 8}[c.N(5)]
	case 2:
		s.fixed = 183 + c.N(7)
	case 3:
		s.fixed = 512
	}
	s.zeros = c.Chance(4)
	return s
}

func (s *readSizes) next() int {
	if s.zeros && s.rng.N(5) == 4 {
		return 0
	}
	if s.mode == 4 {
		switch s.rng.N(4) {
		case 0:
			return 1 + s.rng.N(8)
		case 1:
			return 176 + s.rng.N(20)
		case 2:
			return 1 + s.rng.N(1200)
		}
		return 1 + s.rng.N(300)
	}
	return s.fixed
}

// readDriver reads r with drawn buffer sizes until on says stop. It checks what any
// io.Reader promises, and that reading makes progress.
func readDriver(c *Ctx, r io.Reader, s *readSizes, on func(got []byte, err error) (stop bool)) {
	// The last few buffers, behind which and between which a reader must not write, and
	// which are the caller's again once Read has returned.
	const slots, guard = 3, 16
	var bufs [slots][]byte
	var kept [slots][]byte
	most := 8192
	if s.fixed > most {
		most = s.fixed
	}
	for i := range bufs {
		bufs[i] = make([]byte, most+guard)
	}
	for calls := 0; ; calls++ {
		n := s.next()
		k := calls % slots
		buf := bufs[k]
		if kept[k] != nil && !bytes.Equal(buf[:len(kept[k])], kept[k]) {
			c.Fail("buffer-retained", "a buffer changed after Read had returned, during the next reads")
		}
		p := buf[:n]
		for i := range buf[:n+guard] {
			buf[i] = 0xA5
		}
		c.pending = n
		got, err := r.Read(p)
		c.pending = 0
		if got < 0 || got > n {
			c.Fail("bad-count", "Read(%d bytes) returned n=%d", n, got)
		}
		for i, v := range buf[n : n+guard] {
			if v != 0xA5 {
				c.Fail("buffer-overrun", "Read(%d bytes) wrote to byte %d of the buffer behind them", n, i)
			}
		}
		c.Ev("read", n, got, errCode(err))
		if got == 0 && err == nil && n > 0 {
			c.Fail("no-progress", "a read of %d bytes returned 0 bytes and no error", n)
		}
		kept[k] = append(kept[k][:0], buf[:n+guard]...)
		if on(p[:got], err) {
			return
		}
		if calls > 2_000_000 {
			c.Fail("no-progress", "%d reads and no end", calls)
		}
	}
}

func errCode(err error) int {
	switch e := err.(type) {
	case nil:
		return 0
	case *SimErr:
		return 100 + e.ID
	}
	return int(hashString(err.Error())%89) + 1
}

// isEnd reports whether an error says that the input has ended.
func isEnd(err error) bool { return err == io.EOF || err == io.ErrUnexpectedEOF }

// window is a short excerpt around a difference.
func firstDiff(got, want []byte) int {
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return i
		}
	}
	return n
}
