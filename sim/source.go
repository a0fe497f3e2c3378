package sim

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
)

// SimErr is an error only the simulated source can have made. Like a network's error, it may
// say of itself that it is temporary or a timeout; what to make of that is the caller's affair.
type SimErr struct {
	ID   int
	kind int
}

func (e *SimErr) Error() string   { return fmt.Sprintf("simulated I/O error #%d", e.ID) }
func (e *SimErr) Temporary() bool { return e.kind&1 != 0 }
func (e *SimErr) Timeout() bool   { return e.kind&2 != 0 }

// knownErrors are errors that real sources return, and that are not the end of input.
var knownErrors = []error{
	io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, os.ErrClosed, os.ErrDeadlineExceeded,
	net.ErrClosed, context.Canceled, context.DeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.ECONNRESET,
	&os.PathError{Op: "read", Path: "stream", Err: syscall.EIO}, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded},
	// not the end, whatever they are made of or look like
	fmt.Errorf("connection lost: %w", io.EOF), fmt.Errorf("connection lost: %w", io.ErrUnexpectedEOF), errors.New("EOF"),
	&net.OpError{Op: "read", Net: "tcp", Err: io.EOF}, fmt.Errorf("no more: %w", ts.EOP), fmt.Errorf("no more: %w", video.EOS),
}

// layerErrors are errors of this module, as they come from a layer below.
var layerErrors = []error{
	ts.ErrNoSyncByte, ts.ErrInvalidAdaptationField, pes.ErrInvalidLength, pes.ErrStartCodePrefixNotFound, video.ErrUnexpectedStartCode, ps.ErrMarkerNotFound,
}

// ioError draws an error for a source to fail with.
func (c *Ctx) ioError(id int) error {
	if c.Chance(5) {
		c.Probe("source fails with an error that the standard library knows")
		return knownErrors[c.N(len(knownErrors))]
	}
	return &SimErr{ID: id}
}

// anyError draws an error for a source to fail with, which may be one that the component
// above it also makes itself.
func (c *Ctx) anyError(id int) error {
	if c.Chance(12) {
		c.Probe("source fails with an error of this module")
		return layerErrors[c.N(len(layerErrors))]
	}
	return c.ioError(id)
}

// Fault is an error that the source returns when it gets to Off.
type Fault struct {
	Off      int
	Err      error
	Count    int  // how many reads fail; < 0: all from then on
	WithData bool // together with the bytes before Off, if there are any in that read
	fired    int
}

// stalled is the panic that ends a run whose source has come to a halt, where the caller
// would wait for ever.
type stalled struct{}

// Fragmentation modes.
const (
	fragFull  = iota // as much as is asked for
	fragOne          // a byte at a time
	fragSmall        // 1..9 bytes
	fragMixed        // anything, empty reads included
	fragChunk        // up to the next multiple of a chunk size
	fragModes
)

// Source is the simulated byte source: a disk file or network connection.
type Source struct {
	c         *Ctx
	name      string
	data      []byte
	pos       int
	mode      int
	chunk     int
	rng       *Rng
	empties   int
	scribble  bool
	faults    []*Fault
	stall     int        // > 0: the byte before which the source comes to a halt
	bits      *bitSource // what the bit reader on top of this does, where the caller makes it
	final     error
	errKind   int
	dress     int
	finalData bool // return final together with the last bytes
	gate      func(name string)
	calls     int
	after     int // reads after the end
	delivered func(n int)
}

// NewSource makes a source of data whose delivery is drawn from the tape.
func NewSource(c *Ctx, name string, data []byte) *Source {
	s := &Source{c: c, name: name, data: data, final: io.EOF}
	s.mode = c.N(fragModes)
	s.rng = c.Rand()
	c.inBytes += int64(len(data))
	if c.much() && (s.mode == fragOne || s.mode == fragSmall) {
		s.mode = fragMixed
	}
	if s.mode == fragChunk {
		s.chunk = []int{2, 7, 188, 512, 4096}[c.N(5)]
	}
	s.scribble = c.Chance(4)
	s.finalData = c.Chance(3)
	s.errKind = c.N(4)
	s.dress = c.Pick(6, 1, 1)
	switch s.mode {
	case fragFull:
	case fragMixed:
		c.faults["source: short and empty reads"]++
	default:
		c.faults["source: short reads"]++
	}
	if s.finalData {
		c.faults["source: data together with end"]++
	}
	c.Ev("source", len(data), s.mode, s.chunk)
	return s
}

// reader is the source as the library sees it: bare, behind a buffer, or with the other
// methods that files and buffers have.
func (s *Source) reader() io.Reader {
	switch s.dress {
	case 1:
		return bufio.NewReaderSize(s, []int{16, 64, 512, 4096}[s.errKind])
	case 2:
		return &dressed{Source: s}
	}
	return s
}

// dressed is a source that can do more than Read.
type dressed struct {
	*Source
	back bool // the last byte was put back
	last byte
	n    int
	err  error // came with the last byte
}

func (d *dressed) Read(p []byte) (int, error) {
	if d.back && len(p) > 0 {
		d.back = false
		p[0] = d.last
		return 1, nil
	}
	if err := d.err; err != nil && len(p) > 0 {
		d.err = nil
		return 0, err
	}
	n, err := d.Source.Read(p)
	if n > 0 {
		d.last, d.n = p[n-1], d.n+n
	}
	return n, err
}

func (d *dressed) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := d.Read(b[:])
		if n > 0 {
			d.err = err
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (d *dressed) UnreadByte() error {
	if d.back || d.n == 0 {
		return bufio.ErrInvalidUnreadByte
	}
	d.back = true
	return nil
}

func (d *dressed) WriteTo(w io.Writer) (n int64, err error) {
	var b [512]byte
	for {
		k, err := d.Read(b[:])
		if k > 0 {
			m, werr := w.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func (d *dressed) Close() error { return nil }

// Plain makes the source return as much as it can.
func (s *Source) Plain() *Source {
	s.mode, s.finalData, s.scribble, s.dress = fragFull, false, false, 0
	return s
}

func (s *Source) nextFault() *Fault {
	for _, f := range s.faults {
		if f.Count != 0 && f.Off >= s.pos {
			return f
		}
	}
	return nil
}

func (s *Source) fire(f *Fault) error {
	if f.Count > 0 {
		f.Count--
	}
	f.fired++
	if f.fired == 1 {
		s.c.Fault("source: error")
	}
	if e, ok := f.Err.(*SimErr); ok {
		e.kind = s.errKind
	}
	s.c.Ev("source error", s.pos, f.fired)
	return f.Err
}

func (s *Source) spin() {
	s.after++
	if s.after > 5000 {
		s.c.Fail("no-progress", "%s: the source's end or error was read %d times, and is still being read", s.name, s.after)
	}
}

// Read implements io.Reader.
func (s *Source) Read(p []byte) (int, error) {
	if s.gate != nil {
		s.gate(s.name)
	}
	s.calls++
	s.c.steps++
	if len(p) == 0 {
		return 0, nil
	}
	if s.stall > 0 && s.pos >= s.stall {
		s.c.Ev("source stalls", s.pos)
		if s.c.sched == nil {
			panic(stalled{})
		}
		<-make(chan struct{})
	}
	f := s.nextFault()
	if f != nil && f.Off == s.pos {
		if f.Count < 0 && f.fired > 0 {
			s.spin()
		}
		return 0, s.fire(f)
	}
	if s.pos >= len(s.data) {
		s.spin()
		s.c.Ev("source end", s.pos)
		return 0, s.final
	}
	limit := len(s.data)
	if f != nil && f.Off < limit {
		limit = f.Off
	}
	if s.stall > 0 && s.stall < limit {
		limit = s.stall
	}
	n := len(p)
	switch s.mode {
	case fragOne:
		n = 1
	case fragSmall:
		n = 1 + s.rng.N(9)
	case fragMixed:
		if s.empties < 3 && s.rng.N(6) == 5 {
			s.empties++
			return 0, nil
		}
		s.empties = 0
		n = 1 + s.rng.N(len(p))
	case fragChunk:
		n = s.chunk - s.pos%s.chunk
	}
	if n > len(p) {
		n = len(p)
	}
	if n > limit-s.pos {
		n = limit - s.pos
	}
	copy(p, s.data[s.pos:s.pos+n])
	if s.scribble {
		for i := n; i < len(p) && i < n+64; i++ {
			p[i] = 0x47 // what lies beyond n is the source's to scribble on
		}
	}
	s.pos += n
	progress()
	if f != nil && f.Off == s.pos && f.WithData {
		s.c.Fault("source: error together with bytes")
		return n, s.fire(f)
	}
	if s.pos == len(s.data) && s.finalData && (f == nil || f.Off != s.pos) {
		return n, s.final
	}
	return n, nil
}

// transient is how often the source has returned errors so far.
func (s *Source) transient() int {
	n := 0
	for _, f := range s.faults {
		n += f.fired
	}
	return n
}
