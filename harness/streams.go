package main

// Instrumented streams: they record every I/O event, deliver bytes in hostile
// but legal ways, and inject faults.

import (
	"errors"
	"fmt"
	"io"
)

// Ev is an I/O event at the stream boundary.
type Ev struct {
	Op   byte // 'r' read, 's' seek, 'w' write, 'c' close
	Pos  int64
	Want int
	N    int
	Err  error
	// whence for seeks
	Whence int
}

func (e Ev) String() string {
	return fmt.Sprintf("%c@%d want=%d n=%d err=%v", e.Op, e.Pos, e.Want, e.N, e.Err)
}

// Backing is random access data.
type Backing interface {
	Size() int64
	// Fill copies data at off, which is below Size, and returns how much.
	Fill(p []byte, off int64) int
}

type bytesBacking []byte

func (b bytesBacking) Size() int64 { return int64(len(b)) }
func (b bytesBacking) Fill(p []byte, off int64) int {
	return copy(p, b[off:])
}

// farBacking is data at an offset; what is before it does not matter.
type farBacking struct {
	base int64
	b    []byte
}

func (f farBacking) Size() int64 { return f.base + int64(len(f.b)) }
func (f farBacking) Fill(p []byte, off int64) int {
	if off >= f.base {
		return copy(p, f.b[off-f.base:])
	}
	if n := f.base - off; int64(len(p)) > n {
		p = p[:n]
	}
	for i := range p {
		p[i] = 0xAA
	}
	return len(p)
}

// rawBytes are the bytes behind a stream's data; withBytes replaces them.
func rawBytes(d Backing) []byte {
	switch d := d.(type) {
	case bytesBacking:
		return d
	case farBacking:
		return d.b
	}
	return nil
}

func withBytes(d Backing, b []byte) Backing {
	if f, ok := d.(farBacking); ok {
		return farBacking{f.base, b}
	}
	return bytesBacking(b)
}

// Fragmentation policies.
const (
	fragFull    = iota // as much as asked for
	fragOne            // one byte at a time
	fragRandom         // random short reads
	fragZeros          // random short reads, with (0, nil) in between
	fragDataEOF        // as much as asked for; the last read returns data and EOF
	fragRandEOF        // random short reads; the last returns data and EOF
	fragHalf           // half of what was asked for
	numFrags
)

var errStep = errors.New("I/O step budget exceeded")

// Src is an instrumented reading stream.
type Src struct {
	data   Backing
	pos    int64
	scrib  bool
	frag   int
	r      *Rng
	evs    []Ev
	record bool
	ops    int // number of read and seek calls
	reads  int
	maxOps int
	nRead  int64

	// Fault injection: the failAt-th operation (counting from 0) fails with
	// failErr, after delivering failPart bytes at most (reads only).
	failAt   int
	failErr  error
	failPart int
	sticky   bool  // all later operations fail as well
	failed   int   // number of operations that failed
	seekErr  error // what a failing seek returns instead of failErr, if set
	lastErr  error // the error of the last failure

	failedSeek bool // the last failure was that of a seek

	closed   int
	closeErr error
	zeros    int
}

func newSrc(data []byte) *Src {
	return &Src{data: bytesBacking(data), failAt: -1, maxOps: 1000000, record: true}
}

func (s *Src) ev(e Ev) {
	if s.record && len(s.evs) < 3000000 {
		s.evs = append(s.evs, e)
	}
}

func (s *Src) op() bool {
	i := s.ops
	s.ops++
	if s.maxOps > 0 && s.ops > s.maxOps {
		panic(violation{fmt.Sprintf("more than %d I/O calls on a stream of %d bytes: no bound in sight", s.maxOps, s.data.Size())})
	}
	return s.failErr != nil && (i == s.failAt || s.sticky && s.failAt >= 0 && i > s.failAt)
}

func (s *Src) read(p []byte) (n int, err error) {
	fail := s.op()
	s.reads++
	at := s.pos
	scribble := func(n int) { // a reader may use all of p as scratch space
		if s.scrib {
			for i := range p[:min(len(p), n)] {
				p[i] = 0xEE
			}
		}
	}
	scribble(64)
	defer func() {
		s.pos += int64(n)
		s.nRead += int64(n)
		s.ev(Ev{Op: 'r', Pos: at, Want: len(p), N: n, Err: err})
	}()
	size := s.data.Size()
	avail := size - s.pos
	if avail < 0 {
		avail = 0
	}
	if fail {
		s.failed++
		s.failedSeek = false
		s.lastErr = s.failErr
		m := s.failPart
		if m >= len(p) {
			m = len(p) - 1
		}
		if int64(m) > avail {
			m = int(avail)
		}
		if m > 0 {
			m = s.data.Fill(p[:m], s.pos)
		} else {
			m = 0
		}
		return m, s.failErr
	}
	if len(p) == 0 {
		return 0, nil
	}
	if avail == 0 {
		return 0, io.EOF
	}
	m := len(p)
	switch s.frag {
	case fragOne:
		m = 1
	case fragRandom, fragZeros, fragRandEOF:
		if s.frag == fragZeros && s.r.P(30) && s.zeros < 50 {
			s.zeros++
			return 0, nil
		}
		s.zeros = 0
		k := s.r.In(1, 16)
		if s.r.P(30) {
			k = s.r.In(1, 9000)
		}
		if k < m {
			m = k
		}
	case fragHalf:
		m = (m + 1) / 2
	}
	if int64(m) > avail {
		m = int(avail)
	}
	scribble(3 * m)
	n = s.data.Fill(p[:m], s.pos)
	if (s.frag == fragDataEOF || s.frag == fragRandEOF) && int64(n) == avail {
		return n, io.EOF
	}
	return n, nil
}

func (s *Src) seek(off int64, whence int) (int64, error) {
	fail := s.op()
	if fail {
		s.failed++
		s.failedSeek = true
		s.lastErr = s.failErr
		if s.seekErr != nil {
			s.lastErr = s.seekErr
		}
		s.ev(Ev{Op: 's', Pos: s.pos, Want: int(off), Whence: whence, Err: s.lastErr})
		return 0, s.lastErr
	}
	var to int64
	switch whence {
	case io.SeekStart:
		to = off
	case io.SeekCurrent:
		to = s.pos + off
	case io.SeekEnd:
		to = s.data.Size() + off
	default:
		return 0, errors.New("bad whence")
	}
	if to < 0 {
		err := errors.New("seek to negative position")
		s.ev(Ev{Op: 's', Pos: s.pos, Want: int(off), Whence: whence, Err: err})
		return 0, err
	}
	s.pos = to
	s.ev(Ev{Op: 's', Pos: s.pos, Want: int(off), Whence: whence})
	return s.pos, nil
}

func (s *Src) close() error {
	s.closed++
	s.ev(Ev{Op: 'c', Pos: s.pos, Err: s.closeErr})
	return s.closeErr
}

type srcR struct{ s *Src }

func (x srcR) Read(p []byte) (int, error) { return x.s.read(p) }

type srcRS struct{ s *Src }

func (x srcRS) Read(p []byte) (int, error)            { return x.s.read(p) }
func (x srcRS) Seek(off int64, wh int) (int64, error) { return x.s.seek(off, wh) }

type srcRC struct{ s *Src }

func (x srcRC) Read(p []byte) (int, error) { return x.s.read(p) }
func (x srcRC) Close() error               { return x.s.close() }

type srcRSC struct{ s *Src }

func (x srcRSC) Read(p []byte) (int, error)            { return x.s.read(p) }
func (x srcRSC) Seek(off int64, wh int) (int64, error) { return x.s.seek(off, wh) }
func (x srcRSC) Close() error                          { return x.s.close() }

// stream presents the source with the given set of interfaces.
func (s *Src) stream(seek, closer bool) io.Reader {
	switch {
	case seek && closer:
		return srcRSC{s}
	case seek:
		return srcRS{s}
	case closer:
		return srcRC{s}
	}
	return srcR{s}
}

// Dst is an instrumented writing stream.
type Dst struct {
	buf      []byte
	calls    int
	evs      []Ev
	failAt   int // the call which fails, or -1
	failPart int // how many bytes it accepts at most
	failErr  error
	sticky   bool
	closed   int
	closeErr error
	failed   int
}

func newDst() *Dst { return &Dst{failAt: -1} }

func (d *Dst) write(p []byte) (int, error) {
	i := d.calls
	d.calls++
	if d.failErr != nil && (i == d.failAt || d.sticky && d.failAt >= 0 && i > d.failAt) {
		d.failed++
		n := 0
		if i == d.failAt {
			n = d.failPart
		}
		if n > len(p) {
			n = len(p)
		}
		d.buf = append(d.buf, p[:n]...)
		d.evs = append(d.evs, Ev{Op: 'w', Pos: int64(len(d.buf) - n), Want: len(p), N: n, Err: d.failErr})
		return n, d.failErr
	}
	d.buf = append(d.buf, p...)
	d.evs = append(d.evs, Ev{Op: 'w', Pos: int64(len(d.buf) - len(p)), Want: len(p), N: len(p)})
	return len(p), nil
}

func (d *Dst) close() error {
	d.closed++
	d.evs = append(d.evs, Ev{Op: 'c', Err: d.closeErr})
	return d.closeErr
}

type dstW struct{ d *Dst }

func (x dstW) Write(p []byte) (int, error) { return x.d.write(p) }

type dstWC struct{ d *Dst }

func (x dstWC) Write(p []byte) (int, error) { return x.d.write(p) }
func (x dstWC) Close() error                { return x.d.close() }

func (d *Dst) stream(closer bool) io.Writer {
	if closer {
		return dstWC{d}
	}
	return dstW{d}
}
