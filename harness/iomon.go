package main

import (
	"errors"
	"fmt"
	"io"
)

// Instrumented sources and destinations. They record the events at the
// boundary of the library, inject faults, and use every freedom that the
// contracts of io.Reader, io.ReaderAt and io.Writer leave to implementations.

type runaway struct{ msg string }

var errInjected = errors.New("injected fault")

// injectedErr makes distinguishable error values that wrap errInjected.
type injectedErr struct{ id int }

func (e *injectedErr) Error() string { return fmt.Sprintf("injected fault #%d", e.id) }
func (e *injectedErr) Unwrap() error { return errInjected }

// connErr is a failure that wraps io.EOF, like the errors of net/http when a
// connection is closed early. It does not mean the end of the data.
type connErr struct{ id int }

func (e *connErr) Error() string { return fmt.Sprintf("connection #%d closed: EOF", e.id) }
func (e *connErr) Unwrap() error { return io.EOF }

// srcAt is a monitored io.ReaderAt.
type srcAt struct {
	data    []byte
	eager   bool // return io.EOF together with full reads that reach the end
	scratch bool // use the unused part of the buffer as scratch space
	failAt  int  // index of the call that fails, -1 for none
	partial bool // the failing call returns data with its error
	err     error
	cutAt   int // index of the call before which the data is cut to cutTo bytes, if cutTo >= 0
	cutTo   int

	calls   int
	bytes   int64
	neg     bool
	failed  bool
	maxCall int
}

func newSrc(data []byte) *srcAt {
	return &srcAt{data: data, failAt: -1, cutTo: -1, maxCall: 20000 + len(data)*4}
}

func (s *srcAt) ReadAt(p []byte, off int64) (n int, err error) {
	s.calls++
	if s.calls > s.maxCall {
		panic(runaway{fmt.Sprintf("%d ReadAt calls on a source of %d bytes", s.calls, len(s.data))})
	}
	if off < 0 {
		s.neg = true
		return 0, errors.New("negative offset")
	}
	if s.cutTo >= 0 && s.calls > s.cutAt && len(s.data) > s.cutTo {
		s.data = s.data[:s.cutTo]
	}
	if off < int64(len(s.data)) {
		n = copy(p, s.data[off:])
	}
	s.bytes += int64(n)
	if s.scratch {
		for i := n; i < len(p); i++ {
			p[i] = "\nX\xaa"[i%3]
		}
	}
	if s.failAt >= 0 && s.calls-1 == s.failAt {
		s.failed = true
		if !s.partial {
			if s.scratch {
				for i := range p {
					p[i] = '\n'
				}
			}
			n = 0
		} else if n == len(p) && n > 0 {
			n--
		}
		return n, s.err
	}
	if n < len(p) || (s.eager && n > 0 && off+int64(n) == int64(len(s.data))) {
		return n, io.EOF
	}
	return n, nil
}

// lineSrc is a source that also implements LineReaderAt.
type lineSrc struct {
	srcAt
	lines     [][]byte
	lineCalls int
	lineFail  int // index of the ReadLinesAt call that fails, -1 for none
}

func newLineSrc(data []byte) *lineSrc {
	l := &lineSrc{srcAt: *newSrc(data), lineFail: -1}
	for _, s := range splitLines(data) {
		l.lines = append(l.lines, []byte(s))
	}
	return l
}

func (l *lineSrc) ReadLinesAt(lines [][]byte, offset int64) (n int, err error) {
	l.lineCalls++
	if l.lineCalls > l.maxCall {
		panic(runaway{"too many ReadLinesAt calls"})
	}
	if offset < 0 {
		l.neg = true
		return 0, errors.New("negative offset")
	}
	if l.lineCalls-1 == l.lineFail {
		l.failed = true
		if l.partial {
			for n < len(lines)-1 && offset+int64(n) < int64(len(l.lines)) {
				lines[n] = l.lines[offset+int64(n)]
				n++
			}
		}
		return n, l.err
	}
	for n < len(lines) && offset+int64(n) < int64(len(l.lines)) {
		lines[n] = l.lines[offset+int64(n)]
		n++
	}
	if n < len(lines) || (l.eager && offset+int64(n) == int64(len(l.lines))) {
		return n, io.EOF
	}
	return n, nil
}

// dstMon is a monitored io.Writer that fails once its budget is used.
type dstMon struct {
	got    []byte
	budget int // bytes accepted before failing, -1 for no limit
	max    int // more bytes than this mean runaway output
	err    error
	failed bool
	writes int
	after  int  // writes after a failed write
	full   bool // the failing write accepts all bytes
	once   bool // writes after the failed one succeed
}

func newDst(max int) *dstMon { return &dstMon{budget: -1, max: max} }

func (d *dstMon) Write(p []byte) (n int, err error) {
	d.writes++
	if d.failed && d.once {
		d.budget = -1
	} else if d.failed {
		d.after++
		return 0, d.err
	}
	if d.budget >= 0 && len(d.got)+len(p) > d.budget {
		n = d.budget - len(d.got)
		if d.full {
			n = len(p)
		}
		d.got = append(d.got, p[:n]...)
		d.failed = true
		return n, d.err
	}
	d.got = append(d.got, p...)
	if len(d.got) > d.max || d.writes > d.max+100000 {
		panic(runaway{fmt.Sprintf("%d bytes written in %d writes, at most %d bytes make sense", len(d.got), d.writes, d.max)})
	}
	return len(p), nil
}

// chunkReader is a monitored io.Reader that delivers its data in arbitrary
// pieces and optionally fails at a byte offset.
type chunkReader struct {
	data    []byte
	pos     int
	r       *Rng
	mode    int  // 0 whole buffer, 1 one byte, 2 random, 3 line by line
	zero    bool // sometimes return 0, nil
	eager   bool // return the last data with io.EOF
	failAt  int  // byte offset of the failure, -1 for none
	once    bool // fail only once, later reads succeed
	withBuf bool // return the data before the failure with the error
	err     error

	failed   int
	eofs     int
	reads    int
	afterErr int
}

func newChunkReader(data []byte, r *Rng) *chunkReader {
	return &chunkReader{data: data, r: r, failAt: -1}
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.reads++
	if c.reads > 50000+8*len(c.data) {
		panic(runaway{fmt.Sprintf("%d reads of %d bytes of input", c.reads, len(c.data))})
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.failed > 0 {
		c.afterErr++
		if !c.once {
			return 0, c.err
		}
	}
	end := len(c.data)
	failing := c.failAt >= 0 && c.failed == 0
	if failing {
		end = c.failAt
		if c.pos >= end {
			c.failed++
			return 0, c.err
		}
	}
	if c.pos >= len(c.data) {
		c.eofs++
		if c.eofs > 2000 {
			panic(runaway{"reads after the end of the input"})
		}
		return 0, io.EOF
	}
	if c.zero && c.r.P(20) {
		return 0, nil
	}
	n := end - c.pos
	if n > len(p) {
		n = len(p)
	}
	switch c.mode {
	case 1:
		n = 1
	case 2:
		if m := 1 + c.r.N(7); m < n {
			n = m
		}
	case 3:
		for i := 0; i < n; i++ {
			if c.data[c.pos+i] == '\n' {
				n = i + 1
				break
			}
		}
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if failing && c.pos >= end && c.withBuf {
		c.failed++
		return n, c.err
	}
	if c.eager && c.pos >= len(c.data) {
		c.eofs++
		return n, io.EOF
	}
	return n, nil
}

// stringSrc implements ReadString in addition to Read, like bytes.Buffer and
// bufio.Reader do, so the library uses it without its own buffer.
type stringSrc struct {
	chunkReader
	calls int
}

func (s *stringSrc) ReadString(delim byte) (string, error) {
	s.calls++
	if s.calls > 50000+8*len(s.data) {
		panic(runaway{"too many ReadString calls"})
	}
	if s.failed > 0 && !s.once {
		s.afterErr++
		return "", s.err
	}
	start := s.pos
	end := len(s.data)
	if s.failAt >= 0 && s.failed == 0 {
		end = s.failAt
	}
	for s.pos < end {
		s.pos++
		if s.data[s.pos-1] == delim {
			return string(s.data[start:s.pos]), nil
		}
	}
	if s.failAt >= 0 && s.failed == 0 {
		s.failed++
		return string(s.data[start:s.pos]), s.err
	}
	return string(s.data[start:s.pos]), io.EOF
}

// virtualSrc is a source with computed content, so that sources can be larger
// than memory.
type virtualSrc struct {
	size  int64
	salt  uint64
	calls int
}

func (v *virtualSrc) at(off int64) byte { return byte(mix(uint64(off/8)^v.salt) >> (8 * uint(off%8))) }

func (v *virtualSrc) ReadAt(p []byte, off int64) (n int, err error) {
	v.calls++
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	for n < len(p) && off+int64(n) < v.size {
		p[n] = v.at(off + int64(n))
		n++
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
