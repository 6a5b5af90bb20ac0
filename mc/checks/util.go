package checks

import (
	"bufio"
	"bytes"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
)

// errEndedEarly: a prefix of the data, but the compressed section is terminated.
var errEndedEarly = errors.New("the compressed section is terminated before all that was written into it")

var errBoom = errors.New("injected transport failure")

// netErr is a transport error with the classification of package net.
type netErr struct{ timeout, temporary bool }

func (e *netErr) Error() string   { return "injected network failure" }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.temporary }

// errKinds are failures a transport or callback may report.
// Code may treat some of them in a special way, but a failure is a failure.
var errKinds = []error{
	errBoom,
	&netErr{true, true},
	&netErr{true, false},
	&netErr{false, true},
	io.ErrUnexpectedEOF,
	io.ErrShortWrite,
	io.ErrShortBuffer,
	io.ErrNoProgress,
	io.ErrClosedPipe,
	syscall.EINTR,
	syscall.EAGAIN,
	syscall.EPIPE,
	os.ErrDeadlineExceeded,
	context.Canceled,
	net.ErrClosed,
	zlib.ErrHeader,
	bufio.ErrBufferFull,
	&net.OpError{Op: "write", Net: "tcp", Err: syscall.ECONNRESET},
	fmt.Errorf("wrapped: %w", io.EOF),
	io.EOF,
}

func pickErr(c *C) error {
	e := errKinds[c.Choose(len(errKinds))]
	c.Logf("failures are %T %v", e, e)
	return e
}

// src is a transport: how much it delivers on each Read is a choice.
type src struct {
	c    *C
	data []byte
	pos  int
	end  error // final error
	// withData delivers the final error together with the last bytes
	withData bool
	// sizes, if set, lists the possible read sizes (values <= 0 mean
	// "everything available minus |value|"); otherwise all sizes are possible.
	sizes []int
	// dev makes non-default sizes count as deviations
	dev bool
	// zero allows (0, nil) answers, each costing a deviation
	zero bool
	// cuts, if set, are fixed absolute boundaries (no choices are made)
	cuts    []int
	useCuts bool

	reads    int
	consumed int
}

func (s *src) Read(p []byte) (int, error) {
	s.reads++
	rem := len(s.data) - s.pos
	if rem == 0 {
		if s.end == nil {
			return 0, io.EOF
		}
		return 0, s.end
	}
	max := len(p)
	if max > rem {
		max = rem
	}
	if max == 0 {
		return 0, nil
	}
	if s.zero && s.c.Dev(2) == 1 {
		s.c.Logf("transport: (0, nil)")
		return 0, nil
	}
	n := max
	switch {
	case s.useCuts:
		for _, c := range s.cuts {
			if c > s.pos && c-s.pos < n {
				n = c - s.pos
			}
		}
	case s.sizes != nil:
		var k int
		if s.dev {
			k = s.c.Dev(len(s.sizes))
		} else {
			k = s.c.Choose(len(s.sizes))
		}
		n = s.sizes[k]
		if n <= 0 {
			n = max + n
		}
		if n > max {
			n = max
		}
		if n < 1 {
			n = 1
		}
	default:
		n = max - s.c.Choose(max)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	s.consumed += n
	if s.c.Tracing() {
		s.c.Logf("transport: %d bytes %s", n, clip(s.data[s.pos-n:s.pos]))
	}
	if s.pos == len(s.data) && s.withData {
		if s.end == nil {
			return n, io.EOF
		}
		return n, s.end
	}
	return n, nil
}

func (s *src) endErr() error {
	if s.end == nil {
		return io.EOF
	}
	return s.end
}

func clip(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%q..(%d bytes)..%q", b[:20], len(b), b[len(b)-8:])
	}
	return fmt.Sprintf("%q", b)
}

func clips(s string) string { return clip([]byte(s)) }

// chooseBytes picks every string over alpha with length in [min,max].
func chooseBytes(c *C, alpha string, min, max int) []byte {
	n := min + c.Choose(max-min+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[c.Choose(len(alpha))]
	}
	return b
}

func chooseStr(c *C, alpha string, min, max int) string {
	return string(chooseBytes(c, alpha, min, max))
}

// pick chooses one of the values.
func pick(c *C, vals ...string) string { return vals[c.Choose(len(vals))] }

func pickInt(c *C, vals ...int) int { return vals[c.Choose(len(vals))] }

// pattern makes n distinguishable bytes that contain none of the delimiters.
func pattern(n, salt int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJ"[(i*7+i/46+salt*13)%46]
	}
	return b
}

// deflate compresses content; flushAt lists offsets after which a sync flush is made.
func deflate(content []byte, level int, flushAt ...int) []byte {
	var buf bytes.Buffer
	w, err := zlib.NewWriterLevel(&buf, level)
	if err != nil {
		panic(err)
	}
	last := 0
	for _, f := range flushAt {
		if f > len(content) {
			f = len(content)
		}
		w.Write(content[last:f])
		w.Flush()
		last = f
	}
	w.Write(content[last:])
	w.Close()
	return buf.Bytes()
}

// section is a part of an outgoing stream.
type section struct {
	comp bool
	data []byte
}

// walkSections decodes a sink against the expected sections.
//
//	complete: all sections must be present in full, compressed ones terminated
//	          except the last one if lastOpen is set.
//	otherwise the sink must decode to a prefix of the sections.
func walkSections(sink []byte, want []section, lastOpen bool) (full bool, err error) {
	r := bytes.NewReader(sink)
	for i, s := range want {
		if !s.comp {
			got := make([]byte, len(s.data))
			n, _ := io.ReadFull(r, got)
			if !bytes.Equal(got[:n], s.data[:n]) {
				return false, fmt.Errorf("plain section %d: got %s, want %s", i, clip(got[:n]), clip(s.data))
			}
			if n < len(s.data) {
				return false, nil
			}
			continue
		}
		if r.Len() == 0 {
			// nothing of this section has arrived yet
			if i == len(want)-1 && lastOpen && len(s.data) == 0 {
				return true, nil
			}
			return false, nil
		}
		z, err := zlib.NewReader(r)
		if err != nil {
			if (err == io.ErrUnexpectedEOF || err == io.EOF) && r.Len() == 0 {
				return len(s.data) == 0 && i == len(want)-1 && lastOpen, nil
			}
			return false, fmt.Errorf("compressed section %d: bad header: %v", i, err)
		}
		got, err := io.ReadAll(z)
		if len(got) > len(s.data) || !bytes.Equal(got, s.data[:len(got)]) {
			return false, fmt.Errorf("compressed section %d: decodes to %s, want %s", i, clip(got), clip(s.data))
		}
		if err != nil {
			if err == io.ErrUnexpectedEOF && r.Len() == 0 {
				// unterminated
				if i == len(want)-1 && lastOpen {
					return len(got) == len(s.data), nil
				}
				return false, nil
			}
			return false, fmt.Errorf("compressed section %d: %v after %s", i, err, clip(got))
		}
		if len(got) != len(s.data) {
			if i == len(want)-1 && r.Len() == 0 {
				return false, errEndedEarly
			}
			return false, fmt.Errorf("compressed section %d ended after %s, want %s", i, clip(got), clip(s.data))
		}
		if i == len(want)-1 && lastOpen {
			return false, fmt.Errorf("compressed section %d was terminated early", i)
		}
	}
	if r.Len() != 0 {
		rest, _ := io.ReadAll(r)
		return false, fmt.Errorf("unexpected extra bytes on the connection: %s", clip(rest))
	}
	return true, nil
}
