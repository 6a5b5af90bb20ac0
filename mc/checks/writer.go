package checks

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"

	"github.com/direct-connect/go-dc/adc"
	adctypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
)

var (
	errHook = errors.New("injected hook failure")
	errArm  = errors.New("injected deadline failure")
)

// sink is a connection: it records what arrives and may fail.
type sink struct {
	c     *C
	buf   bytes.Buffer
	armed bool
	// watch requires every byte to arrive while armed
	watch  bool
	faults bool  // injected write failures cost a deviation
	failed int   // number of failures injected
	err    error // what failed writes report
	writes int
	bad    string
}

func (s *sink) Write(p []byte) (int, error) {
	s.writes++
	if s.watch && len(p) > 0 && !s.armed && s.bad == "" {
		s.bad = fmt.Sprintf("%d bytes %s handed to the connection without an armed deadline", len(p), clip(p))
	}
	if s.faults {
		boom := s.err
		if boom == nil {
			boom = errBoom
		}
		switch s.c.Dev(4) {
		case 1:
			s.failed++
			s.c.Logf("  connection: write of %d bytes fails", len(p))
			return 0, boom
		case 2:
			s.failed++
			n := len(p) / 2
			s.buf.Write(p[:n])
			s.c.Logf("  connection: write of %d bytes fails after %d", len(p), n)
			return n, boom
		case 3:
			s.failed++
			s.buf.Write(p)
			s.c.Logf("  connection: write of %d bytes fails after all", len(p))
			return len(p), boom
		}
	}
	s.buf.Write(p)
	s.c.Logf("  connection: %d bytes", len(p))
	return len(p), nil
}

// wsys couples a writer with its reference model.
type wsys struct {
	c       *C
	w       *lineproto.Writer
	sink    *sink
	secs    []section
	comp    bool
	closed  bool
	failed  bool // an error was injected
	lenient bool // a failed batch may be cut off between two messages
	k       int
	// injected failures in callbacks
	hookFail, armFail bool
	injected          int
	err               error // what failed callbacks report
}

func newWsys(c *C, size int) *wsys {
	m := &wsys{c: c, sink: &sink{c: c}, secs: []section{{}}}
	m.w = lineproto.NewWriterSize(m.sink, size)
	return m
}

func (m *wsys) timeout(enable bool) error {
	m.c.Logf("  deadline callback(%v)", enable)
	if enable {
		if m.armFail && m.c.Dev(2) == 1 {
			m.injected++
			m.c.Logf("  deadline callback fails")
			if m.err != nil {
				return m.err
			}
			return errArm
		}
		m.sink.armed = true
		return nil
	}
	m.sink.armed = false
	return nil
}

func (m *wsys) hook(line []byte) (bool, error) {
	if m.hookFail && m.c.Dev(2) == 1 {
		m.injected++
		m.c.Logf("  line hook fails")
		if m.err != nil {
			return m.c.Bool(), m.err
		}
		return true, errHook
	}
	return true, nil
}

func (m *wsys) add(b []byte) {
	s := &m.secs[len(m.secs)-1]
	s.data = append(s.data[:len(s.data):len(s.data)], b...)
}

func (m *wsys) next(n int, line bool) []byte {
	m.k++
	b := pattern(n, m.k)
	if line && n > 0 {
		b[n-1] = '|'
	}
	return b
}

// prefix checks that the connection content decodes to a prefix of the model.
func (m *wsys) prefix(when string) {
	_, err := walkSections(m.sink.buf.Bytes(), m.secs, false)
	if err == errEndedEarly && m.lenient {
		err = nil
	}
	m.c.Assert(err == nil, "%s: the connection does not carry a prefix of what was written: %v", when, err)
}

// complete checks that everything written can be decoded.
func (m *wsys) complete(when string, open bool) {
	full, err := walkSections(m.sink.buf.Bytes(), m.secs, open && m.comp)
	m.c.Assert(err == nil, "%s: the connection carries something else than what was written: %v", when, err)
	m.c.Assert(full, "%s: not everything written so far can be decoded from the connection (%d bytes: %s)", when, m.sink.buf.Len(), clip(m.sink.buf.Bytes()))
}

// The operations.
var wops = map[string]func(m *wsys) (error, bool){}

// do runs an operation and checks everything the model says about it.
func (m *wsys) do(op string) {
	c := m.c
	before := m.sink.buf.Len()
	inj, injSink := m.injected+m.sink.failed, m.sink.failed
	wasFailed, wasClosed, wasComp := m.failed, m.closed, m.comp
	wasErr := m.w.Err()
	nsec, ndata := len(m.secs), len(m.secs[len(m.secs)-1].data)
	var (
		err     error
		written []byte
		refuse  bool // must be refused
	)
	c.Logf("%s", op)
	c.Op()
	name, arg := op, 0
	if i := bytes.IndexByte([]byte(op), ':'); i >= 0 {
		name = op[:i]
		fmt.Sscanf(op[i+1:], "%d", &arg)
	}
	switch name {
	case "line":
		written = m.next(arg, true)
		m.add(written)
		cp := append([]byte{}, written...)
		err = m.w.WriteLine(cp)
		c.Assert(bytes.Equal(cp, written), "WriteLine changed the caller's buffer")
		for i := range cp {
			cp[i] = '#' // the writer must not retain the buffer
		}
	case "raw":
		written = m.next(arg, false)
		m.add(written)
		cp := append([]byte{}, written...)
		var n int
		n, err = m.w.Write(cp)
		c.Assert(bytes.Equal(cp, written), "Write changed the caller's buffer")
		for i := range cp {
			cp[i] = '#'
		}
		c.Assert(n >= 0 && n <= len(cp), "Write returned %d for %d bytes", n, len(cp))
		if err == nil {
			c.Assert(n == len(cp), "Write of %d bytes returned %d without an error", len(cp), n)
		}
	case "flush":
		err = m.w.Flush()
	case "zlib":
		lvl := arg
		refuse = wasComp || lvl < -2 || lvl > 9
		if !refuse && !m.failed && !m.closed {
			m.secs = append(m.secs, section{comp: true})
			m.comp = true
		}
		if lvl == zlib.DefaultCompression {
			err = m.w.EnableZlib()
		} else {
			err = m.w.EnableZlibLevel(lvl)
		}
	case "unzlib":
		refuse = !wasComp
		if !refuse && !m.failed && !m.closed {
			m.secs = append(m.secs, section{})
			m.comp = false
		}
		err = m.w.DisableZlib()
	case "close":
		err = m.w.Close()
		m.closed = true
	default:
		panic(op)
	}
	c.Logf("  = %v", err)
	if m.sink.bad != "" {
		c.Fail("%s: %s", op, m.sink.bad)
	}
	if m.sink.watch {
		c.Assert(!m.sink.armed, "%s returned with the deadline still armed", op)
	}
	undo := func() {
		m.secs = m.secs[:nsec]
		s := &m.secs[nsec-1]
		s.data = s.data[:ndata]
		m.comp = wasComp
	}
	if m.injected+m.sink.failed > inj {
		m.failed = true
		c.Assert(err != nil, "%s failed on the connection (or in a callback), but reported success", op)
		switch name {
		case "zlib":
			undo()
		case "unzlib":
			// the end of the section may or may not have arrived
			m.secs = m.secs[:nsec]
		case "line", "raw":
			if m.sink.failed == injSink {
				undo() // refused by a callback before anything was accepted
			}
		}
		m.prefix(op)
		return
	}
	switch {
	case wasClosed && name != "close":
		undo()
		c.Assert(err != nil, "%s on a closed writer reported success", op)
		c.Assert(m.sink.buf.Len() == before, "%s on a closed writer wrote to the connection", op)
	case wasClosed:
		undo()
		c.Assert(m.sink.buf.Len() == before, "second close wrote to the connection")
	case wasFailed && name != "close":
		undo()
		c.Assert(err != nil, "%s after a failure reported success", op)
		c.Assert(m.sink.buf.Len() == before, "%s after a failure wrote to the connection", op)
	case wasFailed:
		m.prefix(op)
		if wasErr != nil {
			c.Assert(errors.Is(m.w.Err(), wasErr), "the writer reported the failure %v, after closing it reports %v", wasErr, m.w.Err())
		}
	case refuse:
		undo()
		c.Assert(err != nil, "%s should be refused", op)
		m.prefix(op)
	default:
		c.Assert(err == nil, "%s: unexpected error %v", op, err)
		switch name {
		case "flush":
			m.complete(op, true)
		case "close":
			m.complete(op, false)
		case "unzlib":
			m.complete(op, false)
		case "raw":
			if !m.comp {
				m.complete("raw write (documented to bypass the buffer)", true)
			} else {
				m.prefix(op)
			}
		default:
			m.prefix(op)
		}
	}
	c.State([]byte(fmt.Sprint(op, m.comp, m.closed, m.failed, len(m.secs), m.sink.buf.Len(), err)))
}

func linesDepth(thorough bool) int {
	if thorough {
		return 5
	}
	return 4
}

// lineLengths writes lines of every length around the size of the buffer.
func lineLengths(c *C, m *wsys, depth int) {
	z := c.Choose(4) // compression starts before line z, 3: never
	if z < 3 {
		depth = 3
	}
	for i := 0; i < depth; i++ {
		if i == z {
			m.do("zlib:0")
		}
		m.do(fmt.Sprintf("line:%d", c.Choose(19)))
	}
	m.do("flush")
	m.do("close")
}

func init() {
	register("C05", []string{"the connection accepts every write (failures are C06)"}, func(th bool) []S {
		d1, d2 := 5, 6
		if th {
			d1, d2 = 6, 7
		}
		seq := func(c *C, size, depth int, ops []string) {
			m := newWsys(c, size)
			for i := 0; i < depth && !m.closed; i++ {
				k := c.Choose(len(ops) + 1)
				if k == 0 {
					break
				}
				m.do(ops[k-1])
			}
			if !m.closed {
				if c.Bool() {
					m.do("flush")
				}
				m.do("close")
			}
		}
		return []S{
			{Name: "small-buffer", Bound: fmt.Sprintf("buffers of 1, 16 and 24 bytes, all sequences of up to %d operations of {line 3, line 20, raw 2, raw 40, flush, zlib level 0, zlib level -2, bad level, end zlib}, then close with or without flush", d1-1), Run: func(c *C) {
				seq(c, pickInt(c, 16, 24, 1), d1-1, []string{"line:3", "line:20", "raw:2", "raw:40", "flush", "zlib:0", "zlib:-2", "zlib:99", "unzlib"})
			}},
			{Name: "default-buffer", Bound: fmt.Sprintf("default buffer, all sequences of up to %d operations of {line 3, raw 2, flush, zlib level -2, end zlib}", d2), Run: func(c *C) {
				seq(c, 0, d2, []string{"line:3", "raw:2", "flush", "zlib:-2", "unzlib"})
			}},
			{Name: "big-data", Bound: "default buffer, all sequences of up to 4 operations of {line 4095, line 5000, raw 4096, raw 1, flush, zlib level 1, end zlib}", Run: func(c *C) {
				seq(c, 0, 4, []string{"line:4095", "line:5000", "raw:4096", "raw:1", "flush", "zlib:1", "unzlib"})
			}},
			{Name: "level-switching", Bound: "all sequences of up to 5 compression switches with levels {default, 0, 1, 9, -3, 10} with a line in between", Run: func(c *C) {
				m := newWsys(c, 16)
				n := 1 + c.Choose(5)
				for i := 0; i < n; i++ {
					if m.comp {
						m.do([]string{"unzlib", "zlib:1", "zlib:10"}[c.Choose(3)])
					} else {
						m.do([]string{"zlib:-1", "zlib:0", "zlib:1", "zlib:-3", "zlib:10", "unzlib"}[c.Choose(6)])
					}
					m.do("line:5")
				}
				m.do("close")
			}},
			{Name: "empty-lines", Bound: "all sequences of up to 5 operations of {empty line, line 1, empty raw, line 16, zlib level 0, end zlib} with a 16 byte buffer", Run: func(c *C) {
				seq(c, 16, 5, []string{"line:0", "line:1", "raw:0", "line:16", "zlib:0", "unzlib"})
			}},
			{Name: "line-lengths", Bound: fmt.Sprintf("buffer of 16 bytes: all sequences of %d lines of 0 to 18 bytes, or of 3 lines and a compressed section that starts before any of them, then flush and close", linesDepth(th)), Run: func(c *C) {
				lineLengths(c, newWsys(c, 16), linesDepth(th))
			}},
			{Name: "nmdc-writer", Bound: "all sequences of up to 4 operations of the NMDC writer (message, two messages, unencodable message, keep-alive, ZOn, ZOn with a bad level, flush, end zlib), then close", Run: func(c *C) {
				nmdcWriterOps(c, pickInt(c, 16, 0), 4)
			}},
			{Name: "adc-writer", Bound: "all sequences of up to 5 operations of the ADC writer (packets, keep-alive, zlib, flush, end zlib), then close", Run: func(c *C) {
				adcWriterOps(c, pickInt(c, 16, 0), 4)
			}},
		}
	})
}

func nmdcWriterOps(c *C, size, depth int) {
	m := &wsys{c: c, sink: &sink{c: c}, secs: []section{{}}}
	w := nmdc.NewWriterSize(m.sink, size)
	m.w = w.Writer
	ops := []string{"msg", "msg2", "badmsg", "keepalive", "zon", "zon-bad", "flush", "unzlib", "line:3"}
	for i := 0; i < depth; i++ {
		k := c.Choose(len(ops) + 1)
		if k == 0 {
			break
		}
		switch op := ops[k-1]; op {
		case "msg":
			m.add([]byte("$Hello bob|"))
			err := w.WriteMsg(&nmdc.Hello{Name: "bob"})
			c.Logf("WriteMsg(Hello) = %v", err)
			c.Assert(err == nil, "WriteMsg: %v", err)
		case "msg2":
			m.add([]byte("$Hello alice|$Quit bob|"))
			err := w.WriteMsg(&nmdc.Hello{Name: "alice"}, &nmdc.Quit{Name: "bob"})
			c.Logf("WriteMsg(Hello, Quit) = %v", err)
			c.Assert(err == nil, "WriteMsg: %v", err)
		case "badmsg":
			err := w.WriteMsg(&nmdc.Hello{Name: "al|ice"}, &nmdc.Quit{Name: "bob"})
			c.Logf("WriteMsg(bad) = %v", err)
			if err == nil {
				m.add([]byte("$Hello al&#124;ice|$Quit bob|"))
			}
		case "keepalive":
			m.add([]byte("|"))
			c.Assert(w.WriteKeepAlive() == nil, "WriteKeepAlive")
			c.Logf("WriteKeepAlive")
		case "zon":
			var err error
			if c.Bool() {
				err = w.ZOnLevel(zlib.HuffmanOnly)
			} else {
				err = w.ZOnLevel(zlib.NoCompression)
			}
			c.Logf("ZOn = %v", err)
			if m.comp {
				c.Assert(err != nil, "second ZOn accepted")
			} else {
				c.Assert(err == nil, "ZOn: %v", err)
				m.add([]byte("$ZOn|"))
				m.secs = append(m.secs, section{comp: true})
				m.comp = true
			}
		case "zon-bad":
			lvl := pickInt(c, 77, -3, 10)
			err := w.ZOnLevel(lvl)
			c.Logf("ZOnLevel(%d) = %v", lvl, err)
			c.Assert(err != nil, "ZOn with a bad level accepted")
		default:
			m.do(op)
		}
		c.Op()
		m.prefix("nmdc writer")
	}
	if c.Bool() {
		c.Assert(w.Flush() == nil, "Flush")
		m.complete("Flush", true)
	}
	m.do("close")
}

func adcWriterOps(c *C, size, depth int) {
	m := &wsys{c: c, sink: &sink{c: c}, secs: []section{{}}}
	w := adc.NewWriterSize(m.sink, size)
	m.w = w.Writer
	id := adctypes.SIDFromInt(77)
	ops := []string{"info", "direct", "keepalive", "zlib:-2", "flush", "unzlib", "raw:3"}
	for i := 0; i < depth; i++ {
		k := c.Choose(len(ops) + 1)
		if k == 0 {
			break
		}
		switch op := ops[k-1]; op {
		case "info":
			m.add([]byte("IMSG hi\n"))
			c.Assert(w.WriteInfo(adc.ChatMessage{Text: "hi"}) == nil, "WriteInfo")
			c.Logf("WriteInfo")
		case "direct":
			m.add([]byte("DMSG " + id.String() + " " + id.String() + " x\\sy\n"))
			c.Assert(w.WriteDirect(id, id, adc.ChatMessage{Text: "x y"}) == nil, "WriteDirect")
			c.Logf("WriteDirect")
		case "keepalive":
			m.add([]byte("\n"))
			c.Assert(w.WriteKeepAlive() == nil, "WriteKeepAlive")
			c.Logf("WriteKeepAlive")
		default:
			m.do(op)
		}
		c.Op()
		m.prefix("adc writer")
	}
	if c.Bool() {
		c.Assert(w.Flush() == nil, "Flush")
		m.complete("Flush", true)
	}
	m.do("close")
}

func init() {
	register("C06", []string{"a connection write that returns no error has accepted all bytes (io.Writer contract)"}, func(th bool) []S {
		d := 4
		if th {
			d = 5
		}
		runKind := func(c *C, kind error, size, depth, dev, after2 int, faults, arm, hook bool, ops []string) {
			m := newWsys(c, size)
			m.sink.err, m.err = kind, kind
			m.sink.faults = faults
			m.armFail = arm
			m.hookFail = hook
			if arm {
				m.w.Timeout = m.timeout
			}
			if hook {
				m.w.OnLine(m.hook)
			}
			c.SetDeviations(dev)
			tail := 0
			for i := 0; i < depth && tail < 2; i++ {
				k := c.Choose(len(ops))
				m.do(ops[k])
				if m.failed {
					tail++
					if tail == 1 {
						c.Assert(m.w.Err() != nil, "Err() is nil after a failure")
						// every operation is tried after the failure
						after := []string{"line:3", "raw:2", "flush", "raw:40", "line:20", "zlib:0", "zlib:-2", "unzlib"}
						for n := 0; n < after2; n++ {
							m.do(after[c.Choose(len(after))])
						}
						break
					}
				}
			}
			m.do("close")
			m.prefix("close")
			m.do("flush")
			m.do("close")
		}
		run := func(c *C, size, depth, dev, after2 int, faults, arm, hook bool, ops []string) {
			runKind(c, nil, size, depth, dev, after2, faults, arm, hook, ops)
		}
		return []S{
			{Name: "connection-failures", Bound: fmt.Sprintf("buffers of 16 bytes and default, all sequences of up to %d operations, any single connection write failing with 0, half or all bytes taken, all pairs of operations afterwards, close", d), Run: func(c *C) {
				run(c, pickInt(c, 16, 0), d-1, 1, 2, true, false, false, []string{"line:3", "line:20", "raw:2", "raw:40", "flush", "zlib:0", "unzlib"})
			}},
			{Name: "connection-failures-deep", Bound: fmt.Sprintf("buffer of 16 bytes, all sequences of %d operations of a smaller set", d+1), Run: func(c *C) {
				run(c, 16, d+1, 1, 1, true, false, false, []string{"line:12", "raw:2", "flush", "zlib:-2"})
			}},
			{Name: "deadline-failures", Bound: fmt.Sprintf("any single deadline arming fails, all sequences of %d operations", d), Run: func(c *C) {
				run(c, 16, d, 1, 2, false, true, false, []string{"line:3", "line:20", "raw:2", "flush", "zlib:0", "unzlib"})
			}},
			{Name: "hook-failures", Bound: fmt.Sprintf("any single line hook call fails, all sequences of %d operations", d), Run: func(c *C) {
				run(c, 16, d, 1, 2, false, false, true, []string{"line:3", "line:20", "raw:2", "flush", "zlib:0", "unzlib"})
			}},
			{Name: "two-failures", Bound: "any two of: connection write, deadline, hook failures, all sequences of 3 operations", Run: func(c *C) {
				run(c, 16, 3, 2, 2, true, true, true, []string{"line:3", "line:20", "raw:2", "flush", "zlib:0"})
			}},
			{Name: "error-kinds", Bound: fmt.Sprintf("the failure is one of %d kinds of errors (temporary, timeout, end of stream, closed, interrupted, ...): any single connection write, deadline or hook failing with it, all sequences of %d operations, every operation afterwards", len(errKinds), d-2), Run: func(c *C) {
				runKind(c, pickErr(c), 16, d-2, 1, 1, true, true, true, []string{"line:3", "line:20", "raw:2", "raw:40", "flush", "zlib:0", "unzlib"})
			}},
			{Name: "line-lengths", Bound: "buffer of 16 bytes: all sequences of 3 lines of 0 to 18 bytes, with or without a compressed section that starts before any of them, any single connection write failing, then flush and close", Run: func(c *C) {
				m := newWsys(c, 16)
				m.sink.faults = true
				c.SetDeviations(1)
				lineLengths(c, m, 3)
			}},
			{Name: "nmdc-writer", Bound: "NMDC writer: messages, batches, ZOn, flush; any single connection, deadline or hook failure", Run: func(c *C) {
				m := &wsys{c: c, sink: &sink{c: c, faults: true}, secs: []section{{}}, armFail: true, hookFail: true, lenient: true}
				w := nmdc.NewWriterSize(m.sink, pickInt(c, 16, 0))
				m.w = w.Writer
				w.Timeout = m.timeout
				w.OnLine(m.hook)
				c.SetDeviations(1)
				for i := 0; i < 4; i++ {
					inj := m.injected + m.sink.failed
					was := m.failed
					before := m.sink.buf.Len()
					var err error
					op := c.Choose(5)
					if was && op < 2 {
						// nothing may be added any more
					}
					switch op {
					case 0:
						if !was {
							m.add([]byte("$Hello bob|"))
						}
						err = w.WriteMsg(&nmdc.Hello{Name: "bob"})
					case 1:
						if !was {
							m.add([]byte("$Hello alice|$Quit bob|"))
						}
						err = w.WriteMsg(&nmdc.Hello{Name: "alice"}, &nmdc.Quit{Name: "bob"})
					case 2:
						if m.comp {
							continue
						}
						if !was {
							m.add([]byte("$ZOn|"))
						}
						err = w.ZOnLevel(zlib.HuffmanOnly)
						if err == nil {
							m.comp = true
							m.secs = append(m.secs, section{comp: true})
						}
					case 3:
						err = w.Flush()
					case 4:
						if !was {
							m.add([]byte("|"))
						}
						err = w.WriteKeepAlive()
					}
					c.Op()
					c.Logf("op %d = %v", op, err)
					if m.injected+m.sink.failed > inj {
						m.failed = true
						c.Assert(err != nil, "operation %d failed on the connection, but reported success", op)
					} else if was {
						c.Assert(err != nil, "operation %d after a failure reported success", op)
						c.Assert(m.sink.buf.Len() == before, "operation %d after a failure wrote to the connection", op)
					} else {
						c.Assert(err == nil, "operation %d: %v", op, err)
					}
					m.prefix("nmdc writer")
				}
				m.do("close")
				c.StateS(fmt.Sprint(m.sink.buf.Len(), m.failed))
			}},
		}
	})

	register("C08", []string{"the deadline callback is configured before the first write"}, func(th bool) []S {
		d := 4
		if th {
			d = 5
		}
		run := func(c *C, size, depth int, fail bool, ops []string) {
			m := newWsys(c, size)
			m.sink.watch = true
			m.armFail = fail
			m.sink.faults = fail
			m.w.Timeout = m.timeout
			c.SetDeviations(0)
			if fail {
				c.SetDeviations(1)
			}
			for i := 0; i < depth; i++ {
				inj, before := m.injected, m.sink.writes
				m.do(ops[c.Choose(len(ops))])
				if m.injected > inj {
					_ = before
					break
				}
				if m.closed {
					break
				}
			}
			m.do("close")
		}
		return []S{
			{Name: "armed-writes", Bound: fmt.Sprintf("buffers of 16 bytes and default, all sequences of %d operations, then close", d), Run: func(c *C) {
				run(c, pickInt(c, 16, 0), d, false, []string{"line:3", "line:20", "raw:2", "raw:40", "flush", "zlib:0", "zlib:-2", "unzlib", "close"})
			}},
			{Name: "failing", Bound: fmt.Sprintf("as above with any single arming or connection write failing, %d operations", d-1), Run: func(c *C) {
				run(c, pickInt(c, 16, 0), d-1, true, []string{"line:3", "line:20", "raw:2", "raw:40", "flush", "zlib:0", "unzlib"})
			}},
			{Name: "failed-arming", Bound: "the n-th arming fails (n <= 4), all sequences of 4 operations: nothing is handed over after it by that operation", Run: func(c *C) {
				m := newWsys(c, 16)
				m.sink.watch = true
				at := 1 + c.Choose(4)
				n := 0
				failedAt := -1
				m.w.Timeout = func(enable bool) error {
					if enable {
						n++
						if n == at {
							failedAt = m.sink.writes
							m.injected++
							return errArm
						}
					}
					m.sink.armed = enable
					return nil
				}
				ops := []string{"line:3", "line:20", "raw:2", "flush", "zlib:0", "unzlib", "close"}
				for i := 0; i < 4 && failedAt < 0 && !m.closed; i++ {
					m.do(ops[c.Choose(len(ops))])
					if failedAt >= 0 {
						c.Assert(m.sink.writes == failedAt, "the operation went on writing after the deadline could not be armed")
					}
				}
			}},
			{Name: "line-lengths", Bound: fmt.Sprintf("buffer of 16 bytes: all sequences of %d lines of 0 to 18 bytes, or of 3 lines and a compressed section that starts before any of them, then flush and close", linesDepth(th)), Run: func(c *C) {
				m := newWsys(c, 16)
				m.sink.watch = true
				m.w.Timeout = m.timeout
				lineLengths(c, m, linesDepth(th))
			}},
			{Name: "protocol-writers", Bound: "NMDC and ADC writers: all sequences of 4 operations, then close", Run: func(c *C) {
				m := &wsys{c: c, sink: &sink{c: c, watch: true}, secs: []section{{}}}
				size := pickInt(c, 16, 0)
				if c.Bool() {
					w := nmdc.NewWriterSize(m.sink, size)
					w.Timeout = m.timeout
					m.w = w.Writer
					for i := 0; i < 4; i++ {
						var err error
						switch c.Choose(5) {
						case 0:
							err = w.WriteMsg(&nmdc.Hello{Name: "a-name-that-is-long"}, &nmdc.Quit{Name: "b"})
						case 1:
							err = w.WriteKeepAlive()
						case 2:
							if !m.comp {
								err = w.ZOnLevel(0)
								m.comp = true
							}
						case 3:
							err = w.Flush()
						case 4:
							_, err = w.Write([]byte("rawraw"))
						}
						c.Op()
						c.Assert(err == nil, "unexpected error %v", err)
						c.Assert(m.sink.bad == "", "%s", m.sink.bad)
						c.Assert(!m.sink.armed, "deadline left armed")
					}
				} else {
					w := adc.NewWriterSize(m.sink, size)
					w.Timeout = m.timeout
					m.w = w.Writer
					for i := 0; i < 4; i++ {
						var err error
						switch c.Choose(4) {
						case 0:
							err = w.WriteInfo(adc.ChatMessage{Text: "some text that is long"})
						case 1:
							err = w.WriteKeepAlive()
						case 2:
							err = w.Flush()
						case 3:
							if !m.comp {
								err = w.EnableZlibLevel(0)
								m.comp = true
							} else {
								err = w.DisableZlib()
								m.comp = false
							}
						}
						c.Op()
						c.Assert(err == nil, "unexpected error %v", err)
						c.Assert(m.sink.bad == "", "%s", m.sink.bad)
						c.Assert(!m.sink.armed, "deadline left armed")
					}
				}
				err := m.w.Close()
				c.Assert(err == nil && m.sink.bad == "", "close: %v %s", err, m.sink.bad)
				c.Assert(!m.sink.armed, "deadline left armed by close")
				c.StateS(fmt.Sprint(m.sink.buf.Len()))
			}},
		}
	})

	register("C30", nil, func(th bool) []S {
		d := 4
		if th {
			d = 5
		}
		return []S{
			{Name: "writer", Bound: fmt.Sprintf("buffers of 16 bytes and default, all sequences of up to %d operations, close, then all sequences of 2 further operations", d), Run: func(c *C) {
				m := newWsys(c, pickInt(c, 16, 0))
				ops := []string{"close", "line:3", "line:20", "raw:2", "flush", "zlib:0", "zlib:-2", "unzlib"}
				for i := 0; i < d && !m.closed; i++ {
					m.do(ops[c.Choose(len(ops))])
				}
				if !m.closed {
					m.do("close")
				}
				all := []string{"close", "line:3", "raw:2", "raw:0", "flush", "zlib:0", "zlib:99", "unzlib"}
				for i := 0; i < 2; i++ {
					m.do(all[c.Choose(len(all))])
				}
				c.Assert(m.w.Err() != nil, "Err() is nil on a closed writer")
			}},
			{Name: "writer-after-failure", Bound: "as above, 3 operations, with any single connection write, deadline or hook failure", Run: func(c *C) {
				m := newWsys(c, 16)
				m.sink.faults, m.armFail, m.hookFail = true, true, true
				m.w.Timeout = m.timeout
				m.w.OnLine(m.hook)
				c.SetDeviations(1)
				ops := []string{"line:3", "line:20", "raw:2", "flush", "zlib:0", "unzlib"}
				for i := 0; i < 3; i++ {
					m.do(ops[c.Choose(len(ops))])
				}
				m.do("close")
				all := []string{"close", "line:3", "raw:2", "flush", "zlib:0", "unzlib"}
				for i := 0; i < 2; i++ {
					m.do(all[c.Choose(len(all))])
				}
			}},
			{Name: "writer-hook-closes", Bound: "a line hook closes the writer (and keeps, drops or fails the line), then every operation", Run: func(c *C) {
				m := newWsys(c, 16)
				if c.Bool() {
					m.do("line:3")
				}
				v := c.Choose(3)
				if c.Bool() {
					m.w.Timeout = m.timeout
				}
				m.w.OnLine(func(line []byte) (bool, error) {
					m.w.Close()
					m.closed = true
					return v != 1, []error{nil, nil, errHook}[v]
				})
				err := m.w.WriteLine([]byte("abc|"))
				c.Op()
				if v != 1 {
					c.Assert(err != nil, "line written to a closed writer")
				}
				m.complete("close", false)
				all := []string{"close", "line:3", "raw:2", "flush", "zlib:0", "unzlib"}
				m.do(all[c.Choose(len(all))])
			}},
			{Name: "reader", Bound: "streams with plain and compressed content, all sequences of up to 4 operations (line, raw read, raw section, zlib), close, then all sequences of 2 further operations including reads of an open section", Run: func(c *C) {
				content := []byte("ab|cd|ef|")
				wire := append([]byte("one|Z|"), deflate(content, zlib.HuffmanOnly, 3)...)
				wire = append(wire, "tail|x"...)
				s := &src{c: c, data: wire, useCuts: true}
				if c.Bool() {
					s.cuts = []int{2, 5, 8, 14}
				}
				r := lineproto.NewReader(s, '|')
				var br io.ReadCloser
				for i := 0; i < 4; i++ {
					k := c.Choose(5)
					if k == 0 {
						break
					}
					switch k {
					case 1:
						line, err := r.ReadLine()
						c.Logf("ReadLine() = %q, %v", line, err)
						if string(line) == "Z|" {
							_ = r.EnableZlib() // fails after a failed attempt on a plain stream
						}
					case 2:
						r.Read(make([]byte, 2))
					case 3:
						b, err := r.Binary(5)
						if err == nil {
							br = b
							br.Read(make([]byte, 1))
						}
					case 4:
						_ = r.EnableZlib() // may fail
					}
					c.Op()
				}
				check := func() {
					reads := s.reads
					var err error
					switch c.Choose(7) {
					case 0:
						var line []byte
						line, err = r.ReadLine()
						c.Assert(len(line) == 0, "ReadLine on a closed reader gives %q", line)
					case 1:
						var n int
						n, err = r.Read(make([]byte, 3))
						c.Assert(n == 0, "Read on a closed reader gives %d bytes", n)
					case 2:
						_, err = r.Binary(4)
					case 3:
						err = r.EnableZlib()
					case 4:
						if br == nil {
							return
						}
						var n int
						n, err = br.Read(make([]byte, 3))
						c.Assert(n == 0, "reading an open section of a closed reader gives %d bytes", n)
						if err == nil {
							c.Fail("reading an open section of a closed reader succeeds")
						}
					case 5:
						if br == nil {
							return
						}
						br.Close()
						err = errBoom // harmless
					case 6:
						r.Close() // again
						err = errBoom
					}
					c.Op()
					c.Assert(err != nil, "operation on a closed reader succeeded")
					c.Assert(s.reads == reads, "operation on a closed reader touched the connection")
				}
				reads := s.reads
				c.Assert(r.Close() == nil, "Close")
				c.Assert(s.reads == reads, "closing a reader reads from the connection")
				check()
				check()
				c.StateS(fmt.Sprint(s.pos))
			}},
			{Name: "reader-hook-closes", Bound: "a line hook closes the reader (and keeps, drops or fails the line)", Run: func(c *C) {
				s := &src{c: c, data: []byte("a|b|c|")}
				r := lineproto.NewReader(s, '|')
				v := c.Choose(3)
				at := 1 + c.Choose(2)
				n := 0
				r.OnLine(func(line []byte) (bool, error) {
					n++
					if n == at {
						r.Close()
						return v != 1, []error{nil, nil, errHook}[v]
					}
					return true, nil
				})
				for i := 0; i < at; i++ {
					_, err := r.ReadLine()
					c.Op()
					if i == at-1 && v != 0 {
						c.Assert(err != nil, "reader closed by the hook: no error")
					}
				}
				_, err := r.ReadLine()
				c.Assert(err != nil, "closed reader delivers a line")
			}},
			{Name: "protocol-readers", Bound: "NMDC and ADC readers: 0-2 messages (optionally compressed), close, every read operation", Run: func(c *C) {
				n := c.Choose(3)
				if c.Bool() {
					r := nmdc.NewReader(&src{c: c, data: []byte("$Hello a|$Hello b|$Hello c|"), useCuts: true})
					for i := 0; i < n; i++ {
						_, err := r.ReadMsg()
						c.Assert(err == nil, "ReadMsg: %v", err)
					}
					c.Assert(r.Close() == nil, "Close")
					var err error
					switch c.Choose(4) {
					case 0:
						_, err = r.ReadMsg()
					case 1:
						err = r.ReadMsgTo(&nmdc.Hello{})
					case 2:
						_, err = r.ReadMsgToAny(&nmdc.Hello{}, &nmdc.Quit{})
					case 3:
						err = r.EnableZlib()
					}
					c.Op()
					c.Assert(err != nil, "operation on a closed reader succeeded")
					c.Assert(r.Close() == nil, "second Close")
				} else {
					r := adc.NewReader(&src{c: c, data: []byte("IMSG a\nIMSG b\nIMSG c\n"), useCuts: true})
					for i := 0; i < n; i++ {
						_, err := r.ReadPacket()
						c.Assert(err == nil, "ReadPacket: %v", err)
					}
					c.Assert(r.Close() == nil, "Close")
					var err error
					switch c.Choose(4) {
					case 0:
						_, err = r.ReadPacket()
					case 1:
						_, err = r.ReadPacketRaw()
					case 2:
						_, err = r.ReadInfo()
					case 3:
						_, err = r.ReadClient()
					}
					c.Op()
					c.Assert(err != nil, "operation on a closed reader succeeded")
					c.Assert(r.Close() == nil, "second Close")
				}
				c.StateS(fmt.Sprint(n))
			}},
			{Name: "protocol-writers", Bound: "NMDC and ADC writers: 0-2 messages (optionally compressed), close, every write operation", Run: func(c *C) {
				m := &wsys{c: c, sink: &sink{c: c}, secs: []section{{}}}
				n := c.Choose(3)
				z := c.Bool()
				var again func() error
				if c.Bool() {
					w := nmdc.NewWriter(m.sink)
					m.w = w.Writer
					if z {
						c.Assert(w.ZOnLevel(0) == nil, "ZOn")
						m.add([]byte("$ZOn|"))
						m.secs = append(m.secs, section{comp: true})
						m.comp = true
					}
					for i := 0; i < n; i++ {
						c.Assert(w.WriteMsg(&nmdc.Hello{Name: "a"}) == nil, "WriteMsg")
						m.add([]byte("$Hello a|"))
					}
					again = func() error {
						switch c.Choose(5) {
						case 0:
							return w.WriteMsg(&nmdc.Hello{Name: "a"})
						case 1:
							return w.ZOn()
						case 2:
							return w.WriteKeepAlive()
						case 3:
							return w.WriteMsg()
						}
						w.Close()
						return w.Flush()
					}
				} else {
					w := adc.NewWriter(m.sink)
					m.w = w.Writer
					if z {
						c.Assert(w.EnableZlibLevel(0) == nil, "EnableZlib")
						m.secs = append(m.secs, section{comp: true})
						m.comp = true
					}
					st := w.InfoStream()
					for i := 0; i < n; i++ {
						c.Assert(st.WriteMessage(adc.ChatMessage{Text: "a"}) == nil, "WriteMessage")
						m.add([]byte("IMSG a\n"))
					}
					again = func() error {
						switch c.Choose(4) {
						case 0:
							return w.WriteInfo(adc.ChatMessage{Text: "a"})
						case 1:
							return st.WriteMessage(adc.ChatMessage{Text: "b"})
						case 2:
							return st.Flush()
						}
						w.Close()
						return w.WriteKeepAlive()
					}
				}
				m.do("close")
				before := m.sink.buf.Len()
				err := again()
				c.Op()
				c.Assert(err != nil, "operation on a closed writer succeeded")
				c.Assert(m.sink.buf.Len() == before, "operation on a closed writer wrote")
			}},
		}
	})
}
