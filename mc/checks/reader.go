package checks

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math"
	"sync"

	"github.com/direct-connect/go-dc/lineproto"
)

// nextLine is the reference: the next delimiter-terminated segment.
func nextLine(data []byte, pos int, delim byte) ([]byte, bool) {
	i := bytes.IndexByte(data[pos:], delim)
	if i < 0 {
		return data[pos:], false
	}
	return data[pos : pos+i+1], true
}

// readLines reads all lines and compares them with the reference.
func readLines(c *C, r *lineproto.Reader, data []byte, delim byte, end error) {
	pos := 0
	for {
		want, ok := nextLine(data, pos, delim)
		line, err := r.ReadLine()
		c.Op()
		c.Logf("ReadLine() = %s, %v", clip(line), err)
		if !ok {
			c.Assert(err != nil, "unterminated remainder %s returned as a line %s", clip(want), clip(line))
			c.Assert(err == end, "wrong error at the end of the stream: %v, want %v", err, end)
			c.Assert(len(line) == 0 || bytes.Equal(line, want), "with the final error got %s, unterminated remainder is %s", clip(line), clip(want))
			c.State([]byte(fmt.Sprint(pos, string(want))))
			return
		}
		c.Assert(err == nil, "line %s at offset %d: unexpected error %v", clip(want), pos, err)
		c.Assert(bytes.Equal(line, want), "wrong line at offset %d: got %s, want %s", pos, clip(line), clip(want))
		c.State(line)
		pos += len(want)
	}
}

func init() {
	register("C01", []string{
		"a transport never answers (0, nil) forever",
		"lines within the length limit (the limit itself is C04)",
	}, func(th bool) []S {
		maxLen, zl := 6, 4
		if th {
			maxLen, zl = 8, 6
		}
		return []S{
			{Name: "short-streams", Bound: fmt.Sprintf("all streams of length <= %d over {delimiter, other delimiter, letter}, 2 delimiters, every fragmentation, 2 end-of-stream styles, 2 final errors", maxLen), Run: func(c *C) {
				delim := "|\n"[c.Choose(2)]
				data := chooseBytes(c, "|\nx", 0, maxLen)
				s := &src{c: c, data: data, withData: c.Bool()}
				if c.Bool() {
					s.end = errBoom
				}
				r := lineproto.NewReader(s, delim)
				c.Logf("stream %q delim %q end %v withData %v", data, delim, s.endErr(), s.withData)
				readLines(c, r, data, delim, s.endErr())
				// the end of the stream is stable
				line, err := r.ReadLine()
				c.Assert(err == s.endErr() && len(line) == 0, "after the end: got %s, %v", clip(line), err)
			}},
			{Name: "empty-reads", Bound: fmt.Sprintf("streams of length <= %d over {delimiter, letter}, every fragmentation, up to 3 empty reads anywhere", zl), Run: func(c *C) {
				data := chooseBytes(c, "|x", 0, zl)
				c.SetDeviations(3)
				s := &src{c: c, data: data, withData: c.Bool(), zero: true}
				r := lineproto.NewReader(s, '|')
				c.Logf("stream %q", data)
				readLines(c, r, data, '|', io.EOF)
			}},
			{Name: "lines-and-raw-reads", Bound: fmt.Sprintf("streams of length <= %d over {delimiter, letters}, every sequence of line reads and raw reads of 1, 2 or 9 bytes, every fragmentation", zl+1), Run: func(c *C) {
				n := c.Choose(zl + 2)
				data := make([]byte, n)
				for i := range data {
					data[i] = "|a"[c.Choose(2)]
					if data[i] == 'a' {
						data[i] += byte(i) // make positions distinguishable
					}
				}
				s := &src{c: c, data: data, withData: c.Bool()}
				r := lineproto.NewReader(s, '|')
				c.Logf("stream %q", data)
				mixedReads(c, r, data, io.EOF, []int{1, 2, 9})
			}},
			{Name: "delimiter-values", Bound: "all 256 byte values as delimiter and as neighbouring content", Run: func(c *C) {
				delim := byte(c.Choose(256))
				o := byte(c.Choose(256))
				data := []byte{o, delim, delim, o, o, delim, o}
				s := &src{c: c, data: data, sizes: []int{0, 1, 3}, dev: true}
				c.SetDeviations(1)
				r := lineproto.NewReader(s, delim)
				readLines(c, r, data, delim, io.EOF)
			}},
			{Name: "buffer-boundaries", Bound: "1-3 lines with lengths around multiples of the read buffer (2048), read sizes {full, 1, 2, 2047, full-1}, up to 3 deviations", Run: func(c *C) {
				lens := []int{1, 2, 2046, 2047, 2048, 2049, 4095, 4096, 4097}
				var data []byte
				k := 1 + c.Choose(3)
				for i := 0; i < k; i++ {
					n := lens[c.Choose(len(lens))]
					data = append(data, pattern(n-1, i)...)
					data = append(data, '|')
				}
				if c.Bool() {
					data = append(data, "rest"...)
				}
				dev := 2
				if th {
					dev = 4
				} else if k == 3 {
					dev = 1
				}
				c.SetDeviations(dev)
				s := &src{c: c, data: data, sizes: []int{0, 1, 2, 2047, -1}, dev: true, withData: c.Bool()}
				r := lineproto.NewReader(s, '|')
				readLines(c, r, data, '|', io.EOF)
			}},
			{Name: "boundary-raw-reads", Bound: "lines and raw reads with sizes around the read buffer, up to 2 read-size deviations", Run: func(c *C) {
				lens := []int{1, 5, 2047, 2048, 2049}
				var data []byte
				for i := 0; i < 2; i++ {
					data = append(data, pattern(lens[c.Choose(len(lens))]-1, i)...)
					data = append(data, '|')
				}
				c.SetDeviations(1)
				if th {
					c.SetDeviations(3)
				}
				s := &src{c: c, data: data, sizes: []int{0, 1, 2047}, dev: true}
				r := lineproto.NewReader(s, '|')
				pre := pickInt(c, 0, 3)
				if pre > 0 {
					b := make([]byte, pre)
					_, err := io.ReadFull(readerFunc(r.Read), b[:min(pre, len(data))])
					c.Assert(err == nil && bytes.HasPrefix(data, b[:min(pre, len(data))]), "first raw read: %q %v", b, err)
					data = data[min(pre, len(data)):]
				}
				mixedReads(c, r, data, io.EOF, []int{1500, 2048, 5000})
			}},
			{Name: "raw-read-errors", Bound: "streams of length <= 4, lines and raw reads, transport fails after the last byte", Run: func(c *C) {
				data := chooseBytes(c, "|x", 0, 4)
				s := &src{c: c, data: data, withData: c.Bool(), end: errBoom}
				r := lineproto.NewReader(s, '|')
				c.Logf("stream %q", data)
				mixedReads(c, r, data, errBoom, []int{1, 3})
			}},
		}
	})
}

// mixedReads explores every sequence of line reads and raw reads until the
// logical stream is exhausted.
func mixedReads(c *C, r *lineproto.Reader, data []byte, end error, sizes []int) {
	pos := 0
	for steps := 0; ; steps++ {
		op := c.Choose(1 + len(sizes))
		c.Op()
		if op == 0 {
			want, ok := nextLine(data, pos, '|')
			line, err := r.ReadLine()
			c.Logf("ReadLine() = %s, %v", clip(line), err)
			if !ok {
				c.Assert(err == end, "ReadLine at offset %d of %d: got %s, %v, want error %v", pos, len(data), clip(line), err, end)
				c.Assert(len(line) == 0 || bytes.Equal(line, want), "with the final error got %s, unterminated remainder is %s", clip(line), clip(want))
				return
			}
			c.Assert(err == nil && bytes.Equal(line, want), "ReadLine at offset %d: got %s, %v, want %s", pos, clip(line), err, clip(want))
			c.State(line)
			pos += len(want)
			continue
		}
		buf := make([]byte, sizes[op-1])
		n, err := r.Read(buf)
		c.Logf("Read(%d) = %s, %v", len(buf), clip(buf[:n]), err)
		c.Assert(n <= len(data)-pos && bytes.Equal(buf[:n], data[pos:pos+n]), "Read(%d) at offset %d: got %s, next bytes are %s", len(buf), pos, clip(buf[:n]), clip(data[pos:]))
		pos += n
		if err != nil {
			c.Assert(err == end, "Read at offset %d: error %v, want %v", pos, err, end)
			c.Assert(pos == len(data), "Read reported %v at offset %d of %d", err, pos, len(data))
			return
		}
		c.Assert(n > 0, "Read(%d) made no progress at offset %d of %d", len(buf), pos, len(data))
		c.State(buf[:n])
	}
}

// ---------------------------------------------------------------- C02

type zblock struct {
	plain   []byte // lines before the switch (the last one is the marker)
	content []byte
	level   int
	flush   []int
}

const zmark = "Z|"

// readSwitching reads lines, enabling compression after every marker line.
// It returns the number of bytes delivered and the first error.
func readSwitching(c *C, r *lineproto.Reader, onLine func(line []byte)) error {
	for {
		line, err := r.ReadLine()
		c.Op()
		c.Logf("ReadLine() = %s, %v", clip(line), err)
		if err != nil {
			return err
		}
		onLine(line)
		if string(line) == zmark {
			err = r.EnableZlib()
			c.Op()
			c.Logf("EnableZlib() = %v", err)
			if err != nil {
				return err
			}
		}
	}
}

func buildBlocks(bl []zblock, tail []byte) (wire, logical []byte, spans [][2]int) {
	for _, b := range bl {
		wire = append(wire, b.plain...)
		wire = append(wire, zmark...)
		logical = append(logical, b.plain...)
		logical = append(logical, zmark...)
		st := len(wire)
		wire = append(wire, deflate(b.content, b.level, b.flush...)...)
		spans = append(spans, [2]int{st, len(wire)})
		logical = append(logical, b.content...)
	}
	wire = append(wire, tail...)
	logical = append(logical, tail...)
	return
}

var zcontents = []string{"", "a|", "ab|c|", "|", "ab", "abcabcabcabcabc|", "a|\x00\xff|b"}
var zlevels = []int{zlib.DefaultCompression, zlib.HuffmanOnly, zlib.NoCompression, zlib.BestSpeed, zlib.BestCompression}

func init() {
	register("C02", []string{"compressed sections are zlib streams as produced by compress/zlib", "the peer's switch points are announced by the preceding line, as in both protocols"}, func(th bool) []S {
		check := func(c *C, s *src, wire, logical []byte) {
			r := lineproto.NewReader(s, '|')
			c.Logf("wire %q, logical %q", wire, logical)
			pos := 0
			err := readSwitching(c, r, func(line []byte) {
				want, ok := nextLine(logical, pos, '|')
				c.Assert(ok && bytes.Equal(line, want), "wrong line at offset %d: got %s, want %s", pos, clip(line), clip(want))
				pos += len(want)
				c.State(line)
			})
			_, ok := nextLine(logical, pos, '|')
			c.Assert(!ok, "reading stopped with %v before line at offset %d (%s)", err, pos, clip(logical[pos:]))
			c.Assert(err == s.endErr(), "final error %v, want %v", err, s.endErr())
		}
		scs := []S{
			{Name: "one-section-two-cuts", Bound: "1 section, 7 contents, 5 levels, 3 flush patterns, 3 tails, all pairs of cut points", Run: func(c *C) {
				content := []byte(zcontents[c.Choose(len(zcontents))])
				b := zblock{content: content, level: zlevels[c.Choose(len(zlevels))]}
				switch c.Choose(3) {
				case 1:
					b.flush = []int{1}
				case 2:
					b.flush = []int{0, len(content)}
				}
				wire, logical, _ := buildBlocks([]zblock{b}, []byte([]string{"", "p|", "pq|r"}[c.Choose(3)]))
				step := 1
				if !th {
					step = 2
				}
				c1 := c.Choose(len(wire))
				c2 := 0
				if c1 > 0 {
					c2 = c1 + c.Choose((len(wire)-c1+step-1)/step)*step
				}
				s := &src{c: c, data: wire, cuts: []int{c1, c2}, useCuts: true, withData: c.Bool()}
				check(c, s, wire, logical)
			}},
			{Name: "two-sections-one-cut", Bound: "2 sections x (5 contents, 2 levels) each, plain lines between, all single cut points or byte-by-byte delivery", Run: func(c *C) {
				var bl []zblock
				for i := 0; i < 2; i++ {
					b := zblock{content: []byte(zcontents[c.Choose(5)]), level: zlevels[c.Choose(2)]}
					if i == 1 && c.Bool() {
						b.plain = []byte("q|")
					}
					bl = append(bl, b)
				}
				// an unterminated section would glue to the next marker; close it
				if n := len(bl[0].content); n > 0 && bl[0].content[n-1] != '|' {
					bl[1].plain = append([]byte("x|"), bl[1].plain...)
				}
				wire, logical, _ := buildBlocks(bl, []byte([]string{"", "t|"}[c.Choose(2)]))
				k := c.Choose(len(wire) + 1)
				s := &src{c: c, data: wire, useCuts: true, cuts: []int{k}}
				if k == len(wire) {
					s.cuts = nil
					for i := range wire {
						s.cuts = append(s.cuts, i)
					}
				}
				check(c, s, wire, logical)
			}},
			{Name: "three-sections", Bound: "3 sections x 4 contents x 2 levels, whole/byte-by-byte/7-byte delivery, reader reuse", Run: func(c *C) {
				var bl []zblock
				for i := 0; i < 3; i++ {
					bl = append(bl, zblock{content: []byte(zcontents[c.Choose(4)]), level: zlevels[c.Choose(2)]})
				}
				wire, logical, _ := buildBlocks(bl, []byte("end|"))
				s := &src{c: c, data: wire, useCuts: true, withData: c.Bool()}
				step := []int{1 << 20, 1, 7}[c.Choose(3)]
				for i := 0; i < len(wire); i += step {
					s.cuts = append(s.cuts, i)
				}
				check(c, s, wire, logical)
			}},
			{Name: "empty-reads", Bound: "1 section, 4 contents, every cut position preceded by an empty read", Run: func(c *C) {
				b := zblock{content: []byte(zcontents[c.Choose(4)]), level: zlevels[c.Choose(3)]}
				wire, logical, _ := buildBlocks([]zblock{b}, []byte("t|"))
				k := 1 + c.Choose(len(wire)-1)
				s := &zeroSrc{src: src{c: c, data: wire, useCuts: true, cuts: []int{k}}, at: k}
				if c.Bool() { // byte by byte, and an empty read at k
					for i := range wire {
						s.cuts = append(s.cuts, i)
					}
				}
				r := lineproto.NewReader(s, '|')
				c.Logf("wire %q, empty read before offset %d", wire, k)
				pos := 0
				err := readSwitching(c, r, func(line []byte) {
					want, _ := nextLine(logical, pos, '|')
					c.Assert(bytes.Equal(line, want), "wrong line at offset %d: got %s, want %s", pos, clip(line), clip(want))
					pos += len(want)
				})
				c.Assert(err == io.EOF && pos == len(logical), "stopped at %d of %d with %v", pos, len(logical), err)
			}},
			{Name: "raw-reads-across-sections", Bound: "1-2 sections, contents <= 15 bytes, every sequence of line and raw reads (1, 4, 64 bytes) after the switch, whole or byte-by-byte delivery", Run: func(c *C) {
				content := []byte(zcontents[c.Choose(6)])
				wire := deflate(content, zlevels[c.Choose(2)], 1)
				tail := []byte([]string{"", "p|q", "|"}[c.Choose(3)])
				logical := append(append([]byte{}, content...), tail...)
				wire = append(wire, tail...)
				s := &src{c: c, data: wire, useCuts: true, withData: c.Bool()}
				if c.Bool() {
					for i := range wire {
						s.cuts = append(s.cuts, i)
					}
				}
				r := lineproto.NewReader(s, '|')
				err := r.EnableZlib()
				c.Assert(err == nil, "EnableZlib: %v", err)
				c.Logf("logical %q", logical)
				if len(logical) > 9 {
					mixedReads(c, r, logical, io.EOF, []int{4, 64})
				} else {
					mixedReads(c, r, logical, io.EOF, []int{1, 4, 64})
				}
			}},
			{Name: "long-sections", Bound: "content lengths around the read buffer (2047..2049, 4095..4097, 70000), 3 levels, read sizes {full,1,2047} with up to 2 deviations, lines then plain tail", Run: func(c *C) {
				n := pickInt(c, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 6000)
				content := append(pattern(n-1, 1), '|')
				if c.Bool() {
					content[n/2] = '|'
				}
				b := zblock{content: content, level: zlevels[c.Choose(3)]}
				tail := append(pattern(pickInt(c, 0, 1, 2048), 2), '|')
				wire, logical, _ := buildBlocks([]zblock{b}, tail)
				c.SetDeviations(1)
				if th {
					c.SetDeviations(2)
				}
				s := &src{c: c, data: wire, sizes: []int{0, 1, 2047}, dev: true, withData: c.Bool()}
				check(c, s, wire, logical)
			}},
			{Name: "truncation", Bound: "1-2 sections, 6 contents, 5 levels, 2 flush patterns, cut off after every byte inside a compressed section (connection ends or fails), whole or byte-by-byte delivery", Run: func(c *C) {
				content := []byte(zcontents[c.Choose(6)])
				b := zblock{content: content, level: zlevels[c.Choose(len(zlevels))]}
				if c.Bool() {
					b.flush = []int{len(content)}
				}
				bl := []zblock{b}
				if c.Bool() {
					bl = []zblock{{content: []byte("k|")}, b}
				}
				wire, logical, spans := buildBlocks(bl, nil)
				sp := spans[len(spans)-1]
				cut := sp[0] + c.Choose(sp[1]-sp[0])
				s := &src{c: c, data: wire[:cut], useCuts: true, withData: c.Bool()}
				if c.Bool() {
					s.end = errBoom
				}
				if c.Bool() {
					for i := range wire {
						s.cuts = append(s.cuts, i)
					}
				}
				r := lineproto.NewReader(s, '|')
				c.Logf("truncated wire %q", s.data)
				pos := 0
				err := readSwitching(c, r, func(line []byte) {
					want, ok := nextLine(logical, pos, '|')
					c.Assert(ok && bytes.Equal(line, want), "wrong line %s, want %s", clip(line), clip(want))
					pos += len(want)
				})
				c.Assert(err != nil && err != io.EOF, "compressed section cut off at byte %d of %d was reported as a clean end (%v) after %d of %d bytes", cut-sp[0], sp[1]-sp[0], err, pos, len(logical))
				c.StateS(fmt.Sprint(pos, err))
			}},
			{Name: "truncation-raw", Bound: "as truncation, reading raw bytes", Run: func(c *C) {
				content := []byte(zcontents[c.Choose(6)])
				wire := deflate(content, zlevels[c.Choose(len(zlevels))], len(content))
				cut := c.Choose(len(wire))
				s := &src{c: c, data: wire[:cut], useCuts: true, withData: c.Bool()}
				r := lineproto.NewReader(s, '|')
				err := r.EnableZlib()
				k := pickInt(c, 1, 3, 64)
				pos := 0
				for steps := 0; err == nil; steps++ {
					buf := make([]byte, k)
					var n int
					n, err = r.Read(buf)
					c.Op()
					c.Logf("Read(%d) = %q, %v", k, buf[:n], err)
					c.Assert(n <= len(content)-pos && bytes.Equal(buf[:n], content[pos:pos+n]), "wrong bytes %q at %d", buf[:n], pos)
					pos += n
					c.Assert(steps < 200, "no progress")
				}
				c.Assert(err != io.EOF, "compressed section cut off at byte %d of %d was reported as a clean end", cut, len(wire))
			}},
			{Name: "corruption", Bound: "1 section (5 contents, 5 levels, 2 flush patterns), every byte of it replaced by every other value, followed by plain lines", Run: func(c *C) {
				content := []byte(zcontents[1+c.Choose(5)])
				b := zblock{content: content, level: zlevels[c.Choose(len(zlevels))]}
				if c.Bool() {
					b.flush = []int{len(content)}
				}
				wire, _, spans := buildBlocks([]zblock{b}, []byte("tail|"))
				sp := spans[0]
				k := sp[0] + c.Choose(sp[1]-sp[0])
				var v byte
				if th {
					v = byte(1 + c.Choose(255))
				} else {
					v = []byte{1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x55}[c.Choose(10)]
				}
				bad := append([]byte{}, wire...)
				bad[k] ^= v
				s := &src{c: c, data: bad, useCuts: true}
				r := lineproto.NewReader(s, '|')
				c.Logf("byte %d of the section ^= %#x: %q", k-sp[0], v, bad)
				var got []byte
				err := readSwitching(c, r, func(line []byte) { got = append(got, line...) })
				// what the inflater alone makes of the corrupted section
				rest := bytes.NewReader(bad[sp[0]:])
				var content2 []byte
				z, zerr := zlib.NewReader(rest)
				if zerr == nil {
					content2, zerr = io.ReadAll(z)
				}
				want := append([]byte(zmark), content2...)
				if zerr == nil {
					plain, _ := io.ReadAll(rest)
					want = append(want, plain...)
					c.Assert(err == io.EOF, "the section is still well-formed, but reading failed: %v", err)
				} else {
					c.Assert(err != nil && err != io.EOF, "corrupted section read without an error as %q", got)
				}
				if i := bytes.LastIndexByte(want, '|'); i >= 0 {
					want = want[:i+1]
				}
				c.Assert(bytes.Equal(got, want), "lines delivered from the corrupted stream: %q, want %q", got, want)
				c.StateS(err.Error())
			}},
			{Name: "double-enable", Bound: "enabling twice at every line of a section, then reading on; plain stream after it", Run: func(c *C) {
				content := []byte("a|b|c|")
				b := zblock{content: content, level: zlevels[c.Choose(len(zlevels))]}
				wire, logical, _ := buildBlocks([]zblock{b}, []byte("d|e|"))
				at := c.Choose(4) // after how many lines the extra call is made
				s := &src{c: c, data: wire, useCuts: true, withData: c.Bool()}
				if c.Bool() {
					for i := range wire {
						s.cuts = append(s.cuts, i)
					}
				}
				r := lineproto.NewReader(s, '|')
				pos, lines := 0, 0
				if at == 0 {
					// called right after the first enabling, below
				}
				for pos < len(logical) {
					want, _ := nextLine(logical, pos, '|')
					line, err := r.ReadLine()
					c.Op()
					c.Assert(err == nil && bytes.Equal(line, want), "got %s, %v, want %s", clip(line), err, clip(want))
					pos += len(want)
					if string(want) == zmark {
						c.Assert(r.EnableZlib() == nil, "EnableZlib refused")
						if at == 0 {
							c.Assert(r.EnableZlib() != nil, "second EnableZlib accepted")
						}
					}
					if pos > len(zmark) && pos < len(zmark)+len(content) {
						lines++
						if lines == at {
							c.Assert(r.EnableZlib() != nil, "EnableZlib inside a compressed section accepted")
						}
					}
				}
				_, err := r.ReadLine()
				c.Assert(err == io.EOF, "final error %v", err)
			}},
		}
		return scs
	})
}

// zeroSrc answers (0, nil) once before the given offset.
type zeroSrc struct {
	src
	at   int
	done bool
}

func (s *zeroSrc) Read(p []byte) (int, error) {
	if s.pos >= s.at && !s.done {
		s.done = true
		return 0, nil
	}
	return s.src.Read(p)
}

// ---------------------------------------------------------------- C03

// rawOps explores sequences of line reads and raw sections.
func rawOps(c *C, r *lineproto.Reader, data []byte, maxOps int, sizes []uint64, bufs []int) {
	pos := 0
	for op := 0; op < maxOps; op++ {
		k := c.Choose(1 + len(sizes))
		c.Op()
		if k == 0 {
			want, ok := nextLine(data, pos, '|')
			line, err := r.ReadLine()
			c.Logf("ReadLine() = %s, %v", clip(line), err)
			if !ok {
				c.Assert(err == io.EOF, "ReadLine past the last line: %s, %v", clip(line), err)
				return
			}
			c.Assert(err == nil && bytes.Equal(line, want), "ReadLine at offset %d: got %s, %v, want %s", pos, clip(line), err, clip(want))
			c.State(line)
			pos += len(want)
			continue
		}
		n := sizes[k-1]
		avail := uint64(len(data) - pos)
		want := n
		if want > avail {
			want = avail
		}
		br, err := r.Binary(n)
		c.Assert(err == nil, "Binary(%d): %v", n, err)
		c.Logf("Binary(%d) at offset %d", n, pos)
		got := uint64(0)
		ended := false
		for {
			// stop after any number of reads
			b := c.Choose(1 + len(bufs))
			if b == 0 {
				break
			}
			buf := make([]byte, bufs[b-1])
			m, err := br.Read(buf)
			c.Op()
			c.Logf("  Read(%d) = %s, %v", len(buf), clip(buf[:m]), err)
			c.Assert(uint64(m) <= want-got, "raw section of %d bytes (%d available) yielded more: %s after %d", n, avail, clip(buf[:m]), got)
			p := pos + int(got)
			c.Assert(bytes.Equal(buf[:m], data[p:p+m]), "raw section: wrong bytes at offset %d: %s, want %s", p, clip(buf[:m]), clip(data[p:p+m]))
			got += uint64(m)
			c.State(buf[:m])
			if err != nil {
				c.Assert(err == io.EOF, "raw section: %v", err)
				c.Assert(got == want, "raw section of %d bytes ended after %d of %d available bytes", n, got, avail)
				ended = true
				break
			}
			c.Assert(m > 0, "raw section made no progress with a buffer of %d", len(buf))
		}
		if ended {
			m, err := br.Read(make([]byte, 4))
			c.Assert(m == 0 && err == io.EOF, "end of section is not stable: %d, %v", m, err)
		}
		err = br.Close()
		c.Logf("  Close() = %v", err)
		c.Assert(err == nil || want < n, "closing a complete raw section: %v", err)
		pos += int(want)
		if want < n {
			line, err := r.ReadLine()
			c.Assert(err == io.EOF && len(line) == 0, "connection ended inside the section, then ReadLine gives %s, %v", clip(line), err)
			return
		}
	}
	// what follows starts exactly after the last operation
	want, ok := nextLine(data, pos, '|')
	line, err := r.ReadLine()
	if ok {
		c.Assert(err == nil && bytes.Equal(line, want), "line after the operations at offset %d: got %s, %v, want %s", pos, clip(line), err, clip(want))
	} else {
		c.Assert(err == io.EOF, "end of stream: %s, %v", clip(line), err)
	}
}

func init() {
	register("C03", []string{"the section is read to its end or closed before the next line is read, as documented"}, func(th bool) []S {
		depth := 2
		if th {
			depth = 3
		}
		mkdata := func(c *C, n int) []byte {
			data := make([]byte, n)
			for i := range data {
				data[i] = '|'
				if c.Bool() {
					data[i] = byte('a' + i)
				}
			}
			return data
		}
		huge := []uint64{math.MaxInt64 - 1, math.MaxInt64, 1 << 63, 1<<63 + 2, math.MaxUint64}
		return []S{
			{Name: "plain", Bound: fmt.Sprintf("streams of 5 bytes, %d operations (line or section of 0,1,2,4,9 bytes), buffers of 1,3,0 bytes, early close anywhere, every fragmentation", depth), Run: func(c *C) {
				data := mkdata(c, 5)
				s := &src{c: c, data: data, withData: c.Bool()}
				c.Logf("stream %q", data)
				rawOps(c, lineproto.NewReader(s, '|'), data, depth, []uint64{0, 1, 2, 4, 9}, []int{1, 3})
			}},
			{Name: "whole-delivery", Bound: "streams of 6 bytes delivered whole, 4 operations", Run: func(c *C) {
				data := mkdata(c, 6)
				s := &src{c: c, data: data, useCuts: true}
				c.Logf("stream %q", data)
				rawOps(c, lineproto.NewReader(s, '|'), data, 4, []uint64{0, 1, 3}, []int{2})
			}},
			{Name: "compressed", Bound: "content of 5 bytes inside a compressed section followed by 2 plain bytes, " + fmt.Sprint(depth) + " operations, whole or byte-by-byte delivery", Run: func(c *C) {
				data := []byte(pick(c, "ab|d|", "||c|e", "abcde"))
				if th {
					data = mkdata(c, 5)
				}
				tail := []byte("p|")
				wire := append(deflate(data, zlib.HuffmanOnly, 2), tail...)
				logical := append(append([]byte{}, data...), tail...)
				s := &src{c: c, data: wire, useCuts: true, withData: c.Bool()}
				if c.Bool() {
					for i := range wire {
						s.cuts = append(s.cuts, i)
					}
				}
				r := lineproto.NewReader(s, '|')
				c.Assert(r.EnableZlib() == nil, "EnableZlib")
				c.Logf("stream %q", logical)
				rawOps(c, r, logical, depth, []uint64{0, 1, 3, 6, 20}, []int{1, 9})
			}},
			{Name: "huge-sections", Bound: "sections of 2^63-2 .. 2^64-1 bytes on a short stream", Run: func(c *C) {
				data := mkdata(c, 4)
				s := &src{c: c, data: data}
				c.Logf("stream %q", data)
				rawOps(c, lineproto.NewReader(s, '|'), data, 2, huge, []int{2})
			}},
			{Name: "around-buffer", Bound: "a line then a section of 2047..4097 bytes then a line; read sizes and transport sizes with up to 2 deviations", Run: func(c *C) {
				l1 := append(pattern(pickInt(c, 1, 2000, 2046, 2047, 2048), 1), '|')
				n := pickInt(c, 1, 47, 2047, 2048, 2049, 4096, 4097)
				data := append(append([]byte{}, l1...), pattern(n, 2)...)
				data = append(data, "next|rest"...)
				comp := c.Bool()
				wire := data
				if comp {
					wire = deflate(data, zlib.BestSpeed)
				}
				c.SetDeviations(1)
				if th {
					c.SetDeviations(3)
				}
				s := &src{c: c, data: wire, sizes: []int{0, 1, 2047, 512}, dev: true}
				r := lineproto.NewReader(s, '|')
				if comp {
					c.Assert(r.EnableZlib() == nil, "EnableZlib")
				}
				line, err := r.ReadLine()
				c.Assert(err == nil && bytes.Equal(line, l1), "first line: %s %v", clip(line), err)
				br, err := r.Binary(uint64(n))
				c.Assert(err == nil, "Binary: %v", err)
				stop := n
				if c.Bool() {
					stop = n / 2
				}
				bs := pickInt(c, 4096, 1000, 3)
				var got []byte
				for len(got) < stop {
					b := make([]byte, bs)
					m, err := br.Read(b)
					c.Op()
					got = append(got, b[:m]...)
					c.Assert(err == nil || err == io.EOF && len(got) == n, "section read: %v after %d of %d", err, len(got), n)
					if err != nil {
						break
					}
				}
				c.Assert(len(got) <= n && bytes.Equal(got, data[len(l1):len(l1)+len(got)]), "wrong section content (%d bytes)", len(got))
				if len(got) == n {
					m, err := br.Read(make([]byte, 1))
					c.Assert(m == 0 && err == io.EOF, "section did not end: %d %v", m, err)
				}
				c.Assert(br.Close() == nil, "close")
				line, err = r.ReadLine()
				c.Assert(err == nil && string(line) == "next|", "line after section: %s %v", clip(line), err)
				c.StateS(fmt.Sprint(n, stop, bs, comp))
			}},
			{Name: "large", Bound: "sections of 9 sizes between 32 KiB and 300 KB, plain or compressed, x 6 amounts read before the close x 3 delivery sizes; then lines and another section", Run: func(c *C) {
				n := pickInt(c, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131073, 300000)
				var data []byte
				data = append(data, "first|"...)
				if c.Bool() {
					data = append(data, bytes.Repeat([]byte("|"), n)...)
				} else {
					data = append(data, pattern(n, 3)...)
				}
				data = append(data, "next|xyzlast|"...)
				wire := data
				comp := c.Bool()
				if comp {
					wire = deflate(data, zlib.BestSpeed)
				}
				s := &src{c: c, data: wire, useCuts: true}
				if k := pickInt(c, 0, 1000, 4096); k != 0 {
					for i := k; i < len(wire); i += k {
						s.cuts = append(s.cuts, i)
					}
				}
				r := lineproto.NewReader(s, '|')
				if comp {
					c.Assert(r.EnableZlib() == nil, "EnableZlib")
				}
				line, err := r.ReadLine()
				c.Assert(err == nil && string(line) == "first|", "first line: %s %v", clip(line), err)
				br, err := r.Binary(uint64(n))
				c.Assert(err == nil, "Binary: %v", err)
				stop := pickInt(c, 0, 1, n/2, n-40000, n-1, n)
				if stop < 0 {
					c.Skip()
				}
				b := make([]byte, stop)
				m, err := io.ReadFull(br, b)
				c.Ops(3)
				c.Assert(err == nil && m == stop && bytes.Equal(b, data[6:6+stop]), "reading %d of %d bytes: %d, %v or wrong content", stop, n, m, err)
				err = br.Close()
				c.Assert(err == nil, "close after %d of %d bytes: %v", stop, n, err)
				line, err = r.ReadLine()
				c.Assert(err == nil && string(line) == "next|", "line after a section of %d bytes closed after %d: %s %v", n, stop, clip(line), err)
				br, err = r.Binary(3)
				c.Assert(err == nil, "Binary: %v", err)
				c.Assert(br.Close() == nil, "close")
				line, err = r.ReadLine()
				c.Assert(err == nil && string(line) == "last|", "last line: %s %v", clip(line), err)
				c.StateS(fmt.Sprint(n, stop, comp))
			}},
			{Name: "failing-transport", Bound: "streams of 4 bytes ending with a transport failure, sections of 1..9 bytes, every fragmentation: never more bytes than arrived, failure surfaces", Run: func(c *C) {
				data := mkdata(c, 4)
				s := &src{c: c, data: data, end: errBoom, withData: c.Bool()}
				r := lineproto.NewReader(s, '|')
				n := []int{1, 4, 5, 9}[c.Choose(4)]
				br, err := r.Binary(uint64(n))
				c.Assert(err == nil, "Binary")
				var got []byte
				bs := pickInt(c, 1, 8)
				for {
					b := make([]byte, bs)
					m, err := br.Read(b)
					c.Op()
					got = append(got, b[:m]...)
					c.Assert(len(got) <= n && len(got) <= len(data) && bytes.Equal(got, data[:len(got)]), "wrong bytes %q", got)
					if err == io.EOF {
						c.Assert(len(got) == n, "section of %d ended after %d", n, len(got))
						break
					}
					if err != nil {
						c.Assert(err == errBoom && len(got) == len(data), "error %v after %d bytes", err, len(got))
						break
					}
				}
				c.StateS(fmt.Sprint(n, len(got)))
			}},
		}
	})
}

// ---------------------------------------------------------------- C04

type endless struct {
	b        byte
	chunk    int
	consumed int
	limit    int
}

func (e *endless) Read(p []byte) (int, error) {
	n := len(p)
	if e.chunk > 0 && n > e.chunk {
		n = e.chunk
	}
	for i := 0; i < n; i++ {
		p[i] = e.b
	}
	e.consumed += n
	if e.consumed > e.limit {
		return 0, errBoom
	}
	return n, nil
}

func init() {
	register("C04", []string{"after a refused line the connection is not used further"}, func(th bool) []S {
		maxM, maxLine := 9, 11
		if th {
			maxM, maxLine = 12, 14
		}
		// expectLine: a stream of one line of n bytes in total, limit m
		expect := func(c *C, r *lineproto.Reader, m int, line []byte) {
			got, err := r.ReadLine()
			c.Op()
			c.Logf("limit %d, line of %d bytes: ReadLine() = %s, %v", m, len(line), clip(got), err)
			if m > 0 && len(line) > m {
				c.Assert(err != nil, "limit %d: line of %d bytes was accepted", m, len(line))
				c.Assert(err != io.EOF && err != io.ErrUnexpectedEOF, "limit %d: over-long line reported as %v", m, err)
				panicSkipRest()
			}
			c.Assert(err == nil && bytes.Equal(got, line), "limit %d: line of %d bytes refused or altered: %s, %v", m, len(line), clip(got), err)
		}
		return []S{
			{Name: "small-limits", Bound: fmt.Sprintf("limits -1..%d, lines of 1..%d bytes preceded and followed by another line, every fragmentation", maxM, maxLine), Run: func(c *C) {
				m := c.Choose(maxM+2) - 1
				var data []byte
				var lines [][]byte
				k := 1 + c.Choose(2)
				for i := 0; i < k; i++ {
					l := append(pattern(c.Choose(maxLine/k), i), '|')
					lines = append(lines, l)
					data = append(data, l...)
				}
				s := &src{c: c, data: data, withData: c.Bool()}
				r := lineproto.NewReader(s, '|')
				r.SetMaxLine(m)
				c.StateS(fmt.Sprint(m, len(data)))
				func() {
					defer stopHere()
					for _, l := range lines {
						expect(c, r, m, l)
					}
				}()
			}},
			{Name: "unterminated", Bound: "limits 1..6, unterminated data of 0..8 bytes, every fragmentation: refused once the limit is reached, end of stream otherwise", Run: func(c *C) {
				m := 1 + c.Choose(6)
				n := c.Choose(9)
				data := pattern(n, 1)
				s := &src{c: c, data: data, withData: c.Bool()}
				r := lineproto.NewReader(s, '|')
				r.SetMaxLine(m)
				line, err := r.ReadLine()
				c.Op()
				c.Logf("limit %d, %d unterminated bytes: %s, %v", m, n, clip(line), err)
				c.Assert(err != nil, "unterminated data returned as line %s", clip(line))
				if n < m {
					c.Assert(err == io.EOF, "limit %d, %d bytes: %v", m, n, err)
				}
				if n > m {
					c.Assert(err != io.EOF, "limit %d: %d unterminated bytes not refused", m, n)
				}
				c.StateS(fmt.Sprint(m, n, err))
			}},
			{Name: "limits-around-buffer", Bound: "limits and lines 2046..2050 and 4095..4097, default limit 32768 +-2, plain and compressed, up to 2 read-size deviations", Run: func(c *C) {
				ms := []int{2046, 2047, 2048, 2049, 4096}
				ns := []int{2045, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 4097}
				var m, n int
				if k := c.Choose(len(ms) + 1); k < len(ms) {
					m, n = ms[k], ns[c.Choose(len(ns))]
				} else {
					m, n = 0, 32766+c.Choose(5) // default
				}
				line := append(pattern(n-1, 3), '|')
				comp := c.Bool()
				wire := append([]byte{}, line...)
				pre := 0
				if c.Bool() { // another line first, so that the buffer is not aligned
					pre = 5
					wire = append([]byte("abcd|"), wire...)
				}
				if comp {
					wire = deflate(wire, zlevels[c.Choose(2)])
				}
				c.SetDeviations(2)
				if th {
					c.SetDeviations(3)
				}
				s := &src{c: c, data: wire, sizes: []int{0, 1, 2047, -1}, dev: true, withData: c.Bool()}
				r := lineproto.NewReader(s, '|')
				if m > 0 {
					r.SetMaxLine(m)
				} else {
					m = 32768
				}
				if comp {
					c.Assert(r.EnableZlib() == nil, "EnableZlib")
				}
				c.StateS(fmt.Sprint(m, n, comp, pre))
				func() {
					defer stopHere()
					if pre > 0 {
						expect(c, r, m, []byte("abcd|"))
					}
					expect(c, r, m, line)
				}()
			}},
			{Name: "no-limit", Bound: "limit 0 and -5: lines of 1..200000 bytes pass", Run: func(c *C) {
				m := -5 * c.Choose(2)
				n := pickInt(c, 1, 32768, 32769, 40000, 65536, 200000)
				line := append(pattern(n-1, 1), '|')
				s := &src{c: c, data: line, sizes: []int{0, 2047}, dev: true}
				c.SetDeviations(1)
				r := lineproto.NewReader(s, '|')
				r.SetMaxLine(m)
				expect(c, r, m, line)
			}},
			{Name: "changing-limit", Bound: "limit changed between two lines, both limits 1..5, lines 1..6, every fragmentation", Run: func(c *C) {
				m1, m2 := 1+c.Choose(5), 1+c.Choose(5)
				l1 := append(pattern(c.Choose(3), 1), '|')
				l2 := append(pattern(c.Choose(6), 2), '|')
				s := &src{c: c, data: append(append([]byte{}, l1...), l2...)}
				r := lineproto.NewReader(s, '|')
				r.SetMaxLine(m1)
				func() {
					defer stopHere()
					expect(c, r, m1, l1)
					r.SetMaxLine(m2)
					expect(c, r, m2, l2)
				}()
			}},
			{Name: "endless-line", Bound: "endless lines, plain with chunks {1, 7, 2048, max} and compressed (1 MB that deflates to about half), limits {1, 100, 2048, default, 100000}: bounded consumption", Run: func(c *C) {
				m := pickInt(c, 1, 100, 2048, 0, 100000)
				eff := m
				comp := c.Bool()
				var r *lineproto.Reader
				var consumed func() int
				if comp {
					// poorly compressible, so that the read buffer of the
					// implementation holds little of the line, whatever its size
					wire := endlessWire(c.Choose(2))
					s := &src{c: c, data: wire, useCuts: true}
					r = lineproto.NewReader(s, '|')
					c.Assert(r.EnableZlib() == nil, "EnableZlib")
					consumed = func() int { return s.consumed }
				} else {
					e := &endless{b: 'a', chunk: pickInt(c, 1, 7, 2048, 0), limit: 64 << 20}
					r = lineproto.NewReader(e, '|')
					consumed = func() int { return e.consumed }
				}
				if m > 0 {
					r.SetMaxLine(m)
				} else {
					eff = 32768
				}
				line, err := r.ReadLine()
				c.Op()
				c.Assert(err != nil && err != io.EOF && err != errBoom, "endless line: %s, %v", clip(line), err)
				slack := 128 << 10
				c.Assert(consumed() <= eff+slack, "limit %d: consumed %d bytes before refusing", eff, consumed())
				c.StateS(fmt.Sprint(m, comp))
			}},
		}
	})
}

// endlessWire is a compressed line of 1 MB without a delimiter.
func endlessWire(level int) []byte {
	endlessOnce.Do(func() {
		b := make([]byte, 1<<20)
		x := uint32(1)
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = 'a' + byte(x>>28)
		}
		for i := range endlessWires {
			endlessWires[i] = deflate(b, zlevels[1+2*i])
		}
	})
	return endlessWires[level]
}

var (
	endlessOnce  sync.Once
	endlessWires [2][]byte
)

type stopRest struct{}

func panicSkipRest() { panic(stopRest{}) }

func stopHere() {
	if e := recover(); e != nil {
		if _, ok := e.(stopRest); !ok {
			panic(e)
		}
	}
}

type readerFunc func(p []byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p) }
