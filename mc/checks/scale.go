package checks

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
)

// Sizes and counts around powers of two, far beyond what the other scenarios
// enumerate: lengths, list elements, messages and sections of one connection.

func init() {
	extend("C01", func(th bool) []S { return []S{longLines(th), manyLines(th)} })
	extend("C02", func(th bool) []S { return []S{manySections(th)} })
	extend("C03", func(th bool) []S { return []S{manyRaw(th)} })
	extend("C04", func(th bool) []S { return []S{hugeLimits()} })
	extend("C05", func(th bool) []S { return []S{manyWrites(th)} })
	extend("C09", func(th bool) []S { return []S{longFields(th), hugeLists()} })
	extend("C11", func(th bool) []S { return []S{manyMessages(th)} })
	extend("C15", func(th bool) []S { return []S{longLocks(th)} })
	extend("C16", func(th bool) []S { return []S{longPackets(th)} })
	extend("C17", func(th bool) []S { return []S{longADC(th), hugeADCLists()} })
	extend("C18", func(th bool) []S { return []S{manyPackets(th)} })
	extend("C20", func(th bool) []S { return []S{hugeLeaves(th)} })
	extend("C26", func(th bool) []S { return []S{manyFeatures()} })
}

// around lists sizes around powers of two.
func around(bits ...int) []int {
	var out []int
	for _, b := range bits {
		out = append(out, 1<<uint(b)-1, 1<<uint(b), 1<<uint(b)+1)
	}
	return out
}

func longLines(th bool) S {
	sizes := append(around(12, 13, 14, 15, 16, 17), 100000, 1<<20)
	delims := []byte{'|', '\n', 0, 0xff, '\r', ' ', 0x1f, 'a' - 32}
	return S{"long-lines", fmt.Sprintf("a line of each of %d lengths around powers of two up to 1 MB without limit, between two others, %d delimiters, read sizes all, 1 less, 4096, 1000 or 1", len(sizes), len(delims)), func(c *C) {
		n := sizes[c.Choose(len(sizes))]
		d := delims[c.Choose(len(delims))]
		size := []int{0, -1, 4096, 1000, 1}[c.Choose(5)]
		if size == 1 && n > 70000 {
			c.Skip()
		}
		line := bytes.Replace(pattern(n, 3), []byte{d}, []byte{'.'}, -1)
		line[n-1] = d
		data := append([]byte{'x', d}, line...)
		data = append(data, 'y', 'z', d)
		r := lineproto.NewReader(&tthSrc{data: data, size: size + (size>>63)&n, withData: c.Bool(), end: io.EOF}, d)
		r.SetMaxLine(0)
		readLines(c, r, data, d, io.EOF)
		c.StateS(fmt.Sprint(n, d, size))
	}}
}

func manyLines(th bool) S {
	n := 70000
	delims := []byte{'|', '\n', 0, 0xff, '\r', '\t', 0x1f, 'Z'}
	return S{"many-lines", fmt.Sprintf("%d lines of 1 to 7 bytes on one connection, plain and compressed, %d delimiters, read sizes all, 4096 or 100, with and without a limit of 7 bytes and line hooks", n, len(delims)), func(c *C) {
		d := delims[c.Choose(len(delims))]
		data := make([]byte, 0, n*5)
		lens := make([]int, n)
		for i := 0; i < n; i++ {
			l := 1 + i*5%7
			if i%3 == 2 {
				l = 1 + (i/7)%7
			}
			lens[i] = l
			for k := 1; k < l; k++ {
				data = append(data, "abcdefghijk"[(i+k)%11])
			}
			data = append(data, d)
		}
		wire := data
		comp := c.Bool()
		if comp {
			wire = deflate(data, 1)
		}
		r := lineproto.NewReader(&tthSrc{data: wire, size: pickInt(c, 0, 4096, 100), end: io.EOF}, d)
		hooks := 0
		if c.Bool() {
			r.SetMaxLine(7)
			r.OnLine(func(l []byte) (bool, error) { hooks++; return hooks%1000 != 999, nil })
		}
		if comp {
			c.Assert(r.EnableZlib() == nil, "EnableZlib")
		}
		pos, h := 0, 0
		for i, l := range lens {
			want := data[pos : pos+l]
			pos += l
			if h++; hooks > 0 && h%1000 == 999 {
				continue // dropped
			}
			got, err := r.ReadLine()
			if err != nil || !bytes.Equal(got, want) {
				c.Fail("line %d: %q, %v, want %q", i, got, err, want)
			}
		}
		c.Ops(n)
		got, err := r.ReadLine()
		c.Assert(err == io.EOF && len(got) == 0, "after the last line: %q, %v", got, err)
		c.StateS(fmt.Sprint(d, comp))
	}}
}

func manySections(th bool) S {
	n := 600
	if th {
		n = 70000
	}
	return S{"many-sections", fmt.Sprintf("%d compressed sections after each other on one connection, with and without plain lines between, read sizes all, 100 or 1", n), func(c *C) {
		plain := c.Bool()
		size := pickInt(c, 0, 100, 1)
		if th && size == 1 {
			c.Skip()
		}
		var wire []byte
		want := make([]string, 0, n*3)
		for i := 0; i < n; i++ {
			wire = append(wire, zmark...)
			want = append(want, zmark)
			l := fmt.Sprintf("section %d|", i)
			want = append(want, l)
			if i < 300 || i%100 == 0 {
				wire = append(wire, deflate([]byte(l), zlevels[i%len(zlevels)])...)
			} else {
				wire = append(wire, stored([]byte(l))...)
			}
			if plain {
				l := fmt.Sprintf("plain %d|", i)
				wire = append(wire, l...)
				want = append(want, l)
			}
		}
		k := 0
		r := lineproto.NewReader(&tthSrc{data: wire, size: size, end: io.EOF}, '|')
		err := readSwitching(c, r, func(l []byte) {
			c.Assert(k < len(want) && string(l) == want[k], "line %d is %q, want %q", k, l, want[min(k, len(want)-1)])
			k++
		})
		c.Assert(err == io.EOF && k == len(want), "after %d of %d lines: %v", k, len(want), err)
		c.StateS(fmt.Sprint(plain))
	}}
}

// stored is a zlib stream of one uncompressed block.
func stored(b []byte) []byte {
	x, y := uint32(1), uint32(0)
	for _, v := range b {
		x = (x + uint32(v)) % 65521
		y = (y + x) % 65521
	}
	n := len(b)
	out := append([]byte{0x78, 0x01, 1, byte(n), byte(n >> 8), ^byte(n), ^byte(n >> 8)}, b...)
	return append(out, byte(y>>8), byte(y), byte(x>>8), byte(x))
}

func manyRaw(th bool) S {
	n := 20000
	if th {
		n = 70000
	}
	return S{"many-raw", fmt.Sprintf("%d raw sections of 0 to 6 bytes and lines in turns on one connection, every section read to its end, half read or closed at once; and sections of lengths around 2^8, 2^12, 2^16 and 2^20 in a row", n), func(c *C) {
		var data []byte
		var lens []int
		long := c.Bool()
		if long {
			lens = append(around(8, 12, 16, 20), 0, 3, 1<<16)
		} else {
			for i := 0; i < n; i++ {
				lens = append(lens, i*3%7)
			}
		}
		for i, l := range lens {
			data = append(data, pattern(l, i%40)...)
			data = append(data, byte('a'+i%20), '|')
		}
		r := lineproto.NewReader(&tthSrc{data: data, size: pickInt(c, 0, 4096, 100), end: io.EOF}, '|')
		mode := c.Choose(4)
		pos := 0
		for i, l := range lens {
			br, err := r.Binary(uint64(l))
			c.Assert(err == nil, "section %d: %v", i, err)
			want := data[pos : pos+l]
			m := mode
			if mode == 3 {
				m = i % 3
			}
			switch m {
			case 0:
				got, err := io.ReadAll(br)
				c.Assert(err == nil && bytes.Equal(got, want), "section %d: %s, %v, want %s", i, clip(got), err, clip(want))
			case 1:
				got := make([]byte, l/2)
				_, err := io.ReadFull(br, got)
				c.Assert(err == nil && bytes.Equal(got, want[:l/2]), "half of section %d: %s, %v, want %s", i, clip(got), err, clip(want))
			}
			c.Assert(br.Close() == nil, "closing section %d", i)
			pos += l
			line, err := r.ReadLine()
			c.Assert(err == nil && bytes.Equal(line, data[pos:pos+2]), "line after section %d of %d bytes: %s, %v, want %s", i, l, clip(line), err, clip(data[pos:pos+2]))
			pos += 2
			c.Ops(4)
		}
		c.StateS(fmt.Sprint(long, mode))
	}}
}

func hugeLimits() S {
	limits := append(around(16, 17), -1, 0, 69999, 70000, 70001, -1<<31, math.MaxInt32)
	if math.MaxInt > math.MaxInt32 {
		one := 1
		limits = append(limits, one<<31, one<<32-1, one<<32, one<<32+1, one<<32+5, one<<40, math.MaxInt64, math.MinInt64, -one<<32, -one<<32+3)
	}
	sizes := append(around(15, 16, 17), 4, 6, 300, 69999, 70000, 70001, 200000)
	return S{"huge-limits", fmt.Sprintf("%d limits around powers of two up to the largest int, and negative ones, x %d line lengths, plain and compressed", len(limits), len(sizes)), func(c *C) {
		m := limits[c.Choose(len(limits))]
		n := sizes[c.Choose(len(sizes))]
		line := append(pattern(n-1, 3), '|')
		wire := line
		comp := c.Bool()
		if comp {
			wire = deflate(wire, 1)
		}
		r := lineproto.NewReader(&tthSrc{data: wire, size: pickInt(c, 0, 4096, 1000), end: io.EOF}, '|')
		r.SetMaxLine(m)
		if comp {
			c.Assert(r.EnableZlib() == nil, "EnableZlib")
		}
		got, err := r.ReadLine()
		c.Op()
		if m > 0 && n > m {
			c.Assert(err != nil && err != io.EOF && err != io.ErrUnexpectedEOF, "limit %d: line of %d bytes: %s, %v", m, n, clip(got), err)
		} else {
			c.Assert(err == nil && bytes.Equal(got, line), "limit %d: line of %d bytes: %s, %v", m, n, clip(got), err)
		}
		c.StateS(fmt.Sprint(m, n, comp))
	}}
}

func manyWrites(th bool) S {
	n := 70000
	return S{"many-writes", fmt.Sprintf("%d lines, raw writes and some flushes on one connection, buffers of 1, 16, 4096 and default size, plain or compressed, in one or in 2400 sections", n), func(c *C) {
		size := pickInt(c, 16, 1, 4096, 0)
		mode := c.Choose(3)
		var sink bytes.Buffer
		w := lineproto.NewWriterSize(&sink, size)
		secs := []section{{}}
		cur := func() *section { return &secs[len(secs)-1] }
		zlib := func() {
			if e := w.EnableZlibLevel(1); e != nil {
				c.Fail("EnableZlibLevel: %v", e)
			}
			secs = append(secs, section{comp: true})
		}
		total := n
		if mode == 2 {
			total = 12000
		}
		if mode == 1 {
			zlib()
		}
		for i := 0; i < total; i++ {
			b := []byte("abcdefghijk"[i%7:7+i%4] + "|")
			var err error
			if i%5 == 3 {
				_, err = w.Write(b)
			} else {
				err = w.WriteLine(b)
			}
			if err != nil {
				c.Fail("write %d: %v", i, err)
			}
			cur().data = append(cur().data, b...)
			if i%1000 == 501 {
				if e := w.Flush(); e != nil {
					c.Fail("flush after %d writes: %v", i, e)
				}
				if mode != 2 {
					continue
				}
				full, err := walkSections(sink.Bytes(), secs, cur().comp)
				c.Assert(err == nil && full, "after %d writes and a flush: %v", i, err)
			}
			if mode == 2 && i%5 == 0 {
				if cur().comp {
					if e := w.DisableZlib(); e != nil {
						c.Fail("DisableZlib: %v", e)
					}
					secs = append(secs, section{})
				} else {
					zlib()
				}
			}
		}
		c.Ops(total)
		if e := w.Close(); e != nil {
			c.Fail("Close: %v", e)
		}
		full, err := walkSections(sink.Bytes(), secs, false)
		c.Assert(err == nil && full, "after %d writes and closing: complete %v, %v", total, full, err)
		c.StateS(fmt.Sprint(size, mode))
	}}
}

// longTexts are long values of a text field, with a character that is escaped
// at the start, at the end, and everywhere.
func longTexts(sizes []int, esc string) []string {
	var out []string
	for _, n := range sizes {
		p := string(pattern(n, 3))
		out = append(out, p, esc+p[1:], p[1:]+esc, strings.Repeat(esc, n))
	}
	return out
}

func longFields(th bool) S {
	specs := nmdcSpecs()
	sizes := around(8, 9, 10, 12, 15, 16)
	vals := longTexts(sizes, "&")
	return S{"long-fields", fmt.Sprintf("every text and name field of %d message types holding texts of %d lengths around powers of two up to 64 KB, with 0, 1 or only escaped characters", len(specs), len(sizes)), func(c *C) {
		sp := specs[c.Choose(len(specs))]
		if sp.fields == 0 || sp.typ == "XRaw" || sp.typ == "Key" {
			c.Skip()
		}
		g := &ngen{c: c, deep: c.Choose(sp.fields), vals: vals, other: "Zz"}
		m, payload := sp.gen(g)
		g.skipIf(!g.used)
		orig := dumpMsg(m)
		got, err := nmdc.Marshal(nil, m)
		c.Ops(2)
		if g.bad {
			c.Assert(err != nil, "%s cannot be represented but was encoded as %s", clips(orig), clip(got))
			return
		}
		if g.free {
			return
		}
		want := nline(sp.typ, payload)
		c.Assert(err == nil && string(got) == want, "%s encodes to %s (%v), want %s", clips(orig), clip(got), err, clips(want))
		m2, err := readLong(got)
		c.Assert(err == nil && dumpMsg(m2) == orig, "%s decodes to %s (%v), want %s", clip(got), clips(dumpMsg(m2)), err, clips(orig))
		// on a connection, between two others
		r := nmdc.NewReader(io.MultiReader(strings.NewReader("$Hello a|"), bytes.NewReader(got), strings.NewReader("$Hello b|")))
		r.SetMaxLine(0)
		for i, want := range []string{dumpMsg(&nmdc.Hello{Name: "a"}), orig, dumpMsg(&nmdc.Hello{Name: "b"})} {
			m, err := r.ReadMsg()
			c.Op()
			c.Assert(err == nil && dumpMsg(m) == want, "message %d on a connection: %v, want %s", i, err, clips(want))
		}
		c.StateS(orig)
	}}
}

func hugeLists() S {
	sizes := append(around(6, 7, 8, 10, 12, 16), 70000)
	return S{"huge-lists", fmt.Sprintf("name, address, feature, host and path lists, and info extras, of %d lengths around powers of two up to 70000", len(sizes)), func(c *C) {
		n := sizes[c.Choose(len(sizes))]
		l := make([]string, n)
		for i := range l {
			l[i] = fmt.Sprint("n", i)
		}
		var m nmdc.Message
		want := ""
		switch c.Choose(7) {
		case 0:
			m, want = &nmdc.OpList{Names: l}, "$OpList "+strings.Join(l, "$$")+"$$|"
		case 1:
			m, want = &nmdc.BotList{Names: l}, "$BotList "+strings.Join(l, "$$")+"$$|"
		case 2:
			u := &nmdc.UserIP{}
			for _, s := range l {
				u.List = append(u.List, nmdc.UserAddress{Name: s, IP: "ip" + s})
			}
			m, want = u, "$UserIP "
			var b strings.Builder
			for _, s := range l {
				b.WriteString(s + " ip" + s + "$$")
			}
			want += b.String() + "|"
		case 3:
			m, want = &nmdc.Supports{Ext: l}, "$Supports "+strings.Join(l, " ")+"|"
		case 4:
			m, want = &nmdc.FailOver{Host: l}, "$FailOver "+strings.Join(l, ",")+"|"
		case 5:
			m, want = &nmdc.UserCommand{Typ: 1, Context: 3, Path: l, Command: "c"}, "$UserCommand 1 3 "+strings.Join(l, "\\")+" $c|"
		case 6:
			m, want = &nmdc.SR{From: "u", Path: l, IsDir: true, FreeSlots: 1, TotalSlots: 2, HubName: "h", HubAddress: "x"}, "$SR u "+strings.Join(l, "\\")+" 1/2\x05h (x)|"
		}
		d := dump(m)
		b, err := nmdc.Marshal(nil, m)
		c.Ops(2)
		c.Assert(err == nil && string(b) == want, "%d elements: %s encodes to %s, %v", n, clips(d), clip(b), err)
		m2, err := readLong(b)
		c.Assert(err == nil && dump(m2) == d, "%d elements: %s decodes to %s, %v", n, clip(b), clips(dump(m2)), err)
		c.StateS(fmt.Sprint(m.Type(), n))
	}}
}

func manyMessages(th bool) S {
	n := 70000
	return S{"many-messages", fmt.Sprintf("%d messages on one connection, every 50th of them malformed, and message and raw hooks", n), func(c *C) {
		kind := c.Choose(3)
		bad := []string{"$SR x|", "$MyINFO |", "$UserCommand x|"}[c.Choose(3)]
		var b bytes.Buffer
		for i := 0; i < n; i++ {
			switch {
			case i%50 == 7:
				b.WriteString(bad)
			case kind == 0 || kind == 2 && i%3 == 0:
				fmt.Fprintf(&b, "$Hello u%d|", i)
			case kind == 1 || i%3 == 1:
				fmt.Fprintf(&b, "<u%d> t|", i)
			default:
				fmt.Fprintf(&b, "$Unknown%d a|", i%300)
			}
		}
		r := nmdc.NewReader(&b)
		hooks, raws, unm := 0, 0, 0
		r.OnMessage(func(nmdc.Message) (bool, error) { hooks++; return true, nil })
		r.OnRawMessage(func(cmd, args []byte) (bool, error) { raws++; return true, nil })
		skip := c.Bool()
		if skip {
			r.OnUnmarshalError = func(line []byte, err error) (bool, error) { unm++; return false, nil }
		}
		nbad := 0
		for i := 0; i < n; i++ {
			want := ""
			switch {
			case i%50 == 7:
				nbad++
				if skip {
					continue
				}
				m, err := r.ReadMsg()
				c.Assert(err != nil, "malformed message %d: %v", i, m)
				continue
			case kind == 0 || kind == 2 && i%3 == 0:
				want = dumpMsg(&nmdc.Hello{Name: nmdc.Name(fmt.Sprint("u", i))})
			case kind == 1 || i%3 == 1:
				want = dumpMsg(&nmdc.ChatMessage{Name: fmt.Sprint("u", i), Text: "t"})
			default:
				want = dumpMsg(&nmdc.RawMessage{Typ: fmt.Sprint("Unknown", i%300), Data: []byte("a")})
			}
			m, err := r.ReadMsg()
			if err != nil || dumpMsg(m) != want {
				c.Fail("message %d: %s, %v, want %s", i, dumpMsg(m), err, want)
			}
		}
		c.Ops(n)
		m, err := r.ReadMsg()
		c.Assert(err == io.EOF, "after the last message: %v, %v", m, err)
		c.Assert(hooks == n-nbad, "%d messages, %d hook calls", n-nbad, hooks)
		c.Assert(!skip || unm == nbad, "%d malformed messages, %d reports", nbad, unm)
		c.StateS(fmt.Sprint(kind, bad))
	}}
}

func longLocks(th bool) S {
	sizes := append(around(4, 5, 6, 7, 8, 9, 10, 12, 15, 16), 300, 70000)
	return S{"long-locks", fmt.Sprintf("locks of every length up to 300 and of %d lengths around powers of two up to 70000 x 3 contents x 3 magics: the key, and the handshake over the wire", len(sizes)), func(c *C) {
		n := 0
		if c.Bool() {
			n = sizes[c.Choose(len(sizes))]
		} else {
			n = 2 + c.Choose(299)
		}
		var l []byte
		switch c.Choose(3) {
		case 0:
			l = pattern(n, 1)
		case 1:
			l = bytes.Repeat([]byte{'A'}, n) // every byte of the key but the first is escaped
		default:
			l = make([]byte, n)
			for i := range l {
				if l[i] = byte(i * 37 / 2); l[i] == 0 || l[i] == '|' || l[i] == ' ' {
					l[i] = 'x'
				}
			}
			l[n-1] = 'z'
		}
		m := &nmdc.Lock{Lock: string(l), NoExt: true}
		magic := []byte{5, 0, 0x91}[c.Choose(3)]
		k := m.CustomKey(magic, false)
		c.Ops(2)
		c.Assert(k.Key == refKey(m.Lock, magic), "key of a lock of %d bytes %s with magic %d is %s", n, clips(m.Lock), magic, clips(k.Key))
		line, err := nmdc.Marshal(nil, m)
		c.Assert(err == nil, "encoding a lock of %d bytes: %v", n, err)
		m2, err := readLong(line)
		c.Assert(err == nil && dump(m2) == dump(m), "lock of %d bytes %s over the wire is %s, %v", n, clips(m.Lock), clips(dump(m2)), err)
		kl, err := nmdc.Marshal(nil, k)
		c.Assert(err == nil, "encoding a key of %d bytes: %v", len(k.Key), err)
		k2, err := readLong(kl)
		c.Assert(err == nil && dump(k2) == dump(k), "key of %d bytes over the wire is %s, %v", len(k.Key), clips(dump(k2)), err)
		c.StateS(k.Key)
	}}
}

func longPackets(th bool) S {
	sizes := append(around(8, 9, 10, 12, 15, 16), 100000)
	sels := append(around(3, 4, 6, 8, 10, 12, 16), 5, 6, 20)
	return S{"long-packets", fmt.Sprintf("all 8 packet kinds with payloads of %d lengths around powers of two up to 100 KB, and feature packets with %d numbers of selectors up to 65537", len(sizes), len(sels)), func(c *C) {
		p := choosePacket(c, 0)
		if p.src != "" && p.src != aSIDs[0] || p.to != "" && p.to != aSIDs[1] {
			c.Skip()
		}
		n := 5
		if p.kind == 'F' && c.Bool() {
			for i := sels[c.Choose(len(sels))]; i > 0; i-- {
				var f adc.Feature
				copy(f[:], fmt.Sprintf("F%03d", i%1000))
				p.sel = append(p.sel, adc.FeatureSel{Fea: f, Sel: i%3 != 1})
			}
		} else {
			n = sizes[c.Choose(len(sizes))]
		}
		data := string(pattern(n, 4))
		if c.Bool() {
			data = "a " + data[2:]
		}
		raw := rawOf("QQQ", data)
		text := adc.ChatMessage{Text: data}
		how, big := c.Choose(3), len(p.sel) > 5000
		for i, m := range []adc.Message{raw, text} {
			payload := data
			if i == 1 {
				payload = refADC(data)
			}
			cmd := m.Cmd().String()
			want := p.line(cmd, payload)
			var buf bytes.Buffer
			w := adc.NewWriter(&buf)
			err := p.write(w, how, m)
			c.Ops(3)
			c.Assert(err == nil && w.Flush() == nil && buf.String() == want, "kind %q: %d selectors, %d bytes are written as %s (%v), want %s", p.kind, len(p.sel), n, clip(buf.Bytes()), err, clips(want))
			got, err := adc.DecodePacket([]byte(want))
			c.Assert(err == nil, "%s: %v", clips(want), err)
			p.check(c, clips(want), got, cmd, adcDump(m))
			if big {
				continue
			}
			r := adc.NewReader(io.MultiReader(strings.NewReader("IZZZ\n"), strings.NewReader(want), strings.NewReader("IZZZ b\n")))
			r.SetMaxLine(0)
			for k := 0; k < 3; k++ {
				got, err := r.ReadPacket()
				c.Op()
				c.Assert(err == nil, "packet %d around %s: %v", k, clips(want), err)
				if k == 1 {
					p.check(c, clips(want), got, cmd, adcDump(m))
				} else {
					c.Assert(dump(got.Message()) == dump(rawOf("ZZZ", []string{"", "", "b"}[k])), "packet %d around %s is %s", k, clips(want), dump(got))
				}
			}
		}
		c.StateS(fmt.Sprint(p.header(""), n))
	}}
}

func longADC(th bool) S {
	specs := adcSpecs()
	sizes := around(5, 6, 7, 8, 10, 12, 15, 16)
	vals := append(longTexts(sizes, " "), longTexts(sizes, "\\")...)
	return S{"long-texts", fmt.Sprintf("every text, list and path field of %d message types holding texts of %d lengths around powers of two up to 64 KB, with 0, 1 or only escaped characters", len(specs), len(sizes)), func(c *C) {
		sp := specs[c.Choose(len(specs))]
		k := c.Choose(len(sp.fields))
		switch sp.fields[k].kind {
		case akStr, akStrs, akPath:
		default:
			c.Skip()
		}
		s := vals[c.Choose(len(vals))]
		e := aBuild(sp, func(i int, f afield) *aval {
			if i == k {
				switch f.kind {
				case akStr:
					return &aval{s, []string{refADC(s)}}
				case akStrs:
					return &aval{[]string{s, "x", s}, []string{refADC(s), "x", refADC(s)}}
				}
				return &aval{adc.Path{s, "x", s}, []string{refADC(s) + "/x/" + refADC(s)}}
			}
			return fixedVal(i, f)
		})
		payload := e.payload()
		b, err := adcBytes(e.m)
		c.Ops(2)
		c.Assert(err == nil && string(b) == payload, "%s: encodes to %s (%v), want %s", sp.cmd, clip(b), err, clips(payload))
		n := sp.new()
		err = adc.Unmarshal(b, n)
		c.Assert(err == nil && adcDump(n) == adcDump(e.m), "%s: %s decodes to %s (%v)", sp.cmd, clip(b), clips(adcDump(n)), err)
		c.StateS(payload)
	}}
}

func hugeADCLists() S {
	sizes := append(around(6, 7, 8, 10, 12, 16), 70000)
	return S{"huge-lists", fmt.Sprintf("search terms, paths, features, changes and generic fields of %d numbers around powers of two up to 70000", len(sizes)), func(c *C) {
		n := sizes[c.Choose(len(sizes))]
		l := make([]string, n)
		for i := range l {
			l[i] = fmt.Sprint("n", i)
		}
		fea := func(i int) (f adc.Feature) {
			copy(f[:], []byte{byte('A' + i%26), byte('A' + i/26%26), byte('A' + i/26/26%26), byte('A' + i/26/26/26)})
			return
		}
		var m, into adc.Message
		want := ""
		switch c.Choose(6) {
		case 0:
			m, into, want = &adc.SearchRequest{And: l}, &adc.SearchRequest{}, "AN"+strings.Join(l, " AN")
		case 1:
			m, into, want = &adc.SearchRequest{Token: "t", Not: l}, &adc.SearchRequest{}, "TOt NO"+strings.Join(l, " NO")
		case 2:
			m, into, want = &adc.UserCommand{Path: l, Category: 1}, &adc.UserCommand{}, strings.Join(l, "/")+" CT1"
		case 3:
			u := &adc.UserInfo{Name: "n"}
			var t []string
			for i := 0; i < n; i++ {
				u.Features = append(u.Features, fea(i))
				t = append(t, fea(i).String())
			}
			b, err := adcBytes(u)
			c.Assert(err == nil && strings.Contains(string(b)+" ", " SU"+strings.Join(t, ",")+" "), "%d features: %s, %v", n, clip(b), err)
			m, into, want = u, &adc.UserInfo{}, string(b)
		case 4:
			u := adc.UserInfoMod{}
			var t []string
			for i := 0; i < n; i++ {
				tag := [2]byte{byte('A' + i%26), byte('A' + i/26%26)}
				u = append(u, adc.Field{Tag: tag, Value: l[i]})
				t = append(t, string(tag[:])+l[i])
			}
			m, into, want = &u, &adc.UserInfoMod{}, strings.Join(t, " ")
		case 5:
			f := adc.ModFeatures{}
			for i := 0; i < n; i++ {
				f[fea(i)] = i%3 != 1
			}
			m = &adc.Supported{Features: f}
			b, err := adcBytes(m)
			c.Assert(err == nil && len(b) == n*7-1, "%d features: %s, %v", n, clip(b), err)
			got := &adc.Supported{}
			err = adc.Unmarshal(b, got)
			c.Ops(2)
			c.Assert(err == nil && len(got.Features) == n, "%d features become %d, %v", n, len(got.Features), err)
			for k, v := range f {
				if w, ok := got.Features[k]; !ok || w != v {
					c.Fail("%d features: %v %v becomes %v %v", n, k, v, w, ok)
				}
			}
			c.StateS(fmt.Sprint("S", n))
			return
		}
		b, err := adcBytes(m)
		c.Ops(2)
		c.Assert(err == nil && string(b) == want, "%d elements: %s, %v, want %s", n, clip(b), err, clips(want))
		err = adc.Unmarshal(b, into)
		c.Assert(err == nil && dump(into) == dump(m), "%d elements: %s decodes to %s, %v", n, clip(b), clips(dump(into)), err)
		c.StateS(fmt.Sprint(m.Cmd(), n))
	}}
}

func manyPackets(th bool) S {
	n := 70000
	return S{"many-packets", fmt.Sprintf("%d packets of all kinds on one connection, every 50th of them malformed, with keep-alives", n), func(c *C) {
		bad := []string{"XMSG a\n", "BMSG AB\n", "FMSG ABCD +TCP\n"}[c.Choose(3)]
		raw := c.Bool()
		var b bytes.Buffer
		line := func(i int) string {
			switch i % 7 {
			case 0:
				return fmt.Sprintf("BMSG ABCD t%d\n", i)
			case 1:
				return fmt.Sprintf("IZZZ %d\n", i)
			case 2:
				return fmt.Sprintf("DMSG ABCD ABCE t%d\n", i)
			case 3:
				return fmt.Sprintf("HZZ%c x\n", 'A'+i%26)
			case 4:
				return fmt.Sprintf("FMSG ABCD +TCP4 -UDP4 t%d\n", i)
			case 5:
				return fmt.Sprintf("CMSG t%d\n", i)
			}
			return fmt.Sprintf("EMSG ABCD ABCE t%d\n", i)
		}
		for i := 0; i < n; i++ {
			if i%50 == 7 {
				b.WriteString(bad)
			} else {
				b.WriteString(line(i))
			}
			if i%11 == 3 {
				b.WriteString("\n")
			}
		}
		keep, idle := 0, 0
		r := adc.NewReader(&b)
		r.OnKeepAlive = func() error { keep++; return nil }
		for i := 0; i < n; i++ {
			var p adc.Packet
			var err error
			if raw {
				p, err = r.ReadPacketRaw()
			} else {
				p, err = r.ReadPacket()
			}
			if i%50 == 7 {
				c.Assert(err != nil, "malformed packet %d: %v", i, p)
			} else {
				if err != nil {
					c.Fail("packet %d: %v", i, err)
				}
				w := &bytes.Buffer{}
				if err := p.MarshalPacketADC(w); err != nil || w.String() != line(i) {
					c.Fail("packet %d: %q, %v, want %q", i, w, err, line(i))
				}
			}
			if i%11 == 3 {
				idle++
			}
		}
		c.Ops(n)
		p, err := r.ReadPacket()
		c.Assert(err == io.EOF, "after the last packet: %v, %v", p, err)
		c.Assert(keep == idle, "%d keep-alives, %d reports", idle, keep)
		c.StateS(fmt.Sprint(bad, raw))
	}}
}

func hugeLeaves(th bool) S {
	sizes := append(around(11, 12, 13, 15, 16), 70000, 100001)
	if th {
		sizes = append(sizes, around(17, 18, 19, 20)...)
	}
	return S{"huge-leaves", fmt.Sprintf("leaf lists of %d lengths around powers of two up to %d, and contents of as many blocks up to 64 MB", len(sizes), sizes[len(sizes)-1]), func(c *C) {
		n := sizes[c.Choose(len(sizes))]
		if n <= 1<<16+1 && (th || n > 1<<16 || n == 1<<12) && c.Bool() {
			// content
			const block = 1 << 10
			d := c.Choose(2)
			data := tthContent(0, n*block-block/2*d)
			want := refRoot(refLeaves(data))
			got, err := tiger.TreeHash(bytes.NewReader(data))
			c.Op()
			c.Assert(err == nil && got == tiger.Hash(want), "TreeHash of %d bytes is %v, %v, want %v", len(data), got, err, tiger.Hash(want))
			l, err := tiger.TreeLeaves(bytes.NewReader(data))
			c.Op()
			c.Assert(err == nil && len(l) == n, "TreeLeaves of %d bytes: %d, %v", len(data), len(l), err)
			c.Assert(l.TreeHash() == got, "root of the leaves of %d bytes is %v, want %v", len(data), l.TreeHash(), got)
			return
		}
		l := make(tiger.Leaves, n)
		ref := make([][24]byte, n)
		for i := range l {
			ref[i] = [24]byte{0, byte(i), byte(i >> 8), byte(i >> 16), byte(i * 7), 3, 1}
			l[i] = ref[i]
		}
		got := l.TreeHash()
		c.Op()
		want := refRoot(ref)
		c.Assert(got == tiger.Hash(want), "root of %d leaves is %v, want %v", n, got, tiger.Hash(want))
		c.Assert(sameLeaves(l, ref), "computing the root of %d leaves changed the list", n)
		c.StateS(fmt.Sprint(n))
	}}
}

func manyFeatures() S {
	sizes := append(around(6, 8, 12, 16), 20, 300)
	return S{"many-features", fmt.Sprintf("sets of %d sizes around powers of two up to 65537 that overlap by half: intersection, list, clone, merge and membership, as in the small scenarios", len(sizes)), func(c *C) {
		n := sizes[c.Choose(len(sizes))]
		name := func(i int) string { return fmt.Sprint("ext", i) }
		fea := func(i int) (f adc.Feature) {
			copy(f[:], []byte{byte('A' + i%26), byte('A' + i/26%26), byte('A' + i/26/26%26), byte('A' + i/26/26/26)})
			return
		}
		if c.Bool() {
			x, y := nmdc.Extensions{}, nmdc.Extensions{}
			for i := 0; i < n; i++ {
				x.Set(name(i))
				y.Set(name(i + n/2))
			}
			z := x.IntersectList(y.List())
			w := x.Intersect(y)
			c.Ops(4)
			for i := 0; i < n+n/2; i++ {
				in := i >= n/2 && i < n
				if z.Has(name(i)) != in || w.Has(name(i)) != in || x.Has(name(i)) != (i < n) || y.Has(name(i)) != (i >= n/2) {
					c.Fail("sets of %d: element %d is in x %v, y %v, common %v %v", n, i, x.Has(name(i)), y.Has(name(i)), z.Has(name(i)), w.Has(name(i)))
				}
			}
			c.Assert(len(x) == n && len(y) == n && len(z) == n-n/2 && len(w) == n-n/2 && len(x.List()) == n, "sets of %d: sizes are %d, %d, common %d %d, list %d", n, len(x), len(y), len(z), len(w), len(x.List()))
			c.StateS(fmt.Sprint("n", n))
			return
		}
		x, y := adc.ModFeatures{}, adc.ModFeatures{}
		for i := 0; i < n; i++ {
			x[fea(i)] = i%3 != 1
			y[fea(i+n/2)] = i%5 != 1
		}
		z := x.Intersect(y)
		k := x.Clone()
		c.Ops(4)
		common := 0
		for i := 0; i < n+n/2; i++ {
			in := i < n && i%3 != 1 && i >= n/2 && (i-n/2)%5 != 1
			if in {
				common++
			}
			if z[fea(i)] != in || k[fea(i)] != (i < n && i%3 != 1) {
				c.Fail("sets of %d: element %d is common: %v, want %v; in the clone %v", n, i, z[fea(i)], in, k[fea(i)])
			}
		}
		c.Assert(len(x) == n && len(y) == n && len(k) == n, "sets of %d: sizes are %d, %d, %d", n, len(x), len(y), len(k))
		cc := 0
		for _, v := range z {
			if v {
				cc++
			}
		}
		c.Assert(cc == common, "sets of %d: %d common, want %d", n, cc, common)
		k = k.SetFrom(y)
		for i := 0; i < n+n/2; i++ {
			want := i < n && i%3 != 1
			if i >= n/2 {
				want = (i-n/2)%5 != 1
			}
			if k[fea(i)] != want {
				c.Fail("sets of %d: merged element %d is %v, want %v", n, i, k[fea(i)], want)
			}
		}
		c.StateS(fmt.Sprint("a", n))
	}}
}

func adcBytes(m adc.Message) ([]byte, error) {
	var buf bytes.Buffer
	err := adc.Marshal(&buf, m)
	return buf.Bytes(), err
}

// readLong reads one message without a limit.
func readLong(line []byte) (nmdc.Message, error) {
	r := nmdc.NewReader(bytes.NewReader(line))
	r.SetMaxLine(0)
	return r.ReadMsg()
}
