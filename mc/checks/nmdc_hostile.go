package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
)

// C11: hostile NMDC input.

var nSentinels = []struct{ line, dump string }{
	{"$Hello s1|", `*Hello{Name:"s1"}`},
	{"<s2> text &#36; 2|", `*ChatMessage{Name:"s2" Text:"text $ 2"}`},
	{"$ZZtop s3 x|", `*RawMessage{Typ:"ZZtop" Data:x"s3 x"}`},
	{"$Supports A B|", `*Supports{Ext:[*"A" *"B"]}`},
}

func init() {
	// the exact dump of Supports depends on its representation
	nSentinels[3].dump = dump(&nmdc.Supports{Ext: []string{"A", "B"}})
}

// headerBad tells that a line without its delimiter must be refused whatever
// its payload is.
func headerBad(seg string, maxName int) bool {
	if strings.IndexByte(seg, 0) >= 0 {
		return true
	}
	if !strings.HasPrefix(seg, "$") {
		return false
	}
	name := seg[1:]
	if i := strings.IndexByte(name, ' '); i >= 0 {
		name = name[:i]
	}
	if name == "" || len(name) > maxName {
		return true
	}
	for i := 0; i < len(name); i++ {
		b := name[i]
		switch {
		case b >= 'a' && b <= 'z', b >= 'A' && b <= 'Z', b >= '0' && b <= '9', strings.IndexByte("/-_.:", b) >= 0:
		default:
			return true
		}
	}
	return false
}

// alone decodes one complete line on its own connection.
func alone(line string, maxName int) (string, bool) {
	r := nmdc.NewReader(strings.NewReader(line))
	if maxName > 0 {
		r.SetMaxCmdName(maxName)
	}
	m, err := r.ReadMsg()
	if err != nil {
		return "", false
	}
	return dump(m), true
}

// hostileNMDC feeds a byte string followed by the sentinels and compares every
// delivered message with the one its line gives alone.
func hostileNMDC(c *C, hostile string, skip bool, maxName int, rd io.Reader) {
	stream := hostile
	for _, s := range nSentinels {
		stream += s.line
	}
	if rd == nil {
		rd = strings.NewReader(stream)
	}
	max := maxName
	if max == 0 {
		max = 32
	}
	r := nmdc.NewReader(rd)
	if maxName != 0 {
		r.SetMaxCmdName(maxName)
	}
	if skip {
		r.OnUnmarshalError = func(line []byte, err error) (bool, error) { return false, nil }
	}
	segs := strings.SplitAfter(stream, "|")
	var kept []nmdc.Message
	var dumps []string
	for i, seg := range segs {
		if seg == "" {
			continue // end
		}
		body := strings.TrimSuffix(seg, "|")
		if body == "" {
			continue // keep-alive
		}
		d, ok := "", false
		// the last three lines are always complete; what they mean is known
		if k := len(segs) - 1 - i; k >= 1 && k <= 3 && max >= 8 {
			d, ok = nSentinels[4-k].dump, true
		} else {
			d, ok = alone(seg, maxName)
		}
		bad := headerBad(body, max)
		if bad && ok {
			c.Fail("line %q must be refused but decodes to %s", seg, d)
		}
		if !ok && !bad && skip {
			continue // skipped
		}
		m, err := r.ReadMsg()
		c.Op()
		if !ok {
			c.Assert(err != nil, "line %q is refused alone, but in %q it decodes to %s", seg, clips(stream), dump(m))
			c.Assert(err != io.EOF, "line %q in %q is reported as the end of the stream", seg, clips(stream))
			continue
		}
		c.Assert(err == nil, "line %q in %s is refused: %v", seg, clips(stream), err)
		c.Assert(dump(m) == d, "line %q after %s decodes to %s, alone it is %s", seg, clips(hostile), dump(m), d)
		kept = append(kept, m)
		dumps = append(dumps, d)
	}
	m, err := r.ReadMsg()
	c.Op()
	c.Assert(err == io.EOF, "after the end of %s: %v, %v", clips(stream), m, err)
	for i, m := range kept {
		if dump(m) != dumps[i] {
			c.Fail("a message changed after it was returned: %s became %s", dumps[i], dump(m))
		}
	}
	c.StateS(strings.Join(dumps, " "))
}

type reported struct{ err error }

func (e *reported) Error() string { return "reported by the application" }

// reportsNMDC checks what the application learns about lines that cannot be
// parsed, and that its verdict is obeyed.
func reportsNMDC(c *C, hostile string, mode int) {
	stream := nSentinels[0].line + hostile
	for _, s := range nSentinels {
		stream += s.line
	}
	segs := strings.SplitAfter(stream, "|")
	r := nmdc.NewReader(strings.NewReader(stream))
	var texts []string
	var errs []error
	mine := &reported{}
	r.OnUnmarshalError = func(line []byte, err error) (bool, error) {
		texts = append(texts, string(line))
		errs = append(errs, err)
		switch mode {
		case 0:
			return false, nil
		case 1:
			return true, mine
		}
		return true, err
	}
	reports := 0
	for _, seg := range segs {
		body := strings.TrimSuffix(seg, "|")
		if body == "" {
			continue
		}
		d, ok := alone(seg, 0)
		bad := headerBad(body, 32)
		if !ok && !bad {
			reports++
			if mode == 0 {
				continue
			}
		}
		m, err := r.ReadMsg()
		c.Op()
		if ok {
			c.Assert(err == nil && dump(m) == d, "line %q in %s: %v, %s, alone it is %s", seg, clips(stream), err, dump(m), d)
		} else {
			c.Assert(err != nil, "line %q is refused alone, but in %q it decodes to %s", seg, clips(stream), dump(m))
		}
		if bad {
			continue
		}
		c.Assert(len(texts) == reports, "after line %q of %s: %d lines cannot be parsed, %d are reported: %q", seg, clips(stream), reports, len(texts), texts)
		if !ok {
			c.Assert(strings.TrimSuffix(texts[reports-1], "|") == body, "line %q is reported as %q", body, texts[reports-1])
			c.Assert(errs[reports-1] != nil, "line %q is reported without an error", body)
			want := errs[reports-1]
			if mode == 1 {
				want = mine
			}
			c.Assert(errors.Is(err, want), "the application returned %v for line %q, ReadMsg returns %v", want, body, err)
		}
	}
	_, err := r.ReadMsg()
	c.Assert(err == io.EOF, "after the end of %s: %v", clips(stream), err)
	c.Assert(len(texts) == reports, "%s: %d lines cannot be parsed, %d are reported: %q", clips(stream), reports, len(texts), texts)
	c.StateS(strings.Join(texts, "|"))
}

// nmdcCorpus is one valid line of every type.
func nmdcCorpus() []string {
	var out []string
	for _, sp := range nmdcSpecs() {
		out = append(out, nline(sp.typ, sp.dirty))
	}
	out = append(out,
		"$Search Hub:user T?F?100?1?some$text|",
		"$Search 1.2.3.4:412 F?T?0?9?TTH:"+hashText[0]+"|",
		"$SR u d\\f.x\x05123 1/2\x05TTH:"+hashText[0]+" (h:1)|",
		"$SR u d\\f 1/2\x05hub (a) (h:1)\x05to|",
		"$MyINFO $ALL u d$ $LAN\x01$$5$|",
		"$ConnectToMe a 1.2.3.4:5S|",
		"$ConnectToMe a 1.2.3.4:5NS b|",
		"$ADCGET file TTH/"+hashText[0]+" 0 -1 ZL1 DB5|",
		"$UserCommand 1 3 a\\b$<%[mynick]> x&#124;|",
		"<user> text|", "text|", "$Lock EXTENDEDPROTOCOLabc Pk=xRef=y|",
		"$HubINFO a$b$c$1$2$3$4$s 1$o$e$u8|",
		"$To: a From: b $<b> c|", "$NickList a$$b$$|", "$Key \x01\x02/%DCN000%/\xff|",
	)
	return out
}

func init() {
	register("C11", []string{"memory exhaustion by lines within the configured limit is not considered"}, func(thorough bool) []S {
		var out []S
		corpus := nmdcCorpus()
		types := append([]string{"XUnknown"}, nmdc.RegisteredTypes()...)
		skips := 1
		if thorough {
			skips = 2
		}
		out = append(out, S{"mutations", fmt.Sprintf("%d lines covering all types: every byte replaced by, or preceded by, each of 256 values, every byte deleted, every truncation; followed by %d messages", len(corpus), len(nSentinels)), func(c *C) {
			l := corpus[c.Choose(len(corpus))]
			pos := c.Choose(len(l) + 1)
			var h string
			kind := c.Choose(4)
			if pos == len(l) && (kind == 0 || kind == 2) {
				c.Skip()
			}
			switch kind {
			case 0:
				h = l[:pos] + string([]byte{byte(c.Choose(256))}) + l[pos+1:]
			case 1:
				h = l[:pos] + string([]byte{byte(c.Choose(256))}) + l[pos:]
			case 2:
				h = l[:pos] + l[pos+1:]
			case 3:
				h = l[:pos] // the rest never arrives
			}
			skip := false
			if skips > 1 || kind >= 2 {
				skip = c.Bool()
			} else {
				skip = pos%2 == 1
			}
			hostileNMDC(c, h, skip, 0, nil)
		}})
		nb := 2
		al, an := "$ |<>\x00\xffa&", 5
		if thorough {
			an = 6
		}
		out = append(out, S{"raw-lines", fmt.Sprintf("all raw streams of <= %d bytes (256 values) and <= %d over %q, errors returned or skipped", nb, an, al), func(c *C) {
			var h string
			if c.Bool() {
				n := c.Choose(nb + 1)
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(c.Choose(256))
				}
				h = string(b)
			} else {
				h = chooseStr(c, al, nb+1, an)
			}
			hostileNMDC(c, h, c.Bool(), 0, nil)
		}})
		aln := 3
		if thorough {
			aln = 4
		}
		out = append(out, S{"payloads", fmt.Sprintf("every type: all payloads of <= 2 bytes (256 values) and <= %d over %q as received lines", aln, nAlpha), func(c *C) {
			t := types[c.Choose(len(types))]
			var h string
			if c.Bool() {
				b := make([]byte, c.Choose(3))
				for i := range b {
					b[i] = byte(c.Choose(256))
				}
				h = string(b)
			} else {
				h = chooseStr(c, nAlpha, 3, aln)
			}
			line := "$" + t + " " + h + "|"
			if t == "" {
				line = "<" + h + "|"
			}
			hostileNMDC(c, line, len(h)%2 == 0, 0, nil)
		}})
		// the decoders called directly: they may get what no reader would pass
		tn := 3
		if thorough {
			tn = 4
		}
		toks := append([]string{"", "|", "\x00", hashText[0], hashText[2], "$ALL ", "TTH:", "From: ", "Pk=", "Ref=", "V:", "H:1/2", "18446744073709551616", "\x05", "T?F?", " $<", "Hub:"}, relayTokens...)
		out = append(out, S{"decoders", fmt.Sprintf("every type: the message decoder on all sequences of <= %d tokens out of %d, twice into the same message", tn, len(toks)), func(c *C) {
			t := types[c.Choose(len(types))]
			p := ""
			for i := 0; i < tn; i++ {
				p += toks[c.Choose(len(toks))]
			}
			m := nmdc.NewMessage(t)
			err := m.UnmarshalNMDC(nil, []byte(p))
			c.Op()
			if err == nil {
				d := dump(m)
				m2 := nmdc.NewMessage(t)
				if err := m2.UnmarshalNMDC(nil, []byte(p)); err != nil || dump(m2) != d {
					c.Fail("payload %q of %q: decoded to %s, then %v, %s", p, t, d, err, dump(m2))
				}
				c.StateS(d)
			}
			c.Checked()
		}})
		tm := relayTemplates()
		dev := 2
		if thorough {
			dev = 3
		}
		out = append(out, S{"templates", fmt.Sprintf("%d line templates, up to %d slots deviate from their default, followed by messages", len(tm), dev), func(c *C) {
			t := tm[c.Choose(len(tm))]
			c.SetDeviations(dev)
			p := ""
			for _, s := range t.slots {
				p += s[c.Dev(len(s))]
			}
			hostileNMDC(c, nline(t.typ, p), len(p)%2 == 0, 0, nil)
		}})
		out = append(out, S{"names", "command names: all lengths 0..70 with the default limit and limits 1..40, every byte value at the first, a middle and the last position, with and without payload", func(c *C) {
			var name []byte
			max := 0
			if c.Bool() {
				max = c.Choose(41)
				name = bytes.Repeat([]byte("x"), c.Choose(71))
			} else {
				name = []byte("xyzXYZ09")[:1+c.Choose(8)]
				name = append([]byte(nil), name...)
				name[c.Choose(len(name))] = byte(c.Choose(256))
			}
			line := "$" + string(name)
			if c.Bool() {
				line += " payload"
			}
			l := line + "|"
			m, err := func() (nmdc.Message, error) {
				r := nmdc.NewReader(strings.NewReader(l))
				if max != 0 {
					r.SetMaxCmdName(max)
				}
				return r.ReadMsg()
			}()
			lim := max
			if lim == 0 {
				lim = 32
			}
			if bytes.IndexByte(name, '|') < 0 && !headerBad(line, lim) {
				c.Assert(err == nil, "line %q (limit %d) is refused: %v", l, lim, err)
				raw, ok := m.(*nmdc.RawMessage)
				n, p := line[1:], ""
				if i := strings.IndexByte(n, ' '); i >= 0 {
					n, p = n[:i], n[i+1:]
				}
				c.Assert(ok && raw.Typ == n && string(raw.Data) == p, "line %q is %s", l, dump(m))
			}
			hostileNMDC(c, l, c.Bool(), max, nil)
		}})
		out = append(out, S{"reports", fmt.Sprintf("%d lines covering all types, every byte deleted or replaced by each of 12 values and every truncation; the application ignores, replaces or returns every report of a line that cannot be parsed", len(corpus)), func(c *C) {
			l := corpus[c.Choose(len(corpus))]
			pos := c.Choose(len(l) - 1)
			k := c.Choose(14)
			switch {
			case k < 12:
				l = l[:pos] + string("\xff$<> ?|&9\x05\x01\\"[k]) + l[pos+1:]
			case k == 12:
				l = l[:pos] + l[pos+1:]
			default:
				l = l[:pos] + "|"
			}
			reportsNMDC(c, l, c.Choose(3))
		}})
		specs := nmdcSpecs()
		longs := []string{strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 257), strings.Repeat("n", 511), strings.Repeat("n", 512), strings.Repeat("n", 513), strings.Repeat("n", 4096), strings.Repeat("é", 128), strings.Repeat("é", 128) + "n"}
		out = append(out, S{"long names", fmt.Sprintf("every field of %d message types holding texts of %d lengths around 256 bytes and its multiples: a name over 256 bytes is refused, everything else is accepted; followed by messages", len(specs), len(longs)), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			if sp.fields == 0 {
				c.Skip()
			}
			g := &ngen{c: c, deep: c.Choose(sp.fields), vals: longs, other: "Zz"}
			m, payload := sp.gen(g)
			if !g.used || g.free {
				c.Skip()
			}
			l := nline(sp.typ, payload)
			got, err := nmdc.NewReader(strings.NewReader(l)).ReadMsg()
			c.Op()
			if g.bad {
				c.Assert(err != nil, "%s is too long to be sent, but as line %s it is accepted", clips(dump(m)), clips(l))
			} else {
				c.Assert(err == nil, "line %s is refused: %v", clips(l), err)
				c.Assert(dumpMsg(got) == dumpMsg(m), "line %s decodes to %s, want %s", clips(l), clips(dumpMsg(got)), clips(dumpMsg(m)))
			}
			hostileNMDC(c, l, c.Bool(), 0, nil)
		}})
		hs := []string{"$Hello \xff|", "<a|", "$|", "$A\x00|", "$ConnectToMe|x|", "$MyINFO $ALL|", "$Search |", "$\xff|"}
		fb := "all fragmentations"
		out = append(out, S{"fragments", fmt.Sprintf("%d malformed lines between messages, %s of the first bytes", len(hs), fb), func(c *C) {
			h := hs[c.Choose(len(hs))]
			stream := h
			for _, s := range nSentinels {
				stream += s.line
			}
			c.SetDeviations(4)
			rd := &src{c: c, data: []byte(stream), sizes: []int{0, 1, 2, 3, 5, 8, 13}, dev: true, zero: true, withData: c.Bool()}
			hostileNMDC(c, h, c.Bool(), 0, rd)
		}})
		return out
	})
}
