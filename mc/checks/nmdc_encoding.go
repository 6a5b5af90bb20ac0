package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/encoding/charmap"

	"github.com/direct-connect/go-dc/nmdc"
)

// C13: legacy encodings.

// codepage is an independent view of a single-byte encoding.
type codepage struct {
	name string
	cm   *charmap.Charmap
	dec  [256]rune
	enc  map[rune]byte
}

func newCodepage(name string, cm *charmap.Charmap) *codepage {
	p := &codepage{name: name, cm: cm, enc: map[rune]byte{}}
	for i := range p.dec {
		r := cm.DecodeByte(byte(i))
		p.dec[i] = r
		if _, ok := p.enc[r]; !ok && r != utf8.RuneError {
			p.enc[r] = byte(i)
		}
	}
	return p
}

func (p *codepage) encode(s string) (string, bool) {
	var out []byte
	for i, r := range s {
		if r == utf8.RuneError && !strings.HasPrefix(s[i:], "\ufffd") {
			return "", false // not a valid text
		}
		b, ok := p.enc[r]
		if !ok {
			return "", false
		}
		out = append(out, b)
	}
	return string(out), true
}

func (p *codepage) decode(b string) string {
	var out []rune
	for i := 0; i < len(b); i++ {
		out = append(out, p.dec[b[i]])
	}
	return string(out)
}

// values lists texts: every byte alone and next to a letter, and pairs of
// bytes that mean something in the protocol or in UTF-8.
func (p *codepage) values(pairs bool) []string {
	var out []string
	add := func(b ...byte) {
		s := p.decode(string(b))
		if strings.Contains(s, "\ufffd") {
			return // undefined byte
		}
		out = append(out, s)
	}
	add()
	for i := 0; i < 256; i++ {
		b := byte(i)
		add(b)
		add('x', b)
		add(b, 'x')
	}
	if pairs {
		set := []byte("\xc2\x85\xa0\xff\xd0\xb0\xe2\x80\xa8\xe3\x98\x8f&$|<>\\ \x05;#/\x1f\xef\xbb\xbf\xf0\x9f\x92\xc0\xed")
		for _, a := range set {
			for _, b := range set {
				add(a, b)
				add('a', a, b)
			}
		}
		add(0xe2, 0x80, 0xa8)
		add(0xef, 0xbb, 0xbf)
		add('a', 0xe3, 0x80, 0x80)
	}
	// not representable, or not a text
	out = append(out, "日", "x\U0001F600", "a\ufffd", "\xff", "a\xc2", "\u0378", "Жяé")
	return out
}

func codepages(thorough bool) []*codepage {
	p := []*codepage{
		newCodepage("windows-1251", charmap.Windows1251),
		newCodepage("windows-1252", charmap.Windows1252),
		newCodepage("iso8859-2", charmap.ISO8859_2),
		newCodepage("koi8-r", charmap.KOI8R),
	}
	if thorough {
		p = append(p,
			newCodepage("windows-1250", charmap.Windows1250),
			newCodepage("iso8859-1", charmap.ISO8859_1),
			newCodepage("iso8859-5", charmap.ISO8859_5),
			newCodepage("cp437", charmap.CodePage437),
			newCodepage("cp866", charmap.CodePage866),
			newCodepage("macintosh", charmap.Macintosh),
			newCodepage("windows-1253", charmap.Windows1253),
			newCodepage("windows-1255", charmap.Windows1255),
			newCodepage("windows-874", charmap.Windows874),
		)
	}
	return p
}

func init() {
	register("C13", []string{
		"the code page tables of golang.org/x/text are correct",
		"what a message contains when the callback returns neither a decoder nor an error is not specified",
	}, func(thorough bool) []S {
		pages := codepages(thorough)
		vals := make([][]string, len(pages))
		for i, p := range pages {
			vals[i] = p.values(true)
		}
		specs := nmdcSpecs()
		fields := func(name, bounds string, vals [][]string) S {
			return S{name, bounds, func(c *C) {
				sp := specs[c.Choose(len(specs))]
				if sp.fields == 0 || sp.typ == "XRaw" || sp.typ == "Key" {
					c.Skip()
				}
				pi := c.Choose(len(pages))
				p := pages[pi]
				g := &ngen{c: c, deep: c.Choose(sp.fields), vals: vals[pi], other: p.decode("\xe6\xc2"), page: p}
				m, payload := sp.gen(g)
				g.skipIf(!g.used)
				line := nline(sp.typ, payload)
				orig := dumpMsg(m)
				want, ok := p.encode(line)
				if !ok {
					g.bad = true
				}
				enc := p.cm.NewEncoder()
				got, err := nmdc.Marshal(enc, m)
				c.Ops(2)
				if c.Tracing() {
					c.Logf("%s: message %s, specified line %q, refused: %v; got %q, %v", p.name, orig, want, g.bad, string(got), err)
				}
				var buf bytes.Buffer
				w := nmdc.NewWriter(&buf)
				w.SetEncoder(p.cm.NewEncoder())
				errw := w.WriteMsg(&nmdc.Hello{Name: "a"}, m)
				c.Assert((errw == nil) == (err == nil), "%s: encoding %s: %v, writing it: %v", p.name, orig, err, errw)
				if e := w.WriteMsg(&nmdc.Hello{Name: "b"}); e != nil {
					c.Fail("%s: after writing %s (%v) the writer is not usable: %v", p.name, orig, errw, e)
				}
				if e := w.Flush(); e != nil {
					c.Fail("flush: %v", e)
				}
				if g.bad {
					c.Assert(err != nil, "%s: %s cannot be represented but was encoded as %q", p.name, orig, string(got))
					c.Assert(buf.String() == "$Hello a|$Hello b|", "%s: after a refused message the stream is %q", p.name, buf.String())
					return
				}
				if g.free && err != nil {
					return
				}
				c.Assert(err == nil, "%s: encoding %s failed: %v", p.name, orig, err)
				if !g.free {
					c.Assert(string(got) == want, "%s: %s encodes to %q, specified line is %q", p.name, orig, string(got), want)
				}
				c.Assert(buf.String() == "$Hello a|"+string(got)+"$Hello b|", "%s: written %q", p.name, buf.String())
				dec := p.cm.NewDecoder()
				m2, err := nmdc.Unmarshal(dec, got)
				c.Assert(err == nil, "%s: line %q of %s is not accepted: %v", p.name, string(got), orig, err)
				c.Assert(dumpMsg(m2) == orig, "%s: line %q decodes to %s, encoded was %s", p.name, string(got), dumpMsg(m2), orig)
				// and over a connection, between other messages
				r := nmdc.NewReader(bytes.NewReader(buf.Bytes()))
				r.SetDecoder(dec)
				calls := 0
				r.OnUnknownEncoding = func([]byte) (*nmdc.TextDecoder, error) { calls++; return nil, nil }
				for i := 0; i < 3; i++ {
					m, err := r.ReadMsg()
					c.Op()
					d := []string{`*Hello{Name:"a"}`, orig, `*Hello{Name:"b"}`}[i]
					c.Assert(err == nil && dumpMsg(m) == d, "%s: reading %q: %s, %v, want %s", p.name, buf.String(), dump(m), err, d)
				}
				c.Assert(calls == 0, "%s: callback called though a decoder is set", p.name)
				c.StateS(orig)
			}}
		}
		codec := fields("fields", fmt.Sprintf("every text and name field of %d message types: ~%d texts (all 256 bytes alone and with a letter before or after, all pairs of special bytes, unrepresentable texts) x %d encodings", len(specs), len(vals[0]), len(pages)), vals)
		long := make([][]string, len(pages))
		lens := []int{85, 86, 127, 128, 129, 130, 200, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1025, 4097}
		for i, p := range pages {
			var chars []string
			for _, b := range []byte{0xe6, 0xf0, 0x99, 0xff} {
				if r := p.decode(string([]byte{b})); r != "\ufffd" {
					chars = append(chars, r)
				}
			}
			for _, n := range lens {
				for _, ch := range chars {
					s := strings.Repeat(ch, n)
					long[i] = append(long[i], s)
				}
				s := strings.Repeat(chars[0], n-4)
				long[i] = append(long[i], s+"a&bc", s+"<", "a"+s+"|", s+"&&&&", "z"+s+"z", s+"x日")
			}
		}
		longs := fields("long", fmt.Sprintf("every text and name field of %d message types: %d texts of 85 to 4097 letters outside ASCII, with and without escaped and unrepresentable characters x %d encodings; a name is limited by its encoded size", len(specs), len(long[0]), len(pages)), long)

		// the callback, in every type and field
		page := pages[0]
		bad := []string{"\xff", "\xcf\xf0", "a\xc2", "\xc0\xaf", "\xed\xa0\x80", "\xf5x", "a\x80b", "\xe3\x80"}
		var badVals []string
		for _, b := range bad {
			badVals = append(badVals, page.decode(b))
		}
		unknown := S{"unknown-fields", fmt.Sprintf("every text and name field of %d message types holding each of %d texts that are not UTF-8, without encoding, x 4 callback behaviours", len(specs), len(bad)), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			if sp.fields == 0 || sp.typ == "XRaw" || sp.typ == "Key" {
				c.Skip()
			}
			g := &ngen{c: c, deep: c.Choose(sp.fields), vals: badVals, other: "Zz"}
			m, payload := sp.gen(g)
			g.skipIf(!g.used)
			if g.bad {
				c.Skip()
			}
			line, ok := page.encode(nline(sp.typ, payload))
			if !ok {
				c.Fail("internal: %q", payload)
			}
			orig := dumpMsg(m)
			later, _ := page.encode("$Hello Ж|")
			r := nmdc.NewReader(strings.NewReader(line + later + "$Hello a|"))
			mode := c.Choose(5)
			var texts []string
			if mode != 0 {
				r.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
					texts = append(texts, string(text))
					switch mode {
					case 1:
						return page.cm.NewDecoder(), nil
					case 2:
						return nil, errBoom
					case 3:
						return nil, nil
					default:
						return page.cm.NewDecoder(), errBoom
					}
				}
			}
			got, err := r.ReadMsg()
			c.Op()
			if c.Tracing() {
				c.Logf("line %q mode %d: %s, %v, callback got %q", line, mode, dump(got), err, texts)
			}
			if mode != 0 {
				c.Assert(len(texts) > 0, "callback not called for %q: %v", line, err)
				known := false
				for _, b := range bad {
					known = known || strings.Contains(texts[0], b) && strings.Contains(line, texts[0])
				}
				c.Assert(known, "callback got %q for line %q", texts[0], line)
			}
			switch mode {
			case 0:
				c.Assert(err != nil, "line %q was decoded to %s without an encoding", line, dump(got))
			case 1:
				c.Assert(err == nil && dumpMsg(got) == orig, "line %q decoded to %s, %v, want %s", line, dump(got), err, orig)
				c.Assert(len(texts) == 1, "callback called %d times for %q", len(texts), line)
				c.Assert(r.Decoder() != nil, "no decoder is set")
			case 2, 4:
				c.Assert(errors.Is(err, errBoom), "callback failed for %q but the result is %s, %v", line, dump(got), err)
			}
			n := len(texts)
			got, err = r.ReadMsg()
			switch mode {
			case 0:
				c.Assert(err != nil && err != io.EOF, "second message: %s, %v", dump(got), err)
			case 1:
				c.Assert(err == nil && dump(got) == `*Hello{Name:"Ж"}`, "second message: %s, %v", dump(got), err)
				c.Assert(len(texts) == n, "callback called again")
			case 2, 4:
				c.Assert(errors.Is(err, errBoom) && len(texts) == n+1, "second message: %s, %v", dump(got), err)
			case 3:
				c.Assert(len(texts) > n, "second message: callback not called")
			}
			got, err = r.ReadMsg()
			c.Ops(2)
			c.Assert(err == nil && dump(got) == `*Hello{Name:"a"}`, "third message: %s, %v", dump(got), err)
			c.StateS(orig)
		}}

		type eline struct {
			line string
			typ  string
			bad  string                             // the text that is not UTF-8
			mk   func(f func(string) string) string // dump given the decoding of texts
		}
		id := func(s string) string { return s }
		els := []eline{
			{line: "$Hello a|", mk: func(f func(string) string) string { return `*Hello{Name:"a"}` }},
			{line: "$Hello \xcf|", bad: "\xcf", mk: func(f func(string) string) string { return fmt.Sprintf("*Hello{Name:%q}", f("\xcf")) }},
			{line: "<n> x\xe0|", bad: "x\xe0", mk: func(f func(string) string) string {
				return fmt.Sprintf("*ChatMessage{Name:%q Text:%q}", "n", f("x\xe0"))
			}},
			{line: "$HubTopic \xd0\x96|", mk: func(f func(string) string) string { return fmt.Sprintf("*HubTopic{Text:%q}", f("\xd0\x96")) }},
			{line: "$Foo \xff|", mk: func(f func(string) string) string { return `*RawMessage{Typ:"Foo" Data:x"\xff"}` }},
			{line: "<\xe1> x\xe0|", bad: "\xe1", mk: func(f func(string) string) string {
				return fmt.Sprintf("*ChatMessage{Name:%q Text:%q}", f("\xe1"), f("x\xe0"))
			}},
		}
		n := 4
		if thorough {
			n = 5
		}
		alt := pages[3]
		seqs := S{"sequences", fmt.Sprintf("all sequences of %d messages of %d kinds x callback answers (decoder of either of 2 encodings, error) per call, x the application setting or dropping a decoder before any message, or dropping the decoded message by a hook", n, len(els)), func(c *C) {
			var ls []eline
			stream := ""
			for i := 0; i < n; i++ {
				l := els[c.Choose(len(els))]
				ls = append(ls, l)
				stream += l.line
			}
			c.SetDeviations(3)
			var cur *codepage
			r := nmdc.NewReader(strings.NewReader(stream))
			cb := c.Bool()
			skip := c.Bool()
			var events []string
			var answers []int
			if cb {
				r.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
					events = append(events, fmt.Sprintf("asked about %q", text))
					answer := c.Dev(3)
					answers = append(answers, answer)
					switch answer {
					case 0:
						return page.cm.NewDecoder(), nil
					case 1:
						return alt.cm.NewDecoder(), nil
					default:
						return nil, errBoom
					}
				}
			}
			if skip {
				r.OnUnmarshalError = func([]byte, error) (bool, error) { return false, nil }
			}
			// a decoder set by a hook for the next message on
			setAt := make([]int, n)
			for i := range setAt {
				setAt[i] = c.Dev(4)
			}
			midx := 0
			r.OnMessage(func(m nmdc.Message) (bool, error) {
				events = append(events, "hook "+dump(m))
				return setAt[midx] != 3, nil
			})
			idx := -1
			r.OnLine(func([]byte) (bool, error) {
				idx++
				midx = idx
				switch setAt[idx] {
				case 1:
					r.SetDecoder(alt.cm.NewDecoder())
				case 2:
					r.SetDecoder(nil)
				}
				return true, nil
			})
			for i := 0; ; i++ {
				m, err := r.ReadMsg()
				c.Op()
				if err == nil {
					events = append(events, "result "+dump(m))
					continue
				}
				if err == io.EOF {
					events = append(events, "end")
					break
				}
				if errors.Is(err, errBoom) {
					events = append(events, "callback error")
				} else {
					events = append(events, "undecodable")
				}
				if i > 2*n {
					break // the loop below tells
				}
			}
			var want []string
			for i, l := range ls {
				switch setAt[i] {
				case 1:
					cur = alt
				case 2:
					cur = nil
				}
				if cur == nil && l.bad != "" {
					if !cb {
						if !skip {
							want = append(want, "undecodable")
						}
						continue
					}
					want = append(want, fmt.Sprintf("asked about %q", l.bad))
					if len(answers) == 0 {
						break // not asked, the comparison fails
					}
					ans := answers[0]
					answers = answers[1:]
					if ans == 2 {
						want = append(want, "callback error")
						continue
					}
					cur = []*codepage{page, alt}[ans]
				}
				f := id
				if cur != nil {
					f = cur.decode
				}
				d := l.mk(f)
				want = append(want, "hook "+d)
				if setAt[i] != 3 {
					want = append(want, "result "+d)
				}
				c.StateS(d)
			}
			want = append(want, "end")
			if c.Tracing() {
				c.Logf("%q, decoders set %v: %q", stream, setAt, events)
			}
			c.Assert(fmt.Sprint(events) == fmt.Sprint(want), "%q, changes before the messages %v: %q, want %q", stream, setAt, events, want)
		}}

		wseq := S{"writer", "all sequences of 4 messages (representable in one, both or no encoding) x encoder changes before any of them, written one by one or at once", func(c *C) {
			texts := []string{"a", "Ж", "é", "日", "л$"}
			var buf bytes.Buffer
			w := nmdc.NewWriter(&buf)
			var cur *codepage
			latin := pages[1]
			want := ""
			for i := 0; i < 4; i++ {
				switch c.Choose(4) {
				case 1:
					w.SetEncoder(page.cm.NewEncoder())
					cur = page
				case 2:
					w.SetEncoder(latin.cm.NewEncoder())
					cur = latin
				case 3:
					w.SetEncoder(nil)
					cur = nil
				}
				t := texts[c.Choose(len(texts))]
				l := "<n> " + refText(t) + "|"
				ok := true
				if cur != nil {
					l, ok = cur.encode(l)
				}
				err := w.WriteMsg(&nmdc.ChatMessage{Name: "n", Text: t})
				c.Op()
				c.Assert((err == nil) == ok, "writing %q with %v: %v", t, cur, err)
				if ok {
					want += l
				}
			}
			if err := w.Flush(); err != nil {
				c.Fail("flush: %v", err)
			}
			c.Assert(buf.String() == want, "written %q, want %q", buf.String(), want)
			c.StateS(want)
		}}
		return []S{codec, longs, unknown, seqs, wseq}
	})
}
