package checks

import (
	"bytes"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/direct-connect/go-dc/nmdc"
)

// refUnescape is the reference decoding of the escapes used by these scenarios.
func refUnescape(s string) string {
	return strings.NewReplacer("&gt;", ">", "&lt;", "<", "&amp;", "&", "&#36;", "$", "&#124;", "|", "/%DCN036%/", "$", "&#32;", " ").Replace(s)
}

// refChat splits a chat payload into sender and text (both still escaped).
func refChat(p string) (name, text string, ok bool) {
	if !strings.HasPrefix(p, "<") {
		return "", p, true
	}
	body := p[1:]
	line := body
	if i := strings.IndexAny(line, "\r\n"); i >= 0 {
		line = line[:i] // a '>' after a line break cannot close the name
	}
	last := -1
	for i := 0; i < len(line); i++ {
		if line[i] != '>' {
			continue
		}
		last = i
		r, sz := utf8.DecodeRuneInString(body[i+1:])
		if sz > 0 && unicode.IsSpace(r) {
			return body[:i], body[i+1+sz:], true
		}
	}
	if last < 0 {
		return "", "", false
	}
	return body[:last], body[last+1:], true
}

func chatCheck(c *C, p string) {
	if strings.Contains(p, "|") {
		c.Skip()
	}
	en, et, ok := refChat(p)
	if ok {
		if strings.ContainsAny(en, "$\x00\r\n\t") || len(en) > 256 || strings.Contains(en, "&#32;") {
			ok = false
		} else if !utf8.ValidString(en) || !utf8.ValidString(et) || strings.Contains(et, "\x00") {
			ok = false
		}
	}
	// decoded into a message that already has a sender
	m := &nmdc.ChatMessage{Name: "stale", Text: "stale"}
	data := []byte(p)
	err := m.UnmarshalNMDC(nil, data)
	c.Ops(1)
	if c.Tracing() {
		c.Logf("payload %q: sender %q text %q err %v; expected sender %q text %q ok=%v", p, m.Name, m.Text, err, en, et, ok)
	}
	c.Assert(string(data) == p, "decoding changed its input %q to %q", p, string(data))
	c.Assert((err == nil) == ok, "payload %q: accepted=%v (err=%v), expected %v (sender %q, text %q)", clips(p), err == nil, err, ok, clips(en), clips(et))
	if !ok {
		c.StateS("refused")
		return
	}
	c.Assert(m.Name == refUnescape(en) && m.Text == refUnescape(et), "payload %q: sender %q, text %q; expected sender %q, text %q", clips(p), clips(m.Name), clips(m.Text), clips(refUnescape(en)), clips(refUnescape(et)))
	c.StateS(m.Name + "\x00" + m.Text)
}

// refPrivate splits the payload of a private message into its still escaped parts.
func refPrivate(p string) (parts [4]string, ok bool) {
	for i, d := range []string{" From: ", " $<", "> "} {
		k := strings.Index(p, d)
		if k < 0 {
			return parts, false
		}
		parts[i], p = p[:k], p[k+len(d):]
	}
	parts[3] = p
	return parts, true
}

// refMCTo splits the payload of a directed main chat message.
func refMCTo(p string) (parts [4]string, ok bool) {
	for i, d := range []string{" $", " "} {
		k := strings.Index(p, d)
		if k < 0 {
			return parts, false
		}
		parts[i], p = p[:k], p[k+len(d):]
	}
	parts[3] = p
	return parts, true
}

// directedCheck decodes the payload of a private or directed message and compares
// every part with the reference.
func directedCheck(c *C, mc bool, p string) {
	parts, ok := refPrivate(p)
	if mc {
		parts, ok = refMCTo(p)
	}
	if ok {
		for i, n := range parts {
			if i < 3 && (strings.ContainsAny(n, "$\x00\r\n\t") || len(n) > 256 || strings.Contains(n, "&#32;")) || !utf8.ValidString(n) || strings.Contains(n, "\x00") {
				ok = false
			}
		}
	}
	data := []byte(p)
	var got [4]string
	var err error
	if mc {
		m := &nmdc.MCTo{To: "stale", From: "stale", Text: "stale"}
		err = m.UnmarshalNMDC(nil, data)
		got = [4]string{m.To, m.From, "", m.Text}
	} else {
		m := &nmdc.PrivateMessage{To: "stale", From: "stale", Name: "stale", Text: "stale"}
		err = m.UnmarshalNMDC(nil, data)
		got = [4]string{m.To, m.From, m.Name, m.Text}
	}
	c.Op()
	c.Checked()
	c.Assert(string(data) == p, "decoding changed its input %q to %q", p, string(data))
	c.Assert((err == nil) == ok, "directed message %q: accepted=%v (err=%v), expected %v %q", clips(p), err == nil, err, ok, parts)
	if !ok {
		return
	}
	for i := range parts {
		parts[i] = refUnescape(parts[i])
	}
	c.Assert(got == parts, "directed message %q is decoded as %q, expected %q", clips(p), got, parts)
	c.StateS(fmt.Sprintf("%q", got))
}

func init() {
	register("C14", []string{"whitespace is Unicode white space, decided on the bytes after '>' as UTF-8"}, func(thorough bool) []S {
		n1, n2 := 7, 5
		if thorough {
			n1, n2 = 9, 6
		}
		small := []string{"<", ">", " ", "a", "\r", "\n"}
		big := []string{"<", ">", " ", "a", "\n", "\t", "\u00a0", "\u2003", "\u0085", "\xa0", "\xe2\x80", "é", "$", "\x00", "&gt;", "&lt;", "&#32;", "&amp;", "/%DCN036%/"}
		return []S{
			{Name: "short", Bound: fmt.Sprintf("all payloads of <= %d bytes over %q", n1+1, strings.Join(small, "")), Run: func(c *C) {
				p := "<"
				if c.Bool() {
					p = ""
				}
				for n := c.Choose(n1 + 1); n > 0; n-- {
					p += small[c.Choose(len(small))]
				}
				chatCheck(c, p)
			}},
			{Name: "tokens", Bound: fmt.Sprintf("'<' followed by <= %d of %d tokens (multi-byte white space, escapes, forbidden characters, invalid UTF-8)", n2, len(big)), Run: func(c *C) {
				p := "<"
				for n := c.Choose(n2 + 1); n > 0; n-- {
					p += big[c.Choose(len(big))]
				}
				chatCheck(c, p)
			}},
			{Name: "long", Bound: "names of 250..262 bytes, with and without escapes, closed in every way, followed by texts up to 70 KB", Run: func(c *C) {
				n := 250 + c.Choose(13)
				fill := pick(c, "n", "&gt;", "é", ">", "a>")
				name := strings.Repeat(fill, n/len(fill))
				for len(name) < n {
					name += "x"
				}
				end := pick(c, "> ", ">", ">\n", "", ">\u2003", ">x> ")
				text := pick(c, "", "t", "a > b", strings.Repeat("T ", 35000))
				p := "<" + name + end + text
				chatCheck(c, p)
			}},
			{Name: "directed", Bound: fmt.Sprintf("private and directed messages: all payloads of <= %d of 12 tokens (delimiters, their parts, escapes, line breaks), and around complete heads", n2+1), Run: func(c *C) {
				mc := c.Bool()
				toks := []string{" From: ", " $<", "> ", "a", " ", ">", "<", "$", "\n", "&gt;", "&#36;", "From: "}
				if mc {
					toks = []string{" $", " ", "a", "<", "> ", "$", "\n", "&gt;", "&#36;", "&#32;", "b", "\xff"}
				}
				p, q := "", ""
				n := n2 - 1
				switch c.Choose(3) {
				case 0:
					n = n2 + 1
				case 1:
					p, q = "a From: b $<b> ", ""
					if mc {
						p = "a $b "
					}
				case 2:
					p, q = "a From: b", " $<c> x $<y> z"
					if mc {
						p, q = "a $b", " x $<y> z"
					}
				}
				for n = c.Choose(n + 1); n > 0; n-- {
					p += toks[c.Choose(len(toks))]
				}
				directedCheck(c, mc, p+q)
			}},
			{Name: "line", Bound: "whole lines through the reader, all payloads of <= 5 bytes, after a message with another sender", Run: func(c *C) {
				p := ""
				for n := 1 + c.Choose(5); n > 0; n-- {
					p += small[c.Choose(len(small))]
				}
				r := nmdc.NewReader(bytes.NewReader([]byte("<other> x|" + p + "|<next> y|")))
				if _, err := r.ReadMsg(); err != nil {
					c.Fail("first message: %v", err)
				}
				en, et, ok := refChat(p)
				m, err := r.ReadMsg()
				c.Ops(3)
				c.Assert((err == nil) == ok, "line %q: err=%v, expected acceptance %v", p, err, ok)
				if ok {
					cm, isChat := m.(*nmdc.ChatMessage)
					c.Assert(isChat && cm.Name == en && cm.Text == et, "line %q: %s, expected sender %q text %q", p, dump(m), en, et)
				}
				m, err = r.ReadMsg()
				c.Assert(err == nil && dump(m) == `*ChatMessage{Name:"next" Text:"y"}`, "line after %q: %s, %v", p, dump(m), err)
				c.StateS(p)
			}},
		}
	})

	register("C15", nil, func(thorough bool) []S {
		magics := []byte{5, 0, 1, 0x7c, 0xff, 36, 96}
		alpha := []byte{'A', 'B', 0, 5, 0x24, 0x60, 0x7e, 0xff, 0x47, 0xc7, 0x12}
		n := 5
		if thorough {
			n = 6
		}
		check := func(c *C, m *nmdc.Lock, magic byte, full bool) {
			src := m.Lock
			if !m.NoExt {
				src = "EXTENDEDPROTOCOL" + src
			}
			if full {
				if m.PK != "" {
					src += " Pk=" + m.PK
				}
				if m.Ref != "" {
					if m.PK == "" {
						src += " "
					}
					src += "Ref=" + m.Ref
				}
			}
			before := dump(m)
			c.Assert(m.LockString(full) == src, "lock string of %s is %q, expected %q", before, m.LockString(full), src)
			k := m.CustomKey(magic, full)
			c.Ops(2)
			c.Assert(k != nil && !strings.ContainsAny(k.Key, "|\x00"), "key of %q contains the delimiter or NUL: %q", src, k)
			c.Assert(dump(m) == before, "computing the key changed the lock")
			if len(src) >= 2 {
				want := refKey(src, magic)
				c.Assert(k.Key == want, "key of lock %q with magic %d is %q, expected %q", src, magic, k.Key, want)
			} else {
				k2 := m.CustomKey(magic, full)
				c.Assert(k2.Key == k.Key, "key of lock %q is not a function of it: %q, %q", src, k.Key, k2.Key)
			}
			if magic == nmdc.DefaultKeyMagic && !full {
				c.Assert(m.Key().Key == k.Key, "Key and CustomKey differ for %q", src)
			}
			c.StateS(k.Key)
		}
		wire := func(c *C, m *nmdc.Lock) {
			// over the wire
			if strings.ContainsAny(m.Lock+m.PK+m.Ref, "|\x00") || strings.Contains(m.Lock, " ") || strings.Contains(m.PK, "Ref=") ||
				m.NoExt && strings.HasPrefix(m.Lock, "EXTENDEDPROTOCOL") {
				return
			}
			l, err := nmdc.Marshal(nil, m)
			c.Assert(err == nil, "encoding %s: %v", dump(m), err)
			m2, err := nmdc.Unmarshal(nil, l)
			c.Ops(2)
			c.Assert(err == nil && dump(m2) == dump(m), "lock %s over the wire (%q) is %s, %v", dump(m), l, dump(m2), err)
			k := m.Key()
			kl, err := nmdc.Marshal(nil, k)
			c.Assert(err == nil, "encoding key of %s: %v", dump(m), err)
			k2, err := nmdc.Unmarshal(nil, kl)
			c.Ops(2)
			c.Assert(err == nil && dump(k2) == dump(k), "key %s over the wire (%q) is %s, %v", dump(k), kl, dump(k2), err)
			c.Assert(m2.(*nmdc.Lock).Key().Key == k.Key, "both sides compute different keys for %s", dump(m))
		}
		return []S{
			{Name: "two", Bound: "all locks of 0..2 bytes over all byte values x 7 magics, with and without the extension prefix", Run: func(c *C) {
				m := &nmdc.Lock{NoExt: c.Choose(2) == 0}
				l := make([]byte, c.Choose(3))
				for i := range l {
					l[i] = byte(c.Choose(256))
				}
				m.Lock = string(l)
				check(c, m, magics[c.Choose(len(magics))], false)
				wire(c, m)
			}},
			{Name: "magic", Bound: "all 256 magics x locks of 0..3 bytes over key-relevant bytes, both modes", Run: func(c *C) {
				m := &nmdc.Lock{NoExt: c.Choose(2) == 0}
				l := make([]byte, c.Choose(4))
				for i := range l {
					l[i] = alpha[c.Choose(len(alpha))]
				}
				m.Lock = string(l)
				check(c, m, byte(c.Choose(256)), c.Bool())
			}},
			{Name: "long", Bound: fmt.Sprintf("all locks of length 3..%d over %d key-relevant bytes, default magic", n, len(alpha)), Run: func(c *C) {
				m := &nmdc.Lock{NoExt: true}
				l := make([]byte, 3+c.Choose(n-2))
				for i := range l {
					l[i] = alpha[c.Choose(len(alpha))]
				}
				m.Lock = string(l)
				check(c, m, nmdc.DefaultKeyMagic, false)
			}},
			{Name: "full", Bound: "locks with key material and reference built from tokens, both modes, over the wire", Run: func(c *C) {
				toks := []string{"", "a", "LOCK", "Pk=", "Ref=x", " ", "pk v", "$", "\xfe", "EXTENDEDPROTOCOL", strings.Repeat("L", 300), "="}
				m := &nmdc.Lock{NoExt: c.Choose(2) == 0}
				m.Lock = toks[c.Choose(len(toks))]
				m.PK = toks[c.Choose(len(toks))] + toks[c.Choose(len(toks))]
				m.Ref = toks[c.Choose(len(toks))]
				check(c, m, magics[c.Choose(2)], c.Bool())
				wire(c, m)
			}},
		}
	})
}

// refKey is the protocol's key function.
func refKey(lock string, magic byte) string {
	n := len(lock)
	var b strings.Builder
	for i := 0; i < n; i++ {
		var v byte
		if i == 0 {
			v = lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic
		} else {
			v = lock[i] ^ lock[i-1]
		}
		v = v<<4 | v>>4
		switch v {
		case 0, 5, 36, 96, 124, 126:
			fmt.Fprintf(&b, "/%%DCN%03d%%/", v)
		default:
			b.WriteByte(v)
		}
	}
	return b.String()
}
