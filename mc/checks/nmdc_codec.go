package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
)

// repeatValues as the depth makes the deep field a repeated unit.
const repeatValues = -100

func nmdcCodecCheck(c *C, sp nspec, deep, deepN int) {
	g := &ngen{c: c, deep: deep, deepN: deepN, sweep: deepN == 0, marks: -deepN}
	if deepN == repeatValues {
		g.marks, g.repeat = 0, true
	}
	m, payload := sp.gen(g)
	want := nline(sp.typ, payload)
	orig := dumpMsg(m)
	if c.Tracing() {
		c.Logf("message %s, specified line %q, must be refused: %v", orig, want, g.bad)
	}
	pre := "$Before x|"
	buf := bytes.NewBufferString(pre)
	err := nmdc.MarshalTo(nil, buf, m)
	c.Ops(3)
	c.Assert(dumpMsg(m) == orig, "encoding modified the message: %s became %s", orig, dumpMsg(m))
	c.Assert(strings.HasPrefix(buf.String(), pre), "encoding %s damaged the line encoded before it: %q", orig, buf.String())
	got, err2 := nmdc.Marshal(nil, m)
	c.Assert((err == nil) == (err2 == nil), "encoding %s twice: %v then %v", orig, err, err2)
	if g.bad {
		c.Assert(err != nil, "%s cannot be represented but was encoded as %q", orig, string(got))
		c.StateS("refused " + orig)
		return
	}
	if g.free && err != nil {
		c.StateS("refused " + orig)
		return
	}
	c.Assert(err == nil, "encoding %s failed: %v", orig, err)
	if !g.free {
		c.Assert(string(got) == want, "%s encodes to %q, specified line is %q", orig, string(got), want)
		c.Assert(buf.String() == pre+want, "encoding %s after another line gives %q", orig, buf.String())
	}
	oneLine(c, string(got))
	m2, err := nmdc.Unmarshal(nil, got)
	c.Assert(err == nil, "line %q of %s is not accepted: %v", string(got), orig, err)
	c.Assert(m2.Type() == sp.typ, "line %q decoded as type %q", string(got), m2.Type())
	c.Assert(dumpMsg(m2) == orig, "line %q decodes to %s, encoded was %s", string(got), dumpMsg(m2), orig)
	// into a message that was used before
	m3 := nmdc.NewMessage(sp.typ)
	if err := m3.UnmarshalNMDC(nil, []byte(sp.dirty)); err != nil {
		c.Fail("internal: sample payload %q of %q: %v", sp.dirty, sp.typ, err)
	}
	p := strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(string(got), "$"+sp.typ), " "), "|")
	if sp.typ == "" {
		p = strings.TrimSuffix(string(got), "|")
	}
	err = m3.UnmarshalNMDC(nil, []byte(p))
	c.Assert(err == nil && dumpMsg(m3) == orig, "decoding %q into a message decoded before from %q gives %s (%v), want %s", p, sp.dirty, dumpMsg(m3), err, orig)
	c.StateS(orig)
}

func oneLine(c *C, l string) {
	c.Assert(strings.Count(l, "|") == 1 && l[len(l)-1] == '|' && !strings.Contains(l, "\x00"), "%q is not exactly one line", l)
}

func init() {
	register("C09", []string{
		"unescaped structural fields (addresses, hub software, tag values, list separators) are taken from their legal alphabets plus the delimiter and NUL",
		"texts spelling a complete legacy escape (/%DCN036%/ etc.) and names with spaces in space-delimited places are outside the property's domain",
	}, func(thorough bool) []S {
		var out []S
		specs := nmdcSpecs()
		dev, deepN := 3, 3
		if thorough {
			dev, deepN = 3, 4
		}
		out = append(out, S{"fields", fmt.Sprintf("%d message types, every field over %d tokens, up to %d fields differ from their default", len(specs), len(nTokens), dev), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			d := dev
			if d > 2 && sp.fields > 6 {
				d = 2
			}
			c.SetDeviations(d)
			nmdcCodecCheck(c, sp, -1, 0)
		}})
		out = append(out, S{"deep", fmt.Sprintf("every message type and text field: all strings of length <= %d over %q", deepN, nAlpha), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			if sp.fields == 0 {
				c.Skip()
			}
			nmdcCodecCheck(c, sp, c.Choose(sp.fields), deepN)
		}})
		out = append(out, S{"characters", fmt.Sprintf("every message type and text field: every ASCII character and %d others, alone, doubled, before, after, around and inside the default value of the field", len(sweepRunes)), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			if sp.fields == 0 {
				c.Skip()
			}
			nmdcCodecCheck(c, sp, c.Choose(sp.fields), 0)
		}})
		out = append(out, S{"registry", "every registered type", func(c *C) {
			for _, sp := range specs {
				if sp.typ == "XRaw" {
					continue
				}
				c.Assert(nmdc.IsRegistered(sp.typ) && nmdc.IsRegisteredBytes([]byte(sp.typ)) && nmdc.NewMessage(sp.typ).Type() == sp.typ, "type %q is not registered", sp.typ)
			}
			c.Assert(!nmdc.IsRegistered("XRaw"), "unknown type is registered")
		}})
		return out
	})
}

// relayCheck decides C10 for one received line.
func relayCheck(c *C, line string) {
	m, err := nmdc.Unmarshal(nil, []byte(line))
	c.Op()
	if err != nil {
		return
	}
	d1 := dumpMsg(m)
	l2, err := nmdc.Marshal(nil, m)
	c.Op()
	if err != nil {
		c.StateS("relay refused: " + d1)
		return
	}
	c.Logf("received %q, decoded %s, relayed %q", line, d1, string(l2))
	s2 := string(l2)
	if strings.Count(s2, "|") != 1 || s2[len(s2)-1] != '|' || strings.Contains(s2, "\x00") {
		c.Fail("received %q (%s), relayed %q is not exactly one line", line, d1, s2)
	}
	m2, err := nmdc.Unmarshal(nil, l2)
	c.Ops(2)
	c.Assert(err == nil, "received %q (%s), relayed %q is refused: %v", line, d1, s2, err)
	d2 := dumpMsg(m2)
	c.Assert(m.Type() == m2.Type() && d1 == d2, "received %q means %s, relayed %q means %s", line, d1, s2, d2)
	l3, err := nmdc.Marshal(nil, m2)
	c.Assert(err == nil, "second relay of %q is refused: %v", s2, err)
	if string(l3) != s2 {
		mi, ok := m2.(*nmdc.MyINFO)
		if !ok || len(mi.Extra) < 2 || len(l3) != len(s2) {
			c.Fail("received %q, relayed %q, then %q", line, s2, string(l3))
		}
	}
	c.StateS(d1)
}

var relayTokens = []string{"a", " ", "$", "<", ">", "&#36;", "&#124;", "&#32;", "&#92;", "&amp;", "&", "/%DCN036%/", "/%DCN124%/", "/%DCN000%/", "\\", "\r", "\n", "1", "/", ",", ":", "?", "(", ")", "\x05", "\xc3\xa9", "\xff", "&lt;", "&gt;", "&#10;", "$$", "From:", "\t"}

var relayTokensSmall = []string{"a", " ", "$", "<", ">", "&#36;", "&#124;", "&#32;", "&amp;", "\\", "1", "/", "&lt;"}

// templates: slots with alternatives, the first is the default.
type relayTemplate struct {
	typ   string
	slots [][]string
}

var slotText = []string{"x", "", " ", "a b", "&#36;", "&#124;", "&amp;#124;", "&#32;", "x&#32;", "/%DCN124%/", "/%DCN005%/", "&lt;", "<", ">", "\\", "&#92;", "(", " (", ")", "1/2", " 1/2", "\r", "\n", "&#0;", "&#10;", "?", "TTH:", ",", ":", "Hub:", "&#x5;", "é"}
var slotName = []string{"x", "", "a&#32;b", "&#36;", "&#124;", "&amp;#124;", "/%DCN036%/", "&lt;", "&gt;", "<", ">", "&#10;", "&nbsp;", "&#13;", "&#0;", "é", " "}
var slotNum = []string{"1", "0", "", "-1", " 1", "1 ", "01", "+1", "18446744073709551615", "18446744073709551616", "9223372036854775808", "x", "1x", "32768", "-0"}
var slotRaw = []string{"h:1", "", "a,b", "x&#124;", "x/%DCN124%/", "&#36;", "S", "N", "x<", ">", "\\", "\r", "é", "\xff", "("}

func lit(s string) []string { return []string{s} }

func alt(vals ...string) []string { return vals }

var hashText = []string{b32(hashes[0][:]), b32(hashes[0][:])[:38], b32(hashes[0][:]) + "A", strings.ToLower(b32(hashes[0][:])), b32(hashes[0][:])[:38] + "B", b32(hashes[0][:])[:38] + "="}

func relayTemplates() []relayTemplate {
	tag := func(name []string) []string { return name }
	return []relayTemplate{
		{"MyINFO", [][]string{lit("$ALL "), slotName, lit(" "), slotText, alt("<", "", "<<", "< "), alt("++", "", "a b", "a:b", "a,b", "a<b", "&#124;", "/%DCN036%/"), alt(" V:1", "", " v:1", " V:", ",V:1", " V:&#124;", " V:1 "),
			alt(",M:A", "", ",M:", ",M:PP", ",M: ", ",m:P", ",M:&", ",M:\\", ",M:>"), alt(",H:1/2/3", "", ",H:", ",H:1", ",H:1/2", ",h:1/2/3", ",H: 1/ 2/3 ", ",H:-1/2/3", ",H:+1/0/0"), alt(",S:4", "", ",S:", ",s:5", ",S:x", ",S:-4", ",S:04"),
			alt("", ",L:5", ",l:5", ",\x05:1", ",[:1", ",{:1", ",O", ",OP:1", ",", ",OP:a:b", ",\xff:1", ",é:1", ",L:&#124;"), alt(">", "", ">>", "x", "> "), lit("$"), alt(" ", "", "A", "<", ",", "&", "\x00", "  "), lit("$"), slotText, alt("\x01", "", "\x11", "1", "&", ";", "\xff"), lit("$"), slotText, lit("$"), slotNum, alt("$", "", "$$", "$x")}},
		{"SR", [][]string{slotName, lit(" "), slotText, alt("\\", "", "\\\\", "/", "\x05", " "), slotText, alt("\x05", "", " ", "\x05\x05"), slotNum, lit(" "), slotNum, alt("/", "", "//"), slotNum, alt("\x05", "", " "), alt("TTH:", "", "hub", "a (b", "&#5;", "TTH", "&#84;TH:"), hashText, alt(" (", "(", "", " (x) ("), slotRaw, alt(")", "", "))", ") "), alt("", "\x05", "\x05x", "\x05a b", "\x05&#124;", "x")}},
		{"SR", [][]string{lit("u "), slotText, alt(" ", "\x05", ""), slotText, alt(" ", "\x05", ""), slotNum, lit("/"), slotNum, lit("\x05"), slotText, lit(" ("), slotRaw, lit(")"), alt("", "\x05x", "\x05a (b)")}},
		{"Search", [][]string{alt("Hub:", "", "Hub", "hub:"), alt("x", "", "&#32;", "&#36;", "&#124;", "1.1.1.1:1", "\\", "a?b", "&lt;"), alt(" ", "", "  "), alt("T", "F", "", "x"), lit("?"), alt("T", "F", "", "x"), lit("?"), slotNum, lit("?"), alt("1", "9", "0", "", "01", "99", "18446744073709551615", "18446744073709551616"), lit("?"), alt("", "TTH:", "$", " ", "&#36;", "a b"), alt("", hashText[0], hashText[1], hashText[2], hashText[3], "x"), slotText, alt("", "$", "$$")}},
		{"HubINFO", [][]string{slotText, lit("$"), slotRaw, lit("$"), slotText, lit("$"), slotNum, lit("$"), slotNum, lit("$"), slotNum, lit("$"), slotNum, lit("$"), alt("a 1", "a", "", " ", "a ", " a", "a  1", "&#124;", "\\"), lit("$"), slotText, lit("$"), slotText, alt("$", "", "$$"), alt("utf8", "", "a b", "&#124;"), alt("", "$", "$x", "$x$y$z")}},
		{"HubINFO", [][]string{slotText, alt("", "$h"), alt("", "$d"), alt("", "$1"), alt("", "$2")}},
		{"ADCGET", [][]string{slotText, lit(" "), slotText, lit(" "), slotNum, alt(" ", "", "  "), slotNum, alt("", " ZL1", " ", " ZL2", " DB1", " DB", " DBx", " x"), alt("", " ZL1", " DB2", " DB18446744073709551615", " ", "  ZL1")}},
		{"ADCSND", [][]string{slotText, lit(" "), slotText, lit(" "), slotNum, alt(" ", "", "  "), slotNum, alt("", " ZL1", " ", "  ZL1", " x", " ZL1 ")}},
		{"UserCommand", [][]string{slotNum, alt(" ", "", "  "), alt("3", "0", "", "1x", "x", "-1", "99999999999999999999", "3;1"), alt(" ", "", "  "), slotText, alt("\\", "", "\\\\", " "), slotText, alt(" $", "", "$", " ", "$$", " $ "), slotText, alt("", " ", "\n", "&#32;", "&#160;", "\u00a0", "\u0085")}},
		{"ConnectToMe", [][]string{slotName, alt(" ", "", "  "), slotRaw, alt("", "S", "N", "R", "NS", "RS", "SS", "NN", "RN"), alt("", " ", " x", " a b", " &#32;", " &#36;", "  ")}},
		{"To:", [][]string{slotName, alt(" From: ", " From:", " From:  ", "From: "), slotName, alt(" $<", "$<", " <", "  $<"), slotName, alt("> ", ">", ">  ", " > "), slotText, slotText}},
		{"MCTo", [][]string{slotName, alt(" $", "$", "  $", " "), slotName, alt(" ", "", "  "), slotText, slotText}},
		{"", [][]string{alt("<", "", "&lt;", "&#60;", "< ", "<<"), slotName, alt("> ", ">", "", "&gt; ", "> <", ">\n", ">\u00a0", ">\u2003"), slotText, slotText, alt("", " ", ">", "> ")}},
		{"UserIP", [][]string{slotName, alt(" ", "", "  "), slotRaw, alt("$$", "", "$", "$$$", "$$$$"), slotName, alt(" ", ""), slotRaw, alt("$$", "", "$", "\r", "$$\r")}},
		{"OpList", [][]string{slotName, alt("$$", "", "$", "$$$", "$$$$"), slotName, alt("$$", "", "$", "$$$", "$$$$")}},
		{"RevConnectToMe", [][]string{slotName, alt(" ", "", "  "), slotName, alt("", " ", " x")}},
		{"Direction", [][]string{alt("Upload", "Download", "", "upload"), alt(" ", "", "  "), slotNum}},
		{"Lock", [][]string{alt("EXTENDEDPROTOCOL", "", "EXTENDEDPROTOCOLEXTENDEDPROTOCOL"), slotRaw, alt(" ", "", "  "), alt("Pk=", "", "pk=", "Pk=Pk="), slotRaw, alt("Ref=", "", " Ref=", "Ref=Ref="), slotRaw}},
		{"SA", [][]string{hashText, alt(" ", "", "  "), slotRaw, alt("", " ", " x")}},
		{"SP", [][]string{hashText, alt(" ", "", "  "), slotName}},
		{"Supports", [][]string{slotRaw, alt(" ", "", "  "), slotRaw, alt("", " ")}},
		{"XUnknown", [][]string{slotText, slotRaw, tag(slotName)}},
	}
}

func init() {
	register("C10", []string{"messages are relayed without a text encoder (UTF-8 connection)"}, func(thorough bool) []S {
		var out []S
		types := append([]string{"XUnknown"}, nmdc.RegisteredTypes()...)
		n1, n2, dev := 3, 4, 3
		if thorough {
			n1, n2, dev = 4, 5, 4
		}
		out = append(out, S{"tokens", fmt.Sprintf("every type, all payloads of <= %d tokens out of %d", n1, len(relayTokens)), func(c *C) {
			t := types[c.Choose(len(types))]
			n := c.Choose(n1 + 1)
			p := ""
			for i := 0; i < n; i++ {
				p += relayTokens[c.Choose(len(relayTokens))]
			}
			relayCheck(c, nline(t, p))
		}})
		out = append(out, S{"tokens-small", fmt.Sprintf("every type, all payloads of <= %d tokens out of %d", n2, len(relayTokensSmall)), func(c *C) {
			t := types[c.Choose(len(types))]
			p := ""
			for i := 0; i < n2; i++ {
				p += relayTokensSmall[c.Choose(len(relayTokensSmall))]
			}
			relayCheck(c, nline(t, p))
		}})
		out = append(out, S{"bytes", "every type, all byte strings of length <= 2", func(c *C) {
			t := types[c.Choose(len(types))]
			n := c.Choose(3)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(c.Choose(256))
			}
			if bytes.IndexByte(b, '|') >= 0 {
				c.Skip()
			}
			relayCheck(c, nline(t, string(b)))
		}})
		tm := relayTemplates()
		out = append(out, S{"templates", fmt.Sprintf("%d line templates, up to %d slots deviate from their default", len(tm), dev), func(c *C) {
			t := tm[c.Choose(len(tm))]
			c.SetDeviations(dev)
			p := ""
			for _, s := range t.slots {
				p += s[c.Dev(len(s))]
			}
			if strings.Contains(p, "|") {
				c.Skip()
			}
			relayCheck(c, nline(t.typ, p))
		}})
		// names of commands themselves
		out = append(out, S{"commands", "all command names of <= 4 tokens", func(c *C) {
			toks := []string{"A", "z", "$", " ", ":", "-", "/", "\\", "é", "<", "&", "9", "\n"}
			n := 1 + c.Choose(4)
			p := "$"
			for i := 0; i < n; i++ {
				p += toks[c.Choose(len(toks))]
			}
			relayCheck(c, p+"|")
		}})
		return out
	})
}
