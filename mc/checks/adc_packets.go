package checks

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/direct-connect/go-dc/adc"
)

// C16: ADC packets.

type apacket struct {
	kind    byte
	src, to string
	cid     adc.CID
	sel     []adc.FeatureSel
}

func (p apacket) header(cmd string) string {
	s := string([]byte{p.kind}) + cmd
	switch p.kind {
	case 'B':
		s += " " + p.src
	case 'D', 'E':
		s += " " + p.src + " " + p.to
	case 'F':
		s += " " + p.src
		var b strings.Builder
		for _, f := range p.sel {
			c := " -"
			if f.Sel {
				c = " +"
			}
			b.WriteString(c + f.Fea.String())
		}
		s += b.String()
	case 'U':
		s += " " + b32(p.cid[:])
	}
	return s
}

func (p apacket) line(cmd, payload string) string {
	if payload == "" {
		return p.header(cmd) + "\n"
	}
	return p.header(cmd) + " " + payload + "\n"
}

func (p apacket) packet(m adc.Message) adc.Packet {
	switch p.kind {
	case 'B':
		return &adc.BroadcastPacket{ID: sid(p.src), Msg: m}
	case 'C':
		return &adc.ClientPacket{Msg: m}
	case 'D':
		return &adc.DirectPacket{ID: sid(p.src), To: sid(p.to), Msg: m}
	case 'E':
		return &adc.EchoPacket{ID: sid(p.src), To: sid(p.to), Msg: m}
	case 'F':
		return &adc.FeaturePacket{ID: sid(p.src), Sel: p.sel, Msg: m}
	case 'H':
		return &adc.HubPacket{Msg: m}
	case 'I':
		return &adc.InfoPacket{Msg: m}
	}
	return &adc.UDPPacket{ID: p.cid, Msg: m}
}

// write sends the message by one of the entry points.
func (p apacket) write(w *adc.Writer, how int, m adc.Message) error {
	src, to := sid(p.src), sid(p.to)
	if how == 0 || p.kind == 'U' {
		return w.WritePacket(p.packet(m))
	}
	if how == 1 {
		switch p.kind {
		case 'B':
			return w.WriteBroadcast(src, m)
		case 'C':
			return w.WriteClient(m)
		case 'D':
			return w.WriteDirect(src, to, m)
		case 'E':
			return w.WriteEcho(src, to, m)
		case 'F':
			return w.WriteFeature(src, p.sel, m)
		case 'H':
			return w.WriteHub(m)
		}
		return w.WriteInfo(m)
	}
	return p.stream(w).WriteMessage(m)
}

func (p apacket) stream(w *adc.Writer) adc.WriteStream {
	src, to := sid(p.src), sid(p.to)
	switch p.kind {
	case 'B':
		return w.BroadcastStream(src)
	case 'C':
		return w.ClientStream()
	case 'D':
		return w.DirectStream(src, to)
	case 'E':
		return w.EchoStream(src, to)
	case 'F':
		return w.FeatureStream(src, p.sel)
	case 'H':
		return w.HubStream()
	}
	return w.InfoStream()
}

// check compares a decoded packet with the sent one.
func (p apacket) check(c *C, what string, got adc.Packet, cmd, msg string) {
	c.Assert(got.Kind() == p.kind, "%s: kind %q", what, got.Kind())
	want := p.packet(got.Message())
	// the message is compared separately
	c.Assert(reflect.TypeOf(got) == reflect.TypeOf(want) && dump(got) == dump(want), "%s: %s, want %s", what, dump(got), dump(want))
	c.Assert(got.Message().Cmd().String() == cmd, "%s: command %q", what, got.Message().Cmd())
	c.Assert(adcDump(got.Message()) == msg, "%s: message %s, want %s", what, adcDump(got.Message()), msg)
	if pp, ok := got.(adc.PeerPacket); ok {
		c.Assert(pp.Source().String() == p.src, "%s: source %q", what, pp.Source())
	} else {
		c.Assert(strings.IndexByte("CHIU", p.kind) >= 0, "%s: no source", what)
	}
	if tp, ok := got.(adc.TargetPacket); ok {
		c.Assert(tp.Target().String() == p.to, "%s: target %q", what, tp.Target())
	} else {
		c.Assert(strings.IndexByte("DE", p.kind) < 0, "%s: no target", what)
	}
}

var aSIDs = []string{"ABCD", "AAAA", "7777", "AAAB", "Z2A7"}
var aFeats = []string{"TCP4", "SEGA", "A000", "ZZZ9", "BAS0"}

func choosePacket(c *C, maxSel int) apacket {
	p := apacket{kind: "BCDEFHIU"[c.Choose(8)]}
	switch p.kind {
	case 'B':
		p.src = aSIDs[c.Choose(len(aSIDs))]
	case 'D', 'E':
		p.src = aSIDs[c.Choose(len(aSIDs))]
		p.to = aSIDs[c.Choose(len(aSIDs))]
	case 'F':
		p.src = aSIDs[c.Choose(2)]
		n := c.Choose(maxSel + 1)
		for i := 0; i < n; i++ {
			var f adc.Feature
			copy(f[:], aFeats[c.Choose(len(aFeats))])
			p.sel = append(p.sel, adc.FeatureSel{Fea: f, Sel: c.Bool()})
		}
	case 'U':
		p.cid = adc.CID(hashes[c.Choose(len(hashes))])
	}
	return p
}

type amsg struct {
	m       adc.Message
	cmd     string
	payload string
	dump    string // decoded form
	rawOnly bool   // unknown command
}

func rawOf(cmd, data string) *adc.RawMessage {
	m := &adc.RawMessage{Data: []byte(data)}
	copy(m.Type[:], cmd)
	if data == "" {
		m.Data = nil
	}
	return m
}

func aMessages() []amsg {
	s1 := sid("ABCD")
	l := []amsg{
		{m: rawOf("XYZ", ""), rawOnly: true},
		{m: rawOf("XYZ", "a b"), payload: "a b", rawOnly: true},
		{m: rawOf("X1z", " lead"), payload: " lead", rawOnly: true},
		{m: rawOf("QQQ", "a\\q  \xff\r"), payload: "a\\q  \xff\r", rawOnly: true},
		{m: rawOf("QQQ", " "), payload: " ", rawOnly: true},
		{m: rawOf("QQQ", strings.Repeat("data ", 1000)), payload: strings.Repeat("data ", 1000), rawOnly: true},
		{m: adc.ChatMessage{Text: "a b\n\\"}, payload: `a\sb\n\\`},
		{m: &adc.ChatMessage{Text: "x", Me: true, PM: &s1, TS: 5}, payload: `x PMABCD ME1 TS5`},
		{m: adc.ChatMessage{}, payload: ``},
		{m: adc.ChatMessage{TS: 7}, payload: ` TS7`},
		{m: adc.ZOn{}, payload: ``},
		{m: adc.Status{Sev: adc.Fatal, Code: 7, Msg: "no no"}, payload: `207 no\sno`},
		{m: adc.Supported{Features: adc.ModFeatures{adc.Feature{'B', 'A', 'S', 'E'}: true}}, payload: `ADBASE`},
		{m: adc.RevConnectRequest{Proto: "ADC/1.0"}, payload: `ADC/1.0 `},
		{m: adc.SIDAssign{SID: s1}, payload: `ABCD`},
		{m: &adc.UserInfoMod{{Tag: [2]byte{'N', 'I'}, Value: "a b"}}, payload: `NIa\sb`},
		{m: adc.SearchRequest{And: []string{"a", "b c"}, Type: adc.FileTypeDir}, payload: `ANa ANb\sc TY2`},
		{m: adc.Disconnect{ID: s1, By: s1}, payload: `ABCD IDABCD`},
	}
	for i := range l {
		l[i].cmd = l[i].m.Cmd().String()
		l[i].dump = adcDump(l[i].m)
	}
	return l
}

func init() {
	register("C16", []string{
		"payloads of feature packets do not start with '+' or '-' (they cannot be told from selectors)",
		"raw payloads contain no line breaks and null bytes",
	}, func(thorough bool) []S {
		msgs := aMessages()
		sels := 3
		if thorough {
			sels = 4
		}
		one := S{"packets", fmt.Sprintf("8 kinds x ids x up to %d selectors x %d payloads x 3 writer entry points, decoded directly and over a connection, relayed", sels, len(msgs)), func(c *C) {
			p := choosePacket(c, sels)
			am := msgs[c.Choose(len(msgs))]
			want := p.line(am.cmd, am.payload)
			c.Logf("specified line %q", want)
			pk := p.packet(am.m)
			c.Assert(pk.Kind() == p.kind && dump(pk.Message()) == dump(am.m), "accessors of %s", dump(pk))
			pre := "Bxxx before\n"
			buf := bytes.NewBufferString(pre)
			err := pk.MarshalPacketADC(buf)
			c.Op()
			c.Assert(err == nil && buf.String() == pre+want, "%s encodes to %q (%v), specified line %q", dump(pk), buf.String(), err, want)
			c.Assert(adcDump(am.m) == am.dump, "encoding changed the message to %s", adcDump(am.m))
			// all the entry points on one writer
			var out bytes.Buffer
			w := adc.NewWriter(&out)
			for how := 0; how < 3; how++ {
				err := p.write(w, how, am.m)
				c.Op()
				c.Assert(err == nil, "entry point %d: %v", how, err)
			}
			if p.kind == 'U' {
				err = w.Flush()
			} else {
				err = p.stream(w).Flush()
			}
			c.Assert(err == nil && out.String() == want+want+want, "written %q (%v), specified line %q", out.String(), err, want)
			// decode
			line := []byte(want)
			raw := fmt.Sprintf(`*RawMessage{Type:x%q Data:x%q}`, am.cmd, am.payload)
			got, err := adc.DecodePacketRaw(line)
			c.Assert(err == nil, "line %q is refused: %v", want, err)
			p.check(c, "raw", got, am.cmd, raw)
			dec := raw
			if !am.rawOnly {
				dec = am.dump
				if _, ok := am.m.(*adc.UserInfoMod); ok {
					dec = adcDump(adc.UserInfo{Name: "a b"})
				}
			}
			err = got.DecodeMessage()
			c.Ops(2)
			c.Assert(err == nil, "message of %q is refused: %v", want, err)
			p.check(c, "decoded", got, am.cmd, dec)
			got2, err := adc.DecodePacket(line)
			c.Assert(err == nil, "line %q is refused: %v", want, err)
			p.check(c, "packet", got2, am.cmd, dec)
			// to a given message
			got3, _ := adc.DecodePacketRaw(line)
			var to adc.Message
			rt := reflect.TypeOf(am.m)
			if rt.Kind() == reflect.Ptr {
				rt = rt.Elem()
			}
			if am.rawOnly {
				to = rawOf(am.cmd, "old")
			} else {
				to = reflect.New(rt).Interface().(adc.Message)
			}
			err = got3.DecodeMessageTo(to)
			c.Assert(err == nil && adcDump(to) == am.dump, "decoding %q into a message: %s, %v, want %s", want, adcDump(to), err, am.dump)
			bad := &adc.Password{}
			c.Assert(got3.DecodeMessageTo(bad) != nil, "%q was decoded into a message of another type", want)
			c.Assert(got2.DecodeMessageTo(rawOf("QQX", "")) != nil, "decoded into another type")
			// over a connection, then relayed
			rd := adc.NewReader(bytes.NewReader(out.Bytes()))
			var out2 bytes.Buffer
			w2 := adc.NewWriterSize(&out2, 16)
			for i := 0; i < 3; i++ {
				var g adc.Packet
				var m adc.Message
				switch {
				case i == 0:
					g, err = rd.ReadPacket()
				case i == 1:
					g, err = rd.ReadPacketRaw()
				case p.kind == 'I':
					m, err = rd.ReadInfo()
				case p.kind == 'C':
					m, err = rd.ReadClient()
				default:
					g, err = rd.ReadPacket()
				}
				c.Op()
				c.Assert(err == nil, "reading line %d of %q: %v", i, out.String(), err)
				d := dec
				if i == 1 {
					d = raw
				}
				if m != nil {
					c.Assert(adcDump(m) == dec, "message read: %s, want %s", adcDump(m), dec)
					continue
				}
				p.check(c, "read", g, am.cmd, d)
				if i == 1 || am.rawOnly {
					out2.Reset()
					if err := w2.WritePacket(g); err != nil || w2.Flush() != nil {
						c.Fail("relaying %q: %v", want, err)
					}
					c.Assert(out2.String() == want, "%q is relayed as %q", want, out2.String())
				}
			}
			_, err = rd.ReadPacket()
			c.Assert(err == io.EOF, "end: %v", err)
			c.StateS(want)
		}}
		al := " a\\+-\r|\xff\t"
		n := 4
		if thorough {
			n = 6
		}
		pay := S{"payloads", fmt.Sprintf("8 kinds x unknown command x all payloads of <= %d bytes over %q: relay byte for byte", n, al), func(c *C) {
			p := choosePacket(c, 1)
			if p.src > "B" || p.to > "B" {
				c.Skip()
			}
			s := chooseStr(c, al, 0, n)
			if p.kind == 'F' && s != "" && (s[0] == '+' || s[0] == '-') {
				c.Skip()
			}
			want := p.line("Q1q", s)
			got, err := adc.DecodePacket([]byte(want))
			c.Op()
			c.Assert(err == nil, "line %q is refused: %v", want, err)
			p.check(c, "packet", got, "Q1q", fmt.Sprintf(`*RawMessage{Type:x"Q1q" Data:x%q}`, s))
			var buf bytes.Buffer
			err = got.MarshalPacketADC(&buf)
			c.Op()
			c.Assert(err == nil && buf.String() == want, "%q is relayed as %q, %v", want, buf.String(), err)
			c.StateS(want)
		}}
		two := S{"sequences", "all sequences of 3 writes out of all kinds x 5 messages x entry points on one writer, interleaved streams, read back", func(c *C) {
			kinds := []apacket{{kind: 'I'}, {kind: 'B', src: "ABCD"}, {kind: 'D', src: "ABCD", to: "7777"}, {kind: 'F', src: "AAAA", sel: []adc.FeatureSel{{Fea: adc.Feature{'T', 'C', 'P', '4'}, Sel: true}}}, {kind: 'U', cid: adc.CID(hashes[0])}, {kind: 'H'}}
			sel := []amsg{msgs[0], msgs[1], msgs[7], msgs[8], msgs[11]}
			var out bytes.Buffer
			w := adc.NewWriter(&out)
			streams := map[int]adc.WriteStream{}
			for i, p := range kinds {
				if p.kind != 'U' {
					streams[i] = p.stream(w)
				}
			}
			want := ""
			type sent struct {
				p apacket
				m amsg
			}
			var list []sent
			for i := 0; i < 3; i++ {
				k := c.Choose(len(kinds))
				am := sel[c.Choose(len(sel))]
				p := kinds[k]
				var err error
				if s := streams[k]; s != nil && c.Bool() {
					err = s.WriteMessage(am.m)
				} else {
					err = p.write(w, 0, am.m)
				}
				c.Op()
				c.Assert(err == nil, "write: %v", err)
				want += p.line(am.cmd, am.payload)
				list = append(list, sent{p, am})
			}
			err := w.Flush()
			c.Assert(err == nil && out.String() == want, "written %q, %v, want %q", out.String(), err, want)
			rd := adc.NewReader(&out)
			for _, s := range list {
				g, err := rd.ReadPacket()
				c.Op()
				c.Assert(err == nil, "reading %q: %v", want, err)
				s.p.check(c, "read", g, s.m.cmd, s.m.dump)
			}
			c.StateS(want)
		}}
		return []S{one, pay, two}
	})
}
