package checks

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/direct-connect/go-dc/adc"
)

// C18: hostile ADC input.

// aParsed is what the reference parser makes of a line.
type aParsed struct {
	bad     bool // must be refused
	odd     bool // may be refused: unusual bytes in names and ids
	p       apacket
	cmd     string
	payload string
}

func b32Text(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'A' && c <= 'Z' || c >= '2' && c <= '7') {
			return false
		}
	}
	return true
}

func wordText(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// parseADC is the reference parser of packet headers. The line includes its delimiter.
func parseADC(line string) (r aParsed) {
	bad := aParsed{bad: true}
	if !strings.HasSuffix(line, "\n") || strings.IndexByte(line, 0) >= 0 {
		return bad
	}
	s := line[:len(line)-1]
	if strings.IndexByte(s, '\n') >= 0 || len(s) < 4 || strings.IndexByte("BCDEFHIU", s[0]) < 0 {
		return bad
	}
	r.p.kind, r.cmd = s[0], s[1:4]
	r.odd = !wordText(r.cmd)
	s = s[4:]
	rest := false // there is a separator before s
	if s != "" {
		if s[0] != ' ' {
			return bad
		}
		s, rest = s[1:], true
	}
	// next cuts an identifier of n bytes
	next := func(n int) (string, bool) {
		if !rest || len(s) < n || strings.IndexByte(s[:n], ' ') >= 0 || len(s) > n && s[n] != ' ' {
			return "", false
		}
		id := s[:n]
		s, rest = s[n:], false
		if s != "" {
			s, rest = s[1:], true
		}
		return id, true
	}
	var ok bool
	switch r.p.kind {
	case 'B', 'F':
		if r.p.src, ok = next(4); !ok {
			return bad
		}
	case 'D', 'E':
		if r.p.src, ok = next(4); !ok {
			return bad
		}
		if r.p.to, ok = next(4); !ok {
			return bad
		}
	case 'U':
		id, ok := next(39)
		if !ok || !b32Text(id) {
			return bad
		}
		copy(r.p.cid[:], unb32(id))
	}
	if !b32Text(r.p.src) || !b32Text(r.p.to) {
		r.odd = true
	}
	if r.p.kind == 'F' {
		for s != "" && (s[0] == '+' || s[0] == '-') {
			f, ok := next(5)
			if !ok {
				return bad
			}
			var fea adc.Feature
			copy(fea[:], f[1:])
			r.p.sel = append(r.p.sel, adc.FeatureSel{Fea: fea, Sel: f[0] == '+'})
			if !wordText(f[1:]) {
				r.odd = true
			}
		}
	}
	r.payload = s
	return r
}

func unb32(s string) []byte {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	var out []byte
	acc, n := uint(0), 0
	for i := 0; i < len(s); i++ {
		acc = (acc<<5 | uint(strings.IndexByte(al, s[i]))) & 0xfff
		if n += 5; n >= 8 {
			n -= 8
			out = append(out, byte(acc>>uint(n)))
		}
	}
	return out
}

// checkADCHeader compares the raw decoding of one line with the reference.
func checkADCHeader(c *C, line string) adc.Packet {
	ref := parseADC(line)
	got, err := adc.DecodePacketRaw([]byte(line))
	c.Op()
	if ref.bad {
		c.Assert(err != nil, "line %q must be refused but decodes to %s", line, dump(got))
		return nil
	}
	if err != nil {
		c.Assert(ref.odd, "line %q is refused: %v", line, err)
		return nil
	}
	ref.p.check(c, fmt.Sprintf("line %q", line), got, ref.cmd, fmt.Sprintf(`*RawMessage{Type:x%q Data:x%q}`, ref.cmd, ref.payload))
	return got
}

var aSentinels = []string{"IINF NIa\\sb VE1 SS5\n", "BMSG ABCD hi\\sthere TS7\n", "FSCH AAAA +TCP4 -NAT0 ANx TO1\n"}

var aSentinelDumps = func() []string {
	return []string{
		dump(&adc.InfoPacket{Msg: adc.UserInfo{Name: "a b", Version: "1", ShareSize: 5}}),
		dump(&adc.BroadcastPacket{ID: sid("ABCD"), Msg: adc.ChatMessage{Text: "hi there", TS: 7}}),
		dump(&adc.FeaturePacket{ID: sid("AAAA"), Sel: []adc.FeatureSel{{Fea: adc.Feature{'T', 'C', 'P', '4'}, Sel: true}, {Fea: adc.Feature{'N', 'A', 'T', '0'}}}, Msg: adc.SearchRequest{And: []string{"x"}, Token: "1"}}),
	}
}()

// hostileADC feeds a byte string followed by the sentinels.
func hostileADC(c *C, hostile string, rd io.Reader) {
	stream := hostile + strings.Join(aSentinels, "")
	if rd == nil {
		rd = strings.NewReader(stream)
	}
	r := adc.NewReader(rd)
	segs := strings.SplitAfter(stream, "\n")
	var kept []adc.Packet
	var dumps []string
	for i, seg := range segs {
		if seg == "" || seg == "\n" {
			continue
		}
		d := ""
		if k := len(segs) - 1 - i; k >= 1 && k <= 2 {
			d = aSentinelDumps[3-k]
		} else if k == 3 && (hostile == "" || strings.HasSuffix(hostile, "\n")) {
			d = aSentinelDumps[0]
		} else {
			// alone
			raw := checkADCHeader(c, seg)
			p, err := adc.DecodePacket([]byte(seg))
			if raw == nil {
				c.Assert(err != nil, "line %q is refused raw but decodes to %s", seg, dump(p))
			} else if err == nil {
				d = dump(p)
				err2 := raw.DecodeMessage()
				c.Assert(err2 == nil && dump(raw) == d, "line %q: %s, %v, but at once %s", seg, dump(raw), err2, d)
			}
		}
		p, err := r.ReadPacket()
		c.Op()
		if d == "" {
			c.Assert(err != nil, "line %q is refused alone, but in %s it decodes to %s", seg, clips(stream), dump(p))
			c.Assert(err != io.EOF, "line %q in %s is reported as the end of the stream", seg, clips(stream))
			continue
		}
		c.Assert(err == nil, "line %q in %s is refused: %v", seg, clips(stream), err)
		c.Assert(dump(p) == d, "line %q after %s decodes to %s, alone it is %s", seg, clips(hostile), dump(p), d)
		kept = append(kept, p)
		dumps = append(dumps, d)
	}
	p, err := r.ReadPacket()
	c.Op()
	c.Assert(p == nil && err == io.EOF, "after the end of %s: %v, %v", clips(stream), p, err)
	for i, p := range kept {
		if dump(p) != dumps[i] {
			c.Fail("a packet changed after it was returned: %s became %s", dumps[i], dump(p))
		}
	}
	c.StateS(strings.Join(dumps, " "))
}

// adcPayloads is a payload of every message, keyed by command.
func adcPayloads() [][2]string {
	var out [][2]string
	for _, sp := range adcSpecs() {
		if sp.custom {
			continue
		}
		e := aBuild(sp, func(i int, f afield) *aval {
			if sp.cmd == "INF" && i > 8 && f.kind != akFeat {
				return nil // keep it short
			}
			v := fixedVal(i, f)
			if f.kind == akInt {
				v = &aval{int64(i), []string{fmt.Sprint(i)}}
			}
			return v
		})
		out = append(out, [2]string{sp.cmd, e.payload()})
	}
	return append(out, [2]string{"STA", "143 no\\sway"}, [2]string{"GPA", "AAAAAAAA"}, [2]string{"SUP", "ADBASE RMTIGR"},
		[2]string{"GET", "file a/b 0 -1 ZL1"}, [2]string{"SND", "tthl TTH/x 5 6"}, [2]string{"ZON", ""}, [2]string{"XYZ", "any thing"})
}

func init() {
	register("C18", []string{
		"payloads of feature packets that start with '+' or '-' are selectors",
		"whether command names, session ids and features may have characters other than letters and digits is not specified (delimiters are refused)",
	}, func(thorough bool) []S {
		headers := []string{"I%s", "H%s", "C%s", "BMSG ABCD", "B%s ABCD", "D%s ABCD 2345", "E%s ABCD 2345", "F%s ABCD +TCP4 -NAT0", "F%s ABCD", "U%s " + b32(hashes[0][:])}
		pays := adcPayloads()
		var corpus []string
		for _, p := range pays {
			for k, h := range headers {
				if k == 3 || !thorough && k%3 != 0 && p[0] != "MSG" && p[0] != "XYZ" {
					continue
				}
				l := strings.Replace(h, "%s", p[0], 1)
				if p[1] != "" {
					l += " " + p[1]
				}
				corpus = append(corpus, l+"\n")
			}
		}
		mut := S{"mutations", fmt.Sprintf("%d lines (every kind and message): every byte replaced by, or preceded by, each of 256 values, every byte deleted, every truncation; followed by packets", len(corpus)), func(c *C) {
			l := corpus[c.Choose(len(corpus))]
			pos := c.Choose(len(l) + 1)
			kind := c.Choose(4)
			if pos == len(l) && (kind == 0 || kind == 2) {
				c.Skip()
			}
			var h string
			switch kind {
			case 0:
				h = l[:pos] + string([]byte{byte(c.Choose(256))}) + l[pos+1:]
			case 1:
				h = l[:pos] + string([]byte{byte(c.Choose(256))}) + l[pos:]
			case 2:
				h = l[:pos] + l[pos+1:]
			case 3:
				h = l[:pos]
				if c.Bool() {
					h += "\n"
				}
			}
			hostileADC(c, h, nil)
		}}
		hal, hn := "A +-\n1", 7
		if thorough {
			hn = 9
		}
		head := S{"headers", fmt.Sprintf("every kind: all texts of <= %d bytes over %q after the command name, as lines and as packet data", hn, hal), func(c *C) {
			k := "BCDEFHIU"[c.Choose(8)]
			n := hn
			pre := ""
			switch k {
			case 'C', 'H', 'I':
				n = 4
			case 'D', 'E':
				// one identifier is complete
				switch c.Choose(3) {
				case 1:
					pre = " ABCD"
				case 2:
					pre = " ABCD 2345"
					n = 4
				}
			case 'F':
				switch c.Choose(3) {
				case 1:
					pre = " ABCD"
				case 2:
					pre = " ABCD -NAT0"
				}
			case 'U':
				n = 4
				pre = " " + b32(hashes[1][:])[:36+c.Choose(4)]
			}
			s := pre + chooseStr(c, hal, 0, n)
			line := string([]byte{k}) + "XYZ" + s + "\n"
			if !strings.Contains(s, "\n") {
				checkADCHeader(c, line)
			}
			if len(s) > 0 {
				// the packet decoders get what follows the name
				direct(c, k, s[1:]+"\n")
				direct(c, k, s[1:])
			}
			c.StateS(line)
		}}
		short := S{"short", "all streams of <= 2 bytes (256 values), <= 6 over few bytes, and all first 4 bytes over few bytes, followed by packets", func(c *C) {
			switch c.Choose(3) {
			case 0:
				b := make([]byte, c.Choose(3))
				for i := range b {
					b[i] = byte(c.Choose(256))
				}
				hostileADC(c, string(b), nil)
			case 1:
				hostileADC(c, chooseStr(c, "IA \n\x00+", 3, 6), nil)
			case 2:
				hostileADC(c, "I"+chooseStr(c, "I \x00\xff\\", 0, 5)+"\n", nil)
			}
		}}
		var newMsgs []func() interface{}
		for _, p := range pays {
			var t adc.MsgType
			copy(t[:], p[0])
			newMsgs = append(newMsgs, func() interface{} {
				if m := protoOf(t); m != nil {
					return reflect.New(m).Interface()
				}
				return &adc.RawMessage{Type: t}
			})
		}
		newMsgs = append(newMsgs, func() interface{} { return &adc.HubInfo{} }, func() interface{} { return &adc.UserInfoMod{} }, func() interface{} { return &adc.ZOff{} },
			func() interface{} { return new(adc.ModFeatures) }, func() interface{} { return new(adc.ExtFeatures) }, func() interface{} { return new(adc.Path) },
			func() interface{} { return new(adc.Fields) }, func() interface{} { return new(adc.BoolInt) }, func() interface{} { return new(adc.String) },
			func() interface{} { return new(adc.Feature) }, func() interface{} { return new(adc.SID) }, func() interface{} { return new(adc.CID) }, func() interface{} { return new(adc.TTH) }, func() interface{} { return new(adc.NoArgs) })
		toks := []string{"", " ", "\n", "\x00", "\\", "\\n", "\\s", "a", "AD", "RM", "ID", "SU", "TR", "ME", "AN", "ABCD", "ADABCD", "RM\\nabc", ",", "/", "-", "1", "1e9", "99999999999999999999", "ZL1", "\xff", b32(hashes[0][:]), "SUABCD,", "0.1", "NaN", "Inf"}
		tn := 3
		if thorough {
			tn = 4
		}
		dec := S{"decoders", fmt.Sprintf("every message and field type: the decoder on all sequences of <= %d tokens out of %d, twice, and into the same value", tn, len(toks)), func(c *C) {
			mk := newMsgs[c.Choose(len(newMsgs))]
			p := ""
			for i := 0; i < tn; i++ {
				p += toks[c.Choose(len(toks))]
			}
			decodeTwice(c, mk, p)
		}}
		alln := 3
		if thorough {
			alln = 4
		}
		payloads := S{"payloads", fmt.Sprintf("every message and field type: all payloads of <= 2 bytes (256 values) and <= %d over few", alln), func(c *C) {
			mk := newMsgs[c.Choose(len(newMsgs))]
			if c.Bool() {
				b := make([]byte, c.Choose(3))
				for i := range b {
					b[i] = byte(c.Choose(256))
				}
				decodeTwice(c, mk, string(b))
				return
			}
			decodeTwice(c, mk, chooseStr(c, " AD\\n1-,/\n\x00\xff.", 3, alln))
		}}
		hs := []string{"XINF a\n", "BINF A\n", "B\n", "\n\nIINF SSx\n", "DMSG ABCD \n", "FSCH ABCD +TC\n", "UINF AA\n", "I\x00NF\n", "IMSG\n"}
		frag := S{"fragments", fmt.Sprintf("%d malformed lines between packets x fragmentations (5 deviations)", len(hs)), func(c *C) {
			h := hs[c.Choose(len(hs))]
			stream := h + strings.Join(aSentinels, "")
			c.SetDeviations(4)
			rd := &src{c: c, data: []byte(stream), sizes: []int{0, 1, 2, 3, 5, 8, 13}, dev: true, zero: true, withData: c.Bool()}
			hostileADC(c, h, rd)
		}}
		return []S{mut, head, short, dec, payloads, frag}
	})
}

// protoOf returns the registered type of a message.
func protoOf(t adc.MsgType) reflect.Type {
	for _, sp := range adcSpecs() {
		if !sp.custom && sp.cmd == t.String() {
			return reflect.TypeOf(sp.new()).Elem()
		}
	}
	for _, m := range []adc.Message{adc.Status{}, adc.GetPassword{}, adc.Supported{}, adc.GetRequest{}, adc.GetResponse{}, adc.ZOn{}} {
		if m.Cmd() == t {
			return reflect.TypeOf(m)
		}
	}
	return nil
}

// direct calls the decoder of a packet.
func direct(c *C, kind byte, data string) {
	p := apacket{kind: kind}.packet(nil)
	var t adc.MsgType
	copy(t[:], "XYZ")
	in := []byte(data)
	err := p.UnmarshalPacketADC(t, in)
	c.Op()
	c.Assert(string(in) == data, "decoding %q changed it to %q", data, in)
	if !strings.HasSuffix(data, "\n") {
		c.Assert(err != nil, "packet data %q without a delimiter are accepted: %s", data, dump(p))
		return
	}
	if strings.Count(data, "\n") > 1 {
		if err != nil {
			return
		}
		ids := ""
		if pp, ok := p.(adc.PeerPacket); ok {
			ids += pp.Source().String()
		}
		if tp, ok := p.(adc.TargetPacket); ok {
			ids += tp.Target().String()
		}
		if fp, ok := p.(*adc.FeaturePacket); ok {
			for _, s := range fp.Sel {
				ids += s.Fea.String()
			}
		}
		c.Assert(!strings.Contains(ids, "\n"), "packet data %q: delimiter in an identifier: %s", data, dump(p))
		return
	}
	ref := parseADC(string([]byte{kind}) + "XYZ " + data)
	if ref.bad {
		c.Assert(err != nil, "packet data %q of kind %c must be refused but decode to %s", data, kind, dump(p))
		return
	}
	if err != nil {
		c.Assert(ref.odd, "packet data %q of kind %c are refused: %v", data, kind, err)
		return
	}
	ref.p.check(c, fmt.Sprintf("packet data %q", data), p, "XYZ", fmt.Sprintf(`*RawMessage{Type:x"XYZ" Data:x%q}`, ref.payload))
}

func decodeTwice(c *C, mk func() interface{}, p string) {
	m := mk()
	in := []byte(p)
	err := adc.Unmarshal(in, m)
	c.Op()
	c.Assert(string(in) == p, "decoding %q changed it to %q", p, in)
	c.Checked()
	if err != nil {
		return
	}
	d := dump(m)
	m2 := mk()
	err = adc.Unmarshal([]byte(p), m2)
	c.Op()
	c.Assert(err == nil && dump(m2) == d, "payload %q: decoded to %s, then %v, %s", p, d, err, dump(m2))
	err = adc.Unmarshal([]byte(p), m2) // must not crash
	c.Op()
	c.Assert(err == nil, "payload %q is refused by a used %T: %v", p, m, err)
	_, raw := m.(*adc.RawMessage)
	if msg, ok := m.(adc.Message); ok && !raw {
		var buf bytes.Buffer
		err := adc.Marshal(&buf, msg)
		c.Op()
		c.Assert(err != nil || strings.Contains(p, "\n") || !strings.Contains(buf.String(), "\n"), "payload %q is relayed as %q", p, buf.String())
	}
	for i := range in {
		in[i] = '#'
	}
	c.Assert(dump(m) == d, "the value decoded from %q changed with its input: %s became %s", p, d, dump(m))
	c.StateS(d)
}
