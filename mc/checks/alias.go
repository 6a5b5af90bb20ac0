package checks

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strings"

	"golang.org/x/text/encoding/charmap"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
)

// C25: values are independent of buffers and of each other. Everything that can
// be reached from one value is overwritten, and the other values must not notice.

// scramble changes everything that can be reached from v.
func scramble(v interface{}) { scrambleTo(reflect.ValueOf(v)) }

func scrambleTo(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scrambleTo(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() && v.Type() != errType {
			scrambleTo(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scrambleTo(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		v = v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < v.Len(); i++ {
			scrambleTo(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scrambleTo(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scrambleTo(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Value{})
		}
		if v.IsNil() {
			return
		}
		k := reflect.New(v.Type().Key()).Elem()
		scrambleTo(k)
		v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
	case reflect.String:
		if v.CanSet() {
			v.SetString("<scrambled>")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(^v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	}
}

func fill(b []byte, x byte) {
	for i := range b[:cap(b)] {
		b[:cap(b)][i] = x
	}
}

// shallow copies the value behind the pointer.
func shallow(m interface{}) interface{} {
	rv := reflect.ValueOf(m)
	n := reflect.New(rv.Type().Elem())
	n.Elem().Set(rv.Elem())
	return n.Interface()
}

// longNMDC are messages that need more than one read buffer.
func longNMDC() []string {
	l := strings.Repeat("long text ", 350)
	return []string{"<u> " + l + "|", "$XRaw " + l + "|", "$MyINFO $ALL u " + l + "$ $\x01$$0$|", "$NickList " + strings.Repeat("abcdefgh$$", 300) + "|", "|", "$XRaw|", "<u> x|"}
}

func nmdcAliasing(thorough bool) []S {
	specs := nmdcSpecs()
	gen := func(c *C, dev int) (nspec, nmdc.Message, string) {
		sp := specs[c.Choose(len(specs))]
		c.SetDeviations(dev)
		g := &ngen{c: c, deep: -1}
		m, payload := sp.gen(g)
		if g.bad || g.free {
			c.Skip()
		}
		return sp, m, payload
	}
	dev := 1
	if thorough {
		dev = 2
	}
	buffers := S{"nmdc-buffers", fmt.Sprintf("%d message types with up to %d unusual fields x 4 ways to decode, the input overwritten afterwards", len(specs), dev), func(c *C) {
		sp, _, payload := gen(c, dev)
		var m interface{}
		var in []byte
		how := c.Choose(4)
		if how < 3 {
			in = []byte(payload)
			x := nmdc.NewMessage(sp.typ)
			var dec *nmdc.TextDecoder
			if how == 1 {
				dec = charmap.Windows1251.NewDecoder()
			}
			if how == 2 {
				// has been used before
				x.UnmarshalNMDC(nil, []byte(sp.dirty))
			}
			if x.UnmarshalNMDC(dec, in) != nil {
				c.Skip()
			}
			m = x
		} else {
			in = []byte(nline(sp.typ, payload))
			x, err := nmdc.Unmarshal(nil, in)
			if err != nil {
				c.Skip()
			}
			m = x
		}
		d := dump(m)
		c.Op()
		c.Checked()
		for _, x := range []byte{'x', 0, '$', 0xff} {
			fill(in, x)
			c.Assert(dump(m) == d, "%s was decoded from %q; overwriting the input changes it to %s", d, payload, dump(m))
		}
		c.StateS(d)
	}}
	copies := S{"nmdc-copies", "a copy of a decoded message, while the original is decoded again and overwritten", func(c *C) {
		sp, _, payload := gen(c, dev)
		m := nmdc.NewMessage(sp.typ)
		if m.UnmarshalNMDC(nil, []byte(payload)) != nil {
			c.Skip()
		}
		cp := shallow(m)
		d := dump(cp)
		second := []string{sp.dirty, payload, ""}[c.Choose(3)]
		m.UnmarshalNMDC(nil, []byte(second))
		c.Ops(2)
		c.Checked()
		c.Assert(dump(cp) == d, "a copy of %s changes to %s when the message is decoded again from %q", d, dump(cp), second)
		c.StateS(d + second)
	}}
	reads := S{"nmdc-reads", fmt.Sprintf("every pair of %d message types with up to %d unusual fields, and long messages, read one after another by 3 entry points; then each is overwritten", len(specs), dev), func(c *C) {
		sp, _, payload := gen(c, dev)
		first := nline(sp.typ, payload)
		var second string
		longs := longNMDC()
		if k := c.Choose(len(specs) + len(longs)); k < len(specs) {
			second = nline(specs[k].typ, specs[k].dirty)
		} else {
			second = longs[k-len(specs)]
		}
		if len(first) < len(second) && c.Bool() {
			first, second = second, first
		}
		third := "<x> last " + strings.Repeat("#", 40) + "|"
		r := nmdc.NewReader(strings.NewReader(first + second + third))
		r.SetMaxLine(1 << 20)
		how := c.Choose(2)
		read := func(line string) nmdc.Message {
			var m nmdc.Message
			var err error
			if how == 0 {
				m, err = r.ReadMsg()
			} else {
				m, err = r.ReadMsgToAny(&nmdc.RawMessage{})
			}
			c.Op()
			if err != nil {
				c.Skip()
			}
			return m
		}
		var ms []nmdc.Message
		var ds []string
		for _, l := range []string{first, second, third} {
			if l == "|" {
				continue // keep-alive
			}
			m := read(l)
			ms = append(ms, m)
			ds = append(ds, dump(m))
		}
		c.Checked()
		for i, m := range ms {
			c.Assert(dump(m) == ds[i], "after %q, %q: message %d was %s, later reads changed it to %s", first, second, i, ds[i], dump(m))
		}
		for k := range ms {
			scramble(ms[k])
			for i := k + 1; i < len(ms); i++ {
				c.Assert(dump(ms[i]) == ds[i], "after %q, %q: changing message %d changes message %d from %s to %s", first, second, k, i, ds[i], dump(ms[i]))
			}
		}
		c.StateS(first + second)
	}}
	encode := S{"nmdc-encode", fmt.Sprintf("every message type with up to %d unusual fields: encoded 3 times, the message and the buffers overwritten in between, nil and windows-1251 encoder", dev), func(c *C) {
		sp, m, payload := gen(c, dev)
		if mi, ok := m.(*nmdc.MyINFO); ok && len(mi.Extra) > 1 {
			c.Skip() // any order
		}
		var enc *nmdc.TextEncoder
		if c.Bool() {
			enc = charmap.Windows1251.NewEncoder()
		}
		d := dump(m)
		b1, err := nmdc.Marshal(enc, m)
		if err != nil {
			c.Skip()
		}
		s1 := string(b1)
		buf := bytes.NewBufferString("$X|")
		c.Assert(nmdc.MarshalTo(enc, buf, m) == nil && buf.String() == "$X|"+s1, "%s encodes to %q, then to %q", d, s1, buf.String())
		c.Assert(dump(m) == d, "encoding changed %s to %s", d, dump(m))
		// another message in the same buffer
		c.Assert(nmdc.MarshalTo(enc, buf, &nmdc.Hello{Name: "other"}) == nil && buf.String() == "$X|"+s1+"$Hello other|", "%q and another message encode to %q", s1, buf.String())
		c.Assert(string(b1) == s1, "%q changed to %q by later encodings", s1, b1)
		b2, err := nmdc.Marshal(enc, m)
		c.Assert(err == nil && string(b2) == s1, "%s encodes to %q, then to %q", d, s1, b2)
		fill(b2, 'x')
		fill(buf.Bytes(), 'x')
		c.Assert(string(b1) == s1 && dump(m) == d, "overwriting an encoded line changes another one, %q, or the message, %s", b1, dump(m))
		scramble(m)
		c.Assert(string(b1) == s1, "overwriting the message changes its line to %q", b1)
		c.Ops(4)
		c.Checked()
		c.StateS(sp.typ + payload)
	}}
	writer := S{"nmdc-writer", fmt.Sprintf("every message type with up to %d unusual fields, written with another one, by writers with 3 buffer sizes, compressed or not; the messages are overwritten before the flush", dev), func(c *C) {
		sp, m, payload := gen(c, dev)
		var sink bytes.Buffer
		w := nmdc.NewWriterSize(&sink, []int{0, 16, 1 << 16}[c.Choose(3)])
		comp := c.Bool()
		if comp {
			c.Assert(w.EnableZlib() == nil, "EnableZlib")
		}
		if w.WriteMsg(m) != nil {
			c.Skip()
		}
		d := dump(m)
		want, _ := nmdc.Marshal(nil, m)
		if mi, ok := m.(*nmdc.MyINFO); ok && len(mi.Extra) > 1 {
			c.Skip()
		}
		scramble(m)
		o := &nmdc.ChatMessage{Name: "o", Text: strings.Repeat("other ", 5)}
		c.Assert(w.WriteMsg(o) == nil, "WriteMsg")
		ow, _ := nmdc.Marshal(nil, o)
		scramble(o)
		if comp {
			c.Assert(w.DisableZlib() == nil, "DisableZlib")
		} else {
			c.Assert(w.Flush() == nil, "Flush")
		}
		full, err := walkSections(sink.Bytes(), []section{{comp, append(want, ow...)}}, false)
		c.Ops(3)
		c.Checked()
		c.Assert(err == nil && full, "%s was written, then overwritten: the connection has %s: %v", d, clip(sink.Bytes()), err)
		c.StateS(sp.typ + payload)
	}}
	return []S{buffers, copies, reads, encode, writer}
}

func adcAliasing(thorough bool) []S {
	specs := adcSpecs()
	msgs := aMessages()
	type sample struct {
		cmd, payload string
		new          func() adc.Message // nil if unknown
		custom       bool
	}
	var samples []sample
	for _, sp := range specs {
		sp := sp
		samples = append(samples, sample{sp.cmd, aBuild(sp, fixedVal).payload(), sp.new, sp.custom})
		samples = append(samples, sample{sp.cmd, aBuild(sp, func(i int, f afield) *aval {
			if f.kind == akSID || f.kind == akTTH || f.kind == akCID {
				return fixedVal(i, f)
			}
			return nil
		}).payload(), sp.new, sp.custom})
	}
	for _, m := range msgs {
		s := sample{cmd: m.cmd, payload: m.payload}
		if _, ok := m.m.(*adc.RawMessage); !ok {
			t := reflect.TypeOf(m.m)
			if t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
			s.new = func() adc.Message { return reflect.New(t).Interface().(adc.Message) }
		}
		samples = append(samples, s)
	}
	samples = append(samples,
		sample{cmd: "SUP", payload: "ADBASE RMTIGR ADPING", new: func() adc.Message { return &adc.Supported{} }},
		sample{cmd: "GPA", payload: b32(hashes[0][:]), new: func() adc.Message { return &adc.GetPassword{} }},
		sample{cmd: "INF", payload: "NIa\\sb SUTCP4,UDP4 XXy DEz", new: func() adc.Message { return &adc.UserInfoMod{} }, custom: true},
	)
	pkts := []apacket{{kind: 'I'}, {kind: 'H'}, {kind: 'C'}, {kind: 'B', src: "ABCD"}, {kind: 'D', src: "ABCD", to: "7777"}, {kind: 'E', src: "AAAB", to: "7777"}, {kind: 'U', cid: adc.CID(hashes[0])},
		{kind: 'F', src: "ABCD", sel: []adc.FeatureSel{{Fea: adc.FeaTCP4, Sel: true}, {Fea: adc.FeaSEGA}}}}
	decode := func(c *C, s sample) (interface{}, []byte, string) {
		p := pkts[c.Choose(len(pkts))]
		if p.kind == 'F' && (strings.HasPrefix(s.payload, "+") || strings.HasPrefix(s.payload, "-")) {
			c.Skip()
		}
		line := p.line(s.cmd, s.payload)
		if p.kind == 'F' && s.payload == "" {
			line = p.line(s.cmd, "")
		}
		in := []byte(line)
		if c.Choose(2) == 0 || s.new == nil {
			k, err := adc.DecodePacket(in)
			if err != nil {
				c.Skip()
			}
			return k, in, line
		}
		k, err := adc.DecodePacketRaw(in)
		if err != nil {
			c.Skip()
		}
		m := s.new()
		if err := k.DecodeMessageTo(m); err != nil {
			c.Skip()
		}
		k.SetMessage(m)
		return k, in, line
	}
	buffers := S{"adc-buffers", fmt.Sprintf("%d payloads x 8 kinds of packets x 2 ways to decode, the input overwritten afterwards", len(samples)), func(c *C) {
		s := samples[c.Choose(len(samples))]
		m, in, line := decode(c, s)
		d := dump(m)
		c.Op()
		c.Checked()
		for _, x := range []byte{'x', 0, ' ', 0xff} {
			fill(in, x)
			c.Assert(dump(m) == d, "%s was decoded from %q; overwriting the input changes it to %s", d, clips(line), dump(m))
		}
		c.StateS(d)
	}}
	headers := S{"adc-headers", "headers of packets decoded without their messages, the input overwritten afterwards", func(c *C) {
		p := pkts[c.Choose(len(pkts))]
		in := []byte(p.line("XYZ", "payload"))
		k, err := adc.DecodePacketRaw(in)
		c.Assert(err == nil, "%q: %v", in, err)
		k.SetMessage(nil)
		d := dump(k)
		fill(in, 'x')
		c.Op()
		c.Checked()
		c.Assert(dump(k) == d, "overwriting the input changes the packet from %s to %s", d, dump(k))
	}}
	copies := S{"adc-copies", "a copy of a decoded message, typed or raw, while the original is decoded again", func(c *C) {
		s := samples[c.Choose(len(samples))]
		var m adc.Message
		if raw := c.Bool(); raw {
			rm := &adc.RawMessage{}
			copy(rm.Type[:], s.cmd)
			m = rm
		} else if s.new == nil {
			c.Skip()
		} else {
			m = s.new()
		}
		if _, ok := m.(*adc.Supported); ok {
			c.Skip() // merges into the feature set, which is a map
		}
		if adc.Unmarshal([]byte(s.payload), m) != nil {
			c.Skip()
		}
		cp := shallow(m)
		d := dump(cp)
		o := samples[c.Choose(len(samples))]
		if o.cmd != s.cmd {
			c.Skip()
		}
		adc.Unmarshal([]byte(o.payload), m)
		c.Ops(2)
		c.Checked()
		c.Assert(dump(cp) == d, "a copy of %s changes to %s when the message is decoded again from %q", d, dump(cp), clips(o.payload))
		c.StateS(d + o.payload)
	}}
	reads := S{"adc-reads", fmt.Sprintf("every pair of %d payloads x 3 kinds of packets read one after another by 4 entry points; then each is overwritten", len(samples)), func(c *C) {
		a, b := samples[c.Choose(len(samples))], samples[c.Choose(len(samples))]
		how := c.Choose(4)
		p := pkts[[]int{0, 3, 4}[c.Choose(3)]]
		if how == 2 {
			p = pkts[0]
		} else if how == 3 {
			p = pkts[2]
		}
		la, lb := p.line(a.cmd, a.payload), p.line(b.cmd, b.payload)
		r := adc.NewReader(strings.NewReader(la + lb + p.line("MSG", strings.Repeat("#", 50))))
		r.SetMaxLine(1 << 20)
		var ms []interface{}
		var ds []string
		for i := 0; i < 3; i++ {
			var m interface{}
			var err error
			switch how {
			case 0:
				m, err = r.ReadPacket()
			case 1:
				var k adc.Packet
				k, err = r.ReadPacketRaw()
				if err == nil {
					err = k.DecodeMessage()
				}
				m = k
			case 2:
				m, err = r.ReadInfo()
			case 3:
				m, err = r.ReadClient()
			}
			c.Op()
			if err != nil {
				c.Skip()
			}
			ms = append(ms, m)
			ds = append(ds, dump(m))
		}
		c.Checked()
		for i := range ms {
			c.Assert(dump(ms[i]) == ds[i], "after %s, %s: message %d was %s, later reads changed it to %s", clips(la), clips(lb), i, ds[i], dump(ms[i]))
		}
		for k := range ms {
			scramble(ms[k])
			for i := k + 1; i < len(ms); i++ {
				c.Assert(dump(ms[i]) == ds[i], "after %s, %s: changing message %d changes message %d from %s to %s", clips(la), clips(lb), k, i, ds[i], dump(ms[i]))
			}
		}
		c.StateS(la + lb)
	}}
	encode := S{"adc-encode", "every payload decoded, encoded 3 times in every kind of packet and written; the message and the buffers are overwritten in between", func(c *C) {
		s := samples[c.Choose(len(samples))]
		var m adc.Message
		if s.new != nil {
			m = s.new()
			if adc.Unmarshal([]byte(s.payload), m) != nil {
				c.Skip()
			}
			if sup, ok := m.(*adc.Supported); ok && len(sup.Features) > 1 {
				c.Skip() // any order
			}
		} else {
			var t adc.MsgType
			copy(t[:], s.cmd)
			m = &adc.RawMessage{Type: t, Data: []byte(s.payload)}
		}
		p := pkts[c.Choose(len(pkts))]
		p.sel = append([]adc.FeatureSel(nil), p.sel...)
		k := p.packet(m)
		d := dump(k)
		var b1, b2 bytes.Buffer
		if k.MarshalPacketADC(&b1) != nil {
			c.Skip()
		}
		s1 := b1.String()
		b2.WriteString("X\n")
		c.Assert(k.MarshalPacketADC(&b2) == nil && b2.String() == "X\n"+s1, "%s encodes to %q, then to %q", d, s1, b2.String())
		c.Assert(dump(k) == d, "encoding changed %s to %s", d, dump(k))
		fill(b2.Bytes(), 'x')
		c.Assert(dump(k) == d && b1.String() == s1, "overwriting an encoded line changes another one, %q, or the message, %s", b1.String(), dump(k))
		var sink bytes.Buffer
		w := adc.NewWriterSize(&sink, 1<<16)
		how := c.Choose(3)
		c.Assert(p.write(w, how, m) == nil, "writing %s", d)
		c.Assert(dump(k) == d, "writing changed %s to %s", d, dump(k))
		scramble(k)
		c.Assert(w.WriteInfo(adc.ChatMessage{Text: "other"}) == nil && w.Flush() == nil, "writing")
		c.Ops(4)
		c.Checked()
		c.Assert(b1.String() == s1, "overwriting the message changes its line to %q", b1.String())
		c.Assert(sink.String() == s1+"IMSG other\n", "%s was written, then overwritten: the connection has %q", d, sink.String())
		c.StateS(s1)
	}}
	return []S{buffers, headers, copies, reads, encode}
}

// lineWriters: the caller's buffers.
func lineAliasing(thorough bool) []S {
	n := 4
	if thorough {
		n = 6
	}
	ops := []string{"short line", "long line", "empty line", "short write", "long write", "flush", "zlib on", "zlib off", "hooked line"}
	return []S{{"writer-buffers", fmt.Sprintf("every sequence of %d operations of %v on writers with 3 buffer sizes, the caller's buffers overwritten after each", n, ops), func(c *C) {
		var sink bytes.Buffer
		w := lineproto.NewWriterSize(&sink, []int{0, 16, 1 << 16}[c.Choose(3)])
		w.OnLine(func(line []byte) (bool, error) { return true, nil })
		var want []section
		want = append(want, section{})
		add := func(comp bool, b []byte) {
			l := &want[len(want)-1]
			if l.comp != comp {
				want = append(want, section{comp: comp})
				l = &want[len(want)-1]
			}
			l.data = append(l.data, b...)
		}
		comp := false
		i := byte(0)
		write := func(size int, line bool) {
			i++
			b := make([]byte, size, size+7)
			for k := range b[:cap(b)] {
				b[:cap(b)][k] = i + byte(k%5)*16
			}
			full := b[:cap(b)]
			keep := append([]byte(nil), full...)
			add(comp, b)
			var err error
			k := size
			if line {
				err = w.WriteLine(b)
			} else {
				k, err = w.Write(b)
			}
			c.Assert(err == nil && k == size, "write: %d, %v", k, err)
			c.Assert(bytes.Equal(full, keep), "the writer changed the caller's buffer")
			fill(b, '#')
		}
		trace := ""
		for k := 0; k < n; k++ {
			o := c.Choose(len(ops))
			trace += ops[o] + ";"
			c.Op()
			switch o {
			case 0:
				write(5, true)
			case 1:
				write(5000, true)
			case 2:
				write(0, true)
			case 3:
				write(6, false)
			case 4:
				write(4099, false)
			case 5:
				c.Assert(w.Flush() == nil, "Flush")
			case 6:
				if comp {
					c.Skip()
				}
				c.Assert(w.EnableZlib() == nil, "EnableZlib")
				comp = true
				add(true, nil)
			case 7:
				if !comp {
					c.Skip()
				}
				c.Assert(w.DisableZlib() == nil, "DisableZlib")
				comp = false
				add(false, nil)
			case 8:
				// a line that a hook replaces in place is not the writer's doing; here it only looks
				write(17, true)
			}
		}
		c.Assert(w.Close() == nil, "Close")
		full, err := walkSections(sink.Bytes(), want, false)
		c.Checked()
		c.Assert(full && err == nil, "%s: the connection has %s: %v", trace, clip(sink.Bytes()), err)
		c.StateS(trace)
	}}}
}

// two connections at the same time, operation by operation
func connAliasing(thorough bool) []S {
	lines := []string{"<u> a|", "$XRaw raw data|", "$Supports A B|", "$NickList a$$b$$|", "$Search 1.1.1.1:1 F?T?0?1?x$y|", "$UserCommand 1 2 a\\b $c|", "$FailOver a,b|", "$SR u p\x0510 1/2\x05h (a)|"}
	n := 3
	if thorough {
		n = 4
	}
	return []S{{"connections", fmt.Sprintf("two connections, each reading %d of %d messages and relaying them, every interleaving", n, len(lines)), func(c *C) {
		var all [2][]string
		for i := range all {
			first := c.Choose(len(lines))
			for k := 0; k < n; k++ {
				all[i] = append(all[i], lines[(first+k*(1+2*i))%len(lines)])
			}
		}
		var r [2]*nmdc.Reader
		var w [2]*nmdc.Writer
		var sink [2]bytes.Buffer
		for i := range r {
			r[i] = nmdc.NewReader(strings.NewReader(strings.Join(all[i], "")))
			w[i] = nmdc.NewWriterSize(&sink[i], 64)
		}
		var keep [2][]nmdc.Message
		pos := [2]int{}
		for pos[0] < 2*n || pos[1] < 2*n {
			i := 0
			if pos[0] == 2*n || pos[1] < 2*n && c.Bool() {
				i = 1
			}
			if pos[i]%2 == 0 {
				m, err := r[i].ReadMsg()
				c.Assert(err == nil, "connection %d: %v", i, err)
				keep[i] = append(keep[i], m)
			} else {
				c.Assert(w[1-i].WriteMsg(keep[i][len(keep[i])-1]) == nil, "relay")
			}
			pos[i]++
			c.Op()
		}
		c.Checked()
		for i := range r {
			_, err := r[i].ReadMsg()
			c.Assert(err == io.EOF, "connection %d: %v", i, err)
			for k, l := range all[i] {
				b, err := nmdc.Marshal(nil, keep[i][k])
				c.Assert(err == nil && string(b) == l, "connection %d read %q, which became %q", i, l, b)
			}
			c.Assert(w[1-i].Flush() == nil, "Flush")
			c.Assert(sink[1-i].String() == strings.Join(all[i], ""), "connection %d: %q were relayed as %q", i, all[i], sink[1-i].String())
		}
		c.StateS(fmt.Sprint(all, pos))
	}}}
}

func init() {
	register("C25", []string{
		"payloads of ADC raw packets, lines returned by ReadLine, and hook arguments are documented as borrowed",
		"ADC feature sets are merged into the map they are decoded into",
		"memory reachable through reflection from the values is overwritten; strings are checked by overwriting the input buffers",
	}, func(thorough bool) []S {
		out := nmdcAliasing(thorough)
		out = append(out, adcAliasing(thorough)...)
		out = append(out, lineAliasing(thorough)...)
		return append(out, connAliasing(thorough)...)
	})
}
