package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
)

// Markers of other fields inside of fields, all bytes around the switch of
// compression, payloads of refused commands, and state changed by hooks.

func init() {
	extend("C09", func(th bool) []S {
		n := 2
		if th {
			n = 3
		}
		specs := nmdcSpecs()
		return []S{{"markers", fmt.Sprintf("every message type and text field: all sequences of up to %d of %d separators and field names, alone, before, after and around the default value of the field", n, len(nMarks)), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			if sp.fields == 0 {
				c.Skip()
			}
			nmdcCodecCheck(c, sp, c.Choose(sp.fields), -n)
		}}}
	})
	extend("C02", func(th bool) []S { return []S{boundaryBytes()} })
	extend("C04", func(th bool) []S { return []S{hookLimits()} })
	extend("C07", func(th bool) []S { return []S{sameMessage()} })
	extend("C12", func(th bool) []S { return []S{refusedPayloads(th)} })
	extend("C25", func(th bool) []S { return []S{reusedLists()} })
}

// boundaryBytes: no byte next to a switch of compression is special.
func boundaryBytes() S {
	return S{"boundary-bytes", "plain line, compressed section, plain rest: every byte as the first and the last of the section and the first and second of the rest, the delimiter '|' or a line break, read by lines or raw, in one piece or cut at the boundary", func(c *C) {
		delim := []byte{'|', '\n'}[c.Choose(2)]
		b := byte(c.Choose(256))
		sec, rest := []byte("ab"), []byte("cd")
		switch c.Choose(5) {
		case 0:
			sec[0] = b
		case 1:
			sec[1] = b
		case 2:
			rest[0] = b
		case 3:
			rest[1] = b
		case 4:
			rest[0], rest[1] = b, b
		}
		if c.Bool() {
			sec = append(sec, delim)
		}
		rest = append(rest, delim)
		z := deflate(sec, -1)
		wire := append(append([]byte{'x', delim}, z...), rest...)
		s := &src{c: c, data: wire, useCuts: true}
		if c.Bool() {
			s.cuts = []int{2, 2 + len(z)}
		}
		r := lineproto.NewReader(s, delim)
		l, err := r.ReadLine()
		c.Ops(2)
		c.Assert(err == nil && string(l) == string([]byte{'x', delim}), "first line: %q, %v", l, err)
		c.Assert(r.EnableZlib() == nil, "EnableZlib")
		all := append(append([]byte{}, sec...), rest...)
		c.StateS(string(all))
		if c.Bool() {
			got, err := io.ReadAll(struct{ io.Reader }{r})
			c.Assert(err == nil && bytes.Equal(got, all), "section %q and plain %q: read %q, %v", sec, rest, got, err)
			return
		}
		readLines(c, r, all, delim, io.EOF)
	}}
}

// hookLimits: a limit set by a hook holds for the next line.
func hookLimits() S {
	return S{"limit-set-by-hook", "a line hook changes the limit and keeps or drops its line; both limits 3..6, second lines of 1..7 bytes, every fragmentation", func(c *C) {
		m1, m2 := 3+c.Choose(4), 3+c.Choose(4)
		keep := c.Bool()
		l2 := append(pattern(c.Choose(7), 2), '|')
		s := &src{c: c, data: append([]byte("ab|"), l2...)}
		r := lineproto.NewReader(s, '|')
		r.SetMaxLine(m1)
		n := 0
		r.OnLine(func([]byte) (bool, error) {
			if n++; n > 1 {
				return true, nil
			}
			r.SetMaxLine(m2)
			return keep, nil
		})
		if keep {
			l, err := r.ReadLine()
			c.Assert(err == nil && string(l) == "ab|", "first line: %q, %v", l, err)
		}
		l, err := r.ReadLine()
		c.Ops(2)
		if len(l2) <= m2 {
			c.Assert(err == nil && bytes.Equal(l, l2), "limit changed from %d to %d: line of %d bytes: %q, %v", m1, m2, len(l2), l, err)
		} else {
			c.Assert(err != nil && err != io.EOF, "limit changed from %d to %d: line of %d bytes is accepted: %q, %v", m1, m2, len(l2), l, err)
		}
		c.StateS(fmt.Sprint(m1, m2, keep, len(l2)))
	}}
}

// sameMessage: one message written several times, in any pattern.
func sameMessage() S {
	return S{"repeated", "all sequences of 4 of two messages (one variable each, changed between or not), written in one call or one by one, and every pattern of dropped ones; the same for ADC packets and raw lines", func(c *C) {
		kind := c.Choose(4)
		var sink bytes.Buffer
		var seq []int
		for i := 0; i < 4; i++ {
			seq = append(seq, c.Choose(2))
		}
		drop := c.Choose(16)
		calls, lines := 0, 0
		hook := func() bool { calls++; return drop>>(calls-1)&1 == 0 }
		want := ""
		for i, k := range seq {
			if drop>>i&1 == 0 {
				want += []string{"$Hello a|", "$Quit b|"}[k]
			}
		}
		msgs := []nmdc.Message{&nmdc.Hello{Name: "a"}, &nmdc.Quit{Name: "b"}}
		onLine := func([]byte) (bool, error) { lines++; return true, nil }
		switch kind {
		case 0, 1:
			w := nmdc.NewWriter(&sink)
			w.OnMessage(func(nmdc.Message) (bool, error) { return hook(), nil })
			w.OnLine(onLine)
			if kind == 0 {
				var batch []nmdc.Message
				for _, k := range seq {
					batch = append(batch, msgs[k])
				}
				c.Assert(w.WriteMsg(batch...) == nil, "WriteMsg")
			} else {
				for _, k := range seq {
					c.Assert(w.WriteMsg(msgs[k]) == nil, "WriteMsg")
				}
			}
			c.Assert(w.Flush() == nil, "Flush")
		case 2:
			w := nmdc.NewWriter(&sink)
			w.OnLine(func([]byte) (bool, error) { lines += 1 - drop>>calls&1; return hook(), nil })
			for _, k := range seq {
				c.Assert(w.WriteLine([]byte([]string{"$Hello a|", "$Quit b|"}[k])) == nil, "WriteLine")
			}
			c.Assert(w.Flush() == nil, "Flush")
		case 3:
			w := adc.NewWriter(&sink)
			w.OnLine(func([]byte) (bool, error) { lines += 1 - drop>>calls&1; return hook(), nil })
			want = ""
			ps := []adc.Packet{&adc.HubPacket{Msg: adc.ZOn{}}, &adc.InfoPacket{Msg: adc.ZOff{}}}
			for i, k := range seq {
				c.Assert(w.WritePacket(ps[k]) == nil, "WritePacket")
				if drop>>i&1 == 0 {
					want += []string{"HZON\n", "IZOF\n"}[k]
				}
			}
			c.Assert(w.Flush() == nil, "Flush")
		}
		c.Ops(4)
		passed := 0
		for i := 0; i < 4; i++ {
			passed += 1 - drop>>i&1
		}
		c.Assert(calls == 4 && lines == passed, "messages %v, dropped %04b: %d calls of the message hook, %d lines", seq, drop, calls, lines)
		c.Assert(sink.String() == want, "messages %v, dropped %04b: written %q, want %q", seq, drop, sink.String(), want)
		c.StateS(sink.String())
	}}
}

// refusedPayloads: the payload of an unexpected command is kept as it was.
func refusedPayloads(th bool) S {
	n := 3
	if th {
		n = 5
	}
	const alpha = "a \t\n\r$&\xff<>"
	return S{"refused-payloads", fmt.Sprintf("commands with and without arguments and chat lines that are not requested, all payloads of up to %d bytes over %q, requested by one or by a list, followed by a long message", n, alpha), func(c *C) {
		p := chooseStr(c, alpha, 0, n)
		typ := []string{"Foo", "Hello", ""}[c.Choose(3)]
		line := "$" + typ + " " + p + "|"
		if typ == "" {
			if p == "" || p[0] == '$' {
				c.Skip()
			}
			line = p + "|"
		}
		r := nmdc.NewReader(strings.NewReader(line + "$Hello " + strings.Repeat("z", 200) + "|$GetPass|"))
		one := c.Bool()
		read := func() (err error) {
			if one {
				return r.ReadMsgTo(&nmdc.GetPass{})
			}
			_, err = r.ReadMsgToAny(&nmdc.BadPass{}, &nmdc.GetPass{})
			return err
		}
		err := read()
		var ue *nmdc.ErrUnexpectedCommand
		c.Assert(errors.As(err, &ue) && ue.Received != nil, "line %q: %v", line, err)
		c.Assert(ue.Received.Typ == typ && string(ue.Received.Data) == p, "line %q is reported as %q %q", line, ue.Received.Typ, ue.Received.Data)
		err2 := read()
		var ue2 *nmdc.ErrUnexpectedCommand
		c.Assert(errors.As(err2, &ue2) && ue2.Received.Typ == "Hello", "after %q: %v", line, err2)
		c.Assert(read() == nil, "after %q: the requested message is refused", line)
		c.Ops(3)
		c.Assert(ue.Received.Typ == typ && string(ue.Received.Data) == p, "the report of %q changed to %q %q", line, ue.Received.Typ, ue.Received.Data)
		c.StateS(line)
	}}
}

// reusedLists: a list type decoded again does not change copies of it.
func reusedLists() S {
	lists := []string{"AAAA,BBBB,CCCC", "DDDD", "EEEE,FFFF", "a/b/c", "d", "e/f"}
	fields := []string{"AAx BBy CCz", "DDw", "EEv FFu"}
	return S{"reused-lists", "every list type of both protocols decoded twice into one variable, each pair of lists: copies of the first value", func(c *C) {
		kind := c.Choose(4)
		vals := lists[:3]
		switch kind {
		case 1:
			vals = lists[3:]
		case 2:
			vals = fields
		case 3:
			vals = []string{"a b c", "d", "e f"}
		}
		v1, v2 := vals[c.Choose(3)], vals[c.Choose(3)]
		var before, after string
		c.Ops(2)
		c.StateS(fmt.Sprint(kind, v1, v2))
		switch kind {
		case 0:
			var f adc.ExtFeatures
			c.Assert(f.UnmarshalADC([]byte(v1)) == nil, "decode")
			old := f
			before = fmt.Sprint(old)
			c.Assert(f.UnmarshalADC([]byte(v2)) == nil, "decode")
			after = fmt.Sprint(old)
		case 1:
			var f adc.Path
			c.Assert(f.UnmarshalADC([]byte(v1)) == nil, "decode")
			old := f
			before = fmt.Sprint(old)
			c.Assert(f.UnmarshalADC([]byte(v2)) == nil, "decode")
			after = fmt.Sprint(old)
		case 2:
			var f adc.Fields
			c.Assert(f.UnmarshalADC([]byte(v1)) == nil, "decode")
			old := f
			before = fmt.Sprint(old)
			c.Assert(f.UnmarshalADC([]byte(v2)) == nil, "decode")
			after = fmt.Sprint(old)
		case 3:
			var f nmdc.Supports
			c.Assert(f.UnmarshalNMDC(nil, []byte(v1)) == nil, "decode")
			old := f
			before = fmt.Sprint(old)
			c.Assert(f.UnmarshalNMDC(nil, []byte(v2)) == nil, "decode")
			after = fmt.Sprint(old)
		}
		c.Assert(before == after, "a copy of the value decoded from %q changes from %s to %s when %q is decoded into the same variable", v1, before, after, v2)
	}}
}
