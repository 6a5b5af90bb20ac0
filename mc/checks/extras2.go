package checks

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
)

// Histories: transports that are interrupted and go on, pairs of operations
// on unrelated messages, and lists.

func init() {
	extend("C01", func(th bool) []S { return []S{interruptedLines(th, false), interruptedLines(th, true)} })
	extend("C03", func(th bool) []S { return []S{interruptedRaw(th, false), interruptedRaw(th, true)} })
	extend("C09", func(th bool) []S { return []S{nmdcLists(th), nmdcPairs("pairs-encode", true, th)} })
	extend("C11", func(th bool) []S { return []S{nmdcPairs("pairs", false, th)} })
	extend("C17", func(th bool) []S { return []S{adcLists(th), adcPairs("pairs-encode", true, th)} })
	extend("C18", func(th bool) []S { return []S{adcPairs("pairs", false, th)} })
}

// ------------------------------------------------------------ interruptions

var errPause = errors.New("injected temporary failure")

// pauses is a transport that may fail without data at any point, and goes on
// afterwards; every failure is a deviation. What it delivers per read is a
// choice.
type pauses struct {
	src
	pending int // failures that were not reported by the reader yet
	total   int
	err     error // what the failures are
}

func (s *pauses) Read(p []byte) (int, error) {
	if len(p) != 0 && s.c.Dev(2) == 1 {
		s.pending++
		s.total++
		s.c.Logf("transport: 0 bytes, %v", s.err)
		return 0, s.err
	}
	return s.src.Read(p)
}

// got accounts for the result of an operation that consumed n bytes.
func (s *pauses) got(what string, err error) {
	if err == s.err {
		s.c.Assert(s.pending == 1, "%s reports the transport failure, %d are unreported", what, s.pending)
		s.pending = 0
		return
	}
	s.c.Assert(s.pending == 0, "%s: the transport failed but the operation reported %v", what, err)
}

// marked makes a stream whose bytes are distinguishable.
func marked(c *C, n int) []byte {
	data := make([]byte, n)
	for i := range data {
		data[i] = '|'
		if c.Bool() {
			data[i] = byte('a' + i)
		}
	}
	return data
}

// at tells whether b continues the stream at the position; an interrupted
// operation may or may not have handed over what it had before the failure.
func at(data []byte, pos int, b []byte) bool {
	return len(b) <= len(data)-pos && bytes.Equal(data[pos:pos+len(b)], b)
}

// pauseKinds are errKinds that the reader itself does not produce.
func pauseKinds() []error {
	var out []error
	for _, e := range errKinds {
		// no transport returns the errors that buffers use internally
		if e != io.EOF && e != io.ErrUnexpectedEOF && e != bufio.ErrBufferFull {
			out = append(out, e)
		}
	}
	return out
}

func interruptedLines(th, kinds bool) S {
	n, dev := 4, 2
	if th {
		n, dev = 5, 3
	}
	name, errs := "interrupted", []error{errPause}
	if kinds {
		name, errs = "interrupted-kinds", pauseKinds()
		n, dev = n-1, 1
	}
	return S{name, fmt.Sprintf("streams of %d bytes over {delimiter, letters} of a transport that fails temporarily (%d kinds of errors) at up to %d points, every fragmentation, every sequence of line and raw reads (1, 2 or 9 bytes): every failure is reported once, in its place, and no byte is lost", n, len(errs), dev), func(c *C) {
		data := marked(c, n)
		c.SetDeviations(dev)
		s := &pauses{src: src{c: c, data: data, withData: c.Bool()}, err: errs[c.Choose(len(errs))]}
		r := lineproto.NewReader(s, '|')
		c.Logf("stream %q", data)
		pos, held := 0, 0 // held: bytes before pos that came with a failure
		for {
			if op := c.Choose(3); op != 0 {
				b := make([]byte, []int{0, 2, 9}[op])
				m, err := r.Read(b)
				c.Op()
				c.Logf("Read(%d) = %q, %v", len(b), b[:m], err)
				// what came with an error of a line read may come again
				if held > 0 && m > 0 && !at(data, pos, b[:m]) && at(data, pos-held, b[:m]) {
					pos -= held
				}
				held = 0
				c.Assert(at(data, pos, b[:m]), "Read at offset %d of %q: %q", pos, data, b[:m])
				pos += m
				s.got("Read", err)
				if err == s.err || err == nil {
					c.Assert(err != nil || m > 0, "Read made no progress")
					continue
				}
				c.Assert(err == io.EOF && pos == len(data), "Read at offset %d of %q: %v", pos, data, err)
				return
			}
			line, err := r.ReadLine()
			c.Op()
			c.Logf("ReadLine() = %q, %v", line, err)
			if held > 0 && len(line) > 0 && !at(data, pos, line) && at(data, pos-held, line) {
				pos -= held
			}
			held = 0
			c.Assert(at(data, pos, line), "ReadLine at offset %d of %q: %q", pos, data, line)
			s.got("ReadLine", err)
			i := bytes.IndexByte(line, '|')
			if err == nil {
				c.Assert(i >= 0 && i == len(line)-1, "ReadLine at offset %d of %q returns %q", pos, data, line)
			} else {
				c.Assert(i < 0, "ReadLine returns %q with %v", line, err)
			}
			pos += len(line)
			c.StateS(fmt.Sprint(pos, err))
			if err == nil {
				continue
			}
			held = len(line)
			if err == io.EOF {
				c.Assert(pos == len(data) || bytes.IndexByte(data[pos:], '|') < 0, "end of stream at offset %d of %q", pos, data)
				return
			}
			c.Assert(err == s.err, "ReadLine: %v", err)
		}
	}}
}

func interruptedRaw(th, kinds bool) S {
	n, dev := 5, 2
	if th {
		dev = 3
	}
	name, errs := "interrupted", []error{errPause}
	if kinds {
		name, errs = "interrupted-kinds", pauseKinds()
		n, dev = 3, 1
	}
	return S{name, fmt.Sprintf("streams of %d bytes of a transport that fails temporarily (%d kinds of errors) at up to %d points, every fragmentation: a line or nothing, then a section of 1, 3 or 9 bytes read with buffers of 1, 2 or 9 bytes and closed (again after a failure) at any point, then lines", n, len(errs), dev), func(c *C) {
		data := marked(c, n)
		c.SetDeviations(dev)
		s := &pauses{src: src{c: c, data: data, withData: c.Bool()}, err: errs[c.Choose(len(errs))]}
		r := lineproto.NewReader(s, '|')
		c.Logf("stream %q", data)
		pos := 0
		if c.Bool() {
			line, err := r.ReadLine()
			c.Op()
			s.got("ReadLine", err)
			c.Assert(at(data, pos, line), "ReadLine: %q of %q", line, data)
			if err == s.err && len(line) == 0 {
				c.Skip() // covered by the one without a line
			}
			if err == io.EOF {
				return
			}
			pos += len(line)
		}
		n := pickInt(c, 1, 3, 9)
		bs := pickInt(c, 2, 1, 9)
		br, err := r.Binary(uint64(n))
		c.Assert(err == nil, "Binary: %v", err)
		got, want := 0, min(n, len(data)-pos)
		for {
			if c.Choose(2) == 1 {
				break
			}
			b := make([]byte, bs)
			m, err := br.Read(b)
			c.Op()
			c.Logf("Read(%d) = %q, %v", bs, b[:m], err)
			c.Assert(m <= want-got && at(data, pos+got, b[:m]), "section of %d at offset %d of %q, %d read: %q", n, pos, data, got, b[:m])
			got += m
			s.got("section Read", err)
			if err == io.EOF {
				c.Assert(got == want, "section of %d ended after %d", n, got)
				break
			}
			c.Assert(err == s.err || err == nil && m > 0, "section Read: %d, %v", m, err)
		}
		for {
			err := br.Close()
			c.Op()
			c.Logf("Close() = %v", err)
			s.got("Close", err)
			if err == nil || err != s.err {
				c.Assert(err == nil || want < n, "Close: %v", err)
				break
			}
		}
		pos += want
		c.StateS(fmt.Sprint(pos, n, bs, got))
		for {
			line, err := r.ReadLine()
			c.Op()
			c.Logf("ReadLine() = %q, %v", line, err)
			s.got("ReadLine", err)
			c.Assert(at(data, pos, line), "after the section, at offset %d of %q: %q", pos, data, line)
			if err == s.err {
				if len(line) != 0 {
					return
				}
				continue
			}
			if err == nil {
				pos += len(line)
				continue
			}
			c.Assert(err == io.EOF, "%v", err)
			return
		}
	}}
}

// -------------------------------------------------------------------- pairs

// hop is an operation on its own message; its result depends on nothing else.
type hop struct {
	name string
	typ  string
	run  func() string
	base string
}

// pairs checks every ordered pair of an operation of a and one of b (those on
// messages of the same type, and every third of the others unless all is set).
func pairs(name, bound string, all bool, mk func() (a, b []*hop)) S {
	var once sync.Once
	var a, b []*hop
	prep := func() {
		a, b = mk()
		for _, o := range b {
			o.base = o.run()
		}
	}
	return S{name, bound, func(c *C) {
		once.Do(prep)
		x := a[c.Choose(len(a))]
		n := 0
		for i, y := range b {
			if !all && i%3 != 0 && x.typ != y.typ {
				continue
			}
			n++
			x.run()
			got := y.run()
			if got != y.base {
				c.Logf("first %s", x.name)
				c.Fail("%s gives %s, after %s it gives %s", y.name, y.base, x.name, got)
			}
		}
		c.Ops(2 * n)
		c.Assert(true, "")
		c.StateS(x.name)
	}}
}

// nmdcSingle lists every line of the templates with at most one slot that is not
// the default.
func nmdcSingle() []string {
	var out []string
	seen := map[string]bool{}
	add := func(l string) {
		if !seen[l] && strings.Count(l, "|") == 1 {
			seen[l] = true
			out = append(out, l)
		}
	}
	for _, l := range nmdcCorpus() {
		add(l)
		// a part is empty
		body := strings.TrimSuffix(l, "|")
		for _, sep := range []string{" ", "$", "?", ",", ":", "/", "\x05"} {
			parts := strings.Split(body, sep)
			for i := range parts {
				if len(parts) == 1 || parts[i] == "" || len(parts) > 20 {
					continue
				}
				p := append([]string(nil), parts...)
				p[i] = ""
				add(strings.Join(p, sep) + "|")
				add(strings.Join(append(append([]string(nil), parts[:i]...), parts[i+1:]...), sep) + "|")
			}
		}
	}
	for _, t := range relayTemplates() {
		for i, s := range t.slots {
			for k := range s {
				if i > 0 && k == 0 {
					continue
				}
				p := ""
				for j, s := range t.slots {
					if j == i {
						p += s[k]
					} else {
						p += s[0]
					}
				}
				add(nline(t.typ, p))
			}
		}
	}
	return out
}

// spoil lists copies of a message with one text field each replaced by
// something that needs escapes or cannot be written.
func spoil(m interface{}, vals []string) []interface{} {
	var out []interface{}
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	n := v.Elem().NumField()
	for i := 0; i < n; i++ {
		if v.Elem().Field(i).Kind() != reflect.String || !v.Elem().Field(i).CanSet() {
			continue
		}
		for _, s := range vals {
			cp := reflect.New(v.Elem().Type())
			cp.Elem().Set(v.Elem())
			cp.Elem().Field(i).SetString(s)
			out = append(out, cp.Interface())
		}
	}
	return out
}

func lineType(l string) string {
	if !strings.HasPrefix(l, "$") {
		return ""
	}
	l = l[1:]
	if i := strings.IndexAny(l, " |"); i >= 0 {
		l = l[:i]
	}
	return l
}

func nmdcDec(line string) *hop {
	return &hop{name: fmt.Sprintf("decoding %q", line), typ: lineType(line), run: func() string {
		m, err := nmdc.Unmarshal(nil, []byte(line))
		if err != nil {
			return "an error"
		}
		return dump(m)
	}}
}

func nmdcEnc(m nmdc.Message) *hop {
	return &hop{name: "encoding " + dump(m), typ: m.Type(), run: func() string {
		b, err := nmdc.Marshal(nil, m)
		if err != nil {
			return "an error"
		}
		return fmt.Sprintf("%q", b)
	}}
}

func nmdcPairs(name string, enc, th bool) S {
	what := "decoding"
	if enc {
		what = "encoding"
	}
	bound := "every pair of operations on unrelated messages: decoding a line (every template and type, one part changed, missing or empty) or encoding a message (valid, with escapes, not representable), then " + what + " another one: the result is the one it has alone"
	return pairs(name, bound, th, func() (a, b []*hop) {
		var dec, encs []*hop
		seen := map[string]bool{}
		lines := nmdcSingle()
		var msgs []nmdc.Message
		for _, l := range lines {
			dec = append(dec, nmdcDec(l))
			if m, err := nmdc.Unmarshal(nil, []byte(l)); err == nil {
				msgs = append(msgs, m)
			}
		}
		for _, l := range nmdcCorpus() {
			if m, err := nmdc.Unmarshal(nil, []byte(l)); err == nil {
				for _, s := range spoil(m, []string{"a|b", "x$&\x00", ""}) {
					msgs = append(msgs, s.(nmdc.Message))
				}
			}
		}
		for _, m := range msgs {
			if mi, ok := m.(*nmdc.MyINFO); ok && len(mi.Extra) > 1 {
				continue // not in a specified order
			}
			if d := dump(m); !seen[d] {
				seen[d] = true
				encs = append(encs, nmdcEnc(m))
			}
		}
		few := func(l []*hop, n int) []*hop {
			if th {
				return l
			}
			var out []*hop
			for i := 0; i < len(l); i += n {
				out = append(out, l[i])
			}
			return out
		}
		if enc {
			return append(few(dec, 5), encs...), few(encs, 2)
		}
		return append(dec, few(encs, 6)...), dec
	})
}

func adcDec(line string) *hop {
	return &hop{name: fmt.Sprintf("decoding %q", line), typ: line[1:min(4, len(line))], run: func() string {
		p, err := adc.DecodePacket([]byte(line))
		if err != nil {
			return "an error"
		}
		return dump(p)
	}}
}

func adcEnc(p adc.Packet) *hop {
	return &hop{name: "encoding " + dump(p), typ: p.Message().Cmd().String(), run: func() string {
		var buf bytes.Buffer
		w := adc.NewWriter(&buf)
		err := w.WritePacket(p)
		if err == nil {
			err = w.Flush()
		}
		if err != nil {
			return "an error"
		}
		return fmt.Sprintf("%q", buf.String())
	}}
}

// adcSingle lists packets of every message and some kinds with one token
// missing, empty, repeated, or changed.
func adcSingle() []string {
	var out []string
	seen := map[string]bool{}
	add := func(l string) {
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	headers := []string{"I%s", "B%s ABCD", "D%s ABCD 2345", "F%s ABCD +TCP4 -NAT0", "U%s " + b32(hashes[0][:])}
	for k, h := range headers {
		for i, p := range adcPayloads() {
			h := strings.Replace(h, "%s", p[0], 1)
			if k > 0 && i%4 != k-1 {
				continue
			}
			toks := strings.Split(h+" "+p[1], " ")
			add(strings.TrimSuffix(strings.Join(toks, " "), " ") + "\n")
			for j := range toks {
				for _, r := range []string{"", "-", toks[j] + " " + toks[j], toks[j] + "\\sx\\n", toks[j] + ",", toks[j][:len(toks[j])/2], "TO9", "ZZ\\"} {
					t := append([]string(nil), toks...)
					t[j] = r
					add(strings.Join(t, " ") + "\n")
				}
				add(strings.Join(append(append([]string(nil), toks[:j]...), toks[j+1:]...), " ") + "\n")
			}
		}
	}
	return out
}

func adcPairs(name string, enc, th bool) S {
	what := "decoding"
	if enc {
		what = "encoding"
	}
	bound := "every pair of operations on unrelated packets: decoding a line (every message, one part changed, missing, empty or repeated) or encoding one, then " + what + " another one: the result is the one it has alone"
	return pairs(name, bound, th, func() (a, b []*hop) {
		var dec, encs []*hop
		seen := map[string]bool{}
		for _, l := range adcSingle() {
			dec = append(dec, adcDec(l))
			if p, err := adc.DecodePacket([]byte(l)); err == nil {
				if s, ok := p.Message().(adc.Supported); ok && len(s.Features) > 1 {
					continue // not in a specified order
				}
				if d := dump(p); !seen[d] {
					seen[d] = true
					encs = append(encs, adcEnc(p))
				}
			}
		}
		few := func(l []*hop, n int) []*hop {
			if th {
				return l
			}
			var out []*hop
			for i := 0; i < len(l); i += n {
				out = append(out, l[i])
			}
			return out
		}
		if enc {
			return append(few(dec, 8), few(encs, 2)...), few(encs, 2)
		}
		return append(few(dec, 2), few(encs, 6)...), few(dec, 2)
	})
}

// -------------------------------------------------------------------- lists

func nmdcLists(th bool) S {
	n := 5
	if th {
		n = 7
	}
	kinds := []string{"UserCommand", "SR", "OpList", "BotList", "UserIP", "Supports", "FailOver"}
	return S{"lists", fmt.Sprintf("%d message types: all lists of 1..%d elements over 3 values (equal neighbours and repetitions included), and lists of 20, 300 and 3000 elements", len(kinds), n), func(c *C) {
		k := kinds[c.Choose(len(kinds))]
		vals := []string{"a", "bc", "a&d"}
		if k == "Supports" || k == "FailOver" {
			vals = []string{"a", "bc", "ad"}
		}
		var l, e []string
		if c.Bool() {
			for i := 1 + c.Choose(n); i > 0; i-- {
				s := vals[c.Choose(len(vals))]
				l, e = append(l, s), append(e, refName(s))
			}
		} else {
			step := c.Choose(3)
			for i := pickInt(c, 20, 300, 3000); i > 0; i-- {
				s := vals[i*step%3]
				l, e = append(l, s), append(e, refName(s))
			}
		}
		var m nmdc.Message
		var want string
		switch k {
		case "UserCommand":
			m, want = &nmdc.UserCommand{Typ: 1, Context: 3, Path: l, Command: "c"}, "1 3 "+strings.Join(e, "\\")+" $c"
		case "SR":
			m, want = &nmdc.SR{From: "u", Path: l, IsDir: true, FreeSlots: 1, TotalSlots: 2, HubName: "h", HubAddress: "x"}, "u "+strings.Join(e, "\\")+" 1/2\x05h (x)"
		case "OpList":
			m, want = &nmdc.OpList{Names: l}, strings.Join(e, "$$")+"$$"
		case "BotList":
			m, want = &nmdc.BotList{Names: l}, strings.Join(e, "$$")+"$$"
		case "UserIP":
			u := &nmdc.UserIP{}
			for i, s := range l {
				ip := vals[(i/2)%2]
				u.List = append(u.List, nmdc.UserAddress{Name: s, IP: ip})
				want += e[i] + " " + ip + "$$"
			}
			m = u
		case "Supports":
			m, want = &nmdc.Supports{Ext: l}, strings.Join(l, " ")
		case "FailOver":
			m, want = &nmdc.FailOver{Host: l}, strings.Join(l, ",")
		}
		want = nline(k, want)
		d := dump(m)
		b, err := nmdc.Marshal(nil, m)
		c.Ops(2)
		c.Assert(err == nil && string(b) == want, "%s: %s, %v", clips(d), clip(b), err)
		c.Assert(dump(m) == d, "encoding changed %s to %s", clips(d), clips(dump(m)))
		m2, err := nmdc.Unmarshal(nil, b)
		c.Assert(err == nil && dump(m2) == d, "%s decodes to %s, %v", clip(b), clips(dump(m2)), err)
		c.StateS(want)
	}}
}

func adcLists(th bool) S {
	n := 4
	if th {
		n = 6
	}
	return S{"lists", fmt.Sprintf("search terms, exclusions and extensions, command paths, feature lists, supported features, generic fields and feature selectors: all lists of 1..%d elements over 3 values, and lists of 20 and 300", n), func(c *C) {
		k := c.Choose(8)
		vals := []string{"a", "b c", "\\\n"}
		if k == 4 || k == 5 || k == 6 {
			vals = []string{"TCP4", "UDP4", "XYZ0"}
		}
		var l, e []string
		if c.Bool() {
			for i := 1 + c.Choose(n); i > 0; i-- {
				s := vals[c.Choose(len(vals))]
				l, e = append(l, s), append(e, refADC(s))
			}
		} else {
			step := c.Choose(3)
			for i := pickInt(c, 20, 300); i > 0; i-- {
				s := vals[i*step%3]
				l, e = append(l, s), append(e, refADC(s))
			}
		}
		feat := func(s string) (f adc.Feature) { copy(f[:], s); return }
		var m adc.Message
		var want []string
		pre := func(tag string) {
			for _, s := range e {
				want = append(want, tag+s)
			}
		}
		p := adc.Packet(nil)
		line := ""
		switch k {
		case 0:
			m = adc.SearchRequest{And: l}
			pre("AN")
		case 1:
			m = adc.SearchRequest{Not: l, Token: "t"}
			want = append(want, "TOt")
			pre("NO")
		case 2:
			m = adc.SearchRequest{Ext: l, NoExt: l}
			pre("EX")
			pre("RX")
		case 3:
			m = adc.UserCommand{Path: l, Category: 1}
			want = append(want, strings.Join(e, "/"), "CT1")
		case 4:
			var f adc.ExtFeatures
			for _, s := range l {
				f = append(f, feat(s))
			}
			m = adc.UserInfo{Name: "n", Features: f}
			line = "SU" + strings.Join(l, ",")
		case 5:
			// a set: the text is an order of additions
			c.Skip()
		case 6:
			fp := &adc.FeaturePacket{ID: sid("ABCD"), Msg: &adc.RawMessage{Type: adc.MsgType{'X', 'Y', 'Z'}, Data: []byte("d")}}
			line = "FXYZ ABCD"
			for i, s := range l {
				fp.Sel = append(fp.Sel, adc.FeatureSel{Fea: feat(s), Sel: i%3 != 1})
				line += " " + "+-+"[i%3:i%3+1] + s
			}
			p, line = fp, line+" d\n"
		case 7:
			// a reader keeps every element of a list that is not adjacent
			var toks []string
			for i, s := range e {
				toks = append(toks, "AN"+s)
				if i == 0 {
					toks = append(toks, "TOt")
				}
			}
			var r adc.SearchRequest
			err := adc.Unmarshal([]byte(strings.Join(toks, " ")), &r)
			c.Op()
			w := dump(adc.SearchRequest{And: l, Token: "t"})
			c.Assert(err == nil && dump(r) == w, "%s decodes to %s, %v, want %s", clips(strings.Join(toks, " ")), clips(dump(r)), err, clips(w))
			return
		}
		if p == nil {
			var buf bytes.Buffer
			err := adc.Marshal(&buf, m)
			c.Op()
			if k == 4 {
				c.Assert(err == nil && (strings.Contains(" "+buf.String()+" ", " "+line+" ")), "%s: %s, %v", clips(dump(m)), clip(buf.Bytes()), err)
			} else {
				c.Assert(err == nil && buf.String() == strings.Join(want, " "), "%s: %s, %v", clips(dump(m)), clip(buf.Bytes()), err)
			}
			r := reflect.New(reflect.TypeOf(m))
			err = adc.Unmarshal(buf.Bytes(), r.Interface())
			c.Op()
			c.Assert(err == nil && dump(r.Elem().Interface()) == dump(m), "%s decodes to %s, %v", clip(buf.Bytes()), clips(dump(r.Elem().Interface())), err)
			c.StateS(buf.String())
			return
		}
		var buf bytes.Buffer
		w := adc.NewWriter(&buf)
		err := w.WritePacket(p)
		if err == nil {
			err = w.Flush()
		}
		c.Ops(2)
		c.Assert(err == nil && buf.String() == line, "%s: %s, %v, want %s", clips(dump(p)), clip(buf.Bytes()), err, clips(line))
		p2, err := adc.DecodePacketRaw(buf.Bytes())
		c.Op()
		c.Assert(err == nil && strings.HasPrefix(dump(p2), "*FeaturePacket") && dump(p2.(*adc.FeaturePacket).Sel) == dump(p.(*adc.FeaturePacket).Sel), "%s decodes to %s, %v", clip(buf.Bytes()), clips(dump(p2)), err)
		c.StateS(line)
	}}
}
