package checks

import (
	"bytes"
	"fmt"
	"strings"

	"golang.org/x/text/encoding/charmap"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"
)

// Large writes, long messages and big files for the properties about failures,
// aliasing and keyprints; malformed feature lists.

func init() {
	large := []string{"line:100", "line:4095", "line:4097", "line:70000", "raw:100", "raw:70000", "flush", "zlib:-1", "unzlib"}
	extend("C05", func(th bool) []S {
		return []S{{"large", "default buffer: all sequences of 4 of " + fmt.Sprint(large), func(c *C) {
			largeWrites(c, newWsys(c, 0), 4, large)
		}}}
	})
	extend("C06", func(th bool) []S {
		return []S{{"large", "default buffer: all sequences of 3 of " + fmt.Sprint(large) + ", any single connection write failing with 0, half or all bytes taken, any single operation afterwards, close", func(c *C) {
			m := newWsys(c, 0)
			m.sink.faults = true
			c.SetDeviations(1)
			largeWrites(c, m, 3, large)
		}}}
	})
	extend("C08", func(th bool) []S {
		return []S{{"large", "default buffer: all sequences of 3 of " + fmt.Sprint(large) + " with a deadline callback, any single arming or connection write failing", func(c *C) {
			m := newWsys(c, 0)
			m.sink.watch, m.sink.faults, m.armFail = true, true, true
			m.w.Timeout = m.timeout
			c.SetDeviations(1)
			largeWrites(c, m, 3, large)
		}}}
	})
	extend("C22", func(th bool) []S { return []S{bigFiles()} })
	extend("C25", func(th bool) []S { return []S{longAliases()} })
	extend("C28", func(th bool) []S { return []S{infoTexts(th)} })
	extend("C26", func(th bool) []S { return []S{malformedFeatures()} })
}

func largeWrites(c *C, m *wsys, depth int, ops []string) {
	for i := 0; i < depth && !m.failed; i++ {
		m.do(ops[c.Choose(len(ops))])
	}
	if m.failed {
		m.do([]string{"line:3", "raw:2", "flush", "line:70000"}[c.Choose(4)])
	}
	m.do("close")
	m.prefix("close")
	m.do("flush")
	m.do("close")
}

func bigFiles() S {
	sizes := append(around(12, 16, 20, 22, 23), 100000)
	return S{"big", fmt.Sprintf("files with text, a key or a certificate of each of %d sizes up to 8 MB before, between or after two small certificates", len(sizes)), func(c *C) {
		n := sizes[c.Choose(len(sizes))]
		pa, pb := pattern(70, 1), pattern(333, 2)
		parts := []string{refPEM("CERTIFICATE", "\n", "", 64, pa), refPEM("CERTIFICATE", "\n", "", 64, pb)}
		kps := []string{refKP(pa), refKP(pb)}
		big, kp := "", ""
		switch c.Choose(4) {
		case 0:
			big = strings.Repeat("x", n-1) + "\n"
		case 1:
			big = strings.Repeat("some text\n", n/10)
		case 2:
			big = refPEM("PRIVATE KEY", "\n", "", 64<<10, pattern(n, 3))
		case 3:
			der := pattern(n, 4)
			big, kp = refPEM("CERTIFICATE", "\n", "", 64<<10, der), refKP(der)
		}
		at := c.Choose(3)
		text := strings.Join(parts[:at], "") + big + strings.Join(parts[at:], "")
		want := append([]string{}, kps[:at]...)
		if kp != "" {
			want = append(want, kp)
		}
		want = append(want, kps[at:]...)
		got, err := keyprint.FromFile(strings.NewReader(text))
		c.Op()
		c.Assert(err == nil && fmt.Sprint(got) == fmt.Sprint(want), "file of %d bytes, %d certificates: %v, %v, want %v", len(text), len(want), got, err, want)
		c.StateS(fmt.Sprint(n, at, len(text)))
	}}
}

func longAliases() S {
	specs := nmdcSpecs()
	sizes := append(around(6, 8, 10, 11, 12, 13, 15), 300, 40000)
	return S{"nmdc-long", fmt.Sprintf("every text and name field of %d message types x %d values of lengths up to 40000, with and without escapes: decoded from a buffer that is overwritten, or read before another one of the same type and lengths, nil and windows-1251 decoder; encoded twice", len(specs), 2*len(sizes)), func(c *C) {
		sp := specs[c.Choose(len(specs))]
		if sp.fields == 0 {
			c.Skip()
		}
		size := sizes[c.Choose(len(sizes))]
		esc := pick(c, "", "&amp;")
		gen := func(x byte, deep int) (nmdc.Message, string) {
			v := strings.Repeat(string([]byte{x}), size)
			if esc != "" && size > 10 {
				v = v[5:] + "&"
			}
			g := &ngen{c: c, deep: deep, vals: []string{v}, other: string([]byte{x, x})}
			m, payload := sp.gen(g)
			g.skipIf(!g.used)
			if g.bad || g.free {
				c.Skip()
			}
			return m, payload
		}
		deep := c.Choose(sp.fields)
		m1, p1 := gen('a', deep)
		_, p2 := gen('b', deep)
		var enc *nmdc.TextEncoder
		var dec *nmdc.TextDecoder
		if c.Bool() {
			enc, dec = charmap.Windows1251.NewEncoder(), charmap.Windows1251.NewDecoder()
		}
		switch c.Choose(3) {
		case 0:
			in := []byte(p1)
			m := nmdc.NewMessage(sp.typ)
			if m.UnmarshalNMDC(dec, in) != nil {
				c.Skip()
			}
			c.Checked()
			d := dump(m)
			fill(in, 'x')
			c.Assert(dump(m) == d, "%s: overwriting the input changes the message", clips(d))
		case 1:
			r := nmdc.NewReader(strings.NewReader(nline(sp.typ, p1) + nline(sp.typ, p2) + nline(sp.typ, p1)))
			r.SetMaxLine(0)
			if dec != nil {
				r.SetDecoder(dec)
			}
			var ms []nmdc.Message
			var ds []string
			for i := 0; i < 3; i++ {
				m, err := r.ReadMsg()
				c.Op()
				if err != nil {
					c.Skip()
				}
				ms, ds = append(ms, m), append(ds, dump(m))
			}
			c.Checked()
			for i, m := range ms {
				c.Assert(dump(m) == ds[i], "%s changed to %s by later reads", clips(ds[i]), clips(dump(m)))
			}
			c.Assert(ds[0] == ds[2], "%s, then %s", clips(ds[0]), clips(ds[2]))
			scramble(ms[0])
			scramble(ms[2])
			c.Assert(dump(ms[1]) == ds[1], "%s: changing other messages changes it to %s", clips(ds[1]), clips(dump(ms[1])))
		case 2:
			if mi, ok := m1.(*nmdc.MyINFO); ok && len(mi.Extra) > 1 {
				c.Skip()
			}
			d := dump(m1)
			b1, err := nmdc.Marshal(enc, m1)
			if err != nil {
				c.Skip()
			}
			c.Checked()
			s := string(b1)
			b2, err := nmdc.Marshal(enc, m1)
			c.Assert(err == nil && string(b2) == s && string(b1) == s && dump(m1) == d, "%s is encoded as %s, then as %s, %v", clips(d), clips(s), clip(b2), err)
			fill(b2, 'x')
			c.Assert(string(b1) == s, "%s: overwriting its second line changes the first one", clips(d))
			scramble(m1)
			c.Assert(string(b1) == s, "%s: overwriting it changes its line", clips(d))
			var buf bytes.Buffer
			w := nmdc.NewWriterSize(&buf, 1<<17)
			other := nmdc.NewMessage(sp.typ)
			if other.UnmarshalNMDC(nil, []byte(p2)) != nil {
				return
			}
			same := nmdc.NewMessage(sp.typ)
			if same.UnmarshalNMDC(nil, []byte(p1)) != nil {
				return
			}
			w.SetEncoder(enc)
			if w.WriteMsg(same) != nil || w.WriteMsg(other) != nil {
				return
			}
			want := s
			if l, err := nmdc.Marshal(enc, other); err == nil {
				want += string(l)
			}
			scramble(same)
			scramble(other)
			c.Assert(w.Flush() == nil && buf.String() == want, "written %s, want %s", clips(buf.String()), clips(want))
		}
		c.StateS(fmt.Sprint(sp.typ, deep, size, esc))
	}}
}

func malformedFeatures() S {
	names := []string{"TCP4", "UDP4", "", "T", "TC", "TCP", "TCP44", "TCP4UDP4", "TC 4", "TC\n4", " TCP4", "TCP4 ", "tcp4", "ÄÖ", "\x00\x01\x02\x03"}
	ok := func(s string) bool { return len(s) == 4 && !strings.ContainsAny(s, " \n") }
	return S{"malformed lists", fmt.Sprintf("lists of up to 3 of %d names, some of a wrong length or with a delimiter: refused, or decoded to exactly these names", len(names)), func(c *C) {
		n := c.Choose(4)
		var l []string
		good := true
		for i := 0; i < n; i++ {
			s := names[c.Choose(len(names))]
			l = append(l, s)
			good = good && ok(s)
		}
		text := strings.Join(l, ",")
		var f adc.ExtFeatures
		err := f.UnmarshalADC([]byte(text))
		c.Op()
		switch {
		case text == "":
			c.Assert(len(f) == 0, "an empty list is decoded to %v", f)
		case !good:
			c.Assert(err != nil, "feature list %q is accepted as %v", text, f)
		default:
			var got []string
			for _, x := range f {
				got = append(got, x.String())
			}
			c.Assert(err == nil && fmt.Sprintf("%q", got) == fmt.Sprintf("%q", l), "feature list %q is decoded to %q, %v", text, got, err)
		}
		// additions and removals, each name a token of its own
		var toks []string
		good = n > 0
		want := map[string]bool{}
		for i, s := range l {
			if strings.ContainsAny(s, " \n") {
				c.Skip()
			}
			good = good && ok(s)
			if i == 1 {
				toks = append(toks, "RM"+s)
			} else {
				toks = append(toks, "AD"+s)
			}
		}
		for i, s := range l {
			if i == 1 {
				want[s] = false
			}
		}
		for i, s := range l {
			if i != 1 {
				want[s] = true
			}
		}
		if n == 0 {
			return
		}
		data := strings.Join(toks, " ")
		var m adc.ModFeatures
		err = m.UnmarshalADC([]byte(data))
		c.Op()
		if !good {
			c.Assert(err != nil, "features %q are accepted as %v", data, m)
		} else {
			got := map[string]bool{}
			for k, v := range m {
				got[k.String()] = v
			}
			c.Assert(err == nil && fmt.Sprint(got) == fmt.Sprint(want), "features %q are decoded to %v, %v, want %v", data, got, err, want)
		}
		c.StateS(data)
	}}
}

// infoTexts puts every short text into every field of a user info line.
func infoTexts(th bool) S {
	alpha, l := " <>,:/VvM1&;", 4
	if th {
		l = 5
	}
	return S{"texts", fmt.Sprintf("every text of <= %d characters over %q as the description (with and without a tag), the connection, the e-mail, the client name and version (with both letter cases of the mark), an extra field and the name of one", l, alpha), func(c *C) {
		t := chooseStr(c, alpha, 0, l)
		want := &nmdc.MyINFO{Name: "nick", Client: types.Software{Name: "++", Version: "0.8"}, Mode: 'P', HubsNormal: 1, HubsRegistered: 2, HubsOperator: 3, Slots: 4, Desc: "d", Conn: "50", Flag: 'A', Email: "m", ShareSize: 123}
		desc, client, mark, version, extra, conn, mail := "d", "++", "V", "0.8", "", "50", "m"
		tagText := !strings.ContainsAny(t, "<,")
		switch c.Choose(9) {
		case 0:
			desc, want.Desc = t, t
		case 1:
			if strings.Contains(t, "<") {
				c.Skip()
			}
			want = &nmdc.MyINFO{Name: "nick", Mode: 'P', Desc: t, Conn: "50", Flag: 'A', Email: "m", ShareSize: 123}
			miDecode(c, "$ALL nick "+t+"$P$50A$m$123$", want)
			return
		case 2:
			conn, want.Conn = t, t
		case 3:
			mail, want.Email = t, t
		case 4:
			mark = pick(c, "V", "v")
			if !tagText || strings.Contains(t+" "+mark+":", " V:") && mark == "v" || strings.Contains(t, " V:") || strings.Contains(t, " v:") && mark == "v" {
				c.Skip()
			}
			client, want.Client.Name = t, t
		case 5:
			mark = pick(c, "V", "v")
			if !tagText || mark == "v" && strings.Contains(t, " V:") {
				c.Skip()
			}
			version, want.Client.Version = t, t
		case 6:
			if !tagText {
				c.Skip()
			}
			extra = "XX:" + t + ","
			want.Extra = map[string]string{"XX": t}
		case 7:
			if !tagText || strings.Contains(t, ":") || len(t) < 2 {
				c.Skip()
			}
			extra = t + ":x,"
			want.Extra = map[string]string{t: "x"}
		case 8:
			if !tagText {
				c.Skip()
			}
			miDecode(c, "$ALL nick d<++ V:0.8,M:P,H:1/2/3,S:4,XX:"+t+"y>$ $50A$m$123$", func() *nmdc.MyINFO {
				want.Extra = map[string]string{"XX": t + "y"}
				return want
			}())
			return
		}
		miDecode(c, "$ALL nick "+desc+"<"+client+" "+mark+":"+version+",M:P,"+extra+"H:1/2/3,S:4>$ $"+conn+"A$"+mail+"$123$", want)
	}}
}
