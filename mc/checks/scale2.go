package checks

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"
)

// More sizes and counts around powers of two.

func init() {
	extend("C07", func(th bool) []S { return []S{manyHooks()} })
	extend("C10", func(th bool) []S { return []S{longRelay()} })
	extend("C12", func(th bool) []S { return []S{manyTargets()} })
	extend("C14", func(th bool) []S { return []S{manyBrackets()} })
	extend("C22", func(th bool) []S { return []S{manyCerts()} })
	extend("C23", func(th bool) []S { return []S{longAddrs()} })
	extend("C28", func(th bool) []S { return []S{manyExtras()} })
	extend("C29", func(th bool) []S { return []S{longSearches()} })
}

func manyHooks() S {
	counts := append(around(2, 3, 4, 6, 8, 12), 1, 2, 100)
	return S{"many-hooks", fmt.Sprintf("%d numbers of hooks up to 4097 at one level of the readers and writers of both protocols: each runs once per message, in order of registration, and the ones after a dropping or failing hook do not", len(counts)), func(c *C) {
		n := counts[c.Choose(len(counts))]
		level := c.Choose(6)
		verdict := c.Choose(3) // pass, drop, fail
		at := pickInt(c, 0, n/2, n-1)
		var calls []int
		hook := func(i int) func() (bool, error) {
			return func() (bool, error) {
				calls = append(calls, i)
				if i == at && verdict == 1 {
					return false, nil
				} else if i == at && verdict == 2 {
					return true, errBoom
				}
				return true, nil
			}
		}
		var run func() error
		switch level {
		case 0, 1, 2:
			r := nmdc.NewReader(strings.NewReader("$Hello a|"))
			for i := 0; i < n; i++ {
				f := hook(i)
				switch level {
				case 0:
					r.OnLine(func([]byte) (bool, error) { return f() })
				case 1:
					r.OnRawMessage(func(cmd, args []byte) (bool, error) { return f() })
				case 2:
					r.OnMessage(func(nmdc.Message) (bool, error) { return f() })
				}
			}
			run = func() error { _, err := r.ReadMsg(); return err }
		case 3, 4:
			w := nmdc.NewWriter(&bytes.Buffer{})
			for i := 0; i < n; i++ {
				f := hook(i)
				if level == 3 {
					w.OnLine(func([]byte) (bool, error) { return f() })
				} else {
					w.OnMessage(func(nmdc.Message) (bool, error) { return f() })
				}
			}
			run = func() error { return w.WriteMsg(&nmdc.Hello{Name: "a"}) }
		case 5:
			r := adc.NewReader(strings.NewReader("IZZZ\n"))
			for i := 0; i < n; i++ {
				f := hook(i)
				r.OnLine(func([]byte) (bool, error) { return f() })
			}
			run = func() error { _, err := r.ReadPacket(); return err }
		}
		err := run()
		c.Op()
		want := n
		if verdict != 0 {
			want = at + 1
		}
		c.Assert(len(calls) == want, "%d hooks at level %d, verdict %d of hook %d: %d calls, want %d", n, level, verdict, at, len(calls), want)
		for i, k := range calls {
			if i != k {
				c.Fail("%d hooks at level %d: call %d is of hook %d", n, level, i, k)
			}
		}
		switch {
		case verdict == 2:
			c.Assert(err == errBoom, "hook %d of %d fails: %v", at, n, err)
		case verdict == 1 && (level < 3 || level == 5):
			c.Assert(err == io.EOF, "hook %d of %d drops the only message: %v", at, n, err)
		default:
			c.Assert(err == nil, "%d hooks: %v", n, err)
		}
		c.StateS(fmt.Sprint(n, level, verdict, at))
	}}
}

func longRelay() S {
	specs := nmdcSpecs()
	sizes := append(around(6, 7, 8, 9, 10, 11, 12, 13), 200, 3000, 20000)
	vals := append(longTexts(sizes, "&"), longTexts([]int{63, 64, 65, 127, 128, 129, 255, 256, 257, 5000}, "&amp;")...)
	return S{"long", fmt.Sprintf("lines with long fields of %d message types: every text and name field x %d values up to 20000 bytes, relayed twice", len(specs), len(vals)), func(c *C) {
		sp := specs[c.Choose(len(specs))]
		if sp.fields == 0 || sp.typ == "XRaw" || sp.typ == "Key" {
			c.Skip()
		}
		g := &ngen{c: c, deep: c.Choose(sp.fields), vals: vals, other: "Zz"}
		_, payload := sp.gen(g)
		g.skipIf(!g.used)
		relayCheck(c, nline(sp.typ, payload))
	}}
}

func manyTargets() S {
	counts := append(around(2, 3, 4, 6, 8, 12), 2, 33)
	lines := []struct{ line, dump string }{{"$Hello a|", `*Hello{Name:"a"}`}, {"$Quit b|", `*Quit{Name:"b"}`}, {"<u> t|", `*ChatMessage{Name:"u" Text:"t"}`}}
	return S{"many-targets", fmt.Sprintf("reading into one of %d numbers of messages up to 4097, the matching one being first, in the middle, last or missing, 3 messages", len(counts)), func(c *C) {
		n := counts[c.Choose(len(counts))]
		l := lines[c.Choose(3)]
		at := []int{0, n / 2, n - 1, -1}[c.Choose(4)]
		other := []func() nmdc.Message{
			func() nmdc.Message { return &nmdc.HubName{} }, func() nmdc.Message { return &nmdc.MyPass{} },
			func() nmdc.Message { return &nmdc.Lock{} }, func() nmdc.Message { return &nmdc.ZOn{} },
		}
		arr := make([]nmdc.Message, n)
		for i := range arr {
			arr[i] = other[i%4]()
		}
		if at >= 0 {
			arr[at] = []nmdc.Message{&nmdc.Hello{Name: "old"}, &nmdc.Quit{Name: "old"}, &nmdc.ChatMessage{Name: "old"}}[strings.Index("HQu", l.line[1:2])]
		}
		r := nmdc.NewReader(strings.NewReader(l.line + "$Hello z|"))
		m, err := r.ReadMsgToAny(arr...)
		c.Op()
		if at >= 0 {
			c.Assert(err == nil && m == arr[at] && dumpMsg(m) == l.dump, "%q into number %d of %d: %s, %v", l.line, at, n, dumpMsg(m), err)
			for i := range arr {
				if i != at && dumpMsg(arr[i]) != dumpMsg(other[i%4]()) {
					c.Fail("%q into number %d of %d: changed number %d", l.line, at, n, i)
				}
			}
		} else {
			c.Assert(err != nil, "%q into none of %d: %s", l.line, n, dumpMsg(m))
		}
		m, err = r.ReadMsg()
		c.Assert(err == nil && dumpMsg(m) == `*Hello{Name:"z"}`, "after %q into one of %d: %v", l.line, n, err)
		c.StateS(fmt.Sprint(n, l.line, at))
	}}
}

func manyBrackets() S {
	counts := append(around(3, 4, 5, 6, 7, 8, 10, 12, 14), 100, 20000)
	toks := []string{"<", ">", "a>", "> ", "\n", " ", "&gt;", "a"}
	return S{"repeated", fmt.Sprintf("'<' or \"<a\", one of %d tokens repeated %d numbers of times up to 20000, and one of 6 ends", len(toks), len(counts)), func(c *C) {
		n := counts[c.Choose(len(counts))]
		p := pick(c, "<", "<a") + strings.Repeat(toks[c.Choose(len(toks))], n) + pick(c, "", ">", "> x", ">\n", "> y> ", "\nz")
		if len(p) > 32000 {
			c.Skip()
		}
		chatCheck(c, p)
	}}
}

func manyCerts() S {
	counts := append(around(3, 4, 6, 8, 10, 12), 20, 100)
	return S{"many", fmt.Sprintf("files of %d numbers of certificates up to 4097, of keys in turns or before and after them, certificates of sizes around powers of two up to 64 KB, and chains of as many", len(counts)), func(c *C) {
		var ders [][]byte
		text := ""
		switch k := c.Choose(4); k {
		case 0, 1, 2:
			n := counts[c.Choose(len(counts))]
			key := refPEM("PRIVATE KEY", "\n", "", 64, pattern(48, 3))
			var b strings.Builder
			if k == 2 {
				b.WriteString(strings.Repeat(key, n))
			}
			for i := 0; i < n; i++ {
				der := append(pattern(20+i%9, i), byte(i), byte(i>>8))
				ders = append(ders, der)
				if k == 1 {
					b.WriteString(key)
				}
				b.WriteString(refPEM("CERTIFICATE", "\n", "", 64, der))
			}
			if k == 2 {
				b.WriteString(strings.Repeat(key, n))
			}
			text = b.String()
		case 3:
			for _, n := range around(9, 10, 12, 15, 16) {
				der := pattern(n, n%40)
				ders = append(ders, der)
				text += refPEM("CERTIFICATE", "\n", "", 64, der)
			}
		}
		var want []string
		for _, d := range ders {
			want = append(want, refKP(d))
		}
		got, err := keyprint.FromFile(strings.NewReader(text))
		c.Op()
		c.Assert(err == nil && fmt.Sprint(got) == fmt.Sprint(want), "file of %d certificates, %d bytes: %d keyprints, %v", len(ders), len(text), len(got), err)
		got = keyprint.FromCertificate(tls.Certificate{Certificate: ders})
		c.Op()
		c.Assert(fmt.Sprint(got) == fmt.Sprint(want), "chain of %d certificates: %d keyprints", len(ders), len(got))
		for i, d := range ders {
			if keyprint.FromBytes(d) != want[i] {
				c.Fail("keyprint of %d bytes is %s", len(d), keyprint.FromBytes(d))
			}
		}
		c.StateS(text)
	}}
}

func longAddrs() S {
	sizes := append(around(5, 6, 7, 8, 10, 12, 16), 253, 254)
	return S{"long", fmt.Sprintf("addresses of 6 schemes and none with a host, path, query or run of trailing slashes of %d lengths up to 64 KB", len(sizes)), func(c *C) {
		n := sizes[c.Choose(len(sizes))]
		scheme := pick(c, "", "dchub://", "nmdc://", "nmdcs://", "adc://", "adcs://", "ftp://")
		l := string(bytes.ToLower(pattern(n, 2)))
		host, path, query, slashes := "host:411", "", "", ""
		switch c.Choose(5) {
		case 0:
			host = l + ":411"
		case 1:
			path = "/" + l
		case 2:
			query = "?kp=" + l
		case 3:
			slashes = strings.Repeat("/", n)
		case 4:
			path = strings.Repeat("/ab", n/3+1)
			slashes = "//"
		}
		addr := scheme + host + path + slashes + query
		canon, fns := canonScheme(strings.TrimSuffix(scheme, "://"), scheme != "")
		agreeLong := func(fn addrFns, accept bool) {
			u, err := fn.parse(addr)
			s, err2 := fn.norm(addr)
			c.Ops(2)
			if !accept {
				c.Assert(err != nil && err2 != nil && s == "", "%s: %s is accepted: %v, %v", fn.name, clips(addr), err, err2)
				return
			}
			want := canon + "://" + host + path + query
			c.Assert(err == nil && u.Scheme == canon && u.Host == host && u.Path == path && "?"+u.RawQuery == "?"+strings.TrimPrefix(query, "?"), "%s: %s is parsed as %s, %v", fn.name, clips(addr), clips(urlText(u)), err)
			c.Assert(err2 == nil && s == want, "%s: %s is normalised to %s, %v, want %s", fn.name, clips(addr), clips(s), err2, clips(want))
			s2, err := fn.norm(s)
			c.Assert(err == nil && s2 == s, "%s: %s is normalised to %s, %v", fn.name, clips(s), clips(s2), err)
		}
		agreeLong(dcAddr, fns != nil)
		agreeLong(nmdcAddr, fns == &nmdcAddr)
		if scheme != "" {
			agreeLong(adcAddr, fns == &adcAddr)
		}
		c.StateS(addr)
	}}
}

func manyExtras() S {
	counts := append(around(2, 3, 4, 5, 6, 8, 10), 100)
	return S{"many", fmt.Sprintf("tags of %d numbers of extra fields up to 1025 before, between and after the known ones, and descriptions, clients, connections and mails of as many bytes", len(counts)), func(c *C) {
		n := counts[c.Choose(len(counts))]
		want := &nmdc.MyINFO{Name: "nick", Client: types.Software{Name: "++", Version: "0.8"}, Mode: 'P', HubsNormal: 1, HubsRegistered: 2, HubsOperator: 3, Slots: 4, Desc: "d", Conn: "50", Flag: 'A', Email: "m", ShareSize: 123}
		l := string(pattern(n, 1))
		tag := "M:P,H:1/2/3,S:4"
		switch k := c.Choose(9); k {
		case 0, 1, 2:
			var ex []string
			want.Extra = map[string]string{}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("X%d", i)
				ex = append(ex, k+":"+fmt.Sprint(i*7))
				want.Extra[k] = fmt.Sprint(i * 7)
			}
			e := strings.Join(ex, ",")
			tag = []string{e + "," + tag, tag + "," + e, "M:P," + e + ",H:1/2/3,S:4"}[k]
		case 3:
			want.Desc = l
		case 4:
			want.Client.Name = l
		case 5:
			want.Client.Version = l
		case 6:
			want.Conn = l
		case 7:
			want.Email = l
		case 8:
			want.Extra = map[string]string{"XX": l}
			tag += ",XX:" + l
		}
		line := fmt.Sprintf("$ALL nick %s<%s V:%s,%s>$ $%sA$%s$123$", want.Desc, want.Client.Name, want.Client.Version, tag, want.Conn, want.Email)
		miDecode(c, line, want)
	}}
}

func longSearches() S {
	sizes := append(around(5, 6, 7, 8, 10, 12), 100, 5000)
	return S{"long", fmt.Sprintf("results with a path of one or many elements, hub name, name or recipient, and requests with a pattern, of %d lengths up to 5000", len(sizes)), func(c *C) {
		n := sizes[c.Choose(len(sizes))]
		l := string(pattern(n, 5))
		k := c.Choose(6)
		if (k == 2 || k == 3) && n > 256 {
			c.Skip()
		}
		if k == 5 {
			sp := pick(c, l, strings.Repeat("ab ", n/3+1)+"c", strings.Repeat("?", n))
			m := &nmdc.Search{User: "u", SizeRestricted: true, Size: 10, DataType: nmdc.DataTypeAny, Pattern: sp}
			shDecode(c, "Search", "Hub:u T?F?10?1?"+strings.Replace(nesc(sp), " ", "$", -1), m, true)
			return
		}
		m := &nmdc.SR{From: "from", Path: []string{"d", "f 1/2"}, Size: 12, FreeSlots: 3, TotalSlots: 4, HubName: "hub", HubAddress: "1.2.3.4:411"}
		if c.Bool() {
			m.To = "to"
		}
		switch k {
		case 0:
			m.Path = []string{l}
		case 1:
			m.Path = strings.Split(strings.Repeat(`ab 1/2 (x)\`, n/8+1)+"e", `\`)
		case 2:
			m.From = l
		case 3:
			m.To = l
		case 4:
			m.HubName = strings.Repeat("(h) 1/2 ", n/8) + "x"
		}
		line := fmt.Sprintf("%s %s\x0512 3/4\x05%s (%s)", nesc(m.From), nesc(strings.Join(m.Path, `\`)), nesc(m.HubName), m.HubAddress)
		if m.To != "" {
			line += "\x05" + nesc(m.To)
		}
		shDecode(c, "SR", line, m, true)
	}}
}
