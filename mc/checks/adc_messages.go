package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/direct-connect/go-dc/adc"
)

// C17: ADC messages.

// aenc is a message of a regular type with its specified tokens.
type aenc struct {
	m      adc.Message
	pos    []string // positional fields
	named  []string // named fields in the order of encoding
	groups []int    // named tokens of one list field have the same group
}

func (e aenc) payload() string {
	return strings.Join(append(append([]string(nil), e.pos...), e.named...), " ")
}

// aBuild makes a message; value chooses the field values (nil leaves it zero).
func aBuild(sp aspec, value func(i int, f afield) *aval) aenc {
	e := aenc{m: sp.new()}
	for i, f := range sp.fields {
		v := value(i, f)
		zero := v == nil
		if zero {
			z := akZero(f.kind)
			v = &z
			if f.kind == akSID && f.tag != "#" {
				v = &aval{adc.SID{}, []string{""}}
			}
		}
		toks := f.set(e.m, *v, zero)
		if f.tag == "#" {
			e.pos = append(e.pos, toks...)
			continue
		}
		for _, t := range toks {
			e.named = append(e.named, t)
			e.groups = append(e.groups, i)
		}
	}
	return e
}

// fixedVal is a default non-zero value of a field, distinct for each field.
func fixedVal(i int, f afield) *aval {
	v := chooseVal(f, func() string { return fmt.Sprintf("v %d\\", i) }, func(n int) int { return i % n })
	return &v
}

func structOf(m adc.Message) adc.Message {
	return reflect.ValueOf(m).Elem().Interface().(adc.Message)
}

// aCheck compares the encodings of a message with the specified payload and
// decodes it by every route.
func aCheck(c *C, m adc.Message, cmd, want string, custom bool) {
	d := adcDump(m)
	for i, v := range []adc.Message{m, structOf(m)} {
		buf := bytes.NewBufferString("x")
		err := adc.Marshal(buf, v)
		c.Op()
		c.Assert(err == nil && buf.String() == "x"+want, "%s (%T) encodes to %s (%v), specified %s", d, v, clips(buf.String()), err, clips(want))
		if i == 0 {
			c.Assert(string(adc.MustMarshal(v)) == want, "%s: MustMarshal differs", d)
		}
		c.Assert(v.Cmd().String() == cmd, "command of %s is %q", d, v.Cmd())
	}
	c.Assert(adcDump(m) == d, "encoding changed the message from %s to %s", d, adcDump(m))
	c.Assert(!strings.Contains(want, "\n"), "raw line break in %q", want)
	aDecode(c, m, cmd, want, custom)
	c.StateS(want)
}

func aDecode(c *C, m adc.Message, cmd, payload string, custom bool) {
	d := adcDump(m)
	rt := reflect.TypeOf(m).Elem()
	in := []byte(payload)
	n := reflect.New(rt).Interface().(adc.Message)
	err := adc.Unmarshal(in, n)
	c.Op()
	c.Assert(err == nil && adcDump(n) == d, "payload %s of %s decodes to %s (%v), want %s", clips(payload), cmd, adcDump(n), err, d)
	c.Assert(string(in) == payload, "decoding changed its input from %q to %q", payload, in)
	line := "I" + cmd + " " + payload + "\n"
	if payload == "" {
		line = "I" + cmd + "\n"
	}
	if strings.IndexByte(payload, 0) >= 0 {
		return
	}
	p, err := adc.DecodePacketRaw([]byte(line))
	c.Assert(err == nil, "line %q: %v", line, err)
	n = reflect.New(rt).Interface().(adc.Message)
	err = p.DecodeMessageTo(n)
	c.Ops(2)
	c.Assert(err == nil && adcDump(n) == d, "line %s decodes to %s (%v), want %s", clips(line), adcDump(n), err, d)
	if custom {
		return
	}
	var mt adc.MsgType
	copy(mt[:], cmd)
	g, err := adc.UnmarshalMessage(mt, in)
	c.Op()
	c.Assert(err == nil && reflect.TypeOf(g) == rt && dump(g) == d, "payload %s of %s decodes to %s (%v), want %s", clips(payload), cmd, dump(g), err, d)
	r := adc.NewReader(strings.NewReader(line))
	g, err = r.ReadInfo()
	c.Op()
	c.Assert(err == nil && dump(g) == d, "line %s is read as %s (%v), want %s", clips(line), dump(g), err, d)
}

func aName(sp aspec) string { return reflect.TypeOf(sp.new()).Elem().Name() }

// permutation picks an order of the tokens that keeps the order inside of groups.
func permutation(c *C, toks []string, groups []int) []string {
	var out []string
	rest := make([]int, len(toks))
	for i := range rest {
		rest[i] = i
	}
	for len(rest) > 0 {
		var heads []int // indexes in rest
		seen := map[int]bool{}
		for k, i := range rest {
			if !seen[groups[i]] {
				seen[groups[i]] = true
				heads = append(heads, k)
			}
		}
		k := heads[c.Choose(len(heads))]
		out = append(out, toks[rest[k]])
		rest = append(append([]int(nil), rest[:k]...), rest[k+1:]...)
	}
	return out
}

// badTexts are texts that no value of the kind has.
func badTexts(f afield) []string {
	switch f.kind {
	case akInt:
		return []string{"x", "1x", "--1", "1-", "0x10", "+", "-", "9223372036854775808", "é", "\\s1", "1,2"}
	case akBool:
		return []string{"2", "x", "11", "true", "-"}
	case akCID, akCIDp, akTTH, akTTHp:
		h := b32(hashes[0][:])
		return []string{h[:38], h + "A", "1" + h[1:], strings.ToLower(h), h[:38] + "=", "A", h[:20] + "\\s" + h[22:]}
	case akSID, akSIDp:
		return []string{"A", "AAA", "AAAAA", "AAAAAAAA"}
	case akFeat:
		return []string{"TCP", "TCP44", "TCP4,", ",TCP4", "TCP4,,UDP4", "TCP4UDP4"}
	}
	return nil
}

func init() {
	register("C17", []string{
		"path elements contain no '/', a user command has at least one path element",
		"session ids of mandatory fields are not zero; texts have no null bytes when sent in a packet",
		"the order of the entries of a feature set is free",
		"severity is not negative and codes are 0..99, others must be refused",
	}, func(thorough bool) []S {
		specs := adcSpecs()
		dev, perms, sl := 2, 6, 4
		if thorough {
			dev, perms, sl = 3, 7, 6
		}
		fields := S{"fields", fmt.Sprintf("%d types: from all-zero and all-set messages, all choices of <= %d fields with any of their values (%d texts, boundary numbers, lists up to 3)", len(specs), dev, len(aTokens)), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			full := c.Bool()
			// the fields to deviate
			pick := map[int]bool{}
			last := -1
			for k := 0; k < dev; k++ {
				i := last + c.Choose(len(sp.fields)-last)
				if i == last {
					break
				}
				pick[i] = true
				last = i
			}
			e := aBuild(sp, func(i int, f afield) *aval {
				if !pick[i] {
					if full {
						return fixedVal(i, f)
					}
					return nil
				}
				if full && c.Bool() {
					return nil
				}
				v := chooseVal(f, func() string { return aTokens[c.Choose(len(aTokens))] }, c.Choose)
				return &v
			})
			aCheck(c, e.m, sp.cmd, e.payload(), sp.custom)
		}}
		texts := S{"texts", fmt.Sprintf("every text, list and path field: all texts of <= %d characters over %q, alone and with the other fields set", sl, aAlpha), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			k := c.Choose(len(sp.fields))
			f := sp.fields[k]
			if f.kind != akStr && f.kind != akStrs && f.kind != akPath {
				c.Skip()
			}
			full := c.Bool()
			s := chooseStr(c, aAlpha, 0, sl)
			if s == "" && f.kind == akStr && !f.req && f.tag != "#" {
				c.Skip()
			}
			if f.kind == akPath && strings.Contains(s, "/") {
				c.Skip()
			}
			e := aBuild(sp, func(i int, f afield) *aval {
				if i == k {
					switch f.kind {
					case akStr:
						return &aval{s, []string{refADC(s)}}
					case akStrs:
						return &aval{[]string{s, "x", s}, []string{refADC(s), "x", refADC(s)}}
					}
					return &aval{adc.Path{s, "x", s}, []string{refADC(s) + "/x/" + refADC(s)}}
				}
				if full {
					return fixedVal(i, f)
				}
				return nil
			})
			aCheck(c, e.m, sp.cmd, e.payload(), sp.custom)
		}}
		chars := S{"characters", fmt.Sprintf("every text, list and path field: every ASCII character and %d others, alone, doubled, before, after, around and inside a text, alone and with the other fields set", len(sweepRunes)), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			k := c.Choose(len(sp.fields))
			f := sp.fields[k]
			if f.kind != akStr && f.kind != akStrs && f.kind != akPath {
				c.Skip()
			}
			full := c.Bool()
			s := sweepChar(c, pick(c, "abc", "N1"))
			if f.kind == akPath && strings.Contains(s, "/") {
				c.Skip()
			}
			e := aBuild(sp, func(i int, f afield) *aval {
				if i == k {
					switch f.kind {
					case akStr:
						return &aval{s, []string{refADC(s)}}
					case akStrs:
						return &aval{[]string{s, "x", s}, []string{refADC(s), "x", refADC(s)}}
					}
					return &aval{adc.Path{s, "x", s}, []string{refADC(s) + "/x/" + refADC(s)}}
				}
				if full {
					return fixedVal(i, f)
				}
				return nil
			})
			aCheck(c, e.m, sp.cmd, e.payload(), sp.custom)
		}}
		subsets := S{"subsets", "every type: all subsets of set and unset fields (of the first, middle and last 10 of longer types)", func(c *C) {
			sp := specs[c.Choose(len(specs))]
			from, n := 0, len(sp.fields)
			if n > 10 {
				n = 10
				from = []int{0, (len(sp.fields) - n) / 2, len(sp.fields) - n}[c.Choose(3)]
			}
			full := c.Bool()
			e := aBuild(sp, func(i int, f afield) *aval {
				set := full
				if i >= from && i < from+n {
					set = c.Bool()
				}
				if set {
					return fixedVal(i, f)
				}
				return nil
			})
			aCheck(c, e.m, sp.cmd, e.payload(), sp.custom)
		}}
		order := S{"order", fmt.Sprintf("every type: all orders of any %d consecutive named fields, unknown fields inserted at every position", perms), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			e := aBuild(sp, fixedVal)
			n := perms
			if n > len(e.named) {
				n = len(e.named)
			}
			at := c.Choose(len(e.named) - n + 1)
			toks := append([]string(nil), e.named[:at]...)
			toks = append(toks, permutation(c, e.named[at:at+n], e.groups[at:at+n])...)
			toks = append(toks, e.named[at+n:]...)
			aDecode(c, e.m, sp.cmd, strings.Join(append(append([]string(nil), e.pos...), toks...), " "), sp.custom)
		}}
		unknown := S{"unknown", "every type: up to 2 unknown fields (11 forms) at any position after the positional ones, in full and minimal messages", func(c *C) {
			sp := specs[c.Choose(len(specs))]
			if sp.cmd == "SID" {
				c.Skip() // has no fields but the id
			}
			full := c.Bool()
			e := aBuild(sp, func(i int, f afield) *aval {
				if full {
					return fixedVal(i, f)
				}
				return nil
			})
			toks := append(append([]string(nil), e.pos...), e.named...)
			for k := 0; k < 2; k++ {
				u := []string{"", "ZZfoo", "X", "ZZ", "ni1", "xNI1", "\xff\xfe", "ZZNI1", "#", "#1", "-1"}[c.Choose(11)]
				if k > 0 && u == "" {
					continue
				}
				i := len(e.pos) + c.Choose(len(toks)-len(e.pos)+1)
				toks = append(toks[:i], append([]string{u}, toks[i:]...)...)
			}
			p := strings.Join(toks, " ")
			if len(toks) == 1 && toks[0] == "" {
				c.Skip()
			}
			aDecode(c, e.m, sp.cmd, p, sp.custom)
			c.StateS(p)
		}}
		invalid := S{"invalid", "every field that is not a text: texts that are no value of its type, and a repeated field that is not a list", func(c *C) {
			sp := specs[c.Choose(len(specs))]
			k := c.Choose(len(sp.fields))
			f := sp.fields[k]
			bad := badTexts(f)
			i := c.Choose(len(bad) + 1)
			full := c.Bool()
			var p string
			if i == len(bad) {
				if f.tag == "#" || f.kind == akStrs || f.kind == akCID || f.kind == akSID || f.kind == akFeat {
					c.Skip()
				}
				e := aBuild(sp, fixedVal)
				v := fixedVal(k, f)
				p = e.payload() + " " + f.tag + v.enc[0]
			} else {
				e := aBuild(sp, func(j int, f afield) *aval {
					if j == k {
						return &aval{reflect.Zero(reflect.ValueOf(sp.new()).Elem().FieldByName(f.name).Type()).Interface(), []string{bad[i]}}
					}
					if full {
						return fixedVal(j, f)
					}
					return nil
				})
				p = e.payload()
			}
			n := sp.new()
			err := adc.Unmarshal([]byte(p), n)
			c.Op()
			c.Assert(err != nil, "payload %s of %s is accepted as %s", clips(p), aName(sp), adcDump(n))
			c.StateS(p)
		}}
		used := S{"used", "every type: a message with all fields set is decoded into a used one", func(c *C) {
			sp := specs[c.Choose(len(specs))]
			e := aBuild(sp, fixedVal)
			old := aBuild(sp, func(i int, f afield) *aval {
				v := chooseVal(f, func() string { return "old" }, func(n int) int { return (n - 1 - i%n + n) % n })
				return &v
			})
			err := adc.Unmarshal([]byte(e.payload()), old.m)
			c.Op()
			c.Assert(err == nil && adcDump(old.m) == adcDump(e.m), "decoding %s into a used message: %s, %v, want %s", e.payload(), adcDump(old.m), err, adcDump(e.m))
			missing := len(e.pos)
			for i := 1; i < missing; i++ {
				n := sp.new()
				err := adc.Unmarshal([]byte(strings.Join(e.pos[:i], " ")), n)
				c.Op()
				c.Assert(err != nil, "%d of %d mandatory fields of %s are accepted: %s", i, missing, aName(sp), adcDump(n))
			}
			// wrong types
			c.Assert(adc.Unmarshal([]byte(e.payload()), structOf(e.m)) != nil, "decoding into a value is not refused")
			var s string
			var i int
			c.Assert(adc.Unmarshal([]byte("a"), &s) != nil && adc.Unmarshal([]byte("1"), &i) != nil && adc.Unmarshal(nil, nil2struct()) != nil, "decoding into something else is not refused")
			c.StateS(e.payload())
		}}
		custom := S{"custom", "status, file requests and responses, salts, compression, features, id and field lists: all choices of values", func(c *C) {
			customADC(c)
		}}
		return []S{fields, texts, chars, subsets, order, unknown, invalid, used, custom}
	})
}

func nil2struct() interface{} { v := []int{1}; return &v }

func customADC(c *C) {
	str := func() string { return aTokens[c.Choose(len(aTokens))] }
	ints := []int64{0, 1, -1, 9, 10, 1<<31 - 1, 1 << 31, 1<<53 + 1, 1<<63 - 1, -1 << 63}
	switch c.Choose(8) {
	case 0:
		m := &adc.Status{Sev: adc.Severity(c.Choose(12) - 1), Code: c.Choose(102) - 1, Msg: ""}
		if m.Code%25 < 2 {
			m.Msg = str()
		}
		if m.Sev < 0 || m.Code < 0 || m.Code > 99 {
			var buf bytes.Buffer
			err := adc.Marshal(&buf, m)
			c.Assert(err != nil && buf.Len() == 0, "%s is encoded as %q", dump(m), buf.String())
			return
		}
		aCheck(c, m, "STA", fmt.Sprintf("%d%02d %s", m.Sev, m.Code, refADC(m.Msg)), false)
		c.Assert(m.Ok() == (m.Sev == 0) && m.Recoverable() == (m.Sev <= 1) && (m.Err() == nil) == (m.Sev == 0), "accessors of %s", dump(m))
		if m.Msg == "" {
			aDecode(c, m, "STA", fmt.Sprintf("%d%02d", m.Sev, m.Code), false)
		}
	case 1:
		g := adc.GetRequest{Type: str(), Path: str()}
		g.Start = ints[c.Choose(len(ints))]
		g.Bytes = ints[c.Choose(len(ints))]
		g.Compressed = c.Bool()
		w := fmt.Sprintf("%s %s %d %d", refADC(g.Type), refADC(g.Path), g.Start, g.Bytes)
		if g.Compressed {
			w += " ZL1"
		}
		r := adc.GetResponse(g)
		if c.Bool() {
			aCheck(c, &r, "SND", w, false)
		} else {
			aCheck(c, &g, "GET", w, false)
		}
		n := &adc.GetRequest{Type: "old", Path: "old", Start: 5, Bytes: 6, Compressed: true}
		err := n.UnmarshalADC([]byte(w))
		c.Assert(err == nil && *n == g, "decoding %q into a used message: %s, %v", w, dump(n), err)
		parts := strings.Split(w, " ")
		for k := 1; k < 4; k++ {
			cut := strings.Join(parts[:k], " ")
			for _, bad := range []interface{}{&adc.GetRequest{}, &adc.GetResponse{}} {
				c.Assert(adc.Unmarshal([]byte(cut), bad) != nil, "%d of 4 mandatory fields %q are accepted: %s", k, cut, dump(bad))
			}
		}
	case 2:
		n := c.Choose(65)
		m := &adc.GetPassword{Salt: make([]byte, n)}
		k := c.Choose(4)
		for i := range m.Salt {
			m.Salt[i] = []byte{0, 0xff, byte(i*37 + 1), 0x5a}[k]
		}
		aCheck(c, m, "GPA", b32(m.Salt), false)
		w := b32(m.Salt)
		for _, bad := range []string{w + "1", w + "a", w + "=", w + "\\s"} {
			if len(bad) > 0 {
				g := &adc.GetPassword{}
				err := adc.Unmarshal([]byte(bad), g)
				c.Assert(err != nil, "salt %q is accepted as %s", bad, dump(g))
			}
		}
	case 3:
		if c.Bool() {
			aCheck(c, &adc.ZOn{}, "ZON", "", false)
		} else {
			aCheck(c, &adc.ZOff{}, "ZOF", "", false)
		}
	case 4:
		s := aSIDs[c.Choose(len(aSIDs))]
		aCheck(c, &adc.SIDAssign{SID: sid(s)}, "SID", s, false)
		for _, bad := range []string{"", "A", "AAA", "AAAAA"} {
			g := &adc.SIDAssign{}
			c.Assert(adc.Unmarshal([]byte(bad), g) != nil, "id %q is accepted as %s", bad, dump(g))
		}
	case 5:
		m := &adc.Supported{Features: adc.ModFeatures{}}
		var want []string
		for _, n := range []string{"BASE", "TIGR", "BLO0", "ADRM"} {
			k := c.Choose(3)
			if k > 0 {
				var f adc.Feature
				copy(f[:], n)
				m.Features[f] = k == 1
				want = append(want, []string{"AD", "RM"}[k-1]+n)
			}
		}
		sort.Strings(want)
		for _, v := range []adc.Message{m, *m} {
			b := string(adc.MustMarshal(v))
			got := strings.Split(b, " ")
			sort.Strings(got)
			c.Op()
			c.Assert(strings.Join(got, " ") == strings.Join(want, " "), "%s encodes to %q, specified %q", dump(v), b, want)
		}
		groups := make([]int, len(want))
		for i := range groups {
			groups[i] = i
		}
		w := strings.Join(permutation(c, want, groups), " ")
		aDecode(c, m, "SUP", w, false)
		for _, bad := range []string{"ADBAS", "ADBASES", "RM", "AD"} {
			g := &adc.Supported{}
			c.Assert(adc.Unmarshal([]byte(bad), g) != nil, "features %q are accepted as %s", bad, dump(g))
		}
		c.StateS(w)
	case 6:
		var m adc.UserInfoMod
		var want []string
		n := c.Choose(4)
		for i := 0; i < n; i++ {
			t := []string{"NI", "I4", "é", "AD"}[c.Choose(4)]
			var f adc.Field
			copy(f.Tag[:], t)
			if i == n-1 {
				f.Value = str()
			} else {
				f.Value = []string{"", "a b"}[c.Choose(2)]
			}
			m = append(m, f)
			want = append(want, t+refADC(f.Value))
		}
		w := strings.Join(want, " ")
		aCheck(c, &m, "INF", w, true)
		fs := adc.Fields(m)
		var buf bytes.Buffer
		c.Assert(fs.MarshalADC(&buf) == nil && buf.String() == w, "fields encode to %q, specified %q", buf.String(), w)
		got := adc.Fields{{Value: "old"}, {Value: "older"}}
		err := got.UnmarshalADC([]byte(w))
		c.Assert(err == nil && dump(got) == dump(fs), "fields %q decode to %s, %v", w, dump(got), err)
		for i, f := range fs {
			_ = i
			c.Assert(f.String() == string(f.Tag[:])+f.Value, "field %s", f)
		}
		for _, bad := range []string{"N", "NIa b", "NIa  b", "NIa "} {
			if bad == "NIa b" {
				bad = "NIa N"
			}
			err := got.UnmarshalADC([]byte(bad))
			c.Assert(err != nil, "fields %q are accepted as %s", bad, dump(got))
		}
	case 7:
		i := c.Choose(13)
		p := []string{"", " ", "a b", "a\\sb", " a  b ", "\\", "\xff\x01", strings.Repeat("x\\ ", 900), "\n", "a\n", "\na", "a\nIGPA b", strings.Repeat("x", 5000) + "\n"}[i]
		m := rawOf("XYZ", p)
		if i >= 8 {
			// would end the line and start another one
			var b bytes.Buffer
			err := adc.Marshal(&b, m)
			c.Assert(err != nil, "raw payload %.40q with a line break encodes to %.40q", p, b.String())
			must := func() (r interface{}) {
				defer func() { r = recover() }()
				adc.MustMarshal(m)
				return nil
			}()
			c.Assert(must != nil, "MustMarshal returns for a message that is refused: %v", err)
			var out bytes.Buffer
			w := adc.NewWriter(&out)
			err = w.WriteInfo(adc.ChatMessage{Text: "a"})
			c.Assert(err == nil, "write: %v", err)
			for k, f := range []func() error{
				func() error { return w.WriteInfo(m) },
				func() error { return w.WriteBroadcast(adc.SID{'A', 'A', 'A', 'A'}, m) },
				func() error { return w.WriteDirect(adc.SID{'A', 'A', 'A', 'A'}, adc.SID{'A', 'A', 'A', 'B'}, m) },
				func() error { return w.ClientStream().WriteMessage(m) },
				func() error {
					return w.WritePacket(&adc.HubPacket{Msg: m})
				},
				func() error {
					return w.WritePacket(&adc.FeaturePacket{ID: adc.SID{'A', 'A', 'A', 'A'}, Msg: m})
				},
			} {
				err := f()
				c.Op()
				c.Assert(err != nil, "raw payload %.40q with a line break is written (%d)", p, k)
			}
			err = w.WriteInfo(adc.ChatMessage{Text: "b"})
			c.Assert(err == nil, "write: %v", err)
			err = w.Flush()
			c.Assert(err == nil && out.String() == "IMSG a\nIMSG b\n", "after refused messages: %q, %v", out.String(), err)
			return
		}
		b := string(adc.MustMarshal(m))
		c.Assert(b == p, "raw %q encodes to %q", p, b)
		g, err := adc.UnmarshalMessage(adc.MsgType{'X', 'Y', 'Z'}, []byte(p))
		c.Assert(err == nil && dump(g) == dump(m), "raw %q decodes to %s, %v", p, dump(g), err)
		n := rawOf("XYZ", "old")
		err = adc.Unmarshal([]byte(p), n)
		c.Ops(3)
		c.Assert(err == nil && dump(n) == dump(m), "raw %q decodes to %s, %v", p, dump(n), err)
		g, err = rawOf("MSG", "a\\sb").Decode()
		c.Assert(err == nil && dump(g) == dump(adc.ChatMessage{Text: "a b"}), "raw message decodes to %s, %v", dump(g), err)
	}
}
