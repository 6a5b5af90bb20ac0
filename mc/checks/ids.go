package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	adctypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
)

// C21: identifiers.

const b32Alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

// refB32 encodes bit by bit.
func refB32(b []byte) string {
	var out []byte
	acc, n := 0, 0
	for _, x := range b {
		for k := 7; k >= 0; k-- {
			acc = acc<<1 | int(x>>uint(k))&1
			if n++; n == 5 {
				out = append(out, b32Alpha[acc])
				acc, n = 0, 0
			}
		}
	}
	if n > 0 {
		out = append(out, b32Alpha[acc<<uint(5-n)])
	}
	return string(out)
}

// refUnB32 decodes 39 characters into 24 bytes.
func refUnB32(s string) (out [24]byte, ok bool) {
	if len(s) != 39 {
		return out, false
	}
	bit := 0
	for i := 0; i < len(s); i++ {
		v := strings.IndexByte(b32Alpha, s[i])
		if v < 0 {
			return out, false
		}
		for k := 4; k >= 0; k-- {
			if bit < 192 && v>>uint(k)&1 != 0 {
				out[bit/8] |= 0x80 >> uint(bit%8)
			}
			bit++
		}
	}
	return out, true
}

type idRoute struct {
	name string
	// enc returns the text of a value
	enc func(v [24]byte) string
	// dec decodes into a variable that holds old, and returns what it holds afterwards
	dec func(old [24]byte, text string) ([24]byte, error)
	// must panics on malformed text
	must bool
}

func idRoutes() []idRoute {
	adcText := func(m adc.Marshaler) string {
		buf := bytes.NewBufferString("x")
		if err := m.MarshalADC(buf); err != nil {
			return "error: " + err.Error()
		}
		return buf.String()[1:]
	}
	text := func(b []byte, err error) string {
		if err != nil {
			return "error: " + err.Error()
		}
		return string(b)
	}
	return []idRoute{
		{name: "Hash.String/FromBase32", enc: func(v [24]byte) string { return tiger.Hash(v).String() }, dec: func(old [24]byte, t string) ([24]byte, error) {
			h := tiger.Hash(old)
			err := h.FromBase32(t)
			return h, err
		}},
		{name: "Hash.MarshalText/UnmarshalText", enc: func(v [24]byte) string { return text(tiger.Hash(v).MarshalText()) }, dec: func(old [24]byte, t string) ([24]byte, error) {
			h := tiger.Hash(old)
			err := h.UnmarshalText([]byte(t))
			return h, err
		}},
		{name: "Hash.MarshalBase32/UnmarshalBase32", enc: func(v [24]byte) string {
			var b [50]byte
			err := tiger.Hash(v).MarshalBase32(b[:])
			if !bytes.Equal(b[39:], make([]byte, 11)) {
				return "wrote too much"
			}
			return text(b[:39], err)
		}, dec: func(old [24]byte, t string) ([24]byte, error) {
			h := tiger.Hash(old)
			err := h.UnmarshalBase32([]byte(t))
			return h, err
		}},
		{name: "Hash.MarshalADC/UnmarshalADC", enc: func(v [24]byte) string { return adcText(tiger.Hash(v)) }, dec: func(old [24]byte, t string) ([24]byte, error) {
			h := tiger.Hash(old)
			err := h.UnmarshalADC([]byte(t))
			return h, err
		}},
		{name: "Hash.Base32/MustParseBase32", must: true, enc: func(v [24]byte) string { return tiger.Hash(v).Base32() }, dec: func(old [24]byte, t string) ([24]byte, error) {
			return tiger.MustParseBase32(t), nil
		}},
		{name: "CID.String/FromBase32", enc: func(v [24]byte) string { return adc.CID(v).String() }, dec: func(old [24]byte, t string) ([24]byte, error) {
			h := adc.CID(old)
			err := h.FromBase32(t)
			return h, err
		}},
		{name: "CID.MarshalText/UnmarshalText", enc: func(v [24]byte) string { return text(adc.CID(v).MarshalText()) }, dec: func(old [24]byte, t string) ([24]byte, error) {
			h := adc.CID(old)
			err := h.UnmarshalText([]byte(t))
			return h, err
		}},
		{name: "CID.MarshalADC/UnmarshalADC", enc: func(v [24]byte) string { return adcText(adc.CID(v)) }, dec: func(old [24]byte, t string) ([24]byte, error) {
			h := adc.CID(old)
			err := h.UnmarshalADC([]byte(t))
			return h, err
		}},
		{name: "CID.Base32/MustParseCID", must: true, enc: func(v [24]byte) string { return adc.CID(v).Base32() }, dec: func(old [24]byte, t string) ([24]byte, error) {
			return adctypes.MustParseCID(t), nil
		}},
		{name: "CID.String/MustParseCIDP", must: true, enc: func(v [24]byte) string { return adc.CID(v).String() }, dec: func(old [24]byte, t string) ([24]byte, error) {
			return *adctypes.MustParseCIDP(t), nil
		}},
		{name: "CID in JSON", enc: func(v [24]byte) string {
			b, err := json.Marshal(adc.CID(v))
			return strings.Trim(text(b, err), `"`)
		}, dec: func(old [24]byte, t string) ([24]byte, error) {
			h := adc.CID(old)
			b, _ := json.Marshal(t)
			err := json.Unmarshal(b, &h)
			return h, err
		}},
		{name: "CID in a user info", enc: func(v [24]byte) string {
			id := adc.CID(v)
			var buf bytes.Buffer
			if err := adc.Marshal(&buf, adc.UserInfo{Id: id, Pid: &id}); err != nil {
				return "error: " + err.Error()
			}
			s := buf.String()
			a, b := "", ""
			for _, f := range strings.Split(s, " ") {
				if strings.HasPrefix(f, "ID") {
					a = f[2:]
				} else if strings.HasPrefix(f, "PD") {
					b = f[2:]
				}
			}
			if a != b && !(a == "" && id.IsZero()) { // a zero id is left out
				return "ID " + a + " but PD " + b
			}
			return b
		}, dec: func(old [24]byte, t string) ([24]byte, error) {
			if len(t) != 39 || strings.ContainsAny(t, " \\") {
				return old, fmt.Errorf("other notation")
			}
			u := adc.UserInfo{Id: old}
			err := adc.Unmarshal([]byte("ID"+t+" PD"+t), &u)
			if err == nil && (u.Pid == nil || *u.Pid != u.Id) {
				return u.Id, fmt.Errorf("PD is %v, ID %v", u.Pid, u.Id)
			}
			return u.Id, err
		}},
		{name: "hash in an NMDC search", enc: func(v [24]byte) string {
			h := tiger.Hash(v)
			var buf bytes.Buffer
			if err := (&nmdc.Search{User: "u", DataType: nmdc.DataTypeTTH, TTH: &h}).MarshalNMDC(nil, &buf); err != nil {
				return "error: " + err.Error()
			}
			return buf.String()[strings.LastIndex(buf.String(), "TTH:")+4:]
		}, dec: func(old [24]byte, t string) ([24]byte, error) {
			if strings.ContainsAny(t, " $|&?:") {
				return old, fmt.Errorf("other notation")
			}
			var m nmdc.Search
			err := m.UnmarshalNMDC(nil, []byte("Hub:u F?T?0?9?TTH:"+t))
			if err != nil || m.TTH == nil {
				return old, fmt.Errorf("refused: %v", err)
			}
			return *m.TTH, nil
		}},
	}
}

func init() {
	register("C21", []string{
		"conversions from integers: values below 2^20",
		"the functions documented to panic on malformed text are only given well-formed text",
		"the unused last 3 bits of the 39th base32 character may be anything (two texts, one value)",
		"session ids have no fixed alphabet in the library: every 4-byte text without delimiters is one",
	}, func(thorough bool) []S {
		routes := idRoutes()
		sids := S{"sids", "all 2^20 integers x string, ADC codec, parsing", func(c *C) {
			hi := c.Choose(1 << 14)
			for lo := 0; lo < 64; lo++ {
				v := uint32(hi<<6 | lo)
				id := adctypes.SIDFromInt(v)
				s := id.String()
				want := string([]byte{b32Alpha[v>>15], b32Alpha[v>>10&31], b32Alpha[v>>5&31], b32Alpha[v&31]})
				c.Assert(s == want, "session id of %d is %q, want %q", v, s, want)
				var buf bytes.Buffer
				c.Assert(id.MarshalADC(&buf) == nil && buf.String() == want, "session id of %d is encoded as %q, want %q", v, buf.String(), want)
				var back adc.SID
				err := back.UnmarshalADC([]byte(want))
				c.Assert(err == nil && back == id, "%q is decoded as %v, %v", want, back, err)
				c.Assert(adctypes.SIDFromString(want) == id, "SIDFromString(%q)", want)
				c.Ops(4)
				c.Checked()
			}
			c.StateS(fmt.Sprint(hi))
		}}
		sidtext := S{"sidtext", "every text of length 0..6 over 6 characters; lengths 7..80; every byte at every position", func(c *C) {
			var t string
			switch c.Choose(3) {
			case 0:
				t = chooseStr(c, "A7a=\xff\x00", 0, 6)
			case 1:
				t = strings.Repeat("A", c.Choose(81))
			case 2:
				b := []byte("ABCD")
				b[c.Choose(4)] = byte(c.Choose(256))
				t = string(b)
			}
			if strings.ContainsAny(t, " \n") {
				c.Skip() // delimiters of the protocol
			}
			old := adc.SID{'Q', 'R', 'S', 'T'}
			id := old
			err := id.UnmarshalADC([]byte(t))
			c.Op()
			c.Checked()
			if len(t) != 4 {
				c.Assert(err != nil, "%q is accepted as a session id", t)
				c.Assert(id == old, "the refused text %q changed the session id to %q", t, id.String())
				return
			}
			c.Assert(err == nil && id.String() == t, "%q is decoded as %q, %v", t, id.String(), err)
			c.StateS(t)
		}}
		bg := [][24]byte{{}, {}, {}}
		for i := range bg[1] {
			bg[1][i] = 0xff
			bg[2][i] = byte(i*37 + 11)
		}
		roundtrip := func(c *C, v [24]byte) {
			want := refB32(v[:])
			for _, r := range routes {
				got := r.enc(v)
				c.Assert(got == want, "%s: %x is written as %q, want %q", r.name, v, got, want)
				back, err := r.dec([24]byte{1, 2, 3}, got)
				c.Assert(err == nil && back == v, "%s: %q is read as %x, %v, want %x", r.name, got, back, err, v)
				c.Ops(2)
				c.Checked()
			}
			id := adc.CID(v)
			c.Assert(id.Hash() == adc.CID(refTiger(v[:])), "the client id of %v is %v", id, id.Hash())
			c.Assert(id.IsZero() == (v == [24]byte{}) && tiger.Hash(v).IsZero() == (v == [24]byte{}), "IsZero of %v", id)
			h := tiger.Hash(v)
			c.Assert(bytes.Equal(h.Bytes(), v[:]) && h.Hex() == fmt.Sprintf("%x", v[:]), "Hex or Bytes of %v", h)
			c.State(v[:])
		}
		vals := S{"values", "3 backgrounds x every byte value at every position", func(c *C) {
			v := bg[c.Choose(len(bg))]
			v[c.Choose(24)] = byte(c.Choose(256))
			roundtrip(c, v)
		}}
		pairs := S{"bits", "every set of three bits, over zeros and over ones (thorough: and of four bits over zeros)", func(c *C) {
			b := c.Choose(2)
			v := bg[b]
			i := c.Choose(192)
			j := i + c.Choose(192-i)
			k := j + c.Choose(192-j)
			flip := []int{i, j, k}
			if thorough && b == 0 {
				flip = append(flip, k+c.Choose(192-k))
			}
			for _, b := range flip {
				v[b/8] ^= 0x80 >> uint(b%8)
			}
			roundtrip(c, v)
		}}
		refuse := func(c *C, t string) {
			want, ok := refUnB32(t)
			for _, r := range routes {
				if r.must && !ok {
					continue
				}
				if r.name == "CID in JSON" && strings.IndexFunc(t, func(r rune) bool { return r == 0xfffd }) >= 0 {
					continue
				}
				old := bg[2]
				got, err := r.dec(old, t)
				c.Op()
				c.Checked()
				if ok {
					c.Assert(err == nil && got == want, "%s: %q is read as %x, %v, want %x", r.name, t, got, err, want)
					continue
				}
				c.Assert(err != nil, "%s: %q is accepted as %x", r.name, t, got)
				c.Assert(got == old, "%s: the refused text %q changed the value to %x", r.name, t, got)
			}
			c.StateS(t)
		}
		base := refB32(bg[2][:])
		lengths := S{"lengths", "every length 0..120 of several fillings, with padding, cut or extended", func(c *C) {
			n := c.Choose(121)
			var t string
			switch c.Choose(6) {
			case 0:
				t = strings.Repeat("A", n)
			case 1:
				t = strings.Repeat(base, 4)[:n]
			case 2: // padded to a length
				t = base
				if n < 39 {
					t = base[:n] + strings.Repeat("=", 39-n)
				} else {
					t += strings.Repeat("=", n-39)
				}
			case 3: // line breaks inside
				t = base[:n%40] + strings.Repeat("\n", 1+n/40) + base[n%40:]
			case 4: // line breaks instead of characters
				k := n % 39
				t = base[:k] + strings.Repeat("\r", 1+n/39)
				if len(t) < 39 {
					t += base[len(t):]
				} else {
					t = t[:39]
				}
			case 5: // longer text shortened to 39 characters by ignored characters
				k := n % 39
				t = base[:k] + "\r\n" + base[k:]
				t = t[:39]
			}
			refuse(c, t)
		}}
		chars := S{"characters", "every byte value at every position of a 39-character text; pairs of special characters", func(c *C) {
			b := []byte(base)
			if c.Bool() {
				b[c.Choose(39)] = byte(c.Choose(256))
			} else {
				sp := "=\n\r01a8 \x00\xff"
				b[c.Choose(39)] = sp[c.Choose(len(sp))]
				b[c.Choose(39)] = sp[c.Choose(len(sp))]
			}
			refuse(c, string(b))
		}}
		return []S{sids, sidtext, vals, pairs, lengths, chars}
	})
}
