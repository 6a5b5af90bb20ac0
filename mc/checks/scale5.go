package checks

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
)

func init() {
	extend("C09", func(th bool) []S {
		specs := nmdcSpecs()
		return []S{{"repeated-units", fmt.Sprintf("every message type and text field: %d units repeated 1 to 66 times and around powers of two up to 1024", len(repUnits)), func(c *C) {
			sp := specs[c.Choose(len(specs))]
			if sp.fields == 0 {
				c.Skip()
			}
			nmdcCodecCheck(c, sp, c.Choose(sp.fields), repeatValues)
		}}}
	})
	extend("C18", func(th bool) []S { return []S{manySelectors()} })
	extend("C21", func(th bool) []S { return []S{ownedTexts()} })
	for _, id := range []string{"C07", "C11"} {
		extend(id, func(th bool) []S { return []S{idleStream(true), idleStream(false)} })
	}
}

// manySelectors: the last of many selectors is read like the first.
func manySelectors() S {
	return S{"many-selectors", "feature packets with 1 to 12, 16, 17, 32, 33, 64 or 65 selectors: one byte of any of the first, last and middle ones, or of its separator, replaced, doubled, preceded or deleted", func(c *C) {
		n := append(upTo(12), 16, 17, 32, 33, 64, 65)[c.Choose(18)]
		var sel []string
		for i := 0; i < n; i++ {
			sel = append(sel, fmt.Sprintf("%cF%03d", "+-"[i%2], i))
		}
		line := "FSCH AAAA " + strings.Join(sel, " ")
		if c.Bool() {
			line += " ANx TO1"
		}
		line += "\n"
		k := c.Choose(n)
		if n > 12 {
			k = []int{0, n / 2, n - 1}[c.Choose(3)]
		}
		p := 10 + k*6 + c.Choose(7)
		if p >= len(line) {
			c.Skip()
		}
		b := string(" +-A\r\x00x,"[c.Choose(8)])
		switch c.Choose(4) {
		case 0:
			line = line[:p] + b + line[p+1:]
		case 1:
			line = line[:p] + b + line[p:]
		case 2:
			line = line[:p] + line[p+1:]
		case 3:
			line = line[:p] + line[p:p+1] + line[p:]
		}
		checkADCHeader(c, line)
		c.StateS(line)
	}}
}

// ownedTexts: a caller may do anything with a text or a byte slice it was given.
func ownedTexts() S {
	vals := [][24]byte{{}, {23: 1}, {0: 0x80}}
	for i := 0; i < 24; i++ {
		var v [24]byte
		v[i] = 0xff
		vals = append(vals, v)
	}
	var all [24]byte
	for i := range all {
		all[i] = 0xff
	}
	vals = append(vals, all, [24]byte(tiger.HashBytes([]byte("x"))))
	return S{"owned", fmt.Sprintf("%d values: the result of every conversion to bytes is overwritten, then all conversions of the same value and its neighbours are repeated", len(vals)), func(c *C) {
		v := vals[c.Choose(len(vals))]
		h, id := tiger.Hash(v), adc.CID(v)
		var got []byte
		var err error
		switch c.Choose(6) {
		case 0:
			got, err = h.MarshalText()
		case 1:
			got, err = id.MarshalText()
		case 2:
			got = h.Bytes()
		case 3:
			got = adc.MustMarshal(adc.Password{Hash: h})
		case 4:
			got, err = nmdc.Marshal(nil, &nmdc.TTHSearchPassive{TTH: h, User: "u"})
		case 5:
			var buf bytes.Buffer
			err = id.MarshalADC(&buf)
			got = buf.Bytes()
		}
		c.Assert(err == nil && len(got) != 0, "%v: %q, %v", v, got, err)
		for i := range got {
			got[i] = '#'
		}
		got = append(got, '#')
		c.Assert(h == tiger.Hash(v) && id == adc.CID(v), "changing the result of a conversion changes the value")
		for _, w := range vals {
			want := refB32(w[:])
			t1, e1 := tiger.Hash(w).MarshalText()
			t2, e2 := adc.CID(w).MarshalText()
			c.Assert(e1 == nil && e2 == nil && string(t1) == want && string(t2) == want, "%v is written as %q and %q, want %q, after another result was overwritten", w, t1, t2, want)
			c.Assert(tiger.Hash(w).Base32() == want && adc.CID(w).Base32() == want && string(adc.MustMarshal(adc.Password{Hash: w})) == want, "%v: texts differ after a result was overwritten", w)
			c.Ops(4)
		}
		c.Assert(keyprint.FromBytes(v[:]) == refKP(v[:]), "keyprint of %v", v)
		c.StateS(fmt.Sprint(v))
	}}
}

// idleStream: any number of keep-alives may come before a message.
func idleStream(isNMDC bool) S {
	name := "idle-adc"
	if isNMDC {
		name = "idle-nmdc"
	}
	return S{name, "0 to 3, 1023 to 1026, 4095 to 4098, 65535 to 65538 or 300000 keep-alives before, between and after messages, read at once or in pieces, the callback counts them or fails at the last one", func(c *C) {
		n := []int{0, 1, 2, 3, 1023, 1024, 1025, 1026, 4095, 4096, 4097, 4098, 65535, 65536, 65537, 65538, 300000}[c.Choose(17)]
		fail := n > 0 && c.Bool()
		chunk := []int{0, 1000}[c.Choose(2)]
		one, msg := "\n", "BMSG ABCD a\n"
		if isNMDC {
			one, msg = "|", "<u> a|"
		}
		idle := strings.Repeat(one, n)
		data := []byte(idle + msg + idle + msg + idle)
		count := 0
		stop := fmt.Errorf("stop")
		cb := func() error {
			if count++; fail && count == n {
				return stop
			}
			return nil
		}
		var rd io.Reader = bytes.NewReader(data)
		if chunk != 0 {
			rd = &chunks{data, chunk}
		}
		var read func() (string, error)
		if isNMDC {
			r := nmdc.NewReader(rd)
			r.OnKeepAlive = cb
			read = func() (string, error) {
				m, err := r.ReadMsg()
				if err != nil {
					return "", err
				}
				return dumpMsg(m), nil
			}
		} else {
			r := adc.NewReader(rd)
			r.OnKeepAlive = cb
			read = func() (string, error) {
				p, err := r.ReadPacket()
				if err != nil {
					return "", err
				}
				return dump(p), nil
			}
		}
		if fail {
			_, err := read()
			c.Assert(err == stop && count == n, "the callback fails at keep-alive %d: %v after %d calls", n, err, count)
		}
		first := ""
		for i := 1; i <= 2; i++ {
			d, err := read()
			c.Assert(err == nil && d != "" && (i == 1 || d == first), "message %d after %d keep-alives: %q, %v", i, n, d, err)
			c.Assert(count == i*n, "%d keep-alives, %d calls", i*n, count)
			first = d
		}
		_, err := read()
		c.Assert(err == io.EOF && count == 3*n, "end after %d keep-alives: %v, %d calls", n, err, count)
		c.Ops(5)
		c.StateS(fmt.Sprint(n, fail, chunk))
	}}
}

// chunks delivers its data in pieces.
type chunks struct {
	data []byte
	n    int
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	return n, nil
}
