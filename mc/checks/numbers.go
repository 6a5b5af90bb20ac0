package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
)

// C19: numbers.

// numField is one numeric field of a message.
type numField struct {
	name string
	// pre and post surround the number in the payload
	pre, post string
	min, max  *big.Int
	// decode returns the value or an error
	decode func(payload string) (*big.Int, error)
	// encode returns the payload with the value set; nil if not applicable
	encode func(v *big.Int) (string, error)
	// skip tells texts that mean something else in this field
	skip func(text string) bool
	// encSkip tells values that are not encoded as themselves
	encSkip func(v *big.Int) bool
	// rest returns the message without the field, if the others do not depend on it
	rest func(payload string) string
}

var (
	minInt  = big.NewInt(-1 << 63)
	maxInt  = big.NewInt(1<<63 - 1)
	maxUint = new(big.Int).SetUint64(1<<64 - 1)
	zero    = big.NewInt(0)
)

func field(m interface{}, path string) reflect.Value {
	v := reflect.ValueOf(m).Elem().FieldByName(path)
	return v
}

func bigOf(v reflect.Value) *big.Int {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return big.NewInt(0)
		}
		return bigOf(v.Elem())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(v.Uint())
	}
	return big.NewInt(v.Int())
}

func setBig(v reflect.Value, b *big.Int) {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		setBig(v.Elem(), b)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(b.Uint64())
	default:
		v.SetInt(b.Int64())
	}
}

func nmdcNumbers() []numField {
	h := b32(hashes[0][:])
	var out []numField
	add := func(typ, name, pre, post string, min, max *big.Int, base nmdc.Message) *numField {
		f := numField{name: "nmdc." + typ + "." + name, pre: pre, post: post, min: min, max: max}
		mt := reflect.TypeOf(base).Elem()
		f.decode = func(p string) (*big.Int, error) {
			m := reflect.New(mt).Interface().(nmdc.Message)
			if err := m.UnmarshalNMDC(nil, []byte(p)); err != nil {
				return nil, err
			}
			return bigOf(field(m, name)), nil
		}
		if typ != "Search" && typ != "UserCommand" {
			f.rest = func(p string) string {
				m := reflect.New(mt).Interface().(nmdc.Message)
				if err := m.UnmarshalNMDC(nil, []byte(p)); err != nil {
					return "error"
				}
				v := field(m, name)
				v.Set(reflect.Zero(v.Type()))
				return dumpMsg(m)
			}
		}
		f.encode = func(v *big.Int) (string, error) {
			m := reflect.New(mt)
			m.Elem().Set(reflect.ValueOf(base).Elem())
			setBig(field(m.Interface(), name), v)
			var buf bytes.Buffer
			err := m.Interface().(nmdc.Message).MarshalNMDC(nil, &buf)
			return buf.String(), err
		}
		out = append(out, f)
		return &out[len(out)-1]
	}
	get := nmdc.ADCGet{ContentType: "file", Identifier: "x", Length: 5}
	add("ADCGET", "Start", "file x ", " 5", zero, maxUint, &get)
	add("ADCGET", "Length", "file x 0 ", "", big.NewInt(-1), maxInt, &get)
	add("ADCGET", "DownloadedBytes", "file x 0 5 DB", "", zero, maxUint, &get)
	snd := nmdc.ADCSnd{ContentType: "file", Identifier: "x"}
	add("ADCSND", "Start", "file x ", " 0", zero, maxUint, &snd)
	add("ADCSND", "Length", "file x 0 ", "", zero, maxUint, &snd)
	add("Direction", "Number", "Download ", "", big.NewInt(1), big.NewInt(32767), &nmdc.Direction{})
	hub := nmdc.HubINFO{Name: "n", Host: "h", Desc: "d", Owner: "own", State: "st", Encoding: "enc"}
	hub.Soft.Name, hub.Soft.Version = "soft", "1.0"
	for i := 1; i <= 4; i++ {
		pre, post := "n$h$d$", "$soft 1.0$own$st$enc"
		for k := 1; k <= 4; k++ {
			if k < i {
				pre += "0$"
			} else if k > i {
				post = "$0" + post
			}
		}
		add("HubINFO", fmt.Sprintf("I%d", i), pre, post, minInt, maxInt, &hub)
	}
	f := add("Search", "Size", "Hub:u T?F?", "?1?p", zero, maxUint, &nmdc.Search{User: "u", SizeRestricted: true, DataType: 1, Pattern: "p"})
	f = add("Search", "DataType", "Hub:u F?T?0?", "?TTH:"+h, zero, maxUint, &nmdc.Search{User: "u", Pattern: "TTH:" + h, TTH: &hashes[0]})
	f.encSkip = func(v *big.Int) bool { return v.Sign() == 0 }
	sr := nmdc.SR{From: "u", Path: []string{"p"}, HubName: "h", HubAddress: "a"}
	add("SR", "Size", "u p\x05", " 0/0\x05h (a)", zero, maxUint, &sr)
	add("SR", "FreeSlots", "u p\x050 ", "/0\x05h (a)", minInt, maxInt, &sr)
	add("SR", "TotalSlots", "u p\x050 0/", "\x05h (a)", minInt, maxInt, &sr)
	dir := sr
	dir.IsDir = true
	pos := add("SR(dir)", "FreeSlots", "u p ", "/0\x05h (a)", zero, maxInt, &dir)
	pos.skip = func(t string) bool { return strings.ContainsAny(t, " ") || t == "" }
	pos = add("SR(dir)", "TotalSlots", "u p 0/", "\x05h (a)", zero, maxInt, &dir)
	pos.skip = func(t string) bool { return strings.ContainsAny(t, " ") || t == "" }
	info := nmdc.MyINFO{Name: "u", Mode: 'A', Flag: 1}
	info.Client.Name, info.Client.Version = "c", "1"
	skipH := func(t string) bool { return strings.ContainsAny(t, ",/<>$") }
	for _, n := range []struct{ name, pre, post string }{
		{"HubsNormal", "$ALL u <c V:1,M:A,H:", "/0/0,S:0>$ $\x01$$0$"},
		{"HubsRegistered", "$ALL u <c V:1,M:A,H:0/", "/0,S:0>$ $\x01$$0$"},
		{"HubsOperator", "$ALL u <c V:1,M:A,H:0/0/", ",S:0>$ $\x01$$0$"},
		{"Slots", "$ALL u <c V:1,M:A,H:0/0/0,S:", ">$ $\x01$$0$"},
		{"ShareSize", "$ALL u <c V:1,M:A,H:0/0/0,S:0>$ $\x01$$", "$"},
	} {
		min, max := minInt, maxInt
		if n.name == "ShareSize" {
			min, max = zero, maxUint
		}
		f = add("MyINFO", n.name, n.pre, n.post, min, max, &info)
		f.skip = skipH
	}
	f = add("MyINFO(short)", "HubsNormal", "$ALL u <c V:1,M:A,H:", ",S:0>$ $\x01$$0$", minInt, maxInt, &info)
	f.skip = func(t string) bool { return t == "" || skipH(t) }
	f.encode = nil
	uc := nmdc.UserCommand{Path: []string{"p"}, Command: "c"}
	add("UserCommand", "Typ", "", " 0 p $c", zero, maxInt, &uc)
	f = add("UserCommand", "Context", "0 ", " p $c", zero, maxInt, &uc)
	digits := regexp.MustCompile(`^\d+[^\d]`)
	f.skip = func(t string) bool { return digits.MatchString(t) } // cut after the digits
	for i := range out {
		out[i].name = strings.Replace(out[i].name, "nmdc.UserCommand.Typ", "nmdc.UserCommand.Type", 1)
	}
	return out
}

func adcNumbers() []numField {
	var out []numField
	for _, sp := range adcSpecs() {
		sp := sp
		for i, af := range sp.fields {
			if af.kind != akInt {
				continue
			}
			i, af := i, af
			const mark = "\x07"
			e := aBuild(sp, func(j int, g afield) *aval {
				if j == i {
					return &aval{int64(0), []string{mark}}
				}
				return nil
			})
			p := e.payload()
			k := strings.Index(p, mark)
			f := numField{name: "adc." + aName(sp) + "." + af.name, pre: p[:k], post: p[k+len(mark):], min: minInt, max: maxInt}
			f.decode = func(p string) (*big.Int, error) {
				m := sp.new()
				if err := adc.Unmarshal([]byte(p), m); err != nil {
					return nil, err
				}
				return bigOf(field(m, af.name)), nil
			}
			f.encode = func(v *big.Int) (string, error) {
				e := aBuild(sp, func(j int, g afield) *aval { return nil })
				setBig(field(e.m, af.name), v)
				var buf bytes.Buffer
				err := adc.Marshal(&buf, e.m)
				return buf.String(), err
			}
			if !af.req && af.tag != "#" {
				f.encSkip = func(v *big.Int) bool { return v.Sign() == 0 }
			}
			out = append(out, f)
		}
	}
	for _, resp := range []bool{false, true} {
		for _, n := range []string{"Start", "Bytes"} {
			resp, n := resp, n
			f := numField{name: "adc.GET." + n, min: minInt, max: maxInt, pre: "t p ", post: " 0"}
			if resp {
				f.name = "adc.SND." + n
			}
			if n == "Bytes" {
				f.pre, f.post = "t p 0 ", ""
			}
			mk := func() adc.Message {
				if resp {
					return &adc.GetResponse{Type: "t", Path: "p"}
				}
				return &adc.GetRequest{Type: "t", Path: "p"}
			}
			f.decode = func(p string) (*big.Int, error) {
				m := mk()
				if err := adc.Unmarshal([]byte(p), m); err != nil {
					return nil, err
				}
				return bigOf(field(m, n)), nil
			}
			f.encode = func(v *big.Int) (string, error) {
				m := mk()
				setBig(field(m, n), v)
				var buf bytes.Buffer
				err := adc.Marshal(&buf, m)
				return buf.String(), err
			}
			out = append(out, f)
		}
	}
	out = append(out, numField{name: "adc.Status", min: zero, max: maxInt, post: " x",
		decode: func(p string) (*big.Int, error) {
			m := &adc.Status{}
			if err := adc.Unmarshal([]byte(p), m); err != nil {
				return nil, err
			}
			v := new(big.Int).Mul(big.NewInt(int64(m.Sev)), big.NewInt(100))
			return v.Add(v, big.NewInt(int64(m.Code))), nil
		}})
	return out
}

var reInt = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
var reDec = regexp.MustCompile(`^([+-]?[0-9]*)(\.[0-9]*)?([eE][+-]?[0-9]+)?$`)

// denotes returns the integer that a decimal text denotes.
//
// sure: it has the canonical form of an integer. known: it is a decimal text or
// certainly none (as opposed to other notations, which are not specified).
func denotes(t string) (v *big.Int, sure bool, known bool) {
	if reInt.MatchString(t) {
		v, _ = new(big.Int).SetString(t, 10)
		return v, t != "-0", true
	}
	t2 := strings.Trim(t, " ")
	if strings.Contains(t2, "_") || strings.ContainsAny(t2, "pP") && strings.ContainsAny(t2, "xX") {
		return nil, false, false
	}
	if reDec.MatchString(t2) && strings.ContainsAny(t2, "0123456789") {
		if i := strings.IndexAny(t2, "eE"); i >= 0 && len(t2)-i > 6 {
			return nil, false, true
		}
		if r, ok := new(big.Rat).SetString(t2); ok && r.IsInt() {
			return r.Num(), false, true
		}
	}
	return nil, false, true
}

func numTexts() []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	one := big.NewInt(1)
	var vals []*big.Int
	near := func(v *big.Int) {
		vals = append(vals, new(big.Int).Sub(v, one), v, new(big.Int).Add(v, one))
	}
	near(big.NewInt(32767))
	for k := uint(0); k <= 130; k++ {
		if k > 70 && k != 128 && k != 127 {
			continue
		}
		near(new(big.Int).Lsh(one, k))
	}
	t := big.NewInt(1)
	for k := 0; k <= 40; k++ {
		near(new(big.Int).Set(t))
		t = new(big.Int).Mul(t, big.NewInt(10))
	}
	// wrap-around to small and plausible values
	for _, k := range []uint{8, 16, 31, 32, 63, 64, 65, 66, 67, 128} {
		for _, d := range []int64{2, 3, 5, 9, 10, 100, 1000} {
			vals = append(vals, new(big.Int).Add(new(big.Int).Lsh(one, k), big.NewInt(d)))
		}
		for m := int64(2); m <= 20; m++ {
			vals = append(vals, new(big.Int).Mul(new(big.Int).Lsh(one, k), big.NewInt(m)))
		}
	}
	for _, v := range vals {
		if v.Sign() < 0 {
			continue
		}
		s := v.String()
		for _, sg := range []string{"", "-", "+"} {
			add(sg + s)
			add(sg + "0" + s)
			add(sg + "0000000000000000000000000" + s)
		}
		add(s + ".0")
		add(s + ".000")
		add(s + ".5")
		add(s + ".00000000000000000001")
		add("-" + s + ".9")
		add(s + ".")
		add(s + "e0")
		add(s + "e1")
		add(s + "e-1")
		add(s + "x")
		add(s + "\xd9\xa3")
	}
	for n := 1; n <= 45; n++ {
		for d := '0'; d <= '9'; d++ {
			add(strings.Repeat(string(d), n))
		}
		add("1" + strings.Repeat("0", n) + ".0")
		add("0." + strings.Repeat("0", n) + "1")
		add("." + strings.Repeat("0", n))
		add("1" + strings.Repeat("0", n) + "e-" + fmt.Sprint(n))
	}
	for _, s := range []string{"", "-", "+", ".", "e", "1e", "e1", "1e400", "1e19", "1e18", "9e18", "1e-400", "1E3", "1.5e1", "15e-1", "1.25e1", "--1", "+-1", "-+1", "1-", "1+", "0x10", "0b1", "0o7",
		"Inf", "-Inf", "NaN", "inf", "infinity", "nan", "true", "x", "1x", "x1", "\xd9\xa3", "\xef\xbc\x91", "\xc2\xbd", "1,000", "1'000", "1:0", "1;", "\\s1", "9223372036854775807.0", "9223372036854775807.4", "9223372036854775808.0",
		"4503599627370497.5", "9007199254740993.0", "2147483648.0", "2147483647.5", "1.0000000000000000001", "0.99999999999999999999", "99999999999999.99999", "/1", ":1", "1/", "12/", "1:", "\x001", "\x7f", "1\t", "\xa0" + "1"} {
		add(s)
	}
	return out
}

func checkNumText(c *C, f numField, t string) {
	if f.skip != nil && f.skip(t) {
		c.Skip()
	}
	v, sure, known := denotes(t)
	if !known {
		c.Skip()
	}
	inRange := v != nil && v.Cmp(f.min) >= 0 && v.Cmp(f.max) <= 0
	got, err := f.decode(f.pre + t + f.post)
	c.Op()
	c.Checked()
	if err != nil {
		c.Assert(!(sure && inRange), "%s: %q is refused: %v", f.name, t, err)
		return
	}
	c.StateS(f.name + t)
	if inRange && got.Cmp(v) == 0 {
		return
	}
	if got.Sign() == 0 && !(sure && inRange) {
		if f.rest != nil {
			a, b := f.rest(f.pre+t+f.post), f.rest(f.pre+"1"+f.post)
			c.Ops(2)
			c.Assert(a == b, "%s: with the number %q the rest of the message is %s, with a valid one %s", f.name, t, a, b)
		}
		return // unset
	}
	c.Fail("%s: %q is decoded as %v", f.name, t, got)
}

func init() {
	register("C19", []string{
		"the platform has 64-bit integers",
		"texts with digit separators or a radix prefix and exponent are not decimal; '+', leading zeros, zero fractions and exponents may be accepted if exact",
		"the context of an NMDC user command ends at its first character that is not a digit",
	}, func(thorough bool) []S {
		fields := append(nmdcNumbers(), adcNumbers()...)
		texts := numTexts()
		dec := S{"decode", fmt.Sprintf("%d numeric fields x %d decimal texts around powers of 2 and 10, wrap-arounds, signs, zeros, fractions, exponents, malformed", len(fields), len(texts)), func(c *C) {
			f := fields[c.Choose(len(fields))]
			checkNumText(c, f, texts[c.Choose(len(texts))])
		}}
		al, n := "0159-+. e/x", 3
		if thorough {
			al, n = "01259-+. eE/x:", 5
		}
		short := S{"short", fmt.Sprintf("%d numeric fields x all texts of <= %d characters over %q", len(fields), n, al), func(c *C) {
			f := fields[c.Choose(len(fields))]
			t := chooseStr(c, al, 0, n)
			if strings.Contains(t, " ") && strings.HasSuffix(f.pre, " ") || strings.Contains(t, " ") && strings.HasPrefix(f.post, " ") || strings.Contains(t, " ") && strings.HasPrefix(f.name, "adc.") || strings.Contains(t, " ") && f.post == "" {
				c.Skip() // a separator
			}
			if strings.Contains(t, "/") && strings.HasPrefix(f.name, "nmdc.SR") {
				c.Skip()
			}
			checkNumText(c, f, t)
		}}
		var vals []*big.Int
		one := big.NewInt(1)
		for k := uint(0); k <= 64; k++ {
			p := new(big.Int).Lsh(one, k)
			for d := int64(-2); d <= 2; d++ {
				v := new(big.Int).Add(p, big.NewInt(d))
				vals = append(vals, v, new(big.Int).Neg(v))
			}
		}
		t := big.NewInt(1)
		for k := 0; k < 20; k++ {
			for d := int64(-1); d <= 1; d++ {
				v := new(big.Int).Add(t, big.NewInt(d))
				vals = append(vals, v, new(big.Int).Neg(v))
			}
			t = new(big.Int).Mul(t, big.NewInt(10))
		}
		enc := S{"encode", fmt.Sprintf("%d numeric fields x %d boundary values: the exact decimal text, decoded back", len(fields), len(vals)), func(c *C) {
			f := fields[c.Choose(len(fields))]
			v := vals[c.Choose(len(vals))]
			if f.encode == nil || f.encSkip != nil && f.encSkip(v) {
				c.Skip()
			}
			k := reflectRange(f)
			if v.Cmp(k[0]) < 0 || v.Cmp(k[1]) > 0 {
				c.Skip() // the Go type cannot hold it
			}
			p, err := f.encode(v)
			c.Op()
			c.Checked()
			if v.Cmp(f.min) < 0 || v.Cmp(f.max) > 0 {
				if strings.HasPrefix(f.name, "nmdc.SR(dir)") {
					return // negative slots
				}
				c.Assert(err != nil, "%s: %v is out of range but is encoded as %q", f.name, v, p)
				return
			}
			c.Assert(err == nil, "%s: %v is refused: %v", f.name, v, err)
			got, err := f.decode(p)
			c.Op()
			c.Assert(err == nil && got.Cmp(v) == 0, "%s: %v is encoded as %q, which decodes to %v, %v", f.name, v, p, got, err)
			// the text stands in the payload, not as part of a longer number
			c.Assert(regexp.MustCompile(`(^|[^0-9-]|[A-Z][0-9])`+v.String()+`([^0-9]|$)`).MatchString(p), "%s: %v is encoded as %q", f.name, v, p)
			c.StateS(f.name + v.String())
		}}
		pair := S{"used", "numeric fields of a used message: a refused or malformed number after each valid one", func(c *C) {
			// the second decoding into the same message must not yield a third value
			f := []struct {
				new  func() interface{}
				name string
				pay  string
			}{
				{func() interface{} { return &nmdc.MyINFO{} }, "ShareSize", "$ALL u <c V:1,M:A,H:0/0/0,S:0>$ $\x01$$%$"},
				{func() interface{} { return &nmdc.Search{} }, "Size", "Hub:u T?F?%?1?p"},
				{func() interface{} { return &nmdc.SR{} }, "Size", "u p\x05% 0/0\x05h (a)"},
				{func() interface{} { return &nmdc.ADCGet{} }, "Start", "a b % 1"},
				{func() interface{} { return &nmdc.UserCommand{} }, "Typ", "% 0"},
				{func() interface{} { return &adc.SearchRequest{} }, "Le", "LE%"},
				{func() interface{} { return &adc.ConnectRequest{} }, "Port", "p % t"},
				{func() interface{} { return &adc.GetRequest{} }, "Start", "a b % 0"},
			}[c.Choose(8)]
			m := f.new()
			run := func(t string) error {
				p := []byte(strings.Replace(f.pay, "%", t, 1))
				if nm, ok := m.(nmdc.Message); ok {
					return nm.UnmarshalNMDC(nil, p)
				}
				return adc.Unmarshal(p, m)
			}
			a := []string{"1", "77", "9223372036854775807"}[c.Choose(3)]
			b := []string{"x", "18446744073709551616", "99999999999999999999999", "1x", "", "5"}[c.Choose(6)]
			c.Assert(run(a) == nil, "%T %q is refused", m, a)
			err := run(b)
			c.Ops(2)
			got := bigOf(field(m, f.name)).String()
			if b == "5" {
				c.Assert(err == nil && got == "5", "%T: %q after %q is decoded as %v, %v", m, b, a, got, err)
				return
			}
			c.Assert(err != nil || got == "0" || got == a, "%T: %q after %q is decoded as %v", m, b, a, got)
			c.StateS(f.name + a + b)
		}}
		return []S{dec, short, enc, pair}
	})
}

// reflectRange returns the range of the field's Go type.
func reflectRange(f numField) [2]*big.Int {
	switch {
	case f.max == maxUint:
		return [2]*big.Int{zero, maxUint}
	case strings.HasSuffix(f.name, "Direction.Number"):
		return [2]*big.Int{zero, maxUint}
	}
	return [2]*big.Int{minInt, maxInt}
}
