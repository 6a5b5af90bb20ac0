package checks

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	"github.com/direct-connect/go-dc/types"
)

// dump writes the canonical form of a value: pointers are followed, errors are
// their text, nil and empty slices and maps are the same, map keys are sorted.
func dump(v interface{}) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(v))
	return b.String()
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func dumpTo(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	t := v.Type()
	if t == errType {
		if v.IsNil() {
			b.WriteString(`err""`)
			return
		}
		fmt.Fprintf(b, "err%q", v.Interface().(error).Error())
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('*')
		dumpTo(b, v.Elem())
	case reflect.Struct:
		b.WriteString(t.Name())
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i != 0 {
				b.WriteByte(' ')
			}
			b.WriteString(t.Field(i).Name)
			b.WriteByte(':')
			dumpTo(b, v.Field(i))
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "x%q", bytesOf(v))
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i != 0 {
				b.WriteByte(' ')
			}
			dumpTo(b, v.Index(i))
		}
		b.WriteByte(']')
	case reflect.Map:
		var arr []string
		for _, k := range v.MapKeys() {
			var s strings.Builder
			dumpTo(&s, k)
			s.WriteByte('=')
			dumpTo(&s, v.MapIndex(k))
			arr = append(arr, s.String())
		}
		sort.Strings(arr)
		b.WriteString("map[" + strings.Join(arr, " ") + "]")
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	default:
		b.WriteString("?" + t.String())
	}
}

func bytesOf(v reflect.Value) []byte {
	if v.Kind() == reflect.Slice {
		return v.Bytes()
	}
	out := make([]byte, v.Len())
	for i := range out {
		out[i] = byte(v.Index(i).Uint())
	}
	return out
}

// dumpMsg is dump with the values that NMDC cannot tell apart identified.
func dumpMsg(m nmdc.Message) string {
	switch m := m.(type) {
	case *nmdc.MyINFO:
		c := *m
		if c.Flag == 0 {
			c.Flag = nmdc.FlagStatusNormal
		}
		if c.Mode == ' ' {
			c.Mode = nmdc.UserModeUnknown
		}
		return dump(&c)
	case *nmdc.Search:
		c := *m
		if c.DataType == 0 {
			c.DataType = nmdc.DataTypeAny
		}
		if !c.SizeRestricted {
			c.IsMaxSize = false
		}
		return dump(&c)
	}
	return dump(m)
}

// refText is the specified encoding of a text.
func refText(s string) string {
	return strings.NewReplacer("&", "&amp;", "$", "&#36;", "|", "&#124;").Replace(s)
}

// refName is the specified encoding of a user name.
func refName(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "$", "&#36;", "|", "&#124;").Replace(s)
}

// legacyEsc tells that s spells a legacy escape sequence, which cannot be written literally.
func legacyEsc(s string) bool {
	for _, e := range []string{"000", "005", "036", "096", "124", "126"} {
		if strings.Contains(s, "/%DCN"+e+"%/") {
			return true
		}
	}
	return false
}

var nTokens = []string{"a", "", "b c", "$", "|", "&", "<", ">", "x&#36;y", "&amp;", "é日", "\\", "l\nm", "x\x00", "?", " (", "/", ",", ":", "/%DCN",
	strings.Repeat("n", 256), strings.Repeat("n", 257), strings.Repeat("&", 60), " ", "\x05", "ab", "\r", "> <", "TTH:", "\t", "AllowR", "#", "1/2"}

const nAlpha = "a $|&<>\\;#\n?,(:/\x05\x00"

// ngen generates the fields of one NMDC message together with their specified encoding.
type ngen struct {
	c     *C
	deep  int // index of the field that takes all short strings, -1 for none
	deepN int
	idx   int
	bad   bool // must be refused
	free  bool // may be refused, and the exact bytes are not specified
	// vals, if set, are the values of the deep field, and other is the value
	// of the other text fields
	vals  []string
	other string
	used  bool
	// page is the encoding in use, if any; it decides how long a name is
	page *codepage
	// sweep: the deep field takes every character in every place of its default
	sweep bool
	// marks: the deep field takes sequences of that many markers, alone or
	// around its default
	marks int
	// repeat: the deep field is a repeated unit
	repeat bool
}

// repUnits and repCounts are the parts of long values.
var (
	repUnits  = []string{"a ", " ", "a", "&", "&amp;", "$", "|", "é ", "\\a", "a\\", "/", "<a>", "a?", "1 ", "a,", "a:1 ", "(", "#", "\n"}
	repCounts = append(upTo(66), 85, 86, 127, 128, 129, 255, 256, 257, 1000, 1024)
)

func upTo(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i + 1
	}
	return l
}

// nMarks are the tokens that separate or announce fields of some message.
var nMarks = []string{"Ref=", "Pk=", "EXTENDEDPROTOCOL", "TTH:", "TTH/", "Hub:", " From: ", "From:", "$<", "<", "> ", ">", " (", ")", "$ALL ", "V:", "M:A", "H:1/2/3", "++", "ZL1", "DB", "$$", "a", " ", "\\", "?", "/", "0", ".", "-", "&", ";"}

func markedValue(c *C, n int, def string) string {
	s := ""
	for k := 1 + c.Choose(n); k > 0; k-- {
		s += nMarks[c.Choose(len(nMarks))]
	}
	switch c.Choose(4) {
	case 1:
		return s + def
	case 2:
		return def + s
	case 3:
		return def + s + def
	}
	return s
}

// sweepChar chooses a character, and a value of it and the default.
func sweepChar(c *C, def string) string {
	n := c.Choose(128 + len(sweepRunes))
	s := ""
	if n < 128 {
		s = string(rune(n))
	} else {
		s = sweepRunes[n-128]
	}
	switch c.Choose(7) {
	case 1:
		return s + def
	case 2:
		return def + s
	case 3:
		if len(def) < 2 {
			return def + s + "b"
		}
		return def[:1] + s + def[1:]
	case 4:
		return s + def + s
	case 5:
		return s + s
	case 6:
		if len(def) < 2 {
			return s + "b"
		}
		return def[:len(def)-1] + s
	}
	return s
}

var sweepRunes = []string{"\u0080", "\u0085", "\u00a0", "\u00ad", "\u0130", "\u0131", "\u017f", "\u212a", "\u2028", "\u200b", "\u3000", "\ufeff", "\ufffd", "\uffff", "\U0001f600", "\U0010ffff", "e\u0301"}

func (g *ngen) field() bool {
	d := g.idx == g.deep
	g.idx++
	return d
}

func (g *ngen) val(def string) string {
	if g.vals != nil {
		if g.field() {
			g.used = true
			return g.vals[g.c.Choose(len(g.vals))]
		} else if def == "" {
			return def
		}
		return g.other
	}
	if g.field() {
		if g.sweep {
			return sweepChar(g.c, def)
		}
		if g.repeat {
			s := strings.Repeat(repUnits[g.c.Choose(len(repUnits))], repCounts[g.c.Choose(len(repCounts))])
			if g.c.Bool() {
				s += "z"
			}
			return s
		}
		if g.marks > 0 {
			return markedValue(g.c, g.marks, def)
		}
		return chooseStr(g.c, nAlpha, 0, g.deepN)
	}
	if g.deep >= 0 {
		return def
	}
	if i := g.c.Dev(len(nTokens)); i != 0 {
		return nTokens[i]
	}
	return def
}

// skipIf excludes values outside the domain of the property.
func (g *ngen) skipIf(cond bool) {
	if cond {
		g.c.Skip()
	}
}

// text is a free text.
func (g *ngen) text(def string) (string, string) {
	s := g.val(def)
	if strings.Contains(s, "\x00") {
		g.bad = true
	}
	g.skipIf(legacyEsc(s))
	return s, refText(s)
}

// name is a user name.
func (g *ngen) name(def string) (string, string) {
	s := g.val(def)
	size := len(refName(s))
	if g.page != nil {
		if e, ok := g.page.encode(refName(s)); ok {
			size = len(e)
		}
	}
	if strings.ContainsAny(s, "$\x00\r\n\t") || size > 256 {
		g.bad = true
	}
	g.skipIf(legacyEsc(s))
	return s, refName(s)
}

// word is a user name in a place that is delimited by a space.
func (g *ngen) word(def string) (string, string) {
	s, e := g.name(def)
	g.skipIf(strings.Contains(s, " "))
	return s, e
}

// raw is an unescaped field; the structural characters of its place are outside the domain.
func (g *ngen) raw(def, structural string) (string, string) {
	if g.vals != nil {
		g.skipIf(g.field())
		return def, def
	}
	s := g.val(def)
	g.skipIf(structural != "" && strings.ContainsAny(s, structural))
	if strings.ContainsAny(s, "|\x00") {
		g.bad = true
	}
	return s, s
}

// opt chooses one of n variants (0 is the default one).
func (g *ngen) opt(n int) int {
	if g.field() {
		g.skipIf(g.vals != nil)
		return g.c.Choose(n)
	}
	if g.deep >= 0 {
		return 0
	}
	return g.c.Dev(n)
}

func (g *ngen) u64() uint64 {
	vals := []uint64{1, 0, 10, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	return vals[g.opt(len(vals))]
}

func (g *ngen) int() int {
	vals := []int{1, 0, 10, 1<<31 - 1, 1 << 32, 1<<63 - 1}
	return vals[g.opt(len(vals))]
}

func u64s(v uint64) string { return strconv.FormatUint(v, 10) }

var hashes = func() []tiger.Hash {
	var a, b, z, f tiger.Hash
	for i := range a {
		a[i] = byte(i*37 + 11)
		b[i] = byte(255 - i)
		f[i] = 0xff
	}
	return []tiger.Hash{a, b, z, f}
}()

// b32 is an independent base32 encoder.
func b32(p []byte) string {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	var out []byte
	acc, n := uint(0), 0
	for _, c := range p {
		acc = acc<<8 | uint(c)
		n += 8
		for n >= 5 {
			n -= 5
			out = append(out, al[acc>>uint(n)&31])
		}
	}
	if n > 0 {
		out = append(out, al[acc<<uint(5-n)&31])
	}
	return string(out)
}

func (g *ngen) tth() (tiger.Hash, string) {
	h := hashes[g.opt(len(hashes))]
	return h, b32(h[:])
}

// nspec is the specification of a message type: gen returns a message and its
// specified payload.
type nspec struct {
	typ    string
	fields int
	gen    func(g *ngen) (nmdc.Message, string)
	// dirty is a payload that fills every field
	dirty string
}

func nameSpec(typ string, mk func(nmdc.Name) nmdc.Message) nspec {
	return nspec{typ, 1, func(g *ngen) (nmdc.Message, string) {
		s, e := g.name("user")
		return mk(nmdc.Name(s)), e
	}, "dirty"}
}

func textSpec(typ string, mk func(nmdc.String) nmdc.Message) nspec {
	return nspec{typ, 1, func(g *ngen) (nmdc.Message, string) {
		s, e := g.text("text")
		return mk(nmdc.String(s)), e
	}, "dirty"}
}

func noargSpec(typ string, mk func() nmdc.Message) nspec {
	return nspec{typ, 0, func(g *ngen) (nmdc.Message, string) { return mk(), "" }, ""}
}

func trailSpace(s string) bool {
	r, n := utf8.DecodeLastRuneInString(s)
	return n != 0 && unicode.IsSpace(r)
}

func nmdcSpecs() []nspec {
	dirtyTTH := b32(bytes.Repeat([]byte{0xA5}, 24))
	specs := []nspec{
		nameSpec("Hello", func(s nmdc.Name) nmdc.Message { return &nmdc.Hello{Name: s} }),
		nameSpec("Kick", func(s nmdc.Name) nmdc.Message { return &nmdc.Kick{Name: s} }),
		nameSpec("Close", func(s nmdc.Name) nmdc.Message { return &nmdc.Close{Name: s} }),
		nameSpec("ValidateNick", func(s nmdc.Name) nmdc.Message { return &nmdc.ValidateNick{Name: s} }),
		nameSpec("ValidateDenide", func(s nmdc.Name) nmdc.Message { return &nmdc.ValidateDenide{Name: s} }),
		nameSpec("MyNick", func(s nmdc.Name) nmdc.Message { return &nmdc.MyNick{Name: s} }),
		nameSpec("Quit", func(s nmdc.Name) nmdc.Message { return &nmdc.Quit{Name: s} }),
		nameSpec("LogedIn", func(s nmdc.Name) nmdc.Message { return &nmdc.LogedIn{Name: s} }),
		textSpec("HubName", func(s nmdc.String) nmdc.Message { return &nmdc.HubName{String: s} }),
		textSpec("SetTopic", func(s nmdc.String) nmdc.Message { return &nmdc.SetTopic{String: s} }),
		textSpec("MyPass", func(s nmdc.String) nmdc.Message { return &nmdc.MyPass{String: s} }),
		textSpec("BotINFO", func(s nmdc.String) nmdc.Message { return &nmdc.BotINFO{String: s} }),
		textSpec("SetIcon", func(s nmdc.String) nmdc.Message { return &nmdc.SetIcon{String: s} }),
		textSpec("SetLogo", func(s nmdc.String) nmdc.Message { return &nmdc.SetLogo{String: s} }),
		textSpec("HubTopic", func(s nmdc.String) nmdc.Message { return &nmdc.HubTopic{Text: string(s)} }),
		noargSpec("ZOn", func() nmdc.Message { return &nmdc.ZOn{} }),
		noargSpec("HubIsFull", func() nmdc.Message { return &nmdc.HubIsFull{} }),
		noargSpec("BadPass", func() nmdc.Message { return &nmdc.BadPass{} }),
		noargSpec("GetPass", func() nmdc.Message { return &nmdc.GetPass{} }),
		noargSpec("MaxedOut", func() nmdc.Message { return &nmdc.MaxedOut{} }),
		noargSpec("GetTopic", func() nmdc.Message { return &nmdc.GetTopic{} }),
		noargSpec("GetNickList", func() nmdc.Message { return &nmdc.GetNickList{} }),
		{"", 2, func(g *ngen) (nmdc.Message, string) {
			n, en := g.name("user")
			t, et := g.text("text")
			m := &nmdc.ChatMessage{Name: n, Text: t}
			if n == "" {
				if t == "" {
					g.bad = true // would be a keep-alive
				}
				if strings.HasPrefix(t, "<") {
					g.free = true
				}
				return m, et
			}
			return m, "<" + en + "> " + et
		}, "<dirty> text"},
		{"To:", 4, func(g *ngen) (nmdc.Message, string) {
			to, eto := g.name("to")
			fr, efr := g.name("from")
			n, en := g.name("name")
			t, et := g.text("text")
			g.skipIf(strings.Contains(to, "From:"))
			return &nmdc.PrivateMessage{To: to, From: fr, Name: n, Text: t}, eto + " From: " + efr + " $<" + en + "> " + et
		}, "x From: y $<z> w"},
		{"MCTo", 3, func(g *ngen) (nmdc.Message, string) {
			to, eto := g.name("to")
			fr, efr := g.word("from")
			t, et := g.text("text")
			return &nmdc.MCTo{To: to, From: fr, Text: t}, eto + " $" + efr + " " + et
		}, "x $y z"},
		{"UserCommand", 5, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.UserCommand{}
			m.Typ = nmdc.UCmdType([]int{1, 0, 2, 255, 1 << 31, -1}[g.opt(6)])
			m.Context = nmdc.UCmdContext([]int{3, 0, 15, 1 << 31, -1}[g.opt(5)])
			if m.Typ < 0 || m.Context < 0 {
				g.bad = true
			}
			np := []int{1, 0, 2, 3}[g.opt(4)]
			enc := fmt.Sprintf("%d %d", m.Typ, m.Context)
			for i := 0; i < np; i++ {
				s, e := "sub", "sub"
				if i == 0 {
					s, e = g.text("path")
				} else if i == 1 {
					s, e = "&sub$", "&amp;sub&#36;"
				}
				g.skipIf(s == "" || strings.Contains(s, "\\") || i == np-1 && trailSpace(s))
				m.Path = append(m.Path, s)
				if i == 0 {
					enc += " " + e
				} else {
					enc += "\\" + e
				}
			}
			g.idx = 4
			c, ec := g.text("cmd")
			m.Command = c
			g.skipIf(trailSpace(c))
			if np == 0 && c != "" {
				g.bad = true
			}
			if np != 0 || c != "" {
				enc += " $" + ec
			}
			return m, enc
		}, "2 9 a\\b $c"},
		{"ConnectToMe", 5, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.ConnectToMe{}
			var et, ea, es string
			m.Targ, et = g.word("targ")
			m.Address, ea = g.raw("1.2.3.4:555", " ")
			m.Kind = nmdc.CTMKind(g.opt(4))
			if g.vals != nil && g.deep == 4 {
				m.Kind = nmdc.CTMPassiveReq
			}
			m.Secure = g.opt(2) == 1
			m.Src, es = g.word("")
			if m.Src == "" && m.Kind == nmdc.CTMPassiveReq && g.deep != 4 {
				m.Src, es = "src", "src"
			}
			g.skipIf(strings.HasSuffix(ea, "S") || strings.HasSuffix(ea, "N") || strings.HasSuffix(ea, "R"))
			if m.Targ == "" || m.Kind > 2 || (m.Kind == nmdc.CTMPassiveReq) != (m.Src != "") {
				g.bad = true
			}
			out := et + " " + ea + []string{"", "N", "R", ""}[m.Kind]
			if m.Secure {
				out += "S"
			}
			if m.Src != "" {
				out += " " + es
			}
			return m, out
		}, "x 1.1.1.1:1NS y"},
		{"RevConnectToMe", 2, func(g *ngen) (nmdc.Message, string) {
			fr, efr := g.word("from")
			to, eto := g.name("to")
			return &nmdc.RevConnectToMe{From: fr, To: to}, efr + " " + eto
		}, "x y"},
		{"Failed", 1, func(g *ngen) (nmdc.Message, string) {
			s, e := g.text("reason")
			return &nmdc.Failed{Err: errors.New(s)}, e
		}, "dirty"},
		{"Error", 2, func(g *ngen) (nmdc.Message, string) {
			if g.opt(2) == 1 {
				return &nmdc.Error{}, ""
			}
			s, e := g.text("reason")
			return &nmdc.Error{Err: errors.New(s)}, e
		}, "dirty"},
		{"ADCGET", 6, func(g *ngen) (nmdc.Message, string) {
			ct, ect := g.text("file")
			id, eid := g.text("TTH/X")
			if strings.Contains(ct, " ") || strings.Contains(id, " ") {
				g.bad = true
			}
			m := &nmdc.ADCGet{ContentType: nmdc.String(ct), Identifier: nmdc.String(id), Start: g.u64()}
			m.Length = []int64{1, 0, -1, 1<<63 - 1, -2, -1 << 63, 1 << 31}[g.opt(7)]
			if m.Length < -1 {
				g.bad = true
			}
			m.Compressed = g.opt(2) == 1
			out := fmt.Sprintf("%s %s %d %d", ect, eid, m.Start, m.Length)
			if m.Compressed {
				out += " ZL1"
			}
			if k := g.opt(4); k != 0 {
				v := []uint64{0, 0, 7, 1<<64 - 1}[k]
				m.DownloadedBytes = &v
				out += " DB" + u64s(v)
			}
			return m, out
		}, "list x 5 6 ZL1 DB7"},
		{"ADCSND", 5, func(g *ngen) (nmdc.Message, string) {
			ct, ect := g.text("file")
			id, eid := g.text("TTH/X")
			if strings.Contains(ct, " ") || strings.Contains(id, " ") {
				g.bad = true
			}
			m := &nmdc.ADCSnd{ContentType: nmdc.String(ct), Identifier: nmdc.String(id), Start: g.u64(), Length: g.u64()}
			m.Compressed = g.opt(2) == 1
			out := fmt.Sprintf("%s %s %d %d", ect, eid, m.Start, m.Length)
			if m.Compressed {
				out += " ZL1"
			}
			return m, out
		}, "list x 5 6 ZL1"},
		{"Direction", 2, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.Direction{Upload: g.opt(2) == 1}
			m.Number = []uint{1, 0, 2, 32767, 32768, 1 << 40, 1<<64 - 1}[g.opt(7)]
			if m.Number < 1 || m.Number > 32767 {
				g.bad = true
			}
			if m.Upload {
				return m, "Upload " + u64s(uint64(m.Number))
			}
			return m, "Download " + u64s(uint64(m.Number))
		}, "Upload 77"},
		{"Version", 1, func(g *ngen) (nmdc.Message, string) {
			s, e := g.raw("1,0091", "")
			return &nmdc.Version{Vers: s}, e
		}, "dirty"},
		{"ForceMove", 1, func(g *ngen) (nmdc.Message, string) {
			s, e := g.raw("host:411", "")
			return &nmdc.ForceMove{Address: s}, e
		}, "dirty"},
		{"FailOver", 3, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.FailOver{}
			n := []int{1, 0, 2, 3}[g.opt(4)]
			var enc []string
			for i := 0; i < n; i++ {
				s, e := "h2", "h2"
				if i < 2 {
					s, e = g.raw("h1:411", ",")
				}
				m.Host = append(m.Host, s)
				enc = append(enc, e)
			}
			g.skipIf(n == 1 && m.Host[0] == "")
			return m, strings.Join(enc, ",")
		}, "a,b"},
		{"Lock", 4, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.Lock{NoExt: g.opt(2) == 1}
			m.Lock, _ = g.raw("LOCK", " ")
			m.PK, _ = g.raw("pk1", "")
			m.Ref, _ = g.raw("", "")
			g.skipIf(strings.Contains(m.PK, "Ref=") || m.NoExt && strings.HasPrefix(m.Lock, "EXTENDEDPROTOCOL"))
			// the documented layouts
			out := m.Lock
			if !m.NoExt {
				out = "EXTENDEDPROTOCOL" + out
			}
			if m.PK != "" {
				out += " Pk=" + m.PK
			}
			if m.Ref != "" {
				if m.PK == "" {
					out += " "
				}
				out += "Ref=" + m.Ref
			}
			return m, out
		}, "EXTENDEDPROTOCOLxx Pk=yyRef=zz"},
		{"Key", 1, func(g *ngen) (nmdc.Message, string) {
			s, e := g.raw("\xff\x80k", "")
			return &nmdc.Key{Key: s}, e
		}, "dirty"},
		{"Supports", 3, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.Supports{}
			n := []int{1, 0, 2, 3}[g.opt(4)]
			for i := 0; i < n; i++ {
				s := "TTHSearch"
				if i < 2 {
					s, _ = g.raw("UserIP2", " ")
				}
				g.skipIf(s == "")
				m.Ext = append(m.Ext, s)
			}
			return m, strings.Join(m.Ext, " ")
		}, "x y z"},
		{"HubINFO", 11, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.HubINFO{}
			f := make([]string, 11)
			m.Name, f[0] = g.text("hub")
			m.Host, f[1] = g.raw("host", "$")
			m.Desc, f[2] = g.text("desc")
			m.I1, m.I2, m.I3, m.I4 = g.int(), 2, 3, g.int()
			f[3], f[4], f[5], f[6] = strconv.Itoa(m.I1), "2", "3", strconv.Itoa(m.I4)
			m.Soft.Name, f[7] = g.raw("soft", "$")
			var ev string
			m.Soft.Version, ev = g.raw("1.0", "$ ")
			g.skipIf(m.Soft.Version == "" && strings.Contains(m.Soft.Name, " "))
			if m.Soft.Version != "" {
				f[7] += " " + ev
			}
			m.Owner, f[8] = g.text("owner")
			m.State, f[9] = g.text("state")
			m.Encoding, f[10] = g.raw("CP1252", "$")
			return m, strings.Join(f, "$")
		}, "x$y$z$9$8$7$6$soft 9$o$s$e"},
		{"Search", 7, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.Search{}
			out := ""
			if g.opt(2) == 0 {
				u, eu := g.word("user")
				m.User = u
				out = "Hub:" + eu
			} else {
				g.idx++
				a := "1.2.3.4:55"
				if g.deep == 1 {
					a, _ = g.raw(a, " ")
				}
				m.Address = a
				out = a
			}
			g.idx = 2
			switch g.opt(3) {
			case 0:
				out += " F?T"
			case 1:
				m.SizeRestricted = true
				out += " T?F"
			case 2:
				m.SizeRestricted, m.IsMaxSize = true, true
				out += " T?T"
			}
			m.Size = g.u64()
			m.DataType = nmdc.DataType([]uint{1, 9, 0, 2, 8, 13, 99}[g.opt(7)])
			dt := m.DataType
			if dt == 0 {
				dt = 1
			}
			out += fmt.Sprintf("?%d?%d?", m.Size, dt)
			if dt == nmdc.DataTypeTTH {
				if g.opt(2) == 1 {
					g.bad = true
					return m, ""
				}
				h, e := g.tth()
				m.TTH = &h
				out += "TTH:" + e
			} else {
				g.idx = 6
				p, e := g.text("pat")
				m.Pattern = p
				out += strings.Replace(e, " ", "$", -1)
			}
			return m, out
		}, "Hub:x T?T?5?9?TTH:" + dirtyTTH},
		{"SR", 10, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.SR{}
			var ef, eh, eto string
			m.From, ef = g.word("from")
			np := []int{2, 1, 3, 0}[g.opt(4)]
			var ep []string
			for i := 0; i < np; i++ {
				s, e := "dir", "dir"
				if i == np-1 {
					s, e = g.text("file.ext")
				} else if i == 1 {
					s, e = "d (2) 1/2", "d (2) 1/2"
				}
				if strings.Contains(s, "\x05") {
					g.bad = true
				}
				g.skipIf(strings.Contains(s, "\\"))
				m.Path = append(m.Path, s)
				ep = append(ep, e)
			}
			g.idx = 3
			if np == 0 {
				g.bad = true
			}
			m.IsDir = g.opt(2) == 1
			m.FreeSlots, m.TotalSlots = g.int(), 7
			out := ef + " " + strings.Join(ep, "\\")
			if !m.IsDir {
				m.Size = g.u64()
				out += "\x05" + u64s(m.Size)
			}
			g.idx = 6
			out += fmt.Sprintf(" %d/%d\x05", m.FreeSlots, m.TotalSlots)
			hub := g.opt(2) == 1
			if g.deep == 7 {
				hub = g.c.Bool() // the hub name or the hash
			}
			if !hub {
				h, e := g.tth()
				m.TTH = &h
				out += "TTH:" + e
			} else {
				m.HubName, eh = g.text("hub")
				if strings.HasPrefix(m.HubName, "TTH:") || strings.Contains(m.HubName, "\x05") {
					g.bad = true
				}
				out += eh
			}
			m.HubAddress, _ = g.raw("1.2.3.4:411", ")( \x05")
			out += " (" + m.HubAddress + ")"
			m.To, eto = g.name("")
			if m.To != "" {
				out += "\x05" + eto
			}
			return m, out
		}, "x a\\b\x055 1/2\x05TTH:" + dirtyTTH + " (h)\x05to"},
		{"SA", 2, func(g *ngen) (nmdc.Message, string) {
			h, e := g.tth()
			a, ea := g.raw("1.2.3.4:55", "")
			return &nmdc.TTHSearchActive{TTH: h, Address: a}, e + " " + ea
		}, dirtyTTH + " addr"},
		{"SP", 2, func(g *ngen) (nmdc.Message, string) {
			h, e := g.tth()
			a, ea := g.name("user")
			return &nmdc.TTHSearchPassive{TTH: h, User: a}, e + " " + ea
		}, dirtyTTH + " user"},
		{"MyINFO", 12, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.MyINFO{}
			var en, ed, ec, ee string
			m.Name, en = g.word("user")
			m.Desc, ed = g.text("desc")
			const st = "<>$,:"
			m.Client = types.Software{}
			m.Client.Name, _ = g.raw("++", st)
			m.Client.Version, _ = g.raw("1.0", st)
			modes := "AP5 \x00X>9,<$|"
			m.Mode = nmdc.UserMode(modes[g.opt(len(modes))])
			md := string(rune(m.Mode))
			switch m.Mode {
			case ' ', 0:
				md = " "
			case ',', '<', '$', '|':
				g.bad = true
			}
			m.HubsNormal, m.HubsRegistered, m.HubsOperator = g.int(), 2, 3
			m.Slots = g.int()
			ex := ""
			switch g.opt(4) {
			case 1:
				m.Extra = map[string]string{"L": "5"}
				ex = ",L:5"
			case 2:
				m.Extra = map[string]string{"OP": "x y"}
				ex = ",OP:x y"
			case 3:
				m.Extra = map[string]string{"B": ""}
				ex = ",B:"
			}
			m.Conn, ec = g.text("LAN")
			flags := "\x01\x02\x00\x24\x7c\xff\x11 0&"
			m.Flag = nmdc.UserFlag(flags[g.opt(len(flags))])
			if m.Flag == '$' || m.Flag == '|' {
				g.bad = true
			}
			fl := byte(m.Flag)
			if fl == 0 {
				fl = 1
			}
			m.Email, ee = g.text("mail")
			m.ShareSize = g.u64()
			return m, fmt.Sprintf("$ALL %s %s<%s V:%s,M:%s,H:%d/%d/%d,S:%d%s>$ $%s%s$%s$%d$", en, ed, m.Client.Name, m.Client.Version, md,
				m.HubsNormal, 2, 3, m.Slots, ex, ec, string([]byte{fl}), ee, m.ShareSize)
		}, "$ALL x y<z V:9,M:5,H:7/8/9,S:6,L:4,OP:x>$ $c\x05$e$77$"},
		{"UserIP", 3, func(g *ngen) (nmdc.Message, string) {
			m := &nmdc.UserIP{}
			n := []int{1, 0, 2, 3}[g.opt(4)]
			out := ""
			for i := 0; i < n; i++ {
				s, e, ip := "second user", "second user", "::1"
				if i == 0 {
					s, e = g.name("user")
					ip, _ = g.raw("1.2.3.4", " $")
				}
				m.List = append(m.List, nmdc.UserAddress{Name: s, IP: ip})
				out += e + " " + ip + "$$"
			}
			return m, out
		}, "x 1$$y 2$$"},
		{"XRaw", 1, func(g *ngen) (nmdc.Message, string) {
			s, e := g.raw("data", "")
			return &nmdc.RawMessage{Typ: "XRaw", Data: []byte(s)}, e
		}, "dirty"},
	}
	for _, t := range []string{"OpList", "BotList"} {
		t := t
		specs = append(specs, nspec{t, 3, func(g *ngen) (nmdc.Message, string) {
			var list nmdc.Names
			n := []int{1, 0, 2, 3}[g.opt(4)]
			out := ""
			for i := 0; i < n; i++ {
				s, e := "u3", "u3"
				if i < 2 {
					s, e = g.name("u1")
				}
				g.skipIf(s == "")
				list = append(list, s)
				out += e + "$$"
			}
			if n == 0 {
				out = "$$"
			}
			if t == "OpList" {
				return &nmdc.OpList{Names: list}, out
			}
			return &nmdc.BotList{Names: list}, out
		}, "x$$y$$"})
	}
	return specs
}

// nline is a command line.
func nline(typ, payload string) string {
	if typ == "" {
		return payload + "|"
	}
	if payload == "" {
		return "$" + typ + "|"
	}
	return "$" + typ + " " + payload + "|"
}
