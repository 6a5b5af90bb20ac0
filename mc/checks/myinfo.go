package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"
)

// C28: user info dialects. The reference builds the line from its parts and
// knows what every part means; it does not parse.

type mivar struct {
	text string // as it is sent
	bad  bool   // must be refused
	set  func(m *nmdc.MyINFO)
}

func miExtra(k, v string) func(m *nmdc.MyINFO) {
	return func(m *nmdc.MyINFO) {
		if m.Extra == nil {
			m.Extra = map[string]string{}
		}
		m.Extra[k] = v
	}
}

func miHubs(a, b, o int) func(m *nmdc.MyINFO) {
	return func(m *nmdc.MyINFO) { m.HubsNormal, m.HubsRegistered, m.HubsOperator = a, b, o }
}

func miMode(v nmdc.UserMode) func(m *nmdc.MyINFO) {
	return func(m *nmdc.MyINFO) { m.Mode = v }
}

func miSlots(v int) func(m *nmdc.MyINFO) {
	return func(m *nmdc.MyINFO) { m.Slots = v }
}

func miNop(*nmdc.MyINFO) {}

// kinds of tag fields, with the texts they come in
var miFields = [][]mivar{
	{ // mode
		{"M:A", false, miMode('A')}, {"M:P", false, miMode('P')}, {"m:5", false, miMode('5')},
		{"M: ", false, miMode(0)}, {"M:", false, miMode(0)}, {"M:AP", false, miMode(0)},
	},
	{ // hubs
		{"H:1/2/3", false, miHubs(1, 2, 3)}, {"h:0/0/0", false, miHubs(0, 0, 0)}, {"H:34", false, miHubs(34, 0, 0)},
		{"H:", false, miHubs(1, 0, 0)}, {"H:1 /0/ 12", false, miHubs(1, 0, 12)}, {"H: 7", false, miHubs(7, 0, 0)},
		{"H:1/2", true, nil}, {"H:1/2/3/4", true, nil}, {"H:x/2/3", true, nil}, {"H:1/x/3", true, nil}, {"H:1/2/x", true, nil},
		{"H:x", true, nil}, {"H://", true, nil}, {"H:1/2/", true, nil}, {"H:/2/3", true, nil}, {"H:1//3", true, nil},
	},
	{ // slots
		{"S:5", false, miSlots(5)}, {"s:12", false, miSlots(12)}, {"S: 3 ", false, miSlots(3)}, {"S:0", false, miSlots(0)},
		{"S:", true, nil}, {"S:x", true, nil}, {"S:1/2", true, nil}, {"S:5x", true, nil},
	},
	{ // other fields of one letter
		{"L:512", false, miExtra("L", "512")}, {"o:2", false, miExtra("O", "2")}, {"B:", false, miExtra("B", "")},
		{"L:a:b", false, miExtra("L", "a:b")}, {"T:V:1", false, miExtra("T", "V:1")},
	},
	{ // other fields
		{"FU:x y", false, miExtra("FU", "x y")}, {"fu:M", false, miExtra("fu", "M")}, {"MM:A", false, miExtra("MM", "A")},
		{"Share:10/20", false, miExtra("Share", "10/20")}, {"HS:3", false, miExtra("HS", "3")},
	},
	{ // not fields
		{"", false, miNop}, {"M", true, nil}, {":A", true, nil}, {"text", true, nil}, {":", true, nil},
	},
}

type miclient struct {
	text          string
	name, version string
}

var miClients = []miclient{
	{"++ V:0.873", "++", "0.873"},
	{"GreylynkDC++ v:2.3.5", "GreylynkDC++", "2.3.5"},
	{"StrgDC++", "StrgDC++", ""},
	{"Apex DC V:1.0 beta", "Apex DC", "1.0 beta"},
	{"++ V:", "++", ""},
	{" V:3", "", "3"},
	{"Foo:2 V:1:2", "Foo:2", "1:2"},
	{"DC V v V:4", "DC V v", "4"},
	{"M H S v:1/2", "M H S", "1/2"},
}

func miEqual(a, b *nmdc.MyINFO) bool {
	x, y := *a, *b
	if len(x.Extra) == 0 {
		x.Extra = nil
	}
	if len(y.Extra) == 0 {
		y.Extra = nil
	}
	return reflect.DeepEqual(x, y)
}

// miDecode decodes the line as the argument of a command and as a whole line.
func miDecode(c *C, line string, want *nmdc.MyINFO) {
	got := &nmdc.MyINFO{Name: "old", Desc: "old", Client: types.Software{Name: "old", Version: "old"}, Mode: 'o', HubsNormal: 91, HubsRegistered: 92, HubsOperator: 93, Slots: 94, Extra: map[string]string{"old": "old"}, Conn: "old", Flag: 'o', Email: "old", ShareSize: 95}
	err := got.UnmarshalNMDC(nil, []byte(line))
	c.Op()
	c.Checked()
	if c.Tracing() {
		c.Logf("%q -> %+v, %v", line, got, err)
	}
	if want == nil {
		c.Assert(err != nil, "malformed user info %q is accepted as %+v", line, got)
		c.StateS("refused")
		return
	}
	c.Assert(err == nil, "user info %q is refused: %v", line, err)
	c.Assert(miEqual(got, want), "user info %q is decoded as %+v, want %+v", line, got, want)
	m, err := nmdc.Unmarshal(nil, []byte("$MyINFO "+line+"|"))
	c.Op()
	c.Assert(err == nil, "user info %q is refused: %v", line, err)
	mi, ok := m.(*nmdc.MyINFO)
	c.Assert(ok && miEqual(mi, want), "user info %q is decoded as %+v, want %+v", line, m, want)
	c.StateS(fmt.Sprintf("%+v", want))
}

func init() {
	register("C28", []string{
		"a tag field that occurs twice is not specified",
		"a description that contains '<' in a line without a tag is not specified (it cannot be told from a tag)",
		"numbers with a sign are not specified; share sizes that are not numbers are read as zero (existing tests)",
		"client names that contain a comma are not specified",
	}, func(thorough bool) []S {
		k := 3
		if thorough {
			k = 5
		}
		tags := S{"tags", fmt.Sprintf("every client form x every sequence of <= %d tag fields (every kind at most once, empty fields allowed, every text of each) x closing bracket x legacy mode", k), func(c *C) {
			cl := -1
			first := c.Bool()
			var want nmdc.MyINFO
			want.Name, want.Desc, want.Conn, want.Flag, want.Email, want.ShareSize = "nick", "desc", "LAN(T3)", 'A', "a@b", 77
			var parts []string
			bad := false
			if first {
				cl = c.Choose(len(miClients))
				want.Client.Name, want.Client.Version = miClients[cl].name, miClients[cl].version
				parts = append(parts, miClients[cl].text)
			}
			used := make([]bool, len(miFields))
			n := c.Choose(k + 1)
			for i := 0; i < n; i++ {
				kind := c.Choose(len(miFields))
				if used[kind] {
					c.Skip()
				}
				used[kind] = true
				v := miFields[kind][c.Choose(len(miFields[kind]))]
				if i == 0 && !first {
					if v.text == "" {
						// nothing before the first comma
					} else if !strings.Contains(v.text, ":") {
						// it is the client
						want.Client.Name = v.text
						parts = append(parts, v.text)
						continue
					}
				}
				parts = append(parts, v.text)
				if v.bad {
					bad = true
				} else {
					v.set(&want)
				}
			}
			tag := strings.Join(parts, ",")
			end := ">"
			if tag != "" && c.Bool() {
				end = ""
			}
			legacy := pick(c, " ", "A", "P")
			line := "$ALL nick desc<" + tag + end + "$" + legacy + "$LAN(T3)A$a@b$77$"
			if bad {
				miDecode(c, line, nil)
			} else {
				miDecode(c, line, &want)
			}
		}}
		version := S{"version field", "the version as a field of its own, at every position among two other fields, in both letter cases", func(c *C) {
			want := nmdc.MyINFO{Name: "nick", Client: types.Software{Name: "cl", Version: "1.2"}, Mode: 'A', Slots: 9}
			fields := []string{"M:A", "S:9"}
			if c.Bool() {
				fields[0], fields[1] = fields[1], fields[0]
			}
			pos := c.Choose(3)
			v := pick(c, "V:", "v:") + "1.2"
			fields = append(fields[:pos:pos], append([]string{v}, fields[pos:]...)...)
			miDecode(c, "$ALL nick <cl,"+strings.Join(fields, ",")+">$ $$$$", &want)
		}}
		descs := [][2]string{{"", ""}, {"d", "d"}, {"a b ", "a b "}, {"d>", "d>"}, {"x: y, z", "x: y, z"}, {"M:P,H:9/9/9,S:99", "M:P,H:9/9/9,S:99"}, {"&#36;5", "$5"}, {"5&#124;6", "5|6"}, {"&amp;", "&"}, {"Ж", "Ж"}, {" V:2", " V:2"}}
		tagged := [][2]string{{"<b>bold", "<b>bold"}, {"a<b", "a<b"}, {"<++ V:1,M:P,H:1/1/1,S:1>", "<++ V:1,M:P,H:1/1/1,S:1>"}, {"<", "<"}}
		conns := [][2]string{{"", ""}, {"100", "100"}, {"0.005", "0.005"}, {"LAN(T1)", "LAN(T1)"}, {"a&#36;b", "a$b"}, {"BOT ", "BOT "}}
		mails := [][2]string{{"", ""}, {"a@b.c", "a@b.c"}, {"x&#36;y&#124;", "x$y|"}, {"mail (3.0.1)", "mail (3.0.1)"}, {"<M:A>", "<M:A>"}, {"12", "12"}}
		sizes := []struct {
			s string
			v uint64
		}{{"", 0}, {"0", 0}, {"1234", 1234}, {"18446744073709551615", 18446744073709551615}, {" 5 ", 5}}
		outer := S{"fields", "every combination of name, description, tag, legacy mode, connection, flag, e-mail and size texts", func(c *C) {
			var want nmdc.MyINFO
			name := pick(c, "nick", "[RU]n&#36;k", "-EA-<x>:")
			want.Name = strings.Replace(name, "&#36;", "$", 1)
			tag := pick(c, "", "<++ V:0.8,M:A,H:1/2/3,S:4>", "<x>")
			d := c.Choose(len(descs) + len(tagged))
			var dv [2]string
			if d >= len(descs) {
				if tag == "" {
					c.Skip()
				}
				dv = tagged[d-len(descs)]
			} else {
				dv = descs[d]
			}
			want.Desc = dv[1]
			mode := pick(c, " ", "A", "P", "5")
			switch tag {
			case "":
				if mode != " " {
					want.Mode = nmdc.UserMode(mode[0])
				}
			case "<x>":
				want.Client.Name = "x"
			default:
				want.Client = types.Software{Name: "++", Version: "0.8"}
				want.Mode, want.Slots = 'A', 4
				want.HubsNormal, want.HubsRegistered, want.HubsOperator = 1, 2, 3
			}
			cn := conns[c.Choose(len(conns))]
			flag := ""
			if cn[0] != "" || c.Bool() {
				flag = pick(c, "\x01", "A", " ", "\xff")
				want.Flag = nmdc.UserFlag(flag[0])
			}
			want.Conn = cn[1]
			ml := mails[c.Choose(len(mails))]
			want.Email = ml[1]
			sz := sizes[c.Choose(len(sizes))]
			want.ShareSize = sz.v
			miDecode(c, "$ALL "+name+" "+dv[0]+tag+"$"+mode+"$"+cn[0]+flag+"$"+ml[0]+"$"+sz.s+"$", &want)
		}}
		flags := S{"flags", "every flag and mode byte, in the tag, in the legacy mode and after the connection", func(c *C) {
			b := byte(c.Choose(256))
			if b == '$' || b == '|' || b == 0 {
				c.Skip()
			}
			var want nmdc.MyINFO
			want.Name = "n"
			set := func() {
				if b != ' ' {
					want.Mode = nmdc.UserMode(b)
				}
			}
			switch c.Choose(4) {
			case 0:
				want.Flag = nmdc.UserFlag(b)
				miDecode(c, "$ALL n $ $"+string([]byte{b})+"$$$", &want)
			case 1:
				want.Flag, want.Conn = nmdc.UserFlag(b), "AA"
				miDecode(c, "$ALL n $ $AA"+string([]byte{b})+"$$$", &want)
			case 2:
				set()
				miDecode(c, "$ALL n $"+string([]byte{b})+"$$$$", &want)
			case 3:
				if b == ',' || b == '<' {
					c.Skip()
				}
				set()
				want.Client.Name = "x"
				miDecode(c, "$ALL n <x,M:"+string([]byte{b})+",>$A$$$$", &want)
			}
		}}
		good := "$ALL nick desc<++ V:1,M:A,H:1/2/3,S:4>$ $LAN1$mail$5$"
		malformed := S{"malformed", "every removal, doubling or replacement (by a letter) of each structural character of a complete line, wrong prefixes, empty tags and long legacy modes", func(c *C) {
			switch c.Choose(3) {
			case 0:
				var at []int
				for i, r := range good {
					if r == '$' && i > 0 {
						at = append(at, i)
					}
				}
				i := at[c.Choose(len(at))]
				switch c.Choose(3) {
				case 0:
					miDecode(c, good[:i]+good[i+1:], nil)
				case 1:
					miDecode(c, good[:i]+"$"+good[i:], nil)
				case 2:
					miDecode(c, good[:i]+"x"+good[i+1:], nil)
				}
			case 1:
				miDecode(c, pick(c, "", "$", "$ALL", "$ALL ", "$ALL nick", "$ALL nick ", "ALL nick desc$ $A$$5$", "$all nick desc$ $A$$5$", "$ALLnick desc$ $A$$5$", "nick desc$ $A$$5$"), nil)
			case 2:
				miDecode(c, pick(c,
					"$ALL nick desc<$ $A$$5$",
					"$ALL nick <$A$A$$5$",
					"$ALL nick desc$$A$$5$",
					"$ALL nick desc$AA$A$$5$",
					"$ALL nick desc<x>$$A$$5$",
					"$ALL nick desc<x>$  $A$$5$",
				), nil)
			}
		}}
		return []S{tags, version, outer, flags, malformed}
	})
}
