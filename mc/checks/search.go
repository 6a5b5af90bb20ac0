package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
)

// C29: search requests and results. The reference builds lines from parts.

var shTTH = tiger.Hash(refTiger([]byte("c29")))

// nesc is the escaping of texts inside NMDC messages (reference).
func nesc(s string) string {
	s = strings.Replace(s, "&", "&amp;", -1)
	s = strings.Replace(s, "$", "&#36;", -1)
	return strings.Replace(s, "|", "&#124;", -1)
}

// nameOK: names with a dollar are understood, but never sent.
func nameOK(names ...string) bool { return !strings.Contains(strings.Join(names, ""), "$") }

func shEqual(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// shDecode decodes an argument into a new and a used message and, as a whole
// line, through the registry; then, for lines in the canonical form, encodes it.
func shDecode(c *C, typ, line string, want nmdc.Message, canonical bool) {
	got := nmdc.NewMessage(typ)
	used := nmdc.NewMessage(typ)
	switch u := used.(type) {
	case *nmdc.Search:
		*u = nmdc.Search{Address: "old", User: "old", SizeRestricted: true, IsMaxSize: true, Size: 9, DataType: 9, Pattern: "old", TTH: new(tiger.Hash)}
	case *nmdc.SR:
		*u = nmdc.SR{From: "old", Path: []string{"old"}, IsDir: true, Size: 9, FreeSlots: 9, TotalSlots: 9, HubName: "old", TTH: new(tiger.Hash), HubAddress: "old", To: "old"}
	case *nmdc.TTHSearchActive:
		*u = nmdc.TTHSearchActive{TTH: tiger.Hash{1}, Address: "old"}
	case *nmdc.TTHSearchPassive:
		*u = nmdc.TTHSearchPassive{TTH: tiger.Hash{1}, User: "old"}
	}
	err := got.UnmarshalNMDC(nil, []byte(line))
	err2 := used.UnmarshalNMDC(nil, []byte(line))
	c.Ops(2)
	c.Checked()
	if c.Tracing() {
		c.Logf("%s %q -> %+v, %v", typ, line, got, err)
	}
	if want == nil {
		c.Assert(err != nil && err2 != nil, "malformed %s %q is accepted as %+v", typ, line, got)
		c.StateS("refused")
		return
	}
	c.Assert(err == nil && err2 == nil, "%s %q is refused: %v, %v", typ, line, err, err2)
	c.Assert(shEqual(got, want), "%s %q is decoded as %+v, want %+v", typ, line, got, want)
	c.Assert(shEqual(used, want), "%s %q is decoded into a used message as %+v, want %+v", typ, line, used, want)
	if canonical {
		var buf bytes.Buffer
		err := got.MarshalNMDC(nil, &buf)
		c.Op()
		c.Assert(err == nil && buf.String() == line, "%s %+v is encoded as %q, %v, want %q", typ, got, buf.String(), err, line)
	}
	c.StateS(line)
}

type shsize struct {
	t1, t2     string
	text       string
	canonical  bool
	bad        bool
	restricted bool
	max        bool
	size       uint64
}

var shSizes = []shsize{
	{"F", "T", "0", true, false, false, true, 0},
	{"F", "F", "0", false, false, false, false, 0},
	{"F", "T", "25", true, false, false, true, 25},
	{"T", "T", "0", true, false, true, true, 0},
	{"T", "F", "1", true, false, true, false, 1},
	{"T", "T", "18446744073709551615", true, false, true, true, 18446744073709551615},
	{"T", "F", "-1", false, false, false, false, 0},
	{"T", "T", "-1", false, false, false, true, 0},
	{"T", "F", " 7 ", false, false, true, false, 7},
	{"T", "F", "007", false, false, true, false, 7},
	{"T", "F", "x", false, true, false, false, 0},
	{"T", "F", "1x", false, true, false, false, 0},
	{"T", "F", "-x", false, true, false, false, 0},
	{"T", "F", "18446744073709551616", false, true, false, false, 0},
	{"T", "F", "1.5", false, true, false, false, 0},
	{"T", "", "1", false, true, false, false, 0},
	{"", "T", "1", false, true, false, false, 0},
	{"X", "T", "1", false, true, false, false, 0},
	{"T", "X", "1", false, true, false, false, 0},
	{"TT", "F", "1", false, true, false, false, 0},
	{"T", "FF", "1", false, true, false, false, 0},
	{"t", "F", "1", false, true, false, false, 0},
	{"T", "f", "1", false, true, false, false, 0},
	{"1", "F", "1", false, true, false, false, 0},
}

func init() {
	register("C29", []string{
		"the size direction of a request without a size limit is not specified beyond what the line says",
		"an empty size field of a request is not specified",
		"elements of a result path do not contain the path separator; a name element is a piece between two separators",
		"addresses are texts without spaces and parentheses",
	}, func(thorough bool) []S {
		pl, hl := 6, 5
		if thorough {
			pl, hl = 8, 6
		}
		hash := shTTH.String()
		froms := []struct{ text, addr, user string }{
			{"1.2.3.4:412", "1.2.3.4:412", ""}, {"[2001:db8::1]:412", "[2001:db8::1]:412", ""}, {"hub:412", "hub:412", ""},
			{"Hub:nick", "", "nick"}, {"Hub:Hub:x?T", "", "Hub:x?T"}, {"Hub:n&#36;k&#124;", "", "n$k|"},
		}
		reqs := S{"requests", "every sender form x size limit form x data type (0-14, non-numbers) x pattern or hash form", func(c *C) {
			f := froms[c.Choose(len(froms))]
			s := shSizes[c.Choose(len(shSizes))]
			ti := c.Choose(18)
			types := []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "", "x", "-1"}
			m := &nmdc.Search{Address: f.addr, User: f.user, SizeRestricted: s.restricted, IsMaxSize: s.max, Size: s.size, DataType: nmdc.DataType(ti)}
			bad := s.bad || ti > 14
			canon := s.canonical && ti != 0 && nameOK(f.user)
			var pat string
			if ti == 9 {
				switch c.Choose(13) {
				case 9:
					pat, bad = "TTH:"+hash+"$$", true
				case 10:
					pat, bad = "TTH:$"+hash, true
				case 11:
					pat, bad = "TTH:"+hash+" ", true
				case 12:
					pat, bad = "TTH:"+hash[:38]+"$", true
				case 0:
					pat = "TTH:" + hash
				case 1:
					pat, canon = "TTH:"+hash+"$", false
				case 2:
					pat, bad = hash, true
				case 3:
					pat, bad = "TTH:"+hash[1:], true
				case 4:
					pat, bad = "TTH:"+hash+"A", true
				case 5:
					pat, bad = "", true
				case 6:
					pat, bad = "TTH:", true
				case 7:
					pat, bad = "text", true
				case 8:
					pat, bad = "TTH:1"+hash[1:], true
				}
				t := shTTH
				m.TTH = &t
			} else {
				p := pick(c, "", "word", "two words", " lead", "trail ", "a  b", "what?", "??T?F?", "TTH:"+hash, "$", "a$b c|d", "&", "Ж é")
				pat = strings.Replace(nesc(p), " ", "$", -1)
				m.Pattern = p
			}
			line := f.text + " " + s.t1 + "?" + s.t2 + "?" + s.text + "?" + types[ti] + "?" + pat
			if bad {
				shDecode(c, "Search", line, nil, false)
			} else {
				shDecode(c, "Search", line, m, canon)
			}
		}}
		pats := S{"patterns", fmt.Sprintf("every pattern of <= %d characters over {space, dollar, bar, ?, &, ;, a, #}, in both directions", hl+1), func(c *C) {
			p := chooseStr(c, " $|?&;a#", 0, hl+1)
			m := &nmdc.Search{Address: "1.2.3.4:1", SizeRestricted: true, Size: 3, DataType: 1, Pattern: p}
			shDecode(c, "Search", "1.2.3.4:1 T?F?3?1?"+strings.Replace(nesc(p), " ", "$", -1), m, true)
			if !strings.Contains(p, "&") || !strings.ContainsAny(p, "$|#;") {
				// ampersands that do not start a character reference are sent as they are by some clients
				raw := strings.Replace(strings.Replace(nesc(p), " ", "$", -1), "&amp;", "&", -1)
				shDecode(c, "Search", "1.2.3.4:1 T?F?3?1?"+raw, m, false)
			}
		}}
		tail := "F?T?0?1?a"
		badreq := S{"malformed requests", "every request cut anywhere before its last mandatory separator, or with a mandatory separator missing", func(c *C) {
			line := pick(c, "1.2.3.4:5 ", "Hub:n ") + tail
			if c.Bool() {
				n := strings.LastIndexByte(line, '?')
				shDecode(c, "Search", line[:c.Choose(n)], nil, false)
				return
			}
			var at []int
			for i := range line {
				if line[i] == '?' || line[i] == ' ' {
					at = append(at, i)
				}
			}
			i := at[c.Choose(len(at))]
			shDecode(c, "Search", line[:i]+pick(c, "", "x", ":")+line[i+1:], nil, false)
		}}
		// results
		type srv struct {
			dir, tth, to bool
			free, total  int
			size         uint64
		}
		build := func(m *nmdc.SR) string {
			line := nesc(m.From) + " " + nesc(strings.Join(m.Path, `\`))
			if !m.IsDir {
				line += "\x05" + strconv.FormatUint(m.Size, 10)
			}
			line += fmt.Sprintf(" %d/%d\x05", m.FreeSlots, m.TotalSlots)
			if m.TTH != nil {
				line += "TTH:" + hash
			} else {
				line += nesc(m.HubName)
			}
			line += " (" + m.HubAddress + ")"
			if m.To != "" {
				line += "\x05" + nesc(m.To)
			}
			return line
		}
		variant := func(c *C, m *nmdc.SR) {
			if c.Bool() {
				m.IsDir = true
			} else {
				m.Size = 10
			}
			if c.Bool() {
				t := shTTH
				m.TTH = &t
				m.HubName = ""
			}
			if c.Bool() {
				m.To = "to"
			}
		}
		paths := S{"paths", fmt.Sprintf("every path of <= %d characters over {space, /, \\, digit, letter, parentheses, $}, for files and directories, with hub name or hash, with and without recipient", pl), func(c *C) {
			p := chooseStr(c, " /\\1a($", 0, pl)
			m := &nmdc.SR{From: "from", Path: strings.Split(p, `\`), FreeSlots: 3, TotalSlots: 4, HubName: "hub", HubAddress: "1.2.3.4:411"}
			variant(c, m)
			shDecode(c, "SR", build(m), m, true)
		}}
		slotpaths := S{"slot-like paths", "every concatenation of <= 3 tokens that look like other parts of a result, as the path", func(c *C) {
			toks := []string{" 1/2", "1/2", " ", "/", "9", " (1.2.3.4)", "TTH:" + hash, "\\", "a", ")", "&", "Ж"}
			p := ""
			for i, n := 0, c.Choose(4); i < n; i++ {
				p += toks[c.Choose(len(toks))]
			}
			m := &nmdc.SR{From: "from", Path: strings.Split(p, `\`), FreeSlots: pickInt(c, 0, 12), TotalSlots: pickInt(c, 0, 34), HubName: pick(c, "hub", "", "1/2", " 1/2 (x"), HubAddress: pick(c, "1.2.3.4:411", "", "[::1]:411")}
			variant(c, m)
			shDecode(c, "SR", build(m), m, true)
		}}
		hubs := S{"hub names", fmt.Sprintf("every hub name of <= %d characters over {space, parentheses, /, digit, letter, |, \\}", hl+1), func(c *C) {
			h := chooseStr(c, " ()/1a|\\", 0, hl+1)
			m := &nmdc.SR{From: pick(c, "from", "1/2", "(f)"), Path: []string{"p 1/2"}, FreeSlots: 3, TotalSlots: 4, HubName: h, HubAddress: "1.2.3.4:411"}
			variant(c, m)
			if m.TTH != nil {
				c.Skip()
			}
			shDecode(c, "SR", build(m), m, true)
		}}
		names := S{"names", "every sender and recipient of <= 3 characters over {(, ), /, digit, letter, $, |, \\, :}, and every size form", func(c *C) {
			n1, n2 := chooseStr(c, "()/1a$|\\:", 1, 3), pick(c, "to", "(x)", "1/2", "$|", `\`, "TTH:")
			if c.Bool() {
				n1, n2 = n2, n1
			}
			m := &nmdc.SR{From: n1, Path: []string{"d", "f"}, FreeSlots: 3, TotalSlots: 4, HubName: "hub", HubAddress: "1.2.3.4:411"}
			variant(c, m)
			if m.To != "" {
				m.To = n2
			}
			if !m.IsDir {
				m.Size = []uint64{0, 10, 18446744073709551615}[c.Choose(3)]
			}
			shDecode(c, "SR", build(m), m, nameOK(m.From, m.To))
		}}
		badres := S{"malformed results", "every result cut at every point before its last mandatory part, every mandatory separator removed or replaced, and bad numbers and hashes", func(c *C) {
			m := &nmdc.SR{From: "from", Path: []string{"d", "f"}, FreeSlots: 3, TotalSlots: 4, HubName: "hub", HubAddress: "1.2.3.4:411"}
			variant(c, m)
			line := build(m)
			end := strings.IndexByte(line, ')')
			switch c.Choose(3) {
			case 0:
				shDecode(c, "SR", line[:c.Choose(end+1)], nil, false)
			case 1:
				// one separator at a time
				var at []int
				for i := range line[:end+1] {
					switch line[i] {
					case '/', '\x05', '(', ')':
						at = append(at, i)
					case ' ':
						at = append(at, i)
					}
				}
				i := at[c.Choose(len(at))]
				if line[i] == ' ' && i < strings.IndexByte(line, 'd') {
					// the end of the sender: the rest has another space
					c.Skip()
				}
				if !m.IsDir && i == strings.IndexByte(line, 5) {
					// this is a well-formed directory
					c.Skip()
				}
				bad := line[:i] + pick(c, "", "x") + line[i+1:]
				shDecode(c, "SR", bad, nil, false)
			case 2:
				old, repl := "3/4", pick(c, "x/4", "3/x", "/4", "3/", "/", "3/4/5", "3.5/4", "34")
				if c.Bool() {
					if m.IsDir {
						c.Skip()
					}
					old, repl = "\x0510 ", "\x05"+pick(c, "", "x", "1x", "-1", "1.5", "18446744073709551616")+" "
				} else if c.Bool() {
					if m.TTH == nil {
						c.Skip()
					}
					old, repl = hash, pick(c, "", hash[1:], hash+"A", "1"+hash[1:], strings.ToLower(hash[:38])+"!")
				}
				shDecode(c, "SR", strings.Replace(line, old, repl, 1), nil, false)
			}
		}}
		short := S{"hash searches", "SA and SP with every address or name of <= 4 characters and every malformed hash or separator", func(c *C) {
			sp := c.Bool()
			typ := "SA"
			if sp {
				typ = "SP"
			}
			if c.Bool() {
				line := pick(c, "", hash, hash[1:]+" x", hash+"x", hash+"A x", "1"+hash[1:]+" x", hash[:38]+"! x", " x", "TTH:"+hash+" x")
				shDecode(c, typ, line, nil, false)
				return
			}
			a := chooseStr(c, "1.:[]/a?", 1, 4)
			if sp {
				shDecode(c, typ, hash+" "+nesc(a), &nmdc.TTHSearchPassive{TTH: shTTH, User: a}, nameOK(a))
			} else {
				shDecode(c, typ, hash+" "+a, &nmdc.TTHSearchActive{TTH: shTTH, Address: a}, true)
			}
		}}
		return []S{reqs, pats, badreq, paths, slotpaths, hubs, names, badres, short}
	})
}
