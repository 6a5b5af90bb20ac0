package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	adctypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/types"
)

// More scenarios: values that the protocols assign to names, messages defined
// by users of the ADC codec, the typed ADC reads, and small helpers.

func init() {
	extend("C09", func(thorough bool) []S { return []S{nmdcNames()} })
	extend("C17", func(thorough bool) []S {
		n := 2
		if thorough {
			n = 3
		}
		return []S{adcNames(), adcOwn(n), adcOwnUnsigned(), adcOwnBad()}
	})
	extend("C16", func(thorough bool) []S { return []S{adcTyped(thorough)} })
	extend("C21", func(thorough bool) []S { return []S{newPIDs()} })
	extend("C28", func(thorough bool) []S { return []S{userFlags()} })
}

// nmdcNames: the constants of the package are what the protocol calls them.
func nmdcNames() S {
	uc := func(t nmdc.UCmdType, x nmdc.UCmdContext) nmdc.Message { return &nmdc.UserCommand{Typ: t, Context: x} }
	se := func(t nmdc.DataType) nmdc.Message {
		return &nmdc.Search{Address: "h:1", DataType: t, Pattern: "x"}
	}
	mi := func(m nmdc.UserMode, f nmdc.UserFlag) nmdc.Message {
		return &nmdc.MyINFO{Name: "n", Client: types.Software{Name: "c", Version: "1"}, Mode: m, Flag: f}
	}
	type nv struct {
		m    nmdc.Message
		want string
	}
	var l []nv
	for i, t := range []nmdc.UCmdType{nmdc.TypeSeparator, nmdc.TypeRaw, nmdc.TypeRawNickLimited} {
		l = append(l, nv{uc(t, 1), fmt.Sprintf("$UserCommand %d 1|", i)})
	}
	l = append(l, nv{uc(nmdc.TypeErase, 1), "$UserCommand 255 1|"})
	for i, x := range []nmdc.UCmdContext{nmdc.ContextHub, nmdc.ContextUser, nmdc.ContextSearch, nmdc.ContextFileList} {
		l = append(l, nv{uc(1, x), fmt.Sprintf("$UserCommand 1 %d|", 1<<uint(i))})
	}
	for i, t := range []nmdc.DataType{nmdc.DataTypeAny, nmdc.DataTypeAudio, nmdc.DataTypeCompressed, nmdc.DataTypeDocument, nmdc.DataTypeExecutable, nmdc.DataTypePicture, nmdc.DataTypeVideo, nmdc.DataTypeFolders, nmdc.DataTypeTTH, nmdc.DataTypeDiskImage, nmdc.DataTypeComics, nmdc.DataTypeBook, nmdc.DataTypeMagnet} {
		if t == nmdc.DataTypeTTH {
			tth := nmdc.TTH(hashes[0])
			l = append(l, nv{&nmdc.Search{Address: "h:1", DataType: t, TTH: &tth}, "$Search h:1 F?T?0?9?TTH:" + b32(hashes[0][:]) + "|"})
			continue
		}
		l = append(l, nv{se(t), fmt.Sprintf("$Search h:1 F?T?0?%d?x|", i+1)})
	}
	for i, f := range []nmdc.UserFlag{nmdc.FlagStatusNormal, nmdc.FlagStatusAway, nmdc.FlagStatusServer, nmdc.FlagStatusFireball, nmdc.FlagTLSDownload, nmdc.FlagTLSUpload, nmdc.FlagIPv4, nmdc.FlagIPv6} {
		l = append(l, nv{mi('A', f), "$MyINFO $ALL n <c V:1,M:A,H:0/0/0,S:0>$ $" + string([]byte{1 << uint(i)}) + "$$0$|"})
	}
	l = append(l, nv{mi('A', nmdc.FlagTLS), "$MyINFO $ALL n <c V:1,M:A,H:0/0/0,S:0>$ $\x30$$0$|"})
	for i, m := range []nmdc.UserMode{nmdc.UserModeActive, nmdc.UserModePassive, nmdc.UserModeSOCKS5} {
		l = append(l, nv{mi(m, 1), "$MyINFO $ALL n <c V:1,M:" + "AP5"[i:i+1] + ",H:0/0/0,S:0>$ $\x01$$0$|"})
	}
	exts := map[string]string{
		"NoHello": nmdc.ExtNoHello, "NoGetINFO": nmdc.ExtNoGetINFO, "UserCommand": nmdc.ExtUserCommand, "UserIP2": nmdc.ExtUserIP2,
		"TTHSearch": nmdc.ExtTTHSearch, "ZPipe0": nmdc.ExtZPipe0, "TLS": nmdc.ExtTLS, "ADCGet": nmdc.ExtADCGet, "BotINFO": nmdc.ExtBotINFO,
		"HubINFO": nmdc.ExtHubINFO, "HubTopic": nmdc.ExtHubTopic, "BotList": nmdc.ExtBotList, "IN": nmdc.ExtIN, "MCTo": nmdc.ExtMCTo,
		"NickChange": nmdc.ExtNickChange, "ClientNick": nmdc.ExtClientNick, "FeaturedNetworks": nmdc.ExtFeaturedNetworks, "GetZBlock": nmdc.ExtGetZBlock,
		"ClientID": nmdc.ExtClientID, "XmlBZList": nmdc.ExtXmlBZList, "Minislots": nmdc.ExtMinislots, "TTHL": nmdc.ExtTTHL, "TTHF": nmdc.ExtTTHF,
		"TTHS": nmdc.ExtTTHS, "ZLIG": nmdc.ExtZLIG, "ACTM": nmdc.ExtACTM, "BZList": nmdc.ExtBZList, "SaltPass": nmdc.ExtSaltPass, "DHT0": nmdc.ExtDHT0,
		"FailOver": nmdc.ExtFailOver, "OpPlus": nmdc.ExtOpPlus, "QuickList": nmdc.ExtQuickList, "BanMsg": nmdc.ExtBanMsg, "NickRule": nmdc.ExtNickRule,
		"SearchRule": nmdc.ExtSearchRule, "ExtJSON2": nmdc.ExtExtJSON2, "Locale": nmdc.ExtLocale,
	}
	var keys []string
	for k := range exts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l = append(l, nv{&nmdc.Supports{Ext: []string{exts[k]}}, "$Supports " + k + "|"})
	}
	return S{"names", "every constant of the protocol (types, contexts, data types, flags, modes, extensions), encoded where it belongs", func(c *C) {
		for _, x := range l {
			b, err := nmdc.Marshal(nil, x.m)
			c.Op()
			c.Checked()
			c.Assert(err == nil && string(b) == x.want, "%s encodes to %q (%v), specified %q", dumpMsg(x.m), b, err, x.want)
			c.StateS(x.want)
		}
		for _, x := range [][2]string{{nmdc.SchemeNMDC, "dchub"}, {nmdc.SchemeNMDCS, "nmdcs"}, {adc.SchemaADC, "adc"}, {adc.SchemaADCS, "adcs"}, {fmt.Sprint(nmdc.DefaultPort), "411"}, {fmt.Sprint(nmdc.DefaultKeyMagic), "5"}, {string(rune(nmdc.Delimiter)), "|"}} {
			c.Assert(x[0] == x[1], "protocol constant is %q, want %q", x[0], x[1])
		}
	}}
}

func adcNames() S {
	return S{"names", "every constant of the protocol (command names, features, severities, categories) and the accessors of flags, errors and user agents", func(c *C) {
		enc := func(m adc.Message) string {
			var b bytes.Buffer
			c.Op()
			c.Checked()
			err := adc.Marshal(&b, m)
			c.Assert(err == nil, "%s: %v", dump(m), err)
			return b.String()
		}
		for want, m := range map[string]adc.Message{
			"INF": adc.UserInfo{}, "MSG": adc.ChatMessage{}, "CTM": adc.ConnectRequest{}, "RCM": adc.RevConnectRequest{}, "GET": adc.GetRequest{}, "SND": adc.GetResponse{},
			"GFI": adc.GetInfoRequest{}, "SID": adc.SIDAssign{}, "CMD": adc.UserCommand{}, "GPA": adc.GetPassword{}, "PAS": adc.Password{}, "QUI": adc.Disconnect{},
			"SUP": adc.Supported{}, "STA": adc.Status{}, "SCH": adc.SearchRequest{}, "RES": adc.SearchResult{}, "ZON": adc.ZOn{}, "ZOF": adc.ZOff{},
		} {
			cmd := m.Cmd()
			c.Assert(string(cmd[:]) == want && cmd.String() == want, "%T has the command %q, want %q", m, cmd[:], want)
		}
		hi, um := adc.HubInfo{}.Cmd(), adc.UserInfoMod{}.Cmd()
		c.Assert(hi.String() == "INF" && um.String() == "INF", "info commands %v %v", hi, um)
		for want, f := range map[string]adc.Feature{
			"BASE": adc.FeaBASE, "BAS0": adc.FeaBAS0, "TIGR": adc.FeaTIGR, "PING": adc.FeaPING, "ONID": adc.FeaONID, "BZIP": adc.FeaBZIP, "TS00": adc.FeaTS,
			"ZLIF": adc.FeaZLIF, "ZLIG": adc.FeaZLIG, "SEGA": adc.FeaSEGA, "UCMD": adc.FeaUCMD, "UCM0": adc.FeaUCM0, "ADCS": adc.FeaADCS, "ADC0": adc.FeaADC0,
			"NAT0": adc.FeaNAT0, "ASCH": adc.FeaASCH, "SUD1": adc.FeaSUD1, "SUDP": adc.FeaSUDP, "CCPM": adc.FeaCCPM, "BLO0": adc.FeaBLO0, "SIPR": adc.FeaSIPR,
			"TCP4": adc.FeaTCP4, "TCP6": adc.FeaTCP6, "UDP4": adc.FeaUDP4, "UDP6": adc.FeaUDP6,
		} {
			c.Assert(f.String() == want, "feature %s is %q", want, f.String())
			got := enc(adc.Supported{Features: adc.ModFeatures{f: true}})
			c.Assert(got == "AD"+want, "feature %s encodes to %q", want, got)
		}
		for i, s := range []adc.Severity{adc.Success, adc.Recoverable, adc.Fatal} {
			c.Assert(enc(adc.Status{Sev: s, Code: 7, Msg: "m"}) == fmt.Sprintf("%d07 m", i), "severity %d", i)
		}
		for i, k := range []adc.Category{adc.CategoryHub, adc.CategoryUser, adc.CategorySearch, adc.CategoryFileList} {
			got := enc(adc.UserCommand{Path: adc.Path{"p"}, Category: k})
			c.Assert(got == fmt.Sprintf("p CT%d", 1<<uint(i)), "category %d encodes to %q", i, got)
		}
		c.StateS("names")
		c.Assert(adc.ProtoADC == "ADC/1.0" && adc.ProtoADCS == "ADCS/0.10" && adc.FileListBZIP == "files.xml.bz2", "protocol names")
		// flags
		for i, t := range []adc.UserType{adc.UserTypeBot, adc.UserTypeRegistered, adc.UserTypeOperator, adc.UserTypeSuperUser, adc.UserTypeHubOwner, adc.UserTypeHub, adc.UserTypeHidden} {
			c.Assert(t == 1<<uint(i), "user type %d is %d", i, t)
		}
		for t := adc.UserType(0); t < 256; t++ {
			for i := uint(0); i < 8; i++ {
				c.Assert(t.Is(1<<i) == (t>>i&1 == 1), "%d.Is(%d) is %v", t, 1<<i, t.Is(1<<i))
			}
		}
		// user agents
		for _, app := range []string{"", "app"} {
			for _, ver := range []string{"", "1", "++ 1", "a b 1.2", " 1", "1 "} {
				u := adc.UserInfo{Application: app, Version: ver, Name: "n", ShareSize: 5}
				want := u
				if i := strings.LastIndex(ver, " "); app == "" && i >= 0 {
					want.Application, want.Version = ver[:i], ver[i+1:]
				}
				u.Normalize()
				c.Assert(dump(u) == dump(want), "application %q version %q normalise to %q %q", app, ver, u.Application, u.Version)
			}
		}
		for code := 0; code < 100; code++ {
			st := adc.Status{Sev: adc.Fatal, Code: code, Msg: "text"}
			err := st.Err()
			if code == 51 {
				c.Assert(errors.Is(err, os.ErrNotExist), "error of %v is %v", st, err)
				continue
			}
			var e adc.Error
			switch x := err.(type) {
			case adc.Error:
				e = x
			case *adc.Error:
				e = *x
			default:
				c.Fail("status error is %T", err)
			}
			c.Assert(e.Status == st && strings.Contains(err.Error(), "text") && strings.Contains(err.Error(), strconv.Itoa(code)), "error of %v is %v", st, err)
		}
	}}
}

// ownMsg is a message defined by an application, with every kind of field the codec supports.
type ownMsg struct {
	Pos    string `adc:"#"`
	PosNum int16  `adc:"#"`
	Text   string `adc:"TX"`
	TextR  string `adc:"TR,req"`
	Num    int32  `adc:"NU"`
	NumR   int64  `adc:"NR,req"`
	Not    string `adc:"-"`
	Not2   string
	Flag   bool            `adc:"FL"`
	FlagR  bool            `adc:"FR,req"`
	Bool   adc.BoolInt     `adc:"BO"`
	BoolR  adc.BoolInt     `adc:"BR,req"`
	PText  *string         `adc:"PT"`
	PNum   *int32          `adc:"PN"`
	PBool  *bool           `adc:"PB"`
	List   []string        `adc:"LI"`
	Nums   []int64         `adc:"LN"`
	Flags  []bool          `adc:"LF"`
	Path   adc.Path        `adc:"PA"`
	ID     adctypes.SID    `adc:"ID"`
	IDs    []adctypes.SID  `adc:"IS"`
	Feats  adc.ExtFeatures `adc:"SU"`
	Str    adc.String      `adc:"ST"`
}

func (ownMsg) Cmd() adc.MsgType { return adc.MsgType{'Z', 'O', 'W'} }

type ownField struct {
	tag string
	req bool // the first value is sent as well
	set []func(m *ownMsg) []string
}

func ownFields() []ownField {
	var out []ownField
	add := func(tag string, req bool, vals ...func(m *ownMsg) []string) {
		out = append(out, ownField{tag, req, vals})
	}
	str := func(set func(m *ownMsg, s string)) []func(m *ownMsg) []string {
		var l []func(m *ownMsg) []string
		for _, s := range []string{"", "a b", "\\", "\n", "1", "\\s", "é"} {
			s := s
			l = append(l, func(m *ownMsg) []string { set(m, s); return []string{refADC(s)} })
		}
		return l
	}
	num := func(bits uint, set func(m *ownMsg, n int64)) []func(m *ownMsg) []string {
		var l []func(m *ownMsg) []string
		for _, n := range []int64{0, 1, -1, 1<<(bits-1) - 1, -1 << (bits - 1)} {
			n := n
			l = append(l, func(m *ownMsg) []string { set(m, n); return []string{strconv.FormatInt(n, 10)} })
		}
		return l
	}
	flag := func(set func(m *ownMsg, b bool)) []func(m *ownMsg) []string {
		return []func(m *ownMsg) []string{
			func(m *ownMsg) []string { set(m, false); return []string{"0"} },
			func(m *ownMsg) []string { set(m, true); return []string{"1"} },
		}
	}
	none := func(m *ownMsg) []string { return nil }
	p := func(f func(m *ownMsg), enc ...string) func(m *ownMsg) []string {
		return func(m *ownMsg) []string { f(m); return enc }
	}
	add("#", true, str(func(m *ownMsg, s string) { m.Pos = s })...)
	add("#", true, num(16, func(m *ownMsg, n int64) { m.PosNum = int16(n) })...)
	add("TX", false, str(func(m *ownMsg, s string) { m.Text = s })...)
	add("TR", true, str(func(m *ownMsg, s string) { m.TextR = s })...)
	add("NU", false, num(32, func(m *ownMsg, n int64) { m.Num = int32(n) })...)
	add("NR", true, num(64, func(m *ownMsg, n int64) { m.NumR = n })...)
	add("FL", false, flag(func(m *ownMsg, b bool) { m.Flag = b })...)
	add("FR", true, flag(func(m *ownMsg, b bool) { m.FlagR = b })...)
	add("BO", false, flag(func(m *ownMsg, b bool) { m.Bool = adc.BoolInt(b) })...)
	add("BR", true, flag(func(m *ownMsg, b bool) { m.BoolR = adc.BoolInt(b) })...)
	add("PT", false, none, p(func(m *ownMsg) { s := "a b"; m.PText = &s }, `a\sb`), p(func(m *ownMsg) { s := "0"; m.PText = &s }, `0`))
	add("PN", false, none, p(func(m *ownMsg) { n := int32(0); m.PNum = &n }, `0`), p(func(m *ownMsg) { n := int32(-1 << 31); m.PNum = &n }, `-2147483648`))
	add("PB", false, none, p(func(m *ownMsg) { b := false; m.PBool = &b }, `0`), p(func(m *ownMsg) { b := true; m.PBool = &b }, `1`))
	add("LI", false, none, p(func(m *ownMsg) { m.List = []string{""} }, ""), p(func(m *ownMsg) { m.List = []string{"a", "", "b c"} }, "a", "", `b\sc`))
	add("LN", false, none, p(func(m *ownMsg) { m.Nums = []int64{0} }, "0"), p(func(m *ownMsg) { m.Nums = []int64{-1 << 63, 5, 1<<63 - 1} }, "-9223372036854775808", "5", "9223372036854775807"))
	add("LF", false, none, p(func(m *ownMsg) { m.Flags = []bool{true, false} }, "1", "0"))
	add("PA", false, none, p(func(m *ownMsg) { m.Path = adc.Path{"a b"} }, `a\sb`), p(func(m *ownMsg) { m.Path = adc.Path{"a", "", "\\c"} }, `a//\\c`))
	add("ID", false, none, p(func(m *ownMsg) { m.ID = sid("ABCD") }, "ABCD"))
	add("IS", false, none, p(func(m *ownMsg) { m.IDs = []adctypes.SID{sid("ABCD"), sid("7777")} }, "ABCD", "7777"))
	add("SU", false, none, p(func(m *ownMsg) { m.Feats = adc.ExtFeatures{adc.FeaTCP4} }, "TCP4"), p(func(m *ownMsg) { m.Feats = adc.ExtFeatures{adc.FeaTCP4, adc.FeaUDP4} }, "TCP4,UDP4"))
	sf := str(func(m *ownMsg, s string) { m.Str = adc.String(s) })
	add("ST", false, sf...)
	return out
}

// ownBuild sets the k-th field to its v-th value (k -> v; others to their first).
func ownBuild(vals []int) (*ownMsg, []string) {
	m := &ownMsg{}
	var toks []string
	for i, f := range ownFields() {
		for _, e := range f.set[vals[i]](m) {
			if vals[i] == 0 && !f.req {
				break
			}
			if f.tag == "#" {
				toks = append(toks, e)
			} else {
				toks = append(toks, f.tag+e)
			}
		}
	}
	return m, toks
}

func adcOwn(dev int) S {
	return S{"own", fmt.Sprintf("a message type of the application with 21 fields of every kind (numbers, flags, pointers, lists, values with a codec of their own): up to %d fields differ from their zero value, or from a full message; as value and pointer; fields in both orders", dev), func(c *C) {
		fs := ownFields()
		c.SetDeviations(dev)
		full := c.Bool()
		vals := make([]int, len(fs))
		for i, f := range fs {
			d := 0
			if full {
				d = len(f.set) - 1
			}
			vals[i] = (d + c.Dev(len(f.set))) % len(f.set)
		}
		m, toks := ownBuild(vals)
		want := strings.Join(toks, " ")
		m.Not, m.Not2 = "hidden", "hidden"
		before := dump(*m)
		for _, v := range []adc.Message{*m, m} {
			b := bytes.NewBufferString("pre ")
			err := adc.Marshal(b, v)
			c.Op()
			c.Checked()
			c.Assert(err == nil && b.String() == "pre "+want, "%s encodes to %q (%v), specified %q", before, b.String(), err, want)
			c.Assert(string(adc.MustMarshal(v)) == want, "MustMarshal of %s", before)
		}
		c.Assert(dump(*m) == before, "encoding changed %s to %s", before, dump(*m))
		m.Not, m.Not2 = "", ""
		dec := func(s string) {
			var g ownMsg
			in := []byte(s)
			err := adc.Unmarshal(in, &g)
			c.Op()
			for i := range in {
				in[i] = '#'
			}
			c.Assert(err == nil && dump(g) == dump(*m), "%q decodes to %s (%v), want %s", s, dump(g), err, dump(*m))
		}
		dec(want)
		// named fields in the reverse order, elements of lists in theirs
		var rev []string
		for i := len(toks) - 1; i >= 2; {
			j := i
			for j > 2 && toks[j-1][:2] == toks[i][:2] {
				j--
			}
			rev = append(rev, toks[j:i+1]...)
			i = j - 1
		}
		dec(strings.Join(append(append([]string{}, toks[:2]...), rev...), " "))
		c.StateS(want)
	}}
}

type ownUnsigned struct {
	Pos  uint16  `adc:"#"`
	U    uint    `adc:"UU"`
	UR   uint    `adc:"UR,req"`
	U64  uint64  `adc:"U6"`
	UR64 uint64  `adc:"R6,req"`
	U32  uint32  `adc:"U3"`
	UR32 uint32  `adc:"R3,req"`
	U16  uint16  `adc:"U1"`
	UR16 uint16  `adc:"R1,req"`
	P    *uint64 `adc:"PU"`
	L    []uint  `adc:"LU"`
}

func (ownUnsigned) Cmd() adc.MsgType { return adc.MsgType{'U', 'N', 'S'} }

func adcOwnUnsigned() S {
	nums := []uint64{0, 1, 9, 10, 255, 256, 1<<15 - 1, 1 << 15, 1<<16 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	return S{"own, unsigned", fmt.Sprintf("a message type of the application with unsigned numbers of 4 sizes, alone, required, behind a pointer and in a list: 2 of %d values in every pair of the fields, encoded as value and pointer", len(nums)), func(c *C) {
		base := nums[c.Choose(2)]
		v := [11]uint64{}
		for i := range v {
			v[i] = base
		}
		i := c.Choose(11)
		j := i + c.Choose(11-i)
		v[i] = nums[c.Choose(len(nums))]
		if j != i {
			v[j] = nums[c.Choose(len(nums))]
		}
		m := ownUnsigned{uint16(v[0]), uint(v[1]), uint(v[2]), v[3], v[4], uint32(v[5]), uint32(v[6]), uint16(v[7]), uint16(v[8]), &v[9], []uint{uint(v[10]), 7}}
		dec := func(n uint64) string { return strconv.FormatUint(n, 10) }
		want := dec(v[0] & 0xffff)
		for k, f := range []struct {
			tag  string
			bits uint
			req  bool
		}{{}, {"UU", 64, false}, {"UR", 64, true}, {"U6", 64, false}, {"R6", 64, true}, {"U3", 32, false}, {"R3", 32, true}, {"U1", 16, false}, {"R1", 16, true}, {"PU", 64, true}, {"LU", 64, true}} {
			if k == 0 {
				continue
			}
			n := v[k] & (1<<f.bits - 1)
			if f.bits == 64 {
				n = v[k]
			}
			if n != 0 || f.req {
				want += " " + f.tag + dec(n)
			}
		}
		want += " LU7"
		for _, x := range []adc.Message{m, &m} {
			b := bytes.NewBufferString("pre ")
			err := adc.Marshal(b, x)
			c.Op()
			c.Checked()
			c.Assert(err == nil && b.String() == "pre "+want, "%s encodes to %q (%v), specified %q", dump(m), b.String(), err, want)
		}
		c.StateS(want)
	}}
}

func adcOwnBad() S {
	return S{"own, malformed", "the same message: values that are no value of the kind of their field, missing positional fields, and repeated fields that are not lists", func(c *C) {
		bad := map[string][]string{
			"NU": {"x", "2147483648", "-2147483649", "0x1"}, "NR": {"9223372036854775808", "--1", "1a"},
			"FL": {"2", "01", "x", "-1"}, "FR": {"2", "00", "true"}, "BO": {"2", "11", "x", ""}, "BR": {"2", "10", "", "t"},
			"PN": {"x", "4294967296"}, "PB": {"2", "yes"}, "LN": {"x", "1e999"}, "LF": {"2", "1x"}, "ID": {"", "ABC", "ABCDE"}, "IS": {"ABC"}, "SU": {"TCP", "TCP4,", "TCP4,UDP", ",TCP4"},
		}
		var l []string
		base := "a 1 TR NR0 FR0 BR0"
		without := func(tag string) string {
			var out []string
			for _, t := range strings.Split(base, " ") {
				if !strings.HasPrefix(t, tag) {
					out = append(out, t)
				}
			}
			return strings.Join(out, " ")
		}
		for tag, vs := range bad {
			for _, v := range vs {
				l = append(l, without(tag)+" "+tag+v)
			}
		}
		sort.Strings(l)
		l = append(l, "a x", "a 32768", "a", "a 1 TXa TXb", "a 1 NU1 NU1", "a 1 FL1 FL0", "a 1 PTa PTb")
		for _, s := range l {
			g := ownMsg{}
			err := adc.Unmarshal([]byte(s), &g)
			c.Op()
			c.Checked()
			c.Assert(err != nil, "%q is accepted as %s", s, dump(g))
			c.StateS(s)
		}
		for _, x := range []interface{}{ownMsg{}, nil2struct()} {
			c.Assert(adc.Unmarshal([]byte("a 1"), x) != nil, "decoding into %T is accepted", x)
		}
	}}
}

// adcTyped reads info and client packets from streams of every kind of packet.
func adcTyped(thorough bool) S {
	n := 3
	if thorough {
		n = 4
	}
	type item struct {
		line string
		kind byte   // of the packet, 0: malformed
		dump string // of the message
	}
	name := func(s string) string { return dump(adc.ChatMessage{Text: s}) }
	items := []item{
		{"IMSG one\n", 'I', name("one")},
		{"CMSG two\\sx\n", 'C', name("two x")},
		{"CZZZ a b\n", 'C', dump(&adc.RawMessage{Type: adc.MsgType{'Z', 'Z', 'Z'}, Data: []byte("a b")})},
		{"IQUI ABCD TLx\n", 0, ""},
		{"HMSG three\n", 'H', ""},
		{"BMSG ABCD four\n", 'B', ""},
		{"\n", 'k', ""},
		{"X\n", 0, ""},
	}
	return S{"typed reads", fmt.Sprintf("all streams of %d lines (info, client, hub and broadcast packets, unknown commands, malformed payloads and headers, keep-alives) x all sequences of info, client and any reads", n), func(c *C) {
		var in strings.Builder
		var seq []item
		for i := 0; i < n; i++ {
			it := items[c.Choose(len(items))]
			seq = append(seq, it)
			in.WriteString(it.line)
		}
		r := adc.NewReader(strings.NewReader(in.String()))
		ka, wantKA := 0, 0
		r.OnKeepAlive = func() error { ka++; return nil }
		for i := 0; i <= n; i++ {
			for i < n && seq[i].kind == 'k' {
				wantKA++
				i++
			}
			op := c.Choose(3)
			var m adc.Message
			var err error
			switch op {
			case 0:
				m, err = r.ReadInfo()
			case 1:
				m, err = r.ReadClient()
			case 2:
				var p adc.Packet
				p, err = r.ReadPacket()
				if err == nil {
					c.Assert(i < n && p.Kind() == seq[i].kind, "packet %v", p)
					m = p.Message()
				}
			}
			c.Op()
			c.Checked()
			c.Assert(ka == wantKA, "%d keep-alives reported, %d arrived", ka, wantKA)
			if i >= n {
				c.Assert(errors.Is(err, io.EOF) && m == nil, "end of stream: %v %v", m, err)
				break
			}
			it := seq[i]
			ok := it.kind != 0 && (op == 2 || op == 0 && it.kind == 'I' || op == 1 && it.kind == 'C')
			if !ok {
				c.Assert(err != nil && m == nil, "line %q read as %s: %s, %v", it.line, []string{"info", "client", "any"}[op], dump(m), err)
				continue
			}
			c.Assert(err == nil, "line %q read as %s: %v", it.line, []string{"info", "client", "any"}[op], err)
			if it.dump != "" {
				c.Assert(adcDump(m) == it.dump || dump(m) == it.dump, "line %q gives %s, want %s", it.line, dump(m), it.dump)
			}
		}
		c.StateS(in.String())
	}}
}

func newPIDs() S {
	return S{"new private ids", "64 new private ids are different and their client ids are the Tiger hash of them", func(c *C) {
		seen := map[adctypes.PID]bool{}
		for i := 0; i < 64; i++ {
			p, err := adctypes.NewPID()
			c.Op()
			c.Checked()
			c.Assert(err == nil && !seen[p] && p != adctypes.PID{}, "new id %v, %v", p, err)
			seen[p] = true
			c.Assert(p.Hash() == adctypes.CID(refTiger(p[:])), "client id of %v is %v", p, p.Hash())
		}
		c.StateS("ids")
	}}
}

func userFlags() S {
	return S{"flag queries", "every flag byte x every flag; attribution of chat lines in text form", func(c *C) {
		for f := 0; f < 256; f++ {
			for i := uint(0); i < 8; i++ {
				c.Op()
				c.Assert(nmdc.UserFlag(f).IsSet(1<<i) == (f>>i&1 == 1), "flag %#x: IsSet(%#x) is %v", f, 1<<i, nmdc.UserFlag(f).IsSet(1<<i))
			}
			c.StateS(fmt.Sprint(f))
		}
		c.Checked()
		c.Assert((&nmdc.ChatMessage{Name: "u", Text: "t"}).String() == "<u> t" && (&nmdc.ChatMessage{Text: "t"}).String() == "t", "text form of chat messages")
	}}
}
