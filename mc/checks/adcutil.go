package checks

import (
	"reflect"
	"strconv"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	adctypes "github.com/direct-connect/go-dc/adc/types"
	"github.com/direct-connect/go-dc/tiger"
)

// refADC is the specified ADC escaping.
func refADC(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			b.WriteString(`\\`)
		case ' ':
			b.WriteString(`\s`)
		case '\n':
			b.WriteString(`\n`)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// kinds of fields
const (
	akStr = iota
	akInt
	akCID
	akCIDp
	akSID
	akSIDp
	akTTH
	akTTHp
	akStrs
	akPath
	akFeat
	akBool
)

type afield struct {
	tag  string // "#" is positional
	name string // field of the Go structure
	kind int
	req  bool
	bits int // of numbers
}

// aspec is the specification of an ADC message with regular fields.
type aspec struct {
	cmd    string
	new    func() adc.Message // pointer
	fields []afield
	custom bool // not registered under its command
}

func a(tag, name string, kind int) afield { return afield{tag: tag, name: name, kind: kind, bits: 64} }
func aReq(tag, name string, kind int) afield {
	return afield{tag: tag, name: name, kind: kind, req: true, bits: 64}
}

func adcSpecs() []aspec {
	return []aspec{
		{"INF", func() adc.Message { return &adc.UserInfo{} }, []afield{
			a("ID", "Id", akCID), a("PD", "Pid", akCIDp), aReq("NI", "Name", akStr), a("I4", "Ip4", akStr), a("I6", "Ip6", akStr),
			a("U4", "Udp4", akInt), a("U6", "Udp6", akInt), aReq("SS", "ShareSize", akInt), aReq("SF", "ShareFiles", akInt),
			aReq("VE", "Version", akStr), a("AP", "Application", akStr), a("US", "MaxUpload", akStr), a("DS", "MaxDownload", akStr),
			aReq("SL", "Slots", akInt), aReq("FS", "SlotsFree", akInt), a("AS", "AutoSlotLimit", akInt), a("EM", "Email", akStr), a("DE", "Desc", akStr),
			aReq("HN", "HubsNormal", akInt), aReq("HR", "HubsRegistered", akInt), aReq("HO", "HubsOperator", akInt), a("TO", "Token", akStr),
			a("CT", "Type", akInt), a("AW", "Away", akInt), a("RF", "Ref", akStr), aReq("SU", "Features", akFeat), a("KP", "KP", akStr), a("EA", "Address", akStr)}, false},
		{"INF", func() adc.Message { return &adc.HubInfo{} }, []afield{
			aReq("NI", "Name", akStr), aReq("VE", "Version", akStr), a("AP", "Application", akStr), a("DE", "Desc", akStr), a("CT", "Type", akInt),
			a("HH", "Address", akStr), a("WS", "Website", akStr), a("NE", "Network", akStr), a("OW", "Owner", akStr), a("UC", "Users", akInt),
			a("SS", "Share", akInt), a("SF", "Files", akInt), a("MS", "MinShare", akInt), a("XS", "MaxShare", akInt), a("ML", "MinSlots", akInt),
			a("XL", "MaxSlots", akInt), a("MC", "UsersLimit", akInt), a("UP", "Uptime", akInt), a("XU", "MaxHubsUser", akInt), a("XR", "MaxHubsReg", akInt), a("XO", "MaxHubsOp", akInt)}, true},
		{"MSG", func() adc.Message { return &adc.ChatMessage{} }, []afield{
			a("#", "Text", akStr), a("PM", "PM", akSIDp), a("ME", "Me", akBool), a("TS", "TS", akInt)}, false},
		{"SCH", func() adc.Message { return &adc.SearchRequest{} }, []afield{
			a("TO", "Token", akStr), a("AN", "And", akStrs), a("NO", "Not", akStrs), a("EX", "Ext", akStrs), a("LE", "Le", akInt), a("GE", "Ge", akInt),
			a("EQ", "Eq", akInt), a("TY", "Type", akInt), a("TR", "TTH", akTTHp), a("GR", "Group", akInt), a("RX", "NoExt", akStrs)}, false},
		{"RES", func() adc.Message { return &adc.SearchResult{} }, []afield{
			a("TO", "Token", akStr), a("FN", "Path", akStr), a("SI", "Size", akInt), a("SL", "Slots", akInt), a("TR", "TTH", akTTHp)}, false},
		{"RCM", func() adc.Message { return &adc.RevConnectRequest{} }, []afield{a("#", "Proto", akStr), a("#", "Token", akStr)}, false},
		{"CTM", func() adc.Message { return &adc.ConnectRequest{} }, []afield{a("#", "Proto", akStr), a("#", "Port", akInt), a("#", "Token", akStr)}, false},
		{"GFI", func() adc.Message { return &adc.GetInfoRequest{} }, []afield{a("#", "Type", akStr), a("#", "Path", akStr)}, false},
		{"CMD", func() adc.Message { return &adc.UserCommand{} }, []afield{a("#", "Path", akPath), a("TT", "Command", akStr), a("CT", "Category", akInt),
			a("RM", "Remove", akInt), a("CO", "Constrained", akInt), a("SP", "Separator", akInt)}, false},
		{"PAS", func() adc.Message { return &adc.Password{} }, []afield{a("#", "Hash", akTTH)}, false},
		{"QUI", func() adc.Message { return &adc.Disconnect{} }, []afield{a("#", "ID", akSID), a("MS", "Message", akStr), a("ID", "By", akSID), a("TL", "Duration", akInt), a("RD", "Redirect", akStr)}, false},
		{"SID", func() adc.Message { return &adc.SIDAssign{} }, []afield{a("#", "SID", akSID)}, false},
	}
}

// aval is a value of a field with its specified encodings (none if it is not set).
type aval struct {
	v   interface{}
	enc []string
}

func sid(s string) (r adc.SID) { copy(r[:], s); return }

func akZero(kind int) aval {
	switch kind {
	case akStr:
		return aval{"", []string{""}}
	case akInt:
		return aval{int64(0), []string{"0"}}
	case akCID:
		return aval{adc.CID{}, []string{b32(make([]byte, 24))}}
	case akTTH:
		return aval{adc.TTH{}, []string{b32(make([]byte, 24))}}
	case akSID:
		return aval{sid("AAAA"), []string{"AAAA"}} // the zero one is not an identifier
	case akPath:
		return aval{adc.Path{"p"}, []string{"p"}}
	case akFeat:
		return aval{adc.ExtFeatures(nil), []string{""}}
	case akBool:
		return aval{false, nil}
	}
	return aval{nil, nil}
}

var aTokens = []string{"a", " ", "\\", "\n", "a b", "\\s", "\\n", "\\\\", "s", "n", "é日", "x\\", "\\ ", "TS5", "\r\n", "|$", "\\\n", "  ", "+A", strings.Repeat("x y", 700), "\t", "/"}

const aAlpha = " \\\nsnx/"

// chooseVal picks a non-zero value of a field.
func chooseVal(f afield, str func() string, choose func(n int) int) aval {
	switch f.kind {
	case akStr:
		s := str()
		return aval{s, []string{refADC(s)}}
	case akInt:
		ints := []int64{1, 10, -1, 1<<31 - 1, 1 << 31, 1<<63 - 1, -1 << 63, 1<<53 + 1}
		v := ints[choose(len(ints))]
		return aval{v, []string{strconv.FormatInt(v, 10)}}
	case akCID, akCIDp, akTTH, akTTHp:
		h := hashes[choose(2)]
		e := []string{b32(h[:])}
		switch f.kind {
		case akCID:
			return aval{adc.CID(h), e}
		case akCIDp:
			c := adc.CID(h)
			return aval{&c, e}
		case akTTH:
			return aval{h, e}
		}
		return aval{&h, e}
	case akSID, akSIDp:
		s := []string{"ABCD", "7777", "AAAB"}[choose(3)]
		v := sid(s)
		if f.kind == akSID {
			return aval{v, []string{s}}
		}
		return aval{&v, []string{s}}
	case akStrs:
		var l, e []string
		n := 1 + choose(3)
		for i := 0; i < n; i++ {
			s := "x y"
			if i == n-1 {
				s = str()
			}
			l = append(l, s)
			e = append(e, refADC(s))
		}
		return aval{l, e}
	case akPath:
		var p adc.Path
		var e []string
		n := 1 + choose(3)
		for i := 0; i < n; i++ {
			s := "x y"
			if i == 0 {
				s = strings.Replace(str(), "/", "", -1)
			}
			p = append(p, s)
			e = append(e, refADC(s))
		}
		return aval{p, []string{strings.Join(e, "/")}}
	case akFeat:
		var l adc.ExtFeatures
		var e []string
		n := 1 + choose(3)
		for i := 0; i < n; i++ {
			s := []string{"TCP4", "UDP4", "ADC0"}[i]
			var f adc.Feature
			copy(f[:], s)
			l = append(l, f)
			e = append(e, s)
		}
		return aval{l, []string{strings.Join(e, ",")}}
	case akBool:
		return aval{true, []string{"1"}}
	}
	panic("kind")
}

// set assigns the value and returns the specified tokens.
func (f afield) set(m adc.Message, v aval, zero bool) []string {
	fv := reflect.ValueOf(m).Elem().FieldByName(f.name)
	if v.v != nil {
		fv.Set(reflect.ValueOf(v.v).Convert(fv.Type()))
	} else {
		fv.Set(reflect.Zero(fv.Type()))
	}
	if f.tag == "#" {
		return v.enc[:1]
	}
	if zero && !f.req {
		return nil
	}
	var out []string
	for _, e := range v.enc {
		out = append(out, f.tag+e)
	}
	return out
}

func adcDump(m adc.Message) string {
	rv := reflect.ValueOf(m)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() {
		if _, ok := m.(*adc.RawMessage); !ok {
			return dump(rv.Elem().Interface())
		}
	}
	return dump(m)
}

var _ = adctypes.SIDFromInt
var _ tiger.Hash
