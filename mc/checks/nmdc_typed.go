package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/nmdc"
)

// C12: typed reads.

type typedLine struct {
	line string
	typ  string // command name, empty for chat
	args string
	keep bool
	head bool   // refused whatever is requested
	bad  bool   // its payload is refused by its own type
	dump string // as its own type
}

type typedReq struct {
	name string
	one  bool // ReadMsgTo
	make func() []nmdc.Message
}

func init() {
	lines := []typedLine{
		{line: "$Hello a|", typ: "Hello", args: "a", dump: `*Hello{Name:"a"}`},
		{line: "$Quit b|", typ: "Quit", args: "b", dump: `*Quit{Name:"b"}`},
		{line: "<u> t|", args: "<u> t", dump: `*ChatMessage{Name:"u" Text:"t"}`},
		{line: "$Foo z|", typ: "Foo", args: "z", dump: `*RawMessage{Typ:"Foo" Data:x"z"}`},
		{line: "$Hello x\ty|", typ: "Hello", args: "x\ty", bad: true},
		{line: "|", keep: true},
		{line: "$ConnectToMe|", typ: "ConnectToMe", bad: true},
		{line: "<bad|", args: "<bad", bad: true},
		{line: "$Hello c|", typ: "Hello", args: "c", dump: `*Hello{Name:"c"}`},
		{line: "$|", head: true},
		{line: "$Supports A B|", typ: "Supports", args: "A B", dump: dump(&nmdc.Supports{Ext: []string{"A", "B"}})},
		{line: "hey|", args: "hey", dump: `*ChatMessage{Name:"" Text:"hey"}`},
	}
	type M = nmdc.Message
	reqs := []typedReq{
		{"ReadMsg", false, func() []M { return nil }},
		{"Hello", true, func() []M { return []M{&nmdc.Hello{}} }},
		{"Chat", true, func() []M { return []M{&nmdc.ChatMessage{Name: "old", Text: "old"}} }},
		{"ConnectToMe", true, func() []M { return []M{&nmdc.ConnectToMe{}} }},
		{"Raw(Foo)", true, func() []M { return []M{&nmdc.RawMessage{Typ: "Foo", Data: []byte("old")}} }},
		{"Supports", true, func() []M { return []M{&nmdc.Supports{Ext: []string{"Old"}}} }},
		{"any(Hello,Quit)", false, func() []M { return []M{&nmdc.Hello{Name: "old"}, &nmdc.Quit{}} }},
		{"any(Chat,Hello)", false, func() []M { return []M{&nmdc.ChatMessage{}, &nmdc.Hello{}} }},
		{"any(Quit,Raw)", false, func() []M { return []M{&nmdc.Quit{}, &nmdc.RawMessage{}} }},
		{"any(Raw(Old))", false, func() []M { return []M{&nmdc.RawMessage{Typ: "Old", Data: []byte("old")}} }},
		{"any(Supports,Quit,Chat)", false, func() []M { return []M{&nmdc.Supports{}, &nmdc.Quit{}, &nmdc.ChatMessage{}} }},
		{"any(Hello)", false, func() []M { return []M{&nmdc.Hello{}} }},
		{"any(ConnectToMe,Raw(Foo),Hello)", false, func() []M { return []M{&nmdc.ConnectToMe{}, &nmdc.RawMessage{Typ: "Foo"}, &nmdc.Hello{}} }},
		{"any(Raw,Chat)", false, func() []M { return []M{&nmdc.RawMessage{}, &nmdc.ChatMessage{}} }},
	}

	register("C12", []string{"a raw message given to ReadMsgTo (alone) is expected to have its type set"}, func(thorough bool) []S {
		typed := func(name string, n, dev int, second []typedReq) S {
			return S{name, fmt.Sprintf("all streams of <= %d lines of %d kinds, requests %d x %d then untyped reads, <= %d lines dropped at any hook level, malformed lines reported or skipped", n, len(lines), len(reqs), len(second), dev), func(c *C) {
				c.SetDeviations(dev)
				var ls []typedLine
				stream := ""
				for k := 1 + c.Choose(n); k > 0; k-- {
					l := lines[c.Choose(len(lines))]
					ls = append(ls, l)
					stream += l.line
				}
				skip := c.Bool()
				drops := make([]int, len(ls))
				for i := range drops {
					drops[i] = c.Dev(4)
				}
				r := nmdc.NewReader(strings.NewReader(stream))
				idx := -1
				drop := func(l int) (bool, error) { return drops[idx] != l, nil }
				r.OnLine(func([]byte) (bool, error) { idx++; return drop(1) })
				r.OnRawMessage(func(cmd, args []byte) (bool, error) { return drop(2) })
				r.OnMessage(func(nmdc.Message) (bool, error) { return drop(3) })
				if skip {
					r.OnUnmarshalError = func([]byte, error) (bool, error) { return false, nil }
				}
				type kept struct {
					m    nmdc.Message
					err  *nmdc.ErrUnexpectedCommand
					dump string
				}
				var keep []kept
				next := 0
				for i := 0; i <= len(ls); i++ {
					var rq typedReq
					switch i {
					case 0:
						rq = reqs[c.Choose(len(reqs))]
					case 1:
						rq = second[c.Choose(len(second))]
					default:
						rq = reqs[0]
					}
					targets := rq.make()
					// what is expected of this read
					const (
						eof = iota
						fail
						unexpected
						message
					)
					var matches []int
					out := eof
					var l typedLine
				model:
					for ; next < len(ls); next++ {
						l = ls[next]
						switch {
						case drops[next] == 1, l.keep, drops[next] == 2:
							continue
						case l.head:
							out = fail
							next++
							break model
						}
						matches = nil
						for j, t := range targets {
							raw, isRaw := t.(*nmdc.RawMessage)
							_, isChat := t.(*nmdc.ChatMessage)
							switch {
							case isRaw && (!rq.one || l.typ != "" && raw.Typ == l.typ),
								l.typ == "" && isChat,
								l.typ != "" && !isRaw && t.Type() == l.typ:
								matches = append(matches, j)
							}
						}
						if targets != nil && matches == nil {
							out = unexpected
							next++
							break model
						}
						bad := l.bad
						for _, j := range matches {
							if _, ok := targets[j].(*nmdc.RawMessage); ok && len(matches) == 1 {
								bad = false
							} else if ok && l.bad {
								c.Skip() // depends on which one is chosen
							}
						}
						if bad && skip {
							continue
						}
						if bad {
							out = fail
							next++
							break model
						}
						if drops[next] == 3 {
							continue
						}
						out = message
						next++
						break
					}
					var exp []string
					for _, t := range targets {
						exp = append(exp, t.Type())
					}
					// what happens
					var m nmdc.Message
					var err error
					switch {
					case targets == nil:
						m, err = r.ReadMsg()
					case rq.one:
						if err = r.ReadMsgTo(targets[0]); err == nil {
							m = targets[0]
						}
					default:
						m, err = r.ReadMsgToAny(targets...)
					}
					c.Op()
					if c.Tracing() {
						c.Logf("%q: %s = %s, %v; expected outcome %d", stream, rq.name, dump(m), err, out)
					}
					what := fmt.Sprintf("%q drops %v skip %v, read %d %s", stream, drops, skip, i, rq.name)
					var ue *nmdc.ErrUnexpectedCommand
					switch out {
					case eof:
						c.Assert(err == io.EOF, "%s: expected the end, got %s, %v", what, dump(m), err)
					case fail:
						c.Assert(err != nil && err != io.EOF && !errors.As(err, &ue), "%s: expected an error, got %s, %v", what, dump(m), err)
					case unexpected:
						c.Assert(errors.As(err, &ue), "%s: expected an unexpected command error, got %s, %v", what, dump(m), err)
						okExp := false
						for _, e := range exp {
							okExp = okExp || e == ue.Expected
						}
						c.Assert(okExp, "%s: error expects %q, requested were %q", what, ue.Expected, exp)
						c.Assert(ue.Received != nil && ue.Received.Typ == l.typ && string(ue.Received.Data) == l.args, "%s: received %s, the line was %q", what, dump(ue.Received), l.line)
						c.Assert(ue.Error() != "", "%s: no error text", what)
						keep = append(keep, kept{err: ue, dump: dump(ue.Received)})
					case message:
						c.Assert(err == nil && m != nil, "%s: line %q refused: %v", what, l.line, err)
						if targets != nil {
							found := false
							for _, j := range matches {
								found = found || targets[j] == m
							}
							c.Assert(found, "%s: line %q was not decoded into the matching message but gives %s", what, l.line, dump(m))
						}
						want := l.dump
						if _, ok := m.(*nmdc.RawMessage); ok {
							want = fmt.Sprintf(`*RawMessage{Typ:%q Data:x%q}`, l.typ, l.args)
						}
						c.Assert(dump(m) == want, "%s: line %q gives %s, want %s", what, l.line, dump(m), want)
						keep = append(keep, kept{m: m, dump: want})
					}
				}
				obs := ""
				for _, k := range keep {
					d := dump(k.m)
					if k.err != nil {
						d = dump(k.err.Received)
					}
					c.Assert(d == k.dump, "%q: %s changed to %s by later reads", stream, k.dump, d)
					obs += d
				}
				c.StateS(obs)
			}}
		}
		names := S{"names", "every registered type but chat: lines whose command differs from it by the case of any or all letters, a letter more, less or changed, or nothing, read by a request for it alone, among others and untyped", func(c *C) {
			specs := nmdcSpecs()
			sp := specs[c.Choose(len(specs))]
			if sp.typ == "" || sp.typ == "XRaw" {
				c.Skip()
			}
			cmd := []byte(sp.typ)
			i := c.Choose(len(cmd))
			switch c.Choose(9) {
			case 0:
				cmd[i] ^= 0x20
			case 1:
				cmd = bytes.ToUpper(cmd)
			case 2:
				cmd = bytes.ToLower(cmd)
			case 3:
				cmd = append(cmd[:i:i], cmd[i+1:]...)
			case 4:
				cmd = append(append(cmd[:i:i], 'x'), cmd[i:]...)
			case 5:
				cmd[i]++
			case 6:
				cmd = append(cmd, cmd[len(cmd)-1])
			case 7:
				cmd = cmd[:i+1]
			}
			typ := string(cmd)
			if len(cmd) == 0 || strings.Trim(typ, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") != "" {
				c.Skip()
			}
			same := typ == sp.typ
			if !same && nmdc.IsRegistered(typ) {
				for _, o := range specs {
					if o.typ == typ {
						c.Skip() // another command
					}
				}
				c.Fail("%q is registered", typ)
			}
			dirty := sp.dirty
			args := dirty
			line := "$" + typ + " " + args + "|"
			r := nmdc.NewReader(strings.NewReader(line))
			var m nmdc.Message
			var err error
			how := c.Choose(5)
			switch how {
			case 0:
				m, err = r.ReadMsg()
			case 1:
				m = nmdc.NewMessage(sp.typ)
				err = r.ReadMsgTo(m)
			case 2:
				m, err = r.ReadMsgToAny(nmdc.NewMessage(sp.typ))
			case 3:
				m, err = r.ReadMsgToAny(nmdc.NewMessage(sp.typ), &nmdc.ChatMessage{})
			case 4:
				m, err = r.ReadMsgToAny(&nmdc.ChatMessage{}, nmdc.NewMessage(sp.typ))
			}
			c.Op()
			c.StateS(fmt.Sprint(line, how))
			if same {
				c.Assert(err == nil && m != nil && m.Type() == sp.typ, "%q, request %d for %s: %s, %v", line, how, sp.typ, dump(m), err)
				if _, ok := m.(*nmdc.RawMessage); ok {
					c.Fail("%q is not decoded", line)
				}
				return
			}
			raw := dump(&nmdc.RawMessage{Typ: typ, Data: []byte(args)})
			if how == 0 {
				c.Assert(err == nil && dump(m) == raw, "%q: %s, %v", line, dump(m), err)
				return
			}
			var ue *nmdc.ErrUnexpectedCommand
			c.Assert(errors.As(err, &ue), "%q, request %d for %s: expected an unexpected command error, got %s, %v", line, how, sp.typ, dump(m), err)
			c.Assert(dump(ue.Received) == raw, "%q, request for %s: received is %s", line, sp.typ, dump(ue.Received))
			_, err = r.ReadMsg()
			c.Assert(err == io.EOF, "%q: after it: %v", line, err)
		}}
		n, dev := 3, 1
		second := reqs[:1]
		if thorough {
			return []S{typed("streams", 4, 2, second), typed("pairs", 3, 2, reqs), names}
		}
		_ = dev
		return []S{typed("streams", n, 2, second), typed("pairs", 2, 1, reqs), names}
	})
}
