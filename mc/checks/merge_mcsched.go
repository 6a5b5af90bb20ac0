//go:build mcsched

package checks

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	"verif/mc/sched"
)

// script is the sequence of calls a goroutine makes on objects of its own; every
// call returns what it gave.
type script struct {
	name string
	make func(salt int) []func() string
	n    int
	want [2]string
}

func saltText(salt int, s string) string {
	if salt == 0 {
		return s
	}
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r < 'z' || r >= '0' && r < '9' {
			return r + 1
		}
		return r
	}, s)
}

// lineWriterSteps are the calls of sequences like "+l-+r-f c".
func lineWriterSteps(salt int, seq string) []func() string {
	var buf bytes.Buffer
	w := lineproto.NewWriterSize(&buf, 8)
	var out []func() string
	for i, op := range seq {
		i, op := i, op
		out = append(out, func() string {
			var err error
			switch op {
			case '+':
				err = w.EnableZlib()
			case '1':
				err = w.EnableZlibLevel(1)
			case '-':
				err = w.DisableZlib()
			case 'l':
				err = w.WriteLine([]byte(saltText(salt, fmt.Sprintf("line %d abcabc|", i))))
			case 'r':
				_, err = w.Write([]byte(saltText(salt, fmt.Sprintf("raw %d", i))))
			case 'f':
				err = w.Flush()
			case 'c':
				err = w.Close()
			}
			s := fmt.Sprintf("%c %v %x", op, err, buf.Bytes())
			buf.Reset()
			return s
		})
	}
	return out
}

func lineReaderSteps(salt int, seq string) []func() string {
	data := []byte(saltText(salt, "a1|"))
	data = append(data, deflate([]byte(saltText(salt, "b1|b2b|")), 6)...)
	data = append(data, saltText(salt, "c3|")...)
	data = append(data, deflate([]byte(saltText(salt, "d4|")), 1)...)
	data = append(data, saltText(salt, "e5|f6|")...)
	r := lineproto.NewReader(&fragReader{data: data, n: 5}, '|')
	var bin io.ReadCloser
	var out []func() string
	for _, op := range seq {
		op := op
		out = append(out, func() string {
			switch op {
			case 'l':
				l, err := r.ReadLine()
				return fmt.Sprintf("l %q %v", l, err)
			case '+':
				return fmt.Sprint("+", r.EnableZlib())
			case 'b':
				var err error
				bin, err = r.Binary(3)
				return fmt.Sprint("b", err)
			case 'r':
				b := make([]byte, 2)
				n, err := bin.Read(b)
				return fmt.Sprintf("r %q %v", b[:n], err)
			case 'x':
				return fmt.Sprint("x", bin.Close())
			case 'c':
				return fmt.Sprint("c", r.Close())
			}
			panic(op)
		})
	}
	return out
}

// fragReader delivers data in pieces of n bytes.
type fragReader struct {
	data []byte
	n    int
}

func (r *fragReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	return n, nil
}

func scripts() []*script {
	seq := func(kind, s string, f func(int, string) []func() string) *script {
		return &script{name: kind + " " + s, make: func(salt int) []func() string { return f(salt, s) }}
	}
	nread := func(lines ...string) func(salt int) []func() string {
		return func(salt int) []func() string {
			var data string
			for _, l := range lines {
				data += saltLine(l, func(l string) bool {
					_, err := nmdc.Unmarshal(nil, []byte(l))
					return err == nil
				})
			}
			_ = salt
			if salt == 0 {
				data = strings.Join(lines, "")
			}
			r := nmdc.NewReader(&fragReader{data: []byte(data), n: 7})
			var out []func() string
			var last nmdc.Message
			for range lines {
				out = append(out, func() string {
					old := ""
					if last != nil {
						old = dumpMsg(last)
					}
					m, err := r.ReadMsg()
					if err != nil {
						return old + err.Error()
					}
					last = m
					return old + dumpMsg(m)
				})
			}
			return out
		}
	}
	return []*script{
		seq("line writer", "+l-+rfl-c", lineWriterSteps),
		seq("line writer", "l+-1lf-c", lineWriterSteps),
		seq("line writer", "l+lc", lineWriterSteps),
		seq("line reader", "l+lll+lll", lineReaderSteps),
		seq("line reader", "l+brxl+lc", lineReaderSteps),
		{name: "nmdc reader", make: nread(mergeLines()["MyINFO"], mergeLines()["Search"], mergeLines()["SR"], mergeLines()["HubINFO"], mergeLines()["UserCommand"], mergeLines()["Lock"], mergeLines()["UserIP"])},
		{name: "nmdc writer", make: func(salt int) []func() string {
			var buf bytes.Buffer
			w := nmdc.NewWriterSize(&buf, 8)
			t := func(s string) string { return saltText(salt, s) }
			h := hashes[salt]
			var out []func() string
			for _, m := range []nmdc.Message{
				&nmdc.MyINFO{Name: t("nick"), Desc: t("desc"), Mode: 'A', Conn: t("con"), Flag: 1, Email: t("ma"), ShareSize: uint64(12 + salt), Slots: 3 + salt},
				&nmdc.Search{User: t("us"), Pattern: "TTH:" + h.Base32(), TTH: &h, DataType: 9},
				&nmdc.ChatMessage{Name: t("nick"), Text: t("te$t|")},
				&nmdc.Supports{Ext: []string{t("abc"), t("def")}},
				&nmdc.OpList{Names: nmdc.Names{t("ab"), t("cd")}},
				&nmdc.ADCGet{ContentType: nmdc.String(t("tthl")), Identifier: nmdc.String(t("id")), Start: uint64(5 + salt), Length: int64(7 + salt)},
			} {
				m := m
				out = append(out, func() string {
					err := w.WriteMsg(m)
					s := fmt.Sprintf("%v %q", err, buf.String())
					buf.Reset()
					return s
				})
			}
			out = append(out, func() string { err := w.Flush(); return fmt.Sprintf("%v %q", err, buf.String()) })
			return out
		}},
		{name: "adc connection", make: func(salt int) []func() string {
			var buf bytes.Buffer
			w := adc.NewWriterSize(&buf, 8)
			t := func(s string) string { return saltText(salt, s) }
			st := w.FeatureStream(sid("ABCD"), []adc.FeatureSel{{Fea: adc.FeaTIGR, Sel: salt == 0}})
			rd := adc.NewReader(&fragReader{data: []byte("IINF NI" + t("nick") + " DE" + t("a\\sb") + "\nBMSG ABCD " + t("hi\\sthere") + "\nFSCH ABCD +TCP4 AN" + t("pat") + " TO" + t("tok") + "\n"), n: 9})
			var out []func() string
			for _, m := range []adc.Message{
				adc.UserInfo{Name: t("nick"), Desc: t("a b"), ShareSize: int64(5 + salt)},
				adc.ChatMessage{Text: t("hi there\n")},
				adc.SearchRequest{And: []string{t("x y"), t("z")}, Token: t("tok")},
			} {
				m := m
				var keep adc.Packet
				out = append(out, func() string {
					err := st.WriteMessage(m)
					s := fmt.Sprintf("%v %q", err, buf.String())
					buf.Reset()
					return s
				}, func() string {
					p, err := rd.ReadPacket()
					keep = p
					return fmt.Sprint(dump(p), err)
				}, func() string {
					return dump(keep)
				})
			}
			out = append(out, func() string { err := w.Flush(); return fmt.Sprintf("%v %q", err, buf.String()) })
			return out
		}},
		{name: "hashes", make: func(salt int) []func() string {
			h := tiger.New()
			data := pattern(200, salt)
			var l tiger.Leaves
			return []func() string{
				func() string { h.Write(data[:70]); return "" },
				func() string { h.Write(data[70:100]); return fmt.Sprintf("%x", h.Sum(nil)) },
				func() string {
					var err error
					l, err = tiger.TreeLeaves(bytes.NewReader(pattern(3000, salt)))
					return fmt.Sprint(l, err)
				},
				func() string { h.Write(data[100:]); return fmt.Sprintf("%x", h.Sum([]byte("x"))) },
				func() string { return l.TreeHash().Base32() },
				func() string { h.Reset(); h.Write(data[:1]); return fmt.Sprintf("%x", h.Sum(nil)) },
				func() string { return fmt.Sprint(l, tiger.HashBytes(data)) },
			}
		}},
	}
}

// mergeLines maps types to one line of theirs.
func mergeLines() map[string]string {
	return map[string]string{
		"MyINFO":      "$MyINFO $ALL nick desc<abc V:1.2,M:A,H:1/2/3,S:4>$ $con\x01$mail$567$|",
		"Search":      "$Search Hub:nick T?F?123?2?ab$cd|",
		"SR":          "$SR nick dir\\file\x05123 4/5\x05hub (1.2.3.4:411)|",
		"HubINFO":     "$HubINFO name$host.org$desc$1$2$3$4$soft 1.2$own$state$enc|",
		"UserCommand": "$UserCommand 1 3 ab\\cd$cmd&#124;|",
		"Lock":        "$Lock abcdef Pk=gh|",
		"UserIP":      "$UserIP ab 1.2.3.4$$cd 5.6.7.8$$|",
	}
}

// runMerged runs the scripts in the given order of calls.
func runMerged(order []int, steps [2][]func() string) (out [2]string, pan interface{}, at int) {
	var next [2]int
	_, p, _ := sched.Run(nil, func() {
		for i, k := range order {
			at = i
			out[k] += steps[k][next[k]]() + "\n"
			next[k]++
		}
	})
	return out, p[0], at
}

func aloneSteps(steps []func() string) string {
	o, p, _ := runMerged(make([]int, len(steps)), [2][]func() string{steps, nil})
	if p != nil {
		return fmt.Sprintf("%spanic: %v", o[0], p)
	}
	return o[0]
}

func mergeScenarios(thorough bool) []S {
	all := scripts()
	for _, s := range all {
		for salt := range s.want {
			s.want[salt] = aloneSteps(s.make(salt))
			s.n = len(s.make(salt))
			if strings.Contains(s.want[salt], "panic: ") {
				panic(s.name + ": " + s.want[salt])
			}
		}
	}
	limit := 5
	if thorough {
		limit = 7
	}
	var pairs [][2]*script
	for i, a := range all {
		for k, b := range all {
			if thorough || i == k || strings.HasPrefix(a.name, "line ") && strings.HasPrefix(b.name, "line ") && i < k {
				pairs = append(pairs, [2]*script{a, b})
			}
		}
	}
	merged := S{"merged calls", fmt.Sprintf("%d pairs of sequences of calls on objects of their own (connections that switch compression on and off repeatedly, typed readers and writers, hashes), every order of their first %d calls", len(pairs), limit), func(c *C) {
		p2 := pairs[c.Choose(len(pairs))]
		a, b := p2[0], p2[1]
		n := [2]int{a.n, b.n}
		for i := range n {
			if n[i] > limit {
				n[i] = limit
			}
		}
		left := n
		var order []int
		for left[0]+left[1] > 0 {
			k := 0
			if left[0] == 0 {
				k = 1
			} else if left[1] > 0 {
				k = c.Choose(2)
			}
			order = append(order, k)
			left[k]--
		}
		for i := n[0]; i < a.n; i++ {
			order = append(order, 0)
		}
		for i := n[1]; i < b.n; i++ {
			order = append(order, 1)
		}
		out, p, at := runMerged(order, [2][]func() string{a.make(0), b.make(1)})
		c.Ops(len(order))
		c.Checked()
		c.Assert(p == nil, "%s next to %s, calls in the order %v, panics at call %d: %v", a.name, b.name, order, at, p)
		for i, s := range []*script{a, b} {
			c.Assert(out[i] == s.want[i], "%s next to %s, calls in the order %v, gives\n%s, alone it gives\n%s", s.name, []*script{a, b}[1-i].name, order, clips(out[i]), clips(s.want[i]))
		}
		c.StateS(a.name + b.name + fmt.Sprint(order))
	}}
	depth := 7
	if thorough {
		depth = 9
	}
	writers := S{"writer histories", fmt.Sprintf("two line writers: every history of %d calls (write a line, compression on or off, close) on either, then both are closed", depth), func(c *C) {
		var seq [2]string
		var order []int
		var on, closed [2]bool
		for i := 0; i < depth; i++ {
			k := c.Choose(2)
			if closed[k] {
				c.Skip()
			}
			op := byte('l')
			switch c.Choose(3) {
			case 1:
				op = '+'
				if on[k] {
					op = '-'
				}
				on[k] = !on[k]
			case 2:
				op = 'c'
				closed[k] = true
			}
			seq[k] += string(op)
			order = append(order, k)
		}
		for k := range seq {
			if !closed[k] {
				seq[k] += "c"
				order = append(order, k)
			}
		}
		if order[0] == 1 {
			c.Skip() // symmetric
		}
		out, p, at := runMerged(order, [2][]func() string{lineWriterSteps(0, seq[0]), lineWriterSteps(1, seq[1])})
		c.Ops(len(order))
		c.Checked()
		c.Assert(p == nil, "writers with calls %q, in the order %v, panic at call %d: %v", seq, order, at, p)
		for k := range seq {
			want := aloneSteps(lineWriterSteps(k, seq[k]))
			c.Assert(out[k] == want, "writers with calls %q, in the order %v: %d gives\n%s, alone it gives\n%s", seq, order, k, clips(out[k]), clips(want))
		}
		c.StateS(fmt.Sprint(seq, order))
	}}
	return []S{merged, writers}
}
