package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
)

const (
	vPass = iota
	vDrop
	vFail
)

var errVerdict = errors.New("hook says no")

// verdicts of hooks: [message][level][hook]
type verdicts struct {
	v [][][]int
	// n is the number of hooks per level
	n []int
	// err is what failing hooks report
	err error
}

func chooseVerdicts(c *C, msgs int, n []int, kinds []error) *verdicts {
	vs := &verdicts{n: n, err: kinds[c.Choose(len(kinds))]}
	for i := 0; i < msgs; i++ {
		var l [][]int
		for _, k := range n {
			h := make([]int, k)
			for j := range h {
				h[j] = c.Dev(3)
			}
			l = append(l, h)
		}
		vs.v = append(vs.v, l)
	}
	return vs
}

// hookCalls counts which message a hook call belongs to.
type hookLog struct {
	c   *C
	log []string
}

func (l *hookLog) add(format string, args ...interface{}) {
	l.log = append(l.log, fmt.Sprintf(format, args...))
}

func (vs *verdicts) answer(v int) (bool, error) {
	switch v {
	case vDrop:
		return false, nil
	case vFail:
		return false, vs.err
	}
	return true, nil
}

// model runs the hooks of a level for a message; stop tells that the message
// goes no further.
func (vs *verdicts) model(l *hookLog, msg, level int, what string) (stop bool, err error) {
	for j, v := range vs.v[msg][level] {
		l.add("%d.%d %s", level, j, what)
		switch v {
		case vDrop:
			return true, nil
		case vFail:
			return true, errVerdict
		}
	}
	return false, nil
}

type hookLine struct {
	line string
	keep bool
	viol bool // refused before raw hooks
	cmd  string
	args string
	bad  bool // refused by name or payload
	msg  string
}

func init() {
	nlines := []hookLine{
		{line: "$Hello a|", cmd: "Hello", args: "a", msg: `*Hello{Name:"a"}`},
		{line: "<x> y|", cmd: "-", args: "<x> y", msg: `*ChatMessage{Name:"x" Text:"y"}`},
		{line: "|", keep: true},
		{line: "$ConnectToMe|", cmd: "ConnectToMe", bad: true},
		{line: "$Foo z|", cmd: "Foo", args: "z", msg: `*RawMessage{Typ:"Foo" Data:x"z"}`},
		{line: "$A\x00 b|", viol: true},
		{line: "$|", cmd: "", bad: true},
		{line: "<bad|", cmd: "-", args: "<bad", bad: true},
		{line: "$Hello b|", cmd: "Hello", args: "b", msg: `*Hello{Name:"b"}`},
	}
	configs := [][]int{{2, 2, 2, 1}, {1, 0, 2, 0}, {0, 2, 0, 1}, {0, 0, 0, 0}}

	build := func(n, dev int, kinds []error, suffix string) []S {
		readNMDC := S{Name: "nmdc-read", Bound: fmt.Sprintf("all streams of <= %d lines of %d kinds, hooks per level in %v, every placement of <= %d drop/fail verdicts", n, len(nlines), configs, dev), Run: func(c *C) {
			c.SetDeviations(dev)
			var lines []hookLine
			stream := ""
			for k := 1 + c.Choose(n); k > 0; k-- {
				l := nlines[c.Choose(len(nlines))]
				lines = append(lines, l)
				stream += l.line
			}
			cfg := configs[c.Choose(len(configs))]
			vs := chooseVerdicts(c, len(lines), cfg, kinds)
			// model
			want := &hookLog{}
			for i, l := range lines {
				if stop, err := vs.model(want, i, 0, l.line); stop {
					if err != nil {
						want.add("error %v", err)
					}
					continue
				}
				if l.keep {
					if _, err := vs.model(want, i, 3, "keepalive"); err != nil {
						want.add("error %v", err)
					}
					continue
				}
				if l.viol {
					want.add("error")
					continue
				}
				if stop, err := vs.model(want, i, 1, l.cmd+"/"+l.args); stop {
					if err != nil {
						want.add("error %v", err)
					}
					continue
				}
				if l.bad {
					want.add("error")
					continue
				}
				if stop, err := vs.model(want, i, 2, l.msg); stop {
					if err != nil {
						want.add("error %v", err)
					}
					continue
				}
				want.add("message %s", l.msg)
			}
			want.add("end")
			// implementation
			got := &hookLog{}
			r := nmdc.NewReader(strings.NewReader(stream))
			idx := -1 // line being processed; advanced by an extra line hook
			r.OnLine(func([]byte) (bool, error) { idx++; return true, nil })
			for j := 0; j < cfg[0]; j++ {
				j := j
				r.OnLine(func(line []byte) (bool, error) {
					got.add("0.%d %s", j, string(line))
					return vs.answer(vs.v[idx][0][j])
				})
			}
			for j := 0; j < cfg[1]; j++ {
				j := j
				r.OnRawMessage(func(cmd, args []byte) (bool, error) {
					s := string(cmd)
					if cmd == nil {
						s = "-"
					}
					got.add("1.%d %s/%s", j, s, string(args))
					return vs.answer(vs.v[idx][1][j])
				})
			}
			for j := 0; j < cfg[2]; j++ {
				j := j
				r.OnMessage(func(m nmdc.Message) (bool, error) {
					got.add("2.%d %s", j, dump(m))
					return vs.answer(vs.v[idx][2][j])
				})
			}
			if cfg[3] != 0 {
				r.OnKeepAlive = func() error {
					got.add("3.0 keepalive")
					_, err := vs.answer(vs.v[idx][3][0])
					return err
				}
			}
			vs.readAll(c, got, len(lines), func() (string, error) {
				m, err := r.ReadMsg()
				if err != nil {
					return "", err
				}
				return dump(m), nil
			})
			compareLogs(c, want, got, stream)
		}}

		writeNMDC := S{Name: "nmdc-write", Bound: fmt.Sprintf("all batches of <= %d messages of 5 kinds, written at once or one by one, 0-2 message and line hooks, every placement of <= %d drop/fail verdicts", n, dev), Run: func(c *C) {
			c.SetDeviations(dev)
			type item struct {
				m    nmdc.Message
				line string
				d    string
			}
			var items []item
			for k := 1 + c.Choose(n); k > 0; k-- {
				var it item
				switch c.Choose(5) {
				case 0:
					it.m, it.line = &nmdc.Hello{Name: "a"}, "$Hello a|"
				case 1:
					it.m, it.line = &nmdc.ChatMessage{Name: "x", Text: "y"}, "<x> y|"
				case 2:
					it.m, it.line = &nmdc.RawMessage{Typ: "Foo", Data: []byte("z")}, "$Foo z|"
				case 3:
					it.m = &nmdc.ConnectToMe{} // cannot be encoded
				case 4:
					it.line = "|" // keep-alive
				}
				if it.m != nil {
					it.d = dump(it.m)
				}
				items = append(items, it)
			}
			cfgs := [][]int{{2, 2}, {1, 0}, {0, 1}, {0, 0}}
			cfg := cfgs[c.Choose(len(cfgs))]
			batch := c.Bool()
			vs := chooseVerdicts(c, len(items), cfg, kinds)
			var batches [][]int
			for i, it := range items {
				if batch && it.m != nil && i > 0 && items[i-1].m != nil {
					batches[len(batches)-1] = append(batches[len(batches)-1], i)
				} else {
					batches = append(batches, []int{i})
				}
			}
			// model
			want := &hookLog{}
			var sink strings.Builder
			var sticky error
			for _, b := range batches {
				var res error
				if sticky != nil {
					want.add("error %v", sticky)
					continue
				}
				failed := false
				for _, i := range b {
					it := items[i]
					if it.m != nil {
						stop, err := vs.model(want, i, 0, it.d)
						if err != nil {
							res = err
							break
						} else if stop {
							continue
						}
						if it.line == "" {
							failed = true
							break
						}
					}
					stop, err := vs.model(want, i, 1, it.line)
					if err != nil {
						res, sticky = err, err
						break
					} else if stop {
						continue
					}
					sink.WriteString(it.line)
				}
				if failed {
					want.add("error")
				} else if res != nil {
					want.add("error %v", res)
				} else {
					want.add("ok")
				}
			}
			// implementation
			got := &hookLog{}
			var out bytes.Buffer
			w := nmdc.NewWriter(&out)
			idx := -1
			msgs := map[nmdc.Message]int{}
			for i, it := range items {
				if it.m != nil {
					msgs[it.m] = i
				}
			}
			var pending []int // messages of the current call that have not been seen
			for j := 0; j < cfg[0]; j++ {
				j := j
				w.OnMessage(func(m nmdc.Message) (bool, error) {
					idx = msgs[m]
					got.add("0.%d %s", j, dump(m))
					return vs.answer(vs.v[idx][0][j])
				})
			}
			for j := 0; j < cfg[1]; j++ {
				j := j
				w.OnLine(func(line []byte) (bool, error) {
					if j == 0 {
						// a line belongs to the next message with that encoding
						for len(pending) > 0 {
							idx = pending[0]
							pending = pending[1:]
							if items[idx].line == string(line) && !dropped(vs.v[idx][0]) {
								break
							}
						}
					}
					got.add("1.%d %s", j, string(line))
					return vs.answer(vs.v[idx][1][j])
				})
			}
			for _, b := range batches {
				pending = append([]int(nil), b...)
				var arr []nmdc.Message
				for _, i := range b {
					arr = append(arr, items[i].m)
				}
				var err error
				if arr[0] == nil {
					err = w.WriteKeepAlive()
				} else {
					err = w.WriteMsg(arr...)
				}
				c.Op()
				vs.logRes(got, err)
			}
			err := w.Flush()
			c.Assert((err != nil) == (sticky != nil), "flush: %v after %v", err, sticky)
			compareLogs(c, want, got, sink.String())
			if sticky == nil {
				c.Assert(out.String() == sink.String(), "written %q, expected %q", out.String(), sink.String())
			} else {
				c.Assert(strings.HasPrefix(sink.String(), out.String()), "written %q, expected a prefix of %q", out.String(), sink.String())
			}
		}}

		alines := []hookLine{
			{line: "ISUP ADBASE\n", msg: `*InfoPacket{Msg:*Supported{Features:map[x"BASE"=true]}}`},
			{line: "BMSG AAAA x\\sy\n", msg: `*BroadcastPacket{ID:x"AAAA" Msg:*ChatMessage{Text:"x y" PM:nil Me:false TS:0}}`},
			{line: "\n", keep: true},
			{line: "XBAD x\n", bad: true},
			{line: "IZZZ z z\n", msg: `*InfoPacket{Msg:**RawMessage{Type:x"ZZZ" Data:x"z z"}}`},
			{line: "BMSG AA\n", bad: true},
		}
		readADC := S{Name: "adc-read", Bound: fmt.Sprintf("all streams of <= %d ADC lines of %d kinds, 0-2 line hooks and the keep-alive callback, every placement of <= %d drop/fail verdicts", n+1, len(alines), dev), Run: func(c *C) {
			c.SetDeviations(dev)
			var lines []hookLine
			stream := ""
			for k := 1 + c.Choose(n+1); k > 0; k-- {
				l := alines[c.Choose(len(alines))]
				lines = append(lines, l)
				stream += l.line
			}
			cfgs := [][]int{{2, 1}, {1, 0}, {0, 1}}
			cfg := cfgs[c.Choose(len(cfgs))]
			vs := chooseVerdicts(c, len(lines), cfg, kinds)
			want := &hookLog{}
			for i, l := range lines {
				if stop, err := vs.model(want, i, 0, l.line); stop {
					if err != nil {
						want.add("error %v", err)
					}
					continue
				}
				if l.keep {
					if _, err := vs.model(want, i, 1, "keepalive"); err != nil {
						want.add("error %v", err)
					}
					continue
				}
				if l.bad {
					want.add("error")
					continue
				}
				want.add("message %s", l.msg)
			}
			want.add("end")
			got := &hookLog{}
			r := adc.NewReader(strings.NewReader(stream))
			idx := -1
			r.OnLine(func([]byte) (bool, error) { idx++; return true, nil })
			for j := 0; j < cfg[0]; j++ {
				j := j
				r.OnLine(func(line []byte) (bool, error) {
					got.add("0.%d %s", j, string(line))
					return vs.answer(vs.v[idx][0][j])
				})
			}
			if cfg[1] != 0 {
				r.OnKeepAlive = func() error {
					got.add("1.0 keepalive")
					_, err := vs.answer(vs.v[idx][1][0])
					return err
				}
			}
			vs.readAll(c, got, len(lines), func() (string, error) {
				p, err := r.ReadPacket()
				if err != nil {
					return "", err
				}
				return dump(p), nil
			})
			compareLogs(c, want, got, stream)
		}}

		writeADC := S{Name: "adc-write", Bound: fmt.Sprintf("all sequences of <= %d packets and keep-alives, 0-2 line hooks, every placement of <= %d drop/fail verdicts", n+1, dev), Run: func(c *C) {
			c.SetDeviations(dev)
			akinds := []string{"HPAS x\n", "\n", "IMSG a\\sb\n"}
			var items []string
			for k := 1 + c.Choose(n+1); k > 0; k-- {
				items = append(items, akinds[c.Choose(len(akinds))])
			}
			nh := c.Choose(3)
			vs := chooseVerdicts(c, len(items), []int{nh}, kinds)
			want := &hookLog{}
			sink := ""
			var sticky error
			for i, l := range items {
				if sticky != nil {
					want.add("error %v", sticky)
					continue
				}
				stop, err := vs.model(want, i, 0, l)
				if err != nil {
					sticky = err
				} else if !stop {
					sink += l
				}
				if err != nil {
					want.add("error %v", err)
				} else {
					want.add("ok")
				}
			}
			got := &hookLog{}
			var out bytes.Buffer
			w := adc.NewWriter(&out)
			idx := 0
			for j := 0; j < nh; j++ {
				j := j
				w.OnLine(func(line []byte) (bool, error) {
					got.add("0.%d %s", j, string(line))
					return vs.answer(vs.v[idx][0][j])
				})
			}
			for i, l := range items {
				idx = i
				var err error
				switch l {
				case "\n":
					err = w.WriteKeepAlive()
				case akinds[0]:
					err = w.WriteHub(&adc.RawMessage{Type: adc.MsgType{'P', 'A', 'S'}, Data: []byte("x")})
				default:
					err = w.WriteInfo(adc.ChatMessage{Text: "a b"})
				}
				c.Op()
				vs.logRes(got, err)
			}
			err := w.Flush()
			c.Assert((err != nil) == (sticky != nil), "flush: %v after %v", err, sticky)
			compareLogs(c, want, got, sink)
			if sticky == nil {
				c.Assert(out.String() == sink, "written %q, expected %q", out.String(), sink)
			} else {
				c.Assert(strings.HasPrefix(sink, out.String()), "written %q, expected a prefix of %q", out.String(), sink)
			}
		}}
		out := []S{readNMDC, writeNMDC, readADC, writeADC}
		for i := range out {
			out[i].Name += suffix
			if len(kinds) > 1 {
				out[i].Bound += fmt.Sprintf("; failing hooks report one of %d kinds of errors", len(kinds))
			}
		}
		return out
	}

	register("C07", []string{"hooks do not themselves read from or write to the connection"}, func(thorough bool) []S {
		n, dev := 3, 2
		if thorough {
			n, dev = 4, 3
		}
		out := build(n, dev, []error{errVerdict}, "")
		return append(out, build(1, 1, pauseKinds(), "-error-kinds")...)
	})
}

func dropped(v []int) bool {
	for _, x := range v {
		if x != vPass {
			return true
		}
	}
	return false
}

func (vs *verdicts) logRes(l *hookLog, err error) {
	switch {
	case err == nil:
		l.add("ok")
	case errors.Is(err, vs.err):
		l.add("error %v", errVerdict)
	default:
		l.add("error")
	}
}

func (vs *verdicts) readAll(c *C, l *hookLog, n int, read func() (string, error)) {
	for i := 0; i <= n; i++ {
		m, err := read()
		c.Op()
		switch {
		case errors.Is(err, vs.err):
			l.add("error %v", errVerdict)
		case err == io.EOF:
			l.add("end")
			return
		case err != nil:
			l.add("error")
		default:
			l.add("message %s", m)
		}
	}
	c.Fail("the stream does not end after %d reads: %v", n+1, l.log)
}

func compareLogs(c *C, want, got *hookLog, what string) {
	c.Logf("events: %s", strings.Join(got.log, "; "))
	w, g := strings.Join(want.log, "; "), strings.Join(got.log, "; ")
	c.Assert(w == g, "%q:\n  events:   %s\n  expected: %s", what, g, w)
	c.StateS(g)
}
