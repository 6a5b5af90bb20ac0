//go:build mcsched

package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"time"

	"golang.org/x/text/encoding/charmap"

	dc "github.com/direct-connect/go-dc"
	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/lineproto"
	"github.com/direct-connect/go-dc/nmdc"
	"github.com/direct-connect/go-dc/tiger"
	"verif/mc/sched"
)

// C24: only built by the instrumented, race-detecting build (check.sh C24).

// top is something a goroutine does with objects of its own; salt selects its data.
type top struct {
	name string
	run  func(salt int) string
	want [2]string
	n    [2]int // scheduling points
}

// salts remembers what salted returned; a cold process gets it from its parent
// and so does not use the library before the operations it runs.
var salts = func() map[string]string {
	m := map[string]string{}
	if v := os.Getenv("MC_SALTS"); v != "" {
		var l [][2][]byte // not strings: they are not always UTF-8
		if err := json.Unmarshal([]byte(v), &l); err != nil {
			panic(err)
		}
		for _, x := range l {
			m[string(x[0])] = string(x[1])
		}
	}
	return m
}()

// salted changes every letter and digit of the line that may be changed.
func salted(line string, ok func(l string) bool) string {
	if s, known := salts[line]; known {
		return s
	}
	s := saltLine(line, ok)
	salts[line] = s
	return s
}

func saltLine(line string, ok func(l string) bool) string {
	b := []byte(line)
	for i := range b {
		old := b[i]
		for _, r := range []byte("qQ5BZ2w") {
			if b[i] == r || !(old >= 'a' && old <= 'z' || old >= 'A' && old <= 'Z' || old >= '0' && old <= '9') {
				continue
			}
			b[i] = r
			if ok(string(b)) {
				break
			}
			b[i] = old
		}
	}
	return string(b)
}

func nCodec(line string, enc bool) string {
	var dec *nmdc.TextDecoder
	var en *nmdc.TextEncoder
	if enc {
		dec, en = charmap.Windows1251.NewDecoder(), charmap.Windows1251.NewEncoder()
	}
	m, err := nmdc.Unmarshal(dec, []byte(line))
	if err != nil {
		return err.Error()
	}
	d := dumpMsg(m)
	if mi, ok := m.(*nmdc.MyINFO); ok && len(mi.Extra) > 1 {
		// several extra fields are encoded in any order
		min := ""
		for k := range mi.Extra {
			if min == "" || k < min {
				min = k
			}
		}
		mi.Extra = map[string]string{min: mi.Extra[min]}
	}
	out, err := nmdc.Marshal(en, m)
	return fmt.Sprintf("%s %q %v", d, out, err)
}

func aCodec(line string) string {
	p, err := adc.DecodePacket([]byte(line))
	if err != nil {
		return err.Error()
	}
	d := dump(p)
	var buf bytes.Buffer
	err = p.MarshalPacketADC(&buf)
	return fmt.Sprintf("%s %q %v", d, buf.String(), err)
}

func topCodecs() []*top {
	var ops []*top
	lines := nmdcCorpus()
	for i, l := range lines {
		i, l := i, l
		var m0 nmdc.Message
		fix := func(l string) bool {
			if m0 == nil {
				var err error
				if m0, err = nmdc.Unmarshal(nil, []byte(lines[i])); err != nil {
					panic(err)
				}
			}
			m, err := nmdc.Unmarshal(nil, []byte(l))
			if err != nil || reflect.TypeOf(m) != reflect.TypeOf(m0) || m.Type() != m0.Type() {
				return false
			}
			out, err := nmdc.Marshal(nil, m)
			return err == nil && string(out) == l
		}
		s := salted(l, fix)
		name := strings.SplitN(strings.TrimSuffix(l, "|"), " ", 2)[0]
		ops = append(ops, &top{name: fmt.Sprintf("nmdc%d %s", len(ops), name), run: func(salt int) string {
			if salt == 0 {
				return nCodec(l, false)
			}
			return nCodec(s, false)
		}})
	}
	for _, x := range adcPayloads() {
		if x[0] == "SUP" {
			x[1] = "ADBASE" // several features are encoded in any order
		}
		l := "B" + x[0] + " ABCD"
		if x[1] != "" {
			l += " " + x[1]
		}
		l += "\n"
		fix := func(l string) bool {
			p, err := adc.DecodePacket([]byte(l))
			if err != nil || string(l[1:4]) != x[0] {
				return false
			}
			var buf bytes.Buffer
			return p.MarshalPacketADC(&buf) == nil && len(buf.Bytes()) == len(l)
		}
		s := salted(l, fix)
		ops = append(ops, &top{name: fmt.Sprintf("adc%d %s", len(ops), x[0]), run: func(salt int) string {
			if salt == 0 {
				return aCodec(l)
			}
			return aCodec(s)
		}})
	}
	return ops
}

// topStreams are whole connections, hashes and helpers.
func topStreams() []*top {
	text := func(salt int, s string) string {
		if salt == 0 {
			return s
		}
		return strings.Map(func(r rune) rune {
			switch {
			case r >= 'a' && r < 'z':
				return r + 1
			case r >= '0' && r < '9':
				return r + 1
			}
			return r
		}, s)
	}
	nread := func(z bool) func(salt int) string {
		return func(salt int) string {
			data := []byte("<us> " + text(salt, "hello 12") + "|")
			rest := []byte("$To: aa From: bb $<bb> " + text(salt, "world") + "|")
			if z {
				data = append(append(data, "$ZOn|"...), deflate(rest, 6)...)
			} else {
				data = append(data, rest...)
			}
			r := nmdc.NewReader(bytes.NewReader(data))
			defer r.Close()
			var b strings.Builder
			for {
				m, err := r.ReadMsg()
				if err != nil {
					return b.String() + err.Error()
				}
				b.WriteString(dumpMsg(m))
				if _, ok := m.(*nmdc.ZOn); ok {
					fmt.Fprint(&b, r.EnableZlib())
				}
			}
		}
	}
	nwrite := func(z bool) func(salt int) string {
		return func(salt int) string {
			var buf bytes.Buffer
			w := nmdc.NewWriterSize(&buf, 16)
			e1 := w.WriteMsg(&nmdc.ChatMessage{Name: "us", Text: text(salt, "hello 12")})
			if z {
				fmt.Fprint(&buf)
				if err := w.ZOn(); err != nil {
					return err.Error()
				}
			}
			e2 := w.WriteMsg(&nmdc.PrivateMessage{To: "aa", From: "bb", Name: "bb", Text: text(salt, "world")})
			e3 := w.Flush()
			e4 := w.Close()
			return fmt.Sprintf("%q %v %v %v %v", buf.String(), e1, e2, e3, e4)
		}
	}
	ops := []*top{
		{name: "nmdc reader", run: nread(false)},
		{name: "nmdc reader, compressed", run: nread(true)},
		{name: "nmdc writer", run: nwrite(false)},
		{name: "nmdc writer, compressed", run: nwrite(true)},
		{name: "nmdc text encoding", run: func(salt int) string {
			return nCodec("<us> "+string([]byte{0xc6, 0xe0, byte(0xe1 + salt)})+"|", true)
		}},
		{name: "nmdc unknown encoding", run: func(salt int) string {
			r := nmdc.NewReader(strings.NewReader("<us> " + string([]byte{0xc6, byte(0xe1 + salt)}) + "|"))
			r.OnUnknownEncoding = func(text []byte) (*nmdc.TextDecoder, error) {
				if salt == 0 {
					return charmap.Windows1251.NewDecoder(), nil
				}
				return charmap.Windows1252.NewDecoder(), nil
			}
			m, err := r.ReadMsg()
			if err != nil {
				return err.Error()
			}
			return dumpMsg(m)
		}},
		{name: "nmdc refused lines", run: func(salt int) string {
			long := strings.Repeat(text(salt, "a"), 257+salt)
			var errs []error
			for _, l := range []string{
				"<" + long + "> t", "<" + text(salt, "abc"), "$" + long, "$ " + text(salt, "x"), "$" + text(salt, "\xc3\x80 a"),
				"$MyINFO " + text(salt, "$x"), "$MyINFO $ALL " + text(salt, "u d<t>$ $$$"), "$MyINFO $ALL " + text(salt, "u d<t V:1,S:x>$ $$$$"),
				"$To: " + text(salt, "ab cd"), "$Hello " + text(salt, "a$b"), "$Hello " + long, "$SR " + text(salt, "ab cd"), "$Search " + text(salt, "ab cd"),
				"$UserCommand " + text(salt, "a b c"), "$Direction " + text(salt, "a"), "$GetNickList " + text(salt, "a"), "<" + text(salt, "u") + "> " + string([]byte{0xc0, byte(0xe1 + salt)}),
			} {
				_, err := nmdc.NewReader(strings.NewReader(l + "|")).ReadMsg()
				errs = append(errs, err)
			}
			r := nmdc.NewReader(strings.NewReader("$Quit " + text(salt, "ab") + "|" + text(salt, "chat") + "|"))
			errs = append(errs, r.ReadMsgTo(&nmdc.Hello{}), r.ReadMsgTo(&nmdc.Hello{}))
			return errText(errs)
		}},
		{name: "adc refused packets", run: func(salt int) string {
			var errs []error
			for _, l := range []string{
				"X" + text(salt, "abc") + " x\n", "B" + text(salt, "abc") + "\n", "BMSG " + text(salt, "abcde") + "\n", "DMSG ABCD " + text(salt, "abcde") + "\n",
				"FMSG ABCD +" + text(salt, "ab") + "\n", "FMSG ABCD +" + text(salt, "abcde") + "\n", "UMSG " + text(salt, "abcde") + "\n", "BINF ABCD SL" + text(salt, "a") + "\n",
				"BINF ABCD ID" + text(salt, "a") + "\n", "ISTA " + text(salt, "x1") + " a\n", "ISUP AD" + text(salt, "abc") + "\n", "IGPA " + text(salt, "ab1") + "\n", "BINF ABCD SU" + text(salt, "ab,c") + "\n", "I" + text(salt, "ab"),
			} {
				_, err := adc.DecodePacket([]byte(l))
				errs = append(errs, err)
			}
			var h tiger.Hash
			var id adc.SID
			errs = append(errs, h.FromBase32(text(salt, "ab")), h.UnmarshalBase32([]byte(strings.Repeat(text(salt, "a"), 39))), id.UnmarshalADC([]byte(text(salt, "abc"))))
			return errText(errs)
		}},
		{name: "nmdc lock and key", run: func(salt int) string {
			l := nmdc.Lock{Lock: text(salt, "EXTENDEDPROTOCOLabcdef"), PK: "x"}
			return fmt.Sprintf("%q", l.Key())
		}},
		{name: "adc reader", run: func(salt int) string {
			r := adc.NewReader(strings.NewReader("IINF NI" + text(salt, "nick") + " DE" + text(salt, "a\\sb") + "\nBMSG ABCD " + text(salt, "hi\\sthere") + "\n"))
			var b strings.Builder
			for {
				p, err := r.ReadPacket()
				if err != nil {
					return b.String() + err.Error()
				}
				b.WriteString(dump(p))
			}
		}},
		{name: "adc writer", run: func(salt int) string {
			var buf bytes.Buffer
			w := adc.NewWriterSize(&buf, 16)
			e1 := w.WriteInfo(adc.UserInfo{Name: text(salt, "nick"), Desc: text(salt, "a b")})
			e2 := w.WriteBroadcast(sid("ABCD"), adc.ChatMessage{Text: text(salt, "hi there\n")})
			e3 := w.Flush()
			return fmt.Sprintf("%q %v %v %v", buf.String(), e1, e2, e3)
		}},
		{name: "line reader", run: func(salt int) string {
			r := lineproto.NewReader(strings.NewReader(text(salt, "line1;line2;")), ';')
			r.OnLine(func(l []byte) (bool, error) { return string(l) != "x;", nil })
			a, e1 := r.ReadLine()
			x := string(a)
			buf := make([]byte, 3)
			n, e2 := r.Read(buf)
			b, e3 := r.ReadLine()
			return fmt.Sprintf("%q %v %q %v %q %v", x, e1, buf[:n], e2, b, e3)
		}},
		{name: "tree hash", run: func(salt int) string {
			data := pattern(1025, salt)
			h := tiger.HashBytes(data[:70])
			l, err := tiger.TreeLeaves(bytes.NewReader(data))
			t, err2 := tiger.TreeHash(bytes.NewReader(data[:100]))
			var p tiger.Hash
			err3 := p.FromBase32(h.Base32())
			return fmt.Sprintf("%s %v %v %s %v %s %v", h.Base32(), l, err, l.TreeHash().Base32(), err2, t.Base32(), err3) + fmt.Sprint(p == h)
		}},
		{name: "session and client ids", run: func(salt int) string {
			var s adc.SID
			e1 := s.UnmarshalADC([]byte([]string{"ABCD", "WXYZ"}[salt]))
			var c adc.CID
			e2 := c.FromBase32([]string{"AAAQEAYEAUDAOCAJBIFQYDIOB4IBCEQTCQKRMFY", "IAAQEAYEAUDAOCAJBIFQYDIOB4IBCEQTCQKRMFY"}[salt])
			return fmt.Sprint(s, e1, c.Base32(), e2)
		}},
		{name: "addresses", run: func(salt int) string {
			a, e1 := dc.NormalizeAddr(text(salt, "ADCS://Host.name:411/x/?y=1"))
			b, e2 := dc.NormalizeAddr(text(salt, "hub.example"))
			c, e3 := adc.NormalizeAddr(text(salt, "adc://h:5000"))
			return fmt.Sprintln(a, e1, b, e2, c, e3)
		}},
		{name: "keyprint", run: func(salt int) string {
			return keyprint.FromBytes(pattern(40, salt))
		}},
		{name: "extension groups and features", run: func(salt int) string {
			f := adc.ModFeatures{adc.FeaTIGR: true, adc.FeaPING: salt == 0}
			g := f.SetFrom(adc.ModFeatures{adc.FeaBAS0: true})
			e := nmdc.Extensions{"TTHSearch": {}, text(salt, "Abc"): {}}
			return fmt.Sprint(adc.ExtAudio.Matches([]string{"a.MP3", "a.zip"}[salt]), g.IsSet(adc.FeaPING), f.Join() != "", e.List(), e.IntersectList([]string{"Abc"}).List())
		}},
	}
	return ops
}

// errText formats errors after all of them were returned.
func errText(errs []error) string {
	var b strings.Builder
	for _, err := range errs {
		fmt.Fprintf(&b, "%v\n", err)
	}
	return b.String()
}

// measure runs every operation alone.
func measure(ops []*top) []*top {
	for _, o := range ops {
		for s := range o.want {
			s := s
			o := o
			var out string
			n, p, _ := sched.Run(nil, func() { out = o.run(s) })
			if p[0] != nil {
				panic(fmt.Sprintf("%s alone panics: %v", o.name, p[0]))
			}
			o.want[s], o.n[s] = out, n[0]
		}
		if o.n[0] == 0 {
			panic("harness: no scheduling points in " + o.name)
		}
	}
	return ops
}

func topAll() (codecs, light, heavy []*top) {
	codecs = topCodecs()
	for _, o := range topStreams() {
		if strings.Contains(o.name, "compressed") {
			heavy = append(heavy, o)
		} else {
			light = append(light, o)
		}
	}
	return
}

// coldSpec is one run in a process of its own, in which the library has not
// been used before. A and B are indexes into topAll; B < 0: A alone.
type coldSpec struct {
	A, B int
	Segs []sched.Seg
	Salt int // when alone
}

type coldRes struct {
	Out   [2]string
	N     [2]int
	Panic [2]string
	Dead  bool
	Warm  int64 // scheduling points passed before the run
}

func init() {
	Cold = func(arg string) string {
		var sp coldSpec
		if err := json.Unmarshal([]byte(arg), &sp); err != nil {
			panic(err)
		}
		codecs, light, heavy := topAll()
		ops := append(append(codecs, light...), heavy...)
		var r coldRes
		r.Warm = sched.Unmanaged() - initPoints
		bodies := []func(){func() { r.Out[0] = ops[sp.A].run(sp.Salt) }}
		if sp.B >= 0 {
			bodies = append(bodies, func() { r.Out[1] = ops[sp.B].run(1) })
		}
		n, p, e := sched.Run(sp.Segs, bodies...)
		copy(r.N[:], n)
		for i := range p {
			if p[i] != nil {
				r.Panic[i] = fmt.Sprint(p[i])
			}
		}
		r.Dead = e.Deadlock
		b, _ := json.Marshal(r)
		return string(b)
	}
}

var saltsJSON struct {
	sync.Once
	v string
}

func runCold(c *C, sp coldSpec) coldRes {
	saltsJSON.Do(func() {
		var l [][2][]byte
		for k, v := range salts {
			l = append(l, [2][]byte{[]byte(k), []byte(v)})
		}
		b, _ := json.Marshal(l)
		saltsJSON.v = "MC_SALTS=" + string(b)
	})
	arg, _ := json.Marshal(sp)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	for try := 0; ; try++ {
		cmd := exec.Command(exe, "-cold", string(arg))
		cmd.Env = append(os.Environ(), saltsJSON.v, "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		var ob, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &ob, &eb
		err := cmd.Start()
		if err == nil {
			t := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
			err = cmd.Wait()
			t.Stop()
		}
		var r coldRes
		if err == nil && json.Unmarshal(ob.Bytes(), &r) == nil {
			if r.Warm != 0 {
				panic(fmt.Sprintf("harness: %d scheduling points before the cold run", r.Warm))
			}
			return r
		}
		msg := eb.String()
		if strings.Contains(msg, "DATA RACE") {
			for _, l := range strings.Split(msg, "\n") {
				c.Logf("%s", l)
			}
			c.Fail("cold process: two goroutines access the same memory without synchronisation: %s", raceSites(msg))
		}
		if strings.Contains(msg, "fatal error:") || strings.Contains(msg, "panic:") {
			c.Fail("cold process dies: %s", clips(msg))
		}
		if try == 2 {
			panic(fmt.Sprintf("harness: cold process: %v: %s", err, clips(msg)))
		}
		time.Sleep(100 * time.Millisecond)
	}
}

// raceSites are the functions of the library in a race report.
func raceSites(msg string) string {
	var out []string
	for _, l := range strings.Split(msg, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/direct-connect/go-dc") && len(out) < 6 {
			out = append(out, l)
		}
	}
	return strings.Join(out, ", ")
}

func checkCold(c *C, ops [2]*top, r coldRes, sp coldSpec) {
	c.Ops(r.N[0] + r.N[1])
	c.Checked()
	if c.Tracing() {
		c.Logf("cold process, schedule %v; points passed %v", sp.Segs, r.N)
	}
	c.Assert(!r.Dead, "cold process: %s and %s block each other in schedule %v", ops[0].name, ops[1].name, sp.Segs)
	for i, o := range ops {
		if i == 1 && sp.B < 0 {
			break
		}
		want := o.want[i]
		if sp.B < 0 {
			want = o.want[sp.Salt]
		}
		c.Assert(r.Panic[i] == "", "cold process: %s panics in schedule %v: %s", o.name, sp.Segs, r.Panic[i])
		c.Assert(r.Out[i] == want, "cold process: %s in schedule %v gives\n%s, alone in a warm process it gives\n%s", o.name, sp.Segs, clips(r.Out[i]), clips(want))
	}
}

// coldPoints is the number of scheduling points of an operation in a cold process.
func coldPoints(c *C, ops []*top, i, salt int) int {
	sp := coldSpec{A: i, B: -1, Salt: salt}
	r := runCold(c, sp)
	checkCold(c, [2]*top{ops[i], ops[i]}, r, sp)
	return r.N[0]
}

// coldScenarios run operations in processes in which the library was not used
// before: state that is created on first use is created while both run.
func coldScenarios(ops []*top, thorough bool) []S {
	pts := make([][2]int, len(ops)) // points when cold
	once := make([]sync.Once, len(ops))
	points := func(c *C, i int) [2]int {
		once[i].Do(func() {
			for s := range pts[i] {
				pts[i][s] = runCold(c, coldSpec{A: i, B: -1, Salt: s}).N[0]
			}
		})
		return pts[i]
	}
	list := []S{
		{"cold, alone", fmt.Sprintf("each of %d operations in a process in which nothing of the library was used before", len(ops)), func(c *C) {
			i, s := c.Choose(len(ops)), c.Choose(2)
			coldPoints(c, ops, i, s)
			c.StateS(fmt.Sprint(i, s))
		}},
		{"cold, pairs", fmt.Sprintf("every ordered pair of %d operations, the second after the first on another goroutine, in a process in which nothing of the library was used before", len(ops)), func(c *C) {
			i, j := c.Choose(len(ops)), c.Choose(len(ops))
			sp := coldSpec{A: i, B: j}
			checkCold(c, [2]*top{ops[i], ops[j]}, runCold(c, sp), sp)
			c.StateS(fmt.Sprint(i, j))
		}},
		{"cold, first use", "each operation whose first use in a process takes another path than later ones, next to itself, every schedule with at most one preemption of the first one", func(c *C) {
			i := c.Choose(len(ops))
			n := points(c, i)
			if n[0] == 0 {
				return // fails alone
			}
			if !thorough && n == ops[i].n {
				return // (the thorough tier explores these as well)
			}
			sp := coldSpec{A: i, B: i, Segs: []sched.Seg{{Thread: 0, Points: 1 + c.Choose(n[0])}, {Thread: 1, Points: -1}}}
			checkCold(c, [2]*top{ops[i], ops[i]}, runCold(c, sp), sp)
			c.StateS(fmt.Sprint(i, sp.Segs))
		}},
	}
	if thorough {
		list[2].Bound = "each operation next to itself in a process in which nothing of the library was used before, every schedule with at most one preemption of the first one"
	}
	return list
}

// chooseSegs chooses a schedule: who starts and after how many points each
// preemption takes place.
func chooseSegs(c *C, points [2]int, bound int) []sched.Seg {
	t := c.Choose(2)
	var segs []sched.Seg
	for i := 0; i < bound; i++ {
		segs = append(segs, sched.Seg{Thread: t, Points: 1 + c.Choose(points[t])})
		t = 1 - t
	}
	return append(segs, sched.Seg{Thread: t, Points: -1})
}

// interleave runs two operations; bound is the number of preemptions.
func interleave(c *C, a, b *top, bound int) {
	ops := []*top{a, b}
	segs := chooseSegs(c, [2]int{a.n[0], b.n[1]}, bound)
	var out [2]string
	n, p, e := sched.Run(segs,
		func() { out[0] = a.run(0) },
		func() { out[1] = b.run(1) })
	c.Ops(n[0] + n[1])
	c.Checked()
	if c.Tracing() {
		c.Logf("schedule %v (thread, scheduling points until the switch); points passed %v", segs, n)
	}
	for i := range ops {
		c.Assert(p[i] == nil, "goroutine %d (%s) panics next to %s in schedule %v: %v", i, ops[i].name, ops[1-i].name, segs, p[i])
	}
	c.Assert(!e.Deadlock, "%s and %s block each other in schedule %v", a.name, b.name, segs)
	for i := range ops {
		c.Assert(out[i] == ops[i].want[i], "%s next to %s in schedule %v gives\n%s, alone it gives\n%s", ops[i].name, ops[1-i].name, segs, clips(out[i]), clips(ops[i].want[i]))
	}
	c.StateS(fmt.Sprint(a.name, b.name, segs))
}

// switchable is a connection whose text encoding another goroutine changes.
func encoderSwitch(c *C, bound int, read bool, points *[2]int) {
	oldE, newE := charmap.Windows1251, charmap.Windows1252
	const k = 3
	texts := [2][]string{}
	// the same line in both encodings; é and Ж exist only in one of them, so use bytes
	raw := func(i int) string {
		s := string([]byte{0xe9, 0xc6, byte('0' + i)})
		return "$MyINFO $ALL nick " + s + "<x V:1,M:A,H:1/2/3,S:4>$ $" + s + "\x01$" + s + "$5$|"
	}
	for j, cm := range []*charmap.Charmap{oldE, newE} {
		for i := 0; i < k+1; i++ {
			m, err := nmdc.Unmarshal(cm.NewDecoder(), []byte(raw(i)))
			if err != nil {
				panic(err)
			}
			texts[j] = append(texts[j], dumpMsg(m))
		}
	}
	var got []string
	var body, change func()
	var after func() string
	if read {
		var in string
		for i := 0; i < k+1; i++ {
			in += raw(i)
		}
		r := nmdc.NewReader(strings.NewReader(in))
		r.SetDecoder(oldE.NewDecoder())
		nd := newE.NewDecoder()
		next := func() string {
			m, err := r.ReadMsg()
			if err != nil {
				return err.Error()
			}
			return dumpMsg(m)
		}
		body = func() {
			for i := 0; i < k; i++ {
				got = append(got, next())
			}
		}
		change = func() { r.SetDecoder(nd) }
		after = next
	} else {
		// texts that both encodings can hold, at different bytes
		var sink bytes.Buffer
		w := nmdc.NewWriterSize(&sink, 64)
		w.SetEncoder(charmap.CodePage850.NewEncoder())
		ne := charmap.Windows1252.NewEncoder()
		msg := func(i int) *nmdc.MyINFO {
			s := "éü" + fmt.Sprint(i)
			return &nmdc.MyINFO{Name: "né", Desc: s, Client: dc.Software{Name: "x", Version: "1"}, Mode: 'A', Conn: s, Flag: 1, Email: s}
		}
		for j, cm := range []*charmap.Charmap{charmap.CodePage850, charmap.Windows1252} {
			texts[j] = nil
			for i := 0; i < k+1; i++ {
				l, err := nmdc.Marshal(cm.NewEncoder(), msg(i))
				if err != nil {
					panic(err)
				}
				texts[j] = append(texts[j], string(l))
			}
		}
		send := func(i int) string {
			n := sink.Len()
			if err := w.WriteMsg(msg(i)); err != nil {
				return err.Error()
			}
			if err := w.Flush(); err != nil {
				return err.Error()
			}
			return string(sink.Bytes()[n:])
		}
		body = func() {
			for i := 0; i < k; i++ {
				got = append(got, send(i))
			}
		}
		change = func() { w.SetEncoder(ne) }
		after = func() string { return send(k) }
	}
	var segs []sched.Seg
	if c != nil {
		segs = chooseSegs(c, *points, bound)
	}
	n, p, e := sched.Run(segs, body, change)
	if c == nil {
		points[0], points[1] = n[0]+5, n[1]+5
		return
	}
	last := after()
	c.Ops(n[0] + n[1])
	c.Checked()
	c.Assert(p[0] == nil && p[1] == nil && !e.Deadlock, "schedule %v: %v", segs, p)
	c.Assert(len(got) == k, "schedule %v: %d messages", segs, len(got))
	switched := false
	for i, g := range got {
		switch {
		case g == texts[1][i]:
			switched = true
		case g == texts[0][i]:
			c.Assert(!switched, "schedule %v: message %d uses the old encoding after message %d used the new one", segs, i, i-1)
		default:
			c.Fail("schedule %v: message %d is %q; with the old encoding it is %q, with the new one %q", segs, i, g, texts[0][i], texts[1][i])
		}
	}
	c.Assert(last == texts[1][k], "schedule %v: the message after the change is %q, want %q", segs, last, texts[1][k])
	c.StateS(fmt.Sprint(segs, switched))
}

func init() {
	register("C24", []string{
		"at most the given number of preemptions (switches are possible before every statement of the library; the standard library and x/text run without switches inside)",
		"two goroutines",
		"every explored schedule also runs under the race detector, with no synchronisation between the goroutines except what the library does itself",
		"sync.Pool is modelled as a stack that always reuses the last value",
	}, func(thorough bool) []S {
		codecs, light, heavy := topAll()
		measure(codecs)
		measure(light)
		measure(heavy)
		streams := append(append([]*top{}, light...), heavy...)
		name := func(o *top) string { return o.name }
		all := append(append([]*top{}, codecs...), light...)
		var list []S
		if thorough {
			list = append(list,
				S{"all pairs", fmt.Sprintf("every ordered pair of %d operations, every schedule with at most one preemption", len(all)), func(c *C) {
					a, b := all[c.Choose(len(all))], all[c.Choose(len(all))]
					interleave(c, a, b, 1)
				}},
				S{"same message types", "every pair of goroutines encoding and decoding different messages of one type, every schedule with at most two preemptions", func(c *C) {
					a := codecs[c.Choose(len(codecs))]
					interleave(c, a, a, 2)
				}},
				S{"same operations", "every pair of goroutines doing the same with connections, hashes, keys, addresses and sets of their own, every schedule with at most two preemptions", func(c *C) {
					a := light[c.Choose(len(light))]
					interleave(c, a, a, 2)
				}},
				S{"compression", "every pair of a compressed connection and any operation, every schedule with at most one preemption", func(c *C) {
					a, b := heavy[c.Choose(len(heavy))], streams[c.Choose(len(streams))]
					interleave(c, a, b, 1)
				}})
		} else {
			var others []*top
			for _, o := range all {
				switch n := name(o); {
				case n == "nmdc reader", n == "nmdc writer", n == "adc writer", n == "adc reader", strings.HasSuffix(n, " RES"):
					others = append(others, o)
				}
			}
			list = append(list,
				S{"same operations", fmt.Sprintf("every pair of goroutines doing the same of %d operations (messages of every type, connections, hashes, keys, addresses, sets) with different data, every schedule with at most one preemption", len(all)), func(c *C) {
					a := all[c.Choose(len(all))]
					interleave(c, a, a, 1)
				}},
				S{"pairs", fmt.Sprintf("every pair of one of %d operations and one of %d connection operations, every schedule with at most one preemption", len(all), len(others)), func(c *C) {
					a, b := all[c.Choose(len(all))], others[c.Choose(len(others))]
					interleave(c, a, b, 1)
				}},
				S{"compression", "pairs of compressed connections, every schedule with at most one preemption", func(c *C) {
					interleave(c, heavy[c.Choose(len(heavy))], heavy[c.Choose(len(heavy))], 1)
				}})
		}
		list = append(list, mergeScenarios(thorough)...)
		list = append(list, coldScenarios(append(append([]*top{}, all...), heavy...), thorough)...)
		for _, read := range []bool{false, true} {
			read := read
			what := "writer"
			if read {
				what = "reader"
			}
			bound := 2
			if thorough {
				bound = 3
			}
			var pts [2]int
			encoderSwitch(nil, 0, read, &pts)
			list = append(list, S{"encoding change, " + what, fmt.Sprintf("the encoding of a %s is changed by another goroutine at any statement while three messages pass, at most %d preemptions", what, bound), func(c *C) {
				encoderSwitch(c, bound, read, &pts)
			}})
		}
		return list
	})
}
