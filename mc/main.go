// Command mc runs the model-checking scenarios of one property against the
// library built from /repo's working tree.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/mc/checks"
	"verif/mc/engine"
)

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fOut     = flag.String("out", "/verif", "directory of evidence/, replays/ and known_findings.txt")
	fReplay  = flag.String("replay", "", "replay file")
	fChild   = flag.Bool("child", false, "internal")
	fList    = flag.Bool("list", false, "list scenarios")
	fOnly    = flag.String("only", "", "run only scenarios containing this text (debugging; no evidence)")
	fBudget  = flag.Float64("budget", 0, "seconds")
	fCold    = flag.String("cold", "", "internal")
	fWorkers = flag.Int("workers", 0, "workers")
)

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Scenario string   `json:"scenario"`
	Message  string   `json:"message"`
	Choices  []int    `json:"choices"`
	Stable   bool     `json:"reproduced_5_of_5"`
	Trace    []string `json:"trace"`
	HowTo    string   `json:"how_to_replay"`
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	if *fCold != "" {
		fmt.Println(checks.Cold(*fCold))
		return
	}
	if *fReplay != "" {
		os.Exit(replay())
	}
	if *fList {
		for _, id := range checks.IDs() {
			for _, s := range checks.Get(id).Scenarios(*fTier == "thorough") {
				fmt.Printf("%s %s: %s\n", id, s.Name, s.Bound)
			}
		}
		return
	}
	if *fChild {
		os.Exit(run())
	}
	os.Exit(supervise())
}

// supervise runs the exploration in a child process so that a fatal error of
// the code under test (stack overflow, concurrent map access, memory) is
// reported as what it is.
func supervise() int {
	args := append([]string{"-child"}, os.Args[1:]...)
	var last []byte
	for try := 0; try < 2; try++ {
		cmd := exec.Command(os.Args[0], args...)
		var eb bytes.Buffer
		cmd.Stdout = os.Stdout
		cmd.Stderr = &tee{os.Stderr, &eb}
		err := cmd.Run()
		if err == nil {
			return 0
		}
		code := cmd.ProcessState.ExitCode()
		if code == 1 || code == 3 {
			return code
		}
		last = eb.Bytes()
		if !bytes.Contains(last, []byte("DATA RACE")) && !bytes.Contains(last, []byte("fatal error:")) && !bytes.Contains(last, []byte("panic:")) && code != -1 {
			fmt.Fprintf(os.Stderr, "mc: child exit %d\n", code)
			return 3
		}
		fmt.Fprintf(os.Stderr, "mc: child crashed (exit %d), attempt %d\n", code, try+1)
	}
	if len(last) > 20000 {
		last = last[:20000]
	}
	msg := "the process running the library was killed by a fatal error, twice"
	if bytes.Contains(last, []byte("DATA RACE")) {
		msg = "two goroutines access the same memory without synchronisation, twice"
	}
	path := writeReplay(replayFile{Property: *fProp, Tier: *fTier, Scenario: "(process crash)", Message: msg, Trace: strings.Split(string(last), "\n")})
	fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
	return 1
}

type tee struct {
	a, b interface{ Write([]byte) (int, error) }
}

func (t *tee) Write(p []byte) (int, error) {
	t.b.Write(p)
	return t.a.Write(p)
}

func writeReplay(r replayFile) string {
	dir := filepath.Join(*fOut, "replays")
	os.MkdirAll(dir, 0o755)
	name := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", r.Property, sanitize(r.Scenario), time.Now().UnixNano()))
	r.HowTo = fmt.Sprintf("sh /verif/check.sh replay %s", name)
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(name, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "mc: cannot write replay:", err)
	}
	return name
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func loadKnown(prop string) {
	f, err := os.Open(filepath.Join(*fOut, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=C10 key=<key> text
		fs := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(fs) < 3 || fs[0] != "property="+prop || !strings.HasPrefix(fs[1], "key=") {
			continue
		}
		engine.KnownFindings[strings.TrimPrefix(fs[1], "key=")] = fs[2]
	}
}

func run() int {
	t0 := time.Now()
	ck := checks.Get(*fProp)
	if ck == nil {
		fmt.Fprintf(os.Stderr, "mc: unknown property %q\n", *fProp)
		return 3
	}
	thorough := *fTier == "thorough"
	loadKnown(*fProp)
	budget := 400.0
	if thorough {
		budget = 3000
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	end := t0.Add(time.Duration(budget * float64(time.Second)))
	scs := ck.Scenarios(thorough)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	var (
		stats   []engine.Stats
		samples []interface{}
		vios    []engine.Violation
		known   = map[string]bool{}
		tot     engine.Stats
		exh     = true
	)
	names := map[string]bool{}
	for i := range scs {
		s := &scs[i]
		if names[s.Name] {
			fmt.Fprintf(os.Stderr, "mc: duplicate scenario %s\n", s.Name)
			return 3
		}
		names[s.Name] = true
		if *fOnly != "" && !strings.Contains(s.Name, *fOnly) {
			continue
		}
		left := time.Until(end)
		dl := end
		if n := len(scs) - i; n > 1 {
			dl = time.Now().Add(time.Duration(float64(left) * 0.5))
		}
		st, vs, err := engine.Explore(s, engine.Options{Workers: *fWorkers, Deadline: dl})
		if err != nil {
			fmt.Fprintf(os.Stderr, "mc: %v\n", err)
			return 3
		}
		fmt.Printf("%s %-34s execs=%d transitions=%d states=%d skipped=%d depth=%d exhaustive=%v %.1fs\n", *fProp, s.Name, st.Executions, st.Transitions, st.States, st.Skipped, st.MaxDepth, st.Exhaustive, st.WallS)
		stats = append(stats, st)
		tot.Executions += st.Executions
		tot.Transitions += st.Transitions
		tot.Checks += st.Checks
		tot.States += st.States
		tot.Skipped += st.Skipped
		exh = exh && st.Exhaustive
		for j, tr := range st.Samples {
			if j < 3 {
				samples = append(samples, map[string]interface{}{"scenario": s.Name, "trace": tr})
			}
		}
		for _, k := range st.Known {
			known[k] = true
		}
		if len(vs) > 0 {
			vios = append(vios, vs...)
			break
		}
		if st.Executions-st.Skipped == 0 && st.Exhaustive {
			fmt.Fprintf(os.Stderr, "mc: scenario %s is vacuous\n", s.Name)
			return 3
		}
	}
	var keys []string
	for k := range known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", *fProp, engine.KnownFindings[k], k)
	}
	if *fOnly == "" {
		ev := map[string]interface{}{
			"property": *fProp, "tier": *fTier, "seed": seed, "level": "model_checking",
			"coverage": map[string]interface{}{
				"states": tot.States, "transitions": tot.Transitions,
				"traces_validated_against_impl": tot.Executions - tot.Skipped,
				"executions":                    tot.Executions,
				"oracle_comparisons":            tot.Checks,
				"outside_domain":                tot.Skipped,
				"exhaustive":                    exh,
				"samples":                       samples,
				"scenarios":                     stats,
				"rule":                          "every leaf of each scenario's choice tree is executed on the real code (built from /repo) and compared step by step with the reference model; states = distinct canonical observations per scenario, transitions = operations performed on the implementation, traces = complete executions whose every step was compared",
			},
			"assumptions": ck.Assumptions,
			"wall_s":      time.Since(t0).Seconds(),
			"violations":  len(vios),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*fOut, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(*fOut, "evidence", *fProp+".json"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "mc:", err)
			return 3
		}
	}
	if len(vios) > 0 {
		v := vios[0]
		for i := range vios {
			if len(vios[i].Choices) < len(v.Choices) {
				v = vios[i]
			}
		}
		path := writeReplay(replayFile{Property: *fProp, Tier: *fTier, Scenario: v.Scenario, Message: v.Message, Choices: v.Choices, Stable: v.Stable, Trace: v.Trace})
		fmt.Printf("violation in %s: %s\n", v.Scenario, v.Message)
		for _, l := range v.Trace {
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s executions=%d transitions=%d states=%d exhaustive=%v wall=%.1fs procs=%d\n", *fProp, *fTier, tot.Executions, tot.Transitions, tot.States, exh, time.Since(t0).Seconds(), runtime.GOMAXPROCS(0))
	return 0
}

func replay() int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	ck := checks.Get(r.Property)
	if ck == nil {
		return 3
	}
	for _, s := range ck.Scenarios(r.Tier == "thorough") {
		if s.Name != r.Scenario {
			continue
		}
		s := s
		res := engine.RunChoices(&s, r.Choices, true)
		for _, l := range res.Trace {
			fmt.Println("   ", l)
		}
		if res.Violation != "" {
			fmt.Printf("violation: %s\nVIOLATION property=%s replay=%s\n", res.Violation, r.Property, *fReplay)
			return 1
		}
		fmt.Println("no violation", res.Mismatch)
		return 0
	}
	fmt.Fprintln(os.Stderr, "scenario not found")
	return 3
}
