package harness

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"rodbsim/simrt"
)

var (
	fProp   = flag.String("prop", "", "property to explore")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Uint64("seed", 1, "seed of the exploration")
	fRuns   = flag.Int("runs", 0, "number of scenarios (0: the property's default)")
	fSecs   = flag.Int("secs", 0, "time limit in seconds (0: the tier's default)")
	fWorker = flag.String("worker", "", "internal: k/n")
	fOne    = flag.Int("one", -1, "run only this scenario index")
	fReplay = flag.String("replay", "", "replay a violation file")
	fTrace  = flag.Bool("trace", false, "print the event trace (with -replay or -one)")
	fOut    = flag.String("out", "/verif", "where evidence/ and replays/ are")
	fKnown  = flag.String("known", "/verif/known-findings.json", "known findings")
	fJobs   = flag.Int("jobs", 8, "worker processes")
	fNoMin  = flag.Bool("nomin", false, "do not minimise")
	fStrict = flag.Bool("strict", false, "a run that takes another course when repeated is an error, not a note")
	fLast   = flag.String("last", "", "write every scenario to this file before it is run")
	fKeep   = flag.Bool("keepgoing", false, "report every violation, do not stop at the first")
)

// Main is the entry point of the simulator binary.
func Main(m *testing.M) {
	flag.Parse()
	os.Setenv(envVar, "/w")
	if *fWorker != "" || *fReplay != "" || *fOne >= 0 {
		flag.Set("test.run", "^TestSim$")
		os.Exit(m.Run())
	}
	os.Exit(master())
}

// ---- messages from workers

type violationMsg struct {
	Idx      int
	Class    string
	Msg      string
	Scenario *Scenario
	Hash     string
	Min      string
	Known    string
}

type stats struct {
	Runs, Boots, Reqs, OK200, Rows      int
	Steps, Decisions, Switches          int64
	SimSecs                             float64
	Faults, Probes, Kinds, Strats, Ends map[string]int
	NonTrivial                          int
	Samples                             []json.RawMessage `json:",omitempty"`
}

func newStats() *stats {
	return &stats{Faults: map[string]int{}, Probes: map[string]int{}, Kinds: map[string]int{}, Strats: map[string]int{}, Ends: map[string]int{}}
}

func (a *stats) add(b *stats) {
	a.Runs += b.Runs
	a.Boots += b.Boots
	a.Reqs += b.Reqs
	a.OK200 += b.OK200
	a.Rows += b.Rows
	a.Steps += b.Steps
	a.Decisions += b.Decisions
	a.Switches += b.Switches
	a.SimSecs += b.SimSecs
	a.NonTrivial += b.NonTrivial
	for _, x := range b.Samples {
		if len(a.Samples) < 3 {
			a.Samples = append(a.Samples, x)
		}
	}
	for i, m := range []map[string]int{b.Faults, b.Probes, b.Kinds, b.Strats, b.Ends} {
		to := []map[string]int{a.Faults, a.Probes, a.Kinds, a.Strats, a.Ends}[i]
		for k, v := range m {
			to[k] += v
		}
	}
}

type message struct {
	Start     *int          `json:",omitempty"`
	Done      *int          `json:",omitempty"`
	Hashes    [][2]uint64   `json:",omitempty"`
	Stats     *stats        `json:",omitempty"`
	Violation *violationMsg `json:",omitempty"`
	Trouble   string        `json:",omitempty"`
	Ref       uint64        `json:",omitempty"` // hash of scenario 0, for comparing processes
	Note      string        `json:",omitempty"`
}

// ---- worker

// ctx is what the exploration of one scenario index has at hand.
type ctx struct {
	t       *testing.T
	p       *property
	idx     int
	r       *simrt.Rand
	thor    bool
	st      *stats
	hashes  [][2]uint64
	viol    []*violationMsg
	trouble string
	limit   time.Time
	dry     bool
	keep    []*Scenario
}

func (c *ctx) stop() bool {
	return c.trouble != "" || len(c.viol) > 0 || !c.limit.IsZero() && time.Now().After(c.limit)
}

// run executes a scenario, checks it and accounts for it.
func (c *ctx) run(s *Scenario) *Run {
	s.Prop = c.p.id
	if *fLast != "" {
		saveJSON(*fLast, &replayFile{Property: c.p.id, Class: "fatal", Seed: *fSeed, Index: c.idx, Min: "not minimised", Scenario: s})
	}
	run := runScenario(c.t, s)
	if run.Trouble != "" {
		c.trouble = run.Trouble
		saveJSON(filepath.Join(*fOut, "replays", c.p.id+"-trouble.json"), &replayFile{Property: c.p.id, Trouble: run.Trouble, Scenario: s})
		return run
	}
	c.account(run)
	for _, v := range c.p.check(run) {
		if k := knownFinding(c.p.id, v, s); k != "" {
			c.viol = append(c.viol, &violationMsg{Idx: c.idx, Class: v.Class, Msg: v.Msg, Scenario: clone(s), Known: k})
			continue
		}
		c.viol = append(c.viol, &violationMsg{Idx: c.idx, Class: v.Class, Msg: v.Msg, Scenario: clone(s), Hash: hex(run.W.Hash())})
		break
	}
	return run
}

func hex(h uint64) string { return fmt.Sprintf("%016x", h) }

func (c *ctx) account(run *Run) {
	st, w := c.st, run.W
	st.Runs++
	st.Kinds[orStr(run.S.Kind, "default")]++
	if run.S.Strat != nil {
		st.Strats[run.S.Strat.Kind]++
	} else {
		st.Strats["default"]++
	}
	for _, b := range run.Boots {
		st.Boots++
		st.SimSecs += b.SimTime.Seconds()
		st.Ends[bootEnd(b)]++
		for _, x := range b.Results {
			if x.Resp != nil {
				st.Reqs++
				if x.Resp.Status == 200 {
					st.OK200++
				}
			}
		}
	}
	st.Steps += w.Steps
	st.Decisions += w.Decisions
	st.Switches += w.Switches
	for k, v := range w.FaultsHit {
		st.Faults[k] += v
	}
	for k, v := range w.Probes {
		st.Probes[k] += v
	}
	if c.p.nontrivial == nil || c.p.nontrivial(run) {
		st.NonTrivial++
		c.hashes = append(c.hashes, [2]uint64{w.Hash(), w.SchedHash()})
		if c.idx < 8 && len(st.Samples) == 0 {
			st.Samples = append(st.Samples, sample(run))
		}
	}
}

// sample writes a run out for the evidence.
func sample(run *Run) json.RawMessage {
	type m = map[string]interface{}
	s := run.S
	var boots []m
	for i, b := range run.Boots {
		var reqs []string
		for _, x := range b.Results {
			got := x.Err
			if x.Resp != nil {
				got = fmt.Sprintf("%d %s", x.Resp.Status, clip(x.Resp.Body))
			}
			if len(reqs) < 6 {
				reqs = append(reqs, fmt.Sprintf("client %d: %s %s -> %s", x.Client, x.Req.method(), clip([]byte(x.Req.T)), got))
			}
		}
		x := m{"requests": reqs, "of": len(b.Results), "ended": bootEnd(b), "scheduling_points": b.Steps}
		if i < len(s.Boots) && s.Boots[i] != nil {
			if sb := s.Boots[i]; len(sb.Faults)+len(sb.Events)+len(sb.Pre) > 0 {
				x["faults"], x["events"], x["before"] = sb.Faults, sb.Events, sb.Pre
			}
		}
		boots = append(boots, x)
		if len(boots) == 4 {
			break
		}
	}
	var objs []string
	for _, in := range s.Spec.Inputs {
		objs = append(objs, fmt.Sprintf("%s input of %d records", in.Type, in.count()))
	}
	for _, x := range s.Spec.Indexes {
		objs = append(objs, x.Type+" index")
	}
	b, _ := json.Marshal(m{"kind": s.Kind, "seed": s.Seed, "strategy": s.Strat, "objects": objs, "starts": boots, "event_log_hash": hex(run.W.Hash()), "faults_hit": run.W.FaultsHit})
	if len(b) > 12000 {
		b, _ = json.Marshal(m{"kind": s.Kind, "seed": s.Seed, "strategy": s.Strat, "objects": objs, "starts": len(boots), "event_log_hash": hex(run.W.Hash()), "faults_hit": run.W.FaultsHit})
	}
	return b
}

func bootEnd(b *BootRes) string {
	switch {
	case b.Exited && b.Signalled:
		return fmt.Sprintf("exit %d after an interrupt", b.ExitCode)
	case b.Panic != "":
		return "panic"
	case b.Exited && !b.Served:
		return fmt.Sprintf("start-up refused (exit %d)", b.ExitCode)
	case b.Exited:
		return fmt.Sprintf("exit %d while serving", b.ExitCode)
	case b.Crashed:
		return "crash"
	case b.Stuck != "":
		return "stuck"
	}
	return "stopped by the environment"
}

func (p *property) explore(t *testing.T, seed uint64, idx int, thor bool, limit time.Time) *ctx {
	c := &ctx{t: t, p: p, idx: idx, r: simrt.NewRand(seed).Split(strHash(p.id)).Split(uint64(idx)), thor: thor, st: newStats(), limit: limit}
	p.explore1(c)
	return c
}

func worker(t *testing.T) {
	debug.SetGCPercent(200)
	if *fReplay != "" {
		replay(t)
		return
	}
	p := findProp(*fProp)
	if *fOne >= 0 {
		traceRuns = *fTrace
		one(t, p)
		return
	}
	var k, n int
	fmt.Sscanf(*fWorker, "%d/%d", &k, &n)
	out := os.NewFile(3, "out")
	send := func(m *message) {
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
	}
	thor := *fTier == "thorough"
	limit := time.Now().Add(time.Duration(*fSecs) * time.Second)
	acc := newStats()
	var hashes [][2]uint64
	last := time.Now()
	flush := func(i *int) {
		send(&message{Done: i, Stats: acc, Hashes: hashes})
		acc, hashes, last = newStats(), nil, time.Now()
	}
	runIdx := func(i int) *ctx {
		send(&message{Start: &i})
		return p.explore(t, *fSeed, i, thor, time.Time{})
	}
	// Every process runs scenario 0: the master compares what happened.
	ref := runIdx(0)
	if len(ref.hashes) > 0 {
		send(&message{Ref: ref.hashes[len(ref.hashes)-1][0]})
	}
	count := 0
	for i := k; i < *fRuns; i += n {
		if time.Now().After(limit) {
			send(&message{Note: "time limit"})
			break
		}
		c := runIdx(i)
		acc.add(c.st)
		hashes = append(hashes, c.hashes...)
		if c.trouble != "" {
			send(&message{Trouble: fmt.Sprintf("scenario %d: %s", i, c.trouble)})
			flush(&i)
			break
		}
		bad := false
		for _, v := range c.viol {
			if v.Known == "" {
				bad = true
				if !*fNoMin {
					send(&message{Note: "minimising"})
					minimise(t, p, v, 45*time.Second)
				}
			}
			send(&message{Violation: v})
		}
		if bad && !*fKeep {
			flush(&i)
			break
		}
		// Now and then, the same scenario again: it must take the same course.
		if count++; count%16 == 1 {
			d := p.explore(t, *fSeed, i, thor, time.Time{})
			if fmt.Sprint(d.hashes) != fmt.Sprint(c.hashes) {
				if *fStrict {
					send(&message{Trouble: fmt.Sprintf("scenario %d took another course when repeated", i)})
					break
				}
				acc.Probes["repeated runs that took another course"]++
			}
			acc.Probes["repeated runs compared"]++
		}
		if time.Since(last) > time.Second {
			flush(&i)
		}
	}
	flush(nil)
}

// one runs a single index and prints what happened.
func one(t *testing.T, p *property) {
	c := p.explore(t, *fSeed, *fOne, *fTier == "thorough", time.Time{})
	fmt.Printf("runs %d hashes %v trouble %q\n", c.st.Runs, c.hashes, c.trouble)
	for _, v := range c.viol {
		fmt.Printf("VIOLATION %s: %s\n", v.Class, v.Msg)
		if !*fNoMin {
			minimise(t, p, v, 60*time.Second)
			fmt.Println("minimised:", v.Min, v.Msg)
		}
		writeReplay(p, v)
	}
	b, _ := json.MarshalIndent(c.st, "", " ")
	fmt.Println(string(b))
}

type replayFile struct {
	Property string    `json:"property"`
	Class    string    `json:"class,omitempty"`
	Message  string    `json:"message,omitempty"`
	Seed     uint64    `json:"seed"`
	Index    int       `json:"index"`
	Hash     string    `json:"hash,omitempty"`
	Min      string    `json:"minimised,omitempty"`
	Trouble  string    `json:"trouble,omitempty"`
	Scenario *Scenario `json:"scenario"`
}

func saveJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func writeReplay(p *property, v *violationMsg) string {
	path := filepath.Join(*fOut, "replays", fmt.Sprintf("%s-seed%d-%d.json", p.id, *fSeed, v.Idx))
	saveJSON(path, &replayFile{Property: p.id, Class: v.Class, Message: v.Msg, Seed: *fSeed, Index: v.Idx, Hash: v.Hash, Min: v.Min, Scenario: v.Scenario})
	return path
}

// replay reproduces a violation exactly: same events, same outcome.
func replay(t *testing.T) {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	f := &replayFile{}
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	p := findProp(f.Property)
	traceRuns = *fTrace
	if f.Class == "fatal" && os.Getenv("RODBSIM_CHILD") == "" {
		// The whole process is expected to die, or not to end.
		self, _ := os.Executable()
		cmd := exec.Command(self, "-replay", *fReplay, "-known", *fKnown, "-out", *fOut, "-worker", "replay", "-test.timeout", "0")
		cmd.Env = append(os.Environ(), "RODBSIM_CHILD=1")
		buf := &tail{}
		cmd.Stdout, cmd.Stderr = buf, buf
		cmd.Start()
		kill := time.AfterFunc(150*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		kill.Stop()
		fmt.Println(clipLines(buf.String(), 40))
		if err == nil {
			fmt.Println("no violation")
			os.Exit(0)
		}
		fmt.Printf("fatal: the process dies or never ends (%v): %s\nVIOLATION property=%s replay=%s\n", err, firstFatal(buf.String()), p.id, *fReplay)
		os.Exit(1)
	}
	run := runScenario(t, f.Scenario)
	if *fTrace {
		for _, l := range run.W.Trace {
			fmt.Println(l)
		}
	}
	describe(run)
	if run.Trouble != "" {
		fmt.Println("TROUBLE", run.Trouble)
		os.Exit(2)
	}
	same := "same course as recorded"
	if f.Hash != "" && f.Hash != hex(run.W.Hash()) {
		same = "NOT the recorded course (" + f.Hash + "): rodb or the simulator changed since"
	}
	fmt.Println("course", hex(run.W.Hash()), same)
	bad := false
	for _, v := range p.check(run) {
		if knownFinding(p.id, v, f.Scenario) != "" {
			continue
		}
		fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Msg, p.id, *fReplay)
		bad = true
		break
	}
	if bad {
		os.Exit(1)
	}
	fmt.Println("no violation")
	os.Exit(0)
}

func describe(run *Run) {
	for _, b := range run.Boots {
		fmt.Printf("boot %d: %s; served %v exit %d %s; steps %d, simulated %v\n", b.No, bootEnd(b), b.Served, b.ExitCode, b.ExitWhy, b.Steps, b.SimTime)
		if b.Panic != "" {
			fmt.Println("  panic:", b.Panic)
		}
		if b.Stuck != "" {
			fmt.Println("  stuck:", b.Stuck)
		}
		for _, l := range b.Inc.Log {
			fmt.Println("  log:", l)
		}
		for _, x := range b.Results {
			got := x.Err
			if x.Resp != nil {
				got = fmt.Sprintf("%d %s", x.Resp.Status, clip(x.Resp.Body))
			}
			fmt.Printf("  client %d %s %s -> %s\n", x.Client, x.Req.method(), x.Req.T, got)
		}
	}
	var ks []string
	for k, v := range run.W.FaultsHit {
		ks = append(ks, fmt.Sprintf("%s x%d", k, v))
	}
	sort.Strings(ks)
	fmt.Println("faults:", strings.Join(ks, ", "))
}

// ---- master

type wproc struct {
	k       int
	cmd     *exec.Cmd
	errBuf  *tail
	last    time.Time
	current int
	minim   bool
	done    bool
	dead    string
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 200000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func (p *property) budget() (runs, secs int) {
	runs, secs = p.quick, 120
	if *fTier == "thorough" {
		runs, secs = 1<<30, 600
	}
	if *fRuns > 0 {
		runs = *fRuns
	}
	if *fSecs > 0 {
		secs = *fSecs
	}
	return
}

func master() int {
	p := findProp(*fProp)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *fProp)
		return 2
	}
	start := time.Now()
	runs, secs := p.budget()
	self, _ := os.Executable()
	total := newStats()
	distinct, scheds := map[uint64]bool{}, map[uint64]bool{}
	var viols []*violationMsg
	known := map[string]*violationMsg{}
	trouble := ""
	refs := map[uint64]int{}
	maxIdx := -1
	timedOut := false
	var mu sync.Mutex
	var wg sync.WaitGroup
	stopAll := make(chan struct{})
	var once sync.Once
	stop := func() { once.Do(func() { close(stopAll) }) }

	spawn := func(k, n int, extra ...string) *wproc {
		w := &wproc{k: k, errBuf: &tail{}, last: time.Now(), current: -1}
		args := append([]string{"-prop", p.id, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10), "-runs", strconv.Itoa(runs), "-secs", strconv.Itoa(secs),
			"-out", *fOut, "-known", *fKnown, "-test.timeout", "0", "-worker", fmt.Sprintf("%d/%d", k, n)}, extra...)
		if *fNoMin {
			args = append(args, "-nomin")
		}
		if *fKeep {
			args = append(args, "-keepgoing")
		}
		w.cmd = exec.Command(self, args...)
		w.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "TZ=UTC")
		w.cmd.Stdout, w.cmd.Stderr = w.errBuf, w.errBuf
		r, wr, err := os.Pipe()
		if err != nil {
			w.dead = err.Error()
			return w
		}
		w.cmd.ExtraFiles = []*os.File{wr}
		if err := w.cmd.Start(); err != nil {
			w.dead = err.Error()
			return w
		}
		wr.Close()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rd := bufio.NewReaderSize(r, 1<<20)
			for {
				line, err := rd.ReadBytes('\n')
				if len(line) > 0 {
					m := &message{}
					if json.Unmarshal(line, m) == nil {
						mu.Lock()
						w.last = time.Now()
						if m.Start != nil {
							w.current = *m.Start
							w.minim = false
							if w.current > maxIdx {
								maxIdx = w.current
							}
						}
						if m.Stats != nil {
							total.add(m.Stats)
						}
						for _, h := range m.Hashes {
							distinct[h[0]] = true
							scheds[h[1]] = true
						}
						if m.Ref != 0 {
							refs[m.Ref]++
						}
						switch m.Note {
						case "minimising":
							w.minim = true
						case "time limit":
							timedOut = true
						}
						if m.Trouble != "" && trouble == "" {
							trouble = m.Trouble
							stop()
						}
						if v := m.Violation; v != nil {
							if v.Known != "" {
								known[v.Known] = v
							} else {
								viols = append(viols, v)
								if !*fKeep {
									stop()
								}
							}
						}
						mu.Unlock()
					}
				}
				if err != nil {
					break
				}
			}
			r.Close()
			werr := w.cmd.Wait()
			mu.Lock()
			w.done = true
			if werr != nil && w.dead == "" {
				w.dead = werr.Error()
			}
			mu.Unlock()
		}()
		return w
	}

	n := *fJobs
	if n > runs {
		n = runs
	}
	var ws []*wproc
	for k := 0; k < n; k++ {
		ws = append(ws, spawn(k, n))
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	tick := time.NewTicker(500 * time.Millisecond)
	hang := 90 * time.Second
	stopped := false
loop:
	for {
		select {
		case <-fin:
			break loop
		case <-stopAll:
			if !stopped {
				stopped = true
				time.Sleep(50 * time.Millisecond)
				for _, w := range ws {
					mu.Lock()
					if !w.done {
						w.dead = "stopped"
						w.cmd.Process.Kill()
					}
					mu.Unlock()
				}
			}
			stopAll = nil
		case <-tick.C:
			mu.Lock()
			for _, w := range ws {
				if !w.done && w.dead == "" && time.Since(w.last) > hang {
					w.dead = fmt.Sprintf("scenario %d did not end within %v of real time", w.current, hang)
					w.cmd.Process.Kill()
				}
			}
			mu.Unlock()
		}
	}
	tick.Stop()
	// A worker that died is the doing of the code under test (a fatal error the Go runtime does not
	// let anybody recover from, or a loop without end), if it dies again in the same scenario.
	if trouble == "" && (len(viols) == 0 || *fKeep) {
		for _, w := range ws {
			if w.dead == "" || w.dead == "stopped" {
				continue
			}
			idx := w.current
			fmt.Printf("worker %d ended (%s) in scenario %d; trying again\n%s\n", w.k, w.dead, idx, clipLines(w.errBuf.String(), 40))
			last := filepath.Join(*fOut, "replays", fmt.Sprintf("%s-last.json", p.id))
			again := exec.Command(self, "-prop", p.id, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10), "-out", *fOut, "-known", *fKnown, "-nomin", "-one", strconv.Itoa(idx), "-test.timeout", "0", "-last", last)
			again.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "TZ=UTC")
			buf := &tail{}
			again.Stdout, again.Stderr = buf, buf
			if err := again.Start(); err != nil {
				trouble = err.Error()
				break
			}
			kill := time.AfterFunc(hang+60*time.Second, func() { again.Process.Kill() })
			err := again.Wait()
			kill.Stop()
			if err == nil {
				trouble = fmt.Sprintf("worker %d ended (%s) in scenario %d, which ends normally when run alone", w.k, w.dead, idx)
			} else {
				lf := &replayFile{}
				if b, err := os.ReadFile(last); err == nil {
					json.Unmarshal(b, lf)
				}
				viols = append(viols, &violationMsg{Idx: idx, Class: "fatal", Msg: fmt.Sprintf("the process dies or never ends (%s): %s", w.dead, firstFatal(buf.String())), Scenario: lf.Scenario, Min: "not minimised"})
			}
			break
		}
	}
	if len(refs) > 1 {
		msg := fmt.Sprintf("scenario 0 took different courses in different processes: %v", refs)
		if *fStrict && trouble == "" {
			trouble = msg
		}
		fmt.Println("note:", msg)
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Idx < viols[j].Idx })
	wall := time.Since(start).Seconds()
	writeEvidence(p, total, distinct, scheds, viols, known, wall, refs, timedOut, maxIdx)
	for _, k := range sortedKnown(p.id, known) {
		fmt.Println(k)
	}
	if trouble != "" {
		fmt.Println("check error:", trouble)
		if len(viols) == 0 {
			return 2
		}
	}
	fmt.Printf("%s %s seed %d: %d runs, %d distinct histories, %d requests, %.0f simulated s, %.1f s\n", p.id, *fTier, *fSeed, total.Runs, len(distinct), total.Reqs, total.SimSecs, wall)
	if len(viols) > 0 {
		for i, v := range viols {
			path := writeReplay(p, v)
			fmt.Printf("%s: %s\n", v.Class, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
			if i == 0 && !*fKeep {
				break
			}
		}
		return 1
	}
	if total.Runs == 0 {
		fmt.Println("check error: nothing was run")
		return 2
	}
	return 0
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return clip([]byte(s))
}

func clipLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// ---- known findings

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	What     string `json:"what"`
	Class    string `json:"class,omitempty"`
	Contains string `json:"contains,omitempty"` // in the message
	Commit   string `json:"commit,omitempty"`
}

var findings []finding
var findingsRead bool

func knownFinding(prop string, v Violation, s *Scenario) string {
	if !findingsRead {
		findingsRead = true
		if b, err := os.ReadFile(*fKnown); err == nil {
			var f struct{ Findings []finding }
			if err := json.Unmarshal(b, &f); err != nil {
				fmt.Fprintln(os.Stderr, "known findings:", err)
				os.Exit(2)
			}
			findings = f.Findings
		}
	}
	for _, f := range findings {
		if f.Property == prop && f.Status == "known" && f.Class == v.Class && f.Contains != "" && strings.Contains(v.Msg, f.Contains) {
			return f.What
		}
	}
	return ""
}

// sortedKnown lists every known finding of the property, met in this run or not.
func sortedKnown(prop string, met map[string]*violationMsg) []string {
	knownFinding(prop, Violation{}, nil)
	var l []string
	for _, f := range findings {
		if f.Property == prop && f.Status == "known" {
			l = append(l, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, f.What))
		}
	}
	sort.Strings(l)
	return l
}

// ---- evidence

func writeEvidence(p *property, st *stats, distinct, scheds map[uint64]bool, viols []*violationMsg, known map[string]*violationMsg, wall float64, refs map[uint64]int, timedOut bool, maxIdx int) {
	type m = map[string]interface{}
	samples := st.Samples
	if samples == nil {
		samples = []json.RawMessage{}
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(st.Runs) / wall * 3600
	}
	var vs []m
	for _, v := range viols {
		vs = append(vs, m{"class": v.Class, "message": v.Msg, "index": v.Idx, "replay": fmt.Sprintf("replays/%s-seed%d-%d.json", p.id, *fSeed, v.Idx)})
	}
	if vs == nil {
		vs = []m{}
	}
	ks := []string{}
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	ev := m{
		"property": p.id, "tier": *fTier, "seed": *fSeed, "level": p.level,
		"coverage": m{
			"evaluations": st.Runs, "distinct_nontrivial": len(distinct),
			"rule":          "one evaluation is one simulated history (all its starts, clients, faults) executed and checked; it counts as non-trivial if " + p.rule + "; distinct are those whose complete event log (disk, network, log, responses and their order) hashes differently",
			"samples":       samples,
			"runs_per_hour": int(perHour), "seeds": maxIdx + 1, "seeds_per_hour": int(float64(maxIdx+1) / wall * 3600),
			"simulated_seconds": int(st.SimSecs), "simulated_process_starts": st.Boots, "how_they_ended": st.Ends,
			"requests_answered": st.Reqs, "answered_200": st.OK200,
			"scheduling_points": st.Steps, "scheduling_decisions": st.Decisions, "preemptions_and_switches": st.Switches,
			"distinct_interleavings": len(scheds), "interleaving_measure": "hash of the sequence of (task, program location) at which the scheduler switched",
			"strategies": st.Strats, "scenario_kinds": st.Kinds, "faults_injected": st.Faults, "probes": st.Probes,
			"repeat_check": fmt.Sprintf("%d runs repeated in the same process, %d with another event log; scenario 0 run in %d processes, with %d different event logs", st.Probes["repeated runs compared"], st.Probes["repeated runs that took another course"], len2(refs), len(refs)),
			"stopped_by":   map[bool]string{true: "time limit", false: "all scenarios done"}[timedOut],
			"real_code":    "all of rodb (cmd and pkg), antchfx/xpath, antchfx/xmlquery, x/text, logrus, net/http server, encoding/*, database/sql, go-sqlite3 with SQLite itself",
			"stubbed":      "file system, network sockets, fsnotify, process signals and exit, clock (synctest), SQLite VFS, mutexes, math/rand",
		},
		"assumptions": []string{
			"execution is interleaved at statement granularity (sequentially consistent); data races below that are not explored",
			"calls into SQLite are atomic with respect to other tasks, except at its file operations, where faults and crashes are injected",
			"the simulated disk persists an unsynced write wholly, partly (the last one of a crash) or not at all",
			"the TLS protocol is a pass-through (certificates are loaded and checked by the real code); the command line is not simulated",
		},
		"wall_s": wall, "violations": vs, "known_findings_met": ks,
	}
	saveJSON(filepath.Join(*fOut, "evidence", p.id+".json"), ev)
}

func len2(m map[uint64]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}
