package harness

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/spf13/pflag"

	"rodbsim/simrt"
	"rodbsim/simvfs"
)

// Scenario is one complete simulated history: it determines an execution exactly.
type Scenario struct {
	Prop     string            `json:"prop"`
	Seed     uint64            `json:"seed"`
	Kind     string            `json:"kind,omitempty"`
	Spec     *Spec             `json:"spec"`
	MapOrder int               `json:"mapOrder,omitempty"`
	MapSeed  uint64            `json:"mapSeed,omitempty"`
	Strat    *Strat            `json:"strat,omitempty"`
	Devs     []Dev             `json:"schedule,omitempty"` // used when Strat is nil: deviations from the default policy
	Boots    []*Boot           `json:"boots"`
	Files    map[string]Raw    `json:"files,omitempty"` // other files present
	MaxSteps int64             `json:"maxSteps,omitempty"`
	Alt      *Spec             `json:"alt,omitempty"` // data an edit leads to, for the oracle
	X        map[string]string `json:"x,omitempty"`   // for the oracle
}

// Strat is a seeded scheduling strategy.
type Strat struct {
	Kind  string `json:"kind"` // random pct starve
	Seed  uint64 `json:"seed"`
	Q     int    `json:"q"`     // mean quantum while serving; 0: until blocked
	BootQ int    `json:"bootQ"` // mean quantum during start-up
}

// Dev is a deviation from the default schedule at decision At.
type Dev struct {
	At int    `json:"at"`
	K  string `json:"k"`           // action: t<task> c<client> d (deliver file event)
	Q  int    `json:"q,omitempty"` // scheduling points until preemption; 0: until blocked
}

type EnvOp struct {
	Op   string `json:"op"`
	Path string `json:"path,omitempty"`
	Data Raw    `json:"data,omitempty"`
	N    int64  `json:"n,omitempty"`
}

type Event struct {
	When string `json:"when"` // step resp wave serving idle announced handling
	At   int64  `json:"at,omitempty"`
	EnvOp
}

type Boot struct {
	Pre      []EnvOp          `json:"pre,omitempty"`
	Spec     *Spec            `json:"spec,omitempty"` // configuration and data from now on
	KeepData bool             `json:"keepData,omitempty"`
	Faults   []*simrt.Fault   `json:"faults,omitempty"`
	Crash    *simrt.CrashPlan `json:"crash,omitempty"`
	Busy     []int            `json:"busy,omitempty"`
	Clients  []*Client        `json:"clients,omitempty"`
	Events   []*Event         `json:"events,omitempty"`
	End      string           `json:"end"`                // term kill power:<strategy> exit
	MapOrder int              `json:"mapOrder,omitempty"` // overrides the scenario's if > 0 (value-1)
}

type Req struct {
	M      string `json:"m,omitempty"`
	T      string `json:"t"`
	Hdr    string `json:"hdr,omitempty"`
	Body   Raw    `json:"body,omitempty"`
	H10    bool   `json:"h10,omitempty"`
	Close  bool   `json:"close,omitempty"`
	NoHost bool   `json:"noHost,omitempty"`
	Tag    string `json:"tag,omitempty"`
}

func (r *Req) method() string { return orStr(r.M, "GET") }

func (r *Req) wire() []byte {
	v := "HTTP/1.1"
	if r.H10 {
		v = "HTTP/1.0"
	}
	s := r.method() + " " + r.T + " " + v + "\r\n"
	if !r.NoHost {
		s += "Host: rodb.test\r\n"
	}
	if r.Close {
		s += "Connection: close\r\n"
	}
	if len(r.Body) > 0 {
		s += fmt.Sprintf("Content-Length: %d\r\n", len(r.Body))
	}
	return []byte(s + r.Hdr + "\r\n" + string(r.Body))
}

type Client struct {
	Svc     int    `json:"svc,omitempty"`
	TLS     bool   `json:"tls,omitempty"` // by https, if the service offers it
	Wave    int    `json:"wave,omitempty"`
	Start   string `json:"start,omitempty"` // "" serving, boot, announced
	Reqs    []*Req `json:"reqs,omitempty"`
	Keep    bool   `json:"keep,omitempty"`
	Pipe    int    `json:"pipe,omitempty"`
	Send    int    `json:"send,omitempty"`
	Take    int    `json:"take,omitempty"`
	Window  int    `json:"window,omitempty"`
	MaxRead int    `json:"maxRead,omitempty"`
	Bad     string `json:"bad,omitempty"` // stall-send stall-read abort garbage halfclose
	At      int    `json:"at,omitempty"`
	Wire    Raw    `json:"wire,omitempty"` // what a garbage client sends
	Lag     int    `json:"lag,omitempty"`  // pauses once, for so many seconds,
	LagAt   int    `json:"lagAt,omitempty"`
	LagSend bool   `json:"lagSend,omitempty"` // while sending, after that many bytes; otherwise before receiving more
}

// Result is what became of one request.
type Result struct {
	Client, Idx int
	Req         *Req
	Svc         *Service
	Resp        *Response
	Err         string
	Conn        int
	SentAll     bool
	Resent      bool
	AfterSig    bool // started after the shutdown was requested
	Handling    bool // its handling had begun when the shutdown was requested
	Edited      bool // data was modified before it was answered
	Wave        int
	Phase       string
}

type cstate struct {
	c        *Client
	no       int
	conn     *simrt.Conn
	p        respParser
	next     int
	out      []byte
	inflight []int
	sentUpTo map[int]int // request -> bytes of out still to send when it is completely sent
	acts     int
	sent     int
	eof      bool
	fin      bool
	held     bool // misbehaves from now on: does nothing
	taken    int
	lagged   bool
	wake     time.Time
	res      []*Result
	refused  int
}

type BootRes struct {
	No                int
	Boot              *Boot
	Spec              *Spec
	Model             *model
	Inc               *simrt.Incarnation
	Served            bool
	Announced         []bool
	Results           []*Result
	Bad               []*cstate
	Stuck             string
	Overrun           bool
	Exited            bool
	ExitCode          int
	ExitWhy           string
	Panic             string
	Signalled         bool
	SigWhileReady     bool
	DeadAtSig         bool
	Edits             []EditRes
	EditedAny         bool
	Crashed           bool
	SimTime           time.Duration
	SigTime           time.Duration // from the shutdown request to the exit
	OpenServe         []string      // serve-phase handles left open at the end
	OpenBoot          []string
	Reqs              int
	Files             map[string]string // index files at the end
	FaultHits         int
	StepsBoot         int64
	Steps             int64
	MutOps            int
	NoAnswer          bool // a dial after the announcement failed
	NoAnswerWhy       string
	SigHandling       int
	AnsweredAfterExit bool
	PermaFault        bool
}

type EditRes struct {
	Op       string
	Path     string
	Notified int
	Phase    string
	Step     int64
}

type Run struct {
	complete bool
	S        *Scenario
	T        *testing.T
	W        *simrt.World
	Boots    []*BootRes
	EnvFiles map[string]*string // what the environment has made of files since (nil: removed)
	Mutated  []string           // paths modified that rodb has no business with
	Trouble  string             // the harness failed
	Decision int
	Rec      []Dev // every decision taken
	base     time.Time

	// scheduling
	rnd    *simrt.Rand
	prio   map[string]int
	last   string
	victim string
	devs   map[int]Dev

	cur *bootState
}

type bootState struct {
	acts       []action
	run        *Run
	b          *Boot
	r          *BootRes
	spec       *Spec
	inc        *simrt.Incarnation
	cs         []*cstate
	fired      map[int]bool
	responses  int64
	sigAt      time.Time
	idleSecs   int
	noDeliver  bool
	ending     bool
	startSteps int64
}

var rodbMain func()

const maxIdle = 150 // simulated seconds without any progress before a run counts as stuck

// Execute runs a scenario. It must be called inside a synctest bubble.
func (run *Run) execute() {
	s := run.S
	simvfs.ResetRun(s.Seed)
	w := simrt.NewWorld()
	run.W = w
	w.MaxSteps = s.MaxSteps
	if w.MaxSteps == 0 {
		w.MaxSteps = maxSteps
	}
	w.MapOrder = s.MapOrder
	w.MapRand = simrt.NewRand(s.MapSeed)
	w.Tracing = traceRuns
	run.base = time.Now()
	run.prio = map[string]int{}
	if s.Strat != nil {
		run.rnd = simrt.NewRand(s.Strat.Seed)
	} else {
		run.devs = map[int]Dev{}
		for _, d := range s.Devs {
			run.devs[d.At] = d
		}
	}
	simrt.W = w
	defer func() { simrt.W = nil }()
	var files []string
	for p := range s.Files {
		files = append(files, p)
	}
	sort.Strings(files)
	for _, p := range files {
		w.Disk.WriteRaw(p, []byte(s.Files[p]))
	}
	spec := s.Spec
	if spec.hasTLS() {
		w.Disk.WriteRaw(certPath, []byte(certPEM))
		w.Disk.WriteRaw(keyPath, []byte(keyPEM))
	}
	run.render(spec, nil)
	if s.Seed%3 > 0 { // modified some time before, at any nanosecond
		for i, in := range spec.Inputs {
			if ino := w.Disk.StatRaw(in.Path); ino != nil {
				w.Disk.ChtimesRaw(in.Path, ino.Mtime.Add(-time.Duration(simrt.NewRand(s.Seed+uint64(i)).Uint64()%uint64(72*time.Hour))))
			}
		}
	}
	for i, b := range s.Boots {
		if b.Spec != nil {
			if b.KeepData {
				w.Disk.WriteRaw(configPath, b.Spec.Config())
			} else {
				run.render(b.Spec, spec)
			}
			spec = b.Spec
		}
		for _, op := range b.Pre {
			run.env(op, nil)
		}
		run.boot(i, b, spec)
		if run.Trouble != "" {
			return
		}
	}
}

// render writes the configuration and the data files, as a deployment tool would. Unchanged data
// files are not touched.
func (run *Run) render(spec, old *Spec) {
	d := run.W.Disk
	d.WriteRaw(configPath, spec.Config())
	for _, in := range spec.Inputs {
		b := in.Data()
		if old != nil {
			if cur, ok := d.ReadRaw(in.Path); ok && string(cur) == string(b) {
				continue
			}
		}
		d.WriteRaw(in.Path, b)
	}
	d.SyncAll()
}

// The header of the metadata record in a database: version 1, modification time, size, and completed.
// The types 8 and 9 are the integers 0 and 1.
var sqliteMetadata = regexp.MustCompile(`(?s)\x05\x09\x04[\x01-\x05]\x09`)
var incompleteMetadata = regexp.MustCompile(`(?s)\x05\x09\x04[\x01-\x05]\x08`)

// env performs an operation of the environment on the disk. It returns the number of watchers told.
func (run *Run) env(op EnvOp, bs *bootState) int {
	w := run.W
	d := w.Disk
	p := simrt.Clean(op.Path)
	n := 0
	w.Event("env %s %s %d", op.Op, p, op.N)
	written := simrt.OpWrite
	if op.N == 1 {
		written |= simrt.OpChmod // some systems report both as one event
	}
	switch op.Op {
	case "append":
		b, _ := d.ReadRaw(p)
		d.WriteRaw(p, append(append([]byte{}, b...), op.Data...))
		n = w.Notify(written, p)
	case "write": // truncate and write
		d.WriteRaw(p, []byte(op.Data))
		n = w.Notify(written, p)
		if op.N != 1 {
			w.Notify(written, p)
		}
	case "watch-error": // the queue of the events overflowed
		w.FailWatch(p)
	case "poke": // overwrite one byte in place
		b, _ := d.ReadRaw(p)
		b = append([]byte{}, b...)
		if len(b) > 0 {
			b[int(op.N)%len(b)] = op.Data[0]
		}
		d.WriteRaw(p, b)
		n = w.Notify(simrt.OpWrite, p)
	case "metadata": // the metadata of the indexes of a database says something else
		b, _ := d.ReadRaw(p)
		d.WriteRaw(p, sqliteMetadata.ReplaceAllFunc(append([]byte{}, b...), func(m []byte) []byte {
			m = append([]byte{}, m...)
			if string(op.Data) == "version" {
				m[1] = 8
			} else {
				m[4] = 8
			}
			return m
		}))
		n = w.Notify(simrt.OpWrite, p)
	case "trunc":
		b, _ := d.ReadRaw(p)
		k := int(op.N)
		if k > len(b) {
			k = len(b)
		}
		d.WriteRaw(p, append([]byte{}, b[:k]...))
		n = w.Notify(simrt.OpWrite, p)
	case "chmod":
		n = w.Notify(simrt.OpChmod, p)
	case "mtime": // set the modification time, relative to now, in seconds
		d.ChtimesRaw(p, time.Now().Add(time.Duration(op.N)*time.Second))
		n = w.Notify(simrt.OpChmod, p)
	case "mtime+": // move the modification time
		if ino := d.StatRaw(p); ino != nil {
			d.ChtimesRaw(p, ino.Mtime.Add(time.Duration(op.N)*time.Second))
		}
		n = w.Notify(simrt.OpChmod, p)
	case "keepwrite": // change the content, keep the modification time
		if ino := d.StatRaw(p); ino != nil {
			t := ino.Mtime
			d.WriteRaw(p, []byte(op.Data))
			d.ChtimesRaw(p, t)
		}
		n = w.Notify(simrt.OpWrite, p)
	case "replace": // written elsewhere and renamed over it
		old := d.StatRaw(p)
		d.ReplaceRaw(p, []byte(op.Data))
		n = w.NotifyFile(simrt.OpChmod, p, old)
		if op.N == 1 { // some systems report this at once, others when the last handle is closed
			w.NotifyFile(simrt.OpRemove, p, old)
		}
	case "rm":
		w.Notify(simrt.OpChmod, p)
		if op.N == 0 {
			n = w.Notify(simrt.OpRemove, p)
		}
		d.RemoveRaw(p)
	case "rmindexes":
		sp := run.S.Spec
		if bs != nil {
			sp = bs.spec
		}
		for _, f := range d.List() {
			if sp.indexFile(f) != nil {
				d.RemoveRaw(f)
			}
		}
	case "create":
		d.WriteRaw(p, []byte(op.Data))
	case "sync":
		d.SyncAll()
	case "sleep":
		time.Sleep(time.Duration(op.N) * time.Second)
	case "skew":
		d.MtimeOffset = time.Duration(op.N) * time.Second
	default:
		run.Trouble = "unknown environment operation " + op.Op
	}
	if op.Path != "" {
		if run.EnvFiles == nil {
			run.EnvFiles = map[string]*string{}
		}
		run.EnvFiles[p] = nil
		if b, ok := d.ReadRaw(p); ok {
			c := string(b)
			run.EnvFiles[p] = &c
		}
	}
	return n
}

var realArgs = os.Args

func (run *Run) boot(no int, b *Boot, spec *Spec) {
	w := run.W
	r := &BootRes{No: no, Boot: b, Spec: spec, Model: newModel(spec)}
	run.Boots = append(run.Boots, r)
	bs := &bootState{run: run, b: b, r: r, spec: spec, fired: map[int]bool{}, startSteps: w.Steps}
	run.cur = bs
	w.Disk.Role = spec.roleOf
	w.OnMutate = func(op, path string) {
		if spec.indexFile(simrt.Clean(path)) == nil {
			run.Mutated = append(run.Mutated, fmt.Sprintf("boot %d: %s of %s", no, op, simrt.Clean(path)))
		}
	}
	if b.MapOrder > 0 {
		w.MapOrder = b.MapOrder - 1
	}
	w.BusyPorts = map[int]bool{}
	for _, p := range b.Busy {
		w.BusyPorts[p] = true
	}
	r.Announced = make([]bool, len(spec.Services))
	for i, c := range b.Clients {
		st := &cstate{c: c, no: i}
		for k, q := range c.Reqs {
			st.res = append(st.res, &Result{Client: i, Idx: k, Req: q, Svc: spec.Services[c.Svc], Wave: c.Wave})
		}
		bs.cs = append(bs.cs, st)
	}
	pflag.CommandLine = pflag.NewFlagSet("rodb", pflag.ContinueOnError)
	oldFlag := flag.CommandLine
	flag.CommandLine = flag.NewFlagSet("rodb", flag.ContinueOnError)
	os.Args = []string{"rodb", "-c", configPath}
	t0 := time.Now()
	inc := w.Boot(rodbMain)
	bs.inc, r.Inc = inc, inc
	for _, f := range b.Faults {
		g := *f
		inc.Faults = append(inc.Faults, &g)
	}
	inc.Crash = b.Crash

	bs.loop()
	if run.Trouble == "" && !inc.Dead && r.Stuck == "" && !r.Overrun {
		bs.snapshotHandles()
		switch {
		case b.End == "term" && !r.Signalled:
			bs.signal()
			bs.ending = true
			bs.loop()
		case b.End == "term":
			bs.ending = true
			bs.loop()
		case b.End == "exit":
			bs.ending = true
			bs.loop()
		}
	}
	if r.Signalled && inc.Exited {
		r.SigTime = time.Since(bs.sigAt)
	}
	r.Exited, r.ExitCode, r.ExitWhy, r.Panic = inc.Exited, inc.ExitCode, inc.ExitWhy, inc.Panic
	r.Crashed = inc.Dead && !inc.Exited
	r.SimTime = time.Since(t0)
	r.Steps = w.Steps - bs.startSteps
	r.MutOps = inc.MutOps()
	for _, f := range inc.Faults {
		r.FaultHits += errorHits(f)
	}
	for _, st := range bs.cs {
		if st.fin && st.conn != nil && st.conn.Pending() > 0 && st.c.Bad == "" && len(st.res) > 0 {
			if x := st.res[len(st.res)-1]; x.Err == "" {
				x.Err = fmt.Sprintf("malformed response: %d bytes follow it", st.conn.Pending())
			}
		}
		r.Results = append(r.Results, st.res...)
		if st.c.Bad != "" {
			r.Bad = append(r.Bad, st)
		}
	}
	if err := w.Kill(inc); err != nil {
		run.Trouble = fmt.Sprintf("boot %d: %v; %s", no, err, strings.Join(w.Blocked(), "; "))
		return
	}
	if strat := strings.TrimPrefix(b.End, "power:"); strat != b.End {
		w.Disk.PowerLoss(simrt.NewRand(run.S.Seed^uint64(no)*77777), strat)
	}
	w.Disk.DropHandles(inc)
	r.Files = map[string]string{}
	for p, c := range w.Disk.Snapshot() {
		if spec.indexFile(p) != nil {
			r.Files[p] = string(c)
		}
	}
	flag.CommandLine = oldFlag
	os.Args = realArgs
}

// maxSteps is how much rodb may do without an answer, a closed connection or anything else happening outside of it.
const maxSteps = 300_000_000

func (bs *bootState) snapshotHandles() {
	for _, h := range bs.run.W.Disk.Handles {
		if h.Inc != bs.inc || h.Closed {
			continue
		}
		s := h.Role + " " + h.Path
		if h.Phase == "serve" {
			bs.r.OpenServe = append(bs.r.OpenServe, s)
		} else {
			bs.r.OpenBoot = append(bs.r.OpenBoot, s)
		}
	}
	sort.Strings(bs.r.OpenServe)
	sort.Strings(bs.r.OpenBoot)
}

func (bs *bootState) signal() {
	w := bs.run.W
	r := bs.r
	if r.Signalled {
		return
	}
	r.Signalled = true
	r.DeadAtSig = bs.inc.Dead
	bs.sigAt = time.Now()
	h := w.Handling()
	for _, st := range bs.cs {
		for i, x := range st.res {
			if x.Resp == nil && x.Err == "" {
				started := false
				for k, q := range st.inflight {
					if q == i {
						started = true
						if k == 0 && st.conn != nil && h[st.conn.No] {
							x.Handling = true
							r.SigHandling++
						}
					}
				}
				if !started {
					x.AfterSig = true
				}
			}
		}
	}
	r.SigWhileReady = bs.allAnnounced()
	if !w.Signal(bs.inc, os.Interrupt) && !bs.inc.Dead {
		// The default action of an unhandled interrupt.
		bs.inc.Dead = true
		bs.inc.ExitWhy = "killed by the interrupt"
		w.FaultsHit["interrupt before a handler was installed"]++
	}
}

func (bs *bootState) allAnnounced() bool {
	for _, a := range bs.r.Announced {
		if !a {
			return false
		}
	}
	return true
}

func (bs *bootState) observe() {
	inc := bs.inc
	if !inc.Serving && len(inc.Listeners) >= len(bs.spec.ports()) {
		inc.Serving = true
		bs.r.Served = true
		bs.r.StepsBoot = bs.run.W.Steps - bs.startSteps
	}
	for i, a := range bs.r.Announced {
		if a {
			continue
		}
		for _, p := range bs.spec.Services[i].ports() {
			want := fmt.Sprintf(":%d", p)
			for _, l := range inc.Log {
				if strings.Contains(l, want) && strings.Contains(l, "level=info") {
					bs.r.Announced[i] = true
				}
			}
		}
	}
}

// wave is the lowest wave with unfinished well-behaved clients.
func (bs *bootState) wave() int {
	wv := -1
	for _, st := range bs.cs {
		if st.c.Bad == "garbage" && st.conn != nil && len(st.out) == 0 {
			continue // possibly waits for an answer that never comes
		}
		if !st.fin && !st.held && (wv < 0 || st.c.Wave < wv) {
			wv = st.c.Wave
		}
	}
	if wv < 0 {
		return 1 << 30
	}
	return wv
}

func (bs *bootState) due(e *Event, idle bool) bool {
	switch e.When {
	case "step":
		return bs.run.W.Steps-bs.startSteps >= e.At
	case "resp":
		return bs.responses >= e.At
	case "wave":
		return int64(bs.wave()) >= e.At
	case "serving":
		return bs.inc.Serving
	case "sstep": // steps after all services listen
		return bs.inc.Serving && bs.run.W.Steps-bs.startSteps-bs.r.StepsBoot >= e.At
	case "announced":
		return bs.allAnnounced()
	case "handling":
		return int64(len(bs.run.W.Handling())) >= e.At
	case "idle":
		return idle
	}
	return false
}

func (bs *bootState) fire(idle bool) bool {
	any := false
	for i, e := range bs.b.Events {
		if bs.fired[i] || !bs.due(e, idle) {
			continue
		}
		bs.fired[i] = true
		any = true
		w := bs.run.W
		switch e.Op {
		case "int":
			bs.signal()
		case "kill":
			bs.inc.Dead = true
			bs.inc.ExitWhy = "killed"
			w.FaultsHit["process killed"]++
			w.Event("killed")
		case "clearfaults":
			for _, f := range bs.inc.Faults {
				bs.r.FaultHits += errorHits(f)
			}
			bs.inc.Faults = nil
			w.Event("faults cleared")
		default:
			ph := bs.inc.Phase()
			n := bs.run.env(e.EnvOp, bs)
			w.FaultsHit["environment: "+e.Op+" of a file while running"]++
			if simrt.Clean(e.Path) != "" {
				bs.r.Edits = append(bs.r.Edits, EditRes{e.Op, simrt.Clean(e.Path), n, ph, w.Steps - bs.startSteps})
				if e.Op != "chmod" && e.Op != "mtime" && e.Op != "mtime+" && e.Op != "create" {
					bs.r.EditedAny = true
				}
			}
		}
		if idle {
			return true
		}
	}
	return any
}

type action struct {
	key  string
	task *simrt.Task
	cl   *cstate
}

func (bs *bootState) loop() {
	run, w, r := bs.run, bs.run.W, bs.r
	for {
		w.Settle()
		if w.Overrun {
			r.Overrun = true
			return
		}
		bs.observe()
		if !bs.inc.Dead && bs.fire(false) {
			continue
		}
		acts := bs.acts[:0]
		if !bs.inc.Dead {
			for _, t := range w.Enabled() {
				if t.Key == "" {
					t.Key = "t" + strconv.Itoa(t.ID)
				}
				acts = append(acts, action{key: t.Key, task: t})
			}
			if w.PendingEvents() && !bs.noDeliver {
				acts = append(acts, action{key: "d"})
			}
		}
		wv := bs.wave()
		for _, st := range bs.cs {
			if bs.clientReady(st, wv) {
				acts = append(acts, action{key: "c" + strconv.Itoa(st.no), cl: st})
			}
		}
		bs.acts = acts
		if len(acts) == 0 {
			if bs.inc.Dead {
				if bs.pausing() { // what has been sent can still be received
					time.Sleep(time.Second)
					continue
				}
				for _, st := range bs.cs {
					bs.giveUp(st, "the process ended")
				}
				return
			}
			bs.noDeliver = false
			if wv == 1<<30 && bs.inc.Serving {
				if bs.fire(true) {
					bs.idleSecs = 0
					continue
				}
				if !bs.ending && !w.PendingEvents() {
					return
				}
			}
			if bs.idleSecs >= maxIdle {
				if bs.leaveWave(wv) {
					bs.idleSecs = 0
					continue
				}
				what := "waiting for: " + strings.Join(w.Blocked(), "; ")
				if bs.ending && !r.Signalled { // an exit was hoped for
					return
				}
				r.Stuck = what
				for _, st := range bs.cs {
					bs.giveUp(st, "never answered")
				}
				return
			}
			bs.idleSecs++
			time.Sleep(time.Second)
			continue
		}
		a, q := run.choose(bs, acts)
		if a.cl != nil {
			bs.idleSecs = 0 // retries that lead nowhere are no progress
		}
		switch {
		case a.task != nil:
			if q > 0 {
				q = bs.limitQuantum(q)
			} else {
				q = bs.limitQuantum(1 << 30)
			}
			bs.noDeliver = false
			w.Release(a.task, q)
		case a.cl != nil:
			bs.clientAct(a.cl)
		default:
			if w.DeliverEvents() {
				bs.idleSecs = 0
			} else {
				bs.noDeliver = true // until something else has happened
			}
		}
	}
}

// leaveWave makes the unanswered clients of a wave during which faults are injected go away.
func (bs *bootState) leaveWave(wv int) bool {
	later := false
	for _, st := range bs.cs {
		later = later || !st.fin && st.c.Wave > wv
	}
	if !later || len(bs.inc.Faults) == 0 {
		return false
	}
	for _, st := range bs.cs {
		if !st.fin && !st.held && st.c.Wave == wv {
			if st.conn != nil {
				st.conn.Reset = true
			}
			bs.giveUp(st, "never answered")
		}
	}
	return true
}

// limitQuantum makes a task stop where an event is due.
func (bs *bootState) limitQuantum(q int) int {
	now := bs.run.W.Steps - bs.startSteps
	for i, e := range bs.b.Events {
		if bs.fired[i] {
			continue
		}
		at := int64(-1)
		switch e.When {
		case "step":
			at = e.At
		case "sstep":
			if bs.inc.Serving {
				at = bs.r.StepsBoot + e.At
			}
		}
		if at > now && at-now < int64(q) {
			q = int(at - now)
		}
	}
	return q
}

func (run *Run) quantum(mean int) int {
	if mean <= 0 {
		return 0
	}
	q := 1
	for q < 100000 && !run.rnd.Chance(1/float64(mean)) {
		q++
		if mean > 20 && q%8 == 0 { // coarse for long quanta
			q += run.rnd.Intn(mean)
		}
	}
	return q
}

func (run *Run) choose(bs *bootState, acts []action) (action, int) {
	n := run.Decision
	run.Decision++
	def := acts[0]
	for _, a := range acts {
		if a.key == run.last {
			def = a
		}
	}
	pick, q := def, 0
	if st := run.S.Strat; st != nil {
		mean := st.Q
		if !bs.inc.Serving {
			mean = st.BootQ
		}
		switch st.Kind {
		case "pct":
			best := -1
			for _, a := range acts {
				p, ok := run.prio[a.key]
				if !ok {
					p = 1000 + run.rnd.Intn(1000000)
					run.prio[a.key] = p
				}
				if p > best {
					best, pick = p, a
				}
			}
			if run.rnd.Chance(0.02) {
				run.prio[pick.key] = run.rnd.Intn(1000) // demoted
			}
		case "starve":
			if run.victim == "" || run.rnd.Chance(0.01) {
				run.victim = acts[run.rnd.Intn(len(acts))].key
			}
			k := run.rnd.Intn(len(acts))
			if acts[k].key == run.victim {
				k = run.rnd.Intn(len(acts))
			}
			if acts[k].key == run.victim {
				k = (k + 1) % len(acts)
			}
			pick = acts[k]
		default:
			pick = acts[run.rnd.Intn(len(acts))]
		}
		if pick.task != nil {
			q = run.quantum(mean)
		}
	} else if d, ok := run.devs[n]; ok {
		for _, a := range acts {
			if a.key == d.K {
				pick, q = a, d.Q
			}
		}
	}
	if pick.key != def.key || q != 0 {
		run.Rec = append(run.Rec, Dev{At: n, K: pick.key, Q: q})
	}
	run.last = pick.key
	if pick.task != nil {
		return pick, q
	}
	run.W.Event("act %s", pick.key)
	if run.S.MaxSteps == 0 && run.W.Steps+maxSteps < 20*maxSteps { // the limit is for what is done between two acts
		run.W.MaxSteps = run.W.Steps + maxSteps
	}
	return pick, q
}

// ---- clients

func (bs *bootState) giveUp(st *cstate, why string) {
	if st.fin {
		return
	}
	st.fin = true
	for _, x := range st.res {
		if x.Resp == nil && x.Err == "" {
			x.Err = why
		}
	}
}

func (st *cstate) port(bs *bootState) int {
	v := bs.spec.Services[st.c.Svc]
	if v.TLS > 0 && (st.c.TLS || v.NoHTTP) {
		return v.TLS
	}
	return v.Port
}

// clientReady tells whether a client can do anything now.
func (bs *bootState) clientReady(st *cstate, wv int) bool {
	if st.fin || st.held {
		return false
	}
	c := st.c
	if st.conn == nil {
		if bs.inc.Dead {
			bs.giveUp(st, "the process ended")
			return false
		}
		if c.Wave > wv && c.Bad == "" {
			return false
		}
		if c.Bad != "" && c.Wave > wv {
			return false
		}
		switch c.Start {
		case "boot":
			return bs.listening(st.port(bs))
		case "announced":
			return bs.r.Announced[c.Svc]
		}
		return bs.inc.Serving
	}
	bs.refill(st)
	if c.Lag > 0 && !st.lagged && (c.LagSend && len(st.out) > 0 && st.sent > 0 && st.sent >= c.LagAt || !c.LagSend && st.conn.Pending() > 0 && st.taken >= c.LagAt) {
		st.lagged = true
		st.wake = time.Now().Add(time.Duration(c.Lag) * time.Second)
		bs.run.W.FaultsHit["client pauses"]++
		bs.run.W.Event("client %d pauses for %d s", st.no, c.Lag)
	}
	if time.Now().Before(st.wake) {
		return false
	}
	if len(st.out) > 0 && !st.conn.ServerDone() {
		return true
	}
	return st.conn.Pending() > 0 && c.Bad != "stall-read" || st.conn.ServerDone() && !st.eof
}

// pausing tells whether a client pauses that has something to receive.
func (bs *bootState) pausing() bool {
	for _, st := range bs.cs {
		if !st.fin && !st.held && st.conn != nil && st.conn.Pending() > 0 && time.Now().Before(st.wake) {
			return true
		}
	}
	return false
}

func (bs *bootState) listening(port int) bool {
	for _, l := range bs.inc.Listeners {
		if !l.Closed && l.Port() == port {
			return true
		}
	}
	return false
}

// refill queues the next requests of a connected client.
func (bs *bootState) refill(st *cstate) {
	c := st.c
	max := c.Pipe
	if max < 1 {
		max = 1
	}
	for c.Bad != "garbage" && st.next < len(c.Reqs) && len(st.inflight) < max && !st.eof && (c.Keep || len(st.inflight) == 0 || c.Pipe > 1) {
		if !c.Keep && st.sent > 0 && len(st.inflight) == 0 && len(st.out) == 0 {
			break
		}
		st.out = append(st.out, c.Reqs[st.next].wire()...)
		st.inflight = append(st.inflight, st.next)
		st.res[st.next].Conn = st.conn.No
		if bs.r.Signalled {
			st.res[st.next].AfterSig = true
		}
		st.next++
		if !c.Keep && c.Pipe <= 1 {
			break
		}
	}
}

func (bs *bootState) clientAct(st *cstate) {
	c, w := st.c, bs.run.W
	st.acts++
	if st.conn == nil {
		st.conn = w.Dial(bs.inc, st.port(bs), c.Window)
		if st.conn == nil {
			if bs.r.Announced[c.Svc] && !bs.r.Signalled && !bs.inc.Dead {
				bs.r.NoAnswer = true
				bs.r.NoAnswerWhy = fmt.Sprintf("client %d could not connect to port %d", st.no, st.port(bs))
			}
			st.refused++
			if bs.r.Signalled || st.refused > 3 {
				bs.giveUp(st, "connection refused")
			}
			return
		}
		w.Event("client %d connects: conn %d", st.no, st.conn.No)
		st.conn.MaxRead = c.MaxRead
		st.p = respParser{}
		st.sent, st.eof, st.inflight, st.out = 0, false, nil, nil
		if c.Bad == "garbage" {
			st.out = []byte(c.Wire)
		} else {
			bs.refill(st)
		}
		if c.Bad == "abort" && c.At == 0 {
			bs.abort(st)
		}
		return
	}
	if c.Bad == "abort" && st.acts > c.At {
		bs.abort(st)
		return
	}
	canSend := len(st.out) > 0 && !st.conn.ServerDone()
	canTake := st.conn.Pending() > 0 && (c.Bad != "stall-read" || st.conn.ServerDone())
	pick := mixHash(uint64(st.no), uint64(st.acts), bs.run.S.Seed)
	if canSend && (!canTake || pick&1 == 0) {
		n := len(st.out)
		if c.Send > 0 {
			if k := 1 + int((pick>>1)%uint64(c.Send)); k < n {
				n = k
			}
		}
		if c.Bad == "stall-send" && st.sent+n >= c.At {
			n = c.At - st.sent
			st.held = true
			if n < 0 {
				n = 0
			}
			if n > len(st.out) {
				n = len(st.out)
			}
			w.FaultsHit["client stalls while sending"]++
		}
		w.Event("client %d sends %d", st.no, n)
		st.conn.Send(st.out[:n])
		st.sent += n
		st.out = st.out[n:]
		if len(st.out) == 0 {
			for _, i := range st.inflight {
				st.res[i].SentAll = true
			}
			switch c.Bad {
			case "halfclose":
				if st.next >= len(c.Reqs) || !c.Keep && c.Pipe <= 1 {
					st.conn.InEOF = true
					w.FaultsHit["client closes its sending side"]++
				}
			case "stall-read":
				st.held = true
				w.FaultsHit["client never reads"]++
			case "garbage":
				w.FaultsHit["client sends garbage"]++
			}
		}
		return
	}
	if canTake {
		n := st.conn.Pending()
		if c.Take > 0 {
			if k := 1 + int((pick>>1)%uint64(c.Take)); k < n {
				n = k
			}
		}
		st.taken += n
		st.p.buf = append(st.p.buf, st.conn.Take(n)...)
		bs.parse(st, false)
		return
	}
	if st.conn.ServerDone() && st.conn.Pending() == 0 && !st.eof {
		st.eof = true
		w.Event("client %d sees the end of conn %d", st.no, st.conn.No)
		bs.parse(st, true)
		return
	}
}

func mixHash(a ...uint64) uint64 {
	r := simrt.NewRand(0)
	for _, x := range a {
		r = r.Split(x)
	}
	return r.Uint64()
}

func (bs *bootState) abort(st *cstate) {
	st.conn.Reset = true
	bs.run.W.FaultsHit["client aborts the connection"]++
	bs.run.W.Event("client %d aborts", st.no)
	for _, i := range st.inflight {
		st.res[i].Err = "aborted"
	}
	st.fin = true
	for _, x := range st.res {
		if x.Resp == nil && x.Err == "" {
			x.Err = "aborted"
		}
	}
}

func (bs *bootState) parse(st *cstate, eof bool) {
	w, c := bs.run.W, st.c
	closing := false
	for {
		method := "GET"
		if len(st.inflight) > 0 {
			method = st.res[st.inflight[0]].Req.method()
		}
		resp := st.p.next(method, eof)
		if resp == nil {
			break
		}
		if c.Bad == "garbage" {
			closing = closing || resp.Close
			continue
		}
		if len(st.inflight) == 0 {
			st.p.err = "a response without a request"
			break
		}
		x := st.res[st.inflight[0]]
		st.inflight = st.inflight[1:]
		x.Resp = resp
		x.Edited = bs.r.EditedAny
		bs.responses++
		bs.r.Reqs++
		w.Event("client %d request %d: %d %d bytes %x", st.no, x.Idx, resp.Status, len(resp.Body), strHash(string(resp.Body)))
		if resp.Close || x.Req.Close || x.Req.H10 {
			closing = true
			break
		}
		if !c.Keep && len(st.inflight) == 0 {
			closing = true
		}
	}
	if st.p.err != "" && c.Bad != "garbage" {
		i := st.next - 1
		if len(st.inflight) > 0 {
			i = st.inflight[0]
		}
		if i < 0 {
			i = 0
		}
		if i < len(st.res) {
			st.res[i].Err = "malformed response: " + st.p.err
		}
		st.conn.Reset = true
		bs.giveUp(st, "not sent")
		return
	}
	if closing && c.Bad != "garbage" {
		// The rest is sent again on another connection, if there is a rest.
		for _, i := range st.inflight {
			if i < st.next {
				st.next = i
			}
			st.res[i].Resent = true
			st.res[i].SentAll = false
		}
		bs.hangUp(st)
		if st.next >= len(c.Reqs) {
			st.fin = true
		}
		return
	}
	if eof {
		if c.Bad == "garbage" || c.Bad == "halfclose" {
			bs.giveUp(st, "closed")
			return
		}
		if len(st.inflight) > 0 {
			x := st.res[st.inflight[0]]
			// A persistent connection may be closed between requests; a request that was not
			// handled may be sent again.
			if st.res[st.inflight[0]].Idx > 0 && c.Keep && !x.Resent && bs.r.Signalled {
				x.Err = "closed instead of answered (idle)"
			} else {
				x.Err = "closed instead of answered"
			}
			for _, i := range st.inflight[1:] {
				st.res[i].Err = "closed before its turn"
			}
		}
		bs.hangUp(st)
		if st.next >= len(c.Reqs) {
			st.fin = true
		}
		return
	}
	if st.next >= len(c.Reqs) && len(st.inflight) == 0 && c.Bad != "garbage" && c.Bad != "stall-read" {
		// Everything is answered. The connection stays open and idle unless the client is done with it.
		if mixHash(uint64(st.no), 99, bs.run.S.Seed)&1 == 0 {
			bs.hangUp(st)
		}
		st.fin = true
	}
}

func (bs *bootState) hangUp(st *cstate) {
	if st.conn != nil {
		st.conn.InEOF = true
		st.conn = nil
	}
	st.out, st.inflight = nil, nil
}

// ---- running a scenario

var traceRuns bool

// runScenario executes a scenario in its own bubble.
func runScenario(t *testing.T, s *Scenario) (run *Run) {
	run = &Run{S: s, T: t}
	defer func() {
		// Goroutines of the libraries that outlive their process (those of rodb itself are ended with
		// it) are not judged: there is nothing they could still do.
		if p := recover(); p != nil {
			if strings.Contains(fmt.Sprint(p), "main bubble goroutine has exited but blocked goroutines remain") && run.complete {
				run.W.Probes["goroutines of libraries left behind"]++
				return
			}
			panic(p)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		run.execute()
		run.complete = true
	})
	return run
}

// errorHits is how often a fault made an operation fail.
func errorHits(f *simrt.Fault) int {
	if f.Kind == "slow" {
		return 0
	}
	return f.Hit
}
