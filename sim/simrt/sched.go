// Package simrt is the runtime of the simulator: a scheduler that releases one task at a time, the
// simulated disk, network and environment, and the life cycle of simulated processes.
//
// Everything runs inside a testing/synctest bubble, which provides the fake clock and the detection
// of quiescence; which task proceeds is decided here.
package simrt

import (
	"database/sql"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"rodbsim/gid"
)

// W is the current world; nil outside simulated runs.
var W *World

type Task struct {
	ID     int
	Name   string
	Key    string // for the scheduler
	inc    *Incarnation
	goid   int64
	wake   chan bool // true: killed
	parked bool
	desc   string
	site   int
	cond   func() bool
	dying  bool
	fromY  bool
	inCode bool // executed code of the system under test since its last connection read
}

// Incarnation is one life of the simulated process.
type Incarnation struct {
	No       int
	Dead     bool
	Exited   bool
	ExitCode int
	ExitWhy  string
	Panic    string
	Serving  bool // set by the driver once the process announced its address

	live      int // simrt.Go tasks not ended
	cleanup   []func()
	killed    chan struct{}
	Listeners []*Listener
	Conns     []*Conn
	Watchers  []*WatchState
	Signals   []*SignalReg
	Files     []*Handle
	DBs       []*sql.DB
	Log       []string
	logBuf    string

	mutOps  int // mutating disk operations so far
	allOps  int
	Crash   *CrashPlan
	Faults  []*Fault
	Profile map[string]int // disk operations by "phase/op/role"
	connSeq int
}

// Choice is one scheduling decision.
type Choice struct {
	Pick    int `json:"p"`           // index into the canonically ordered list of enabled actions
	Quantum int `json:"q,omitempty"` // scheduling points the task may pass before it is preempted (0: until it blocks)
}

const infinite = 1 << 30

type World struct {
	mu         sync.Mutex
	tasks      map[int64]*Task
	parked     []*Task
	enabled    []*Task
	fresh      []*Task // parked for the first time, no id yet
	nextID     int
	activeGoid int64
	active     *Task
	quantum    int
	Steps      int64 // scheduling points passed
	MaxSteps   int64
	Overrun    bool
	Inc        *Incarnation
	incCount   int
	Disk       *Disk

	MapRand  *Rand
	MapOrder int // 0 sorted, 1 reverse, 2 random

	hash      uint64 // event log hash
	schedHash uint64 // interleaving hash: sequence of (task, place)
	Trace     []string
	Tracing   bool
	Decisions int64
	Switches  int64
	FaultsHit map[string]int
	Probes    map[string]int
	Violate   func(prop, detail string) // monitors
	OnMutate  func(op, path string)
	BusyPorts map[int]bool // ports other processes listen on

	mapWrites []mapWrite
	siteTask  map[int]int
}

func NewWorld() *World {
	return &World{tasks: map[int64]*Task{}, MapRand: NewRand(1), FaultsHit: map[string]int{}, Probes: map[string]int{},
		MaxSteps: 20_000_000, Disk: NewDisk(), hash: 14695981039346656037, schedHash: 14695981039346656037}
}

func (w *World) Event(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
	}
	w.hash = (w.hash ^ '\n') * 1099511628211
	if w.Tracing {
		w.Trace = append(w.Trace, s)
	}
}

func (w *World) Hash() uint64      { return w.hash }
func (w *World) SchedHash() uint64 { return w.schedHash }

func (w *World) noteSched(a, b uint64) {
	w.schedHash = (w.schedHash ^ a) * 1099511628211
	w.schedHash = (w.schedHash ^ b) * 1099511628211
}

func (w *World) current() *Task {
	g := gid.Get()
	if atomic.LoadInt64(&w.activeGoid) == g {
		return w.active
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	t := w.tasks[g]
	if t == nil {
		t = &Task{goid: g, inc: w.Inc, wake: make(chan bool)}
		w.tasks[g] = t
	}
	return t
}

// CurrentInc is the incarnation the calling goroutine belongs to.
func CurrentInc() *Incarnation {
	if W == nil {
		return nil
	}
	return W.current().inc
}

func (w *World) die(t *Task) {
	if t.dying {
		return
	}
	t.dying = true
	runtime.Goexit()
}

// Y is a scheduling point.
func Y(site int) {
	w := W
	if w == nil {
		return
	}
	if atomic.LoadInt64(&w.activeGoid) == gid.Get() {
		t := w.active
		t.site = site
		t.inCode = true
		if t.inc.Dead {
			w.die(t)
			return
		}
		w.Steps++
		if w.quantum > 0 {
			w.quantum--
			if w.Steps < w.MaxSteps {
				return
			}
			w.Overrun = true
			w.quantum = 0
		}
		t.fromY = true
		if w.park(t, "y", nil) {
			w.die(t)
		}
		return
	}
	t := w.current()
	t.site = site
	t.inCode = true
	if t.dying {
		return
	}
	t.fromY = true
	if w.park(t, "y", nil) {
		w.die(t)
	}
}

// Block waits until cond holds, as decided by the scheduler. It reports whether the process was
// killed meanwhile. cond must have no side effects.
func Block(desc string, cond func() bool) (killed bool) {
	w := W
	if w == nil {
		if cond != nil && !cond() {
			panic("simrt: blocking outside a simulated run: " + desc)
		}
		return false
	}
	t := w.current()
	if t.inc.Dead {
		return true
	}
	if atomic.LoadInt64(&w.activeGoid) == t.goid {
		w.Steps++
		if w.quantum > 0 && (cond == nil || cond()) {
			w.quantum--
			return false
		}
	}
	t.fromY = false
	if strings.HasPrefix(desc, "conn ") && strings.HasSuffix(desc, " read") {
		t.inCode = false
	}
	return w.park(t, desc, cond)
}

// Handling lists the connections whose server task is executing code of the system under test.
func (w *World) Handling() map[int]bool {
	h := map[int]bool{}
	for _, t := range w.parked {
		var n int
		if t.inCode && t.inc == w.Inc {
			if _, err := fmt.Sscanf(t.Name, "conn %d read", &n); err == nil {
				h[n] = true
			}
		}
	}
	return h
}

// BlockOrDie is Block for callers that have nothing to clean up when the process is killed.
func BlockOrDie(desc string, cond func() bool) {
	if Block(desc, cond) {
		t := W.current()
		w := W
		w.die(t)
	}
}

func (w *World) park(t *Task, desc string, cond func() bool) bool {
	w.mu.Lock()
	t.desc, t.cond, t.parked = desc, cond, true
	if t.ID == 0 {
		w.fresh = append(w.fresh, t)
	} else {
		w.parked = append(w.parked, t)
	}
	if atomic.LoadInt64(&w.activeGoid) == t.goid {
		atomic.StoreInt64(&w.activeGoid, 0)
	}
	w.mu.Unlock()
	return <-t.wake
}

// Go starts a task of the simulated process.
func Go(f func()) {
	w := W
	if w == nil {
		go f()
		return
	}
	cur := w.current()
	w.spawn(cur.inc, "go", f)
}

func (w *World) spawn(inc *Incarnation, name string, f func()) {
	t := &Task{inc: inc, wake: make(chan bool), Name: name}
	w.mu.Lock()
	w.nextID++
	t.ID = w.nextID
	inc.live++
	w.mu.Unlock()
	go func() {
		t.goid = gid.Get()
		w.mu.Lock()
		w.tasks[t.goid] = t
		w.mu.Unlock()
		defer func() {
			r := recover()
			w.mu.Lock()
			inc.live--
			delete(w.tasks, t.goid)
			w.mu.Unlock()
			if r != nil && !inc.Dead {
				inc.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
				inc.exit(2, fmt.Sprintf("panic: %v", r))
			}
		}()
		t.fromY = true
		if w.park(t, "start", nil) {
			t.dying = true
			return
		}
		f()
	}()
}

func (inc *Incarnation) exit(code int, why string) {
	if inc.Dead {
		return
	}
	inc.Dead, inc.Exited, inc.ExitCode, inc.ExitWhy = true, true, code, why
	W.Event("exit %d %s", code, firstLine(why))
	W.Disk.freeze(inc)
}

func firstLine(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			return s[:i]
		}
	}
	return s
}

// Exit is os.Exit.
func Exit(code int) {
	w := W
	t := w.current()
	t.inc.exit(code, "os.Exit")
	w.die(t)
}

// Boot starts a new incarnation running main.
func (w *World) Boot(main func()) *Incarnation {
	w.incCount++
	inc := &Incarnation{No: w.incCount, Profile: map[string]int{}, killed: make(chan struct{})}
	w.Inc = inc
	// Package variables are initialised before main starts: nothing is scheduled yet.
	W = nil
	for _, r := range resets {
		r.f()
	}
	W = w
	w.spawn(inc, "main", func() {
		main()
		inc.exit(0, "main returned")
	})
	return inc
}

type reset struct {
	pkg string
	f   func()
}

var resets []reset

// RegisterReset registers the re-initialisation of a package's variables (in dependency order).
func RegisterReset(pkg string, f func()) { resets = append(resets, reset{pkg, f}) }

// Settle waits until every goroutine of the bubble is blocked and gives ids to new tasks.
func (w *World) Settle() {
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.fresh) > 0 {
		sort.SliceStable(w.fresh, func(i, j int) bool {
			a, b := w.fresh[i], w.fresh[j]
			if a.desc != b.desc {
				return a.desc < b.desc
			}
			return a.site < b.site
		})
		for _, t := range w.fresh {
			w.nextID++
			t.ID = w.nextID
			t.Name = t.desc
			w.parked = append(w.parked, t)
		}
		w.fresh = nil
	}
	// almost sorted already
	l := w.parked
	for i := 1; i < len(l); i++ {
		t := l[i]
		j := i
		for ; j > 0 && l[j-1].ID > t.ID; j-- {
			l[j] = l[j-1]
		}
		l[j] = t
	}
}

// Enabled lists the tasks that may proceed, in canonical order, valid until the next
// call. Settle must have been called.
func (w *World) Enabled() []*Task {
	e := w.enabled[:0]
	for _, t := range w.parked {
		if t.cond == nil || t.cond() {
			e = append(e, t)
		}
	}
	w.enabled = e
	return e
}

// LastActive is the task released last.
func (w *World) LastActive() *Task { return w.active }

// Blocked describes the tasks that wait for a condition.
func (w *World) Blocked() []string {
	var s []string
	for _, t := range w.parked {
		s = append(s, fmt.Sprintf("task %d (%s) at %s", t.ID, t.Name, t.desc))
	}
	return s
}

// Release lets a task run for quantum scheduling points.
func (w *World) Release(t *Task, quantum int) {
	if quantum <= 0 {
		quantum = infinite
	}
	w.mu.Lock()
	for i, p := range w.parked {
		if p == t {
			w.parked = append(w.parked[:i], w.parked[i+1:]...)
			break
		}
	}
	t.parked = false
	if w.active != t {
		w.Switches++
	}
	w.active = t
	w.quantum = quantum
	w.Decisions++
	w.mu.Unlock()
	w.noteSched(uint64(t.ID), uint64(t.site)<<1|b2u(t.fromY))
	if w.Tracing {
		w.Trace = append(w.Trace, fmt.Sprintf("run %d %s/%s@%d q=%d step=%d", t.ID, t.Name, t.desc, t.site, quantum, w.Steps))
	}
	w.hash = (w.hash ^ uint64(t.ID)<<32 ^ uint64(t.site) ^ uint64(w.Steps)<<16) * 1099511628211
	atomic.StoreInt64(&w.activeGoid, t.goid)
	t.wake <- false
	synctest.Wait()
	atomic.StoreInt64(&w.activeGoid, 0)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Kill ends an incarnation: its effects stop, its tasks end.
func (w *World) Kill(inc *Incarnation) error {
	if !inc.Dead {
		inc.Dead = true
		w.Disk.freeze(inc)
	}
	for _, f := range inc.cleanup {
		f()
	}
	inc.cleanup = nil
	close(inc.killed)
	idle := 0
	for round := 0; round < 10000; round++ {
		w.Settle()
		w.mu.Lock()
		var t *Task
		for i, p := range w.parked {
			if p.inc == inc {
				t = p
				w.parked = append(w.parked[:i], w.parked[i+1:]...)
				break
			}
		}
		w.mu.Unlock()
		if t != nil {
			idle = 0
			t.parked = false
			w.active = t
			atomic.StoreInt64(&w.activeGoid, t.goid)
			t.wake <- true
			synctest.Wait()
			atomic.StoreInt64(&w.activeGoid, 0)
			continue
		}
		idle++
		if idle > 3 && inc.live <= 0 {
			return nil
		}
		if idle > 200 {
			return fmt.Errorf("%d task(s) of the killed process did not end", inc.live)
		}
		for _, s := range inc.Signals {
			select {
			case s.C <- fakeSignal{}:
			default:
			}
		}
		time.Sleep(time.Second)
	}
	return fmt.Errorf("the killed process did not end")
}

func (inc *Incarnation) OnKill(f func()) { inc.cleanup = append(inc.cleanup, f) }

type fakeSignal struct{}

func (fakeSignal) Signal()        {}
func (fakeSignal) String() string { return "killed" }

// Probe counts that a condition of interest was reached.
func (w *World) Probe(name string) { w.Probes[name]++ }
