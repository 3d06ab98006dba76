package harness

import (
	"bytes"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"

	"rodbsim/simrt"
)

// property is the machinery that decides one property.
type property struct {
	id         string
	level      string
	quick      int // scenario indices in the quick tier
	rule       string
	reduceData bool // the minimiser may shorten the data and drop outputs
	explore1   func(c *ctx)
	check      func(run *Run) []Violation
	nontrivial func(run *Run) bool
}

var properties = map[string]*property{}

func register(p *property) {
	if p.level == "" {
		p.level = "exploration"
	}
	properties[p.id] = p
}

func findProp(id string) *property { return properties[id] }

// ---- building blocks

func strat(r *simrt.Rand) *Strat {
	s := &Strat{Kind: r.PickS("random", "random", "random", "pct", "starve"), Seed: r.Uint64()}
	s.Q = r.Pick(1, 3, 8, 20, 60, 200, 0)
	s.BootQ = r.Pick(0, 0, 500)
	return s
}

func calm(r *simrt.Rand) *Strat {
	return &Strat{Kind: "random", Seed: r.Uint64(), Q: r.Pick(0, 0, 200)}
}

func base(c *ctx, g *gen, kind string) *Scenario {
	s := &Scenario{Seed: c.r.Uint64() >> 11, Kind: kind, Spec: g.s, MapOrder: c.r.Pick(0, 1, 2), MapSeed: c.r.Uint64() >> 11, Strat: strat(c.r)}
	if g.many >= 0 {
		s.Strat = &Strat{Kind: "random", Seed: c.r.Uint64(), Q: c.r.Pick(0, 200, 2000)}
	}
	return s
}

// canFail tells whether injected faults may make operations fail.
func canFail(b *Boot) bool {
	for _, f := range b.Faults {
		if f.Kind != "slow" {
			return true
		}
	}
	return false
}

// slowDisk makes some operations on the files take seconds, which changes nothing but the timing.
func slowDisk(r *simrt.Rand, b *Boot, p float64, ops ...string) {
	if !r.Chance(p) {
		return
	}
	for i := r.Pick(1, 1, 2, 3); i > 0; i-- {
		b.Faults = append(b.Faults, &simrt.Fault{Op: ops[r.Intn(len(ops))], Role: r.PickS("", "data", "data", "wildcard"), Phase: r.PickS("", "serve", "boot"),
			Nth: r.Pick(1, 1, 2, r.Range(1, 30)), Count: r.Pick(1, 1, 2), Kind: "slow", Arg: r.Pick(1, 2, 4)})
	}
}

// hangingDisk makes one operation take about a minute while serving.
func hangingDisk(r *simrt.Rand, b *Boot, p float64) {
	if !r.Chance(p) {
		return
	}
	b.Faults = append(b.Faults, &simrt.Fault{Op: r.PickS("read", "read", "open", "seek"), Role: r.PickS("", "data", "data", "wildcard"), Phase: "serve",
		Nth: r.Pick(1, 1, 2, r.Range(1, 30)), Count: 1, Kind: "slow", Arg: r.Pick(15, 40, 70)})
}

func (g *gen) clients(m *model, nc, maxReq int) []*Client {
	var l []*Client
	for i := 0; i < nc; i++ {
		l = append(l, g.client(m, g.r.Range(1, maxReq)))
	}
	return l
}

func answered(run *Run) bool {
	for _, b := range run.Boots {
		for _, x := range b.Results {
			if x.Resp != nil && x.Resp.Status == 200 {
				return true
			}
		}
	}
	return false
}

func overlapping(run *Run) bool { return run.W.Switches > 20 && answered(run) }

func (g *gen) persistentIndexes() []*Index {
	var l []*Index
	for _, x := range g.s.Indexes {
		if x.persistent() {
			l = append(l, x)
		}
	}
	return l
}

// checkAllServe is the oracle for runs in which nothing goes wrong.
func checkAllServe(run *Run) []Violation {
	r := &report{run: run}
	for _, b := range run.Boots {
		r.serve(b, expect{})
	}
	return r.l
}

func init() {
	register(&property{id: "C01", quick: 8000, reduceData: true, rule: "at least two tasks alternated while a request was answered with 200",
		nontrivial: overlapping, check: checkAllServe,
		explore1: func(c *ctx) {
			o := defaultOpt()
			o.Many = 0.01
			o.Inputs = c.r.Pick(1, 1, 2)
			o.huge(c.r, 0.004)
			g := genSpec(c.r, o)
			s := base(c, g, "concurrent")
			s.Boots = []*Boot{{Clients: g.clients(newModel(g.s), c.r.Range(2, 6), 4), End: "kill"}}
			slowDisk(c.r, s.Boots[0], 0.15, "read", "open", "seek")
			hangingDisk(c.r, s.Boots[0], 0.02)
			c.run(s)
		}})

	register(&property{id: "C02", quick: 5000, reduceData: true, rule: "a filtered request was answered with 200",
		nontrivial: answered, check: checkAllServe,
		explore1: func(c *ctx) {
			o := defaultOpt()
			kinds := []string{"map", "sqlite", "wildcard", "fts5", "noop", "mix"}
			kind := kinds[c.idx%len(kinds)]
			o.Inputs, o.Rels, o.Bad = 1, 0, 0.05
			o.MaxRec = c.r.Pick(6, 20, 40)
			o.Memory, o.Many = 0.1, 0.05
			switch kind {
			case "noop":
				o.Indexes = nil
			case "mix":
				o.MaxIdx = 4
			default:
				o.Indexes = []string{kind}
				o.MaxIdx = 2
			}
			if kind == "wildcard" && c.r.Chance(0.4) { // beyond the write buffer
				o.MinRec, o.MaxRec, o.Big = 40, 70, 0
			}
			if kind != "wildcard" {
				o.huge(c.r, 0.01)
			}
			g := genSpec(c.r, o)
			m := newModel(g.s)
			s := base(c, g, kind)
			cl := func() []*Client {
				var l []*Client
				for i := 0; i < c.r.Range(1, 3); i++ {
					x := &Client{Keep: true}
					for k := 0; k < 8; k++ {
						t := g.tmpl[c.r.Intn(len(g.tmpl))]
						x.Reqs = append(x.Reqs, g.request(m, t, c.r.Pick(1, 1, 2, 3)))
					}
					l = append(l, x)
				}
				return l
			}
			s.Boots = []*Boot{{Clients: cl(), End: c.r.PickS("kill", "term")}}
			if len(g.persistentIndexes()) > 0 && c.r.Chance(0.5) {
				s.Boots = append(s.Boots, &Boot{Clients: cl(), End: "kill"})
			}
			c.run(s)
		}})

	register(&property{id: "C03", quick: 5000, reduceData: true, rule: "single records were read out of order, or while scans ran",
		nontrivial: answered, check: func(run *Run) []Violation {
			r := &report{run: run}
			for _, b := range run.Boots {
				r.serve(b, expect{answerMode: answerMode{fault: canFail(b.Boot)}})
			}
			return r.l
		},
		explore1: func(c *ctx) {
			o := defaultOpt()
			typ := []string{"csv", "json", "xml"}[c.idx%3]
			o.Types, o.Inputs, o.Rels, o.Indexes, o.MaxIdx = []string{typ}, 1, 0.15, []string{"map", "map", "sqlite"}, 2
			o.Big, o.Bad = 0.35, 0.2
			o.MinRec, o.MaxRec = 3, 20
			o.huge(c.r, 0.01)
			g := genSpec(c.r, o)
			m := newModel(g.s)
			s := base(c, g, typ)
			var cl []*Client
			for i := 0; i < c.r.Range(1, 4); i++ {
				x := &Client{Keep: true}
				for k := 0; k < c.r.Range(3, 12); k++ {
					t := g.tmpl[c.r.Intn(len(g.tmpl))]
					x.Reqs = append(x.Reqs, g.request(m, t, c.r.Pick(1, 1, 1, 0)))
				}
				cl = append(cl, x)
			}
			b := &Boot{Clients: cl, End: "kill"}
			if c.r.Chance(0.4) { // some of the reads fail, and are tried again
				s.Kind = typ + ", failed reads"
				for k := c.r.Range(1, 4); k > 0; k-- {
					f := dataFaults[c.r.Intn(len(dataFaults))]
					b.Faults = append(b.Faults, &simrt.Fault{Op: f.op, Role: f.role, Phase: "serve", Nth: c.r.Range(1, 25), Count: c.r.Pick(1, 1, 1, 2), Kind: f.kind, Arg: c.r.Pick(0, 1, 7, 60)})
				}
				for _, x := range cl {
					repeat(c.r, x, 0.5)
				}
			}
			slowDisk(c.r, b, 0.15, "read", "seek", "open")
			s.Boots = []*Boot{b}
			c.run(s)
		}})

	register(&property{id: "C04", level: "fault_enumeration", quick: 1600, rule: "the process crashed while an index was being built or used, and was started again",
		nontrivial: func(run *Run) bool {
			return len(run.Boots) > 1 && run.Boots[0].Crashed
		},
		explore1: exploreC04, check: func(run *Run) []Violation {
			r := &report{run: run}
			for i, b := range run.Boots {
				last := i == len(run.Boots)-1
				r.serve(b, expect{refuse: i > 0 && !last})
			}
			return r.l
		}})

	register(&property{id: "C05", quick: 20000, rule: "an index built in an earlier start was used by a later one",
		nontrivial: func(run *Run) bool { return len(run.Boots) > 1 && answered(run) },
		explore1:   exploreC05, check: checkC05})

	register(&property{id: "C06", quick: 25000, rule: "a start met an index that does not belong to its data or configuration",
		nontrivial: func(run *Run) bool { return len(run.Boots) > 1 && len(run.Boots[0].Files) > 0 },
		explore1:   exploreC06, check: checkC06})

	register(&property{id: "C07", quick: 30000, rule: "a file event or an edit happened during the run",
		nontrivial: func(run *Run) bool { return len(run.Boots) > 0 && len(run.Boots[0].Edits) > 0 },
		explore1:   exploreC07, check: checkC07})

	register(&property{id: "C08", quick: 12000, reduceData: true, rule: "the interrupt came while requests were being handled, or connections were open",
		nontrivial: func(run *Run) bool { return run.Boots[0].Signalled },
		explore1:   exploreC08, check: checkC08})

	register(&property{id: "C09", quick: 16000, rule: "at least 20 requests were served before the handles were counted",
		nontrivial: func(run *Run) bool { return run.Boots[0].Reqs >= 20 },
		explore1:   exploreC09, check: checkC09})

	register(&property{id: "C10", level: "fault_enumeration", quick: 1800, rule: "an injected fault was hit while serving",
		nontrivial: func(run *Run) bool { return run.Boots[0].FaultHits > 0 },
		explore1:   exploreC10, check: func(run *Run) []Violation {
			r := &report{run: run}
			r.serve(run.Boots[0], expect{answerMode: answerMode{fault: true}})
			return r.l
		}})

	register(&property{id: "C11", level: "fault_enumeration", quick: 10000, rule: "faults were hit, then stopped, and requests followed",
		nontrivial: func(run *Run) bool { return run.Boots[0].FaultHits > 0 },
		explore1:   exploreC11, check: checkC11})

	register(&property{id: "C12", quick: 14000, reduceData: true, rule: "requests were answered",
		nontrivial: func(run *Run) bool { return run.Boots[0].Reqs > 0 },
		explore1:   exploreC12, check: checkAllServe})

	register(&property{id: "C13", quick: 5000, reduceData: true, rule: "at least two pages of a list were fetched",
		nontrivial: func(run *Run) bool { return run.Boots[0].Reqs > 2 },
		explore1:   exploreC13, check: checkC13})

	register(&property{id: "C14", quick: 5000, reduceData: true, rule: "records with relationships were answered",
		nontrivial: answered, check: checkAllServe,
		explore1: func(c *ctx) {
			o := defaultOpt()
			o.Rels = 1
			o.Inputs = c.r.Pick(1, 2, 2, 3)
			o.RelName = 0.15
			o.Bad = 0.03
			o.MaxRec, o.Many = 10, 0
			n := 4
			if c.r.Chance(0.04) {
				o.Many, o.Flat, n = 1, true, 2
			} else if c.idx%5 == 4 { // many children
				o.MinRec, o.MaxRec, o.Flat, o.Big = 20, 45, true, 0
			}
			o.Indexes = []string{"map", "map", "sqlite", "sqlite", "wildcard"}
			o.huge(c.r, 0.004)
			g := genSpec(c.r, o)
			s := base(c, g, "relationships")
			s.Boots = []*Boot{{Clients: g.clients(newModel(g.s), c.r.Range(1, n), n), End: "kill"}}
			c.run(s)
		}})

	register(&property{id: "C15", quick: 40000, reduceData: true, rule: "values in a character set were decoded by overlapping requests",
		nontrivial: overlapping, check: checkAllServe,
		explore1: func(c *ctx) {
			o := defaultOpt()
			o.Types, o.Inputs, o.Rels, o.Bad, o.Big = []string{"csv"}, c.r.Pick(1, 1, 2), 0.2, 0, 0
			o.Charset = charsetNames[c.idx%len(charsetNames)]
			o.Indexes, o.MaxIdx = []string{"map", "sqlite"}, 2
			o.MinRec, o.MaxRec = 3, 12
			g := genSpec(c.r, o)
			if len(g.s.Inputs) > 1 && c.r.Chance(0.7) { // one parser for both
				var n string
				for _, in := range g.s.Inputs {
					for k := range in.Cols {
						if in.Cols[k].Name == "jp" {
							if n == "" {
								n = in.Cols[k].Parser
							}
							in.Cols[k].Parser = n
						}
					}
				}
			}
			s := base(c, g, o.Charset)
			s.Boots = []*Boot{{Clients: g.clients(newModel(g.s), c.r.Range(2, 5), 4), End: "kill"}}
			c.run(s)
		}})

	register(&property{id: "C16", level: "fault_enumeration", quick: 3000, rule: "an injected fault was hit during start-up",
		nontrivial: func(run *Run) bool {
			return run.Boots[0].FaultHits > 0 || len(run.Boots[0].Boot.Busy) > 0 || run.S.X["invalid"] != ""
		},
		explore1: exploreC16, check: checkC16})

	register(&property{id: "C17", quick: 6000, reduceData: true, rule: "a request was repeated",
		nontrivial: answered, explore1: exploreC17, check: checkC17})

	register(&property{id: "C18", quick: 5000, rule: "a client tried to connect while rodb was starting",
		nontrivial: answered, explore1: exploreC18, check: checkC18})

	register(&property{id: "C19", quick: 10000, rule: "a misbehaving client was connected while others were served",
		nontrivial: func(run *Run) bool { return len(run.Boots[0].Bad) > 0 && answered(run) },
		explore1:   exploreC19, check: checkAllServe})

	register(&property{id: "C20", quick: 45000, rule: "rodb was started and served or failed",
		nontrivial: func(run *Run) bool { return run.W.Steps > 0 },
		explore1:   exploreC20, check: checkC20})
}

// ---- C04

func persistentOpt(r *simrt.Rand) GenOpt {
	o := defaultOpt()
	o.Inputs = r.Pick(1, 1, 2)
	o.Rels, o.Bad, o.JP = 0.1, 0, 0.05
	o.Indexes = []string{"wildcard", "wildcard", "sqlite", "fts5"}
	o.MaxIdx = r.Pick(1, 1, 2, 3)
	o.NoDie = r.Chance(0.5)
	return o
}

// indexQueries makes requests that use every index.
func (g *gen) indexQueries(m *model, n int) []*Client {
	var l []*Client
	c := &Client{Keep: true}
	for k := 0; k < n; k++ {
		t := g.tmpl[g.r.Intn(len(g.tmpl))]
		for try := 0; try < 3 && len(t.out.Params) == 0; try++ {
			t = g.tmpl[g.r.Intn(len(g.tmpl))]
		}
		if g.svcIndex(t) != 0 {
			continue
		}
		c.Reqs = append(c.Reqs, g.request(m, t, 1))
	}
	if len(c.Reqs) > 0 {
		l = append(l, c)
	}
	return l
}

// indexSweep asks for many different texts of the persistent indexes: suffixes of values, each of which
// has a way of its own through a wildcard index, and others.
func (g *gen) indexSweep(m *model, n int) []*Client {
	type target struct {
		t *tmpl
		p string
	}
	var ts []*tmpl
	var ws []target
	for _, t := range g.tmpl {
		if g.svcIndex(t) != 0 {
			continue
		}
		inPath := 0
		for _, p := range t.out.Params {
			if t.inPath(p.Name) {
				inPath++
			}
		}
		any := false
		for _, p := range t.out.Params {
			x := g.s.index(orStr(p.Index, "default"))
			if x == nil || x.Path == "" {
				continue
			}
			any = true
			if x.Type == "wildcard" && (inPath == 0 || inPath == 1 && t.inPath(p.Name)) {
				ws = append(ws, target{t, p.Name})
			}
		}
		if any {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return nil
	}
	c := &Client{Keep: true}
	seen := map[string]bool{}
	for k := 0; k < n; k++ {
		var q *Req
		if len(ws) > 0 && g.r.Chance(0.85) {
			w := ws[g.r.Intn(len(ws))]
			v := g.value(m, w.t.in, w.t.fields[w.p])
			if len(v) > 200 {
				v = v[:200]
			}
			rs := []rune(strings.ToValidUTF8(v, "?"))
			if len(rs) == 0 {
				continue
			}
			v = string(rs[g.r.Intn(len(rs)):])
			if w.t.inPath(w.p) {
				if strings.Contains(v, "\n") {
					continue
				}
				q = &Req{T: strings.Replace(w.t.route.Path, "{"+w.p+"}", pathEsc(v), 1)}
			} else {
				q = &Req{T: w.t.route.Path + "?" + w.p + "=" + url.QueryEscape(v)}
			}
		} else {
			q = g.request(m, ts[g.r.Intn(len(ts))], 1)
		}
		if !seen[q.T] {
			seen[q.T] = true
			c.Reqs = append(c.Reqs, q)
		}
	}
	if len(c.Reqs) == 0 {
		return nil
	}
	return []*Client{c}
}

var powerKinds = []string{"none", "all", "prefix", "suffix", "random", "random", "random", "but-one", "but-one", "last"}

func exploreC04(c *ctx) {
	r := c.r
	o := persistentOpt(r)
	if r.Chance(0.3) { // larger than the write buffer
		o.MinRec, o.MaxRec = 30, 60
	}
	o.huge(r, 0.008)
	g := genSpec(r, o)
	if len(g.persistentIndexes()) == 0 {
		return
	}
	m := newModel(g.s)
	mk := func(kind string) *Scenario {
		s := base(c, g, kind)
		s.Strat = calm(r)
		return s
	}
	s := mk("profile")
	s.Boots = []*Boot{{Clients: g.indexQueries(m, 6), End: "kill"}}
	prof := c.run(s)
	if c.stop() || len(prof.Boots) == 0 {
		return
	}
	n := prof.Boots[0].MutOps
	cases := 8
	if c.thor {
		cases = 40
	}
	for k := 0; k < cases && !c.stop(); k++ {
		kind := r.PickS("kill", "kill", "power", "power", "power-after")
		s := mk(kind)
		b := &Boot{End: "kill"}
		if kind != "power-after" {
			at := r.Range(1, n+1)
			if r.Chance(0.3) { // near the end of the build
				at = n - r.Intn(4)
			}
			if at < 1 {
				at = 1
			}
			b.Crash = &simrt.CrashPlan{MutOp: at, Tear: []float64{0, 1, 0.5, 0.25, 0.99}[r.Intn(5)]}
		}
		if kind != "kill" {
			b.End = "power:" + powerKinds[r.Intn(len(powerKinds))]
		}
		if kind == "power-after" {
			b.Clients = g.indexQueries(m, 2)
			if r.Chance(0.5) {
				b.Events = []*Event{{When: "idle", EnvOp: EnvOp{Op: "int"}}}
			}
		}
		s.Boots = []*Boot{b}
		// Another crash while recovering.
		if r.Chance(0.2) {
			b2 := &Boot{End: "kill", Crash: &simrt.CrashPlan{MutOp: r.Range(1, 6), Tear: 0.5}, Clients: g.indexQueries(m, 3)}
			if r.Chance(0.5) {
				b2.End = "power:" + powerKinds[r.Intn(len(powerKinds))]
			}
			s.Boots = append(s.Boots, b2)
		}
		after := g.indexQueries(m, 8)
		if r.Chance(0.3) {
			after = append(after, g.indexSweep(m, 40)...)
		}
		s.Boots = append(s.Boots, &Boot{Clients: after, End: r.PickS("kill", "term")},
			&Boot{Pre: []EnvOp{{Op: "rmindexes"}}, Clients: g.indexQueries(m, 4), End: "kill"})
		c.run(s)
	}
}

// ---- C05

func exploreC05(c *ctx) {
	r := c.r
	o := persistentOpt(r)
	o.SharedDB = 0.5
	o.MaxIdx = r.Pick(1, 2, 3, 4)
	o.Bad, o.Ragged = 0, 0.2
	o.MinRec = 0
	o.huge(r, 0.002)
	g := genSpec(r, o)
	if len(g.persistentIndexes()) == 0 {
		return
	}
	m := newModel(g.s)
	s := base(c, g, "restarts")
	s.Strat = calm(r)
	qs := g.indexQueries(m, 8)
	for i := 0; i < r.Range(2, 4); i++ {
		b := &Boot{End: r.PickS("term", "term", "kill", "power:all"), Clients: clone(qs)}
		b.Clients = append(b.Clients, g.clients(m, r.Intn(2), 3)...)
		if b.End == "kill" && r.Chance(0.5) {
			b.Events = append(b.Events, &Event{When: "sstep", At: int64(r.Range(0, 6000)), EnvOp: EnvOp{Op: "kill"}})
		}
		if i > 0 && r.Chance(0.3) {
			b.Pre = append(b.Pre, EnvOp{Op: "sleep", N: int64(r.Pick(1, 60, 100000))})
		}
		if i > 0 && r.Chance(0.3) {
			b.MapOrder = 1 + r.Intn(3)
		}
		s.Boots = append(s.Boots, b)
	}
	c.run(s)
}

func checkC05(run *Run) []Violation {
	r := &report{run: run}
	var first map[string]string
	bodies := map[string]string{}
	for _, b := range run.Boots {
		r.serve(b, expect{})
		if len(r.l) > 0 {
			return r.l
		}
		for _, x := range b.Results {
			if x.Resp == nil {
				continue
			}
			k := fmt.Sprint(b.Boot.Clients[x.Client].Svc, " ", x.Req.method(), " ", x.Req.T)
			v := fmt.Sprint(x.Resp.Status, " ", string(x.Resp.Body))
			if old, ok := bodies[k]; ok && old != v {
				r.add("answers-differ", "start %d: %s answered %s, an earlier start answered %s", b.No, k, clip([]byte(v)), clip([]byte(old)))
				return r.l
			}
			bodies[k] = v
		}
		if first == nil {
			if b.Served {
				first = b.Files
			}
			continue
		}
		for p, c := range first {
			d, ok := b.Files[p]
			if !ok {
				r.add("index-changed", "start %d removed the index file %s", b.No, p)
				return r.l
			}
			if c != d {
				r.add("index-changed", "start %d changed the index file %s (%d bytes, was %d; first difference at %d)", b.No, p, len(d), len(c), firstDiff(c, d))
				return r.l
			}
		}
		for p := range b.Files {
			if _, ok := first[p]; !ok {
				r.add("index-changed", "start %d left a new file %s", b.No, p)
				return r.l
			}
		}
	}
	return r.l
}

func firstDiff(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// ---- C06

// exploreC06: X["expect"] is what start 1 (and further ones) must do: refuse, or same (serve).
func exploreC06(c *ctx) {
	r := c.r
	o := persistentOpt(r)
	o.Inputs = r.Pick(1, 2)
	o.NoDie = false
	if r.Chance(0.5) {
		o.Indexes = []string{[]string{"wildcard", "sqlite", "fts5"}[c.idx%3]}
	}
	o.huge(r, 0.002)
	g := genSpec(r, o)
	xs := g.persistentIndexes()
	if len(xs) == 0 {
		return
	}
	x := xs[r.Intn(len(xs))]
	in := g.s.input(x.Input)
	m := newModel(g.s)
	kind := r.PickS("mtime", "mtime", "size", "size-mtime", "config", "touch-back", "edit", "history", "history", "incomplete", "foreign")
	if r.Chance(0.3) {
		kind = "config"
	}
	s := base(c, g, kind)
	s.Strat = calm(r)
	s.X = map[string]string{"expect": "refuse"}
	b0 := &Boot{Clients: g.indexQueries(m, 3), End: r.PickS("term", "kill")}
	switch kind {
	case "history":
		exploreC06History(c, g, m, x, s, b0)
		return
	case "incomplete":
		exploreC06Incomplete(c, g, m, s)
		return
	}
	b1 := &Boot{Clients: g.indexQueries(m, 5), End: "kill"}
	b1.Clients = append(b1.Clients, &Client{Start: "boot", Reqs: []*Req{g.request(m, g.tmpl[0], 1)}})
	s.Boots = []*Boot{b0, b1}
	dt := int64(r.Pick(1, -1, 2, -5, 60, -3600, 86400, -86400*30, 1<<27))
	if r.Chance(0.3) {
		b1.Pre = append(b1.Pre, EnvOp{Op: "sleep", N: int64(r.Pick(1, 100))})
	}
	p := in.Path
	switch kind {
	case "mtime":
		b1.Pre = append(b1.Pre, EnvOp{Op: "mtime+", Path: p, N: dt})
	case "size", "size-mtime":
		d := in.Data()
		switch r.Intn(3) {
		case 0:
			d = append(d, '\n')
		case 1:
			if len(d) > 1 {
				d = d[:len(d)-1]
			} else {
				d = append(d, "\n\n"...)
			}
		default:
			d = append(append([]byte{}, d...), d...)
		}
		b1.Pre = append(b1.Pre, EnvOp{Op: "keepwrite", Path: p, Data: Raw(d)})
		if kind == "size-mtime" {
			b1.Pre = append(b1.Pre, EnvOp{Op: "mtime+", Path: p, N: dt})
		}
	case "config":
		sp := clone(g.s)
		e := g.reconfigure(sp, x.Name)
		s.X["expects"] = e + e
		b1.Spec, b1.KeepData = sp, true
	case "foreign": // a file that is no index of this type or version
		const magic = "RODB/INDEX/WILDCARD"
		if x.Type == "wildcard" && r.Chance(0.3) {
			b1.Pre = append(b1.Pre, EnvOp{Op: "poke", Path: x.Path, N: int64(r.Range(0, len(magic)+1)), Data: Raw(r.PickS("\x02", "\xff", "r"))})
			break
		}
		if x.Type != "wildcard" && x.DSN != ":memory:" && r.Chance(0.4) {
			b1.Pre = append(b1.Pre, EnvOp{Op: "metadata", Path: x.Path, Data: Raw(r.PickS("version", "completed"))})
			if b1.Pre[len(b1.Pre)-1].Data == "completed" {
				s.X["expects"] = "cc"
			}
			break
		}
		d := r.PickS("not an index\n", "x", string(in.Data()), strings.Repeat("\xff", 100), "{}", strings.Repeat("SQLite format 3 ", 70),
			magic+"\x00\x01", magic+"\x00\x01"+strings.Repeat("\x7f", 60), magic+strings.Repeat("/", 200))
		if x.Type == "wildcard" && r.Chance(0.2) {
			d = r.PickS("", "SQLite format 3\x00\x10\x00\x01\x01\x00\x40\x20\x20")
		} else if d == "" {
			d = "\n"
		}
		b1.Pre = append(b1.Pre, EnvOp{Op: "write", Path: x.Path, Data: Raw(d)})
	case "touch-back":
		// changed and changed back: it does belong to the data
		s.X["expect"] = "same"
		b1.Pre = append(b1.Pre, EnvOp{Op: "mtime+", Path: p, N: dt}, EnvOp{Op: "mtime+", Path: p, N: -dt})
	case "edit": // an ordinary edit some time later
		d := append([]byte{}, in.Data()...)
		if len(d) > 0 {
			k := r.Intn(len(d))
			if d[k] != '\n' && d[k] != '"' {
				d[k] ^= 1
			}
		}
		b1.Pre = append(b1.Pre, EnvOp{Op: "sleep", N: int64(r.Pick(1, 2, 3600))}, EnvOp{Op: "write", Path: p, Data: Raw(d)})
	}
	if r.Chance(0.3) { // it stays refused
		s.Boots = append(s.Boots, &Boot{Clients: g.indexQueries(m, 2), End: "kill", Pre: []EnvOp{{Op: "sleep", N: 5}}})
	}
	c.run(s)
}

// reconfigure changes the configuration of an index in sp. It returns what a start has to do then:
// r(efuse it), e(ither refuse it or answer as configured now), s(ame: it means what it meant before).
func (g *gen) reconfigure(sp *Spec, name string) string {
	r := g.r
	y := sp.index(name)
	in := g.inputOf(y.Input)
	has := map[string]bool{}
	for _, q := range y.Props {
		has[q.Name] = true
	}
	var free []string // other properties it could hold
	for _, f := range in.fields {
		if eligible(y.Type, f) && !has[f.Path] && !(y.Type == "wildcard" && f.Path == "pad") {
			free = append(free, f.Path)
		}
	}
	used := map[string]bool{}
	for _, o := range sp.Outputs {
		for _, q := range o.Params {
			if q.Index == y.Name {
				used[q.Prop] = true
			}
		}
		relUses(o.Rels, y.Name, used)
	}
	for try := 0; try < 12; try++ {
		switch k := r.PickS("set", "set", "add", "less", "replace", "replace", "swap", "equal"); k {
		case "set":
			switch y.Type {
			case "wildcard":
				y.IgnoreCase = !y.IgnoreCase
				return "r"
			case "sqlite":
				i := r.Intn(len(y.Props))
				if in.field(y.Props[i].Name).Kind != "str" {
					continue
				}
				if strings.EqualFold(y.Props[i].Collate, "nocase") {
					y.Props[i].Collate = r.PickS("", "BINARY", "binary")
				} else {
					y.Props[i].Collate = r.PickS("NOCASE", "nocase")
				}
				return "r"
			case "fts5":
				if r.Chance(0.5) {
					if y.Tokenize == "ascii" {
						y.Tokenize = r.PickS("", "unicode61")
					} else {
						y.Tokenize = "ascii"
					}
					return "r"
				}
				if len(y.Prefix) > 0 {
					y.Prefix = nil
				} else {
					y.Prefix = []int{2}
				}
				return "e"
			}
		case "add":
			if len(free) > 0 {
				at := r.Intn(len(y.Props) + 1)
				ps := append([]IdxProp{}, y.Props[:at]...)
				y.Props = append(append(ps, IdxProp{Name: free[r.Intn(len(free))]}), y.Props[at:]...)
				return "r"
			}
		case "less": // a property less, which no output uses
			for k, q := range y.Props {
				if len(y.Props) > 1 && !used[q.Name] {
					y.Props = append(append([]IdxProp{}, y.Props[:k]...), y.Props[k+1:]...)
					return "r"
				}
			}
		case "replace": // another property, for the outputs as well
			if len(free) == 0 {
				continue
			}
			k := r.Intn(len(y.Props))
			old, p := y.Props[k].Name, free[r.Intn(len(free))]
			y.Props[k].Name = p
			for _, o := range sp.Outputs {
				for i := range o.Params {
					if q := o.Params[i]; q.Index == y.Name && q.Prop == old {
						q.Prop = p
					}
				}
				relRename(o.Rels, y.Name, old, p)
			}
			return "r"
		case "swap":
			if len(y.Props) > 1 {
				i := r.Intn(len(y.Props) - 1)
				y.Props[i], y.Props[i+1] = y.Props[i+1], y.Props[i]
				return "e"
			}
		case "equal":
			switch y.Type {
			case "sqlite":
				i := r.Intn(len(y.Props))
				switch strings.ToUpper(y.Props[i].Collate) {
				case "", "BINARY":
					y.Props[i].Collate = r.PickS("", "BINARY", "binary")
				case "NOCASE":
					y.Props[i].Collate = r.PickS("NOCASE", "nocase")
				}
				return "s"
			case "fts5":
				if y.Tokenize != "ascii" {
					y.Tokenize = r.PickS("", "unicode61")
				}
				return "s"
			}
		}
	}
	return "s"
}

func relRename(rels []*Rel, index, old, new string) {
	for _, l := range rels {
		for i := range l.Match {
			if q := &l.Match[i]; q.Index == index && q.Child == old {
				q.Child = new
			}
		}
		relRename(l.Rels, index, old, new)
	}
}

func relUses(rels []*Rel, index string, used map[string]bool) {
	for _, l := range rels {
		for _, q := range l.Match {
			if q.Index == index {
				used[q.Child] = true
			}
		}
		relUses(l.Rels, index, used)
	}
}

// exploreC06History changes the data file and the configuration and changes them back, with a start
// after each step, which is to be refused whenever something differs from when the index was built.
func exploreC06History(c *ctx, g *gen, m *model, x *Index, s *Scenario, b0 *Boot) {
	r := c.r
	p := g.s.input(x.Input).Path
	orig := Raw(g.s.input(x.Input).Data())
	longer := orig + "\n"
	s.Boots = []*Boot{b0}
	var mt int64
	size, flip := false, false
	exp := ""
	other := clone(g.s)
	otherExp := g.reconfigure(other, x.Name)
	for i := 0; i < r.Range(2, 6); i++ {
		b := &Boot{Clients: g.indexQueries(m, 3), End: r.PickS("kill", "kill", "term")}
		b.Clients = append(b.Clients, &Client{Start: "boot", Reqs: []*Req{g.request(m, g.tmpl[0], 1)}})
		if r.Chance(0.3) {
			b.Pre = append(b.Pre, EnvOp{Op: "sleep", N: int64(r.Pick(1, 100))})
		}
		for k := 0; k < r.Pick(1, 1, 1, 2); k++ {
			switch r.Intn(4) {
			case 0:
				if mt == 0 {
					mt = int64(r.Pick(1, -1, 2, -5, 60, -3600, 86400, -86400*30, 1<<27))
					b.Pre = append(b.Pre, EnvOp{Op: "mtime+", Path: p, N: mt})
				} else {
					b.Pre = append(b.Pre, EnvOp{Op: "mtime+", Path: p, N: -mt})
					mt = 0
				}
			case 1:
				size = !size
				d := orig
				if size {
					d = longer
				}
				b.Pre = append(b.Pre, EnvOp{Op: "keepwrite", Path: p, Data: d})
			case 2:
				flip = !flip
			}
		}
		sp := clone(g.s)
		if flip {
			sp = clone(other)
		}
		b.Spec, b.KeepData = sp, true
		if mt != 0 || size {
			exp += "r"
			b.End = "kill"
		} else if flip {
			exp += otherExp
			b.End = "kill"
		} else {
			exp += "s"
		}
		s.Boots = append(s.Boots, b)
	}
	s.X["expects"] = exp
	c.run(s)
}

// exploreC06Incomplete kills the process while it builds its indexes.
func exploreC06Incomplete(c *ctx, g *gen, m *model, s *Scenario) {
	r := c.r
	pr := clone(s)
	pr.Kind = "profile"
	pr.X["expects"] = ""
	pr.Boots = []*Boot{{End: "kill"}}
	prof := c.run(pr)
	if c.stop() || len(prof.Boots) == 0 || prof.Boots[0].StepsBoot < 2 {
		return
	}
	for k := 0; k < 3 && !c.stop(); k++ {
		q := clone(s)
		at := int64(r.Range(1, int(prof.Boots[0].StepsBoot)))
		q.Boots = []*Boot{{End: "kill", Events: []*Event{{When: "step", At: at, EnvOp: EnvOp{Op: "kill"}}}}}
		q.X["expects"] = "e"
		q.Boots = append(q.Boots, &Boot{Clients: g.indexQueries(m, 4), End: "kill"})
		if r.Chance(0.5) { // it stays that way
			q.X["expects"] = "ee"
			q.Boots = append(q.Boots, &Boot{Clients: g.indexQueries(m, 4), End: "kill"})
		}
		c.run(q)
	}
}

func (g *gen) inputOf(name string) *ginput {
	for _, i := range g.in {
		if i.Name == name {
			return i
		}
	}
	return nil
}

func checkC06(run *Run) []Violation {
	r := &report{run: run}
	if run.S.Kind != "incomplete" {
		r.serve(run.Boots[0], expect{})
		if len(r.l) > 0 {
			return r.l
		}
	}
	exps, hist := run.S.X["expects"]
	for i, b := range run.Boots[1:] {
		if run.S.X["expect"] == "same" || hist && i < len(exps) && exps[i] == 's' {
			r.serve(b, expect{})
			continue
		}
		if hist && i < len(exps) && (exps[i] == 'e' || exps[i] == 'c') { // refused, or built again
			r.serve(b, expect{refuse: true})
			if exps[i] == 'c' && b.Served {
				for _, p := range sortedKeys(b.Files) {
					if incompleteMetadata.MatchString(b.Files[p]) {
						r.add("served", "start %d: serves from the index %s, which says that its build did not complete", b.No, p)
					}
				}
			}
			continue
		}
		pre := fmt.Sprintf("start %d (%s): ", b.No, run.S.Kind)
		for _, x := range b.Results {
			if x.Resp != nil {
				r.add("served", "%sa request is answered with %d although an index does not belong to the current data or configuration", pre, x.Resp.Status)
				return r.l
			}
		}
		switch {
		case b.Panic != "":
			r.add("panic", "%spanics: %s", pre, clip([]byte(b.Panic)))
		case b.Stuck != "" && !b.Served || b.Overrun:
			r.add("stuck", "%sneither starts nor fails: %s", pre, clip([]byte(b.Stuck)))
		case b.Served || !b.Exited:
			r.add("served", "%sstarts serving although an index does not belong to the current data or configuration", pre)
		case b.ExitCode == 0:
			r.add("exit-status", "%sexits with status 0", pre)
		}
	}
	return r.l
}

// ---- C07

func exploreC07(c *ctx) {
	r := c.r
	o := defaultOpt()
	o.Inputs = r.Pick(1, 2)
	o.Rels, o.Bad, o.JP = 0.1, 0, 0
	o.Indexes = []string{"map", "sqlite", "wildcard"}
	o.MaxIdx = 2
	g := genSpec(r, o)
	for _, in := range g.s.Inputs {
		switch r.Intn(4) {
		case 0:
			f := false
			in.Die = &f
		case 1:
			t := true
			in.Die = &t
		default:
			in.Die = nil
		}
	}
	m := newModel(g.s)
	in := g.in[r.Intn(len(g.in))]
	kind := r.PickS("write", "write", "append", "poke", "trunc", "keepwrite", "replace", "replace", "recreate", "chmod", "mtime", "other-file", "read")
	s := base(c, g, kind)
	s.Strat = calm(r)
	if r.Chance(0.4) {
		s.Strat.Q, s.Strat.BootQ = r.Pick(20, 200), r.Pick(20, 200, 1000)
	}
	b := &Boot{End: "exit", Clients: g.clients(m, r.Range(0, 2), 3)}
	// How long does the start take?
	pr := clone(s)
	pr.Kind = "profile"
	pr.Boots = []*Boot{{End: "kill"}}
	prof := c.run(pr)
	if c.stop() || len(prof.Boots) == 0 {
		return
	}
	boot := int(prof.Boots[0].StepsBoot)
	e := &Event{}
	switch r.Intn(5) {
	case 0:
		e.When, e.At = "sstep", int64(r.Range(0, 4000))
	case 1:
		e.When = "idle"
	case 2:
		e.When, e.At = "resp", int64(r.Range(1, 3))
	default:
		e.When, e.At = "step", int64(r.Range(1, boot+1))
	}
	e.Path = in.Path
	e.Op = kind
	alt := clone(g.s)
	ai := alt.input(in.Name)
	var gone *Event
	switch kind {
	case "trunc":
		n := len(in.Data())
		if n == 0 {
			return
		}
		e.EnvOp.N = int64(r.Pick(0, 0, r.Intn(n), n*3/4))
		for len(ai.Data()) > int(e.EnvOp.N) && ai.count() > 0 {
			ai.dropLast()
		}
		s.Alt = alt
		if d := ai.Data(); len(d) != int(e.EnvOp.N) || !bytes.HasPrefix(in.Data(), d) {
			s.X = map[string]string{"damaged": "yes"}
		}
	case "replace", "recreate":
		// other records, one less, or one more
		if ai.count() == 0 {
			return
		}
		switch r.Intn(3) {
		case 0:
			ai.dropLast()
		case 1:
			ai.dupLast()
		}
		if r.Chance(0.7) && ai.count() > 1 {
			ai.rotate(1 + r.Intn(ai.count()-1))
		}
		e.Data = Raw(ai.Data())
		e.EnvOp.N = int64(r.Pick(0, 0, 1))
		s.Alt = alt
		if kind == "recreate" {
			f := *e
			f.Op, f.Data, f.EnvOp.N = "rm", "", 1
			e.Op = "create"
			if e.When == "step" || e.When == "sstep" || e.When == "resp" {
				e.At += int64(r.Pick(0, 0, r.Intn(30), r.Intn(300)))
			}
			gone = &f
		}
	case "write", "append", "keepwrite":
		// one more record, like another one
		if ai.count() == 0 {
			return
		}
		ai.dupLast()
		e.Data = Raw(ai.Data())
		if kind == "append" && bytes.HasPrefix(ai.Data(), in.Data()) && len(ai.Data()) > len(in.Data()) {
			e.Data = Raw(ai.Data()[len(in.Data()):])
		} else if kind == "append" {
			e.Op = "write"
		}
		if r.Chance(0.15) {
			e.EnvOp.N = 1
		}
		s.Alt = alt
	case "poke":
		// one character of a text
		var ok bool
		e.EnvOp.N, e.Data, ok = pokeAt(in.Input, ai, r)
		if !ok {
			return
		}
		s.Alt = alt
	case "other-file":
		e.Op, e.Path, e.Data = "create", "/w/unrelated.txt", "x"
	case "read":
		e.Op = "chmod"
	case "mtime":
		e.EnvOp.N = int64(r.Range(-100, 100))
	}
	b.Events = []*Event{e}
	if gone != nil {
		b.Events = []*Event{gone, e}
	} else if r.Chance(0.25) {
		w := &Event{When: e.When, At: e.At, EnvOp: EnvOp{Op: "watch-error", Path: in.Path}}
		if w.At > 1 && e.When != "resp" {
			w.At = int64(r.Range(1, int(w.At)))
		}
		b.Events = []*Event{w, e}
	}
	if r.Chance(0.3) {
		b.Events = append(b.Events, &Event{When: "idle", EnvOp: EnvOp{Op: "chmod", Path: in.Path}})
	}
	if s.Alt != nil && r.Chance(0.2) {
		// Several writes in a row.
		b.Events = append(b.Events, &Event{When: "idle", EnvOp: EnvOp{Op: "write", Path: in.Path, Data: Raw(ai.Data())}})
	}
	if s.X == nil {
		s.X = map[string]string{}
	}
	s.X["input"] = in.Name
	s.Boots = []*Boot{b}
	c.run(s)
}

// rotate moves the first n records to the end.
func (in *Input) rotate(n int) {
	switch in.Type {
	case "csv":
		in.Rows = append(append([][]Raw{}, in.Rows[n:]...), in.Rows[:n]...)
	case "json":
		in.Docs = append(append([]string{}, in.Docs[n:]...), in.Docs[:n]...)
	default:
		in.XRecs = append(append(in.XRecs[:0:0], in.XRecs[n:]...), in.XRecs[:n]...)
	}
}

func (in *Input) dropLast() {
	switch in.Type {
	case "csv":
		in.Rows = in.Rows[:len(in.Rows)-1]
	case "json":
		in.Docs = in.Docs[:len(in.Docs)-1]
	default:
		in.XRecs = in.XRecs[:len(in.XRecs)-1]
	}
}

func (in *Input) dupLast() {
	switch in.Type {
	case "csv":
		in.Rows = append(in.Rows, append([]Raw{}, in.Rows[len(in.Rows)-1]...))
	case "json":
		in.Docs = append(in.Docs, in.Docs[len(in.Docs)-1])
	default:
		in.XRecs = append(in.XRecs, clone(in.XRecs[len(in.XRecs)-1]))
	}
}

// pokeAt changes one letter of a "pad" value in place.
func pokeAt(in, alt *Input, r *simrt.Rand) (int64, Raw, bool) {
	d := in.Data()
	i := bytes.Index(d, []byte("p0"))
	if i < 0 || bytes.Count(d, []byte("p0")) != 1 {
		return 0, "", false
	}
	fix := func(s string) string { return strings.Replace(s, "p0", "q0", 1) }
	switch in.Type {
	case "csv":
		for _, row := range alt.Rows {
			for k := range row {
				row[k] = Raw(fix(string(row[k])))
			}
		}
	case "json":
		for k := range alt.Docs {
			alt.Docs[k] = fix(alt.Docs[k])
		}
	default:
		for _, e := range alt.XRecs {
			for _, k := range e.Kids {
				k.Text = fix(k.Text)
			}
		}
	}
	want := append([]byte{}, d...)
	want[i] = 'q'
	return int64(i), "q", bytes.Equal(want, alt.Data())
}

func checkC07(run *Run) []Violation {
	r := &report{run: run}
	for _, b := range run.Boots {
		var in *Input
		if n := run.S.X["input"]; n != "" {
			in = run.S.Spec.input(n)
		}
		wrote, noticed, replaced := false, false, false
		for _, e := range b.Edits {
			switch e.Op {
			case "replace", "create":
				if run.S.Kind == "other-file" {
					break
				}
				wrote, replaced = true, true
				if e.Notified > 0 {
					noticed = true
				}
			case "rm":
				// until there is another file it may fail to read it
				wrote, replaced = true, true
			case "write", "append", "poke", "trunc", "keepwrite":
				wrote = true
				if e.Notified > 0 {
					noticed = true
				}
			}
		}
		die := in != nil && (in.Die == nil || *in.Die)
		pre := fmt.Sprintf("%s of the data file (dieOnInputChange %v): ", run.S.Kind, die)
		if b.Panic != "" {
			r.add("panic", "%sthe process panics: %s", pre, clip([]byte(b.Panic)))
			continue
		}
		switch {
		case !wrote:
			r.serve(b, expect{})
		case die && noticed:
			if !b.Exited {
				r.add("change-ignored", "%sthe process is still running %d simulated seconds later", pre, maxIdle)
			} else if b.ExitCode == 0 {
				r.add("exit-status", "%sthe process exits with status 0", pre)
			}
		case die && !b.Exited && run.S.X["damaged"] != "":
			// Cut before the file was watched: it has to be an error, or the end of the data.
		case die && !b.Exited && replaced:
			// Replaced before the file was watched, or without an event: answers of the one or of the
			// other, or errors, but nothing in between.
			var l [2][]Violation
			for k, sp := range []*Spec{run.S.Spec, run.S.Alt} {
				rr := &report{run: run}
				b.Model = newModel(sp)
				rr.serve(b, expect{answerMode: answerMode{fault: true}})
				l[k] = rr.l
			}
			if len(l[0]) > 0 && len(l[1]) > 0 {
				for _, v := range l[0] {
					v.Msg = pre + "replaced without being noticed: " + v.Msg
					r.l = append(r.l, v)
				}
			}
		case die && !b.Exited:
			// Written before the file was watched: then it has to be the data that is served.
			b.Model = newModel(run.S.Alt)
			r.serve(b, expect{})
			for i := range r.l {
				r.l[i].Msg = pre + "written while starting, neither noticed nor taken into account: " + r.l[i].Msg
			}
		case die:
			if b.ExitCode == 0 {
				r.add("exit-status", "%sthe process exits with status 0", pre)
			}
		default:
			// It keeps serving; what exactly is not specified once the file has changed. A file that
			// changes while an index is built from it may make the start fail.
			r.serve(b, expect{refuse: true, skip: func(x *Result) bool { return x.Edited || x.Resp == nil && b.Exited && !b.Served }, noAnswers: false})
			if b.Stuck != "" {
				r.add("stuck", "%s%s", pre, clip([]byte(b.Stuck)))
			}
		}
	}
	return r.l
}

// ---- C08

func exploreC08(c *ctx) {
	r := c.r
	o := defaultOpt()
	o.Svcs = r.Pick(1, 1, 2, 3)
	o.Bad = 0
	o.MaxIdx = 2
	g := genSpec(r, o)
	m := newModel(g.s)
	s := base(c, g, "interrupt")
	b := &Boot{End: "term", Clients: g.clients(m, r.Range(1, 5), 4)}
	if r.Chance(0.3) { // idle connections
		cl := g.client(m, 1)
		cl.Keep = true
		b.Clients = append(b.Clients, cl)
	}
	if r.Chance(0.2) { // connects only later
		cl := g.client(m, 1)
		cl.Start = "announced"
		b.Clients = append(b.Clients, cl)
	}
	pause := r.Chance(0.25)
	if pause {
		for i := 0; i < r.Pick(1, 1, 2); i++ {
			cl := g.client(m, 1)
			if r.Chance(0.7) {
				v, q, _ := g.heaviest(m, 6)
				cl = &Client{Svc: v, Reqs: []*Req{q}, Keep: cl.Keep}
				g.transport(cl)
			}
			g.pausing(cl, 25, 5)
			b.Clients = append(b.Clients, cl)
		}
	}
	if !pause && r.Chance(0.1) { // will never send the rest of a request, or never read the answer
		for i := 0; i < r.Pick(1, 1, 2, 4); i++ {
			cl := g.client(m, 1)
			cl.Bad = r.PickS("stall-send", "stall-read")
			if cl.Bad == "stall-send" {
				cl.At, cl.Send = r.Range(0, 60), r.Pick(1, 10)
			} else {
				v, q, _ := g.heaviest(m, 6)
				cl = &Client{Svc: v, Reqs: []*Req{q, q}, Bad: cl.Bad, Window: r.Pick(1, 64, 500), Pipe: r.Pick(1, 2), Keep: true}
			}
			b.Clients = append(b.Clients, cl)
		}
	}
	e := &Event{EnvOp: EnvOp{Op: "int"}}
	switch r.Intn(6) {
	case 0:
		e.When, e.At = "resp", int64(r.Range(0, 5))
		if e.At == 0 {
			e.When = "announced"
		}
	case 1:
		e.When = "idle"
	case 2, 3:
		e.When, e.At = "handling", int64(r.Range(1, 3))
	default:
		e.When, e.At = "sstep", int64(r.Range(100, 20000))
	}
	b.Events = []*Event{e}
	if !pause && r.Chance(0.3) {
		b.Faults = []*simrt.Fault{{Op: r.PickS("read", "read", "open", "seek", "close"), Role: r.PickS("", "data"), Phase: "serve", Nth: r.Range(1, 15), Count: r.Pick(1, 2), Kind: "slow", Arg: r.Pick(1, 3, 8)}}
	}
	s.Boots = []*Boot{b}
	c.run(s)
}

func checkC08(run *Run) []Violation {
	r := &report{run: run}
	b := run.Boots[0]
	pre := "after the interrupt "
	limit, stalled := 30*time.Second, map[int]bool{}
	for i, cl := range run.S.Boots[0].Clients {
		if cl.Bad != "" {
			stalled[i] = true
		}
	}
	if len(stalled) > 0 { // each server waits for them
		limit += time.Duration(2*len(run.S.Spec.Services)) * 30 * time.Second
	}
	switch {
	case b.Panic != "":
		r.add("panic", "the process panics: %s", clip([]byte(b.Panic)))
	case b.Overrun:
		r.add("livelock", "no end after %d scheduling points", b.Steps)
	case !b.Signalled || !b.SigWhileReady || b.DeadAtSig:
		if b.Signalled && b.Exited && b.ExitCode != 0 && !b.DeadAtSig {
			return nil // interrupted while starting
		}
		r.serve(b, expect{})
	case b.Stuck != "":
		r.add("hang", "%sthe process does not end: %s", pre, clip([]byte(b.Stuck)))
	case !b.Exited:
		r.add("hang", "%sthe process neither exits nor is stuck (%s)", pre, b.ExitWhy)
	case b.ExitCode != 0:
		r.add("exit-status", "%sthe process exits with status %d: %s", pre, b.ExitCode, lastLog(b))
	case b.SigTime > limit:
		r.add("slow", "%sthe process took %v to exit", pre, b.SigTime)
	}
	if len(r.l) > 0 {
		return r.l
	}
	for _, x := range b.Results {
		if stalled[x.Client] {
			continue
		}
		if x.Resp == nil {
			if x.Handling {
				r.add("cut", "client %d, %s %s: its handling had begun when the interrupt came, but: %s", x.Client, x.Req.method(), x.Req.T, x.Err)
				return r.l
			}
			if strings.HasPrefix(x.Err, "malformed") {
				r.add("cut", "client %d, %s %s: %s", x.Client, x.Req.method(), x.Req.T, x.Err)
				return r.l
			}
			continue
		}
		if cl, m := checkAnswer(b.Model, x, answerMode{}); cl != "" {
			r.add(cl, "client %d: %s", x.Client, m)
			return r.l
		}
	}
	return r.l
}

// ---- C09

func exploreC09(c *ctx) {
	r := c.r
	o := defaultOpt()
	o.Inputs = r.Pick(1, 2)
	o.Bad = 0.3
	o.Memory = 0.05
	o.MaxRec = 8
	o.Big, o.Many = 0.3, 0.04
	o.huge(r, 0.003)
	g := genSpec(r, o)
	m := newModel(g.s)
	s := base(c, g, "repeated")
	s.Strat = calm(r)
	var qs []*Req
	var svc []int
	for i := 0; i < r.Range(1, 4); i++ {
		sv, q := g.some(m)
		if r.Chance(0.15) {
			q.T = r.PickS("/nowhere", q.T+"&limit=x", q.T+"?limit=1")
		}
		if r.Chance(0.2) {
			q.T = withLimit(q.T, r.Range(1, 2))
		}
		qs, svc = append(qs, q), append(svc, sv)
	}
	b := &Boot{End: "term"}
	bad := r.Chance(0.3)
	times := r.Range(8, 16)
	if g.many >= 0 {
		times = 8
	}
	for k := 0; k < times; k++ {
		for i, q := range qs {
			qq := *q
			cl := &Client{Svc: svc[i], Wave: k / r.Pick(1, 3), Reqs: []*Req{&qq, &qq}, Keep: r.Chance(0.5)}
			if bad && r.Chance(0.5) {
				cl.Bad = "abort"
				cl.At = r.Range(0, 6)
				cl.Take, cl.Window = 20, r.Pick(0, 64)
			}
			b.Clients = append(b.Clients, cl)
		}
	}
	if bad {
		s.Kind = "aborting clients"
	}
	if r.Chance(0.35) {
		s.Kind = "I/O errors"
		op := r.PickS("read", "read", "seek", "open", "fstat")
		role := r.PickS("data", "data", "data", "wildcard", "sqlite")
		for n := 0; n < r.Range(5, 30); n++ {
			b.Faults = append(b.Faults, &simrt.Fault{Op: op, Role: role, Phase: "serve", Nth: r.Range(1, 60), Count: 1, Kind: "EIO"})
		}
	}
	s.Boots = []*Boot{b}
	c.run(s)
}

func withLimit(t string, n int) string {
	sep := "?"
	if strings.Contains(t, "?") {
		sep = "&"
	}
	return t + sep + fmt.Sprintf("limit=%d", n)
}

func checkC09(run *Run) []Violation {
	r := &report{run: run}
	b := run.Boots[0]
	e := expect{answerMode: answerMode{fault: len(b.Boot.Faults) > 0}}
	e.noAnswers = true
	r.serve(b, e)
	if len(r.l) > 0 {
		return r.l
	}
	cnt := map[string]int{}
	for _, h := range b.OpenServe {
		cnt[h]++
	}
	dbs := map[string]int{}
	for _, x := range b.Spec.Indexes {
		dbs[simrt.Clean(x.Path)]++
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f := strings.SplitN(k, " ", 2)
		limit := 4
		if f[0] == "sqlite" {
			limit = 3 * dbs[f[1]]
			if limit < 3 {
				limit = 3
			}
		}
		if cnt[k] > limit {
			r.add("leak", "%d handles of %s opened while serving are still open after %d requests have finished", cnt[k], k, b.Reqs)
			return r.l
		}
	}
	open := 0
	for _, cn := range b.Inc.Conns {
		if (cn.InEOF || cn.Reset) && !cn.ServerDone() {
			open++
		}
	}
	if open > 4 {
		r.add("leak", "%d connections whose client has gone are still open", open)
	}
	return r.l
}

// ---- C10, C11

var serveFaults = []struct{ op, role, kind string }{
	{"read", "data", "EIO"}, {"read", "data", "EIO"}, {"read", "data", "short"}, {"read", "data", "short"}, {"read", "data", "EINTR"},
	{"seek", "data", "EIO"}, {"open", "data", "EMFILE"}, {"open", "data", "EIO"}, {"open", "data", "EACCES"},
	{"open", "data", "ENOENT"}, {"open", "data", "ENFILE"}, {"open", "data", "ENOMEM"},
	{"read", "wildcard", "EIO"}, {"read", "wildcard", "short"}, {"seek", "wildcard", "EIO"}, {"read", "wildcard", "EIO"},
	{"read", "sqlite", "EIO"}, {"read", "sqlite", "short"}, {"open", "sqlite", "EMFILE"}, {"sqlopen", "sqlite", "EIO"}, {"fstat", "sqlite", "EIO"},
	{"fstat", "data", "EIO"}, {"stat", "data", "EIO"}, {"close", "data", "EIO"},
}

var dataFaults = serveFaults[:6]

// repeat makes the client ask some of its requests several times in a row.
func repeat(r *simrt.Rand, x *Client, p float64) {
	var l []*Req
	for _, q := range x.Reqs {
		l = append(l, q)
		for len(l) < 40 && r.Chance(p) {
			y := *q
			l = append(l, &y)
		}
	}
	x.Reqs = l
}

func faultOpt(r *simrt.Rand) GenOpt {
	o := defaultOpt()
	o.Inputs = r.Pick(1, 2)
	o.Bad = 0.05
	o.Rels = 0.3
	o.MaxRec = r.Pick(4, 10, 25)
	o.Big = 0.3
	o.huge(r, 0.006)
	return o
}

// ops lists the operations of a profile in one phase, with their counts.
type opCount struct {
	op, role string
	n        int
}

func profileOps(b *BootRes, phase string) []opCount {
	var l []opCount
	for k, n := range b.Inc.Profile {
		f := strings.Split(k, "/")
		if len(f) == 3 && f[0] == phase && n > 0 {
			l = append(l, opCount{f[1], f[2], n})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].op+l[i].role < l[j].op+l[j].role })
	return l
}

func kindsFor(op string) []string {
	switch op {
	case "read":
		return []string{"EIO", "EIO", "torn", "short", "EINTR"}
	case "write":
		return []string{"ENOSPC", "EIO", "short", "EDQUOT"}
	case "open", "mkdir", "sqlopen":
		return []string{"EMFILE", "ENFILE", "EACCES", "ENOENT", "EIO", "ENOMEM"}
	case "sync", "truncate", "close", "seek", "stat", "fstat", "remove", "rename":
		return []string{"EIO", "ENOSPC", "EIO"}
	case "listen":
		return []string{"EADDRINUSE", "EACCES"}
	case "accept":
		return []string{"EMFILE", "ENFILE"}
	}
	return []string{"EMFILE", "ENOMEM", "EIO", "ENOSPC"}
}

func exploreC10(c *ctx) {
	r := c.r
	g := genSpec(r, faultOpt(r))
	m := newModel(g.s)
	s := base(c, g, "fault-free")
	if r.Chance(0.6) {
		s.Strat = calm(r)
	}
	b := &Boot{End: "kill", Clients: g.clients(m, r.Range(1, 3), 5)}
	for _, x := range b.Clients {
		if r.Chance(0.4) {
			repeat(r, x, 0.4)
		}
	}
	s.Boots = []*Boot{b}
	prof := c.run(s)
	if c.stop() || len(prof.Boots) == 0 {
		return
	}
	ops := profileOps(prof.Boots[0], "serve")
	var l []opCount
	for _, o := range ops {
		if o.role != "net" && o.role != "watch" && o.role != "other" {
			l = append(l, o)
		}
	}
	if len(l) == 0 {
		return
	}
	cases := 9
	if c.thor {
		cases = 40
	}
	for k := 0; k < cases && !c.stop(); k++ {
		t := clone(s)
		o := l[r.Intn(len(l))]
		ks := kindsFor(o.op)
		t.Kind = o.op + " " + o.role
		f := &simrt.Fault{Op: o.op, Role: o.role, Phase: "serve", Nth: r.Range(1, o.n), Count: r.Pick(1, 1, 1, 2, 5, 0), Kind: ks[r.Intn(len(ks))], Arg: r.Pick(0, 1, 7, 100)}
		t.Boots[0].Faults = []*simrt.Fault{f}
		if r.Chance(0.3) {
			o = l[r.Intn(len(l))]
			ks = kindsFor(o.op)
			t.Boots[0].Faults = append(t.Boots[0].Faults, &simrt.Fault{Op: o.op, Role: o.role, Phase: "serve", Nth: r.Range(1, o.n), Count: 1, Kind: ks[r.Intn(len(ks))], Arg: r.Pick(0, 1, 7)})
		}
		c.run(t)
	}
}

func exploreC11(c *ctx) {
	r := c.r
	g := genSpec(r, faultOpt(r))
	m := newModel(g.s)
	s := base(c, g, "transient")
	if r.Chance(0.6) {
		s.Strat = calm(r)
	}
	b := &Boot{End: r.PickS("kill", "term")}
	nb, bp := r.Range(1, 4), 0.3
	if r.Chance(0.1) { // enough to use up anything of which there is a limited number
		nb, bp = r.Range(10, 24), 0.9
		s.Strat = calm(r)
		s.Kind = "transient, many leave"
	}
	bad := g.clients(m, nb, 5)
	for _, x := range bad {
		if r.Chance(bp) {
			x.Bad = r.PickS("abort", "stall-read", "abort", "halfclose")
			x.At = r.Range(0, 6)
			x.Window, x.Take = r.Pick(0, 64), r.Pick(0, 9)
		}
	}
	b.Clients = bad
	for k := 0; k < r.Range(1, 8); k++ {
		f := serveFaults[r.Intn(len(serveFaults))]
		b.Faults = append(b.Faults, &simrt.Fault{Op: f.op, Role: f.role, Phase: "serve", Nth: r.Range(1, 40), Count: r.Pick(1, 1, 3, 0), Kind: f.kind, Arg: r.Pick(0, 1, 5)})
	}
	if r.Chance(0.35) {
		s.Kind = "transient, accept"
		b.Faults = append(b.Faults, &simrt.Fault{Op: "accept", Role: "net", Phase: "serve", Nth: r.Range(1, 3), Count: r.Range(1, 8), Kind: r.PickS("EMFILE", "ENFILE")})
	}
	slowDisk(r, b, 0.2, "read", "open", "seek", "close")
	b.Events = []*Event{{When: "wave", At: 1, EnvOp: EnvOp{Op: "clearfaults"}}}
	for _, x := range g.clients(m, r.Range(1, 4), 4) {
		x.Wave = 1
		b.Clients = append(b.Clients, x)
	}
	if r.Chance(0.5) { // what has just failed is tried again, first with the last one
		x := &Client{Svc: bad[0].Svc, Keep: true, Wave: 1}
		for k := len(bad[0].Reqs) - 1; k >= 0; k-- {
			q := *bad[0].Reqs[k]
			q.Close = false
			x.Reqs = append(x.Reqs, &q)
		}
		b.Clients = append(b.Clients, x)
	}
	s.Boots = []*Boot{b}
	c.run(s)
}

func checkC11(run *Run) []Violation {
	r := &report{run: run}
	b := run.Boots[0]
	if b.Exited && !b.Signalled && b.FaultHits > 0 && b.ExitCode != 0 {
		return nil
	}
	r.serve(b, expect{skip: func(x *Result) bool { return x.Wave == 0 }})
	return r.l
}

// ---- C12

func exploreC12(c *ctx) {
	r := c.r
	o := defaultOpt()
	o.Bad = 0.15
	o.Rels = 0.15
	o.MaxIdx = 2
	o.Many = 0.01
	o.Svcs = r.Pick(1, 1, 2)
	o.huge(r, 0.003)
	g := genSpec(r, o)
	m := newModel(g.s)
	s := base(c, g, "odd requests")
	if r.Chance(0.5) {
		s.Strat = calm(r)
	}
	b := &Boot{End: r.PickS("kill", "term")}
	for i := 0; i < r.Range(1, 4); i++ {
		cl := g.client(m, r.Range(2, 8))
		for _, q := range cl.Reqs {
			if r.Chance(0.6) {
				g.odd(q)
			}
		}
		cl.Send = r.Pick(0, 1, 2, 3, 17, 100)
		cl.Pipe = r.Pick(0, 0, 2, 4)
		if r.Chance(0.06) {
			g.pausing(cl, r.Pick(5, 25, 70), 70)
		}
		b.Clients = append(b.Clients, cl)
	}
	hangingDisk(r, b, 0.05)
	s.Boots = []*Boot{b}
	c.run(s)
}

// odd turns a request into a less common one.
func (g *gen) odd(q *Req) {
	r := g.r
	sep := "?"
	if strings.Contains(q.T, "?") {
		sep = "&"
	}
	path := q.T
	if i := strings.IndexByte(path, '?'); i >= 0 {
		path = path[:i]
	}
	switch r.Intn(25) {
	case 0:
		q.T += sep + "limit=" + r.PickS("0", "-1", "x", "", "1e3", "99999999999999999999", "+1", "%31", "%201", "0x10")
	case 1:
		q.T += sep + "offset=" + r.PickS("-1", "x", "", "99999999999999999999", "9223372036854775807", "1.0")
	case 2:
		q.T = r.PickS("/", "/nowhere", path+"/", path+"/extra", "//"+path, "/o0x", "/O0", path+"%00", "/%6f0", "/..", "/./o0", path+"//")
	case 3:
		q.M = r.PickS("POST", "PUT", "DELETE", "OPTIONS", "PATCH")
		if q.M != "DELETE" && q.M != "OPTIONS" {
			q.Body = Raw(r.PickS("", "a=1", "{}", strings.Repeat("x", 5000)))
		}
	case 4:
		q.M = "HEAD"
	case 5:
		q.NoHost = true
		if !q.H10 {
			q.Tag, q.Close = "proto", true
		}
	case 6:
		q.H10 = true
	case 7:
		q.T += sep + "q0=" + r.PickS("%zz", "%", "a%2", "%FF%FE", "a;b", "&&&", "==")
	case 8:
		q.T += sep + strings.Repeat("k=v&", r.Pick(10, 200))
	case 9:
		q.T = "http://rodb.test" + q.T
	case 10:
		q.Hdr = "X-Long: " + strings.Repeat("a", r.Pick(100, 5000)) + "\r\n"
	case 11:
		q.Hdr = "Accept: text/html\r\nAccept-Encoding: gzip, br\r\n"
	case 12:
		q.Body = Raw("some body on a GET")
	case 13:
		q.Hdr = "Expect: 100-continue\r\n"
		q.Body = Raw("late body")
	case 14:
		q.T += sep + "q0=" + r.PickS("1", "abc", "", "1.5", "%20", "true", "%C3%A9", "%F0%9F%98%80", "NaN", "inf", "-0", "1_000", "0x1")
	case 15:
		q.T += sep + "q1=" + r.PickS("1", "abc", "", "1.5", "*", "%22", "(", "a+AND", "%5C", "'")
	case 16:
		q.T += sep + "Q0=1&q9=2"
	case 17:
		q.T = strings.Replace(q.T, "/o", "/%6F", 1)
	case 18:
		q.T += sep + "q0=" + strings.Repeat("z", r.Pick(300, 3000, 9000))
	case 19:
		q.T += sep + "limit=1&limit=2"
	case 20:
		// parameters inside the path replaced
		i := strings.LastIndexByte(path, '/')
		q.T = path[:i+1] + r.PickS("a%2Fb", "%20", "1", "x", "-1", "1.5", "9999999999999999999999", "%E6%97%A5", "%0A", "a+b", "true", "99999999999999999999.5")
	}
}

// ---- C13

func exploreC13(c *ctx) {
	r := c.r
	o := defaultOpt()
	o.Obj = false
	o.Inputs = 1
	o.Rels = 0.1
	o.Bad = 0
	o.MinRec, o.MaxRec, o.Many = 0, r.Pick(3, 12, 30), 0.06
	if r.Chance(0.008) {
		// More than the default maximum
		o.Many, o.Huge, o.Rels = 1, r.Pick(300, 700, 1001, 1100), 0
		o.Types, o.MaxIdx = []string{"csv", "json"}, 1
	}
	g := genSpec(r, o)
	m := newModel(g.s)
	t := g.tmpl[r.Intn(len(g.tmpl))]
	lim, off := orStr(t.out.LimitPar, "limit"), orStr(t.out.OffPar, "offset")
	s := base(c, g, "pages")
	b := &Boot{End: "kill"}
	s.X = map[string]string{}
	var reqs []*Req
	for k := 0; k < r.Range(1, 2); k++ {
		q := g.request(m, t, r.Pick(0, 1, 1, 2))
		q.T = dropParams(q.T, lim, off)
		want := m.answer(t.svc, "GET", addQuery(q.T, lim+"=100000"))
		n := 40
		if want.Body != nil {
			n = want.Rows
		}
		size := r.Range(1, 5)
		if t.out.LimitMax > 0 && r.Chance(0.3) {
			size = r.Range(t.out.LimitMax-1, t.out.LimitMax+4)
		} else if n > 60 {
			size = r.Pick(17, 50, 64, 100, 120)
		}
		if o.Huge > 0 && n > 200 {
			size = r.Pick(100, 250, 400, 700, 1000, 1200)
		}
		eff, max := size, t.out.LimitMax
		if max == 0 {
			max = 1000
		}
		if eff > max {
			eff = max
		}
		// The complete result may exceed the maximum limit: pages then go on beyond what one request shows.
		pages := n/eff + 2
		if t.out.LimitMax > 0 || o.Huge > 1000 {
			pages = len(m.records(g.s.input(t.out.Input)))/eff + 2
		}
		for i := 0; i < pages && i < 25; i++ {
			reqs = append(reqs, &Req{T: addQuery(q.T, fmt.Sprintf("%s=%d&%s=%d", lim, size, off, i*eff)), Tag: fmt.Sprintf("page %d.%d", k, i)})
		}
		reqs = append(reqs, &Req{T: addQuery(q.T, lim+"=100000"), Tag: fmt.Sprintf("all %d", k)})
		reqs = append(reqs, &Req{T: addQuery(q.T, fmt.Sprintf("%s=%d", off, r.Pick(n, n+1, 1000))), Tag: ""})
		reqs = append(reqs, &Req{T: q.T})
		if t.out.LimitMax > 0 || o.Huge > 1000 {
			s.X[fmt.Sprintf("max %d", k)] = "yes"
		}
	}
	perm := r.Perm(len(reqs))
	nc := r.Range(1, 4)
	if g.many >= 0 {
		nc = r.Range(1, 2)
	}
	if r.Chance(0.5) { // each client goes through the pages of its own, all at the same time
		s.Kind = "pages, in order"
		for i := 0; i < nc; i++ {
			cl := &Client{Svc: g.svcIndex(t), Keep: true}
			g.transport(cl)
			for k, q := range reqs {
				q := *q
				if i > 0 {
					q.Tag = ""
				}
				if i == 0 || k < 10 || r.Chance(0.5) {
					cl.Reqs = append(cl.Reqs, &q)
				}
			}
			b.Clients = append(b.Clients, cl)
		}
		nc = 0
	}
	for i := 0; i < nc; i++ {
		cl := &Client{Svc: g.svcIndex(t), Keep: true}
		g.transport(cl)
		for k, p := range perm {
			if k%nc == i {
				cl.Reqs = append(cl.Reqs, reqs[p])
			}
		}
		if len(cl.Reqs) > 0 {
			b.Clients = append(b.Clients, cl)
		}
	}
	for _, x := range g.clients(m, r.Intn(2), 3) {
		b.Clients = append(b.Clients, x)
	}
	s.Boots = []*Boot{b}
	c.run(s)
}

func addQuery(t, q string) string {
	if strings.Contains(t, "?") {
		return t + "&" + q
	}
	return t + "?" + q
}

func dropParams(t string, names ...string) string {
	i := strings.IndexByte(t, '?')
	if i < 0 {
		return t
	}
	var keep []string
	for _, p := range strings.Split(t[i+1:], "&") {
		ok := true
		for _, n := range names {
			if strings.HasPrefix(p, n+"=") {
				ok = false
			}
		}
		if ok {
			keep = append(keep, p)
		}
	}
	if len(keep) == 0 {
		return t[:i]
	}
	return t[:i] + "?" + strings.Join(keep, "&")
}

func checkC13(run *Run) []Violation {
	l := checkAllServe(run)
	if len(l) > 0 {
		return l
	}
	// Independently of the model: the pages, concatenated, are the whole.
	r := &report{run: run}
	b := run.Boots[0]
	whole := map[string][]interface{}{}
	pages := map[string]map[int][]interface{}{}
	for _, x := range b.Results {
		if x.Resp == nil || x.Resp.Status != 200 {
			continue
		}
		v, err := decode(x.Resp.Body)
		a, ok := v.([]interface{})
		if err != nil || !ok {
			continue
		}
		var k, i int
		if n, _ := fmt.Sscanf(x.Req.Tag, "page %d.%d", &k, &i); n == 2 {
			key := fmt.Sprint(k)
			if pages[key] == nil {
				pages[key] = map[int][]interface{}{}
			}
			pages[key][i] = a
		} else if n, _ := fmt.Sscanf(x.Req.Tag, "all %d", &k); n == 1 {
			whole[fmt.Sprint(k)] = a
		}
	}
	for k, w := range whole {
		var cat []interface{}
		for i := 0; i < len(pages[k]); i++ {
			p, ok := pages[k][i]
			if !ok {
				return nil
			}
			cat = append(cat, p...)
		}
		if len(pages[k]) == 0 || run.S.X["max "+k] != "" && len(cat) >= len(w) {
			continue
		}
		if show(cat) != show(w) && !(len(cat) == 0 && len(w) == 0) {
			r.add("tiling", "pages give %s, the whole list is %s", show(cat), show(w))
		}
	}
	return r.l
}

// ---- C16

func exploreC16(c *ctx) {
	r := c.r
	o := persistentOpt(r)
	o.Indexes = []string{"wildcard", "wildcard", "sqlite", "fts5", "map"}
	o.Svcs = r.Pick(1, 1, 2)
	o.HTTPS = 0.35
	if r.Chance(0.3) {
		o.MinRec, o.MaxRec = 20, 50
	}
	o.huge(r, 0.005)
	g := genSpec(r, o)
	m := newModel(g.s)
	mk := func(kind string) *Scenario {
		s := base(c, g, kind)
		s.Strat = calm(r)
		return s
	}
	s := mk("fault-free")
	s.Boots = []*Boot{{Clients: g.indexQueries(m, 4), End: "kill"}}
	prof := c.run(s)
	if c.stop() || len(prof.Boots) == 0 {
		return
	}
	ops := profileOps(prof.Boots[0], "boot")
	if len(ops) == 0 {
		return
	}
	cases := 9
	if c.thor {
		cases = 40
	}
	for k := 0; k < cases && !c.stop(); k++ {
		o := ops[r.Intn(len(ops))]
		s := mk(o.op + " " + o.role)
		b := &Boot{End: "kill", Clients: g.indexQueries(m, 4)}
		b.Clients = append(b.Clients, &Client{Start: "boot", Reqs: []*Req{g.request(m, g.tmpl[0], 1)}, Svc: g.svcIndex(g.tmpl[0])})
		ks := kindsFor(o.op)
		cnt := r.Pick(1, 1, 0)
		b.Faults = []*simrt.Fault{{Op: o.op, Role: o.role, Phase: "boot", Nth: r.Range(1, o.n), Count: cnt, Kind: ks[r.Intn(len(ks))], Arg: r.Pick(0, 1, 9)}}
		if o.role == "wildcard" || r.Chance(0.1) {
			b.Clients = append(b.Clients, g.indexSweep(m, 100)...)
		}
		if r.Chance(0.2) {
			o := ops[r.Intn(len(ops))]
			ks := kindsFor(o.op)
			b.Faults = append(b.Faults, &simrt.Fault{Op: o.op, Role: o.role, Phase: "boot", Nth: r.Range(1, o.n), Count: r.Pick(1, 0), Kind: ks[r.Intn(len(ks))], Arg: r.Pick(0, 1, 9)})
		}
		if r.Chance(0.25) || o.op == "sync" {
			b.End = "power:" + powerKinds[r.Intn(len(powerKinds))]
		}
		if r.Chance(0.08) {
			s.Kind = "busy port"
			b.Faults = nil
			ps := g.s.ports()
			b.Busy = []int{ps[r.Intn(len(ps))]}
		}
		b2 := &Boot{Clients: g.indexQueries(m, 8), End: "kill"}
		if g.s.hasTLS() && r.Chance(0.15) {
			s.Kind = "certificate"
			p, orig := certPath, certPEM
			if r.Chance(0.5) {
				p, orig = keyPath, keyPEM
			}
			b.Faults = nil
			switch r.Intn(4) {
			case 0:
				b.Pre = append(b.Pre, EnvOp{Op: "write", Path: p, Data: Raw(r.PickS("", "garbage", orig[:len(orig)/2], certPEM+"x", keyPEM[1:]))})
				b2.Pre = append(b2.Pre, EnvOp{Op: "write", Path: p, Data: Raw(orig)})
				s.X = map[string]string{"invalid": "1"}
			default:
				ks := kindsFor("open")
				op := r.PickS("open", "read")
				if op == "read" {
					ks = []string{"EIO"}
				}
				b.Faults = []*simrt.Fault{{Op: op, Role: "certificate", Nth: r.Range(1, 2), Count: r.Pick(1, 0), Kind: ks[r.Intn(len(ks))]}}
			}
		}
		if r.Chance(0.15) {
			damaged(c, g, m)
			continue
		}
		if r.Chance(0.18) {
			if cfg, what := g.s.brokenConfig(r); cfg != nil {
				s.Kind = "configuration: " + what
				b.Faults, b.Busy = nil, nil
				b.Pre = []EnvOp{{Op: "write", Path: configPath, Data: Raw(cfg)}}
				b2.Pre = []EnvOp{{Op: "write", Path: configPath, Data: Raw(g.s.Config())}}
				s.X = map[string]string{"invalid": what}
			}
		}
		s.Boots = []*Boot{b, b2,
			{Pre: []EnvOp{{Op: "rmindexes"}}, Clients: g.indexQueries(m, 3), End: "kill"}}
		c.run(s)
	}
}

// damaged starts on a data file with something malformed after its last record.
func damaged(c *ctx, g *gen, m *model) {
	r := c.r
	s := clone(base(c, g, "damaged data"))
	s.Strat = calm(r)
	in := s.Spec.Inputs[r.Intn(len(s.Spec.Inputs))]
	switch in.Type {
	case "json":
		in.Tail = Raw(r.PickS(`{"id": 5, "na`, `]`, `"x"`, `{"id":1,}`, `{`, `[{"id":1}]`, `nul`, `{"id" 1}`, `7`, `}`, `{"id":`, `{"grp":"g0`))
	case "csv":
		in.Tail = Raw(r.PickS(`a"b`, `"abc`, `"a"b`, `x,"y`, "\"a\nb"))
	default:
		in.Tail = Raw(r.PickS(`<rec id="1"`, `</x>`, `<!-- `)) // the parser is lenient otherwise
	}
	s.X = map[string]string{"damaged": in.Name}
	b := &Boot{End: "kill", Clients: g.indexQueries(m, 4)}
	for _, t := range g.tmpl {
		if t.out.Input == in.Name && len(b.Clients) < 4 {
			b.Clients = append(b.Clients, &Client{Reqs: []*Req{g.request(m, t, 1), {T: addQuery(g.request(m, t, 0).T, orStr(t.out.LimitPar, "limit")+"=1000")}}, Svc: g.svcIndex(t)})
		}
	}
	s.Boots = []*Boot{b}
	c.run(s)
}

// covered tells whether an index is built from the input.
func (s *Spec) covered(in string) bool {
	for _, x := range s.Indexes {
		if x.Input == in && x.Type != "noop" {
			return true
		}
	}
	return false
}

func checkC16(run *Run) []Violation {
	r := &report{run: run}
	if in := run.S.X["damaged"]; in != "" && len(run.Boots) > 0 {
		b := run.Boots[0]
		if run.S.Spec.covered(in) {
			if !b.Exited && b.Panic == "" && !b.Crashed {
				r.add("served", "start %d: it serves although the data of %v cannot be indexed", b.No, in)
			}
			r.serve(b, expect{refuse: true, noAnswers: true})
			return r.l
		}
		r.serve(b, expect{answerMode: answerMode{fault: true}})
		return r.l
	}
	for i, b := range run.Boots {
		last := i == len(run.Boots)-1
		faulty := len(b.Boot.Faults) > 0 && b.FaultHits > 0 || len(b.Boot.Busy) > 0 || i == 0 && run.S.X["invalid"] != ""
		e := expect{refuse: faulty || i > 0 && !last}
		if faulty {
			// A service that could not start ends the process, also if another one already listens.
			e.exits = true
		}
		if what := run.S.X["invalid"]; i == 0 && what != "" && what != "1" {
			if b.Served || len(b.Results) > 0 && b.Results[0].Resp != nil {
				r.add("served", "start %d: it serves with a configuration that is invalid: %s", b.No, what)
			} else if !b.Exited && b.Panic == "" && !b.Crashed {
				r.add("served", "start %d: the process stays although its configuration is invalid: %s", b.No, what)
			}
		}
		if len(b.Boot.Busy) > 0 && !b.Exited {
			r.add("served", "start %d: the process runs although a port is not available", b.No)
		}
		r.serve(b, e)
		if len(r.l) > 0 {
			break
		}
	}
	return r.l
}

// ---- C17

func exploreC17(c *ctx) {
	r := c.r
	o := defaultOpt()
	o.Rels = 0.6
	o.Bad = 0.25
	o.RelName = 0.25
	if r.Chance(0.2) {
		o.RelFail = 0.4
	}
	o.Many = 0.03
	o.Inputs = r.Pick(1, 2)
	o.MaxIdx = 3
	o.huge(r, 0.003)
	g := genSpec(r, o)
	m := newModel(g.s)
	s := base(c, g, "repeats")
	var qs []*Req
	var svc []int
	for i := 0; i < r.Range(2, 5); i++ {
		sv, q := g.some(m)
		if r.Chance(0.2) {
			// several errors at once
			q.T = addQuery(q.T, "limit=x&offset=y&q0=zz&q1=&q2=%22")
		}
		qs, svc = append(qs, q), append(svc, sv)
	}
	for i := 0; i < r.Range(1, 3); i++ {
		b := &Boot{End: r.PickS("kill", "term"), MapOrder: 1 + r.Intn(3)}
		for k := 0; k < r.Range(1, 3); k++ {
			for j, q := range qs {
				qq := *q
				cl := &Client{Svc: svc[j], Wave: k % 2, Reqs: []*Req{&qq}}
				if r.Chance(0.3) {
					q2 := *q
					cl.Reqs, cl.Keep = append(cl.Reqs, &q2), true
				}
				g.transport(cl)
				b.Clients = append(b.Clients, cl)
			}
		}
		s.Boots = append(s.Boots, b)
	}
	c.run(s)
}

func checkC17(run *Run) []Violation {
	r := &report{run: run}
	seen := map[string]string{}
	for _, b := range run.Boots {
		r.serve(b, expect{noAnswers: true})
		if len(r.l) > 0 {
			return r.l
		}
		for _, x := range b.Results {
			if x.Resp == nil {
				continue
			}
			k := fmt.Sprint(b.Boot.Clients[x.Client].Svc, " ", x.Req.method(), " ", x.Req.T)
			v := fmt.Sprint(x.Resp.Status, " ", string(x.Resp.Body))
			if old, ok := seen[k]; ok && old != v {
				at := firstDiff(old, v)
				lo := at - 40
				if lo < 0 {
					lo = 0
				}
				r.add("differs", "%s is answered %q and %q (first difference at byte %d)", k, clip([]byte(old[lo:])), clip([]byte(v[lo:])), at)
				return r.l
			}
			seen[k] = v
		}
	}
	return r.l
}

// ---- C18

func exploreC18(c *ctx) {
	r := c.r
	o := defaultOpt()
	o.Svcs = r.Pick(1, 2, 3)
	o.HTTPS = 0.35
	o.Bad, o.Rels = 0, 0.1
	o.MaxIdx = 3
	if r.Chance(0.3) {
		o.MinRec, o.MaxRec = 20, 40
	}
	g := genSpec(r, o)
	m := newModel(g.s)
	s := base(c, g, "early clients")
	s.Strat.BootQ = r.Pick(1, 5, 20, 50, 300)
	b := &Boot{End: r.PickS("kill", "kill", "term"), Clients: g.clients(m, r.Range(1, 4), 2)}
	for _, x := range b.Clients {
		x.Start = r.PickS("boot", "boot", "announced", "")
	}
	if r.Chance(0.2) { // the process can no longer accept: it has to end, all of it
		s.Kind = "accept fails"
		b.Faults = []*simrt.Fault{{Op: "accept", Role: "net", Nth: r.Range(1, 4), Count: 1, Kind: r.PickS("ENOMEM", "EIO", "EACCES")}}
		for _, x := range g.clients(m, r.Range(1, 3), 2) {
			x.Wave = 1
			b.Clients = append(b.Clients, x)
		}
	}
	slowDisk(r, b, 0.3, "read", "open", "stat", "listen", "write")
	s.Boots = []*Boot{b}
	if len(g.persistentIndexes()) > 0 && r.Chance(0.3) {
		s.Boots = append(s.Boots, clone(b))
	}
	c.run(s)
}

func checkC18(run *Run) []Violation {
	r := &report{run: run}
	for _, b := range run.Boots {
		r.serve(b, expect{exits: len(b.Boot.Faults) > 0 && b.FaultHits > 0})
	}
	return r.l
}

// ---- C19

func exploreC19(c *ctx) {
	r := c.r
	o := defaultOpt()
	o.Bad = 0.05
	o.MaxIdx = 2
	o.Big = 0.4
	g := genSpec(r, o)
	m := newModel(g.s)
	s := base(c, g, "bad clients")
	if r.Chance(0.4) {
		s.Strat = calm(r)
	}
	b := &Boot{End: "kill"}
	nbad, same := r.Range(1, 6), ""
	if r.Chance(0.15) { // more of them than anything that could be limited
		s.Kind = "many bad clients"
		s.Strat = calm(r)
		nbad, same = r.Pick(20, 40, 80, 80, 140, 270), r.PickS("stall-send", "stall-read", "stall-read", "abort")
	}
	heavySvc, heavy, _ := g.heaviest(m, 12)
	if same == "" || r.Chance(0.3) {
		heavy = nil
	}
	for i := 0; i < nbad; i++ {
		x := g.client(m, r.Range(1, 3))
		x.Bad = r.PickS("stall-send", "stall-read", "stall-read", "abort", "abort", "garbage", "halfclose")
		if same != "" && r.Chance(0.9) {
			x.Bad = same
		}
		switch x.Bad {
		case "stall-send":
			x.At = r.Range(0, 60)
			x.Send = r.Pick(1, 10)
		case "stall-read":
			x.Window = r.Pick(1, 64, 500, 4096)
			x.Pipe, x.Keep = r.Pick(1, 3), true
			if heavy != nil {
				x = &Client{Svc: heavySvc, Reqs: []*Req{heavy, heavy, heavy}, Bad: x.Bad, Window: x.Window, Pipe: x.Pipe, Keep: true}
			}
		case "abort":
			x.At = r.Range(0, 12)
			x.Send, x.Take, x.Window = r.Pick(0, 5), r.Pick(0, 10), r.Pick(0, 50)
		case "garbage":
			x.Reqs = nil
			x.Wire = Raw(r.PickS("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "GET\r\n\r\n", "\r\n\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "GET /o0 HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n",
				"POST /o0 HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\nZZZ\r\n", "GET /o0 HTTP/1.1\r\nHost: a\r\nContent-Length: -1\r\n\r\n", strings.Repeat("A", 70000), "GET /o0 HTTP/1.1\r\n"+strings.Repeat("X: y\r\n", 3000), "\x00\x00\x00"))
		}
		b.Clients = append(b.Clients, x)
	}
	for _, x := range g.clients(m, r.Range(1, 4), 4) {
		x.Wave = r.Pick(0, 0, 1)
		b.Clients = append(b.Clients, x)
	}
	slowDisk(r, b, 0.2, "read", "open", "seek")
	s.Boots = []*Boot{b}
	c.run(s)
}

// ---- C20

func exploreC20(c *ctx) {
	r := c.r
	o := persistentOpt(r)
	o.Indexes = []string{"wildcard", "sqlite", "fts5", "map"}
	o.Rels, o.Bad = 0.3, 0.2
	o.Memory = 0.1
	g := genSpec(r, o)
	m := newModel(g.s)
	s := base(c, g, "mixed")
	s.Strat = calm(r)
	s.Files = map[string]Raw{"/w/other.csv": "1,2\n", "/w/a.csv.bak": "x", "/w/x0.idx.tmp": "t", "/w/notes/readme.txt": "keep", "/tmp/t": "tmp"}
	for i := 0; i < r.Range(1, 3); i++ {
		b := &Boot{End: r.PickS("kill", "term", "term"), Clients: append(g.indexQueries(m, 4), g.clients(m, r.Intn(3), 3)...)}
		switch r.Intn(5) {
		case 0:
			b.Crash = &simrt.CrashPlan{MutOp: r.Range(1, 60), Tear: 0.5}
		case 1, 2:
			ops := []string{"open", "read", "write", "sync", "truncate", "close", "seek", "fstat"}
			roles := []string{"data", "wildcard", "sqlite"}
			for k := 0; k < r.Range(1, 4); k++ {
				op := ops[r.Intn(len(ops))]
				ks := kindsFor(op)
				b.Faults = append(b.Faults, &simrt.Fault{Op: op, Role: roles[r.Intn(3)], Phase: r.PickS("boot", "serve"), Nth: r.Range(1, 20), Count: r.Pick(1, 0), Kind: ks[r.Intn(len(ks))], Arg: r.Intn(4)})
			}
		}
		if i > 0 && r.Chance(0.3) { // stale index
			b.Pre = append(b.Pre, EnvOp{Op: "mtime+", Path: g.s.Inputs[0].Path, N: 5})
		}
		if r.Chance(0.3) { // files that disappear, get replaced, or are not there yet
			in := g.s.Inputs[r.Intn(len(g.s.Inputs))]
			op := EnvOp{Op: r.PickS("rm", "rm", "replace", "trunc", "write"), Path: in.Path, Data: Raw(in.Data())}
			if r.Chance(0.15) {
				op = EnvOp{Op: "rm", Path: configPath}
			}
			switch r.Intn(3) {
			case 0:
				b.Pre = append(b.Pre, op)
			case 1:
				b.Events = append(b.Events, &Event{When: "step", At: int64(r.Range(1, 400)), EnvOp: op})
			default:
				b.Events = append(b.Events, &Event{When: "resp", At: int64(r.Range(1, 3)), EnvOp: op})
			}
			if r.Chance(0.5) {
				b.Events = append(b.Events, &Event{When: "idle", EnvOp: EnvOp{Op: "write", Path: in.Path, Data: Raw(in.Data())}})
			}
		}
		s.Boots = append(s.Boots, b)
	}
	c.run(s)
}

func checkC20(run *Run) []Violation {
	r := &report{run: run}
	if len(run.Mutated) > 0 {
		r.add("modified", "%s", run.Mutated[0])
		return r.l
	}
	// What is on the disk now, apart from index files, is what was put there.
	spec := run.S.Spec
	want := map[string]string{configPath: string(spec.Config())}
	for _, in := range spec.Inputs {
		want[simrt.Clean(in.Path)] = string(in.Data())
	}
	if spec.hasTLS() {
		want[certPath], want[keyPath] = certPEM, keyPEM
	}
	for p, c := range run.S.Files {
		want[simrt.Clean(p)] = string(c)
	}
	for p, c := range run.EnvFiles {
		if c == nil {
			delete(want, p)
		} else {
			want[p] = *c
		}
	}
	got := run.W.Disk.Snapshot()
	var ps []string
	for p := range got {
		ps = append(ps, p)
	}
	for p := range want {
		if _, ok := got[p]; !ok {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	for _, p := range ps {
		w, ok := want[p]
		g, ok2 := got[p]
		switch {
		case ok && !ok2:
			r.add("modified", "%s is gone", p)
		case ok && string(g) != w:
			r.add("modified", "%s was changed", p)
		case !ok && spec.indexFile(p) == nil:
			r.add("modified", "%s was created", p)
		}
	}
	return r.l
}
