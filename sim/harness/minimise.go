package harness

import (
	"fmt"
	"testing"
	"time"

	"rodbsim/simrt"
)

// minimise reduces a violating scenario, keeping the class of the violation: first what happens
// (starts, clients, requests, faults, events, data), then the schedule, which becomes a list of
// deviations from the default one.
func minimise(t *testing.T, p *property, v *violationMsg, budget time.Duration) {
	end := time.Now().Add(budget)
	tries, kept := 0, 0
	var last *Run
	var lastMsg string
	try := func(s *Scenario) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		run := runScenario(t, s)
		if run.Trouble != "" {
			return false
		}
		for _, x := range p.check(run) {
			if knownFinding(p.id, x, s) != "" {
				continue
			}
			if x.Class == v.Class {
				last, lastMsg = run, x.Msg
				return true
			}
			break
		}
		return false
	}
	cur := clone(v.Scenario)
	if !try(clone(cur)) {
		v.Min = "not reproduced when repeated"
		return
	}
	firstSize := size(cur)
	// change applies f to a copy; f returns false if there is nothing to do.
	change := func(f func(s *Scenario) bool) bool {
		c := clone(cur)
		if !f(c) || !try(c) {
			return false
		}
		cur = c
		kept++
		return true
	}
	// dropEach removes the elements of a list one by one (halves first).
	drop := func(length func(s *Scenario) int, cut func(s *Scenario, from, to int)) {
		n := length(cur)
		for chunk := (n + 1) / 2; chunk >= 1; chunk /= 2 {
			for i := 0; i < length(cur); {
				to := i + chunk
				if to > length(cur) {
					to = length(cur)
				}
				if to-i == 0 || !change(func(s *Scenario) bool { cut(s, i, to); return true }) {
					i += chunk
				}
				if time.Now().After(end) {
					return
				}
			}
		}
	}
	reduce := func() {
		for b := range cur.Boots {
			b := b
			drop(func(s *Scenario) int { return len(s.Boots[b].Clients) }, func(s *Scenario, i, j int) {
				s.Boots[b].Clients = append(s.Boots[b].Clients[:i:i], s.Boots[b].Clients[j:]...)
			})
			for c := range cur.Boots[b].Clients {
				c := c
				drop(func(s *Scenario) int { return len(s.Boots[b].Clients[c].Reqs) }, func(s *Scenario, i, j int) {
					if j-i < len(s.Boots[b].Clients[c].Reqs) {
						s.Boots[b].Clients[c].Reqs = append(s.Boots[b].Clients[c].Reqs[:i:i], s.Boots[b].Clients[c].Reqs[j:]...)
					}
				})
				change(func(s *Scenario) bool {
					x := s.Boots[b].Clients[c]
					if x.Send+x.Take+x.Window+x.MaxRead+x.Pipe == 0 {
						return false
					}
					x.Send, x.Take, x.Window, x.MaxRead, x.Pipe = 0, 0, 0, 0, 0
					return true
				})
			}
			drop(func(s *Scenario) int { return len(s.Boots[b].Faults) }, func(s *Scenario, i, j int) {
				s.Boots[b].Faults = append(s.Boots[b].Faults[:i:i], s.Boots[b].Faults[j:]...)
			})
			drop(func(s *Scenario) int { return len(s.Boots[b].Events) }, func(s *Scenario, i, j int) {
				s.Boots[b].Events = append(s.Boots[b].Events[:i:i], s.Boots[b].Events[j:]...)
			})
		}
		if cur.MapOrder != 0 {
			change(func(s *Scenario) bool { s.MapOrder = 0; return true })
		}
		if p.reduceData {
			for k := range cur.Spec.Inputs {
				k := k
				drop(func(s *Scenario) int { return s.Spec.Inputs[k].count() }, func(s *Scenario, i, j int) { s.Spec.Inputs[k].cut(i, j) })
			}
			// outputs without requests, and what only they use
			drop(func(s *Scenario) int { return len(s.Spec.Outputs) }, func(s *Scenario, i, j int) {
				gone := map[string]bool{}
				for _, o := range s.Spec.Outputs[i:j] {
					gone[o.Name] = true
				}
				s.Spec.Outputs = append(s.Spec.Outputs[:i:i], s.Spec.Outputs[j:]...)
				for _, v := range s.Spec.Services {
					var rs []*Route
					for _, r := range v.Routes {
						if !gone[r.Output] {
							rs = append(rs, r)
						}
					}
					v.Routes = rs
				}
			})
			for k := range cur.Spec.Outputs {
				k := k
				drop(func(s *Scenario) int { return len(s.Spec.Outputs[k].Rels) }, func(s *Scenario, i, j int) {
					s.Spec.Outputs[k].Rels = append(s.Spec.Outputs[k].Rels[:i:i], s.Spec.Outputs[k].Rels[j:]...)
				})
			}
		}
	}
	sameSpec := true
	for _, b := range cur.Boots {
		sameSpec = sameSpec && b.Spec == nil
	}
	_ = sameSpec
	reduce()
	// a simpler schedule
	if cur.Strat != nil {
		if !change(func(s *Scenario) bool { s.Strat = nil; s.Devs = nil; return true }) {
			change(func(s *Scenario) bool {
				if s.Strat.BootQ == 0 {
					return false
				}
				s.Strat.BootQ = 0
				return true
			})
		}
	}
	reduce()
	if cur.Strat != nil {
		// Replace the strategy by what it decided.
		run := last
		if try(clone(cur)) {
			run = last
		}
		if run != nil {
			c := clone(cur)
			c.Strat = nil
			c.Devs = append([]Dev{}, run.Rec...)
			if try(c) {
				cur = c
			}
		}
	}
	if cur.Strat == nil && len(cur.Devs) > 0 {
		drop(func(s *Scenario) int { return len(s.Devs) }, func(s *Scenario, i, j int) {
			s.Devs = append(s.Devs[:i:i], s.Devs[j:]...)
		})
	}
	// The final word: the very run that is reported.
	end = time.Now().Add(time.Minute)
	if try(clone(cur)) {
		v.Scenario = cur
		v.Msg = lastMsg
		v.Hash = hex(last.W.Hash())
		v.Min = fmt.Sprintf("%d -> %d elements, schedule of %d deviations, %d executions", firstSize, size(cur), len(cur.Devs), tries)
	} else {
		v.Min = "minimisation failed"
	}
}

func size(s *Scenario) int {
	n := len(s.Devs)
	for _, b := range s.Boots {
		n += 1 + len(b.Faults) + len(b.Events) + len(b.Pre)
		for _, c := range b.Clients {
			n += 1 + len(c.Reqs)
		}
	}
	for _, i := range s.Spec.Inputs {
		n += i.count()
	}
	return n + len(s.Spec.Outputs)
}

func (i *Input) count() int { return len(i.Rows) + len(i.Docs) + len(i.XRecs) }

func (in *Input) cut(i, j int) {
	switch in.Type {
	case "csv":
		in.Rows = append(in.Rows[:i:i], in.Rows[j:]...)
	case "json":
		in.Docs = append(in.Docs[:i:i], in.Docs[j:]...)
	default:
		in.XRecs = append(in.XRecs[:i:i], in.XRecs[j:]...)
	}
}

var _ = simrt.NewRand
