package harness

import (
	"fmt"
	"strings"
)

// Violation is a property that did not hold. Class is stable under minimisation.
type Violation struct{ Class, Msg string }

type report struct {
	run *Run
	l   []Violation
}

func (r *report) add(class, f string, a ...interface{}) {
	r.l = append(r.l, Violation{class, fmt.Sprintf(f, a...)})
}

// answerMode says how much freedom an answer has.
type answerMode struct {
	fault bool // I/O errors are injected: a JSON error is fine, and 404 only if it is the truth
}

func lastLog(b *BootRes) string {
	if n := len(b.Inc.Log); n > 0 {
		return b.Inc.Log[n-1]
	}
	return "nothing logged"
}

// checkAnswer compares one response with what the model defines.
func checkAnswer(o *model, x *Result, mode answerMode) (class, msg string) {
	m := x.Req.method()
	if x.Resp == nil {
		return "", ""
	}
	got := x.Resp
	if x.Req.Tag == "proto" {
		if got.Status < 400 || got.Status >= 500 {
			return "status", fmt.Sprintf("%s %s: status %d, expected the protocol layer to refuse it", m, x.Req.T, got.Status)
		}
		return "", ""
	}
	want := o.answer(x.Svc, m, x.Req.T)
	if want.Proto {
		if got.Status < 400 || got.Status >= 500 {
			return "status", fmt.Sprintf("%s %s: status %d, expected 4xx", m, x.Req.T, got.Status)
		}
		return "", ""
	}
	if err := got.wellFormed(m); err != nil {
		return "malformed", fmt.Sprintf("%s %s: %v", m, x.Req.T, err)
	}
	if want.Any {
		return "", ""
	}
	if mode.fault && got.Status == 500 {
		return "", ""
	}
	if got.Status != want.Status {
		return "status", fmt.Sprintf("%s %s: status %d %s, expected %d %s", m, x.Req.T, got.Status, clip(got.Body), want.Status, show(want.Body))
	}
	if want.Status == 200 && m != "HEAD" {
		v, err := decode(got.Body)
		if err != nil {
			return "malformed", fmt.Sprintf("%s %s: %v", m, x.Req.T, err)
		}
		if !same(want.Body, v) {
			return "wrong", fmt.Sprintf("%s %s: answered %s, expected %s", m, x.Req.T, clipn(got.Body, 400), show(want.Body))
		}
	}
	return "", ""
}

func clipn(b []byte, n int) string {
	if len(b) > n {
		return string(b[:n]) + "..."
	}
	return string(b)
}

type expect struct {
	answerMode
	refuse    bool // start-up may refuse (exit non-zero without serving)
	exits     bool // may exit non-zero while serving
	skip      func(*Result) bool
	noAnswers bool // only the life cycle is judged
}

// serve checks a start that is expected to serve (or, if allowed, to refuse), and its answers.
func (r *report) serve(b *BootRes, e expect) {
	pre := fmt.Sprintf("start %d: ", b.No)
	if b.Panic != "" {
		r.add("panic", "%sthe process panics: %s", pre, clip([]byte(b.Panic)))
		return
	}
	if b.Overrun {
		r.add("livelock", "%sno end after %d scheduling points", pre, b.Steps)
		return
	}
	crash := b.Crashed && (b.Boot.Crash != nil || b.Inc.ExitWhy == "killed")
	switch {
	case b.Exited && !b.Signalled && !b.Served:
		if !e.refuse {
			r.add("start-failed", "%sstart-up fails with status %d: %s", pre, b.ExitCode, lastLog(b))
		} else if b.ExitCode == 0 {
			r.add("exit-status", "%sstart-up refuses with status 0: %s", pre, lastLog(b))
		}
	case b.Exited && !b.Signalled:
		if !e.exits {
			r.add("exited", "%sexits with status %d while serving: %s", pre, b.ExitCode, lastLog(b))
		} else if b.ExitCode == 0 {
			r.add("exit-status", "%sexits with status 0 without being asked: %s", pre, lastLog(b))
		}
	case b.Exited && b.Signalled && b.SigWhileReady && !e.exits && b.ExitCode != 0:
		r.add("exit-status", "%sexits with status %d after an interrupt: %s", pre, b.ExitCode, lastLog(b))
	case b.Stuck != "":
		r.add("stuck", "%sno progress for %d simulated seconds; %s%s", pre, maxIdle, unanswered(b), clip([]byte(b.Stuck)))
	}
	if len(r.l) > 0 || e.noAnswers {
		return
	}
	for _, x := range b.Results {
		if e.skip != nil && e.skip(x) {
			continue
		}
		if x.Resp == nil {
			if x.Err == "" || x.Err == "aborted" || b.Boot.Clients[x.Client].Bad != "" {
				continue
			}
			cut := strings.Contains(x.Err, " cut") || strings.Contains(x.Err, "ended inside")
			if cut && (crash || b.Exited && e.exits) {
				continue // the process ended while it was sending
			}
			if strings.HasPrefix(x.Err, "malformed") {
				r.add("malformed", "%sclient %d, %s %s: %s", pre, x.Client, x.Req.method(), x.Req.T, x.Err)
				return
			}
			if crash || b.Exited && (e.refuse && !b.Served || e.exits) || b.Signalled && !x.Handling {
				continue
			}
			r.add("unanswered", "%sclient %d, %s %s: %s", pre, x.Client, x.Req.method(), x.Req.T, x.Err)
			return
		}
		if c, m := checkAnswer(b.Model, x, e.answerMode); c != "" {
			r.add(c, "%sclient %d: %s", pre, x.Client, m)
			return
		}
		if x.Err != "" {
			r.add("malformed", "%sclient %d, %s %s: %s", pre, x.Client, x.Req.method(), x.Req.T, x.Err)
			return
		}
	}
	if b.NoAnswer && !b.Exited && !crash {
		r.add("unreachable", "%s%s although the service announced its address", pre, b.NoAnswerWhy)
	}
}

func unanswered(b *BootRes) string {
	for _, x := range b.Results {
		if x.Resp == nil && x.Err == "never answered" && b.Boot.Clients[x.Client].Bad == "" {
			return fmt.Sprintf("client %d, %s %s never answered; ", x.Client, x.Req.method(), x.Req.T)
		}
	}
	return ""
}
