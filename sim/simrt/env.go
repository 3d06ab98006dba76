package simrt

import (
	"os"
	"strings"
)

// SignalReg is a signal.Notify registration.
type SignalReg struct {
	C    chan<- os.Signal
	Sigs []os.Signal // empty: all
}

// WatchState is the simulator's side of a file watcher.
type WatchState struct {
	Inc     *Incarnation
	Paths   map[string]*Inode
	Queue   []func() bool // deliveries; false: try again later
	Deliver func(op uint32, path string) func() bool
	Fail    func() func() bool // delivers an error
	Closed  bool
	CloseFn func()
}

// FsOps, numbered like fsnotify.
const (
	OpCreate uint32 = 1 << iota
	OpWrite
	OpRemove
	OpRename
	OpChmod
)

// Notify queues a file event for every watcher of the file that is at the path now.
func (w *World) Notify(op uint32, path string) int {
	return w.NotifyFile(op, path, w.Disk.StatRaw(path))
}

// NotifyFile queues a file event for every watcher of a file that is, or was, at the path.
func (w *World) NotifyFile(op uint32, path string, ino *Inode) int {
	n := 0
	if w.Inc == nil || w.Inc.Dead {
		return 0
	}
	for _, ws := range w.Inc.Watchers {
		if ws.Closed {
			continue
		}
		if x, ok := ws.Paths[path]; !ok || x != ino {
			continue
		}
		ws.Queue = append(ws.Queue, ws.Deliver(op, path))
		n++
		if op == OpRemove || op == OpRename {
			delete(ws.Paths, path)
		}
	}
	return n
}

// FailWatch makes every watcher of the path report that events were lost.
func (w *World) FailWatch(path string) int {
	n := 0
	if w.Inc == nil || w.Inc.Dead {
		return 0
	}
	for _, ws := range w.Inc.Watchers {
		if _, ok := ws.Paths[path]; ok && !ws.Closed {
			ws.Queue = append(ws.Queue, ws.Fail())
			n++
		}
	}
	return n
}

// PendingEvents tells whether file events wait for delivery.
func (w *World) PendingEvents() bool {
	if w.Inc == nil || w.Inc.Dead {
		return false
	}
	for _, ws := range w.Inc.Watchers {
		if !ws.Closed && len(ws.Queue) > 0 {
			return true
		}
	}
	return false
}

// DeliverEvents hands at most one queued file event to each watcher; it reports whether any was taken.
func (w *World) DeliverEvents() bool {
	any := false
	if w.Inc == nil || w.Inc.Dead {
		return false
	}
	for _, ws := range w.Inc.Watchers {
		if !ws.Closed && len(ws.Queue) > 0 && ws.Queue[0]() {
			ws.Queue = ws.Queue[1:]
			any = true
		}
	}
	return any
}

// Signal delivers a signal; it reports whether the process handles it.
func (w *World) Signal(inc *Incarnation, s os.Signal) bool {
	handled := false
	if inc.Dead {
		return false
	}
	for _, r := range inc.Signals {
		ok := len(r.Sigs) == 0
		for _, x := range r.Sigs {
			ok = ok || x == s
		}
		if !ok {
			continue
		}
		handled = true
		select {
		case r.C <- s:
		default:
		}
	}
	w.Event("signal %v handled %v", s, handled)
	return handled
}

// LogWrite receives what the process prints.
func (inc *Incarnation) LogWrite(b []byte) {
	if inc.Dead {
		return
	}
	inc.logBuf += string(b)
	for {
		i := strings.IndexByte(inc.logBuf, '\n')
		if i < 0 {
			return
		}
		line := inc.logBuf[:i]
		inc.logBuf = inc.logBuf[i+1:]
		inc.Log = append(inc.Log, line)
		W.Event("log %s", line)
	}
}
