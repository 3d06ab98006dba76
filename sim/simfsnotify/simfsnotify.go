// Package simfsnotify replaces fsnotify's watcher by one fed from the simulated disk.
package simfsnotify

import (
	"errors"
	"fmt"
	"os"
	"syscall"

	"github.com/fsnotify/fsnotify"

	"rodbsim/simrt"
)

type Watcher struct {
	Events chan fsnotify.Event
	Errors chan error
	ws     *simrt.WatchState
}

func NewWatcher() (*Watcher, error) {
	inc := simrt.CurrentInc()
	if f := simrt.FindFault(inc, "newwatcher", "watch"); f != nil {
		return nil, os.NewSyscallError("inotify_init1", simrt.ErrnoOf(f.Kind))
	}
	w := &Watcher{Events: make(chan fsnotify.Event), Errors: make(chan error)}
	ws := &simrt.WatchState{Inc: inc, Paths: map[string]*simrt.Inode{}}
	w.ws = ws
	ws.Deliver = func(op uint32, path string) func() bool {
		return func() bool {
			select {
			case w.Events <- fsnotify.Event{Name: path, Op: fsnotify.Op(op)}:
				return true
			default:
				return false
			}
		}
	}
	ws.Fail = func() func() bool {
		return func() bool {
			select {
			case w.Errors <- fsnotify.ErrEventOverflow:
				return true
			default:
				return false
			}
		}
	}
	ws.CloseFn = func() {
		if !ws.Closed {
			ws.Closed = true
			close(w.Events)
			close(w.Errors)
		}
	}
	inc.Watchers = append(inc.Watchers, ws)
	inc.OnKill(ws.CloseFn)
	return w, nil
}

func NewBufferedWatcher(n uint) (*Watcher, error) { return NewWatcher() }

func (w *Watcher) Add(name string) error {
	inc := w.ws.Inc
	if w.ws.Closed {
		return errors.New("inotify instance already closed")
	}
	if f := simrt.FindFault(inc, "watch", "watch"); f != nil {
		return simrt.ErrnoOf(f.Kind)
	}
	p := simrt.Clean(name)
	n := simrt.W.Disk.StatRaw(p)
	if n == nil {
		return syscall.ENOENT
	}
	w.ws.Paths[p] = n
	return nil
}

func (w *Watcher) Remove(name string) error {
	p := simrt.Clean(name)
	if _, ok := w.ws.Paths[p]; !ok {
		return fmt.Errorf("can't remove non-existent inotify watch for: %s", name)
	}
	if f := simrt.FindFault(w.ws.Inc, "unwatch", "watch"); f != nil {
		return simrt.ErrnoOf(f.Kind)
	}
	delete(w.ws.Paths, p)
	return nil
}

func (w *Watcher) Close() error {
	w.ws.CloseFn()
	return nil
}

func (w *Watcher) WatchList() []string {
	var l []string
	for p := range w.ws.Paths {
		l = append(l, p)
	}
	return l
}
