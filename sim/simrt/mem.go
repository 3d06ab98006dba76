package simrt

import (
	"sync/atomic"
	"unsafe"

	"rodbsim/gid"
)

// Memory accesses that Go does not make atomic: the instrumented code computes the new value of a
// shared variable, passes a scheduling point and stores it then; a map being written to is open
// for a moment, in which an access of another task is the fatal error that Go's runtime raises.

type mapWrite struct {
	m unsafe.Pointer
	t *Task
}

// hot is a scheduling point between the computation of a shared value and its store. It ends the
// turn of the task more often than others if several tasks get there.
func hot(site int) {
	w := W
	if w == nil {
		return
	}
	if atomic.LoadInt64(&w.activeGoid) == gid.Get() && w.active.ID != 0 {
		if w.siteTask == nil {
			w.siteTask = map[int]int{}
		}
		if last := w.siteTask[site]; last != w.active.ID {
			w.siteTask[site] = w.active.ID
			if last != 0 && w.quantum > 0 && (uint64(w.Steps)*0x9E3779B97F4A7C15>>40)&1 == 0 {
				w.quantum = 0
				w.Probes["turn ended at a shared store"]++
			}
		}
	}
	Y(site)
}

// V is the value of an assignment to a shared variable.
func V[T any](site int, v T) T {
	hot(site)
	return v
}

// T and F stand before the second operand of && and ||.
func T(site int) bool { Y(site); return true }
func F(site int) bool { Y(site); return false }

func mapPointer[M ~map[K]E, K comparable, E any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MapR is a map about to be read.
func MapR[M ~map[K]E, K comparable, E any](m M) M {
	if w := W; w != nil && len(w.mapWrites) > 0 && m != nil {
		w.mapConflict(mapPointer(m), "fatal error: concurrent map read and map write")
	}
	return m
}

// MapW is a map about to be written to; MapWS one that other tasks may know.
func MapW[M ~map[K]E, K comparable, E any](site int, m M) M  { return mapW(site, m, Y) }
func MapWS[M ~map[K]E, K comparable, E any](site int, m M) M { return mapW(site, m, hot) }

func mapW[M ~map[K]E, K comparable, E any](site int, m M, point func(int)) M {
	w := W
	if w == nil || m == nil {
		return m
	}
	p := mapPointer(m)
	if len(w.mapWrites) > 0 {
		w.mapConflict(p, "fatal error: concurrent map writes")
	}
	t := w.current()
	if t.dying {
		return m
	}
	w.mapWrites = append(w.mapWrites, mapWrite{p, t})
	defer func() {
		for i, x := range w.mapWrites {
			if x.t == t && x.m == p {
				w.mapWrites = append(w.mapWrites[:i], w.mapWrites[i+1:]...)
				break
			}
		}
	}()
	point(site)
	return m
}

func (w *World) mapConflict(p unsafe.Pointer, why string) {
	t := w.current()
	if t.dying || t.inc.Dead {
		return
	}
	for _, x := range w.mapWrites {
		if x.m == p && x.t != t && x.t.inc == t.inc && !x.t.dying {
			t.inc.exit(2, why)
			w.die(t)
		}
	}
}
