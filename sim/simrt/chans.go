package simrt

// Channels are real: a task that waits for one is not with the scheduler until it is woken. These
// functions only let it end when its process is killed.

func mortal() (t *Task, killed <-chan struct{}) {
	if W == nil {
		return nil, nil
	}
	t = W.current()
	if t.inc == nil {
		return t, nil
	}
	return t, t.inc.killed
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	t, killed := mortal()
	if t != nil && t.dying {
		select {
		case v, ok = <-c:
		default:
		}
		return
	}
	select {
	case v, ok = <-c:
	case <-killed:
		W.die(t)
	}
	return
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Sender(c)(v) is c <- v.
func Sender[T any](c chan<- T) func(T) {
	return func(v T) {
		t, killed := mortal()
		if t != nil && t.dying {
			select {
			case c <- v:
			default:
			}
			return
		}
		select {
		case c <- v:
		case <-killed:
			W.die(t)
		}
	}
}

// ChanIterator is range over a channel.
type ChanIterator[T any] struct{ c <-chan T }

func ChanIter[T any](c <-chan T) *ChanIterator[T] { return &ChanIterator[T]{c} }

func ChanIterV[T any](c <-chan T) (it *ChanIterator[T], v T) { return &ChanIterator[T]{c}, v }

func (it *ChanIterator[T]) Next(p *T) bool {
	v, ok := Recv2(it.c)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// Killed is ready when the task's process was killed; Die then ends the task.
func Killed() <-chan struct{} {
	t, killed := mortal()
	if t != nil && t.dying {
		c := make(chan struct{})
		close(c)
		return c
	}
	return killed
}

func Die() {
	if t, _ := mortal(); t != nil {
		W.die(t)
	}
}
