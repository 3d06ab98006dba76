// Package gid returns the identity of the running goroutine. The offset of the id inside the
// runtime's g structure is discovered at start-up by comparison with runtime.Stack.
package gid

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"unsafe"
)

func getg() uintptr

var offset uintptr

func slow() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	id, err := strconv.ParseInt(string(f[1]), 10, 64)
	if err != nil {
		panic(err)
	}
	return id
}

func candidates() map[uintptr]bool {
	g := getg()
	id := slow()
	c := map[uintptr]bool{}
	for o := uintptr(0); o < 400; o += 8 {
		if *(*int64)(unsafe.Pointer(g + o)) == id {
			c[o] = true
		}
	}
	return c
}

func init() {
	c := candidates()
	for i := 0; i < 64; i++ {
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := candidates()
			for o := range c {
				if !d[o] {
					delete(c, o)
				}
			}
		}()
		wg.Wait()
	}
	if len(c) != 1 {
		panic("gid: cannot find the goroutine id")
	}
	for o := range c {
		offset = o
	}
	if Get() != slow() {
		panic("gid: wrong goroutine id")
	}
}

// Get returns the id of the calling goroutine.
func Get() int64 { return *(*int64)(unsafe.Pointer(getg() + offset)) }
