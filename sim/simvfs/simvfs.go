// Package simvfs puts SQLite's files on the simulated disk. SQLite itself is the real library.
package simvfs

/*
#include "vfs.h"
*/
import "C"

import (
	"errors"
	"io"
	"io/fs"
	"syscall"
	"unsafe"

	"rodbsim/simrt"
)

const (
	rcOK, rcPerm, rcBusy, rcNoMem, rcReadonly   = 0, 3, 5, 7, 8
	rcIoErr, rcFull, rcCantOpen                 = 10, 13, 14
	rcIoErrRead, rcIoErrShortRead, rcIoErrWrite = rcIoErr | 1<<8, rcIoErr | 2<<8, rcIoErr | 3<<8
	rcIoErrFsync, rcIoErrTruncate, rcIoErrFstat = rcIoErr | 4<<8, rcIoErr | 6<<8, rcIoErr | 7<<8
	rcIoErrDelete, rcIoErrAccess                = rcIoErr | 10<<8, rcIoErr | 13<<8
	rcDeleteNoEnt                               = rcIoErr | 23<<8
	openReadonly, openReadwrite, openCreate     = 1, 2, 4
	openDeleteOnClose, openExclusive            = 8, 16
)

type lockState struct {
	shared                       map[*vfsFile]bool
	reserved, pending, exclusive *vfsFile
}

type vfsFile struct {
	h     *simrt.Handle // nil: anonymous temporary file
	mem   []byte
	level int
	lk    *lockState
}

type lockKey struct {
	inc *simrt.Incarnation
	ino *simrt.Inode
}

var (
	files  = map[int64]*vfsFile{}
	nextID int64
	locks  = map[lockKey]*lockState{}
)

func init() {
	if C.simvfs_register() != 0 {
		// SQLite is not part of the program: nothing to redirect.
		return
	}
}

// ResetRun prepares for a new run.
func ResetRun(seed uint64) {
	C.simvfs_reseed(C.uint64_t(seed))
	locks = map[lockKey]*lockState{}
}

func errno(err error, def C.int) C.int {
	switch {
	case err == nil:
		return rcOK
	case errors.Is(err, syscall.ENOSPC), errors.Is(err, syscall.EDQUOT):
		return rcFull
	}
	return def
}

//export goVfsOpen
func goVfsOpen(name *C.char, flags C.int, id *C.i64) C.int {
	f := &vfsFile{}
	if name != nil {
		if simrt.W == nil {
			return rcCantOpen
		}
		fl := syscall.O_RDONLY
		if flags&openReadwrite != 0 {
			fl = syscall.O_RDWR
		}
		if flags&openCreate != 0 {
			fl |= syscall.O_CREAT
		}
		if flags&openExclusive != 0 {
			fl |= syscall.O_EXCL
		}
		inc := simrt.CurrentInc()
		h, err := simrt.W.Disk.Open(inc, C.GoString(name), fl)
		if err != nil {
			return errno(err, rcCantOpen)
		}
		h.DeleteOnClose = flags&openDeleteOnClose != 0
		f.h = h
		k := lockKey{inc, h.Ino}
		if locks[k] == nil {
			locks[k] = &lockState{shared: map[*vfsFile]bool{}}
		}
		f.lk = locks[k]
	}
	nextID++
	files[nextID] = f
	*id = C.i64(nextID)
	return rcOK
}

//export goVfsClose
func goVfsClose(id C.i64) C.int {
	f := files[int64(id)]
	delete(files, int64(id))
	if f == nil || f.h == nil {
		return rcOK
	}
	f.unlock(0)
	if simrt.W == nil {
		return rcOK
	}
	simrt.W.Disk.CloseHandle(f.h)
	return rcOK
}

//export goVfsRead
func goVfsRead(id C.i64, p unsafe.Pointer, n C.int, off C.i64) C.int {
	f := files[int64(id)]
	b := unsafe.Slice((*byte)(p), int(n))
	if f.h == nil {
		k := 0
		if int64(off) < int64(len(f.mem)) {
			k = copy(b, f.mem[off:])
		}
		if k < len(b) {
			clear(b[k:])
			return rcIoErrShortRead
		}
		return rcOK
	}
	done := 0
	for done < len(b) {
		k, err := simrt.W.Disk.ReadAt(f.h, b[done:], int64(off)+int64(done))
		done += k
		if err == io.EOF {
			clear(b[done:])
			return rcIoErrShortRead
		}
		if err != nil {
			return errno(err, rcIoErrRead)
		}
	}
	return rcOK
}

//export goVfsWrite
func goVfsWrite(id C.i64, p unsafe.Pointer, n C.int, off C.i64) C.int {
	f := files[int64(id)]
	b := unsafe.Slice((*byte)(p), int(n))
	if f.h == nil {
		end := int(off) + len(b)
		if end > len(f.mem) {
			f.mem = append(f.mem, make([]byte, end-len(f.mem))...)
		}
		copy(f.mem[off:], b)
		return rcOK
	}
	_, err := simrt.W.Disk.WriteAt(f.h, b, int64(off))
	return errno(err, rcIoErrWrite)
}

//export goVfsTruncate
func goVfsTruncate(id C.i64, size C.i64) C.int {
	f := files[int64(id)]
	if f.h == nil {
		if int(size) < len(f.mem) {
			f.mem = f.mem[:size]
		}
		return rcOK
	}
	return errno(simrt.W.Disk.Truncate(f.h, int64(size)), rcIoErrTruncate)
}

//export goVfsSync
func goVfsSync(id C.i64) C.int {
	f := files[int64(id)]
	if f.h == nil {
		return rcOK
	}
	return errno(simrt.W.Disk.Sync(f.h), rcIoErrFsync)
}

//export goVfsSize
func goVfsSize(id C.i64, p *C.i64) C.int {
	f := files[int64(id)]
	if f.h == nil {
		*p = C.i64(len(f.mem))
		return rcOK
	}
	i, err := simrt.W.Disk.StatHandle(f.h)
	if err != nil {
		return rcIoErrFstat
	}
	*p = C.i64(i.Size)
	return rcOK
}

//export goVfsLock
func goVfsLock(id C.i64, level C.int) C.int {
	f := files[int64(id)]
	if f.h == nil || f.level >= int(level) {
		return rcOK
	}
	l := f.lk
	switch level {
	case 1:
		if l.exclusive != nil || l.pending != nil {
			return rcBusy
		}
		l.shared[f] = true
	case 2:
		if l.reserved != nil {
			return rcBusy
		}
		l.reserved = f
	case 4:
		if l.pending != nil && l.pending != f {
			return rcBusy
		}
		l.pending = f
		for o := range l.shared {
			if o != f {
				f.level = 3
				return rcBusy
			}
		}
		l.exclusive = f
	}
	f.level = int(level)
	return rcOK
}

func (f *vfsFile) unlock(level int) {
	if f.h == nil || f.level <= level {
		return
	}
	l := f.lk
	if l.exclusive == f {
		l.exclusive = nil
	}
	if l.pending == f {
		l.pending = nil
	}
	if l.reserved == f {
		l.reserved = nil
	}
	if level == 0 {
		delete(l.shared, f)
	}
	f.level = level
}

//export goVfsUnlock
func goVfsUnlock(id C.i64, level C.int) C.int {
	files[int64(id)].unlock(int(level))
	return rcOK
}

//export goVfsCheckReserved
func goVfsCheckReserved(id C.i64, r *C.int) C.int {
	f := files[int64(id)]
	*r = 0
	if f.lk != nil && f.lk.reserved != nil {
		*r = 1
	}
	return rcOK
}

//export goVfsDelete
func goVfsDelete(name *C.char) C.int {
	if simrt.W == nil {
		return rcIoErrDelete
	}
	err := simrt.W.Disk.Remove(simrt.CurrentInc(), C.GoString(name))
	if errors.Is(err, fs.ErrNotExist) {
		return rcDeleteNoEnt
	}
	return errno(err, rcIoErrDelete)
}

//export goVfsAccess
func goVfsAccess(name *C.char, r *C.int) C.int {
	*r = 0
	if simrt.W != nil && simrt.W.Disk.StatRaw(C.GoString(name)) != nil {
		*r = 1
	}
	return rcOK
}
