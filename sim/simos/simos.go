// Package simos replaces the parts of os, io/ioutil, os/signal, io and path/filepath that touch the
// outside world by the simulated disk, clock and process.
package simos

import (
	"context"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"rodbsim/simrt"
)

type nothing struct{}

func disk() *simrt.Disk                { return simrt.W.Disk }
func inc() *simrt.Incarnation          { return simrt.CurrentInc() }
func yield(what string)                { simrt.BlockOrDie(what, nil) }
func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

// File replaces os.File.
type File struct {
	h       *simrt.Handle
	name    string
	std     int // 1, 2: standard output, error
	off     int64
	dirRead bool
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 3}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 2}
)

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	yield("open")
	h, err := disk().Open(inc(), name, flag)
	if err != nil {
		return nil, err
	}
	i := inc()
	if i != nil {
		i.Files = append(i.Files, h)
	}
	return &File{h: h, name: name}, nil
}

func (f *File) bad(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std != 0 {
		return perr(op, f.name, syscall.EBADF)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.std != 0 {
		return uintptr(f.std)
	}
	return uintptr(100 + f.h.No)
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	yield("read")
	n, err := disk().ReadAt(f.h, b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.bad("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, fmt.Errorf("negative offset"))
	}
	done := 0
	for done < len(b) {
		yield("read")
		n, err := disk().ReadAt(f.h, b[done:], off+int64(done))
		done += n
		if err != nil {
			return done, err
		}
	}
	return done, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std != 0 {
		if i := inc(); i != nil {
			i.LogWrite(b)
		}
		return len(b), nil
	}
	yield("write")
	off := f.off
	if f.h.Append {
		off = int64(len(f.h.Ino.Data))
	}
	n, err := disk().WriteAt(f.h, b, off)
	f.off = off + int64(n)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.bad("write"); err != nil {
		return 0, err
	}
	yield("write")
	n, err := disk().WriteAt(f.h, b, off)
	if err == nil && n < len(b) {
		err = io.ErrShortWrite
	}
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom and WriteTo keep io.Copy on the simulated file.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.bad("seek"); err != nil {
		return 0, err
	}
	if f.h.Closed {
		return 0, perr("seek", f.name, fs.ErrClosed)
	}
	yield("seek")
	if ft := simrt.FindFault(inc(), "seek", f.h.Role); ft != nil {
		return 0, perr("seek", f.name, simrt.ErrnoOf(ft.Kind))
	}
	n := off
	switch whence {
	case io.SeekCurrent:
		n += f.off
	case io.SeekEnd:
		n += int64(len(f.h.Ino.Data))
	}
	if n < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = n
	return n, nil
}

func (f *File) Truncate(size int64) error {
	if err := f.bad("truncate"); err != nil {
		return err
	}
	yield("truncate")
	return disk().Truncate(f.h, size)
}

func (f *File) Sync() error {
	if err := f.bad("sync"); err != nil {
		return err
	}
	yield("sync")
	return disk().Sync(f.h)
}

func (f *File) Close() error {
	if err := f.bad("close"); err != nil {
		return err
	}
	return disk().CloseHandle(f.h)
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.bad("stat"); err != nil {
		return nil, err
	}
	yield("stat")
	i, err := disk().StatHandle(f.h)
	if err != nil {
		return nil, err
	}
	return fileInfo{i}, nil
}

func (f *File) Chmod(m fs.FileMode) error          { return Chmod(f.name, m) }
func (f *File) Chown(uid, gid int) error           { return nil }
func (f *File) SetDeadline(t time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return os.ErrNoDeadline }
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.bad("readdir"); err != nil {
		return nil, err
	}
	if f.dirRead {
		if n > 0 {
			return nil, io.EOF
		}
		return nil, nil
	}
	f.dirRead = true
	return ReadDir(f.name)
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := f.ReadDir(n)
	var r []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var r []string
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, err
}

type fileInfo struct{ i *simrt.Info }

func (f fileInfo) Name() string               { return f.i.Name }
func (f fileInfo) Size() int64                { return f.i.Size }
func (f fileInfo) Mode() fs.FileMode          { return f.i.Mode }
func (f fileInfo) ModTime() time.Time         { return f.i.Mtime }
func (f fileInfo) IsDir() bool                { return f.i.IsDir }
func (f fileInfo) Sys() interface{}           { return nil }
func (f fileInfo) Info() (fs.FileInfo, error) { return f, nil }
func (f fileInfo) Type() fs.FileMode          { return f.i.Mode.Type() }

func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(fileInfo)
	y, ok2 := b.(fileInfo)
	return ok && ok2 && x.i.Ino == y.i.Ino
}

func Stat(name string) (fs.FileInfo, error) {
	yield("stat")
	i, err := disk().Stat(inc(), name)
	if err != nil {
		return nil, err
	}
	return fileInfo{i}, nil
}
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func Remove(name string) error {
	yield("remove")
	return disk().Remove(inc(), name)
}

func RemoveAll(name string) error {
	p := simrt.Clean(name)
	var l []string
	for _, q := range disk().List() {
		if q == p || strings.HasPrefix(q, p+"/") {
			l = append(l, q)
		}
	}
	for i := len(l) - 1; i >= 0; i-- {
		if err := Remove(l[i]); err != nil {
			return err
		}
	}
	return nil
}

func Rename(a, b string) error {
	yield("rename")
	return disk().Rename(inc(), a, b)
}
func Mkdir(name string, perm fs.FileMode) error {
	yield("mkdir")
	return disk().Mkdir(inc(), name)
}
func MkdirAll(name string, perm fs.FileMode) error {
	p := simrt.Clean(name)
	if n := disk().StatRaw(p); n != nil {
		if n.IsDir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if err := MkdirAll(path.Dir(p), perm); err != nil {
		return err
	}
	return Mkdir(p, perm)
}

var tempSeq int

func init() { simrt.RegisterReset("simos", func() {}) }

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	for {
		tempSeq++
		s := fmt.Sprint(1000000 + tempSeq)
		n := pattern + s
		if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
			n = pattern[:i] + s + pattern[i+1:]
		}
		p := path.Join(dir, n)
		if disk().StatRaw(p) == nil {
			return p
		}
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	tempSeq = 0
	p := tempName(dir, pattern)
	return p, Mkdir(p, 0700)
}
func CreateTemp(dir, pattern string) (*File, error) {
	tempSeq = 0
	return OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}
func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error) { return MkdirTemp(dir, pattern) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	yield("readdir")
	l, err := disk().ReadDirNames(inc(), name)
	if err != nil {
		return nil, err
	}
	var r []fs.DirEntry
	for _, i := range l {
		r = append(r, fileInfo{i})
	}
	return r, nil
}

func Truncate(name string, size int64) error {
	yield("truncate")
	return disk().TruncatePath(inc(), name, size)
}
func Chmod(name string, m fs.FileMode) error {
	yield("chmod")
	return disk().Chmod(inc(), name, m)
}
func Chtimes(name string, a, m time.Time) error {
	yield("chtimes")
	return disk().Chtimes(inc(), name, m)
}
func Chown(name string, uid, gid int) error { return nil }
func Link(a, b string) error {
	yield("link")
	return disk().Link(inc(), a, b)
}
func Symlink(a, b string) error {
	yield("symlink")
	return disk().Symlink(inc(), a, b)
}
func Readlink(name string) (string, error) {
	if n := disk().StatRaw(name); n != nil && n.Target != "" {
		return n.Target, nil
	}
	return "", perr("readlink", name, syscall.EINVAL)
}

func Exit(code int) { simrt.Exit(code) }

// ---------------------------------------------------------------- signals

func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	i := inc()
	i.Signals = append(i.Signals, &simrt.SignalReg{C: c, Sigs: sigs})
}

func Stop(c chan<- os.Signal) {
	i := inc()
	for k, r := range i.Signals {
		if r.C == c {
			i.Signals = append(i.Signals[:k], i.Signals[k+1:]...)
			return
		}
	}
}
func Ignore(sigs ...os.Signal) {}
func Reset(sigs ...os.Signal)  { inc().Signals = nil }

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	simrt.CurrentInc().OnKill(cancel)
	simrt.Go(func() {
		select {
		case <-ch:
			cancel()
		case <-ctx.Done():
		}
	})
	return ctx, func() { cancel(); Stop(ch) }
}

// ---------------------------------------------------------------- io.Pipe

// The pipe carries log output: writes never block, so that logging does not perturb the schedule.
type pipe struct {
	ch      chan nothing
	buf     []byte
	wclosed error
	rclosed error
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{ch: make(chan nothing, 1)}
	if i := inc(); i != nil {
		i.OnKill(func() {
			if p.wclosed == nil {
				p.wclosed = io.EOF
			}
			p.kick()
		})
	}
	return &PipeReader{p}, &PipeWriter{p}
}

func (p *pipe) kick() {
	select {
	case p.ch <- nothing{}:
	default:
	}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	for {
		if p.rclosed != nil {
			return 0, io.ErrClosedPipe
		}
		if len(p.buf) > 0 {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			return n, nil
		}
		if p.wclosed != nil {
			return 0, p.wclosed
		}
		<-p.ch
	}
}
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	if r.p.rclosed == nil {
		r.p.rclosed = err
	}
	r.p.kick()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	if p.wclosed != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rclosed != nil {
		return 0, p.rclosed
	}
	p.buf = append(p.buf, b...)
	p.kick()
	return len(b), nil
}
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	if w.p.wclosed == nil {
		w.p.wclosed = err
	}
	w.p.kick()
	return nil
}

// ---------------------------------------------------------------- path/filepath

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, i.(fileInfo), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fileInfo, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := ReadDir(p)
	if err != nil {
		return fn(p, d, err)
	}
	for _, e := range l {
		if err := walk(filepath.Join(p, e.Name()), e.(fileInfo), fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Glob(pattern string) ([]string, error) {
	var r []string
	for _, p := range disk().List() {
		q := p
		if !strings.HasPrefix(pattern, "/") {
			q = strings.TrimPrefix(p, simrt.Cwd+"/")
		}
		ok, err := filepath.Match(pattern, q)
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, q)
		}
	}
	sort.Strings(r)
	return r, nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := Stat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

// SetFinalizer does nothing: when the garbage collector runs is not decided by the simulator.
func SetFinalizer(obj, finalizer interface{}) {}
