package simrt

import (
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Inode is a file or directory of the simulated disk: what the operating system would return now
// (data), and what is known to be on the medium (durable, plus any subset of the unsynced writes).
type Inode struct {
	No      int
	IsDir   bool
	Target  string // symbolic link
	Data    []byte
	durable []byte
	dropped bool        // a sync has failed
	log     []diskWrite // writes since the last sync
	Mtime   time.Time
	Mode    fs.FileMode
}

type diskWrite struct {
	off   int64
	data  []byte
	trunc bool // truncate to off
}

// nsOp is a name-space change that is not known to be on the medium yet.
type nsOp struct {
	path string
	ino  *Inode // nil: removed
}

// Disk is the simulated storage. It outlives simulated processes.
type Disk struct {
	names       map[string]*Inode
	durable     map[string]*Inode
	nsLog       []nsOp
	nextIno     int
	Role        func(path string) string
	MtimeOffset time.Duration // clock skew of the file server
	Handles     []*Handle     // open handles, all incarnations
	nextHandle  int
}

// CrashPlan ends the process inside its Nth mutating disk operation.
type CrashPlan struct {
	MutOp int     `json:"mut_op,omitempty"`
	Step  int64   `json:"step,omitempty"`
	Tear  float64 `json:"tear,omitempty"` // part of the write in flight that reaches the disk
}

// Fault makes operations of the process fail.
type Fault struct {
	Op    string `json:"op"`
	Role  string `json:"role,omitempty"`
	Phase string `json:"phase"`
	Nth   int    `json:"nth"`
	Count int    `json:"count"`
	Kind  string `json:"kind"`
	Arg   int    `json:"arg,omitempty"`
	seen  int
	Hit   int `json:"-"`
}

// Handle is an open file.
type Handle struct {
	No                  int
	Path                string
	Role                string
	Phase               string
	Ino                 *Inode
	Inc                 *Incarnation
	Off                 int64
	Read, Write, Append bool
	Closed              bool
	SawEOF              bool
	SawErr              bool
	torn                bool
	dirPos              int
	DeleteOnClose       bool
	Opener              string
}

const Cwd = "/w"

func NewDisk() *Disk {
	d := &Disk{names: map[string]*Inode{}, durable: map[string]*Inode{}, Role: func(string) string { return "other" }}
	d.MkdirAllRaw("/w")
	d.MkdirAllRaw("/tmp")
	return d
}

func Clean(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = Cwd + "/" + p
	}
	return path.Clean(p)
}

func (d *Disk) newInode() *Inode {
	d.nextIno++
	return &Inode{No: d.nextIno, Mode: 0644, Mtime: time.Now().Add(d.MtimeOffset)}
}

// MkdirAllRaw, WriteRaw and the other Raw operations are the environment's: durable at once.
func (d *Disk) MkdirAllRaw(p string) {
	p = Clean(p)
	if p == "" || d.names[p] != nil {
		return
	}
	if p != "/" {
		d.MkdirAllRaw(path.Dir(p))
	}
	n := d.newInode()
	n.IsDir = true
	n.Mode = 0755 | fs.ModeDir
	d.names[p] = n
	d.durable[p] = n
}

// WriteRaw replaces the contents of a file in place (same inode) or creates it.
func (d *Disk) WriteRaw(p string, data []byte) {
	p = Clean(p)
	d.MkdirAllRaw(path.Dir(p))
	n := d.names[p]
	if n == nil {
		n = d.newInode()
		d.names[p] = n
	}
	d.durable[p] = n
	n.Data = append([]byte(nil), data...)
	n.durable = append([]byte(nil), data...)
	n.log, n.dropped = nil, false
	n.Mtime = time.Now().Add(d.MtimeOffset)
}

// ReplaceRaw puts a new inode at p (write to a temporary file, then rename).
func (d *Disk) ReplaceRaw(p string, data []byte) {
	p = Clean(p)
	delete(d.names, p)
	delete(d.durable, p)
	d.WriteRaw(p, data)
}

func (d *Disk) RemoveRaw(p string) {
	p = Clean(p)
	delete(d.names, p)
	delete(d.durable, p)
}

func (d *Disk) ChtimesRaw(p string, t time.Time) {
	if n := d.names[Clean(p)]; n != nil {
		n.Mtime = t
	}
}

func (d *Disk) ReadRaw(p string) ([]byte, bool) {
	n := d.names[Clean(p)]
	if n == nil || n.IsDir {
		return nil, false
	}
	return append([]byte(nil), n.Data...), true
}

func (d *Disk) StatRaw(p string) *Inode { return d.names[Clean(p)] }

// List returns every path, sorted.
func (d *Disk) List() []string {
	var l []string
	for p := range d.names {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

// Snapshot copies the visible state: path → contents (files only).
func (d *Disk) Snapshot() map[string][]byte {
	m := map[string][]byte{}
	for p, n := range d.names {
		if !n.IsDir {
			m[p] = append([]byte(nil), n.Data...)
		}
	}
	return m
}

// SyncAll makes everything durable (an orderly shutdown of the machine).
func (d *Disk) SyncAll() {
	d.flushNames()
	for _, n := range d.names {
		n.durable = append([]byte(nil), n.Data...)
		n.log, n.dropped = nil, false
	}
}

func (d *Disk) flushNames() {
	for _, o := range d.nsLog {
		if o.ino == nil {
			delete(d.durable, o.path)
		} else {
			d.durable[o.path] = o.ino
		}
	}
	d.nsLog = nil
}

// freeze is called at the end of a process: nothing to do, operations of a dead process fail.
func (d *Disk) freeze(inc *Incarnation) {}

// Phase of the current incarnation.
func (inc *Incarnation) Phase() string {
	if inc.Serving {
		return "serve"
	}
	return "boot"
}

func (w *World) hitFault(f *Fault) {
	f.Hit++
	w.FaultsHit[f.Kind+" on "+f.Op+" of "+f.Role+" ("+f.Phase+")"]++
	w.Event("fault %s %s %s #%d", f.Kind, f.Op, f.Role, f.seen)
}

// FindFault counts an operation and returns the fault that strikes it, if any.
func FindFault(inc *Incarnation, op, role string) *Fault {
	if inc == nil {
		return nil
	}
	ph := inc.Phase()
	inc.Profile[ph+"/"+op+"/"+role]++
	inc.allOps++
	var hit *Fault
	for _, f := range inc.Faults {
		if f.Op != op || (f.Role != "" && f.Role != role) || (f.Phase != "" && f.Phase != ph) {
			continue
		}
		f.seen++
		if hit == nil && f.seen >= f.Nth && (f.Count <= 0 || f.seen < f.Nth+f.Count) {
			hit = f
		}
	}
	if hit != nil && hit.Kind == "slow" {
		if role == "sqlite" { // its own locks are held, which the scheduler does not know
			return nil
		}
		W.hitFault(hit)
		until := time.Now().Add(time.Duration(hit.Arg) * time.Second)
		Block("slow "+op, func() bool { return !time.Now().Before(until) })
		return nil
	}
	if hit != nil {
		W.hitFault(hit)
	}
	return hit
}

func errnoOf(kind string) error {
	switch kind {
	case "EIO", "short":
		return syscall.EIO
	case "ENOSPC":
		return syscall.ENOSPC
	case "EMFILE":
		return syscall.EMFILE
	case "ENFILE":
		return syscall.ENFILE
	case "EACCES":
		return syscall.EACCES
	case "ENOENT":
		return syscall.ENOENT
	case "EINTR":
		return syscall.EINTR
	case "ENOMEM":
		return syscall.ENOMEM
	case "EROFS":
		return syscall.EROFS
	case "EDQUOT":
		return syscall.EDQUOT
	case "EADDRINUSE":
		return syscall.EADDRINUSE
	}
	return syscall.EIO
}

// ErrnoOf is the error a fault kind stands for.
func ErrnoOf(kind string) error { return errnoOf(kind) }

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// mutate counts a mutating operation and reports whether the process dies in it.
func (d *Disk) mutate(inc *Incarnation, op, p string) (crash bool, tear float64) {
	if inc == nil {
		return false, 0
	}
	inc.mutOps++
	if W.OnMutate != nil {
		W.OnMutate(op, p)
	}
	if c := inc.Crash; c != nil && c.MutOp > 0 && inc.mutOps == c.MutOp {
		return true, c.Tear
	}
	return false, 0
}

// MutOps is the number of mutating disk operations of the process so far.
func (inc *Incarnation) MutOps() int { return inc.mutOps }
func (inc *Incarnation) AllOps() int { return inc.allOps }

func (inc *Incarnation) crash(what string) {
	if inc.Dead {
		return
	}
	inc.Dead = true
	inc.ExitWhy = "crash"
	W.FaultsHit["crash during "+what]++
	W.Event("crash in %s", what)
}

func dead(inc *Incarnation) bool { return inc != nil && inc.Dead }

func (d *Disk) resolve(p string) (string, *Inode) {
	p = Clean(p)
	for i := 0; i < 8; i++ {
		n := d.names[p]
		if n == nil || n.Target == "" {
			return p, n
		}
		t := n.Target
		if !strings.HasPrefix(t, "/") {
			t = path.Dir(p) + "/" + t
		}
		p = path.Clean(t)
	}
	return p, nil
}

// Open flags, as in package os.
const (
	oWRONLY = syscall.O_WRONLY
	oRDWR   = syscall.O_RDWR
	oCREATE = syscall.O_CREAT
	oTRUNC  = syscall.O_TRUNC
	oEXCL   = syscall.O_EXCL
	oAPPEND = syscall.O_APPEND
)

func (d *Disk) Open(inc *Incarnation, name string, flag int) (*Handle, error) {
	if dead(inc) {
		return nil, perr("open", name, syscall.EIO)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	p, n := d.resolve(name)
	role := d.Role(p)
	if f := FindFault(inc, "open", role); f != nil {
		return nil, perr("open", name, errnoOf(f.Kind))
	}
	write := flag&(oWRONLY|oRDWR) != 0
	if n == nil {
		if flag&oCREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if par := d.names[path.Dir(p)]; par == nil {
			return nil, perr("open", name, syscall.ENOENT)
		} else if !par.IsDir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		crash, tear := d.mutate(inc, "create", p)
		if !crash || tear >= 0.5 {
			n = d.newInode()
			d.names[p] = n
			if inc == nil {
				d.durable[p] = n
			} else {
				d.nsLog = append(d.nsLog, nsOp{p, n})
			}
		}
		if crash {
			inc.crash("create of " + role)
			return nil, perr("open", name, syscall.EIO)
		}
	} else {
		if flag&oEXCL != 0 && flag&oCREATE != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.IsDir && write {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&oTRUNC != 0 && write && len(n.Data) > 0 {
			if err := d.truncate(inc, n, p, 0); err != nil {
				return nil, err
			}
		}
	}
	d.nextHandle++
	h := &Handle{No: d.nextHandle, Path: p, Role: role, Ino: n, Inc: inc,
		Read: flag&oWRONLY == 0, Write: write, Append: flag&oAPPEND != 0}
	if inc != nil {
		h.Phase = inc.Phase()
		if t := W.active; t != nil {
			h.Opener = t.Name
		}
	}
	d.Handles = append(d.Handles, h)
	return h, nil
}

func (d *Disk) CloseHandle(h *Handle) error {
	if h.Closed {
		return perr("close", h.Path, fs.ErrClosed)
	}
	h.Closed = true
	for i, x := range d.Handles {
		if x == h {
			d.Handles = append(d.Handles[:i], d.Handles[i+1:]...)
			break
		}
	}
	if dead(h.Inc) {
		return perr("close", h.Path, syscall.EIO)
	}
	if h.DeleteOnClose {
		d.Remove(h.Inc, h.Path)
	}
	if f := FindFault(h.Inc, "close", h.Role); f != nil {
		return perr("close", h.Path, errnoOf(f.Kind))
	}
	return nil
}

// ReadAt reads from the inode; n < len(b) with a nil error is a short read, io.EOF the end.
func (d *Disk) ReadAt(h *Handle, b []byte, off int64) (int, error) {
	if h.Closed {
		return 0, perr("read", h.Path, fs.ErrClosed)
	}
	if dead(h.Inc) {
		return 0, perr("read", h.Path, syscall.EIO)
	}
	if h.Ino.IsDir {
		return 0, perr("read", h.Path, syscall.EISDIR)
	}
	limit := len(b)
	if h.torn && len(b) > 0 {
		h.torn, h.SawErr = false, true
		return 0, perr("read", h.Path, syscall.EIO)
	}
	if f := FindFault(h.Inc, "read", h.Role); f != nil {
		if f.Kind == "short" || f.Kind == "torn" { // torn: a part, then the error
			h.torn = f.Kind == "torn"
			if limit > 1 {
				limit = 1 + f.Arg%(limit)
				if limit >= len(b) {
					limit = len(b) - 1
				}
			}
		} else {
			h.SawErr = true
			return 0, perr("read", h.Path, errnoOf(f.Kind))
		}
	}
	if off >= int64(len(h.Ino.Data)) {
		if len(b) == 0 {
			return 0, nil
		}
		h.SawEOF = true
		return 0, io.EOF
	}
	n := copy(b[:limit], h.Ino.Data[off:])
	return n, nil
}

func (n *Inode) apply(w diskWrite) { n.Data = applyWrite(n.Data, w) }

func applyWrite(data []byte, w diskWrite) []byte {
	if w.trunc {
		if int64(len(data)) > w.off {
			return data[:w.off:w.off]
		}
		return append(data, make([]byte, w.off-int64(len(data)))...)
	}
	end := w.off + int64(len(w.data))
	if int64(len(data)) < end {
		if int64(cap(data)) < end {
			nd := make([]byte, end, end*3/2+64)
			copy(nd, data)
			data = nd
		} else {
			old := len(data)
			data = data[:end]
			for i := old; i < len(data); i++ {
				data[i] = 0
			}
		}
	}
	copy(data[w.off:end], w.data)
	return data
}

func (d *Disk) WriteAt(h *Handle, b []byte, off int64) (int, error) {
	if h.Closed {
		return 0, perr("write", h.Path, fs.ErrClosed)
	}
	if dead(h.Inc) {
		return 0, perr("write", h.Path, syscall.EIO)
	}
	if !h.Write {
		return 0, perr("write", h.Path, syscall.EBADF)
	}
	n := len(b)
	var err error
	if f := FindFault(h.Inc, "write", h.Role); f != nil {
		err = perr("write", h.Path, errnoOf(f.Kind))
		switch f.Kind {
		case "ENOSPC", "short":
			if n > 0 {
				n = f.Arg % n
			}
		default:
			n = 0
		}
		if f.Kind == "short" {
			err = io.ErrShortWrite
		}
	}
	crash, tear := false, 0.0
	if n > 0 {
		crash, tear = d.mutate(h.Inc, "write", h.Path)
		if crash {
			n = int(float64(n) * tear)
			err = perr("write", h.Path, syscall.EIO)
		}
	}
	if n > 0 {
		w := diskWrite{off: off, data: append([]byte(nil), b[:n]...)}
		h.Ino.apply(w)
		h.Ino.log = append(h.Ino.log, w)
		h.Ino.Mtime = time.Now().Add(d.MtimeOffset)
	}
	if crash {
		h.Inc.crash("write of " + h.Role)
	}
	return n, err
}

func (d *Disk) truncate(inc *Incarnation, n *Inode, p string, size int64) error {
	if dead(inc) {
		return perr("truncate", p, syscall.EIO)
	}
	if f := FindFault(inc, "truncate", d.Role(p)); f != nil {
		return perr("truncate", p, errnoOf(f.Kind))
	}
	crash, tear := d.mutate(inc, "truncate", p)
	if !crash || tear >= 0.5 {
		w := diskWrite{off: size, trunc: true}
		n.apply(w)
		n.log = append(n.log, w)
		n.Mtime = time.Now().Add(d.MtimeOffset)
	}
	if crash {
		inc.crash("truncate of " + d.Role(p))
		return perr("truncate", p, syscall.EIO)
	}
	return nil
}

func (d *Disk) Truncate(h *Handle, size int64) error {
	if h.Closed {
		return perr("truncate", h.Path, fs.ErrClosed)
	}
	if !h.Write {
		return perr("truncate", h.Path, syscall.EINVAL)
	}
	return d.truncate(h.Inc, h.Ino, h.Path, size)
}

func (d *Disk) TruncatePath(inc *Incarnation, name string, size int64) error {
	p, n := d.resolve(name)
	if n == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	return d.truncate(inc, n, p, size)
}

func (d *Disk) Sync(h *Handle) error {
	if h.Closed {
		return perr("sync", h.Path, fs.ErrClosed)
	}
	if dead(h.Inc) {
		return perr("sync", h.Path, syscall.EIO)
	}
	if f := FindFault(h.Inc, "sync", h.Role); f != nil {
		if h.Role == "wildcard" { // as in Linux: what could not be written is dropped, and no later sync tells
			r := NewRand(uint64(len(h.Ino.Data))<<8 + uint64(f.Nth))
			h.Ino.syncPages(func() bool { return r.Chance(0.5) })
			h.Ino.dropped = true
		}
		return perr("sync", h.Path, errnoOf(f.Kind))
	}
	if h.Inc != nil {
		h.Inc.mutOps++
		if c := h.Inc.Crash; c != nil && c.MutOp > 0 && h.Inc.mutOps == c.MutOp {
			h.Inc.crash("sync of " + h.Role)
			return perr("sync", h.Path, syscall.EIO)
		}
	}
	d.flushNames()
	if h.Ino.dropped {
		h.Ino.syncPages(func() bool { return true })
	} else {
		h.Ino.durable = append([]byte(nil), h.Ino.Data...)
	}
	h.Ino.log = nil
	W.Probe("sync of " + h.Role)
	return nil
}

// syncPages writes the dirty pages for which keep tells so, and has the others clean as well.
func (n *Inode) syncPages(keep func() bool) {
	const page = 4096
	dirty := map[int]bool{}
	for _, w := range n.log {
		end := w.off + int64(len(w.data))
		if w.trunc {
			end = w.off + 1
		}
		for k := w.off / page; k*page < end; k++ {
			dirty[int(k)] = true
		}
	}
	d := make([]byte, len(n.Data))
	copy(d, n.durable)
	for k := 0; k*page < len(d); k++ {
		if dirty[k] && keep() {
			copy(d[k*page:min(len(d), k*page+page)], n.Data[k*page:])
		}
	}
	n.durable, n.log = d, nil
}

type Info struct {
	Name  string
	Ino   *Inode
	Size  int64
	Mode  fs.FileMode
	Mtime time.Time
	IsDir bool
}

func infoOf(p string, n *Inode) *Info {
	return &Info{Name: path.Base(p), Ino: n, Size: int64(len(n.Data)), Mode: n.Mode, Mtime: n.Mtime, IsDir: n.IsDir}
}

func (d *Disk) Stat(inc *Incarnation, name string) (*Info, error) {
	if dead(inc) {
		return nil, perr("stat", name, syscall.EIO)
	}
	p, n := d.resolve(name)
	if f := FindFault(inc, "stat", d.Role(p)); f != nil {
		return nil, perr("stat", name, errnoOf(f.Kind))
	}
	if name == "" || n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return infoOf(Clean(name), n), nil
}

func (d *Disk) StatHandle(h *Handle) (*Info, error) {
	if h.Closed {
		return nil, perr("stat", h.Path, fs.ErrClosed)
	}
	if dead(h.Inc) {
		return nil, perr("stat", h.Path, syscall.EIO)
	}
	if f := FindFault(h.Inc, "fstat", h.Role); f != nil {
		return nil, perr("stat", h.Path, errnoOf(f.Kind))
	}
	return infoOf(h.Path, h.Ino), nil
}

func (d *Disk) setName(inc *Incarnation, p string, n *Inode) {
	if n == nil {
		delete(d.names, p)
	} else {
		d.names[p] = n
	}
	if inc == nil {
		if n == nil {
			delete(d.durable, p)
		} else {
			d.durable[p] = n
		}
	} else {
		d.nsLog = append(d.nsLog, nsOp{p, n})
	}
}

func (d *Disk) children(p string) []string {
	var l []string
	pre := p + "/"
	if p == "/" {
		pre = "/"
	}
	for q := range d.names {
		if q != p && strings.HasPrefix(q, pre) && !strings.Contains(q[len(pre):], "/") {
			l = append(l, q)
		}
	}
	sort.Strings(l)
	return l
}

func (d *Disk) nsChange(inc *Incarnation, op, p string, f func()) error {
	if dead(inc) {
		return perr(op, p, syscall.EIO)
	}
	if ft := FindFault(inc, op, d.Role(p)); ft != nil {
		return perr(op, p, errnoOf(ft.Kind))
	}
	crash, tear := d.mutate(inc, op, p)
	if !crash || tear >= 0.5 {
		f()
	}
	if crash {
		inc.crash(op + " of " + d.Role(p))
		return perr(op, p, syscall.EIO)
	}
	return nil
}

func (d *Disk) Remove(inc *Incarnation, name string) error {
	p := Clean(name)
	n := d.names[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.IsDir && len(d.children(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	return d.nsChange(inc, "remove", p, func() { d.setName(inc, p, nil) })
}

func (d *Disk) Rename(inc *Incarnation, from, to string) error {
	a, b := Clean(from), Clean(to)
	n := d.names[a]
	if n == nil {
		return perr("rename", from, syscall.ENOENT)
	}
	if W.OnMutate != nil && inc != nil {
		W.OnMutate("rename", a)
	}
	return d.nsChange(inc, "rename", b, func() {
		d.setName(inc, a, nil)
		d.setName(inc, b, n)
	})
}

func (d *Disk) Mkdir(inc *Incarnation, name string) error {
	p := Clean(name)
	if d.names[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if d.names[path.Dir(p)] == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	return d.nsChange(inc, "mkdir", p, func() {
		n := d.newInode()
		n.IsDir = true
		n.Mode = 0755 | fs.ModeDir
		d.setName(inc, p, n)
	})
}

func (d *Disk) Symlink(inc *Incarnation, target, name string) error {
	p := Clean(name)
	if d.names[p] != nil {
		return perr("symlink", name, syscall.EEXIST)
	}
	return d.nsChange(inc, "symlink", p, func() {
		n := d.newInode()
		n.Target = target
		d.setName(inc, p, n)
	})
}

func (d *Disk) Link(inc *Incarnation, from, name string) error {
	_, n := d.resolve(from)
	p := Clean(name)
	if n == nil {
		return perr("link", from, syscall.ENOENT)
	}
	if d.names[p] != nil {
		return perr("link", name, syscall.EEXIST)
	}
	return d.nsChange(inc, "link", p, func() { d.setName(inc, p, n) })
}

func (d *Disk) Chtimes(inc *Incarnation, name string, t time.Time) error {
	p, n := d.resolve(name)
	if n == nil {
		return perr("chtimes", name, syscall.ENOENT)
	}
	return d.nsChange(inc, "chtimes", p, func() { n.Mtime = t })
}

func (d *Disk) Chmod(inc *Incarnation, name string, m fs.FileMode) error {
	p, n := d.resolve(name)
	if n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	return d.nsChange(inc, "chmod", p, func() { n.Mode = n.Mode&fs.ModeDir | m })
}

func (d *Disk) ReadDirNames(inc *Incarnation, name string) ([]*Info, error) {
	if dead(inc) {
		return nil, perr("open", name, syscall.EIO)
	}
	p, n := d.resolve(name)
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.IsDir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var l []*Info
	for _, c := range d.children(p) {
		l = append(l, infoOf(c, d.names[c]))
	}
	return l, nil
}

// PowerLoss replaces the visible state by one the medium may hold: every synced byte, and for each
// file some of the writes since. strategy: "none", "all", "prefix", "suffix", "random", "last".
func (d *Disk) PowerLoss(r *Rand, strategy string) {
	lost, kept := 0, 0
	// Names: the file system journal keeps their order.
	keep := len(d.nsLog)
	switch strategy {
	case "none":
		keep = 0
	case "prefix", "random":
		if r.Chance(0.5) { // otherwise all of them are on the medium
			keep = r.Intn(len(d.nsLog) + 1)
		}
	}
	dense := []float64{0.5, 0.5, 0.8, 0.95}[r.Intn(4)]
	for i, o := range d.nsLog {
		if i < keep {
			if o.ino == nil {
				delete(d.durable, o.path)
			} else {
				d.durable[o.path] = o.ino
			}
		} else {
			lost++
		}
	}
	d.nsLog = nil
	d.names = map[string]*Inode{}
	var ps []string
	for p, n := range d.durable {
		d.names[p] = n
		ps = append(ps, p)
	}
	sort.Strings(ps)
	done := map[*Inode]bool{}
	for _, p := range ps {
		n := d.names[p]
		if done[n] || n.IsDir {
			continue
		}
		done[n] = true
		data := append([]byte(nil), n.durable...)
		cut := r.Intn(len(n.log) + 1)
		hole := r.Intn(len(n.log) + 1)
		for i, w := range n.log {
			k := false
			switch strategy {
			case "all":
				k = true
			case "prefix":
				k = i < cut
			case "suffix":
				k = i >= cut
			case "last":
				k = i == len(n.log)-1
			case "random":
				k = r.Chance(dense)
			case "but-one":
				k = i != hole
			}
			if !k {
				lost++
				continue
			}
			kept++
			if strategy == "random" && !w.trunc && len(w.data) > 512 && r.Chance(0.3) {
				// Torn at sectors: some of the sectors of the write are on the medium.
				for o := 0; o < len(w.data); o += 512 {
					if r.Chance(0.5) {
						e := o + 512
						if e > len(w.data) {
							e = len(w.data)
						}
						data = applyWrite(data, diskWrite{off: w.off + int64(o), data: w.data[o:e]})
					}
				}
				W.FaultsHit["torn sector write at power loss"]++
				continue
			}
			data = applyWrite(data, w)
		}
		n.Data = data
		n.durable = append([]byte(nil), data...)
		n.log, n.dropped = nil, false
	}
	W.FaultsHit[fmt.Sprintf("power loss (%s)", strategy)]++
	if lost > 0 {
		W.FaultsHit["unsynced writes lost"] += lost
	}
	W.Event("power loss %s kept %d lost %d", strategy, kept, lost)
}

// DropHandles forgets the handles of a dead process.
func (d *Disk) DropHandles(inc *Incarnation) {
	var l []*Handle
	for _, h := range d.Handles {
		if h.Inc != inc {
			l = append(l, h)
		}
	}
	d.Handles = l
}
