// Package sos is the simulated disk and the process-exit call of package os.
package sos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"gRedis/verifsim/sim"
)

// FS is the simulated file system of a run; it survives simulated process crashes.
type FS struct {
	nodes map[string]*node
	// Faults are decided by the plan.
	Faults []*Fault
	Writes map[string]int // write calls per file
	Reads  map[string]int
	Opens  map[string]int
	Stdout []byte
	OutErr error
}

type node struct {
	dir  bool
	data []byte
	mode os.FileMode
	// log of successful appends, for the oracle
}

// Fault makes operations on a path fail: those with index in [From, To) of that kind on that path.
type Fault struct {
	Op    string `json:"op"` // "write", "read", "open", "mkdir", "stat", "shortread"
	Path  string `json:"path"`
	From  int    `json:"from"`
	To    int    `json:"to"`
	Err   string `json:"err"`            // ENOSPC, EIO, EDQUOT, EINTR, EMFILE, EACCES, ENOENT
	Keep  int    `json:"keep,omitempty"` // bytes written (or read) before the failure
	Fired int    `json:"-"`
}

func F() *FS {
	if sim.S == nil {
		return &FS{nodes: map[string]*node{"/": {dir: true}, ".": {dir: true}}, Writes: map[string]int{}, Reads: map[string]int{}, Opens: map[string]int{}}
	}
	if sim.S.FsState == nil {
		sim.S.FsState = &FS{nodes: map[string]*node{"/": {dir: true}, ".": {dir: true}, "/tmp": {dir: true}, "/var": {dir: true}, "/var/log": {dir: true}},
			Writes: map[string]int{}, Reads: map[string]int{}, Opens: map[string]int{}}
	}
	return sim.S.FsState.(*FS)
}

var errnos = map[string]error{"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EDQUOT": syscall.EDQUOT, "EINTR": syscall.EINTR,
	"EMFILE": syscall.EMFILE, "EACCES": syscall.EACCES, "ENOENT": syscall.ENOENT, "EROFS": syscall.EROFS, "ENOTDIR": syscall.ENOTDIR}

func (f *FS) fault(op, p string, idx int) *Fault {
	for _, x := range f.Faults {
		if x.Op == op && x.Path == p && idx >= x.From && idx < x.To {
			x.Fired++
			sim.Probe("fault:disk-" + op + "-" + x.Err)
			return x
		}
	}
	return nil
}

// Put and Get are for the harness.
func (f *FS) Put(p string, data []byte) {
	f.nodes[path.Clean(p)] = &node{data: append([]byte(nil), data...)}
}
func (f *FS) MkdirRaw(p string) { f.nodes[path.Clean(p)] = &node{dir: true} }
func (f *FS) Get(p string) ([]byte, bool) {
	n := f.nodes[path.Clean(p)]
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}
func (f *FS) Files() []string {
	var r []string
	for p, n := range f.nodes {
		if !n.dir {
			r = append(r, p)
		}
	}
	sortStrings(r)
	return r
}
func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

type File struct {
	fs     *FS
	path   string
	name   string
	n      *node
	off    int64
	flag   int
	closed bool
	std    int
	di     int
}

var (
	Stdout = &File{std: 1, name: "/dev/stdout"}
	Stderr = &File{std: 2, name: "/dev/stderr"}
	Stdin  = &File{std: 3, name: "/dev/stdin"}
)

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	sim.YS()
	f := F()
	p := path.Clean(name)
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	i := f.Opens[p]
	f.Opens[p]++
	if x := f.fault("open", p, i); x != nil {
		return nil, perr("open", name, errnos[x.Err])
	}
	n := f.nodes[p]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := f.nodes[path.Dir(p)]
		if d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = &node{mode: perm}
		f.nodes[p] = n
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	return &File{fs: f, path: p, name: name, n: n, flag: flag}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 1000 }
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	return nil
}
func (f *File) Sync() error { return nil }

// Write has no scheduling point inside: the standard logger calls it while holding its own (real) mutex.
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if sim.Dying() {
		return len(b), nil
	}
	if f.std != 0 {
		if sim.S != nil {
			x := F()
			if len(x.Stdout) < 1<<20 {
				x.Stdout = append(x.Stdout, b...)
			}
			i := x.Writes["stdout"]
			x.Writes["stdout"]++
			if ft := x.fault("write", "stdout", i); ft != nil {
				return 0, perr("write", f.name, errnos[ft.Err])
			}
		}
		return len(b), nil
	}
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	i := f.fs.Writes[f.path]
	f.fs.Writes[f.path]++
	var err error
	if x := f.fs.fault("write", f.path, i); x != nil {
		k := x.Keep
		if k > len(b) {
			k = len(b)
		}
		b = b[:k]
		err = perr("write", f.name, errnos[x.Err])
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	f.put(b, f.off)
	f.off += int64(len(b))
	return len(b), err
}
func (f *File) put(b []byte, off int64) {
	for int64(len(f.n.data)) < off {
		f.n.data = append(f.n.data, 0)
	}
	k := copy(f.n.data[off:], b)
	f.n.data = append(f.n.data, b[k:]...)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	f.put(b, off)
	return len(b), nil
}
func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if sim.Dying() || f.std != 0 {
		return 0, io.EOF
	}
	if f.closed {
		return 0, perr("read", f.name, os.ErrClosed)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	i := f.fs.Reads[f.path]
	f.fs.Reads[f.path]++
	if len(b) == 0 {
		return 0, nil
	}
	lim := len(b)
	for _, x := range f.fs.Faults {
		if x.Path != f.path {
			continue
		}
		switch x.Op {
		case "read": // fails when the offset reaches Keep
			if f.off >= int64(x.Keep) {
				if i < x.To || x.To == 0 {
					x.Fired++
					sim.Probe("fault:disk-read-" + x.Err)
					return 0, perr("read", f.name, errnos[x.Err])
				}
			} else if int64(lim) > int64(x.Keep)-f.off {
				lim = int(int64(x.Keep) - f.off)
			}
		case "shortread":
			if lim > x.Keep && x.Keep > 0 {
				lim = x.Keep
				x.Fired++
				sim.Probe("fault:disk-shortread")
			}
		}
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b[:lim], f.n.data[f.off:])
	f.off += int64(n)
	return n, nil
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekStart:
		f.off = off
	case io.SeekCurrent:
		f.off += off
	case io.SeekEnd:
		f.off = int64(len(f.n.data)) + off
	}
	return f.off, nil
}
func (f *File) Truncate(n int64) error {
	for int64(len(f.n.data)) < n {
		f.n.data = append(f.n.data, 0)
	}
	f.n.data = f.n.data[:n]
	return nil
}
func (f *File) Chmod(os.FileMode) error    { return nil }
func (f *File) Stat() (os.FileInfo, error) { return info{path.Base(f.path), f.n}, nil }

type info struct {
	name string
	n    *node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.data)) }
func (i info) Mode() os.FileMode {
	if i.n.dir {
		return os.ModeDir | 0755
	}
	return i.n.mode
}
func (i info) ModTime() time.Time { return time.Unix(0, sim.Epoch) }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }

func Stat(name string) (os.FileInfo, error) {
	sim.YS()
	f := F()
	p := path.Clean(name)
	if name == "" {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	i := f.Opens["stat:"+p]
	f.Opens["stat:"+p]++
	if x := f.fault("stat", p, i); x != nil {
		return nil, perr("stat", name, errnos[x.Err])
	}
	n := f.nodes[p]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{path.Base(p), n}, nil
}
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm os.FileMode) error {
	sim.YS()
	f := F()
	p := path.Clean(name)
	i := f.Opens["mkdir:"+p]
	f.Opens["mkdir:"+p]++
	if x := f.fault("mkdir", p, i); x != nil {
		return perr("mkdir", name, errnos[x.Err])
	}
	if name == "" {
		return perr("mkdir", name, syscall.ENOENT)
	}
	if f.nodes[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	d := f.nodes[path.Dir(p)]
	if d == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	if !d.dir {
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	f.nodes[p] = &node{dir: true}
	return nil
}
func MkdirAll(name string, perm os.FileMode) error {
	f := F()
	p := path.Clean(name)
	if n := f.nodes[p]; n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(p); d != p {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(name, perm)
	if errors.Is(err, os.ErrExist) {
		return nil
	}
	return err
}
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	f.Close()
	return err
}
func Remove(name string) error {
	sim.YS()
	f := F()
	p := path.Clean(name)
	if f.nodes[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(f.nodes, p)
	return nil
}
func RemoveAll(name string) error {
	f := F()
	p := path.Clean(name)
	for k := range f.nodes {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(f.nodes, k)
		}
	}
	return nil
}
func Rename(a, b string) error {
	sim.YS()
	f := F()
	p, q := path.Clean(a), path.Clean(b)
	n := f.nodes[p]
	if n == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	delete(f.nodes, p)
	f.nodes[q] = n
	return nil
}
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	return f.Truncate(n)
}
func Exit(code int) {
	sim.YS()
	sim.Exit(code)
}
