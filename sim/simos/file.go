package simos

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/sim"
)

func sprintln(a ...any) string { return fmt.Sprintln(a...) }
func sprint(a ...any) string   { return fmt.Sprint(a...) }

// File is an open file of the simulated world.
type File struct {
	name   string
	path   string
	node   *Node
	flag   int
	off    int64
	closed bool
	std    int // 1 stdout, 2 stderr, 3 stdin
	Closes int
	Writes int
	rdir   int
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 3}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 2}
)

func kill(f *Fault) {
	unlock()
	sim.KillGroup(sim.CurGroup())
}

func begin(op string) {
	sim.Point()
	lock()
	w.Ops++
}

// fail checks for an injected fault of a whole operation.
func inject(op, path string) error {
	f, _ := w.match(op, path, 0, 0)
	if f == nil {
		return nil
	}
	err := w.hit(f, op, path)
	if f.Kill {
		w.event("kill at " + op + " " + path)
		kill(f)
	}
	return err
}

// OpenFile opens a file of the simulated world.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	begin("open")
	defer unlock()
	p := w.abs(name)
	w.event(fmt.Sprintf("open %s flag=%#x", p, flag))
	if p == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if err := inject("open", p); err != nil {
		return nil, perr("open", name, err)
	}
	wr := flag&(O_WRONLY|O_RDWR) != 0
	rd := flag&O_WRONLY == 0
	_, n, err := w.resolve(name)
	if err == nil && n != nil && flag&O_CREATE != 0 && flag&O_EXCL != 0 {
		err = syscall.EEXIST
	}
	if err == nil {
		if wr || flag&O_CREATE != 0 {
			err = w.access(name, wr, flag&O_CREATE != 0)
		}
		if err == nil && rd && n != nil {
			err = w.access(name, false, false)
		}
		if err == nil && n == nil && flag&O_CREATE == 0 {
			err = syscall.ENOENT
		}
	} else if err == syscall.EISDIR && flag&O_CREATE == 0 {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	if n == nil {
		if err := inject("create", p); err != nil {
			return nil, perr("open", name, err)
		}
		w.gen++
		n = &Node{Mode: perm & 0777 &^ 022, Gen: w.gen}
		w.FS[p] = n
	} else if flag&O_TRUNC != 0 && wr {
		n.Data = nil
	}
	f := &File{name: name, path: p, node: n, flag: flag}
	w.Open = append(w.Open, f)
	return f, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

// NewHandle opens a file for the harness, outside fault injection.
func NewHandle(name string) *File {
	lock()
	defer unlock()
	p := w.abs(name)
	n := w.FS[p]
	if n == nil {
		n = &Node{Mode: 0644}
		w.FS[p] = n
	}
	f := &File{name: name, path: p, node: n, flag: O_RDWR}
	w.Open = append(w.Open, f)
	return f
}

// IsClosed reports whether the handle was closed.
func (f *File) IsClosed() bool { return f.closed }

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.std != 0 {
		return uintptr([]int{0, 1, 2, 0}[f.std])
	}
	return 100
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std == 1 || f.std == 2 {
		if len(w.Faults) == 0 {
			outLine(string(b))
			return len(b), nil
		}
	}
	begin("write")
	defer unlock()
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std == 0 && f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	f.Writes++
	if f.std != 0 {
		if err := inject("write", f.name); err != nil {
			return 0, perr("write", f.name, err)
		}
		outLine(string(b))
		return len(b), nil
	}
	if f.flag&O_APPEND != 0 {
		f.off = int64(len(f.node.Data))
	}
	n := int64(len(b))
	flt, k := w.match("write", f.path, f.off, f.off+n)
	if flt != nil {
		if k < n {
			n = k
		}
	}
	f.put(b[:n], f.off)
	f.off += n
	if flt != nil {
		err := w.hit(flt, "write", f.path)
		w.event(fmt.Sprintf("write %s: %d of %d bytes, then %v", f.path, n, len(b), err))
		if flt.Kill {
			kill(flt)
		}
		return int(n), perr("write", f.name, err)
	}
	return int(n), nil
}

func (f *File) put(b []byte, at int64) {
	end := at + int64(len(b))
	if int64(len(f.node.Data)) < end {
		if int64(cap(f.node.Data)) >= end {
			f.node.Data = f.node.Data[:end]
		} else {
			nd := make([]byte, end, end*2)
			copy(nd, f.node.Data)
			f.node.Data = nd
		}
	}
	copy(f.node.Data[at:end], b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	old := f.off
	f.off = off
	n, err := f.Write(b)
	f.off = old
	return n, err
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	begin("read")
	defer unlock()
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	if f.node.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&(O_WRONLY|O_RDWR) == O_WRONLY {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	avail := int64(len(f.node.Data)) - f.off
	if avail < 0 {
		avail = 0
	}
	n := int64(len(b))
	if n > avail {
		n = avail
	}
	if flt, k := w.match("read", f.path, f.off, f.off+int64(len(b))); flt != nil {
		if k > 0 && k < n {
			// what precedes the bad spot is still delivered
			copy(b, f.node.Data[f.off:f.off+k])
			f.off += k
			return int(k), nil
		}
		if k == 0 {
			err := w.hit(flt, "read", f.path)
			w.event(fmt.Sprintf("read %s at %d: %v", f.path, f.off, err))
			if flt.Kill {
				kill(flt)
			}
			return 0, perr("read", f.name, err)
		}
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	copy(b, f.node.Data[f.off:f.off+n])
	f.off += n
	return int(n), nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	old := f.off
	f.off = off
	n, err := io.ReadFull(struct{ io.Reader }{f}, b)
	f.off = old
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(wr io.Writer) (int64, error) {
	return io.Copy(wr, struct{ io.Reader }{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.node.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	f.rdir = 0
	return off, nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	begin("close")
	defer unlock()
	f.Closes++
	w.event("close " + f.path)
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	if err := inject("close", f.path); err != nil {
		return perr("close", f.name, err)
	}
	return nil
}

func (f *File) Sync() error {
	begin("sync")
	defer unlock()
	if err := f.check("sync"); err != nil {
		return err
	}
	if err := inject("sync", f.path); err != nil {
		return perr("sync", f.name, err)
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	begin("truncate")
	defer unlock()
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := inject("truncate", f.path); err != nil {
		return perr("truncate", f.name, err)
	}
	f.node.resize(size)
	return nil
}

func (n *Node) resize(size int64) {
	if size <= int64(len(n.Data)) {
		n.Data = n.Data[:size:size]
		return
	}
	n.Data = append(n.Data, make([]byte, size-int64(len(n.Data)))...)
}

func (f *File) Chmod(m FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	f.node.Mode = m & 0777
	return nil
}
func (f *File) Chown(uid, gid int) error         { return f.check("chown") }
func (f *File) Chdir() error                     { return f.check("chdir") }
func (f *File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) {
	return nil, os.ErrInvalid
}

func (f *File) Stat() (FileInfo, error) {
	begin("stat")
	defer unlock()
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return info{name: f.name, n: &Node{Mode: 0620 | fs.ModeCharDevice | fs.ModeDevice}}, nil
	}
	return info{name: filepath.Base(f.path), n: f.node}, nil
}

type info struct {
	name string
	n    *Node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() FileMode {
	if i.n.Dir {
		return i.n.Mode | fs.ModeDir
	}
	return i.n.Mode
}
func (i info) ModTime() time.Time         { return time.Unix(1700000000, 0) }
func (i info) IsDir() bool                { return i.n.Dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func Stat(name string) (FileInfo, error) {
	begin("stat")
	defer unlock()
	p := w.abs(name)
	if err := inject("stat", p); err != nil {
		return nil, perr("stat", name, err)
	}
	_, n, err := w.resolve(name)
	if err == nil && n == nil || err == syscall.EISDIR {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return info{name: filepath.Base(p), n: n}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func (w *World) children(p string) []string {
	pre := p + "/"
	if p == "/" {
		pre = "/"
	}
	var out []string
	for q := range w.FS {
		if q != p && strings.HasPrefix(q, pre) && !strings.Contains(q[len(pre):], "/") {
			out = append(out, q)
		}
	}
	sort.Strings(out)
	return out
}

func Remove(name string) error {
	begin("remove")
	defer unlock()
	p := w.abs(name)
	w.event("remove " + p)
	if err := inject("remove", p); err != nil {
		return perr("remove", name, err)
	}
	_, n, err := w.resolve(name)
	if err == nil && n == nil || err == syscall.EISDIR {
		err = syscall.ENOENT
	}
	if err == nil && w.FS[filepath.Dir(p)].Mode&0200 == 0 {
		err = syscall.EACCES
	}
	if err != nil {
		return perr("remove", name, err)
	}
	if n.Dir && len(w.children(p)) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(w.FS, p)
	return nil
}

func RemoveAll(name string) error {
	begin("remove")
	defer unlock()
	p := w.abs(name)
	w.event("removeall " + p)
	for q := range w.FS {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(w.FS, q)
		}
	}
	return nil
}

func Rename(a, b string) error {
	begin("rename")
	defer unlock()
	pa, pb := w.abs(a), w.abs(b)
	w.event("rename " + pa + " " + pb)
	if err := inject("rename", pb); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	_, n, err := w.resolve(a)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	var t *Node
	if err == nil {
		_, t, err = w.resolve(b)
	}
	if err == nil && (w.FS[filepath.Dir(pa)].Mode&0200 == 0 || w.FS[filepath.Dir(pb)].Mode&0200 == 0) {
		err = syscall.EACCES
	}
	if err == nil && t != nil && t.Dir != n.Dir {
		err = syscall.EISDIR
	}
	if err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	if pa != pb {
		w.FS[pb] = n
		delete(w.FS, pa)
	}
	return nil
}

func Mkdir(name string, perm FileMode) error {
	begin("mkdir")
	defer unlock()
	p := w.abs(name)
	if err := inject("mkdir", p); err != nil {
		return perr("mkdir", name, err)
	}
	_, n, err := w.resolve(name)
	if err == nil && n != nil {
		err = syscall.EEXIST
	}
	if err == nil && w.FS[filepath.Dir(p)].Mode&0200 == 0 {
		err = syscall.EACCES
	}
	if err != nil && err != syscall.EISDIR {
		return perr("mkdir", name, err)
	}
	w.FS[p] = &Node{Dir: true, Mode: perm & 0777}
	return nil
}

func MkdirAll(name string, perm FileMode) error {
	p := w.abs(name)
	if n := w.FS[p]; n != nil {
		if n.Dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := filepath.Dir(p); d != p {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	return Mkdir(name, perm)
}

func Truncate(name string, size int64) error {
	begin("truncate")
	defer unlock()
	p := w.abs(name)
	if err := inject("truncate", p); err != nil {
		return perr("truncate", name, err)
	}
	_, n, err := w.resolve(name)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil {
		err = w.access(name, true, false)
	}
	if err != nil {
		return perr("truncate", name, err)
	}
	n.resize(size)
	return nil
}

func Chmod(name string, m FileMode) error {
	begin("chmod")
	defer unlock()
	n := w.FS[w.abs(name)]
	if n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	if err := inject("chmod", w.abs(name)); err != nil {
		return perr("chmod", name, err)
	}
	n.Mode = m & 0777
	return nil
}

func ReadDir(name string) ([]DirEntry, error) {
	begin("readdir")
	defer unlock()
	p := w.abs(name)
	n := w.FS[p]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var out []DirEntry
	for _, c := range w.children(p) {
		out = append(out, info{name: filepath.Base(c), n: w.FS[c]})
	}
	return out, nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	all, err := ReadDir(f.path)
	if err != nil {
		return nil, err
	}
	all = all[min(f.rdir, len(all)):]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		if len(all) > n {
			all = all[:n]
		}
	}
	f.rdir += len(all)
	return all, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	w.gen++
	return filepath.Join(dir, fmt.Sprintf("%s%06d%s", pre, 100000+w.gen, suf))
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

func Link(a, b string) error {
	begin("link")
	defer unlock()
	n := w.FS[w.abs(a)]
	if n == nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
	}
	if w.FS[w.abs(b)] != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	}
	w.FS[w.abs(b)] = n
	return nil
}
func Symlink(a, b string) error {
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Readlink(name string) (string, error)       { return "", perr("readlink", name, syscall.EINVAL) }
func Chtimes(string, time.Time, time.Time) error { return nil }
func Chown(string, int, int) error               { return nil }
func Lchown(string, int, int) error              { return nil }

func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(filepath.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}

func DirFS(dir string) fs.FS { return dirFS(dir) }
