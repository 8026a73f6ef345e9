// Package simos stands in for package os: an in-memory file system, standard
// streams, environment and process state owned by the simulated world, with
// fault injection at every operation.
package simos

import (
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"verifsim/sim"
)

// Fault makes a matching file operation fail.
type Fault struct {
	Op    string `json:"op"`              // open, create, read, write, close, stat, sync, remove, rename, mkdir, chmod, truncate, readdir
	Path  string `json:"path,omitempty"`  // "" matches every path
	Nth   int    `json:"nth,omitempty"`   // 1: the first matching operation; 0: by offset only
	At    int64  `json:"at,omitempty"`    // read/write: fails when this offset of the file is reached
	Err   string `json:"err,omitempty"`   // errno name
	Times int    `json:"times,omitempty"` // how often it fires; 0: for ever
	Kill  bool   `json:"kill,omitempty"`  // the process is killed there instead

	seen, fired int
}

// Node is a file or directory.
type Node struct {
	Data []byte
	Mode fs.FileMode
	Dir  bool
	Gen  int
}

// World is the state of the simulated machine during one run.
type World struct {
	FS      map[string]*Node
	Cwd     string
	Env     map[string]string
	Faults  []*Fault
	Fired   map[string]int // fault kind -> count
	Refused map[string]int // operation and path -> injected failures
	Open    []*File        // every handle opened during the run
	Events  []string
	Ops     int
	gen     int
	nLog    int
	logs    [2048]string
	nOut    int
	outs    [2048]string
	LogHook int
}

var w = newWorld()
var hb uint64

func newWorld() *World {
	cwd := "/work"
	return &World{
		FS:      map[string]*Node{"/": {Dir: true, Mode: 0755}, "/work": {Dir: true, Mode: 0755}, "/tmp": {Dir: true, Mode: 0777}},
		Cwd:     cwd,
		Env:     map[string]string{},
		Fired:   map[string]int{},
		Refused: map[string]int{},
	}
}

// Reset starts a fresh world.
func Reset() *World {
	w = newWorld()
	Args = []string{"prog"}
	return w
}

// Cur is the current world.
func Cur() *World { return w }

// SetFile puts a file into the world.
func (w *World) SetFile(path string, data []byte) {
	w.gen++
	w.FS[w.abs(path)] = &Node{Data: append([]byte(nil), data...), Mode: 0644, Gen: w.gen}
}

// Restrict takes away permissions of a file or directory.
func (w *World) Restrict(path string, mode fs.FileMode) {
	if n := w.FS[w.abs(path)]; n != nil {
		n.Mode = mode
	}
}

// resolve looks a path up like the kernel does, without symbolic links, for a
// process without privileges. A missing last component is no error.
func (w *World) resolve(name string) (string, *Node, error) {
	if name == "" {
		return "", nil, syscall.ENOENT
	}
	if strings.IndexByte(name, 0) >= 0 {
		return "", nil, syscall.EINVAL
	}
	full := name
	if !strings.HasPrefix(full, "/") {
		full = w.Cwd + "/" + full
	}
	if len(full) >= 4096 {
		return "", nil, syscall.ENAMETOOLONG
	}
	cur, n := "/", w.FS["/"]
	comps := strings.Split(full, "/")
	for i, c := range comps {
		if c == "" && i < len(comps)-1 {
			continue
		}
		if n == nil {
			return "", nil, syscall.ENOENT
		}
		if !n.Dir {
			return "", nil, syscall.ENOTDIR
		}
		if n.Mode&0100 == 0 {
			return "", nil, syscall.EACCES
		}
		switch {
		case len(c) > 255:
			return "", nil, syscall.ENAMETOOLONG
		case c == "":
			// a trailing slash: a directory
			return cur, n, nil
		case c == ".":
		case c == "..":
			cur = filepath.Dir(cur)
		case cur == "/":
			cur += c
		default:
			cur += "/" + c
		}
		n = w.FS[cur]
		if n == nil && i == len(comps)-2 && comps[i+1] == "" {
			return cur, nil, syscall.EISDIR // "new/" names no file
		}
	}
	return cur, n, nil
}

// Openable tells whether a path can be opened for writing, and created if it
// does not exist.
func (w *World) Openable(name string) bool { return w.access(name, true, true) == nil }

// Readable tells whether a file can be opened for reading.
func (w *World) Readable(name string) bool {
	return w.access(name, false, false) == nil
}

func (w *World) access(name string, wr, create bool) error {
	p, n, err := w.resolve(name)
	if err != nil {
		if err == syscall.EISDIR && !create {
			return syscall.ENOENT
		}
		return err
	}
	if n == nil {
		if !create {
			return syscall.ENOENT
		}
		d := w.FS[filepath.Dir(p)]
		if d.Mode&0200 == 0 {
			return syscall.EACCES
		}
		return nil
	}
	if n.Dir && (wr || create) {
		return syscall.EISDIR
	}
	if wr && n.Mode&0200 == 0 || !wr && n.Mode&0400 == 0 {
		return syscall.EACCES
	}
	return nil
}

// Freeze copies what a world's files are, without their content.
func (w *World) Freeze() *World {
	c := &World{FS: map[string]*Node{}, Cwd: w.Cwd}
	for p, n := range w.FS {
		c.FS[p] = &Node{Mode: n.Mode, Dir: n.Dir}
	}
	return c
}

// Mkdir puts a directory into the world.
func (w *World) Mkdir(path string) { w.FS[w.abs(path)] = &Node{Dir: true, Mode: 0755} }

// GetFile reads a file of the world.
func (w *World) GetFile(path string) ([]byte, bool) {
	lock()
	defer unlock()
	n := w.FS[w.abs(path)]
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Snapshot lists all files with their content.
func (w *World) Snapshot() map[string]string {
	m := map[string]string{}
	for p, n := range w.FS {
		if n.Dir {
			m[p+"/"] = ""
		} else {
			m[p] = string(n.Data)
		}
	}
	return m
}

// Logs returns the log lines so far.
func (w *World) Logs() []string { return w.logs[:w.nLog] }

// Outs returns what was printed to standard output and error.
func (w *World) Outs() []string { return w.outs[:w.nOut] }

// OpenHandles lists handles not closed yet.
func (w *World) OpenHandles() []string {
	var out []string
	for _, f := range w.Open {
		if !f.closed {
			out = append(out, f.name)
		}
	}
	sort.Strings(out)
	return out
}

func (w *World) abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = w.Cwd + "/" + p
	}
	return filepath.Clean(p)
}

//go:norace
func lock() { sim.RaceAcquire(unsafe.Pointer(&hb)) }

//go:norace
func unlock() { sim.RaceReleaseMerge(unsafe.Pointer(&hb)) }

// LogLine records one line of the standard logger.
//
//go:norace
func LogLine(s string) {
	sim.Point()
	if w.nLog < len(w.logs) {
		w.logs[w.nLog] = s
		w.nLog++
	}
}

//go:norace
func outLine(s string) {
	sim.Point()
	if w.nOut < len(w.outs) {
		w.outs[w.nOut] = s
		w.nOut++
	}
}

// Println stands in for the builtin.
func Println(a ...any) { outLine(sprintln(a...)) }

// Print stands in for the builtin.
func Print(a ...any) { outLine(sprint(a...)) }

func errno(name string) error {
	switch name {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EIO":
		return syscall.EIO
	case "EACCES":
		return syscall.EACCES
	case "EMFILE":
		return syscall.EMFILE
	case "EDQUOT":
		return syscall.EDQUOT
	case "EROFS":
		return syscall.EROFS
	case "ENOENT":
		return syscall.ENOENT
	case "EPIPE":
		return syscall.EPIPE
	case "EINTR":
		return syscall.EINTR
	case "EAGAIN":
		return syscall.EAGAIN
	case "EBADF":
		return syscall.EBADF
	case "ENAMETOOLONG":
		return syscall.ENAMETOOLONG
	case "EISDIR":
		return syscall.EISDIR
	case "ENOTDIR":
		return syscall.ENOTDIR
	case "EPERM":
		return syscall.EPERM
	case "ELOOP":
		return syscall.ELOOP
	}
	return syscall.EIO
}

// Errno exposes the fault names to the harness.
func Errno(name string) error { return errno(name) }

func (w *World) event(s string) {
	if len(w.Events) < 400 {
		w.Events = append(w.Events, s)
	}
}

// match finds the fault that hits this operation; from/to are the file offsets
// a read or write covers. It returns the fault and the number of bytes that get
// through before it.
func (w *World) match(op, path string, from, to int64) (*Fault, int64) {
	for _, f := range w.Faults {
		if f.Op != op || (f.Path != "" && w.abs(f.Path) != path) {
			continue
		}
		if f.Times > 0 && f.fired >= f.Times {
			continue
		}
		f.seen++
		if f.Nth > 0 && f.seen < f.Nth {
			continue
		}
		if f.Nth > 0 && f.Times == 0 && f.seen >= f.Nth {
			return f, 0
		}
		if f.Nth > 0 && f.seen >= f.Nth {
			return f, 0
		}
		if f.Nth == 0 {
			if op == "read" || op == "write" {
				if to > f.At {
					k := f.At - from
					if k < 0 {
						k = 0
					}
					return f, k
				}
				continue
			}
			return f, 0
		}
	}
	return nil, 0
}

func (w *World) hit(f *Fault, op, path string) error {
	f.fired++
	w.Refused[op+" "+path]++
	kind := op + "-" + f.Err
	if f.Kill {
		kind = op + "-kill"
	}
	w.Fired[kind]++
	return errno(f.Err)
}

func perr(op, path string, err error) error { return &os.PathError{Op: op, Path: path, Err: err} }

// AddFaults places more faults.
func (w *World) AddFaults(f []*Fault) {
	if len(f) == 0 {
		return
	}
	lock()
	defer unlock()
	w.Faults = append(w.Faults, f...)
}

// Note counts a fault which is no matter of the file system.
func (w *World) Note(kind string) {
	lock()
	defer unlock()
	w.Fired[kind]++
}

// RefusedOn counts injected failures of the operations on a path.
func (w *World) RefusedOn(path string, ops ...string) int {
	lock()
	defer unlock()
	n := 0
	for _, op := range ops {
		n += w.Refused[op+" "+w.abs(path)]
	}
	return n
}

// Abs is the absolute form of a path.
func (w *World) Abs(p string) string { return w.abs(p) }
