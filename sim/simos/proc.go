package simos

import (
	"os"
	"syscall"

	"verifsim/sim"
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	DirEntry     = os.DirEntry
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
	Process      = os.Process
	ProcessState = os.ProcessState
	ProcAttr     = os.ProcAttr
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModeDir        = os.ModeDir
	ModeAppend     = os.ModeAppend
	ModeExclusive  = os.ModeExclusive
	ModeTemporary  = os.ModeTemporary
	ModeSymlink    = os.ModeSymlink
	ModeDevice     = os.ModeDevice
	ModeNamedPipe  = os.ModeNamedPipe
	ModeSocket     = os.ModeSocket
	ModeSetuid     = os.ModeSetuid
	ModeSetgid     = os.ModeSetgid
	ModeCharDevice = os.ModeCharDevice
	ModeSticky     = os.ModeSticky
	ModeIrregular  = os.ModeIrregular
	ModeType       = os.ModeType
	ModePerm       = os.ModePerm

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Interrupt = os.Interrupt
	Kill      = os.Kill

	IsExist         = os.IsExist
	IsNotExist      = os.IsNotExist
	IsPermission    = os.IsPermission
	IsTimeout       = os.IsTimeout
	IsPathSeparator = os.IsPathSeparator
	NewSyscallError = os.NewSyscallError
	Expand          = os.Expand

	// Args of the simulated process.
	Args = []string{"prog"}
)

func Exit(code int) {
	sim.Exit(code)
}

// Getenv reads the simulated environment.
func Getenv(k string) string {
	sim.Point()
	return w.Env[k]
}

func LookupEnv(k string) (string, bool) {
	sim.Point()
	v, ok := w.Env[k]
	return v, ok
}
func Setenv(k, v string) error  { w.Env[k] = v; return nil }
func Unsetenv(k string) error   { delete(w.Env, k); return nil }
func Clearenv()                 { w.Env = map[string]string{} }
func ExpandEnv(s string) string { return os.Expand(s, Getenv) }
func Environ() []string {
	var out []string
	for k, v := range w.Env {
		out = append(out, k+"="+v)
	}
	return out
}

func Getwd() (string, error) { return w.Cwd, nil }
func Chdir(d string) error {
	p := w.abs(d)
	if n := w.FS[p]; n == nil || !n.Dir {
		return perr("chdir", d, syscall.ENOENT)
	}
	w.Cwd = p
	return nil
}
func TempDir() string                { return "/tmp" }
func UserHomeDir() (string, error)   { return "/work", nil }
func UserCacheDir() (string, error)  { return "/work/.cache", nil }
func UserConfigDir() (string, error) { return "/work/.config", nil }
func Hostname() (string, error)      { return "sim", nil }
func Executable() (string, error)    { return "/work/prog", nil }
func Getpid() int                    { return 4242 }
func Getppid() int                   { return 1 }
func Getuid() int                    { return 1000 }
func Geteuid() int                   { return 1000 }
func Getgid() int                    { return 1000 }
func Getegid() int                   { return 1000 }
func Getpagesize() int               { return 4096 }
