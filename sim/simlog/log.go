// Package simlog stands in for package log: its standard logger writes to the
// simulated standard error, without the real logger's lock (which would order
// the program's goroutines as a side effect).
package simlog

import (
	"context"
	"fmt"
	"io"
	"log"
	"log/slog"

	"verifsim/simos"
)

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

// Logger is a simplified log.Logger.
type Logger struct {
	out    io.Writer
	prefix string
	flags  int
}

var std = &Logger{flags: LstdFlags}

func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{out: out, prefix: prefix, flags: flag}
}
func Default() *Logger { return std }

func (l *Logger) emit(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	s = l.prefix + s
	if l.out != nil {
		_, _ = io.WriteString(l.out, s)
		return
	}
	simos.LogLine(s)
}

func (l *Logger) Output(_ int, s string) error { l.emit(s); return nil }
func (l *Logger) Printf(f string, v ...any)    { l.emit(fmt.Sprintf(f, v...)) }
func (l *Logger) Print(v ...any)               { l.emit(fmt.Sprint(v...)) }
func (l *Logger) Println(v ...any)             { l.emit(fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...any)               { l.emit(fmt.Sprint(v...)); simos.Exit(1) }
func (l *Logger) Fatalf(f string, v ...any)    { l.emit(fmt.Sprintf(f, v...)); simos.Exit(1) }
func (l *Logger) Fatalln(v ...any)             { l.emit(fmt.Sprintln(v...)); simos.Exit(1) }
func (l *Logger) Panic(v ...any)               { s := fmt.Sprint(v...); l.emit(s); panic(s) }
func (l *Logger) Panicf(f string, v ...any)    { s := fmt.Sprintf(f, v...); l.emit(s); panic(s) }
func (l *Logger) Panicln(v ...any)             { s := fmt.Sprintln(v...); l.emit(s); panic(s) }
func (l *Logger) SetFlags(f int)               { l.flags = f }
func (l *Logger) Flags() int                   { return l.flags }
func (l *Logger) SetPrefix(p string)           { l.prefix = p }
func (l *Logger) Prefix() string               { return l.prefix }
func (l *Logger) SetOutput(w io.Writer)        { l.out = w }
func (l *Logger) Writer() io.Writer {
	if l.out != nil {
		return l.out
	}
	return simos.Stderr
}

func Output(d int, s string) error { return std.Output(d, s) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Print(v ...any)               { std.Print(v...) }
func Println(v ...any)             { std.Println(v...) }
func Fatal(v ...any)               { std.Fatal(v...) }
func Fatalf(f string, v ...any)    { std.Fatalf(f, v...) }
func Fatalln(v ...any)             { std.Fatalln(v...) }
func Panic(v ...any)               { std.Panic(v...) }
func Panicf(f string, v ...any)    { std.Panicf(f, v...) }
func Panicln(v ...any)             { std.Panicln(v...) }
func SetFlags(f int)               { std.SetFlags(f) }
func Flags() int                   { return std.Flags() }
func SetPrefix(p string)           { std.SetPrefix(p) }
func Prefix() string               { return std.Prefix() }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func Writer() io.Writer            { return std.Writer() }

// slog's default logger writes there as well, without a lock and without times.
type handler struct {
	attrs string
	group string
}

func init() { slog.SetDefault(slog.New(handler{})) }

func (h handler) Enabled(_ context.Context, l slog.Level) bool { return l >= slog.LevelInfo }

func (h handler) Handle(_ context.Context, r slog.Record) error {
	s := r.Level.String() + " " + r.Message + h.attrs
	r.Attrs(func(a slog.Attr) bool {
		s += " " + h.group + a.String()
		return true
	})
	simos.LogLine(s + "\n")
	return nil
}

func (h handler) WithAttrs(as []slog.Attr) slog.Handler {
	for _, a := range as {
		h.attrs += " " + h.group + a.String()
	}
	return h
}

func (h handler) WithGroup(name string) slog.Handler {
	h.group += name + "."
	return h
}
