// Package simfmt stands in for fmt: printing goes to the simulated standard
// streams.
package simfmt

import (
	"fmt"

	"verifsim/simos"
)

type (
	Formatter  = fmt.Formatter
	GoStringer = fmt.GoStringer
	ScanState  = fmt.ScanState
	Scanner    = fmt.Scanner
	State      = fmt.State
	Stringer   = fmt.Stringer
)

func Append(b []byte, a ...any) []byte            { return fmt.Append(b, a...) }
func Appendf(b []byte, f string, a ...any) []byte { return fmt.Appendf(b, f, a...) }
func Appendln(b []byte, a ...any) []byte          { return fmt.Appendln(b, a...) }
func Errorf(f string, a ...any) error             { return fmt.Errorf(f, a...) }
func FormatString(s fmt.State, verb rune) string  { return fmt.FormatString(s, verb) }
func Sprint(a ...any) string                      { return fmt.Sprint(a...) }
func Sprintf(f string, a ...any) string           { return fmt.Sprintf(f, a...) }
func Sprintln(a ...any) string                    { return fmt.Sprintln(a...) }

var (
	Fprint   = fmt.Fprint
	Fprintf  = fmt.Fprintf
	Fprintln = fmt.Fprintln
	Fscan    = fmt.Fscan
	Fscanf   = fmt.Fscanf
	Fscanln  = fmt.Fscanln
	Sscan    = fmt.Sscan
	Sscanf   = fmt.Sscanf
	Sscanln  = fmt.Sscanln
)

func Print(a ...any) (int, error)            { return simos.Stdout.WriteString(fmt.Sprint(a...)) }
func Printf(f string, a ...any) (int, error) { return simos.Stdout.WriteString(fmt.Sprintf(f, a...)) }
func Println(a ...any) (int, error)          { return simos.Stdout.WriteString(fmt.Sprintln(a...)) }
func Scan(a ...any) (int, error)             { return fmt.Fscan(simos.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return fmt.Fscanf(simos.Stdin, f, a...) }
func Scanln(a ...any) (int, error)           { return fmt.Fscanln(simos.Stdin, a...) }
