package core

import (
	"context"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
	"syscall"
	"verifharness/refqr"

	qrcode "github.com/yeqown/go-qrcode/v2"

	"verifsim/sim"
	"verifsim/simos"
)

// Sink is the io.WriteCloser behind a writer.
type Sink struct {
	Spec    SinkSpec
	Buf     []byte
	Writes  int
	Closes  int
	Failed  int // writes refused (wholly or in part)
	Panics  int
	Order   []string
	Late    int // writes after Close
	fired   bool
	ErrText string
	in      func(at string)
}

// inside makes what a destination does with the library itself when it is
// first called.
func (e *env) inside(sp SinkSpec) func(string) {
	ops, met := sp.In, !sp.Meet
	if len(ops) == 0 && met {
		return nil
	}
	return func(at string) {
		if !met && at == "" {
			met = true
			if n := e.client + 1; n > 0 && n < len(e.h.tasks) && e.h.tasks[n] != nil {
				simos.Cur().Fired["write-waits-for-another-client"]++
				sim.Join(e.h.tasks[n])
			}
		}
		if len(ops) > 0 && at == sp.InAt {
			run := ops
			ops = nil
			for _, op := range run {
				e.inner++
				e.run(op, fromCallback+e.inner)
			}
		}
	}
}

// fromCallback is the first number of the operations a callback carries out.
const fromCallback = 1000000

func call(f func(string), at string) {
	if f != nil {
		f(at)
	}
}

func (s *Sink) note(e string) {
	if n := len(s.Order); n > 0 && strings.HasPrefix(s.Order[n-1], e) {
		return
	}
	if len(s.Order) < 64 {
		s.Order = append(s.Order, e)
	}
}

func errText(name string) string { return sinkErr(name).Error() }

// sinkErr makes the error a destination reports: one of its own, or one which
// programs are tempted to treat in a way of its own.
func sinkErr(name string) error {
	if e := knownErrs[name]; e != nil {
		return e
	}
	return sinkError("sink: " + name)
}

var knownErrs = map[string]error{
	"=eof":        io.EOF,
	"=unexpected": io.ErrUnexpectedEOF,
	"=pipe":       io.ErrClosedPipe,
	"=short":      io.ErrShortWrite,
	"=noprogress": io.ErrNoProgress,
	"=closed":     &os.PathError{Op: "write", Path: "sink", Err: os.ErrClosed},
	"=isclosed":   os.ErrClosed,
	"=exist":      os.ErrExist,
	"=notexist":   os.ErrNotExist,
	"=invalid":    os.ErrInvalid,
	"=epipe":      &os.PathError{Op: "write", Path: "sink", Err: syscall.EPIPE},
	"=eagain":     syscall.EAGAIN,
	"=eintr":      syscall.EINTR,
	"=enospc":     syscall.ENOSPC,
	"=deadline":   os.ErrDeadlineExceeded,
	"=canceled":   context.Canceled,
	"=timeout":    context.DeadlineExceeded,
	"=empty":      sinkError(""),
}

func anySinkErr(r *RNG) string {
	if r.P(50) {
		return sinkErrs[r.N(len(sinkErrs))]
	}
	var ks []string
	for k := range knownErrs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks[r.N(len(ks))]
}

type sinkError string

func (e sinkError) Error() string { return string(e) }

func (s *Sink) Write(b []byte) (int, error) {
	sim.Point()
	for i := 0; i < s.Spec.Yield; i++ {
		sim.Gosched()
	}
	call(s.in, "")
	s.Writes++
	if s.Closes > 0 && !s.Spec.NoErrClosed {
		s.Late++
		s.Failed++
		s.note("L")
		return 0, os.ErrClosed
	}
	sp := &s.Spec
	hit, keep := false, 0
	if !(sp.Once && s.fired) {
		if sp.FailNth > 0 && s.Writes >= sp.FailNth {
			hit = true
			if sp.Take {
				keep = len(b) / 2
			}
		} else if sp.FailAt > 0 && int64(len(s.Buf)+len(b)) >= sp.FailAt {
			hit = true
			if sp.Take {
				keep = int(sp.FailAt) - 1 - len(s.Buf)
				if keep < 0 {
					keep = 0
				}
			}
		}
		if hit && sp.Full {
			keep = len(b)
		}
	}
	if !hit {
		s.Buf = append(s.Buf, b...)
		s.note("W")
		return len(b), nil
	}
	s.fired = true
	s.Failed++
	s.Buf = append(s.Buf, b[:keep]...)
	s.note("E")
	kind := "sink-write-error"
	switch {
	case sp.Panic:
		kind = "sink-write-panic"
	case keep == len(b):
		kind = "sink-write-error-after-all-bytes"
	case keep > 0:
		kind = "sink-partial-write"
	}
	simos.Cur().Fired[kind]++
	if sp.Panic {
		s.Panics++
		panic(panicValue(sp.PanicV, "sink panic"))
	}
	return keep, sinkErr(sp.Err)
}

func (s *Sink) Close() error {
	sim.Point()
	call(s.in, "close")
	s.Closes++
	s.note("C")
	if s.Spec.CloseErr != "" {
		simos.Cur().Fired["sink-close-error"]++
		return sinkErr(s.Spec.CloseErr)
	}
	return nil
}

// anyCloseErr is an error of closing, other than that it was closed already
// (which the standard writer takes for done).
func anyCloseErr(r *RNG) string {
	for {
		if e := anySinkErr(r); e != "=closed" && e != "=isclosed" {
			return e
		}
	}
}

type rtPanic string

func (e rtPanic) Error() string { return string(e) }
func (rtPanic) RuntimeError()   {}

type oddPanic struct{ s string }

func (p *oddPanic) String() string { return p.s }

var panicKinds = []string{"", "", "string", "runtime", "closed", "eof", "value"}

// panicValue makes what a panic of the given kind is raised with.
func panicValue(kind, text string) any {
	switch kind {
	case "string":
		return text
	case "runtime":
		return rtPanic(text)
	case "closed":
		return fmt.Errorf("%s: %w", text, os.ErrClosed)
	case "eof":
		return fmt.Errorf("%s: %w", text, io.EOF)
	case "value":
		return &oddPanic{text}
	}
	return sinkError(text)
}

// Rec is a harness writer: it records what it is given.
type Rec struct {
	Spec   SinkSpec
	BM     [][]bool
	Types  [][]uint8
	Bad    string // inconsistency between the views of the matrix
	Writes int
	Closes int
	Order  []string
	in     func(at string)
}

func (r *Rec) Write(mat qrcode.Matrix) error {
	sim.Point()
	call(r.in, "")
	r.Writes++
	r.Order = append(r.Order, "W")
	r.BM = mat.Bitmap()
	if len(r.BM) != mat.Height() || len(r.BM) == 0 || len(r.BM[0]) != mat.Width() {
		r.Bad = "dimensions of Bitmap differ from Width/Height"
		return nil
	}
	r.Types = make([][]uint8, len(r.BM))
	for y := range r.Types {
		r.Types[y] = make([]uint8, len(r.BM[y]))
	}
	n := 0
	type kind struct {
		typ uint8
		set bool
	}
	kinds, printed := map[kind]bool{}, map[string]kind{} // every kind of module has a text of its own
	px, py := -1, 0
	mat.Iterate(qrcode.IterDirection_ROW, func(x, y int, v qrcode.QRValue) {
		if y < py || (y == py && x <= px) {
			r.Bad = "row iteration out of order"
		}
		px, py = x, y
		n++
		call(r.in, "iter")
		r.Types[y][x] = uint8(v.Type())
		k := kind{uint8(v.Type()), v.IsSet()}
		if !kinds[k] {
			kinds[k] = true
			text := v.String()
			if old, ok := printed[text]; ok || text == "" {
				r.Bad = fmt.Sprintf("modules of different kinds print alike: %q is %v and %v", text, k, old)
			}
			printed[text] = k
		}
		if v.IsSet() != r.BM[y][x] {
			r.Bad = fmt.Sprintf("Iterate and Bitmap disagree at %d,%d", x, y)
		}
	})
	px, py = 0, -1
	mat.Iterate(qrcode.IterDirection_COLUMN, func(x, y int, v qrcode.QRValue) {
		if x < px || (x == px && y <= py) {
			r.Bad = "column iteration out of order"
		}
		px, py = x, y
		n++
		if v.IsSet() != r.BM[y][x] {
			r.Bad = fmt.Sprintf("column Iterate and Bitmap disagree at %d,%d", x, y)
		}
	})
	if n != 2*len(r.BM)*len(r.BM[0]) {
		r.Bad = "Iterate does not visit every module once"
	}
	if r.Bad == "" {
		r.Bad = otherViews(mat, r.BM, r.Types)
	}
	if r.Spec.Yield > 0 {
		sim.Gosched()
	}
	if r.Spec.Panic {
		simos.Cur().Fired["writer-panic"]++
		panic(panicValue(r.Spec.PanicV, "writer panic"))
	}
	if r.Spec.Err != "" {
		simos.Cur().Fired["writer-write-error"]++
		return sinkErr(r.Spec.Err)
	}
	return nil
}

// otherViews compares rows, columns and copies with the bitmap.
func otherViews(mat qrcode.Matrix, bm [][]bool, types [][]uint8) string {
	w, h := mat.Width(), mat.Height()
	cp := mat.Copy()
	if cp.Width() != w || cp.Height() != h {
		return "a copy has other dimensions"
	}
	same := func(what string, m *qrcode.Matrix) string {
		for y := 0; y < h; y++ {
			row := m.Row(y)
			if len(row) != w {
				return fmt.Sprintf("%s %d has %d modules", what, y, len(row))
			}
			for x, v := range row {
				if v.IsSet() != bm[y][x] || uint8(v.Type()) != types[y][x] {
					return fmt.Sprintf("%s %d and Iterate disagree at %d: %v", what, y, x, v)
				}
			}
		}
		return ""
	}
	if s := same("row", &mat); s != "" {
		return s
	}
	if s := same("row of the copy", cp); s != "" {
		return s
	}
	for x := 0; x < w; x++ {
		col := mat.Col(x)
		if len(col) != h {
			return fmt.Sprintf("column %d has %d modules", x, len(col))
		}
		for y, v := range col {
			if v.IsSet() != bm[y][x] || uint8(v.Type()) != types[y][x] {
				return fmt.Sprintf("column %d and Iterate disagree at %d: %v", x, y, v)
			}
		}
	}
	if mat.Row(-1) != nil || mat.Row(h) != nil || mat.Col(-1) != nil || mat.Col(w) != nil {
		return "rows or columns outside the symbol are not nil"
	}
	if w != h || (w-17)%4 != 0 || w < 21 || w > 177 {
		return fmt.Sprintf("%dx%d modules", w, h)
	}
	// what each module is for
	want := map[int]uint8{refqr.KFinder: uint8(qrcode.QRType_FINDER), refqr.KSep: uint8(qrcode.QRType_SPLITTER), refqr.KTiming: uint8(qrcode.QRType_TIMING),
		refqr.KDark: uint8(qrcode.QRType_DARK), refqr.KFormat: uint8(qrcode.QRType_FORMAT), refqr.KVersion: uint8(qrcode.QRType_VERSION), refqr.KData: uint8(qrcode.QRType_DATA)}
	l := refqr.LayoutOf((w - 17) / 4)
	for y := range types {
		for x, t := range types[y] {
			if k := int(l.Kind[y][x]); k != refqr.KAlign && t != want[k] {
				return fmt.Sprintf("the type of module %d,%d is %v, want %v", x, y, t, want[k])
			}
		}
	}
	return ""
}

func (r *Rec) Close() error {
	sim.Point()
	call(r.in, "close")
	r.Closes++
	r.Order = append(r.Order, "C")
	if r.Spec.CloseErr != "" {
		simos.Cur().Fired["writer-close-error"]++
		return sinkErr(r.Spec.CloseErr)
	}
	return nil
}

// Pack turns a bitmap into rows of 0 and 1.
func Pack(bm [][]bool) string {
	var b strings.Builder
	for _, row := range bm {
		for _, v := range row {
			if v {
				b.WriteByte('1')
			} else {
				b.WriteByte('0')
			}
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// Unpack is the inverse of Pack.
func Unpack(s string) [][]bool {
	var bm [][]bool
	for _, l := range strings.Split(strings.TrimSpace(s), "\n") {
		row := make([]bool, len(l))
		for i := range l {
			row[i] = l[i] == '1'
		}
		bm = append(bm, row)
	}
	return bm
}
