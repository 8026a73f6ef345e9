// Package simio stands in for package io where it blocks: pipes. The other
// types are the real ones, and other functions are used from package io itself.
package simio

import (
	"io"
	"unsafe"

	"verifsim/sim"
)

type (
	ByteReader      = io.ByteReader
	ByteScanner     = io.ByteScanner
	ByteWriter      = io.ByteWriter
	Closer          = io.Closer
	LimitedReader   = io.LimitedReader
	OffsetWriter    = io.OffsetWriter
	ReadCloser      = io.ReadCloser
	ReadSeekCloser  = io.ReadSeekCloser
	ReadSeeker      = io.ReadSeeker
	ReadWriteCloser = io.ReadWriteCloser
	ReadWriteSeeker = io.ReadWriteSeeker
	ReadWriter      = io.ReadWriter
	Reader          = io.Reader
	ReaderAt        = io.ReaderAt
	ReaderFrom      = io.ReaderFrom
	RuneReader      = io.RuneReader
	RuneScanner     = io.RuneScanner
	SectionReader   = io.SectionReader
	Seeker          = io.Seeker
	StringWriter    = io.StringWriter
	WriteCloser     = io.WriteCloser
	WriteSeeker     = io.WriteSeeker
	Writer          = io.Writer
	WriterAt        = io.WriterAt
	WriterTo        = io.WriterTo
)

type chunk struct{ data []byte }

type pipe struct {
	cur        *chunk // what a writer waits to get rid of
	rerr, werr error
	hb         uint64
}

func (p *pipe) p() unsafe.Pointer { return unsafe.Pointer(&p.hb) }
func (p *pipe) wake() {
	sim.RaceReleaseMerge(p.p())
	sim.Wake(p.p())
}

// PipeReader is the reading end.
type PipeReader struct{ p *pipe }

// PipeWriter is the writing end.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

//go:norace
func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	sim.Point()
	for {
		switch {
		case p.rerr != nil:
			return 0, io.ErrClosedPipe
		case p.cur != nil:
			sim.RaceAcquire(p.p())
			n := copy(b, p.cur.data)
			if p.cur.data = p.cur.data[n:]; len(p.cur.data) == 0 {
				p.cur = nil
			}
			p.wake()
			return n, nil
		case p.werr != nil:
			sim.RaceAcquire(p.p())
			return 0, p.werr
		}
		sim.Block("pipe read", p.p())
	}
}

//go:norace
func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	sim.Point()
	for p.cur != nil && p.rerr == nil && p.werr == nil {
		sim.Block("pipe write", p.p())
	}
	if e := p.closed(); e != nil {
		return 0, e
	}
	c := &chunk{b}
	p.cur = c
	p.wake()
	for p.cur == c {
		if e := p.closed(); e != nil {
			n := len(b) - len(c.data)
			p.cur = nil
			p.wake()
			return n, e
		}
		sim.Block("pipe write", p.p())
	}
	sim.RaceAcquire(p.p())
	return len(b), nil
}

//go:norace
func (p *pipe) closed() error {
	switch {
	case p.rerr != nil:
		return p.rerr
	case p.werr != nil:
		return io.ErrClosedPipe
	}
	return nil
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

//go:norace
func (r *PipeReader) CloseWithError(err error) error {
	sim.Point()
	if err == nil {
		err = io.ErrClosedPipe
	}
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.wake()
	return nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

//go:norace
func (w *PipeWriter) CloseWithError(err error) error {
	sim.Point()
	if err == nil {
		err = io.EOF
	}
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.wake()
	return nil
}
