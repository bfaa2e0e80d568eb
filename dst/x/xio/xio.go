// Package xio stands in for io: pipes block in the simulator.
package xio

import (
	"io"

	"dst/sim"
)

var site = sim.Site("io")

type pipe struct {
	buf  []byte // what the write under way still has to hand over
	busy bool   // a write is under way
	done bool
	rerr error // set by the reading side's close
	werr error // set by the writing side's close
	q    sim.WaitQ
	vc   sim.VC
}

// PipeReader is the reading side.
type PipeReader struct{ p *pipe }

// PipeWriter is the writing side.
type PipeWriter struct{ p *pipe }

// Pipe makes a pipe without a buffer.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (p *pipe) readErr() error {
	if p.werr == nil && p.rerr != nil {
		return io.ErrClosedPipe
	}
	return p.werr
}

func (p *pipe) writeErr() error {
	if p.werr == nil && p.rerr != nil {
		return p.rerr
	}
	return io.ErrClosedPipe
}

func (p *pipe) closed() bool { return p.rerr != nil || p.werr != nil }

// Read takes from the write under way.
func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	for {
		if !sim.SyncPoint(site) {
			return 0, io.ErrClosedPipe
		}
		if p.closed() {
			sim.Acquire(&p.vc)
			return 0, p.readErr()
		}
		if p.busy && !p.done {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			p.done = len(p.buf) == 0
			sim.Acquire(&p.vc)
			sim.Release(&p.vc)
			p.q.WakeAll()
			return n, nil
		}
		p.q.Wait("read from a pipe")
	}
}

// Close closes the reading side.
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

// CloseWithError closes the reading side; writes give the error.
func (r *PipeReader) CloseWithError(err error) error {
	if !sim.SyncPoint(site) {
		return nil
	}
	if err == nil {
		err = io.ErrClosedPipe
	}
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	sim.Release(&r.p.vc)
	r.p.q.WakeAll()
	return nil
}

// Write hands the bytes to readers and waits until they have taken them all.
func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	for {
		if !sim.SyncPoint(site) {
			return 0, io.ErrClosedPipe
		}
		if p.closed() {
			sim.Acquire(&p.vc)
			return 0, p.writeErr()
		}
		if !p.busy {
			break
		}
		p.q.Wait("write to a pipe")
	}
	p.busy, p.done, p.buf = true, false, b
	sim.Release(&p.vc)
	p.q.WakeAll()
	for !p.done && !p.closed() {
		p.q.Wait("write to a pipe")
		if !sim.SyncPoint(site) {
			return 0, io.ErrClosedPipe
		}
	}
	sim.Acquire(&p.vc)
	n := len(b) - len(p.buf)
	done := p.done
	p.busy, p.buf = false, nil
	p.q.WakeAll()
	if !done {
		return n, p.writeErr()
	}
	return n, nil
}

// Close closes the writing side: readers see the end.
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

// CloseWithError closes the writing side; readers give the error.
func (w *PipeWriter) CloseWithError(err error) error {
	if !sim.SyncPoint(site) {
		return nil
	}
	if err == nil {
		err = io.EOF
	}
	if w.p.werr == nil {
		w.p.werr = err
	}
	sim.Release(&w.p.vc)
	w.p.q.WakeAll()
	return nil
}
