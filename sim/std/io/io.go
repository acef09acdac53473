// Package io replaces the standard package in instrumented code: pipes block in
// the simulator, everything else is the standard package's.
package io

import (
	"io"

	"vsim/rt"
	"vsim/std/sync"
)

type pipe struct {
	wmu  sync.Mutex // one write at a time
	mu   sync.Mutex
	cond *sync.Cond
	data []byte
	open bool // a write is under way
	rerr error
	werr error
}

// PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

// PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

// Pipe creates a synchronous in-memory pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = sync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rerr != nil {
			return 0, io.ErrClosedPipe
		}
		if p.open {
			n := copy(b, p.data)
			rt.WrRange(b, n, "io.PipeReader.Read")
			p.data = p.data[n:]
			if len(p.data) == 0 {
				p.open = false
				p.cond.Broadcast()
			}
			return n, nil
		}
		if p.werr != nil {
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if err == nil {
		err = io.ErrClosedPipe
	}
	if p.rerr == nil {
		p.rerr = err
	}
	p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	rt.RdRange(b, len(b), "io.PipeWriter.Write")
	p.data, p.open = b, true
	p.cond.Broadcast()
	for p.open && p.rerr == nil && p.werr == nil {
		p.cond.Wait()
	}
	n := len(b) - len(p.data)
	if !p.open {
		return len(b), nil
	}
	p.open, p.data = false, nil
	if p.rerr != nil {
		return n, p.rerr
	}
	return n, io.ErrClosedPipe
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if err == nil {
		err = io.EOF
	}
	if p.werr == nil {
		p.werr = err
	}
	p.cond.Broadcast()
	return nil
}
