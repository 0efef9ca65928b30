// Package io replaces the part of package io that synchronises.
package io

import (
	real "io"

	rt "ZZSIM/rt"
)

type pipe struct {
	wrMu rt.Mutex
	wrCh chan []byte
	rdCh chan int
	mu   rt.Mutex
	done chan struct{}
	shut bool
	rerr error
	werr error
}

func (p *pipe) close() {
	if !p.shut {
		p.shut = true
		rt.CS(p.done).Close()
	}
}

func (p *pipe) isDone() bool {
	s := rt.NewSel(true)
	rt.SelRecv(s, p.done)
	return s.Do() == 0
}

func (p *pipe) readErr() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rerr == nil && p.werr != nil {
		return p.werr
	}
	return real.ErrClosedPipe
}

func (p *pipe) writeErr() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr == nil && p.rerr != nil {
		return p.rerr
	}
	return real.ErrClosedPipe
}

// A PipeReader is the read half of a pipe.
type PipeReader struct{ p *pipe }

// A PipeWriter is the write half of a pipe.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{wrCh: make(chan []byte), rdCh: make(chan int), done: make(chan struct{})}
	return &PipeReader{p}, &PipeWriter{p}
}

// Read reads.
func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	if p.isDone() {
		return 0, p.readErr()
	}
	s := rt.NewSel(false)
	c := rt.SelRecv(s, p.wrCh)
	rt.SelRecv(s, p.done)
	if s.Do() == 1 {
		return 0, p.readErr()
	}
	n := copy(b, c.Get())
	rt.CS(p.rdCh).Send(n)
	return n, nil
}

// Close closes the reader.
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

// CloseWithError closes the reader.
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = real.ErrClosedPipe
	}
	r.p.mu.Lock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.close()
	r.p.mu.Unlock()
	return nil
}

// Write writes.
func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	if p.isDone() {
		return 0, p.writeErr()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		s := rt.NewSel(false)
		rt.SelSend(s, p.wrCh).Val(b)
		rt.SelRecv(s, p.done)
		if s.Do() == 1 {
			return n, p.writeErr()
		}
		k := rt.CR(p.rdCh).Recv()
		b = b[k:]
		n += k
	}
	return n, nil
}

// Close closes the writer.
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

// CloseWithError closes the writer.
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = real.EOF
	}
	w.p.mu.Lock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.close()
	w.p.mu.Unlock()
	return nil
}
