package zz

import "io"

// io.Pipe inside the program: a writer waits until all of it has been read.
type ioPipe struct {
	data       []byte
	writing    bool
	rerr, werr error // set by closing the other end
	rdone      bool
	wdone      bool
}

type IO_PipeReader struct{ p *ioPipe }
type IO_PipeWriter struct{ p *ioPipe }

func IO_Pipe() (*IO_PipeReader, *IO_PipeWriter) {
	p := &ioPipe{}
	return &IO_PipeReader{p}, &IO_PipeWriter{p}
}

func (r *IO_PipeReader) Read(b []byte) (int, error) {
	w.osPoint()
	p := r.p
	if p.rdone {
		return 0, io.ErrClosedPipe
	}
	ready := func() bool { return p.rdone || p.wdone || p.writing && len(p.data) > 0 }
	if !ready() {
		w.block("pipe read", ready)
	}
	if p.rdone {
		return 0, io.ErrClosedPipe
	}
	if p.writing && len(p.data) > 0 {
		n := copy(b, p.data)
		p.data = p.data[n:]
		return n, nil
	}
	return 0, p.werr
}

func (r *IO_PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *IO_PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	if !r.p.rdone {
		r.p.rdone, r.p.rerr = true, err
	}
	w.osPoint()
	return nil
}

func (wr *IO_PipeWriter) Write(b []byte) (int, error) {
	w.osPoint()
	p := wr.p
	free := func() bool { return !p.writing || p.rdone || p.wdone }
	if !free() {
		w.block("pipe write", free)
	}
	if p.wdone {
		return 0, io.ErrClosedPipe
	}
	if p.rdone {
		return 0, p.rerr
	}
	p.writing, p.data = true, b
	done := func() bool { return len(p.data) == 0 || p.rdone || p.wdone }
	if !done() {
		w.block("pipe write", done)
	}
	n := len(b) - len(p.data)
	p.writing, p.data = false, nil
	if n < len(b) {
		if p.wdone {
			return n, io.ErrClosedPipe
		}
		return n, p.rerr
	}
	return n, nil
}

func (wr *IO_PipeWriter) Close() error { return wr.CloseWithError(nil) }
func (wr *IO_PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	if !wr.p.wdone {
		wr.p.wdone, wr.p.werr = true, err
	}
	w.osPoint()
	return nil
}
