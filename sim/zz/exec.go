package zz

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- pipes

// pipe is a bounded byte stream between two processes or tasks.
type pipe struct {
	buf     []byte
	cap     int
	rclosed bool
	wclosed bool
	moved   int64 // bytes handed to the reader
	errAt   int64 // with rerr: fail the reader once this much was handed over
	rerr    *Fault
	max     int
}

func (w *World) newPipe() *pipe {
	c := w.Sched.PipeCap
	if c <= 0 {
		c = 65536
	}
	return &pipe{cap: c}
}

func (p *pipe) closeRead()  { p.rclosed = true }
func (p *pipe) closeWrite() { p.wclosed = true }

// read is the read of one end by a task; f is the descriptor, or nil inside a
// simulated child.
func (p *pipe) read(f *OS_File, b []byte) (int, error) {
	w.osPoint()
	if len(b) == 0 {
		return 0, nil
	}
	closed := func() bool { return f != nil && f.closed }
	avail := func() bool { return len(p.buf) > 0 || p.wclosed || closed() || p.rerr != nil && p.moved >= p.errAt }
	if !avail() {
		w.block("pipe read", avail)
	}
	if closed() {
		return 0, &os.PathError{Op: "read", Path: f.name, Err: os.ErrClosed}
	}
	n := min(len(b), len(p.buf))
	if p.rerr != nil && f != nil {
		if left := p.errAt - p.moved; left <= 0 || len(p.buf) == 0 && p.wclosed {
			p.rerr.Fired++
			w.fault(p.rerr, cur.proc)
			p.rerr = nil
			return 0, perr("read", f.name, syscall.EIO)
		} else if int64(n) > left {
			n = int(left)
		}
	}
	if len(p.buf) == 0 {
		return 0, io.EOF
	}
	if v := w.choose(kFrag, n); v > 0 {
		n = v
		w.Stats["short pipe read"]++
	}
	copy(b, p.buf[:n])
	p.buf = p.buf[n:]
	p.moved += int64(n)
	return n, nil
}

func (p *pipe) write(f *OS_File, b []byte) (int, error) {
	t := 0
	for {
		w.osPoint()
		if f != nil && f.closed {
			return t, &os.PathError{Op: "write", Path: f.name, Err: os.ErrClosed}
		}
		if p.rclosed {
			name := "|1"
			if f != nil {
				name = f.name
			}
			return t, perr("write", name, syscall.EPIPE)
		}
		if t >= len(b) {
			return t, nil
		}
		free := p.cap - len(p.buf)
		if free <= 0 {
			w.Stats["full pipe"]++
			w.block("pipe write", func() bool { return p.rclosed || len(p.buf) < p.cap || f != nil && f.closed })
			continue
		}
		n := min(free, len(b)-t)
		p.buf = append(p.buf, b[t:t+n]...)
		p.max = max(p.max, len(p.buf))
		t += n
		if t >= len(b) {
			return t, nil
		}
	}
}

// ---------------------------------------------------------------- children

// GitReq is one run of git; it is a pure function of its contents and the
// state of the repository.
type GitReq struct {
	Args  []string
	Stdin []byte
	Cwd   string
	Env   map[string]string
	Now   int64 // unix ns
	Proc  *Proc // the process that started it
	Kind  string
}

type GitResp struct {
	Stdout []byte
	Stderr []byte
	Code   int
}

// Child is a simulated child process.
type Child struct {
	proc   *Proc
	kind   string
	ord    int
	in     *pipe
	out    *pipe
	err    *pipe
	outW   func([]byte) error
	errW   func([]byte) error
	done   bool
	waited bool
	code   int
	sig    int
	faults []*Fault
}

// ChildKind classifies a git command line.
func ChildKind(args []string) string {
	for i := 0; i < len(args); i++ {
		a := args[i]
		if a == "-c" || a == "-C" {
			i++
			continue
		}
		if strings.HasPrefix(a, "-") {
			continue
		}
		if a == "log" && slices.Contains(args, "--stdin") {
			return "log-stdin"
		}
		return a
	}
	return "git"
}

func (c *Child) kill(orphan bool) {
	if c.done {
		return
	}
	c.finish(-1, 9)
	c.proc.dead = true
	c.proc.Exited = true
	_ = orphan
}

func (c *Child) finish(code, sig int) {
	c.done = true
	c.code, c.sig = code, sig
	for _, p := range []*pipe{c.out, c.err} {
		if p != nil {
			p.wclosed = true
		}
	}
	if c.in != nil {
		c.in.rclosed = true
	}
	c.proc.Exited = true
	w.Log("child %s#%d ends code=%d sig=%d", c.kind, c.ord, code, sig)
}

func (c *Child) fault(mode string) *Fault {
	for _, f := range c.faults {
		if f.Mode == mode {
			return f
		}
	}
	return nil
}

func (c *Child) hit(f *Fault) {
	f.Fired++
	w.fault(f, c.proc)
}

// run is the life of a git child.
func (c *Child) run(req *GitReq) {
	if d := w.choose(kMisc, 4); d > 0 {
		w.sleep([]int64{0, 400_000, 2_000_000, 15_000_000}[d])
	}
	if f := c.fault("closestdin"); f != nil {
		c.hit(f)
		if c.in != nil {
			c.in.rclosed = true
		}
		c.deliver(nil, []byte("fatal: simulated failure before reading input\n"))
		c.finish(128, 0)
		return
	}
	if f := c.fault("slowstdin"); f != nil {
		c.hit(f)
		w.sleep(f.Arg * 1_000_000)
	}
	if c.in != nil {
		b := make([]byte, 8192)
		var in []byte
		for {
			n, err := c.in.read(nil, b)
			in = append(in, b[:n]...)
			if err != nil {
				break
			}
		}
		req.Stdin = in
	}
	w.osPoint()
	resp := w.Git(req)
	w.Stats["git "+c.kind]++
	out, errb, code := resp.Stdout, resp.Stderr, resp.Code
	sig := 0
	cut := func(perm int64) int { return int(int64(len(out)) * min(perm, 1000) / 1000) }
	if f := c.fault("exit"); f != nil {
		c.hit(f)
		out = out[:cut(f.Arg)]
		if f.Arg2%2 == 0 {
			errb = []byte("fatal: simulated failure\n")
		} else {
			errb = nil
		}
		code = int(f.Arg2)
	}
	if f := c.fault("signal"); f != nil {
		c.hit(f)
		out = out[:cut(f.Arg)]
		sig = int(f.Arg2)
	}
	if f := c.fault("flood"); f != nil {
		c.hit(f)
		var b bytes.Buffer
		for b.Len() < int(f.Arg) {
			b.WriteString("warning: simulated complaint of git\n")
		}
		errb = append(b.Bytes(), errb...)
		if f.Arg2 > 0 {
			code = int(f.Arg2)
		}
	}
	if f := c.fault("readerr"); f != nil && c.out != nil {
		c.out.rerr = f
		c.out.errAt = int64(cut(f.Arg))
	}
	ok := true
	if f := c.fault("stall"); f != nil {
		k := cut(f.Arg)
		ok = c.deliver(out[:k], nil)
		c.hit(f)
		w.sleep(f.Arg2 * 1_000_000)
		ok = ok && c.deliver(out[k:], errb)
	} else {
		ok = c.deliver(out, errb)
	}
	if !ok {
		c.finish(-1, int(syscall.SIGPIPE))
		return
	}
	w.osPoint()
	if f := c.fault("lateexit"); f != nil {
		// all output is there and closed, the exit status comes much later
		for _, p := range []*pipe{c.out, c.err} {
			if p != nil {
				p.wclosed = true
			}
		}
		c.hit(f)
		w.sleep(f.Arg * 1_000_000)
		if f.Arg2 != 0 {
			code = int(f.Arg2)
		}
	}
	if sig != 0 {
		c.finish(-1, sig)
		return
	}
	c.finish(code, 0)
}

func (c *Child) emit(p *pipe, direct func([]byte) error, b []byte) bool {
	for len(b) > 0 {
		n := min(len(b), 4096)
		if v := w.choose(kFrag, n); v > 0 {
			n = v
			w.Stats["split child write"]++
		}
		switch {
		case p != nil:
			if _, err := p.write(nil, b[:n]); err != nil {
				return false
			}
		case direct != nil:
			if direct(b[:n]) != nil {
				return false
			}
		}
		b = b[n:]
	}
	return true
}

func (c *Child) deliver(out, errb []byte) bool {
	if len(errb) > 0 && len(out) > 0 {
		// complaints come before, in the middle of, or after the output
		k := 0
		switch w.choose(kMisc, 3) {
		case 1:
			k = len(out) / 2
		case 2:
			k = len(out)
		}
		return c.emit(c.out, c.outW, out[:k]) && c.emit(c.err, c.errW, errb) && c.emit(c.out, c.outW, out[k:])
	}
	return c.emit(c.err, c.errW, errb) && c.emit(c.out, c.outW, out)
}

// ---------------------------------------------------------------- os/exec

type Exec_Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*OS_File
	SysProcAttr  *syscall.SysProcAttr
	Process      *OS_Process
	ProcessState *OS_ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx      context.Context
	child    *Child
	parent   []*OS_File
	copies   []func() error
	copyErr  []error
	copying  int
	ctxErr   error
	watching bool
	inPipe   *pipe
	outPipe  *pipe
	errPipe  *pipe
	waited   bool
}

type OS_Process struct {
	Pid   int
	child *Child
}

func (p *OS_Process) Kill() error { return p.Signal(os.Kill) }

func (p *OS_Process) Signal(s os.Signal) error {
	w.osPoint()
	if p.child.done {
		return os.ErrProcessDone
	}
	if n, ok := s.(syscall.Signal); ok {
		w.Log("signal %v to child %s#%d", s, p.child.kind, p.child.ord)
		p.child.kill(false)
		p.child.sig = int(n)
	}
	return nil
}

func (p *OS_Process) Release() error { return nil }

func (p *OS_Process) Wait() (*OS_ProcessState, error) {
	w.osPoint()
	c := p.child
	if !c.done {
		w.block("wait for child", func() bool { return c.done })
	}
	c.waited = true
	return &OS_ProcessState{pid: p.Pid, code: c.code, sig: c.sig}, nil
}

func OS_FindProcess(pid int) (*OS_Process, error) { return nil, os.ErrProcessDone }

type OS_ProcessState struct {
	pid, code, sig int
}

func (s *OS_ProcessState) ExitCode() int {
	if s == nil || s.sig != 0 {
		return -1
	}
	return s.code
}
func (s *OS_ProcessState) Exited() bool              { return s.sig == 0 }
func (s *OS_ProcessState) Pid() int                  { return s.pid }
func (s *OS_ProcessState) Success() bool             { return s.sig == 0 && s.code == 0 }
func (s *OS_ProcessState) SystemTime() time.Duration { return 0 }
func (s *OS_ProcessState) UserTime() time.Duration   { return 0 }
func (s *OS_ProcessState) Sys() any {
	if s.sig != 0 {
		return syscall.WaitStatus(s.sig)
	}
	return syscall.WaitStatus(s.code << 8)
}
func (s *OS_ProcessState) String() string {
	if s == nil {
		return "<nil>"
	}
	if s.sig != 0 {
		return "signal: " + syscall.Signal(s.sig).String()
	}
	return "exit status " + strconv.Itoa(s.code)
}

type Exec_ExitError struct {
	*OS_ProcessState
	Stderr []byte
}

func (e *Exec_ExitError) Error() string { return e.OS_ProcessState.String() }

func Exec_LookPath(file string) (string, error) {
	p := mustProc()
	for _, f := range p.Faults {
		if f.Kind == "git" && f.Mode == "nopath" {
			f.Fired++
			w.fault(f, p)
			return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
		}
	}
	if path.IsAbs(file) {
		return file, nil
	}
	return "/usr/bin/" + file, nil
}

func Exec_Command(name string, arg ...string) *Exec_Cmd {
	c := &Exec_Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		p, err := Exec_LookPath(name)
		if err != nil {
			c.Err = err
		} else {
			c.Path = p
		}
	}
	return c
}

func Exec_CommandContext(ctx context.Context, name string, arg ...string) *Exec_Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Exec_Command(name, arg...)
	c.ctx = ctx
	c.Cancel = func() error { return c.Process.Kill() }
	return c
}

func (c *Exec_Cmd) String() string {
	if c.Err != nil {
		return strings.Join(c.Args, " ")
	}
	b := new(strings.Builder)
	b.WriteString(c.Path)
	for _, a := range c.Args[1:] {
		b.WriteByte(' ')
		b.WriteString(a)
	}
	return b.String()
}

func (c *Exec_Cmd) Environ() []string {
	if c.Env != nil {
		return c.Env
	}
	return OS_Environ()
}

func (c *Exec_Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	if c.Process != nil {
		return nil, errors.New("exec: StdinPipe after process started")
	}
	c.inPipe = w.newPipe()
	f := &OS_File{name: "|1", wp: c.inPipe, proc: mustProc()}
	c.Stdin = strings.NewReader("")
	c.parent = append(c.parent, f)
	return &onceCloser{File: f}, nil
}

type onceCloser struct {
	File   *OS_File
	closed bool
	err    error
}

func (o *onceCloser) Write(b []byte) (int, error)       { return o.File.Write(b) }
func (o *onceCloser) WriteString(s string) (int, error) { return o.File.Write([]byte(s)) }
func (o *onceCloser) Close() error {
	if !o.closed {
		o.closed = true
		o.err = o.File.Close()
	}
	return o.err
}

func (c *Exec_Cmd) outEnd(p **pipe) *OS_File {
	*p = w.newPipe()
	f := &OS_File{name: "|0", r: *p, proc: mustProc()}
	c.parent = append(c.parent, f)
	return f
}

func (c *Exec_Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.Process != nil {
		return nil, errors.New("exec: StdoutPipe after process started")
	}
	f := c.outEnd(&c.outPipe)
	c.Stdout = io.Discard
	return f, nil
}

func (c *Exec_Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	if c.Process != nil {
		return nil, errors.New("exec: StderrPipe after process started")
	}
	f := c.outEnd(&c.errPipe)
	c.Stderr = io.Discard
	return f, nil
}

func (c *Exec_Cmd) closeParent() {
	for _, f := range c.parent {
		if !f.closed {
			f.closed = true
			if f.r != nil {
				f.r.closeRead()
			}
			if f.wp != nil {
				f.wp.closeWrite()
			}
		}
	}
}

func (c *Exec_Cmd) Start() error {
	p := mustProc()
	w.osPoint()
	if c.Path == "" && c.Err == nil {
		c.Err = errors.New("exec: no command")
	}
	if c.Err != nil {
		c.closeParent()
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil && c.ctx.Err() != nil {
		c.closeParent()
		return c.ctx.Err()
	}
	kind := ChildKind(c.Args[1:])
	if path.Base(c.Path) != "git" {
		panic("zz: SIM-UNSUPPORTED child process " + c.Path)
	}
	ord := p.nChild[kind]
	p.nChild[kind]++
	p.GitLog = append(p.GitLog, GitRec{kind, ord, slices.Clone(c.Args[1:])})
	w.Log("p%d starts child %s#%d %q", p.ID, kind, ord, c.Args[1:])
	ch := &Child{kind: kind, ord: ord}
	for _, f := range p.Faults {
		if f.Kind != "git" || f.Op != kind || int64(ord) < f.At || int64(ord) > f.At+int64(f.Rep) {
			continue
		}
		if f.Mode == "startfail" {
			f.Fired++
			w.fault(f, p)
			c.closeParent()
			e := []syscall.Errno{syscall.EAGAIN, syscall.ENOMEM, syscall.EMFILE, syscall.ENOENT}[int(f.Arg)%4]
			return &os.PathError{Op: "fork/exec", Path: c.Path, Err: e}
		}
		ch.faults = append(ch.faults, f)
	}
	ch.proc = &Proc{ID: len(w.procs), Kind: "git", Env: p.Env, Cwd: p.Cwd, Loc: p.Loc}
	w.procs = append(w.procs, ch.proc)
	p.Children = append(p.Children, ch)
	n := 0
	for _, c := range p.Children {
		if !c.waited {
			n++
		}
	}
	p.MaxGit = max(p.MaxGit, n)
	// standard streams
	if c.inPipe != nil {
		ch.in = c.inPipe
	} else if c.Stdin != nil {
		if f, ok := c.Stdin.(*OS_File); ok {
			if f.r != nil {
				ch.in = f.r
			}
		} else {
			ch.in = w.newPipe()
			in, src := ch.in, c.Stdin
			c.copies = append(c.copies, func() error {
				_, err := io.Copy(&OS_File{name: "|1", wp: in}, src)
				in.closeWrite()
				if errors.Is(err, syscall.EPIPE) {
					err = nil
				}
				return err
			})
		}
	}
	out := func(dst io.Writer, pp *pipe) (*pipe, func([]byte) error) {
		if pp != nil {
			return pp, nil
		}
		if dst == nil {
			return nil, nil
		}
		if f, ok := dst.(*OS_File); ok {
			switch {
			case f.wp != nil:
				return f.wp, nil
			case f.std == 1:
				return nil, func(b []byte) error { p.Stdout = append(p.Stdout, b...); return nil }
			case f.std == 2:
				return nil, func(b []byte) error { p.Stderr = append(p.Stderr, b...); return nil }
			case f.std != 0:
				return nil, nil
			}
			return nil, func(b []byte) error { f.put(b); return nil }
		}
		np := w.newPipe()
		rd := &OS_File{name: "|0", r: np, proc: p}
		c.copies = append(c.copies, func() error {
			_, err := io.Copy(dst, rd)
			rd.Close()
			return err
		})
		return np, nil
	}
	ch.out, ch.outW = out(c.Stdout, c.outPipe)
	if c.Stderr != nil && c.errPipe == nil && c.outPipe == nil && sameWriter(c.Stdout, c.Stderr) {
		ch.err, ch.errW = ch.out, ch.outW
	} else {
		ch.err, ch.errW = out(c.Stderr, c.errPipe)
	}
	env := map[string]string{}
	for _, kv := range c.Environ() {
		if i := strings.IndexByte(kv, '='); i >= 0 {
			env[kv[:i]] = kv[i+1:]
		}
	}
	dir := p.Cwd
	if c.Dir != "" {
		dir = p.abs(c.Dir)
	}
	req := &GitReq{Args: slices.Clone(c.Args[1:]), Cwd: dir, Env: env, Now: w.wall(), Proc: p, Kind: kind}
	c.child = ch
	c.Process = &OS_Process{Pid: 5000 + ch.proc.ID, child: ch}
	w.spawn(ch.proc, fmt.Sprintf("git %s#%d", kind, ord), func() { ch.run(req) })
	for _, fn := range c.copies {
		c.copying++
		w.spawn(p, "exec copy", func() {
			if err := fn(); err != nil {
				c.copyErr = append(c.copyErr, err)
			}
			c.copying--
		})
	}
	if c.ctx != nil && c.ctx.Done() != nil {
		c.watching = true
		w.spawn(p, "exec watch", func() {
			w.block("context", func() bool { return c.ctx.Err() != nil || ch.done && c.waited })
			if c.ctx.Err() != nil && !c.waited {
				c.ctxErr = c.ctx.Err()
				if c.Cancel != nil {
					err := c.Cancel()
					if errors.Is(err, os.ErrProcessDone) {
						c.ctxErr = nil
					}
				}
			}
			c.watching = false
		})
	}
	return nil
}

func sameWriter(a, b io.Writer) (same bool) {
	defer func() { recover() }()
	return a == b
}

func (c *Exec_Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.ProcessState != nil {
		return errors.New("exec: Wait was already called")
	}
	st, err := c.Process.Wait()
	c.waited = true
	if err == nil && !st.Success() {
		err = &Exec_ExitError{OS_ProcessState: st}
	}
	c.ProcessState = st
	if c.watching {
		w.block("context watcher", func() bool { return !c.watching })
	}
	if err == nil {
		err = c.ctxErr
	}
	if c.copying > 0 {
		w.block("exec copy", func() bool { return c.copying == 0 })
	}
	if err == nil && len(c.copyErr) > 0 {
		err = c.copyErr[0]
	}
	c.closeParent()
	return err
}

func (c *Exec_Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Exec_Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var out, errb bytes.Buffer
	c.Stdout = &out
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &errb
	}
	err := c.Run()
	if ee, ok := err.(*Exec_ExitError); ok && capture {
		ee.Stderr = errb.Bytes()
	}
	return out.Bytes(), err
}

func (c *Exec_Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	c.Stderr = &b
	err := c.Run()
	return b.Bytes(), err
}
