package zz

import (
	"context"
	"io"
	"log/slog"
	"os"
	"time"
)

// ---------------------------------------------------------------- time

func Time_Now() time.Time {
	if w == nil || cur == nil {
		return time.Now()
	}
	p := cur.proc
	w.now += 1000
	n := p.NowCalls
	p.NowCalls++
	for _, f := range p.Faults {
		if f.Kind == "clock" && f.Fired == 0 && int64(n) >= f.At {
			f.Fired++
			if f.Arg < 0 {
				w.Stats["fault clock:backward"]++
			} else {
				w.Stats["fault clock:forward"]++
			}
			w.Log("FAULT clock jumps by %v at reading %d", time.Duration(f.Arg), n)
			w.skew += f.Arg
		}
	}
	return time.Unix(0, w.wall())
}

func Time_Since(t time.Time) time.Duration { return Time_Now().Sub(t) }
func Time_Until(t time.Time) time.Duration { return t.Sub(Time_Now()) }

func Time_Sleep(d time.Duration) {
	if w == nil || cur == nil {
		return
	}
	w.dieIfDead()
	if d <= 0 {
		w.point()
		return
	}
	w.sleep(int64(d))
}

type Time_Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	t  *timer
	fn func()
}

type Time_Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *timer
	d time.Duration
}

func trySend(c chan time.Time) {
	sc := w.lookup(ptrOf(c))
	if sc != nil && sc.canSend() {
		sc.doSend(time.Unix(0, w.wall()))
	}
}

func Time_NewTimer(d time.Duration) *Time_Timer {
	mustProc()
	c := MakeChan(make(chan time.Time, 1))
	t := &Time_Timer{C: c, c: c}
	t.arm(d)
	return t
}

func (t *Time_Timer) arm(d time.Duration) {
	p := cur.proc
	release(&w.osVCall)
	t.t = w.after(int64(d), func() {
		if p.dead {
			return
		}
		if t.fn != nil {
			w.spawn(p, "timer func", t.fn)
			return
		}
		trySend(t.c)
	})
}

func (t *Time_Timer) Stop() bool {
	was := !t.t.stopped
	t.t.stopped = true
	if t.c != nil {
		if sc := w.lookup(ptrOf(t.c)); sc != nil {
			sc.buf = nil
		}
	}
	return was
}

func (t *Time_Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

func Time_AfterFunc(d time.Duration, fn func()) *Time_Timer {
	mustProc()
	t := &Time_Timer{fn: fn}
	t.arm(d)
	return t
}

func Time_After(d time.Duration) <-chan time.Time { return Time_NewTimer(d).C }

func Time_NewTicker(d time.Duration) *Time_Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	mustProc()
	c := MakeChan(make(chan time.Time, 1))
	t := &Time_Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Time_Ticker) arm() {
	p := cur.proc
	release(&w.osVCall)
	var tick func()
	tick = func() {
		if p.dead {
			return
		}
		trySend(t.c)
		t.t = w.after(int64(t.d), tick)
	}
	t.t = w.after(int64(t.d), tick)
}

func (t *Time_Ticker) Stop() { t.t.stopped = true }
func (t *Time_Ticker) Reset(d time.Duration) {
	t.t.stopped = true
	t.d = d
	t.arm()
}

func Time_Tick(d time.Duration) <-chan time.Time { return Time_NewTicker(d).C }

// ---------------------------------------------------------------- context

type deadlineCtx struct {
	context.Context
	at      time.Time
	expired *bool
}

func (d deadlineCtx) Deadline() (time.Time, bool) { return d.at, true }
func (d deadlineCtx) Err() error {
	e := d.Context.Err()
	if e != nil && *d.expired {
		return context.DeadlineExceeded
	}
	return e
}

func Context_WithCancel(p context.Context) (context.Context, context.CancelFunc) {
	c, f := context.WithCancel(p)
	return c, func() {
		if w != nil && cur != nil && !cur.proc.dead {
			release(&w.osVCall)
			w.point()
		}
		f()
	}
}

func Context_WithCancelCause(p context.Context) (context.Context, context.CancelCauseFunc) {
	c, f := context.WithCancelCause(p)
	return c, func(e error) {
		if w != nil && cur != nil && !cur.proc.dead {
			release(&w.osVCall)
			w.point()
		}
		f(e)
	}
}

func Context_WithDeadline(p context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return Context_WithDeadlineCause(p, at, nil)
}

func Context_WithDeadlineCause(p context.Context, at time.Time, cause error) (context.Context, context.CancelFunc) {
	mustProc()
	if d, ok := p.Deadline(); ok && d.Before(at) {
		return Context_WithCancel(p)
	}
	c, f := context.WithCancelCause(p)
	exp := new(bool)
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	release(&w.osVCall)
	t := w.after(at.UnixNano()-w.wall(), func() {
		if c.Err() == nil {
			*exp = true
			f(cause)
		}
	})
	return deadlineCtx{c, at, exp}, func() { release(&w.osVCall); t.stopped = true; f(nil) }
}

func Context_WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return Context_WithDeadlineCause(p, time.Unix(0, w.wall()).Add(d), nil)
}

func Context_WithTimeoutCause(p context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return Context_WithDeadlineCause(p, time.Unix(0, w.wall()).Add(d), cause)
}

func Context_AfterFunc(ctx context.Context, fn func()) (stop func() bool) {
	p := mustProc()
	stopped, started := false, false
	w.spawn(p, "context.AfterFunc", func() {
		w.block("context", func() bool { return stopped || ctx.Err() != nil })
		if stopped {
			return
		}
		started = true
		fn()
	})
	return func() bool {
		if started || stopped {
			return false
		}
		stopped = true
		return true
	}
}

// ---------------------------------------------------------------- log/slog

type slogState struct {
	def *slog.Logger
}

func noTime(o *slog.HandlerOptions) *slog.HandlerOptions {
	var n slog.HandlerOptions
	if o != nil {
		n = *o
	}
	inner := n.ReplaceAttr
	n.ReplaceAttr = func(groups []string, a slog.Attr) slog.Attr {
		if a.Key == slog.TimeKey && len(groups) == 0 {
			return slog.Attr{}
		}
		if inner != nil {
			return inner(groups, a)
		}
		return a
	}
	return &n
}

func Slog_NewTextHandler(o io.Writer, opts *slog.HandlerOptions) *slog.TextHandler {
	return slog.NewTextHandler(o, noTime(opts))
}

func Slog_NewJSONHandler(o io.Writer, opts *slog.HandlerOptions) *slog.JSONHandler {
	return slog.NewJSONHandler(o, noTime(opts))
}

func Slog_SetDefault(l *slog.Logger) {
	if p := curProc(); p != nil {
		p.slog.def = l
		return
	}
	slog.SetDefault(l)
}

func Slog_Default() *slog.Logger {
	p := curProc()
	if p == nil {
		return slog.Default()
	}
	if p.slog.def == nil {
		p.slog.def = slog.New(Slog_NewTextHandler(OS_Stderr, nil))
	}
	return p.slog.def
}

func Slog_Debug(m string, a ...any) { Slog_Default().Debug(m, a...) }
func Slog_Info(m string, a ...any)  { Slog_Default().Info(m, a...) }
func Slog_Warn(m string, a ...any)  { Slog_Default().Warn(m, a...) }
func Slog_Error(m string, a ...any) { Slog_Default().Error(m, a...) }
func Slog_DebugContext(c context.Context, m string, a ...any) {
	Slog_Default().DebugContext(c, m, a...)
}
func Slog_InfoContext(c context.Context, m string, a ...any) { Slog_Default().InfoContext(c, m, a...) }
func Slog_WarnContext(c context.Context, m string, a ...any) { Slog_Default().WarnContext(c, m, a...) }
func Slog_ErrorContext(c context.Context, m string, a ...any) {
	Slog_Default().ErrorContext(c, m, a...)
}
func Slog_Log(c context.Context, l slog.Level, m string, a ...any) { Slog_Default().Log(c, l, m, a...) }
func Slog_LogAttrs(c context.Context, l slog.Level, m string, a ...slog.Attr) {
	Slog_Default().LogAttrs(c, l, m, a...)
}
func Slog_With(a ...any) *slog.Logger                { return Slog_Default().With(a...) }
func Slog_SetLogLoggerLevel(l slog.Level) slog.Level { return slog.LevelInfo }

// ---------------------------------------------------------------- os/signal

type sigReg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

func Signal_Notify(c chan<- os.Signal, sigs ...os.Signal) {
	p := mustProc()
	p.sigChans = append(p.sigChans, sigReg{c, sigs})
}

func Signal_Stop(c chan<- os.Signal) {
	p := mustProc()
	var out []sigReg
	for _, r := range p.sigChans {
		if r.c != c {
			out = append(out, r)
		}
	}
	p.sigChans = out
}

func Signal_Ignore(...os.Signal) {}
func Signal_Reset(...os.Signal)  { mustProc().sigChans = nil }

func Signal_NotifyContext(ctx context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	p := mustProc()
	c, f := context.WithCancel(ctx)
	ch := MakeChan(make(chan os.Signal, 1))
	p.sigChans = append(p.sigChans, sigReg{ch, sigs})
	w.spawn(p, "signal.NotifyContext", func() {
		sc := w.lookup(ptrOf(ch))
		w.block("signal", func() bool { return len(sc.buf) > 0 || c.Err() != nil })
		f()
	})
	return c, f
}

// interrupt delivers a signal that a process may catch; if it does not, the
// process ends.
func (p *Proc) interrupt(s os.Signal) {
	caught := false
	for _, r := range p.sigChans {
		want := len(r.sigs) == 0
		for _, x := range r.sigs {
			want = want || x == s
		}
		if !want {
			continue
		}
		caught = true
		if sc := w.lookup(ptrOf(r.c)); sc != nil && sc.canSend() {
			sc.doSend(s)
		}
	}
	if !caught {
		p.kill("signal " + s.String())
	}
}
