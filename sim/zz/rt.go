// Package zz is the deterministic simulator that the instrumented git-who runs
// in: one task at a time, every choice drawn from one seeded decider.
package zz

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- PRNG

type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) P(p float64) bool { return float64(r.U64()>>11)/float64(1<<53) < p }

// ---------------------------------------------------------------- decisions

// A Sched says how the free choices of one world are made. With Trace set the
// recorded choices are replayed and everything else takes its default.
type Sched struct {
	Policy  string  `json:"policy"` // "", random, pct, starve, fifo
	Seed    uint64  `json:"seed,omitempty"`
	Gap     int     `json:"gap,omitempty"`  // mean number of statements between pre-emptions (0: none)
	Frag    int     `json:"frag,omitempty"` // 0: whole reads; else scale of fragments in bytes
	PFrag   float64 `json:"pfrag,omitempty"`
	PMap    float64 `json:"pmap,omitempty"` // probability that a map is iterated in a random order
	PipeCap int     `json:"pipecap,omitempty"`
	Replay  bool    `json:"replay,omitempty"`
	Trace   []Dec   `json:"trace,omitempty"`
	Preempt []Dec   `json:"preempt,omitempty"`
}

// Dec is one recorded non-default choice: at the N-th decision (or statement),
// value V.
type Dec struct {
	N int64 `json:"n"`
	V int   `json:"v"`
}

const (
	kSched = iota
	kPoint
	kSelect
	kFrag
	kMap
	kMisc
)

// ---------------------------------------------------------------- world

type World struct {
	osVC      vclock // what system calls have made known
	osVCall   vclock // what cancellations and timers have made known
	maps      map[unsafe.Pointer]*mapState
	Sched     Sched
	rng       *Rng
	tasks     []*Task
	nextID    int
	now       int64 // simulated ns since start of the world
	base      int64 // wall clock at start, unix ns
	skew      int64
	timers    []*timer
	seq       int64
	chans     map[unsafe.Pointer]*simChan
	procs     []*Proc
	loaded    *Proc
	FS        *FS
	driver    *Task
	Verbose   bool
	Events    []string
	Stats     map[string]int64
	nDec      int64
	traceOut  []Dec
	preOut    []Dec
	rTrace    map[int64]int
	rPre      []Dec
	rPreI     int
	yields    int64 // statements executed so far, up to the current gap
	gapSet    int
	prio      map[int]int
	victim    int
	ilHash    uint64
	Switches  int64
	Stuck     string // why the world could not finish
	waits     int    // for time to pass, since a git process last was alive
	MaxYield  int64  // steps without anything that can be seen from outside
	limit     int64
	KillAtY   []*Fault
	Ops       int64
	ChunkKnob int
	dead      bool
	unwinding bool
	simMax    int64
	Huge      bool
	lockWaits int
	Git       func(*GitReq) *GitResp
	RealPath  func(string) string
	userRng   *Rng
	PidBase   int
}

type Task struct {
	id    int
	name  string
	proc  *Proc
	wake  chan struct{}
	state int // 0 runnable 1 blocked 2 done
	pred  func() bool
	why   string
	vc    vclock
}

var (
	w           *World
	cur         *Task
	gap         int = 1 << 60
	ProgramMain func()
	ModulePath  string
	pkgs        []*pkgReg
	OS_Args     []string
)

type pkgReg struct {
	path    string
	reset   func()
	globals []Global
}

type Global struct {
	name string
	save func() any
	load func(any)
}

func GlobalOf[T any](name string, p *T) Global {
	return Global{name, func() any { c := *p; return &c }, func(v any) { *p = *(v.(*T)) }}
}

func Zero[T any](p *T) { var z T; *p = z }

func RegisterPackage(path string, reset func(), globals []Global) {
	pkgs = append(pkgs, &pkgReg{path, reset, globals})
}

func Knob(name string, def int) int {
	if w != nil && w.ChunkKnob > 0 {
		return w.ChunkKnob
	}
	return def
}

// Proc is a simulated git-who process (or a git child, kind "git").
type Proc struct {
	spawned  int // goroutines started so far
	ID       int
	Kind     string
	Args     []string
	Env      map[string]string
	Cwd      string
	NCPU     int
	TTY      bool
	Loc      *time.Location
	Home     string
	Stdout   []byte
	Stderr   []byte
	Exited   bool
	Code     int
	Killed   string // why, if it did not end by itself
	Panic    string
	Faults   []*Fault
	dead     bool
	image    [][]any
	slog     slogState
	fds      map[int]*OS_File
	nextFd   int
	FsOps    int
	NowCalls int
	Children []*Child
	sigChans []sigReg
	StartAt  int64
	EndAt    int64
	StartY   int64
	EndY     int64
	FsLog    []FsRec
	nChild   map[string]int
	started  bool
	GitLog   []GitRec
	MaxGit   int // most children at one time that nobody had waited for
	MaxFiles int // most files open at one time
	MaxTasks int // most goroutines at one time
	tasks    int
	LeftGit  []string // children still running when the process ended
}

// GitRec is one git child that was started.
type GitRec struct {
	Kind string
	Ord  int
	Args []string
}

// Fault is one injected fault. Where it applies is given by Kind and the
// counters; Fired tells how often it took effect.
type Fault struct {
	Kind  string `json:"kind"`           // fs, kill, git, clock, power, out (standard output)
	Proc  int    `json:"proc,omitempty"` // index of the process within the step
	At    int64  `json:"at"`             // index of the operation
	Op    string `json:"op,omitempty"`   // git: subcommand kind; fs: errno; kill: fs|yield|git
	Mode  string `json:"mode,omitempty"` // details
	Arg   int64  `json:"arg,omitempty"`
	Arg2  int64  `json:"arg2,omitempty"`
	Rep   int    `json:"rep,omitempty"`  // fs, out: apply to this many further operations
	Path  string `json:"path,omitempty"` // fs: only operations on paths that contain this
	Fired int    `json:"-"`
}

func (f *Fault) String() string {
	return fmt.Sprintf("%s/%s/%s at=%d arg=%d,%d proc=%d rep=%d", f.Kind, f.Op, f.Mode, f.At, f.Arg, f.Arg2, f.Proc, f.Rep)
}

func NewWorld(fs *FS, sched Sched, wall int64) *World {
	nw := &World{
		Sched: sched, FS: fs, base: wall, rng: NewRng(sched.Seed),
		chans: map[unsafe.Pointer]*simChan{}, Stats: map[string]int64{},
		MaxYield: 40_000_000, prio: map[int]int{}, victim: -1,
	}
	if sched.Replay {
		nw.rTrace = map[int64]int{}
		for _, d := range sched.Trace {
			nw.rTrace[d.N] = d.V
		}
		nw.rPre = sched.Preempt
	}
	return nw
}

// Log records an event of the simulation; it never draws randomness.
func (w *World) Log(f string, a ...any) {
	w.limit = max(w.stepLimit(), min(w.curYield()+w.MaxYield, 20*w.MaxYield))
	if w.Verbose {
		w.Events = append(w.Events, fmt.Sprintf("%8d %10dus ", w.curYield(), w.now/1000)+fmt.Sprintf(f, a...))
	}
}

// stepLimit is when to give up: MaxYield steps after the last event.
func (w *World) stepLimit() int64 {
	if w.limit == 0 {
		w.limit = w.MaxYield
	}
	return w.limit
}

func (w *World) curYield() int64 { return w.yields + int64(w.gapSet-gap) }

// CurYield is the number of statements executed so far.
func (w *World) CurYield() int64 { return w.curYield() }
func (w *World) Now() int64      { return w.now }
func (w *World) IlHash() uint64  { return w.ilHash }
func (w *World) TraceOut() ([]Dec, []Dec) {
	return w.traceOut, w.preOut
}

func (w *World) choose(kind, n int) int {
	if n <= 1 {
		return 0
	}
	idx := w.nDec
	w.nDec++
	if w.Sched.Replay {
		v := w.rTrace[idx]
		if v >= n {
			v %= n
		}
		return v
	}
	v := w.policy(kind, n)
	if v != 0 {
		w.traceOut = append(w.traceOut, Dec{idx, v})
	}
	return v
}

func (w *World) policy(kind, n int) int {
	switch w.Sched.Policy {
	case "":
		return 0
	}
	switch kind {
	case kFrag:
		if w.Sched.Frag > 0 && w.rng.P(w.Sched.PFrag) {
			return 1 + w.rng.Intn(min(n-1, w.Sched.Frag))
		}
		return 0
	case kMap:
		if w.rng.P(w.Sched.PMap) {
			return w.rng.Intn(n)
		}
		return 0
	case kSelect:
		return w.rng.Intn(n)
	case kPoint:
		switch w.Sched.Policy {
		case "fifo":
			return 0
		default:
			if w.rng.P(0.35) {
				return w.rng.Intn(n)
			}
			return 0
		}
	}
	return w.rng.Intn(n)
}

// ---------------------------------------------------------------- pre-emption

// Y is the pre-emption point before every statement.
func Y() {
	gap--
	if gap > 0 {
		return
	}
	yslow()
}

// YV is a pre-emption point between the read and the write of x op= y.
func YV[T any](v T) T {
	Y()
	return v
}

func yslow() {
	if w == nil || cur == nil {
		gap = 1 << 60
		return
	}
	if cur.proc.dead {
		gap = 1
		runtime.Goexit()
	}
	w.yields += int64(w.gapSet - gap)
	w.gapSet = 0
	gap = 0
	if w.yields >= w.stepLimit() && w.Stuck == "" {
		w.stuck("step budget exceeded: " + w.describe())
		w.setGap()
		if cur.proc.dead {
			runtime.Goexit()
		}
	}
	for _, f := range w.KillAtY {
		if f.Fired == 0 && f.At <= w.yields {
			p := w.procByIndex(f.Proc)
			if p == nil || p.Exited {
				f.Fired = -1
				continue
			}
			f.Fired = 1
			w.fault(f, p)
			w.killBy(f, p)
		}
	}
	if cur.proc.dead {
		w.setGap()
		w.dieIfDead()
	}
	pre := false
	val := 0
	if w.Sched.Replay {
		for w.rPreI < len(w.rPre) && w.rPre[w.rPreI].N <= w.yields {
			if w.rPre[w.rPreI].N == w.yields {
				pre, val = true, w.rPre[w.rPreI].V
			}
			w.rPreI++
		}
	} else if w.Sched.Gap > 0 && w.Sched.Policy != "" {
		pre = true
	}
	w.setGap()
	if pre {
		r := w.runnableOthers()
		if len(r) > 0 {
			if w.Sched.Replay {
				val = (val - 1 + len(r)) % len(r)
			} else {
				val = w.rng.Intn(len(r))
				w.preOut = append(w.preOut, Dec{w.yields, val + 1})
			}
			w.switchTo(r[val])
		}
	}
}

func (w *World) setGap() {
	g := int64(1 << 40)
	if w.Sched.Replay {
		if w.rPreI < len(w.rPre) {
			g = w.rPre[w.rPreI].N - w.yields
		}
	} else if w.Sched.Gap > 0 && w.Sched.Policy != "" {
		g = int64(1 + w.rng.Intn(2*w.Sched.Gap))
	}
	if r := w.stepLimit() - w.yields; r < g && w.Stuck == "" {
		g = r
	}
	for _, f := range w.KillAtY {
		if f.Fired == 0 && f.At-w.yields < g {
			g = f.At - w.yields
		}
	}
	if g < 1 {
		g = 1
	}
	w.gapSet = int(g)
	gap = int(g)
}

// ---------------------------------------------------------------- tasks

func (w *World) spawn(p *Proc, name string, fn func()) *Task {
	t := &Task{id: w.nextID, name: name, proc: p, wake: make(chan struct{}, 1)}
	w.nextID++
	if cur != nil && cur.proc == p {
		t.vc = give()
	}
	t.tick()
	w.tasks = append(w.tasks, t)
	p.spawned++
	p.tasks++
	p.MaxTasks = max(p.MaxTasks, p.tasks)
	go func() {
		<-t.wake
		defer t.exit()
		if t.proc.dead {
			return
		}
		fn()
	}()
	return t
}

func (t *Task) exit() {
	if r := recover(); r != nil && !t.proc.dead {
		if fmt.Sprint(r) == "zz: driver abort" {
			panic(r)
		}
		st := string(debug.Stack())
		t.proc.crash(r, st)
	}
	t.state = 2
	t.proc.tasks--
	for i, x := range w.tasks {
		if x == t {
			w.tasks = append(w.tasks[:i:i], w.tasks[i+1:]...)
			break
		}
	}
	next := w.pick(t)
	w.handoff(next)
}

func (p *Proc) crash(r any, stack string) {
	msg := fmt.Sprint(r)
	if e, ok := r.(error); ok {
		msg = e.Error()
	}
	p.Panic = "panic: " + msg + "\n" + cleanStack(stack)
	p.Stderr = append(p.Stderr, []byte("panic: "+msg+"\n\ngoroutine 1 [running]:\n")...)
	w.Log("proc %d panic: %s", p.ID, msg)
	p.terminate(2)
}

func cleanStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/zzsim/zz/") || strings.Contains(l, "runtime/debug") {
			continue
		}
		if i := strings.Index(l, " in goroutine "); i >= 0 {
			l = l[:i]
		}
		// drop addresses
		if i := strings.Index(l, " +0x"); i >= 0 {
			l = l[:i]
		}
		if i := strings.Index(l, "(0x"); i >= 0 {
			l = l[:i] + "(...)"
		}
		out = append(out, l)
	}
	if len(out) > 40 {
		out = out[:40]
	}
	return strings.Join(out, "\n")
}

func (p *Proc) terminate(code int) {
	if p.Exited {
		return
	}
	p.Exited = true
	p.Code = code
	p.dead = true
	p.EndAt = w.now
	p.EndY = w.curYield()
	for _, c := range p.Children {
		if !c.done {
			p.LeftGit = append(p.LeftGit, c.kind)
		}
		c.kill(true)
	}
	for _, f := range p.fds {
		f.ofd.unlock(f)
	}
}

// kill ends a process from outside: nothing of it runs any more.
func (p *Proc) kill(why string) {
	if p.Exited {
		return
	}
	w.Log("proc %d killed: %s", p.ID, why)
	p.Killed = why
	p.terminate(-1)
}

func (w *World) killBy(f *Fault, p *Proc) {
	if f.Mode == "power" {
		for _, q := range w.procs {
			if q.Kind == "" {
				q.kill("power loss")
			}
		}
		w.FS.PowerLoss(NewRng(uint64(f.Arg)+77), w)
		return
	}
	if f.Mode == "int" || f.Mode == "term" {
		sig := syscall.SIGINT
		if f.Mode == "term" {
			sig = syscall.SIGTERM
		}
		p.interrupt(sig)
		return
	}
	p.kill("signal")
}

func (w *World) procByIndex(i int) *Proc {
	n := 0
	for _, p := range w.procs {
		if p.Kind == "" {
			if n == i {
				return p
			}
			n++
		}
	}
	return nil
}

func (w *World) dieIfDead() {
	if cur != nil && cur.proc.dead {
		gap = 1
		w.gapSet = 1
		runtime.Goexit()
	}
}

// block parks the current task until pred holds.
func (w *World) block(why string, pred func() bool) {
	t := cur
	w.dieIfDead()
	t.state = 1
	t.pred = pred
	t.why = why
	next := w.pick(t)
	if next != t {
		w.handoff(next)
		<-t.wake
	}
	t.state = 0
	t.pred = nil
	w.dieIfDead()
	switch why {
	case "chan send", "chan receive", "select", "mutex", "rwmutex", "waitgroup":
	default:
		take(w.osVC)
	}
}

// point is a scheduling point before an operation.
func (w *World) point() {
	w.dieIfDead()
	w.Ops++
	w.now += 3000
	r := w.runnableOthers()
	if len(r) == 0 {
		return
	}
	v := w.choose(kPoint, len(r)+1)
	if v == 0 {
		return
	}
	w.switchTo(r[v-1])
}

func (w *World) switchTo(next *Task) {
	t := cur
	t.state = 0
	w.handoff(next)
	<-t.wake
	w.dieIfDead()
}

func (t *Task) ready() bool {
	if t.proc.dead {
		return true
	}
	switch t.state {
	case 0:
		return true
	case 1:
		return t.pred()
	}
	return false
}

func (w *World) runnableOthers() []*Task {
	w.fireTimers()
	var r []*Task
	var after []*Task
	for _, t := range w.tasks {
		if t == cur || t == w.driver || t.state == 2 {
			continue
		}
		if t.ready() {
			if t.id > cur.id {
				r = append(r, t)
			} else {
				after = append(after, t)
			}
		}
	}
	return append(r, after...)
}

// pick chooses the next task when the current one cannot go on.
func (w *World) pick(t *Task) *Task {
	for {
		w.fireTimers()
		var first, second []*Task
		for _, x := range w.tasks {
			if x == w.driver || x.state == 2 {
				continue
			}
			if x.proc.dead && x != t {
				return x // unwind dead processes first
			}
			if x.ready() {
				if x.id > t.id {
					first = append(first, x)
				} else {
					second = append(second, x)
				}
			}
		}
		r := append(first, second...)
		if len(r) > 0 {
			if w.Sched.Policy == "starve" && !w.Sched.Replay {
				// keep one task back as long as anything else can run
				if w.victim < 0 && w.rng.P(0.2) {
					w.victim = r[w.rng.Intn(len(r))].id
				}
				if w.rng.P(0.02) {
					w.victim = -1
				}
				var r2 []*Task
				var back []*Task
				for _, x := range r {
					if x.id != w.victim {
						r2 = append(r2, x)
					} else {
						back = append(back, x)
					}
				}
				if len(r2) > 0 && len(back) > 0 {
					// choose among r2, expressed as an index of r
					c := r2[w.rng.Intn(len(r2))]
					for i, x := range r {
						if x == c {
							idx := w.nDec
							w.nDec++
							if i != 0 {
								w.traceOut = append(w.traceOut, Dec{idx, i})
							}
							return x
						}
					}
				}
			}
			return r[w.choose(kSched, len(r))]
		}
		if w.driver.pred() {
			return w.driver
		}
		if len(w.timers) > 0 {
			w.now = w.timers[0].at
			if w.childAlive() {
				w.waits = 0
			} else if w.waits++; w.waits > maxWaits && w.Stuck == "" {
				// nobody else is left that it could be waiting for
				w.stuck("waits again and again: " + w.describe())
			}
			continue
		}
		if w.Stuck == "" {
			w.stuck("deadlock: " + w.describe())
			continue
		}
		// nothing left to unwind and the driver is still waiting
		fmt.Fprintln(os.Stderr, "zz: internal: nothing to run:", w.describe())
		os.Exit(70)
	}
}

// Bounds on what a process does without end: waits for a time to pass while
// nothing else is alive, and file operations.
const (
	maxWaits = 20_000
	maxFsOps = 400_000
)

// childAlive tells whether a git process is running.
func (w *World) childAlive() bool {
	for _, p := range w.procs {
		if p.Kind != "" && !p.Exited {
			return true
		}
	}
	return false
}

func (w *World) stuck(why string) {
	w.Stuck = why
	w.Log("STUCK %s", why)
	for _, p := range w.procs {
		if p.Kind == "" && !p.Exited {
			p.kill("hang")
		}
	}
}

func (w *World) describe() string {
	var out []string
	for _, t := range w.tasks {
		if t == w.driver {
			continue
		}
		s := "running"
		if t.state == 1 {
			s = t.why
		}
		out = append(out, fmt.Sprintf("%s(p%d):%s", t.name, t.proc.ID, s))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func (w *World) handoff(next *Task) {
	w.Switches++
	h := w.ilHash
	h ^= uint64(next.id)*1315423911 + uint64(len(next.why))
	h *= 1099511628211
	w.ilHash = h
	cur = next
	if next.proc.Kind == "" && w.loaded != next.proc && next != w.driver {
		w.load(next.proc)
	}
	if next.proc.dead {
		w.yields += int64(w.gapSet - gap)
		gap = 1
		w.gapSet = 1
	} else if w.gapSet <= 1 {
		w.yields += int64(w.gapSet - gap)
		w.setGap()
	}
	next.wake <- struct{}{}
}

// load swaps the package variables of the simulated process in.
func (w *World) load(p *Proc) {
	if o := w.loaded; o != nil && !o.dead {
		o.image = o.image[:0]
		for _, k := range pkgs {
			var im []any
			for _, g := range k.globals {
				im = append(im, g.save())
			}
			o.image = append(o.image, im)
		}
		o.Args = OS_Args
	}
	w.loaded = p
	OS_Args = p.Args
	time.Local = p.Loc
	if p.image != nil && !p.dead {
		for i, k := range pkgs {
			for j, g := range k.globals {
				g.load(p.image[i][j])
			}
		}
	}
}

// Go starts a task of the current process.
func Go(fn func()) {
	if w == nil || cur == nil {
		panic("zz: go statement outside the simulation")
	}
	w.dieIfDead()
	name := "goroutine"
	if pc, _, line, ok := runtime.Caller(1); ok {
		f := runtime.FuncForPC(pc).Name()
		f = f[strings.LastIndex(f, "/")+1:]
		if i := strings.Index(f, "["); i >= 0 {
			f = f[:i]
		}
		name = fmt.Sprintf("%s:%d", f, line)
	}
	w.spawn(cur.proc, name, fn)
	w.point()
}

// ---------------------------------------------------------------- running

// Start adds a process that will run the program's main function.
func (w *World) Start(p *Proc) {
	p.ID = len(w.procs)
	p.nChild = map[string]int{}
	p.fds = map[int]*OS_File{}
	p.nextFd = 3
	w.procs = append(w.procs, p)
	for _, f := range p.Faults {
		if (f.Kind == "kill") && f.Op == "yield" {
			f.Proc = w.gitWhoIndex(p)
			w.KillAtY = append(w.KillAtY, f)
		}
	}
	w.spawn(p, "main", func() {
		p.started = true
		p.StartAt = w.now
		p.StartY = w.curYield()
		for _, k := range pkgs {
			k.reset()
		}
		ProgramMain()
		p.terminate(0)
	})
}

func (w *World) gitWhoIndex(p *Proc) int {
	n := 0
	for _, q := range w.procs {
		if q == p {
			return n
		}
		if q.Kind == "" {
			n++
		}
	}
	return n
}

// Run runs the world until all processes have ended.
func (nw *World) Run() {
	if w != nil {
		panic("zz: nested world")
	}
	w = nw
	oldLocal := time.Local
	drv := &Proc{ID: -1, Kind: "driver"}
	d := &Task{id: -1, name: "driver", proc: drv, wake: make(chan struct{}, 1)}
	w.driver = d
	w.tasks = append(w.tasks, d)
	cur = d
	w.setGap()
	d.state = 1
	d.pred = func() bool {
		for _, p := range w.procs {
			if p.Kind == "" && !p.Exited {
				return false
			}
		}
		return true
	}
	next := w.pick(d)
	if next != d {
		w.handoff(next)
		<-d.wake
	}
	// everything has exited; unwind what is left (git children)
	w.unwinding = true
	for len(w.tasks) > 1 {
		for _, p := range w.procs {
			p.dead = true
		}
		for _, t := range w.tasks {
			if t != d {
				t.proc.dead = true
			}
		}
		d.state = 1
		d.pred = func() bool { return len(w.tasks) == 1 }
		n := w.pick(d)
		if n == d {
			break
		}
		w.handoff(n)
		<-d.wake
	}
	w.yields = w.curYield()
	w.gapSet, gap = 1<<60, 1<<60
	w.simMax = w.now
	cur = nil
	w = nil
	time.Local = oldLocal
	OS_Args = os.Args
}

// ---------------------------------------------------------------- timers

type timer struct {
	at      int64
	seq     int64
	fn      func()
	stopped bool
}

func (w *World) after(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	w.seq++
	t := &timer{at: w.now + d, seq: w.seq, fn: fn}
	i := sort.Search(len(w.timers), func(i int) bool {
		x := w.timers[i]
		return x.at > t.at || x.at == t.at && x.seq > t.seq
	})
	w.timers = append(w.timers, nil)
	copy(w.timers[i+1:], w.timers[i:])
	w.timers[i] = t
	return t
}

func (w *World) fireTimers() {
	for len(w.timers) > 0 && w.timers[0].at <= w.now {
		t := w.timers[0]
		w.timers = w.timers[1:]
		if !t.stopped {
			t.stopped = true
			t.fn()
		}
	}
}

func (w *World) sleep(d int64) {
	done := false
	w.after(d, func() { done = true })
	w.block("sleep", func() bool { return done })
}

func (w *World) wall() int64 { return w.base + w.now + w.skew }

func (w *World) fault(f *Fault, p *Proc) {
	k := f.Kind
	if f.Op != "" {
		k += ":" + f.Op
	}
	if f.Mode != "" {
		k += ":" + f.Mode
	}
	w.Stats["fault "+k]++
	w.Log("FAULT %s", f)
}

func (w *World) probe(name string) { w.Stats["probe "+name]++ }

// ---------------------------------------------------------------- maps

func hashOf(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// maxAlloc is the memory a machine has left for one allocation.
const maxAlloc = 512 << 20

// AllocLen is the length or capacity of a slice about to be made: what does not
// fit in memory ends the process.
func AllocLen[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n I, size int64) I {
	if size > 0 && n > 0 && uint64(n) <= 1<<47 && uint64(n) > uint64(maxAlloc/size) && w != nil && cur != nil {
		panic(plainError("fatal error: runtime: out of memory"))
	}
	return n
}
