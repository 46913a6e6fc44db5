package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	zz "ZZMODULE/zzsim/zz"
)

// A Scenario is one complete simulated history; running it is a pure function
// of its contents and of the code under test.
type Scenario struct {
	Prop  string     `json:"prop"`
	Seed  uint64     `json:"seed"`
	Kind  string     `json:"kind,omitempty"`
	Repos []RepoSpec `json:"repos"`
	Knob  int        `json:"knob"` // commits per unit of work (0: as shipped)
	// Pids are the same again in every step, as in containers
	SamePids bool    `json:"same_pids,omitempty"`
	Files    []Decoy `json:"files,omitempty"`
	Steps    []*Step `json:"steps"`
}

type Decoy struct {
	Path string `json:"path"`
	Data string `json:"data,omitempty"`
	Dir  bool   `json:"dir,omitempty"`
}

type Step struct {
	Op     string   `json:"op"`             // run, damage, state, power, wipe
	Wall   int64    `json:"wall,omitempty"` // unix ns
	Invs   []*Inv   `json:"invs,omitempty"`
	Sched  zz.Sched `json:"sched"`
	Role   string   `json:"role,omitempty"` // fault: the run under fault; else healthy
	Repo   int      `json:"repo,omitempty"`
	State  int      `json:"state,omitempty"`
	Damage *Damage  `json:"damage,omitempty"`
	Seed   uint64   `json:"seed,omitempty"`
	NoSync bool     `json:"nosync,omitempty"` // what earlier steps wrote is not durable yet
	Limit  int64    `json:"limit,omitempty"`  // bytes until the disk is full, +1 (0: no limit)
}

type Inv struct {
	Repo   int               `json:"repo"`
	Q      Query             `json:"q"`
	Cwd    string            `json:"cwd,omitempty"`
	NCPU   int               `json:"ncpu"`
	TTY    bool              `json:"tty,omitempty"`
	TZ     string            `json:"tz,omitempty"`
	Env    map[string]string `json:"env,omitempty"`
	Faults []*zz.Fault       `json:"faults,omitempty"`
}

type Damage struct {
	Mode string `json:"mode"`
	At   int64  `json:"at,omitempty"` // permille of the file
	N    int64  `json:"n,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	File int    `json:"file,omitempty"`
}

const home = "/home/u"

var classes = []string{"ok", "fail", "panic", "killed", "hang"}

type Result struct {
	Inv     *Inv
	P       *zz.Proc
	Class   string
	Out     string
	View    *View
	Req     map[string]bool // commits git was asked to show diffs of
	Muts    []zz.MutRec
	StateIx int
	World   *zz.World
}

// Exec runs one scenario.
type Exec struct {
	sc      *Scenario
	repos   []*Repo
	state   []int
	fs      *zz.FS
	step    int
	stats   map[string]int64
	simNs   int64
	ilh     uint64
	outh    uint64
	worlds  int
	procs   int
	fired   []*zz.Fault
	verbose bool
	events  []string
	scheds  []zz.Sched // recorded, for replays
	notes   map[string]any
	opsMax  int64
}

var nWorlds int64

func newExec(sc *Scenario) *Exec {
	x := &Exec{sc: sc, stats: map[string]int64{}, fs: zz.NewFS(), notes: map[string]any{}, ilh: 14695981039346656037, outh: 14695981039346656037}
	x.fs.MkdirAllK(home)
	x.fs.MkdirAllK("/tmp")
	for _, s := range sc.Repos {
		r := build(s)
		x.repos = append(x.repos, r)
		x.state = append(x.state, 0)
		r.States[0].place(x.fs)
	}
	for _, d := range sc.Files {
		if d.Dir {
			x.fs.MkdirAllK(d.Path)
		} else {
			x.fs.Put(d.Path, []byte(d.Data))
		}
	}
	x.fs.Checkpoint()
	return x
}

func (x *Exec) states() map[string]*RepoState {
	m := map[string]*RepoState{}
	for i, r := range x.repos {
		m[r.Spec.Dir] = r.States[x.state[i]]
	}
	return m
}

func location(tz string) *time.Location {
	if tz == "" {
		return time.UTC
	}
	l, err := time.LoadLocation(tz)
	if err != nil {
		trouble("time zone %s: %v", tz, err)
	}
	return l
}

func (inv *Inv) env() map[string]string {
	e := map[string]string{"HOME": home, "USER": "u", "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8"}
	if inv.TZ != "" {
		e["TZ"] = inv.TZ
	} else {
		e["TZ"] = "UTC"
	}
	for k, v := range inv.Env {
		if v == "\x00" {
			delete(e, k)
		} else {
			e[k] = v
		}
	}
	return e
}

var hash40 = regexp.MustCompile(`[0-9a-f]{40}`)

// runWorld starts the invocations in one world.
func runWorld(fs *zz.FS, sched zz.Sched, wall int64, knob int, pid int, states map[string]*RepoState, repos []*RepoState, invs []*Inv, maxYield int64, verbose bool) (*zz.World, []*Result) {
	nWorlds++
	w := zz.NewWorld(fs, sched, wall)
	w.ChunkKnob = knob
	w.PidBase = pid
	w.Verbose = verbose
	if maxYield > 0 {
		w.MaxYield = maxYield
	}
	var rs []*Result
	byProc := map[*zz.Proc]*Result{}
	w.Git = func(q *zz.GitReq) *zz.GitResp {
		resp := runGit(states, q)
		if r := byProc[q.Proc]; r != nil && (q.Kind == "log-stdin" || q.Kind == "log" || q.Kind == "diff-tree" || q.Kind == "show") {
			diffs := false
			for _, a := range q.Args {
				diffs = diffs || strings.HasPrefix(a, "--numstat") || strings.HasPrefix(a, "--stat") || strings.HasPrefix(a, "--raw") || a == "-p" || a == "--patch" || q.Kind == "diff-tree"
			}
			if diffs {
				src := q.Stdin
				if len(src) == 0 {
					src = resp.Stdout
				}
				for _, h := range hash40.FindAll(src, -1) {
					r.Req[string(h)] = true
				}
			}
		}
		return resp
	}
	for i, inv := range invs {
		rs0 := repos[i]
		p := &zz.Proc{
			Args: inv.Q.Args(), Env: inv.env(), Cwd: rs0.Repo.Spec.Dir + inv.Cwd, NCPU: inv.NCPU, TTY: inv.TTY,
			Loc: location(inv.TZ), Home: home, Faults: inv.Faults,
		}
		r := &Result{Inv: inv, P: p, Req: map[string]bool{}, World: w, StateIx: rs0.Idx}
		r.View = &View{St: rs0, Cwd: inv.Cwd, NCPU: inv.NCPU, Loc: p.Loc}
		byProc[p] = r
		rs = append(rs, r)
		w.Start(p)
	}
	w.Run()
	for _, r := range rs {
		p := r.P
		r.View.Now = wall + p.StartAt
		r.View.End = wall + p.EndAt
		r.Out = string(p.Stdout)
		switch {
		case p.Panic != "":
			r.Class = "panic"
		case p.Killed == "hang":
			r.Class = "hang"
		case p.Killed != "":
			r.Class = "killed"
		case p.Code == 0:
			r.Class = "ok"
		default:
			r.Class = "fail"
		}
	}
	return w, rs
}

// next executes the next step. It returns nil at the end of the scenario.
func (x *Exec) next() (*Step, []*Result) {
	if x.step >= len(x.sc.Steps) {
		return nil, nil
	}
	st := x.sc.Steps[x.step]
	x.step++
	switch st.Op {
	case "state":
		x.state[st.Repo] = st.State
		x.repos[st.Repo].States[st.State].place(x.fs)
	case "damage":
		x.damage(st)
		x.fs.Checkpoint()
	case "wipe":
		x.fs.RemoveK(home + "/.cache")
		x.fs.Checkpoint()
	case "power":
		w := zz.NewWorld(x.fs, zz.Sched{}, 0)
		x.fs.PowerLoss(zz.NewRng(st.Seed), w)
		for k, v := range w.Stats {
			x.stats[k] += v
		}
		x.stats["fault power loss after the run"]++
	case "run":
		return st, x.run(st)
	default:
		trouble("unknown step %q", st.Op)
	}
	return st, nil
}

func (x *Exec) run(st *Step) []*Result {
	if !st.NoSync {
		x.fs.Checkpoint()
	}
	x.fs.Muts = nil
	x.fs.Limit = st.Limit - 1
	if st.Limit == 0 {
		x.fs.Limit = -1
	}
	var repos []*RepoState
	for _, inv := range st.Invs {
		repos = append(repos, x.repos[inv.Repo].States[x.state[inv.Repo]])
	}
	for _, inv := range st.Invs {
		for _, f := range inv.Faults {
			f.Fired = 0
		}
	}
	maxY := int64(0)
	for i, inv := range st.Invs {
		_, c := canonical(repos[i], inv, st.Wall)
		maxY += 2_000_000
		if c.Class != "hang" {
			maxY += min(40*c.Yields, 200_000_000)
		}
	}
	pid := x.step * 100
	if x.sc.SamePids {
		pid = 0
	}
	w, rs := runWorld(x.fs, st.Sched, st.Wall, x.sc.Knob, pid, x.states(), repos, st.Invs, maxY, x.verbose)
	x.fs.Limit = -1
	x.worlds++
	x.procs += len(rs)
	for k, v := range w.Stats {
		x.stats[k] += v
	}
	x.simNs += w.Now()
	x.opsMax = max(x.opsMax, w.Ops)
	x.ilh = (x.ilh ^ w.IlHash()) * 1099511628211
	h := fnv.New64a()
	for i, r := range rs {
		for _, m := range x.fs.Muts {
			if m.Proc == r.P.ID {
				r.Muts = append(r.Muts, m)
			}
		}
		fmt.Fprintf(h, "%d %s %d %q %q %d %d;", i, r.Class, r.P.Code, r.Out, r.P.Stderr, r.P.FsOps, r.P.EndAt)
		for _, f := range r.Inv.Faults {
			if f.Fired > 0 {
				x.fired = append(x.fired, f)
			}
		}
		x.stats["process "+r.Class]++
	}
	x.outh = (x.outh ^ h.Sum64()) * 1099511628211
	if x.verbose {
		x.events = append(x.events, fmt.Sprintf("--- step %d", x.step-1))
		x.events = append(x.events, w.Events...)
	}
	tr, pre := w.TraceOut()
	x.scheds = append(x.scheds, zz.Sched{Policy: st.Sched.Policy, PipeCap: st.Sched.PipeCap, Replay: true, Trace: tr, Preempt: pre})
	if st.Sched.Replay {
		x.scheds[len(x.scheds)-1] = st.Sched
	}
	return rs
}

// ---------------------------------------------------------------- canonical answers

// An Answer is what an invocation does alone, with an empty cache, without
// faults and in the simplest schedule.
type Answer struct {
	Class  string
	Out    string
	Code   int
	Stderr string
	Yields int64
	FsOps  int
	Panic  string
	EndAt  int64
	Git    []zz.GitRec
}

// canonYields bounds canonical runs; maxCanon is the longest seen.
const canonYields = 12_000_000

var maxCanon int64

var ansMemo = map[string]*Answer{}

func canonical(rs *RepoState, inv *Inv, wall int64) (string, *Answer) {
	c := *inv
	c.Faults = nil
	c.Env = map[string]string{}
	for k, v := range inv.Env {
		if k != "GIT_WHO_DISABLE_CACHE" && k != "XDG_CACHE_HOME" {
			c.Env[k] = v
		}
	}
	c.TTY = false
	b, _ := json.Marshal(c)
	key := rs.Dir + "\x00" + string(b) + "\x00" + fmt.Sprint(wall)
	if a := ansMemo[key]; a != nil {
		return key, a
	}
	fs := zz.NewFS()
	fs.MkdirAllK(home)
	fs.MkdirAllK("/tmp")
	rs.place(fs)
	fs.Checkpoint()
	w, r := runWorld(fs, zz.Sched{}, wall, 0, 0, map[string]*RepoState{rs.Repo.Spec.Dir: rs}, []*RepoState{rs}, []*Inv{&c}, canonYields, false)
	maxCanon = max(maxCanon, w.CurYield())
	a := &Answer{Class: r[0].Class, Out: r[0].Out, Code: r[0].P.Code, Stderr: string(r[0].P.Stderr), Yields: w.CurYield(), FsOps: r[0].P.FsOps, Panic: r[0].P.Panic, EndAt: r[0].P.EndAt, Git: r[0].P.GitLog}
	if len(ansMemo) > 8000 {
		ansMemo = map[string]*Answer{}
	}
	ansMemo[key] = a
	return key, a
}

func (r *Result) canon() *Answer {
	// the same second as the run under test
	wall := r.View.Now
	wall -= wall % 1e9
	wall += 5e8
	_, a := canonical(r.View.St, r.Inv, wall)
	return a
}

// sameAsCold says how a result differs from the canonical answer, "" if it
// does not.
func (r *Result) sameAsCold() string {
	a := r.canon()
	if a.Class != r.Class {
		return fmt.Sprintf("ended as %s, alone with an empty cache as %s", r.describe(), a.Class)
	}
	if a.Out != stripProgressIf(r) {
		return "printed another answer than with an empty cache: " + diffText(stripProgressIf(r), a.Out)
	}
	return ""
}

func stripProgressIf(r *Result) string {
	if r.Inv.TTY {
		return stripProgress(r.Out)
	}
	return r.Out
}

func (r *Result) describe() string {
	s := r.Class
	switch r.Class {
	case "panic":
		s += ": " + r.P.Panic
	case "hang":
		s += ": " + r.World.Stuck
	case "fail":
		s += fmt.Sprintf(" (exit %d: %s)", r.P.Code, clip(string(r.P.Stderr)))
	}
	return s
}

func (r *Result) cmdline() string {
	return fmt.Sprintf("%q in %q with %d CPUs", r.P.Args, r.P.Cwd, r.Inv.NCPU)
}

// ---------------------------------------------------------------- damage

func (x *Exec) cacheFiles() []string {
	var out []string
	for _, base := range []string{home + "/.cache/git-who", home + "/xdg/git-who"} {
		x.fs.WalkK(base, func(rel string, n *zz.Inode) {
			if !n.Dir {
				out = append(out, base+"/"+rel)
			}
		})
	}
	sort.Strings(out)
	return out
}

func (x *Exec) damage(st *Step) {
	d := st.Damage
	files := slices.DeleteFunc(x.cacheFiles(), func(p string) bool {
		return slices.ContainsFunc(x.sc.Files, func(f Decoy) bool { return f.Path == p })
	})
	if len(files) == 0 {
		return
	}
	p := files[d.File%len(files)]
	n, _ := x.fs.Lookup(p)
	data := append([]byte(nil), n.Data...)
	r := zz.NewRng(d.Seed)
	at := int(int64(len(data)) * d.At / 1000)
	x.stats["fault damage:"+d.Mode]++
	switch d.Mode {
	case "truncate":
		data = data[:at]
	case "flip":
		for k := int64(0); k < d.N && len(data) > 0; k++ {
			data[r.Intn(len(data))] ^= byte(1 << r.Intn(8))
		}
	case "overwrite":
		for k := at; k < min(len(data), at+int(d.N)); k++ {
			data[k] = byte(r.U64())
		}
	case "zero":
		for k := at; k < min(len(data), at+int(d.N)); k++ {
			data[k] = 0
		}
	case "garbage":
		data = make([]byte, d.N)
		for k := range data {
			data[k] = byte(r.U64())
		}
	case "empty":
		data = nil
	case "append":
		for k := int64(0); k < d.N; k++ {
			data = append(data, byte(r.U64()))
		}
	case "double":
		data = append(data, data...)
	default:
		data = damageInner(d, p, data, r, x)
	}
	if data == nil && d.Mode != "empty" {
		return
	}
	x.fs.Put(p, data)
	if os.Getenv("ZZ_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "damaged", p, d.Mode)
	}
}
