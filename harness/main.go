package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	zz "ZZMODULE/zzsim/zz"
	_ "ZZMODULE/zzsim/zzboot"
)

var softly bool // whether trouble is only a panic

// trouble ends the check without a verdict.
func trouble(f string, a ...any) {
	if softly {
		panic(fmt.Sprintf(f, a...))
	}
	fmt.Fprintf(os.Stderr, "TROUBLE: "+f+"\n", a...)
	if os.Getenv("ZZ_DEBUG") != "" {
		debug.PrintStack()
	}
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if scratch != "" {
		if os.Getenv("ZZ_KEEP") == "" {
			os.RemoveAll(scratch)
		}
	}
}

func initScratch() {
	base := os.Getenv("ZZ_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() && os.Getenv("ZZ_SCRATCH") == "" {
		var fs syscall.Statfs_t
		if syscall.Statfs("/dev/shm", &fs) == nil && uint64(fs.Bavail)*uint64(fs.Bsize) > 1<<30 {
			base = "/dev/shm"
		}
	}
	d, err := os.MkdirTemp(base, "zzcheck-")
	must(err)
	scratch = d
	must(os.WriteFile(filepath.Join(d, "pid"), []byte(strconv.Itoa(os.Getpid())), 0o644))
	must(os.MkdirAll(filepath.Join(d, "norepo"), 0o755))
	must(os.MkdirAll(filepath.Join(d, "home"), 0o755))
	gitEnvBase = []string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(d, "home"), "XDG_CONFIG_HOME=" + filepath.Join(d, "home"),
		"GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "GIT_CEILING_DIRECTORIES=" + d,
		"GIT_OPTIONAL_LOCKS=0", "GIT_TERMINAL_PROMPT=0", "GIT_PAGER=cat",
	}
}

// A Finding is a violation together with the scenario that shows it.
type Finding struct {
	Prop     string    `json:"property"`
	Msg      string    `json:"what"`
	Step     int       `json:"step"`
	Block    int       `json:"block"`
	Seed     int64     `json:"verif_seed"`
	Faults   []string  `json:"faults_fired,omitempty"`
	Scenario *Scenario `json:"scenario"`
	Original *Scenario `json:"-"`
}

// runScenario executes a scenario and decides the property along the way.
func runScenario(sc *Scenario, verbose bool) (*Exec, *Finding) {
	pd := props[sc.Prop]
	if pd == nil {
		trouble("unknown property %s", sc.Prop)
	}
	x := newExec(sc)
	x.verbose = verbose
	for {
		st, rs := x.next()
		if st == nil {
			return x, nil
		}
		if rs == nil {
			continue
		}
		if e := pd.check(x, st, rs); e != "" {
			f := &Finding{Prop: sc.Prop, Msg: e, Step: x.step - 1, Scenario: sc}
			for _, t := range x.fired {
				f.Faults = append(f.Faults, t.String())
			}
			return x, f
		}
	}
}

func (x *Exec) digest() uint64 { return x.ilh ^ x.outh*31 }

// ---------------------------------------------------------------- shrinking

type shrinker struct {
	end  time.Time
	best *Finding
	runs int
}

// possible tells whether the repositories of a scenario can be made and have
// the directories that git-who runs in.
func possible(sc *Scenario) (ok bool) {
	softly = true
	defer func() {
		softly = false
		if recover() != nil {
			ok = false
		}
	}()
	for i, s := range sc.Repos {
		r := build(s)
		for _, st := range sc.Steps {
			for _, v := range st.Invs {
				if v.Repo != i || v.Cwd == "" {
					continue
				}
				for _, rs := range r.States {
					if !slices.Contains(rs.dirs, strings.Trim(v.Cwd, "/")) {
						return false
					}
				}
			}
		}
	}
	return true
}

func (s *shrinker) try(sc *Scenario) bool {
	if time.Now().After(s.end) || !possible(sc) {
		return false
	}
	s.runs++
	x, f := runScenario(sc, false)
	if f == nil {
		return false
	}
	if violationClass(f.Msg) != violationClass(s.best.Msg) {
		return false
	}
	_ = x
	s.best = f
	return true
}

// violationClass keeps a shrink from drifting into another failure.
func violationClass(m string) string {
	for _, k := range []string{"panic:", "deadlock", "step budget", "another answer", "printed another", "asked git for", "did not succeed", "ended as", "outside its own", "without an error", "is gone", "caching is disabled", "differs from"} {
		if strings.Contains(m, k) {
			return k
		}
	}
	return ""
}

func shrink(f *Finding, budget time.Duration) *Finding {
	s := &shrinker{end: time.Now().Add(budget), best: f}
	cur := func() *Scenario { return clone(s.best.Scenario) }
	// nothing after the failing step matters
	c := cur()
	c.Steps = c.Steps[:s.best.Step+1]
	s.try(c)
	edit := func(fn func(sc *Scenario) bool) bool {
		c := cur()
		if !fn(c) {
			return false
		}
		return s.try(c)
	}
	for round := 0; round < 3; round++ {
		before := s.runs
		changed := false
		for i := len(s.best.Scenario.Steps) - 1; i >= 0; i-- {
			changed = edit(func(sc *Scenario) bool {
				if i >= len(sc.Steps) {
					return false
				}
				sc.Steps = append(sc.Steps[:i:i], sc.Steps[i+1:]...)
				return len(sc.Steps) > 0
			}) || changed
		}
		for i := range s.best.Scenario.Steps {
			for j := 0; j < 3; j++ {
				changed = edit(func(sc *Scenario) bool {
					st := sc.Steps[i]
					if j >= len(st.Invs) || len(st.Invs) < 2 {
						return false
					}
					st.Invs = append(st.Invs[:j:j], st.Invs[j+1:]...)
					return true
				}) || changed
				for k := 0; k < 3; k++ {
					changed = edit(func(sc *Scenario) bool {
						st := sc.Steps[i]
						if j >= len(st.Invs) || k >= len(st.Invs[j].Faults) {
							return false
						}
						fs := st.Invs[j].Faults
						st.Invs[j].Faults = append(fs[:k:k], fs[k+1:]...)
						return true
					}) || changed
				}
			}
			edit(func(sc *Scenario) bool { sc.Steps[i].Sched = zz.Sched{}; return true })
			edit(func(sc *Scenario) bool {
				if sc.Steps[i].Sched.Policy == "" {
					return false
				}
				sc.Steps[i].Sched.Frag, sc.Steps[i].Sched.PFrag = 0, 0
				return true
			})
			edit(func(sc *Scenario) bool {
				if sc.Steps[i].Sched.Gap == 0 {
					return false
				}
				sc.Steps[i].Sched.Gap = 0
				return true
			})
			for j := range s.best.Scenario.Steps[i].Invs {
				simp := []func(v *Inv) bool{
					func(v *Inv) bool { ok := v.NCPU > 2; v.NCPU = 2; return ok },
					func(v *Inv) bool { ok := v.TTY; v.TTY = false; return ok },
					func(v *Inv) bool { ok := v.TZ != ""; v.TZ = ""; return ok },
					func(v *Inv) bool { ok := v.Cwd != "" && len(v.Q.Paths) == 0; v.Cwd = ""; return ok },
					func(v *Inv) bool { ok := v.Q.Paths != nil && !v.Q.Dash; v.Q.Dash = ok; return ok },
					func(v *Inv) bool { ok := v.Q.Since != ""; v.Q.Since = ""; return ok },
					func(v *Inv) bool { ok := v.Q.Until != ""; v.Q.Until = ""; return ok },
					func(v *Inv) bool { ok := v.Q.Authors != nil; v.Q.Authors = nil; return ok },
					func(v *Inv) bool { ok := v.Q.Nauthors != nil; v.Q.Nauthors = nil; return ok },
					func(v *Inv) bool { ok := v.Q.Revs != nil; v.Q.Revs = nil; return ok },
					func(v *Inv) bool { ok := v.Q.Paths != nil; v.Q.Paths = nil; return ok },
					func(v *Inv) bool {
						ok := len(v.Q.Paths) > 1
						if ok {
							v.Q.Paths = v.Q.Paths[:1]
						}
						return ok
					},
					func(v *Inv) bool { ok := v.Q.Merges; v.Q.Merges = false; return ok },
					func(v *Inv) bool { ok := v.Q.Email; v.Q.Email = false; return ok },
					func(v *Inv) bool { ok := v.Q.All; v.Q.All = false; return ok },
					func(v *Inv) bool { ok := v.Q.Depth > 0; v.Q.Depth = 0; return ok },
				}
				for _, fn := range simp {
					edit(func(sc *Scenario) bool { return j < len(sc.Steps[i].Invs) && fn(sc.Steps[i].Invs[j]) })
				}
			}
		}
		for i := range s.best.Scenario.Repos {
			for s.best.Scenario.Repos[i].N > 1 {
				if !edit(func(sc *Scenario) bool { return cutRepo(sc, i, sc.Repos[i].N/2) }) &&
					!edit(func(sc *Scenario) bool { return cutRepo(sc, i, sc.Repos[i].N*3/4) }) &&
					!edit(func(sc *Scenario) bool { return cutRepo(sc, i, sc.Repos[i].N-1) }) {
					break
				}
				changed = true
			}
			for _, fn := range []func(r *RepoSpec){
				func(r *RepoSpec) { r.Weird = 0 }, func(r *RepoSpec) { r.Merge = 0 }, func(r *RepoSpec) { r.Alias = 0 }, func(r *RepoSpec) { r.Future = 0 },
				func(r *RepoSpec) { r.Epoch = 0 }, func(r *RepoSpec) { r.Empty = 0 }, func(r *RepoSpec) { r.Anon = 0 }, func(r *RepoSpec) { r.Rename = 0 },
				func(r *RepoSpec) { r.Binary = 0 }, func(r *RepoSpec) { r.Delete = 0 }, func(r *RepoSpec) { r.HexFile = false }, func(r *RepoSpec) { r.Huge = false },
				func(r *RepoSpec) { r.Bulk = 0 }, func(r *RepoSpec) { r.Wide = 0 }, func(r *RepoSpec) { r.Deep = 0 },
				func(r *RepoSpec) { r.DiffM = false }, func(r *RepoSpec) { r.Types = 0 }, func(r *RepoSpec) { r.Latin = 0 }, func(r *RepoSpec) { r.Trick = 0 }, func(r *RepoSpec) { r.Turn = 0 }, func(r *RepoSpec) { r.Roots = 0 }, func(r *RepoSpec) { r.Skew = 0 },
				func(r *RepoSpec) { r.Authors = 1 },
			} {
				edit(func(sc *Scenario) bool {
					old := sc.Repos[i].key()
					fn(&sc.Repos[i])
					return sc.Repos[i].key() != old
				})
			}
		}
		if !changed || s.runs == before {
			break
		}
	}
	// the schedule as a list of the choices that matter
	x, ff := runScenario(cur(), false)
	if ff != nil && len(x.scheds) > 0 {
		c := cur()
		k := 0
		for _, st := range c.Steps {
			if st.Op == "run" && k < len(x.scheds) {
				if st.Sched.Policy != "" {
					st.Sched = x.scheds[k]
				}
				k++
			}
		}
		if s.try(c) {
			for i := range s.best.Scenario.Steps {
				s.ddmin(i, func(z *zz.Sched) *[]zz.Dec { return &z.Preempt })
				s.ddmin(i, func(z *zz.Sched) *[]zz.Dec { return &z.Trace })
			}
		}
	}
	return s.best
}

func cutRepo(sc *Scenario, i, n int) bool {
	r := &sc.Repos[i]
	if n < 1 || n >= r.N {
		return false
	}
	old := r.N
	r.N = n
	r.States = append([]StateSpec(nil), r.States...)
	for j := range r.States {
		r.States[j].Commits = min(n, max(1, r.States[j].Commits*n/old))
		if r.States[j].Commits > n {
			r.States[j].Commits = n
		}
	}
	return true
}

func (s *shrinker) ddmin(step int, get func(z *zz.Sched) *[]zz.Dec) {
	list := *get(&s.best.Scenario.Steps[step].Sched)
	set := func(l []zz.Dec) bool {
		c := clone(s.best.Scenario)
		*get(&c.Steps[step].Sched) = l
		if s.try(c) {
			list = l
			return true
		}
		return false
	}
	if len(list) == 0 {
		return
	}
	if set(nil) {
		return
	}
	for n := 2; len(list) > 1; {
		size := (len(list) + n - 1) / n
		hit := false
		for o := 0; o < len(list); o += size {
			if time.Now().After(s.end) {
				return
			}
			rest := append(append([]zz.Dec{}, list[:o]...), list[min(len(list), o+size):]...)
			if set(rest) {
				hit = true
				n = max(2, n-1)
				break
			}
		}
		if !hit {
			if size == 1 {
				return
			}
			n = min(len(list), 2*n)
		}
	}
}

// ---------------------------------------------------------------- worker

type workerOut struct {
	Finding   *Finding         `json:"finding,omitempty"`
	Known     map[string]int   `json:"known,omitempty"`
	Scenarios int64            `json:"scenarios"`
	Worlds    int64            `json:"worlds"`
	Cold      int64            `json:"cold"`
	Procs     int64            `json:"procs"`
	Blocks    int64            `json:"blocks"`
	Nontriv   int64            `json:"nontriv"`
	SimNs     int64            `json:"simns"`
	Stats     map[string]int64 `json:"stats"`
	Hashes    []uint64         `json:"hashes"`
	IlHashes  []uint64         `json:"il"`
	Samples   []any            `json:"samples,omitempty"`
	Checked   int64            `json:"checked"`
	Self      string           `json:"self,omitempty"`
	Canary    string           `json:"canary,omitempty"`
	NGit      int64            `json:"ngit"`
	Kinds     map[string]int64 `json:"kinds"`
	MaxOps    int64            `json:"maxops"`
}

// canary is the same for every worker of every run: its digest shows whether
// separate processes agree.
func canary(prop string) string {
	g := newGen(prop, 4242, 999_999)
	g.pool = g.pool[:1]
	props[prop].gen(g)
	var b strings.Builder
	for i, sc := range g.out {
		if i >= 6 {
			break
		}
		x, f := runScenario(sc, false)
		fmt.Fprintf(&b, "%016x", x.digest())
		if f != nil {
			b.WriteString("!")
		}
	}
	return b.String()
}

// warmUp makes process-wide state that the code under test builds up lazily
// (such as type numbers of an encoder) the same in every process.
func warmUp() {
	s := RepoSpec{Seed: 7, Dir: "/warm/up", N: 4, Authors: 2, Now: 1_700_000_000, Dates: "days", States: []StateSpec{{Commits: 4}}}
	r := build(s)
	for _, cmd := range []string{"table", "tree", "hist"} {
		for k := 0; k < 2; k++ {
			fs := zz.NewFS()
			fs.MkdirAllK(home)
			r.States[0].place(fs)
			runWorld(fs, zz.Sched{}, 1_700_000_450*1e9, 0, 0, map[string]*RepoState{s.Dir: r.States[0]}, []*RepoState{r.States[0]}, []*Inv{{Q: Query{Cmd: cmd, Mode: "l", N: -1}, NCPU: 2}}, 3_000_000, false)
		}
	}
	nWorlds = 0
}

func hasFault(sc *Scenario) bool {
	for _, s := range sc.Steps {
		if s.Op == "damage" || s.Op == "power" || s.Limit > 0 {
			return true
		}
		for _, i := range s.Invs {
			if len(i.Faults) > 0 {
				return true
			}
		}
	}
	return false
}

func worker(prop string, seed int64, k, of int, budget time.Duration, maxBlocks int, out *bufio.Writer) {
	o := &workerOut{Stats: map[string]int64{}, Kinds: map[string]int64{}}
	end := time.Now().Add(budget)
	hashes := map[uint64]bool{}
	ils := map[uint64]bool{}
	pd := props[prop]
	o.Canary = canary(prop)
	first := 0
	if v := os.Getenv("ZZ_BLOCK"); v != "" {
		first, _ = strconv.Atoi(v)
	}
	stop := false
	for b := first + k; !stop && time.Now().Before(end) && b < first+maxBlocks; b += of {
		g := newGen(prop, uint64(seed), b)
		pd.gen(g)
		o.Blocks++
		for i, sc := range g.out {
			if time.Now().After(end) {
				break
			}
			x, f := runScenario(sc, false)
			o.Scenarios++
			o.Worlds += int64(x.worlds)
			o.Procs += int64(x.procs)
			o.SimNs += x.simNs
			o.Kinds[sc.Kind]++
			o.MaxOps = max(o.MaxOps, x.opsMax)
			for key, v := range x.stats {
				o.Stats[key] += v
			}
			d := x.digest()
			if !hashes[d] && (x.stats["process ok"] > 0 || len(x.fired) > 0) && (len(x.fired) > 0 || !hasFault(sc) || x.stats["fault power loss after the run"] > 0 || sumPrefix(x.stats, "fault ") > 0) {
				hashes[d] = true
				o.Nontriv++
			}
			ils[x.ilh] = true
			if o.Blocks == 1 && (i == 0 || i == len(g.out)/2) && k == 0 {
				o.Samples = append(o.Samples, sampleOf(sc, x))
			}
			if f != nil {
				if id := knownFinding(f); id != "" {
					if o.Known == nil {
						o.Known = map[string]int{}
					}
					o.Known[id]++
					continue
				}
				f.Block = b
				f.Seed = seed
				f.Original = sc
				s := f
				if os.Getenv("ZZ_NOSHRINK") == "" {
					s = shrink(f, 25*time.Second)
				}
				s.Block, s.Seed = b, seed
				o.Finding = s
				stop = true
				break
			}
			if i%29 == 7 {
				// the same scenario again must be the same execution
				y, _ := runScenario(clone(sc), false)
				o.Checked++
				if y.digest() != d {
					o.Self = fmt.Sprintf("block %d scenario %d is not deterministic: %x %x", b, i, d, y.digest())
					if os.Getenv("ZZ_DEBUG") != "" {
						dumpDiff(sc)
					}
					stop = true
					break
				}
			}
		}
		for _, p := range g.pool {
			delete(questPool, p)
			os.RemoveAll(p.repo.Root)
			delete(repoCache, p.repo.Key)
		}
		repoCache = map[string]*Repo{}
		gitMemo, gitMemoSize = map[gitKey]*zz.GitResp{}, 0
		ansMemo = map[string]*Answer{}
		selMemo = map[selKey][]string{}
	}
	for h := range hashes {
		o.Hashes = append(o.Hashes, h)
	}
	for h := range ils {
		o.IlHashes = append(o.IlHashes, h)
	}
	o.Cold = nWorlds - o.Worlds
	o.NGit = nGit
	if os.Getenv("ZZ_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "longest canonical run:", maxCanon)
	}
	data, err := json.Marshal(o)
	must(err)
	out.Write(data)
	out.WriteString("\n")
	out.Flush()
}

func dumpDiff(sc *Scenario) {
	var ev [2][]string
	for i := range ev {
		x, _ := runScenario(clone(sc), true)
		ev[i] = x.events
	}
	for i := range ev[0] {
		if i >= len(ev[1]) || ev[0][i] != ev[1][i] {
			fmt.Fprintln(os.Stderr, "first difference at event", i, "of", len(ev[0]), len(ev[1]))
			for j := max(0, i-5); j < i+5; j++ {
				if j < len(ev[0]) {
					fmt.Fprintln(os.Stderr, "A", ev[0][j])
				}
				if j < len(ev[1]) {
					fmt.Fprintln(os.Stderr, "B", ev[1][j])
				}
			}
			return
		}
	}
	fmt.Fprintln(os.Stderr, "events are equal", len(ev[0]), len(ev[1]))
}

func sumPrefix(m map[string]int64, p string) int64 {
	var t int64
	for k, v := range m {
		if strings.HasPrefix(k, p) {
			t += v
		}
	}
	return t
}

func sampleOf(sc *Scenario, x *Exec) any {
	type st struct {
		Op     string   `json:"op"`
		Cmds   []string `json:"commands,omitempty"`
		CPUs   []int    `json:"cpus,omitempty"`
		Faults []string `json:"faults,omitempty"`
		Sched  string   `json:"schedule,omitempty"`
		Detail string   `json:"detail,omitempty"`
	}
	var steps []st
	for _, s := range sc.Steps {
		n := st{Op: s.Op}
		switch s.Op {
		case "run":
			for _, i := range s.Invs {
				n.Cmds = append(n.Cmds, strings.Join(i.Q.Args(), " "))
				n.CPUs = append(n.CPUs, i.NCPU)
				for _, f := range i.Faults {
					n.Faults = append(n.Faults, fmt.Sprintf("%s fired=%d", f, f.Fired))
				}
			}
			n.Sched = fmt.Sprintf("%s seed=%d gap=%d frag=%d pfrag=%g pmap=%g pipe=%d", s.Sched.Policy, s.Sched.Seed, s.Sched.Gap, s.Sched.Frag, s.Sched.PFrag, s.Sched.PMap, s.Sched.PipeCap)
		case "state":
			n.Detail = fmt.Sprintf("repository %d now in state %d: %+v", s.Repo, s.State, sc.Repos[s.Repo].States[s.State])
		case "damage":
			n.Detail = fmt.Sprintf("%+v", *s.Damage)
		}
		steps = append(steps, n)
	}
	r := sc.Repos[0]
	return map[string]any{"scenario_seed": sc.Seed, "kind": sc.Kind, "commits": r.N, "authors": r.Authors, "dates": r.Dates, "unit_of_work": sc.Knob,
		"steps": steps, "digest": fmt.Sprintf("%016x", x.digest()), "simulated_ms": x.simNs / 1e6, "operations": x.opsMax}
}

// ---------------------------------------------------------------- known findings

type known struct{ prop, match, text string }

var knownList []known

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 match="text of the violation" <description>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		p, rest, _ := strings.Cut(rest, " ")
		rest = strings.TrimPrefix(rest, "match=")
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			trouble("known findings: %q: %v", l, err)
		}
		m, _ := strconv.Unquote(q)
		knownList = append(knownList, known{p, m, strings.TrimSpace(rest[len(q):])})
	}
}

func knownFinding(f *Finding) string {
	for _, k := range knownList {
		if k.prop == f.Prop && strings.Contains(f.Msg, k.match) {
			return k.text
		}
	}
	return ""
}

// ---------------------------------------------------------------- orchestrator

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	evid := flag.String("evidence", "", "evidence file")
	replays := flag.String("replays", "replays", "directory for replay files")
	replay := flag.String("replay", "", "replay a file")
	verbose := flag.Bool("v", false, "print events of a replay")
	nw := flag.Int("workers", runtime.NumCPU(), "worker processes")
	wk := flag.Int("worker", -1, "")
	budget := flag.Duration("budget", 0, "time for exploring")
	blocks := flag.Int("blocks", 1<<40, "number of blocks")
	knownFile := flag.String("known", "", "known findings")
	t0 := flag.Int64("t0", 0, "when the check started, unix ms")
	digests := flag.Int("digests", -1, "print the digests of one block")
	flag.Parse()
	if props[*prop] == nil && *replay == "" {
		trouble("unknown property %q", *prop)
	}
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(300)
	loadKnown(*knownFile)
	if *digests >= 0 {
		initScratch()
		warmUp()
		g := newGen(*prop, uint64(*seed), *digests)
		props[*prop].gen(g)
		for i, sc := range g.out {
			x, f := runScenario(sc, false)
			fmt.Printf("%d %016x %016x %v\n", i, x.ilh, x.outh, f != nil)
		}
		cleanup()
		return
	}
	if *replay != "" {
		initScratch()
		warmUp()
		os.Exit(doReplay(*replay, *verbose))
	}
	if *wk >= 0 {
		initScratch()
		warmUp()
		w := bufio.NewWriter(os.Stdout)
		worker(*prop, *seed, *wk, *nw, *budget, *blocks, w)
		cleanup()
		return
	}
	start := time.Now()
	if *t0 > 0 {
		start = time.UnixMilli(*t0)
	}
	os.Exit(orchestrate(*prop, *tier, *seed, *evid, *replays, *nw, *budget, *blocks, start))
}

func doReplay(path string, verbose bool) int {
	defer cleanup()
	b, err := os.ReadFile(path)
	must(err)
	var f Finding
	must(json.Unmarshal(b, &f))
	x, g := runScenario(f.Scenario, verbose)
	if verbose {
		for _, e := range x.events {
			fmt.Println(e)
		}
	}
	if g == nil {
		fmt.Printf("replay of %s: the property %s held\n", path, f.Prop)
		return 0
	}
	fmt.Printf("%s\n", g.Msg)
	for _, s := range g.Faults {
		fmt.Printf("  fault: %s\n", s)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, path)
	return 1
}

func orchestrate(prop, tier string, seed int64, evid, replays string, nw int, budget time.Duration, blocks int, start time.Time) int {
	self, err := os.Executable()
	must(err)
	fmt.Printf("property %s, tier %s, VERIF_SEED=%d, %d workers, budget %v\n", prop, tier, seed, nw, budget)
	type res struct {
		k   int
		o   *workerOut
		err string
	}
	ch := make(chan res, nw)
	var mu sync.Mutex
	var cmds []*exec.Cmd
	explore := time.Now()
	for k := 0; k < nw; k++ {
		args := append([]string{}, os.Args[1:]...)
		args = append(args, "-worker", strconv.Itoa(k), "-workers", strconv.Itoa(nw), "-budget", budget.String())
		c := exec.Command(self, args...)
		var ob, eb bytes.Buffer
		c.Stdout, c.Stderr = &ob, &eb
		c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
		mu.Lock()
		cmds = append(cmds, c)
		mu.Unlock()
		go func(k int) {
			runtime.LockOSThread()
			err := c.Run()
			r := res{k: k}
			if err != nil {
				r.err = fmt.Sprintf("worker %d: %v\n%s", k, err, tail(eb.String()))
			} else {
				r.o = &workerOut{}
				if e := json.Unmarshal(ob.Bytes(), r.o); e != nil {
					r.err = fmt.Sprintf("worker %d: bad output: %v\n%s", k, e, tail(eb.String()))
				}
			}
			if eb.Len() > 0 && os.Getenv("ZZ_DEBUG") != "" {
				os.Stderr.Write(eb.Bytes())
			}
			ch <- r
		}(k)
	}
	limit := time.After(budget + 120*time.Second)
	var outs []*workerOut
	var errs []string
	killAll := func() {
		for _, c := range cmds {
			if c.Process != nil {
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			}
		}
	}
	var finding *Finding
	n := 0
wait:
	for n < nw {
		select {
		case r := <-ch:
			n++
			if r.err != "" {
				errs = append(errs, r.err)
				continue
			}
			outs = append(outs, r.o)
			if r.o.Finding != nil && finding == nil {
				finding = r.o.Finding
				break wait
			}
		case <-limit:
			errs = append(errs, "time limit of the check exceeded: a run of the simulator did not come back")
			break wait
		}
	}
	exploreS := time.Since(explore).Seconds()
	killAll()
	for ; n < nw; n++ {
		select {
		case <-ch:
		case <-time.After(5 * time.Second):
		}
	}
	sweepScratch(cmds)
	if finding != nil {
		must(os.MkdirAll(replays, 0o755))
		path := filepath.Join(replays, fmt.Sprintf("%s-%d-%x.json", prop, seed, mix(finding.Scenario.Seed, strSeed(finding.Msg))&0xffffff))
		writeJSON(path, finding)
		// it has to fail the same way in a fresh process
		c := exec.Command(self, "-replay", path)
		c.Stderr = os.Stderr
		out, _ := c.Output()
		code := c.ProcessState.ExitCode()
		if code != 1 {
			fmt.Fprintf(os.Stderr, "%s\nTROUBLE: a violation was seen but its replay ended with %d: %s\n", out, code, finding.Msg)
			return 2
		}
		fmt.Println(finding.Msg)
		for _, f := range finding.Faults {
			fmt.Println("  fault:", f)
		}
		writeEvidence(evid, prop, tier, seed, outs, start, exploreS, 1, nw)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if len(errs) > 0 {
		fmt.Fprintln(os.Stderr, "TROUBLE:", strings.Join(errs, "\n"))
		return 2
	}
	for _, o := range outs {
		if o.Self != "" {
			fmt.Fprintln(os.Stderr, "TROUBLE:", o.Self)
			return 2
		}
		if o.Canary != outs[0].Canary {
			fmt.Fprintln(os.Stderr, "TROUBLE: processes disagree about the same scenarios:", o.Canary, outs[0].Canary)
			return 2
		}
	}
	kn := map[string]int{}
	for _, o := range outs {
		for k, v := range o.Known {
			kn[k] += v
		}
	}
	for _, k := range keysOf(kn) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", prop, k, kn[k])
	}
	writeEvidence(evid, prop, tier, seed, outs, start, exploreS, 0, nw)
	var sc, w int64
	for _, o := range outs {
		sc += o.Scenarios
		w += o.Worlds
	}
	fmt.Printf("property %s held in %d scenarios (%d simulated worlds)\n", prop, sc, w)
	return 0
}

// sweepScratch removes what killed workers left behind.
func sweepScratch(cmds []*exec.Cmd) {
	for _, base := range []string{"/dev/shm", os.TempDir()} {
		m, _ := filepath.Glob(filepath.Join(base, "zzcheck-*"))
		for _, d := range m {
			b, err := os.ReadFile(filepath.Join(d, "pid"))
			if err != nil {
				continue
			}
			for _, c := range cmds {
				if c.Process != nil && strconv.Itoa(c.Process.Pid) == string(b) {
					os.RemoveAll(d)
				}
			}
		}
	}
}

func tail(s string) string {
	if len(s) > 4000 {
		return s[len(s)-4000:]
	}
	return s
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	must(os.WriteFile(path, append(b, '\n'), 0o644))
}

func writeEvidence(path, prop, tier string, seed int64, outs []*workerOut, start time.Time, exploreS float64, violations, nw int) {
	if path == "" {
		return
	}
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	var t workerOut
	t.Stats, t.Kinds = map[string]int64{}, map[string]int64{}
	hs, ils := map[uint64]bool{}, map[uint64]bool{}
	for _, o := range outs {
		t.Scenarios += o.Scenarios
		t.Worlds += o.Worlds
		t.Cold += o.Cold
		t.Procs += o.Procs
		t.Blocks += o.Blocks
		t.SimNs += o.SimNs
		t.Checked += o.Checked
		t.NGit += o.NGit
		t.MaxOps = max(t.MaxOps, o.MaxOps)
		for k, v := range o.Stats {
			t.Stats[k] += v
		}
		for k, v := range o.Kinds {
			t.Kinds[k] += v
		}
		for _, h := range o.Hashes {
			hs[h] = true
		}
		for _, h := range o.IlHashes {
			ils[h] = true
		}
		t.Samples = append(t.Samples, o.Samples...)
	}
	if len(t.Samples) == 0 {
		t.Samples = append(t.Samples, "the run ended at its first violation; see the replay file")
	}
	faults, probes, other, outcomes := map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]int64{}
	for k, v := range t.Stats {
		switch {
		case strings.HasPrefix(k, "fault "):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "process "):
			outcomes[k[8:]] = v
		case strings.HasPrefix(k, "probe "):
			probes[k[6:]] = v
		default:
			other[k] = v
		}
	}
	hours := exploreS / 3600
	cov := map[string]any{
		"evaluations":         t.Scenarios,
		"distinct_nontrivial": len(hs),
		"rule": "A case is one scenario (one seed): a generated history, a sequence of git-who processes over it with a schedule and faults drawn from the seed, and the repository edits, damage and power cuts between them. " +
			"It counts as non-trivial if a process finished successfully or a fault fired, and if every scenario with planned faults had one fire; it counts as distinct if the hash over every task switch, output, exit status and end time of its processes is new.",
		"samples":                        t.Samples,
		"blocks":                         t.Blocks,
		"simulated_worlds":               t.Worlds,
		"simulated_processes":            t.Procs,
		"further_worlds_for_oracles":     t.Cold,
		"simulated_seconds":              float64(t.SimNs) / 1e9,
		"distinct_interleavings":         len(ils),
		"interleaving_measure":           "hash over the sequence of tasks that ran in all worlds of a scenario",
		"runs_per_hour":                  int64(float64(t.Worlds) / hours),
		"seeds_per_hour":                 int64(float64(t.Scenarios) / hours),
		"explore_seconds":                exploreS,
		"workers":                        nw,
		"most_operations_in_one_world":   t.MaxOps,
		"process_outcomes":               outcomes,
		"faults_injected":                faults,
		"events_counted":                 other,
		"scenario_kinds":                 t.Kinds,
		"scenarios_run_twice_for_replay": t.Checked,
		"real_git_executions":            t.NGit,
		"real_code":                      "all of git-who (main and every internal package), rewritten at the source level from /repo's working tree only where it touches scheduling, channels, maps, clocks, files, processes and the environment; gob, gzip and CSV coding from the standard library; git itself (its answers to each command are computed by the real git and delivered through simulated pipes)",
		"stubs":                          "goroutine scheduler, channels and sync, clock and timers, file system, processes and pipes, environment, standard streams",
	}
	if len(probes) > 0 {
		cov["probes"] = probes
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"seeded sampling: absence of a violation is evidence, not proof",
			"pre-emption happens between statements of git-who's code and at every operation on channels, files, pipes and processes",
			"git's answer to a command is a function of the repository's state and the command",
			"the disk keeps directory operations in order (journal) and may lose or tear unsynced file contents at a power cut",
		},
		"wall_s": time.Since(start).Seconds(), "violations": violations,
	}
	writeJSON(path, ev)
}

var _ = sort.Strings
