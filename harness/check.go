package main

import (
	"fmt"
	"path"
	"slices"
	"strings"

	zz "ZZMODULE/zzsim/zz"
)

// A propDef says how one property is explored and decided.
type propDef struct {
	gen   func(g *Gen)
	check func(x *Exec, st *Step, rs []*Result) string
}

var props map[string]*propDef

func init() {
	props = map[string]*propDef{
		"C01": {genRef(defOpt("table")), checkRef},
		"C02": {genRef(treeOpt()), checkRef},
		"C03": {genHist, checkRef},
		"C04": {genCacheSeq, checkCold},
		"C05": {genCrash, checkCrash},
		"C06": {genDamage, checkDamage},
		"C07": {genCacheIO, checkCacheIO},
		"C08": {genGitFail, checkGitFail},
		"C09": {genPoison, checkPoison},
		"C10": {genAny, checkHang},
		"C11": {genConcurrent, checkConcurrent},
		"C12": {genTwice, checkTwice},
		"C13": {genCPUs, checkCPUs},
		"C14": {genAttribution, checkRef},
		"C15": {genIsolation, checkIsolation},
		"C16": {genClock, checkClock},
		"C17": {genAny, checkPanic},
		"C18": {genReuse, checkReuse},
		"C19": {genStream, checkStream},
		"C20": {genScope, checkRef},
		"C21": {genMerges, checkRef},
		"C22": {genSettings, checkRef},
		"C23": {genInputIO, checkCacheIO},
		"C24": {genFullOut, checkFullOut},
		"C25": {genFilter, checkRef},
		"C26": {genLoad, checkLoad},
		"C27": {genLitter, checkLitter},
	}
}

// ---------------------------------------------------------------- oracles

// refCheck holds a fault-free invocation against the reference.
func refCheck(r *Result, nows ...int64) string {
	q := &r.Inv.Q
	if len(nows) == 0 {
		nows = []int64{r.View.Now}
	}
	_, ok := selected(q, r.View)
	if !ok {
		if r.Class == "fail" && len(r.P.Stderr) > 0 {
			return ""
		}
		if r.Class == "fail" {
			return "failed without an error message"
		}
		return "git refuses this selection, but the run " + r.describe()
	}
	if r.Class != "ok" {
		return "did not succeed: " + r.describe()
	}
	if e := refCompare(q, r.View, r.Out, nows); e != "" {
		return e
	}
	return ""
}

func perResult(rs []*Result, f func(r *Result) string) string {
	for _, r := range rs {
		if e := f(r); e != "" {
			return r.cmdline() + ": " + e
		}
	}
	return ""
}

func checkRef(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string { return refCheck(r) })
}

func checkCold(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string { return r.sameAsCold() })
}

// rightOrError is what is asked of a run under a fault.
func rightOrError(r *Result) string {
	switch r.Class {
	case "ok":
		return r.sameAsCold()
	case "fail":
		if len(r.P.Stderr) == 0 {
			return "failed without an error message"
		}
		return ""
	}
	return "ended as " + r.describe()
}

// ---------------------------------------------------------------- C01 C02 C03 C14 C20 C21

func treeOpt() qopt {
	o := defOpt("tree")
	o.cwd = .25
	return o
}

func genRef(o qopt) func(g *Gen) {
	return func(g *Gen) {
		for k := 0; k < 8; k++ {
			p := g.repo()
			q := g.quest(p, "ref", o, 5)
			for v := 0; v < 5; v++ {
				sc := g.newScenario("ref", p)
				wall := p.wall
				for n := 1 + weighted(g.r, 60, 25, 15); n > 0; n-- {
					if len(sc.Steps) > 0 {
						q = g.quest(p, "ref", o, 5)
						if g.r.P(.5) {
							sc.Steps = append(sc.Steps, g.stateStep(0, p))
						}
					} else if g.r.P(.6) {
						sc.Steps = append(sc.Steps, &Step{Op: "state", State: len(p.spec.States) - 1})
					}
					inv := g.inv(q, 0, g.anyCPU())
					inv.TTY = g.r.P(.1)
					sc.Steps = append(sc.Steps, g.runStep(p, wall, inv))
					wall = g.later(wall, p)
				}
				g.emit(sc)
			}
		}
	}
}

func genHist(g *Gen) {
	o := defOpt("hist")
	for k := 0; k < 8; k++ {
		p := g.repo()
		zone := ""
		if z, ok := strings.CutPrefix(p.spec.Dates, "dst:"); ok {
			zone = z
		} else if g.r.P(.4) {
			zone = zones[g.r.Intn(len(zones))]
		}
		q := g.quest(p, "hist", o, 5)
		wall := p.wall
		if g.r.P(.3) { // much later
			wall = wallFor(wall/1e9+int64(pick(g.r, 1, 30, 55, 70, 400, 2500))*86400, p.repo)
		}
		for v := 0; v < 5; v++ {
			sc := g.newScenario("hist", p)
			sc.Steps = append(sc.Steps, &Step{Op: "state", State: len(p.spec.States) - 1})
			for n := 1 + weighted(g.r, 70, 30); n > 0; n-- {
				inv := g.inv(q, 0, g.anyCPU())
				inv.TZ = zone
				sc.Steps = append(sc.Steps, g.runStep(p, wall, inv))
				q = g.quest(p, "hist", o, 5)
				if g.r.P(.2) {
					zone = zones[g.r.Intn(len(zones))]
				}
			}
			g.emit(sc)
		}
	}
}

func genAttribution(g *Gen) {
	o := defOpt("table", "table", "tree", "hist", "parse")
	o.csv = .7
	o.paths, o.revs = .1, .1
	for k := 0; k < 10; k++ {
		p := g.repo()
		for v := 0; v < 3; v++ {
			sc := g.newScenario("attr", p)
			wall := p.wall
			for n := 2 + g.r.Intn(4); n > 0; n-- {
				sc.Steps = append(sc.Steps, g.stateStep(0, p))
				q := g.quest(p, "attr", o, 6)
				sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(q, 0, g.anyCPU())))
				wall = g.later(wall, p)
			}
			g.emit(sc)
		}
	}
}

func genScope(g *Gen) {
	o := defOpt("table", "table", "tree", "hist")
	o.paths, o.revs, o.cwd, o.diff, o.csv = .8, .35, .35, .9, .7
	for k := 0; k < 10; k++ {
		p := g.repo()
		for v := 0; v < 3; v++ {
			sc := g.newScenario("scope", p)
			wall := p.wall
			if g.r.P(.7) {
				sc.Steps = append(sc.Steps, &Step{Op: "state", State: len(p.spec.States) - 1})
			}
			for n := 1 + g.r.Intn(4); n > 0; n-- {
				if g.r.P(.2) {
					sc.Steps = append(sc.Steps, g.stateStep(0, p))
				}
				q := g.quest(p, "scope", o, 8)
				sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(q, 0, g.anyCPU())))
				wall = g.later(wall, p)
			}
			g.emit(sc)
		}
	}
}

func genFilter(g *Gen) {
	o := defOpt("table", "table", "tree", "hist", "parse", "dump")
	o.csv, o.filter, o.paths, o.revs = .7, 6, .15, .15
	for k := 0; k < 10; k++ {
		p := g.repo()
		for v := 0; v < 3; v++ {
			sc := g.newScenario("filter", p)
			wall := p.wall
			if g.r.P(.7) {
				sc.Steps = append(sc.Steps, &Step{Op: "state", State: len(p.spec.States) - 1})
			}
			for n := 1 + g.r.Intn(4); n > 0; n-- {
				if g.r.P(.2) {
					sc.Steps = append(sc.Steps, g.stateStep(0, p))
				}
				q := g.quest(p, "filter", o, 8)
				if q.Q.Cmd != "parse" && q.Q.Cmd != "dump" && g.r.P(.2) {
					// the same commits in another form
					q.Q.Merges, q.Q.Email = g.r.P(.4), g.r.P(.4)
				}
				sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(q, 0, g.anyCPU())))
				wall = g.later(wall, p)
			}
			g.emit(sc)
		}
	}
}

var gitKinds = []string{"rev-parse", "config", "ls-files", "log", "log-stdin"}

func genSettings(g *Gen) {
	o := defOpt("table", "table", "tree", "hist", "parse", "dump")
	o.csv, o.cwd, o.paths = .7, .35, .3
	for k := 0; k < 10; k++ {
		p := g.repo()
		for v := 0; v < 3; v++ {
			sc := g.newScenario("settings", p)
			wall := p.wall
			for n := 1 + g.r.Intn(4); n > 0; n-- {
				sc.Steps = append(sc.Steps, g.stateStep(0, p))
				q := g.quest(p, "settings", o, 8)
				inv := g.inv(q, 0, g.anyCPU())
				if g.r.P(.25) {
					// git warns about something
					all := g.r.P(.4)
					for _, k := range gitKinds {
						if all || g.r.P(.25) {
							inv.Faults = append(inv.Faults, &zz.Fault{Kind: "git", Op: k, Rep: 1 << 20, Mode: "flood", Arg: int64(pick(g.r, 1, 1, 90, 3000))})
						}
					}
				}
				sc.Steps = append(sc.Steps, g.runStep(p, wall, inv))
				wall = g.later(wall, p)
			}
			g.emit(sc)
		}
	}
}

func genMerges(g *Gen) {
	o := defOpt("table", "table", "tree", "hist", "parse")
	o.csv = .7
	for k := 0; k < 10; k++ {
		p := g.repo()
		for v := 0; v < 3; v++ {
			sc := g.newScenario("merges", p)
			wall := p.wall
			sc.Steps = append(sc.Steps, &Step{Op: "state", State: len(p.spec.States) - 1})
			for n := 1 + g.r.Intn(3); n > 0; n-- {
				q := g.quest(p, "merges", o, 6)
				if q.Q.Cmd != "parse" {
					q.Q.Merges = g.r.P(.5)
				}
				sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(q, 0, g.anyCPU())))
				wall = g.later(wall, p)
			}
			g.emit(sc)
		}
	}
}

// ---------------------------------------------------------------- C04 cache transparency

func genCacheSeq(g *Gen) {
	o := defOpt("table", "table", "tree", "hist")
	o.diff = .85
	for k := 0; k < 12; k++ {
		p := g.repo()
		for v := 0; v < 3; v++ {
			sc := g.newScenario("sequence", p)
			wall := p.wall
			tz := ""
			for n := 2 + g.r.Intn(5); n > 0; n-- {
				if g.r.P(.6) {
					sc.Steps = append(sc.Steps, g.stateStep(0, p))
				}
				if g.r.P(.1) {
					tz = zones[g.r.Intn(len(zones))]
				}
				q := g.quest(p, "seq", o, 6)
				inv := g.inv(q, 0, g.ncpu())
				if g.r.P(.1) {
					inv.NCPU = 1
				}
				inv.TZ = tz
				inv.TTY = g.r.P(.1)
				sc.Steps = append(sc.Steps, g.runStep(p, wall, inv))
				wall = g.later(wall, p)
			}
			g.emit(sc)
		}
	}
}

// ---------------------------------------------------------------- C05 crashes

func healthy(g *Gen, sc *Scenario, p *poolRepo, wall int64, key string, o qopt, n int) {
	for ; n > 0; n-- {
		q := g.quest(p, key, o, 4)
		sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(q, 0, g.ncpu())))
		if n > 1 && g.r.P(.3) {
			sc.Steps = append(sc.Steps, g.stateStep(0, p))
		}
	}
}

func cacheOpt() qopt {
	o := defOpt("table", "table", "tree", "hist")
	o.diff = 1
	o.paths, o.revs, o.empty, o.cwd = .1, .15, .02, .1
	return o
}

// warm adds the steps before the one under fault.
func (g *Gen) warm(sc *Scenario, p *poolRepo, wall int64, key string, o qopt, prob float64) {
	if g.r.P(prob) {
		sc.Steps = append(sc.Steps, &Step{Op: "state", State: g.r.Intn(len(p.spec.States))})
		q := g.quest(p, key, o, 4)
		sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(q, 0, g.ncpu())))
		sc.Steps = append(sc.Steps, g.stateStep(0, p))
	} else if g.r.P(.7) {
		sc.Steps = append(sc.Steps, &Step{Op: "state", State: len(p.spec.States) - 1})
	}
}

// victim adds the step under fault and returns its index.
func (g *Gen) victim(sc *Scenario, p *poolRepo, wall int64, key string, o qopt) (int, *Step) {
	q := g.quest(p, key, o, 4)
	st := g.runStep(p, wall, g.inv(q, 0, g.ncpu()))
	st.Role = "fault"
	sc.Steps = append(sc.Steps, st)
	return len(sc.Steps) - 1, st
}

func genCrash(g *Gen) {
	o := cacheOpt()
	for k := 0; k < 8; k++ {
		p := g.repo()
		base := g.newScenario("crash", p)
		g.warm(base, p, p.wall, "crash", o, .4)
		wipe := g.r.P(.25)
		if wipe {
			// crash while a cache is wiped
			if len(base.Steps) == 0 || g.r.P(.5) {
				healthy(g, base, p, p.wall, "crash", o, 1)
			}
			base.Steps = append(base.Steps, g.damage())
		}
		i, _ := g.victim(base, p, p.wall, "crash", o)
		_, rs := probe(base, i)
		for v := 0; v < 6; v++ {
			sc := clone(base)
			sc.Seed = g.r.U64()
			st := sc.Steps[i]
			inv := st.Invs[0]
			switch weighted(g.r, 60, 15, 25) {
			case 0:
				inv.Faults = []*zz.Fault{g.killFault(rs[0].P, "", "", "power", "power", "int", "term")}
			case 1:
				// Ctrl-C: git dies and the process itself a little later
				f := g.gitFault(rs[0].P.GitLog, false, "log-stdin")
				if f == nil {
					f = g.gitFault(rs[0].P.GitLog, false, "")
				}
				f.Mode, f.Arg, f.Arg2, f.Rep = "signal", g.permille(), 2, 1000
				inv.Faults = []*zz.Fault{f, g.killFault(rs[0].P, "", "int")}
			case 2:
				// power fails after the run has ended
				sc.Steps = append(sc.Steps, &Step{Op: "power", Seed: g.r.U64()})
			}
			if g.r.P(.15) && inv.Faults != nil {
				// again
				q := g.quest(p, "crash", o, 4)
				st2 := g.runStep(p, p.wall, g.inv(q, 0, g.ncpu()))
				st2.Role = "fault"
				st2.Invs[0].Faults = []*zz.Fault{g.killFault(rs[0].P, "", "power")}
				if g.r.P(.5) {
					st2.NoSync = true
				}
				sc.Steps = append(sc.Steps, st2)
			}
			wall := g.later(p.wall, p)
			healthy(g, sc, p, wall, "crash", o, 1+weighted(g.r, 30, 60, 10))
			if wipe && g.r.P(.6) {
				sc.Steps = append(sc.Steps, g.damage())
				healthy(g, sc, p, wall, "crash", o, 1+g.r.Intn(2))
			}
			g.emit(sc)
		}
	}
}

func checkCrash(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		if st.Role == "fault" {
			if r.Class == "killed" {
				return ""
			}
			// it outran its crash, or handled the signal
			if r.Class == "fail" {
				return ""
			}
			if r.Class == "ok" {
				return r.sameAsCold()
			}
			return "ended as " + r.describe()
		}
		return r.sameAsCold()
	})
}

// ---------------------------------------------------------------- C06 damage

func genDamage(g *Gen) {
	o := cacheOpt()
	for k := 0; k < 8; k++ {
		p := g.repo()
		for v := 0; v < 6; v++ {
			sc := g.newScenario("damage", p)
			wall := p.wall
			if g.r.P(.7) {
				sc.Steps = append(sc.Steps, &Step{Op: "state", State: g.r.Intn(len(p.spec.States))})
			}
			healthy(g, sc, p, wall, "damage", o, 1+weighted(g.r, 70, 30))
			for n := 1 + weighted(g.r, 80, 20); n > 0; n-- {
				sc.Steps = append(sc.Steps, g.damage())
			}
			if g.r.P(.25) {
				sc.Steps = append(sc.Steps, g.stateStep(0, p))
			}
			q := g.quest(p, "damage", o, 4)
			wall = g.later(wall, p)
			sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(q, 0, g.ncpu())))
			// and once more the same: now it has to come from the cache
			sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(q, 0, g.ncpu())))
			if g.r.P(.3) {
				healthy(g, sc, p, wall, "damage", o, 1)
			}
			g.emit(sc)
		}
	}
}

func checkDamage(x *Exec, st *Step, rs []*Result) string {
	if e := checkCold(x, st, rs); e != "" {
		return e
	}
	return checkReuse(x, st, rs)
}

// ---------------------------------------------------------------- C18 reuse

// A reuseLog keeps which commits successful parallel runs have processed, per
// repository, under the mailmap they last ran with.
type reuseLog struct {
	mm   map[string]string
	done map[string]map[string]bool
	// Damage to a record is found only when it is asked for, so a repository
	// whose cache was damaged may lose it once more, to a run that asks for
	// commits no run since has asked for.
	doubt map[string]bool
}

// cacheKey is all that may make what was cached useless.
func (st *RepoState) cacheKey() string {
	s := fmt.Sprintf("%v%q %v%q %q", st.HasMM, st.Mailmap, st.HasEx, st.Extra, st.Shallow)
	for _, x := range st.Repo.Spec.States[st.Idx].Settings {
		if diffSetting.MatchString(x) {
			s += " " + x
		}
	}
	return s
}

func checkReuse(x *Exec, st *Step, rs []*Result) string {
	l, _ := x.notes["reuse"].(*reuseLog)
	if l == nil {
		l = &reuseLog{map[string]string{}, map[string]map[string]bool{}, map[string]bool{}}
		x.notes["reuse"] = l
		x.notes["reuseStep"] = 0
	}
	// damage, wiping and power loss since the last run void what was stored
	for i := x.notes["reuseStep"].(int); i < x.step; i++ {
		switch x.sc.Steps[i].Op {
		case "damage", "wipe", "power":
			l.done = map[string]map[string]bool{}
			for _, r := range x.sc.Repos {
				l.doubt[r.Dir] = true
			}
		}
	}
	x.notes["reuseStep"] = x.step
	return perResult(rs, func(r *Result) string {
		q := &r.Inv.Q
		if !q.parallel(r.Inv.NCPU) || r.Inv.Env["GIT_WHO_DISABLE_CACHE"] != "" {
			return ""
		}
		dir := r.View.St.Repo.Spec.Dir
		if r.Class != "ok" {
			// a crash or an error may have cost the cache anything
			if r.Class != "fail" || len(r.Inv.Faults) > 0 {
				delete(l.done, dir)
			}
			return ""
		}
		key := r.View.St.cacheKey()
		if l.mm[dir] != key {
			// another mailmap: nothing may be reused
			l.mm[dir] = key
			delete(l.done, dir)
		}
		done := l.done[dir]
		if done == nil {
			done = map[string]bool{}
			l.done[dir] = done
		}
		again := 0
		ex := ""
		rcs, ok := counted(q, r.View, r.View.Now)
		if !ok {
			return ""
		}
		for _, h := range keysOf(r.Req) {
			if done[h] {
				again++
				ex = h
			}
		}
		x.stats["commits asked of git"] += int64(len(r.Req))
		x.stats["commits selected"] += int64(len(rcs))
		fresh := false
		for _, c := range rcs {
			fresh = fresh || !done[c.Hash]
		}
		if again > 0 && fresh && l.doubt[dir] {
			again = 0
			l.doubt[dir] = false
			clear(done)
		}
		if again > 0 {
			return fmt.Sprintf("asked git for %d commits that an earlier successful run had processed, for instance %s (%d requested in all)", again, ex, len(r.Req))
		}
		for _, c := range rcs {
			done[c.Hash] = true
		}
		return ""
	})
}

func genReuse(g *Gen) {
	o := cacheOpt()
	o.paths, o.revs, o.cwd = .3, .3, .2
	for k := 0; k < 10; k++ {
		p := g.repo()
		for v := 0; v < 4; v++ {
			sc := g.newScenario("reuse", p)
			wall := p.wall
			n := 2 + g.r.Intn(5)
			if g.r.P(.2) {
				// a crash at a chosen point, and smaller questions right after it
				sc.SamePids = g.r.P(.8)
				g.warm(sc, p, wall, "reuse", o, .3)
				i, st := g.victim(sc, p, wall, "reuse", o)
				st.Role = ""
				_, rs := probe(sc, i)
				st.Invs[0].Faults = []*zz.Fault{g.killFault(rs[0].P, "")}
				q := g.quest(p, "reuse", o, 5)
				if g.r.P(.5) {
					q.Q.Revs, q.Q.Paths, q.Q.Dash = []string{pick(g.r, "t1", "HEAD", "main")}, nil, true
					if g.r.P(.6) {
						q.Q.Paths = lsSafe(g.pathArgs(p, q.Cwd), q.Cwd)
					}
				}
				for range 2 {
					wall = g.later(wall, p)
					sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(q, 0, g.ncpu())))
				}
				wall = g.later(wall, p)
				n = g.r.Intn(3)
			}
			for i := 0; i < n; i++ {
				if g.r.P(.5) {
					sc.Steps = append(sc.Steps, g.stateStep(0, p))
				}
				q := g.quest(p, "reuse", o, 5)
				st := g.runStep(p, wall, g.inv(q, 0, g.ncpu()))
				if g.r.P(.1) {
					st.Invs[0].NCPU = 1
				}
				if i < n-2 && g.r.P(.12) {
					switch g.r.Intn(3) {
					case 0:
						st.Invs[0].Faults = []*zz.Fault{{Kind: "kill", Op: "yield", At: int64(g.r.Intn(30000)), Mode: pick(g.r, "", "power"), Arg: int64(g.r.Intn(1000))}}
					case 1:
						sc.Steps = append(sc.Steps, g.damage())
					case 2:
						st.Invs[0].Faults = []*zz.Fault{{Kind: "git", Op: "log-stdin", Mode: "exit", Arg: g.permille(), Arg2: 128}}
					}
				}
				sc.Steps = append(sc.Steps, st)
				wall = g.later(wall, p)
			}
			g.emit(sc)
		}
	}
}

// ---------------------------------------------------------------- C07 I/O errors

func genCacheIO(g *Gen) {
	o := cacheOpt()
	for k := 0; k < 8; k++ {
		p := g.repo()
		base := g.newScenario("io", p)
		g.warm(base, p, p.wall, "io", o, .55)
		if g.r.P(.15) {
			base.Steps = append(base.Steps, g.damage())
		}
		i, _ := g.victim(base, p, p.wall, "io", o)
		_, rs := probe(base, i)
		for v := 0; v < 8; v++ {
			sc := clone(base)
			sc.Seed = g.r.U64()
			st := sc.Steps[i]
			if g.r.P(.15) {
				st.Limit = 1 + int64(g.r.Intn(6000))
				if g.r.P(.3) {
					st.Limit = 1
				}
			} else {
				n := 1 + weighted(g.r, 85, 15)
				for j := 0; j < n; j++ {
					if f := g.cacheFault(rs[0].P); f != nil {
						st.Invs[0].Faults = append(st.Invs[0].Faults, f)
					}
				}
			}
			wall := g.later(p.wall, p)
			healthy(g, sc, p, wall, "io", o, 1+weighted(g.r, 70, 30))
			g.emit(sc)
		}
	}
}

func checkCacheIO(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		if st.Role == "fault" {
			return rightOrError(r)
		}
		return r.sameAsCold()
	})
}

// ---------------------------------------------------------------- C23 unreadable inputs

func genInputIO(g *Gen) {
	o := defOpt("table", "table", "tree", "hist", "parse")
	o.diff = .75
	for k := 0; k < 8; k++ {
		p := g.repo()
		base := g.newScenario("input", p)
		g.warm(base, p, p.wall, "input", o, .4)
		i, st := g.victim(base, p, p.wall, "input", o)
		_, rs := probe(base, i)
		for v := 0; v < 8; v++ {
			sc := clone(base)
			sc.Seed = g.r.U64()
			for n := 1 + weighted(g.r, 85, 15); n > 0; n-- {
				if f := g.inputFault(rs[0].P); f != nil {
					sc.Steps[i].Invs[0].Faults = append(sc.Steps[i].Invs[0].Faults, f)
				}
			}
			wall := g.later(p.wall, p)
			if g.r.P(.5) {
				// the same question again
				sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(Quest{st.Invs[0].Q, st.Invs[0].Cwd}, 0, g.ncpu())))
			}
			healthy(g, sc, p, wall, "input", o, weighted(g.r, 50, 50))
			g.emit(sc)
		}
	}
}

// ---------------------------------------------------------------- C24 standard output that fails

func genFullOut(g *Gen) {
	o := defOpt("table", "table", "table", "dump", "parse")
	o.csv, o.diff, o.empty = 1, .5, .1
	for k := 0; k < 8; k++ {
		p := g.repo()
		base := g.newScenario("out", p)
		g.warm(base, p, p.wall, "out", o, .3)
		i, st := g.victim(base, p, p.wall, "out", o)
		st.Invs[0].NCPU, st.Invs[0].TTY = g.anyCPU(), false
		_, rs := probe(base, i)
		size := len(rs[0].P.Stdout)
		for v := 0; v < 8; v++ {
			sc := clone(base)
			sc.Seed = g.r.U64()
			f := &zz.Fault{Kind: "out", Op: []string{"ENOSPC", "ENOSPC", "EIO", "EDQUOT"}[g.r.Intn(4)], At: int64(g.r.Intn(size + 1))}
			switch weighted(g.r, 50, 15, 20, 15) {
			case 1:
				f.At = 0
			case 2:
				// somewhere in the last bytes, or not at all
				f.At = int64(max(0, size-g.r.Intn(40)))
			case 3:
				// where a buffer may end
				f.At = int64(min(size, 4096*(1+g.r.Intn(1+size/4096))))
			}
			switch weighted(g.r, 30, 20, 50) {
			case 1:
				f.Rep = 1 + g.r.Intn(3)
			case 2:
				f.Rep = 1 << 30
			}
			sc.Steps[i].Invs[0].Faults = []*zz.Fault{f}
			healthy(g, sc, p, g.later(p.wall, p), "out", o, weighted(g.r, 30, 70))
			g.emit(sc)
		}
	}
}

func checkFullOut(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		for _, f := range r.Inv.Faults {
			if f.Kind == "out" && f.Fired > 0 {
				switch {
				case r.Class == "fail" && len(r.P.Stderr) == 0:
					return "failed without an error message"
				case r.Class == "fail":
					return ""
				}
				return "standard output could not be written, but the run " + r.describe()
			}
		}
		return r.sameAsCold()
	})
}

// ---------------------------------------------------------------- C26 load on the system

func genLoad(g *Gen) {
	o := defOpt("table", "table", "tree", "hist", "parse")
	o.diff, o.paths, o.revs, o.filter = .9, .1, .1, .2
	for k := 0; k < 8; k++ {
		p := g.repo()
		base := g.newScenario("load", p)
		if !p.large && g.r.P(.7) {
			base.Knob = pick(g.r, 1, 1, 2, 3)
		}
		g.warm(base, p, p.wall, "load", o, .2)
		i, st := g.victim(base, p, p.wall, "load", o)
		st.Invs[0].NCPU = pick(g.r, 1, 2, 2, 2, 3, 3, 4, 8)
		_, rs := probe(base, i)
		for v := 0; v < 8; v++ {
			sc := clone(base)
			sc.Seed = g.r.U64()
			st := sc.Steps[i]
			st.Sched = g.tame(g.sched(), p)
			for n := weighted(g.r, 30, 45, 25); n > 0; n-- {
				// mostly what only takes time
				if f := g.gitFault(rs[0].P.GitLog, g.r.P(.75), ""); f != nil {
					if g.r.P(.4) {
						f.Rep = 1000
					}
					st.Invs[0].Faults = append(st.Invs[0].Faults, f)
				}
			}
			g.emit(sc)
		}
	}
}

func checkLoad(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		n := r.Inv.NCPU
		switch {
		case r.P.MaxGit > n+2:
			return fmt.Sprintf("had %d git processes at one time with %d CPUs", r.P.MaxGit, n)
		case r.P.MaxFiles > 12:
			return fmt.Sprintf("had %d files open at one time", r.P.MaxFiles)
		case r.P.MaxTasks > 8*n+32:
			return fmt.Sprintf("had %d goroutines at one time with %d CPUs", r.P.MaxTasks, n)
		case r.Class == "ok" && len(r.P.LeftGit) > 0:
			return fmt.Sprintf("succeeded while it had git running: %q", r.P.LeftGit)
		}
		if r.P.MaxGit >= n {
			x.stats["every processor has a git"]++
		}
		return ""
	})
}

// ---------------------------------------------------------------- C08 C09 git failures

func genGitFail(g *Gen) {
	o := defOpt("table", "table", "tree", "tree", "hist", "hist", "parse", "dump")
	o.diff = .75
	for k := 0; k < 8; k++ {
		p := g.repo()
		base := g.newScenario("gitfail", p)
		g.warm(base, p, p.wall, "gitfail", o, .3)
		i, st := g.victim(base, p, p.wall, "gitfail", o)
		st.Invs[0].NCPU = g.anyCPU()
		_, rs := probe(base, i)
		for v := 0; v < 10; v++ {
			sc := clone(base)
			sc.Seed = g.r.U64()
			st := sc.Steps[i]
			st.Sched = g.tame(g.sched(), p)
			n := 1 + weighted(g.r, 85, 15)
			for j := 0; j < n; j++ {
				if f := g.gitFault(rs[0].P.GitLog, g.r.P(.12), ""); f != nil {
					st.Invs[0].Faults = append(st.Invs[0].Faults, f)
				}
			}
			g.emit(sc)
		}
	}
}

func checkGitFail(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		for _, f := range r.Inv.Faults {
			if f.Kind == "git" && f.Fired > 0 && hard(f) {
				if r.Class == "fail" {
					if len(r.P.Stderr) == 0 {
						return "failed without an error message under " + f.String()
					}
					return ""
				}
				return "git failed (" + f.String() + ") but the run ended as " + r.describe() + " and printed " + clip(r.Out)
			}
		}
		return r.sameAsCold()
	})
}

func genPoison(g *Gen) {
	o := cacheOpt()
	for k := 0; k < 8; k++ {
		p := g.repo()
		base := g.newScenario("poison", p)
		g.warm(base, p, p.wall, "poison", o, .3)
		i, _ := g.victim(base, p, p.wall, "poison", o)
		_, rs := probe(base, i)
		for v := 0; v < 8; v++ {
			sc := clone(base)
			sc.Seed = g.r.U64()
			st := sc.Steps[i]
			st.Sched = g.tame(g.sched(), p)
			f := g.gitFault(rs[0].P.GitLog, false, "log-stdin")
			if f == nil {
				f = g.gitFault(rs[0].P.GitLog, false, "")
			}
			if f == nil {
				continue
			}
			st.Invs[0].Faults = append(st.Invs[0].Faults, f)
			if g.r.P(.15) {
				if f := g.gitFault(rs[0].P.GitLog, false, "log-stdin"); f != nil {
					st.Invs[0].Faults = append(st.Invs[0].Faults, f)
				}
			}
			wall := g.later(p.wall, p)
			if g.r.P(.4) {
				// the same question again
				sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(Quest{st.Invs[0].Q, st.Invs[0].Cwd}, 0, g.ncpu())))
			}
			healthy(g, sc, p, wall, "poison", o, 1)
			g.emit(sc)
		}
	}
}

func checkPoison(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		if st.Role == "fault" {
			return ""
		}
		return r.sameAsCold()
	})
}

// ---------------------------------------------------------------- C10 C17 anything at all

func genAny(g *Gen) {
	o := defOpt("table", "table", "tree", "tree", "hist", "hist", "parse", "dump")
	o.empty = .12
	for k := 0; k < 10; k++ {
		p := g.repo()
		base := g.newScenario("any", p)
		zone := ""
		if z, ok := strings.CutPrefix(p.spec.Dates, "dst:"); ok {
			zone = z
		} else if g.r.P(.2) {
			zone = zones[g.r.Intn(len(zones))]
		}
		wall := p.wall
		if g.r.P(.15) {
			wall = wallFor(g.oddTime(p), p.repo)
		}
		g.warm(base, p, wall, "any", o, .4)
		if g.r.P(.2) {
			base.Steps = append(base.Steps, g.damage())
		}
		i, st := g.victim(base, p, wall, "any", o)
		st.Invs[0].NCPU = g.anyCPU()
		st.Invs[0].TZ = zone
		st.Invs[0].TTY = g.r.P(.3)
		if g.r.P(.1) {
			st.Invs[0].Env = map[string]string{pick(g.r, "GIT_WHO_DISABLE_CACHE", "GIT_WHO_LOG_LEVEL", "XDG_CACHE_HOME", "HOME"): pick(g.r, "1", "DEBUG", "\x00", "relative/dir")}
		}
		var rs []*Result
		for v := 0; v < 7; v++ {
			sc := clone(base)
			sc.Seed = g.r.U64()
			st := sc.Steps[i]
			inv := st.Invs[0]
			st.Sched = g.tame(g.sched(), p)
			if v >= 2 && rs == nil {
				_, rs = probe(base, i)
			}
			if v >= 2 {
				for n := 1 + weighted(g.r, 70, 20, 10); n > 0; n-- {
					var f *zz.Fault
					switch weighted(g.r, 60, 25, 5, 10) {
					case 0:
						f = g.gitFault(rs[0].P.GitLog, g.r.P(.35), "")
					case 1:
						f = g.cacheFault(rs[0].P)
					case 2:
						f = &zz.Fault{Kind: "clock", At: int64(g.r.Intn(8)), Arg: int64(pick(g.r, -86400*400, -3600, 3600, 86400*70, 86400*4000)) * 1e9}
					case 3:
						f = g.killFault(rs[0].P, "int", "term", "")
					}
					if f != nil {
						inv.Faults = append(inv.Faults, f)
					}
				}
			}
			if g.r.P(.15) {
				q := g.quest(p, "any", o, 5)
				other := g.inv(q, 0, g.ncpu())
				st.Invs = append(st.Invs, other)
			}
			if g.r.P(.4) {
				healthy(g, sc, p, wall, "any", o, 1)
			}
			g.emit(sc)
		}
	}
}

// oddTime is a clock reading somewhere before, within or after the history.
func (g *Gen) oddTime(p *poolRepo) int64 {
	ats := p.repo.ats
	at := ats[g.r.Intn(len(ats))]
	lo, hi := slices.Min(ats), slices.Max(ats)
	switch g.r.Intn(6) {
	case 0:
		return lo - 86400*3
	case 1:
		return hi + 86400*10
	case 2:
		return at + 3600
	case 3:
		return at - 86400
	case 4:
		return 1 + int64(g.r.Intn(100))*86400*200
	}
	return hi + 86400*365*20
}

func checkHang(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		if r.Class == "hang" {
			return "did not finish: " + r.World.Stuck
		}
		return ""
	})
}

func checkPanic(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		if r.Class == "panic" {
			return r.P.Panic
		}
		if r.Class == "fail" && len(r.P.Stderr) == 0 {
			return fmt.Sprintf("exit status %d without an error message", r.P.Code)
		}
		return ""
	})
}

// ---------------------------------------------------------------- C11 concurrent processes

func genConcurrent(g *Gen) {
	o := cacheOpt()
	for k := 0; k < 8; k++ {
		p := g.repo()
		for v := 0; v < 6; v++ {
			sc := g.newScenario("concurrent", p)
			wall := p.wall
			g.warm(sc, p, wall, "conc", o, .5)
			if g.r.P(.15) {
				sc.Steps = append(sc.Steps, g.damage())
			}
			if g.r.P(.3) {
				d := g.damage()
				d.Damage.Mode = "stray"
				sc.Steps = append(sc.Steps, d)
			}
			n := 2 + weighted(g.r, 75, 25)
			var invs []*Inv
			q := g.quest(p, "conc", o, 4)
			for i := 0; i < n; i++ {
				invs = append(invs, g.inv(q, 0, g.ncpu()))
				if g.r.P(.5) {
					q = g.quest(p, "conc", o, 4)
				}
			}
			st := g.runStep(p, wall, invs...)
			if st.Sched.Policy == "" {
				st.Sched = zz.Sched{Policy: "random", Seed: g.r.U64(), Gap: 200}
			}
			st.Role = "fault"
			sc.Steps = append(sc.Steps, st)
			if g.r.P(.2) {
				c := *st
				c.Sched = g.tame(g.sched(), p)
				sc.Steps = append(sc.Steps, &c)
			}
			wall = g.later(wall, p)
			healthy(g, sc, p, wall, "conc", o, 1+weighted(g.r, 70, 30))
			g.emit(clone(sc))
		}
	}
}

func checkConcurrent(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		if len(rs) > 1 {
			return rightOrError(r)
		}
		return r.sameAsCold()
	})
}

// ---------------------------------------------------------------- C27 litter

// genLitter lets runs crash, fail, overlap and repeat, under mailmaps that
// change, and then asks one question several times.
func genLitter(g *Gen) {
	o := cacheOpt()
	for k := 0; k < 10; k++ {
		p := g.repo()
		for v := 0; v < 4; v++ {
			sc := g.newScenario("litter", p)
			sc.SamePids = g.r.P(.3)
			wall := p.wall
			g.warm(sc, p, wall, "litter", o, .4)
			for n := g.r.Intn(4); n > 0; n-- {
				if g.r.P(.5) {
					sc.Steps = append(sc.Steps, g.stateStep(0, p))
				}
				q := g.quest(p, "litter", o, 4)
				st := g.runStep(p, wall, g.inv(q, 0, g.ncpu()))
				inv := st.Invs[0]
				switch weighted(g.r, 25, 30, 15, 15, 15) {
				case 1:
					inv.Faults = []*zz.Fault{{Kind: "kill", Op: "yield", At: int64(g.r.Intn(30000)), Mode: pick(g.r, "", "", "power", "int", "term"), Arg: int64(g.r.Intn(1000))}}
				case 2:
					// nothing but operations on files
					sc.Steps = append(sc.Steps, st)
					_, rs := probe(sc, len(sc.Steps)-1)
					inv.Faults = []*zz.Fault{g.killFault(rs[0].P, "", "int", "power")}
					wall = g.later(wall, p)
					continue
				case 3:
					inv.Faults = []*zz.Fault{{Kind: "git", Op: "log-stdin", Mode: "exit", Arg: g.permille(), Arg2: 128}}
				case 4:
					st.Invs = append(st.Invs, g.inv(g.quest(p, "litter", o, 4), 0, g.ncpu()))
					if st.Sched.Policy == "" {
						st.Sched = zz.Sched{Policy: "random", Seed: g.r.U64(), Gap: 200}
					}
				}
				st.Role = "fault"
				sc.Steps = append(sc.Steps, st)
				wall = g.later(wall, p)
			}
			q := g.quest(p, "litter", o, 5)
			for n := 1 + g.r.Intn(3); n >= 0; n-- {
				st := g.runStep(p, wall, g.inv(q, 0, g.ncpu()))
				st.Role = "again"
				sc.Steps = append(sc.Steps, st)
			}
			g.emit(sc)
		}
	}
}

// stored lists the files of a repository's cache and their sizes together.
func stored(fs *zz.FS, dirs []string) (files []string, size int) {
	for _, d := range dirs {
		fs.WalkK(d, func(rel string, n *zz.Inode) {
			if !n.Dir {
				files = append(files, rel)
				size += len(n.Data)
			}
		})
	}
	return
}

// coldFiles counts the files a run leaves that starts without a cache.
func coldFiles(rs *RepoState, inv *Inv, wall int64, dirs []string) int {
	key := fmt.Sprintf("%s %d %d %q %q", rs.Dir, wall, inv.NCPU, inv.Q.Args(), inv.Env) + inv.Cwd
	if n, ok := coldMemo[key]; ok {
		return n
	}
	fs := zz.NewFS()
	fs.MkdirAllK(home)
	fs.MkdirAllK("/tmp")
	rs.place(fs)
	fs.Checkpoint()
	c := *inv
	c.Faults = nil
	runWorld(fs, zz.Sched{}, wall, 0, 0, map[string]*RepoState{rs.Repo.Spec.Dir: rs}, []*RepoState{rs}, []*Inv{&c}, canonYields, false)
	l, _ := stored(fs, dirs)
	if len(coldMemo) > 4000 {
		coldMemo = map[string]int{}
	}
	coldMemo[key] = len(l)
	return len(l)
}

var coldMemo = map[string]int{}

type litterLog struct {
	step, size, runs int
	wall             int64
}

func checkLitter(x *Exec, st *Step, rs []*Result) string {
	if len(rs) > 1 {
		return ""
	}
	r := rs[0]
	if r.Class != "ok" || len(r.Inv.Faults) > 0 || !r.Inv.Q.parallel(r.Inv.NCPU) || r.Inv.Env["GIT_WHO_DISABLE_CACHE"] != "" {
		return ""
	}
	rcs, ok := counted(&r.Inv.Q, r.View, r.View.Now)
	if !ok || len(rcs) == 0 {
		return ""
	}
	cacheHome := home + "/.cache"
	if h := r.Inv.Env["XDG_CACHE_HOME"]; h != "" {
		cacheHome = h
	}
	dirs := ownDirs(r.View.St, cacheHome, st.Wall)
	files, size := stored(x.fs, dirs)
	if n := coldFiles(r.View.St, r.Inv, st.Wall, dirs); len(files) > n {
		return fmt.Sprintf("left %d files in its cache where it leaves %d on its own: %q", len(files), n, files)
	}
	x.stats["runs looked at for litter"]++
	if st.Role != "again" {
		return ""
	}
	l, _ := x.notes["litter"].(*litterLog)
	if l == nil || l.step != x.step-1 || l.wall != st.Wall {
		l = &litterLog{}
		x.notes["litter"] = l
	} else if l.runs > 1 && size > l.size {
		return fmt.Sprintf("the cache went from %d to %d bytes, although the same question had been asked %d times before", l.size, size, l.runs)
	}
	l.step, l.size, l.wall = x.step, size, st.Wall
	l.runs++
	return ""
}

// ---------------------------------------------------------------- C12 equal questions

func genTwice(g *Gen) {
	o := defOpt("table", "table", "tree", "tree", "hist", "hist")
	o.csv = .5
	for k := 0; k < 10; k++ {
		p := g.repo()
		for v := 0; v < 4; v++ {
			sc := g.newScenario("twice", p)
			q := g.quest(p, "twice", o, 4)
			if q.Q.Cmd != "parse" {
				q.Q.Email = g.r.P(.5)
			}
			state := g.r.Intn(len(p.spec.States))
			wall := p.wall
			for n := 2 + weighted(g.r, 60, 40); n > 0; n-- {
				// the cache may hold anything from before
				switch g.r.Intn(5) {
				case 0:
					sc.Steps = append(sc.Steps, &Step{Op: "wipe"})
				case 1:
					sc.Steps = append(sc.Steps, g.stateStep(0, p))
					st := g.runStep(p, wall, g.inv(g.quest(p, "twice", o, 4), 0, g.ncpu()))
					st.Role = "other"
					sc.Steps = append(sc.Steps, st)
				}
				sc.Steps = append(sc.Steps, &Step{Op: "state", State: state})
				sc.Steps = append(sc.Steps, g.runStep(p, wall, g.inv(q, 0, g.ncpu())))
			}
			g.emit(sc)
		}
	}
}

func checkTwice(x *Exec, st *Step, rs []*Result) string {
	if st.Role == "other" {
		return ""
	}
	return perResult(rs, func(r *Result) string {
		if r.Class != "ok" {
			return ""
		}
		if first, ok := x.notes["first"].(*Result); ok {
			if first.Out != r.Out {
				return "another answer than before (" + first.cmdline() + "): " + diffText(r.Out, first.Out)
			}
		} else {
			x.notes["first"] = r
		}
		return ""
	})
}

// ---------------------------------------------------------------- C13 one CPU or many

func genCPUs(g *Gen) {
	o := defOpt("table", "table", "tree", "tree", "hist", "hist")
	o.noPaths = true
	o.empty = .15
	o.diff = .85
	for k := 0; k < 10; k++ {
		p := g.repo()
		tz := ""
		if z, ok := strings.CutPrefix(p.spec.Dates, "dst:"); ok {
			tz = z
		}
		for v := 0; v < 4; v++ {
			sc := g.newScenario("cpus", p)
			q := g.quest(p, "cpus", o, 5)
			wall := p.wall
			sc.Steps = append(sc.Steps, g.stateStep(0, p))
			if g.r.P(.3) {
				st := g.runStep(p, wall, g.inv(g.quest(p, "cpus", o, 5), 0, g.ncpu()))
				st.Role = "other"
				sc.Steps = append(sc.Steps, st)
			}
			ns := []int{1, g.ncpu()}
			if g.r.P(.5) {
				ns = []int{g.ncpu(), 1}
			}
			for _, n := range ns {
				inv := g.inv(q, 0, n)
				inv.TZ = tz
				sc.Steps = append(sc.Steps, g.runStep(p, wall, inv))
			}
			g.emit(sc)
		}
	}
}

func checkCPUs(x *Exec, st *Step, rs []*Result) string {
	if st.Role == "other" {
		return ""
	}
	return perResult(rs, func(r *Result) string {
		rcs, ok := counted(&r.Inv.Q, r.View, r.View.Now)
		if ok && r.Class != "ok" {
			return "did not succeed: " + r.describe()
		}
		if ok && len(rcs) == 0 && r.Class == "ok" {
			lines := strings.Count(r.Out, "\n")
			if !r.Inv.Q.CSV && r.Out != "" || r.Inv.Q.CSV && lines != 1 {
				return "printed rows although nothing is selected: " + clip(r.Out)
			}
		}
		if first, ok := x.notes["first"].(*Result); ok {
			if first.Class != r.Class || first.Out != r.Out {
				return "differs from " + first.cmdline() + ": " + diffText(r.Class+"\n"+r.Out, first.Class+"\n"+first.Out)
			}
		} else {
			x.notes["first"] = r
		}
		return ""
	})
}

// ---------------------------------------------------------------- C15 isolation

func genIsolation(g *Gen) {
	o := cacheOpt()
	o.paths = .05
	for k := 0; k < 9; k++ {
		p := g.repo()
		ps := []*poolRepo{p}
		for _, o := range g.pool {
			if o != p && o.spec.Dir != p.spec.Dir && g.r.P(.6) {
				ps = append(ps, o)
			}
		}
		xdg := g.r.P(.25)
		base := g.newScenario("isolation", ps...)
		ch := home + "/.cache"
		if xdg {
			ch = home + "/xdg"
		}
		base.Files = []Decoy{
			{Path: ch + "/other/file", Data: "keep"}, {Path: ch + "/git-who-else/x.gz", Data: "keep"},
			{Path: ch + "/git-who/gob/unrelated-dir/commits.gob", Data: "keep"}, {Path: ch + "/git-who/gob/unrelated-dir/commits.gob.gz", Data: "keep"},
			{Path: ch + "/git-who/notes.txt", Data: "keep"}, {Path: home + "/notes.txt", Data: "keep"},
		}
		if g.r.P(.4) {
			base.Files = nil
		}
		wall := wallFor(p.wall/1e9, reposOf(ps)...)
		var idx []int
		n := 2 + g.r.Intn(4)
		for i := 0; i < n; i++ {
			ri := g.r.Intn(len(ps))
			if g.r.P(.4) {
				base.Steps = append(base.Steps, g.stateStep(ri, ps[ri]))
			}
			inv := g.inv(g.quest(ps[ri], "iso", o, 3), ri, g.ncpu())
			inv.Env = map[string]string{}
			if xdg {
				inv.Env["XDG_CACHE_HOME"] = ch
			}
			if g.r.P(.12) {
				inv.Env["GIT_WHO_DISABLE_CACHE"] = pick(g.r, "1", "1", "0", "true", "yes", "false", " ")
			}
			st := g.runStep(ps[ri], wall, inv)
			if i > 0 && g.r.P(.2) {
				base.Steps = append(base.Steps, g.damage())
			}
			base.Steps = append(base.Steps, st)
			idx = append(idx, len(base.Steps)-1)
		}
		vi := idx[g.r.Intn(len(idx))]
		g.emit(clone(base))
		_, rs := probe(base, vi)
		for v := 0; v < 4; v++ {
			sc := clone(base)
			sc.Seed = g.r.U64()
			st := sc.Steps[vi]
			st.Role = "fault"
			var f *zz.Fault
			switch g.r.Intn(3) {
			case 0:
				f = g.cacheFault(rs[0].P)
			case 1:
				f = g.killFault(rs[0].P, "", "power")
			case 2:
				f = g.gitFault(rs[0].P.GitLog, false, "")
			}
			if f != nil {
				st.Invs[0].Faults = []*zz.Fault{f}
			}
			g.emit(sc)
		}
	}
}

func reposOf(ps []*poolRepo) []*Repo {
	var out []*Repo
	for _, p := range ps {
		out = append(out, p.repo)
	}
	return out
}

// ownDirs finds the directories a repository's cache is kept in, by what a
// plain invocation writes when nothing is there yet.
func ownDirs(rs *RepoState, cacheHome string, wall int64) []string {
	key := rs.Dir + "\x00" + cacheHome + "\x00" + fmt.Sprint(wall)
	if d, ok := dirMemo[key]; ok {
		return d
	}
	inv := &Inv{NCPU: 4, Q: Query{Cmd: "table", Mode: "l", N: -1}, Env: map[string]string{}}
	if cacheHome != home+"/.cache" {
		inv.Env["XDG_CACHE_HOME"] = cacheHome
	}
	fs := zz.NewFS()
	fs.MkdirAllK(home)
	fs.MkdirAllK("/tmp")
	rs.place(fs)
	fs.Checkpoint()
	runWorld(fs, zz.Sched{}, wall, 0, 0, map[string]*RepoState{rs.Repo.Spec.Dir: rs}, []*RepoState{rs}, []*Inv{inv}, canonYields, false)
	ds := map[string]bool{}
	for _, m := range fs.Muts {
		if m.Op != "mkdir" {
			ds[path.Dir(m.Path)] = true
		}
	}
	if len(ds) == 0 {
		for _, m := range fs.Muts {
			ds[m.Path] = true
		}
		for _, m := range fs.Muts {
			delete(ds, path.Dir(m.Path))
		}
	}
	// only the topmost, and none above the cache home
	for d := range ds {
		for e := range ds {
			if d != e && strings.HasPrefix(e, d+"/") {
				delete(ds, e)
			}
		}
	}
	if len(dirMemo) > 4000 {
		dirMemo = map[string][]string{}
	}
	dirMemo[key] = keysOf(ds)
	return dirMemo[key]
}

var dirMemo = map[string][]string{}

func within(p, d string) bool { return p == d || strings.HasPrefix(p, d+"/") }

func checkIsolation(x *Exec, st *Step, rs []*Result) string {
	// which cache directories belong to which repository
	owner, _ := x.notes["owner"].(map[string]string)
	if owner == nil {
		owner = map[string]string{}
		x.notes["owner"] = owner
	}
	return perResult(rs, func(r *Result) string {
		ch := home + "/.cache"
		if v := r.Inv.Env["XDG_CACHE_HOME"]; v != "" {
			ch = v
		}
		off := r.Inv.Env["GIT_WHO_DISABLE_CACHE"] != ""
		if off {
			for _, o := range r.P.FsLog {
				if within(o.Path, ch) || isCachePath(o.Path) {
					return fmt.Sprintf("caching is disabled, but it did %s %s", o.Op, o.Path)
				}
			}
			for _, m := range r.Muts {
				return fmt.Sprintf("caching is disabled, but it did %s %s", m.Op, m.Path)
			}
		}
		dir := r.View.St.Repo.Spec.Dir
		own := ownDirs(r.View.St, ch, st.Wall)
		for _, d := range own {
			if !strings.HasPrefix(d, ch+"/git-who/") {
				return fmt.Sprintf("keeps its cache in %s, which is not below %s/git-who", d, ch)
			}
			for _, e := range keysOf(owner) {
				if owner[e] != dir && (within(d, e) || within(e, d)) {
					return fmt.Sprintf("keeps its cache in %s, but %s belongs to the repository %s", d, e, owner[e])
				}
			}
			for _, f := range x.sc.Files {
				if within(f.Path, d) {
					return fmt.Sprintf("keeps its cache in %s, next to %s", d, f.Path)
				}
			}
			owner[d] = dir
		}
		for _, m := range r.Muts {
			ok := false
			for _, d := range own {
				// making the directories above is part of it
				ok = ok || within(m.Path, d) || m.Op == "mkdir" && within(d, m.Path)
			}
			if !ok {
				return fmt.Sprintf("did %s %s, outside its own cache directory %q", m.Op, m.Path, own)
			}
		}
		for _, d := range x.sc.Files {
			n, _ := x.fs.Lookup(d.Path)
			if n == nil || string(n.Data) != d.Data {
				return "file " + d.Path + " is gone or changed"
			}
		}
		if st.Role == "fault" && len(r.Inv.Faults) > 0 {
			return ""
		}
		return r.sameAsCold()
	})
}

// ---------------------------------------------------------------- C16 clocks

func genClock(g *Gen) {
	o := defOpt("table", "table", "tree", "hist", "hist", "parse")
	o.csv = .8
	o.diff = .8
	o.paths = .1
	for k := 0; k < 9; k++ {
		p := g.repo()
		for v := 0; v < 4; v++ {
			sc := g.newScenario("clock", p)
			sc.Steps = append(sc.Steps, &Step{Op: "state", State: len(p.spec.States) - 1})
			n := 1 + g.r.Intn(4)
			for i := 0; i < n; i++ {
				t := g.oddTime(p)
				if g.r.P(.3) {
					t = p.wall / 1e9
				}
				t = min(max(t, 900), 6_000_000_000)
				q := g.quest(p, "clock", o, 6)
				st := g.runStep(p, wallFor(t, p.repo), g.inv(q, 0, g.anyCPU()))
				if g.r.P(.3) {
					st.Role = "fault"
					st.Invs[0].Faults = []*zz.Fault{{Kind: "clock", At: int64(g.r.Intn(12)), Arg: g.jump(p)}}
				}
				sc.Steps = append(sc.Steps, st)
				if g.r.P(.4) {
					g.nearNow(sc, p, o)
				}
			}
			g.emit(sc)
		}
	}
}

// nearNow asks within seconds or minutes of a commit.
func (g *Gen) nearNow(sc *Scenario, p *poolRepo, o qopt) {
	for try := 0; try < 12; try++ {
		t := p.repo.ats[g.r.Intn(len(p.repo.ats))] + int64(pick(g.r, 0, 0, 1, 5, 20, 100, -31, -45, -59, -61, -90, -119, -200, -299, -310, -500, -599))
		w := t*1e9 + 5e8
		if t < 900 || (t+600)%900 > 850 || len(ambiguous(p.repo, w, w+nearSpan)) > 0 {
			continue
		}
		q := g.quest(p, "clock", o, 6)
		if distances(&q.Q) {
			continue
		}
		st := g.runStep(p, w, g.inv(q, 0, g.anyCPU()))
		st.Role = "near"
		sc.Steps = append(sc.Steps, st)
		return
	}
}

const nearSpan = 30e9

// ambiguous: the commits made in a span of time.
func ambiguous(r *Repo, lo, hi int64) []int64 {
	var out []int64
	for _, at := range r.ats {
		if at*1e9 > lo && at*1e9 <= hi {
			out = append(out, at)
		}
	}
	return out
}

// distances: whether the answer shows distances to the present.
func distances(q *Query) bool {
	return q.Cmd == "table" && !q.CSV || q.Since != "" || q.Until != "" || q.Mode == "c" && q.Cmd == "tree" || q.Mode == "m" && q.Cmd == "tree"
}

func (g *Gen) jump(p *poolRepo) int64 {
	d := int64(pick(g.r, 1, 60, 3600, 86400, 86400*30, 86400*400, 86400*3000))
	if g.r.P(.5) {
		d = -d
	}
	return d*1e9 - d*1e9%900e9
}

func checkClock(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		if st.Role == "near" {
			if r.View.End > r.View.Now+nearSpan || len(ambiguous(x.repos[r.Inv.Repo], r.View.Now, r.View.Now+nearSpan)) > 0 || distances(&r.Inv.Q) {
				return "" // took too long, or has been shrunk
			}
			return refCheck(r)
		}
		if st.Role != "fault" {
			return refCheck(r)
		}
		if r.Class == "panic" || r.Class == "hang" {
			return "ended as " + r.describe()
		}
		var jump int64
		for _, f := range r.Inv.Faults {
			if f.Fired > 0 {
				jump += f.Arg
			}
		}
		lo, hi := r.View.Now, r.View.Now+jump
		if jump < 0 {
			lo, hi = hi, lo
		}
		q := r.Inv.Q
		if distances(&q) {
			// shows the distance to the present, whichever that is
			if r.Class != "ok" {
				if _, ok := selected(&q, r.View); ok {
					return "did not succeed: " + r.describe()
				}
			}
			return ""
		}
		for _, at := range x.repos[r.Inv.Repo].ats {
			if at*1e9 >= lo-60e9 && at*1e9 <= hi+400e9 {
				return "" // whether it counts depends on when the clock is read
			}
		}
		return refCheck(r, r.View.Now, r.View.Now+jump)
	})
}

// ---------------------------------------------------------------- C19 streams

func genStream(g *Gen) {
	o := defOpt("parse", "parse", "parse", "dump")
	for k := 0; k < 10; k++ {
		p := g.repo()
		q := g.quest(p, "stream", o, 4)
		base := g.newScenario("stream", p)
		base.Steps = append(base.Steps, &Step{Op: "state", State: len(p.spec.States) - 1})
		inv := g.inv(q, 0, g.anyCPU())
		if g.r.P(.3) {
			inv.TZ = zones[g.r.Intn(len(zones))]
		}
		base.Steps = append(base.Steps, g.runStep(p, p.wall, inv))
		var rs []*Result
		for v := 0; v < 7; v++ {
			sc := clone(base)
			sc.Seed = g.r.U64()
			st := sc.Steps[1]
			st.Sched = g.sched()
			if g.r.P(.5) {
				st.Sched.Policy = pick(g.r, "random", "starve")
				st.Sched.Frag = pick(g.r, 1, 1, 2, 3, 7, 64, 4000)
				st.Sched.PFrag = pick(g.r, .1, .5, 1)
				if p.large || p.spec.Huge {
					st.Sched.Frag = 4000
				}
			}
			if p.large || p.spec.Huge {
				st.Sched = g.tame(st.Sched, p)
			}
			if v >= 3 {
				if rs == nil {
					_, rs = probe(base, 1)
				}
				st.Role = "fault"
				f := g.gitFault(rs[0].P.GitLog, g.r.P(.35), "")
				if g.r.P(.7) {
					if h := g.gitFault(rs[0].P.GitLog, g.r.P(.35), "log"); h != nil {
						f = h
					}
				}
				if f != nil {
					st.Invs[0].Faults = []*zz.Fault{f}
				}
			}
			g.emit(sc)
		}
	}
}

func checkStream(x *Exec, st *Step, rs []*Result) string {
	return perResult(rs, func(r *Result) string {
		for _, f := range r.Inv.Faults {
			if f.Kind == "git" && f.Fired > 0 && hard(f) {
				if r.Class != "fail" {
					return "the stream failed (" + f.String() + ") but the run ended as " + r.describe()
				}
				if len(r.P.Stderr) == 0 {
					return "failed without an error message under " + f.String()
				}
				return ""
			}
		}
		return refCheck(r)
	})
}
