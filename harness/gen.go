package main

import (
	"fmt"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"time"

	zz "ZZMODULE/zzsim/zz"
)

// ---------------------------------------------------------------- generator

// A Gen makes the scenarios of one block. A block has a few histories that its
// scenarios share.
type Gen struct {
	prop  string
	r     *zz.Rng
	seed  uint64
	block int
	pool  []*poolRepo
	out   []*Scenario
	deep  bool
}

type poolRepo struct {
	spec    RepoSpec
	repo    *Repo
	knobs   []int
	wall    int64 // unix ns
	queries map[string][]Query
	cwds    []string // exist in every state
	files   []string
	ever    []string // touched by commits that exist in every state
	dirs    []string
	refs    []string
	large   bool
}

func mix(a uint64, b ...uint64) uint64 {
	for _, x := range b {
		r := zz.NewRng(a ^ x*0x9E3779B97F4A7C15)
		r.U64()
		a = r.U64()
	}
	return a
}

func strSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func pick[T any](r *zz.Rng, xs ...T) T { return xs[r.Intn(len(xs))] }

func weighted(r *zz.Rng, ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	k := r.Intn(t)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return 0
}

var zones = []string{"America/Sao_Paulo", "Africa/Cairo", "Asia/Beirut", "America/Havana", "America/Santiago", "Asia/Amman",
	"America/Asuncion", "Asia/Tehran", "Atlantic/Azores", "Europe/London", "America/New_York", "Australia/Lord_Howe",
	"Asia/Kathmandu", "Pacific/Kiritimati", "Asia/Kolkata", "Pacific/Pago_Pago", "Europe/Berlin", "America/Scoresbysund", "Pacific/Apia"}

// dstChange is the last change of the zone's offset before near.
func dstChange(zone string, near int64, r *zz.Rng) int64 {
	s, _ := time.Unix(near, 0).In(location(zone)).ZoneBounds()
	if s.IsZero() {
		return near - 10*86400
	}
	return s.Unix()
}

func nearbyChange(zone string, r *zz.Rng) int64 {
	l := location(zone)
	t := time.Date(2004+r.Intn(20), time.Month(1+r.Intn(12)), 10, 12, 0, 0, 0, l)
	s, _ := t.ZoneBounds()
	if s.IsZero() || s.Year() < 1990 {
		return t.Unix()
	}
	return s.Unix()
}

// features of histories, by property
type flavour struct {
	weird, empty, anon, merge, alias, future, epoch, nofile, diffm float64
	large                                                          float64
	dst                                                            float64
	mailmap, ignore                                                float64
	settings, types, latin, shallow, signed, trick, turn           float64
}

func (g *Gen) flavour() flavour {
	f := flavour{weird: .25, empty: .3, anon: .15, merge: .6, alias: .4, future: .15, epoch: .08, nofile: .03, diffm: .12, large: .06, dst: .1, mailmap: .4, ignore: .35,
		settings: .12, types: .2, latin: .1, shallow: .08, signed: .04, trick: .06, turn: .12}
	switch g.prop {
	case "C01":
		f.large = .12
	case "C02":
		f.weird = .4
		f.turn, f.trick = .4, .15
	case "C03":
		f.dst = .4
		f.epoch = .15
	case "C04", "C18":
		f.shallow = .2
		f.settings = .25
		f.signed = .12
	case "C05", "C07", "C11", "C08", "C09", "C06":
		f.large = .03
	case "C12":
		f.alias = .9
	case "C14":
		f.mailmap, f.ignore, f.alias = .9, .8, .7
	case "C23":
		f.mailmap, f.ignore, f.alias, f.shallow = .9, .8, .7, .25
	case "C27":
		f.future, f.mailmap = .4, .6
	case "C16":
		f.future = .6
		f.epoch = .3
	case "C17", "C19":
		f.weird = .6
	case "C20":
		f.weird = .3
		f.trick, f.turn = .6, .4
	case "C22":
		f.settings = 1
		f.signed = .35
	case "C25":
		f.mailmap, f.alias, f.ignore = .7, .7, .2
		f.weird = .2
	case "C21":
		f.empty, f.anon, f.merge, f.diffm = .9, .7, 1, .3
	}
	return f
}

var plainDirs = []string{"/work/proj", "/home/u/src/repo", "/srv/a b/c", "/home/u/x"}

// names with characters that mean something in patterns
var oddDirs = []string{"/work/r[3", "/work/r[ab]c", "/work/a*b", "/work/a b", "/work/{a,b}", "/work/q?", "/work/back\\slash",
	"/work/-n", "/work/ü", "/work/%s", "/work/...", "/work/a.gob", "/work/x\ty", "/work/~", "/work/ lead", "/work/trail ", "/work/new\nline", "/work/cr\r", "/work/\xff\xfe"}

func (g *Gen) newSpec() RepoSpec {
	r := g.r
	f := g.flavour()
	s := RepoSpec{Seed: r.U64(), Dir: plainDirs[r.Intn(len(plainDirs))]}
	if g.prop == "C15" && r.P(.6) || g.prop == "C17" && r.P(.25) || r.P(.04) {
		s.Dir = oddDirs[r.Intn(len(oddDirs))]
	}
	switch weighted(r, 15, 45, 30, 10) {
	case 0:
		s.N = 1 + r.Intn(6)
	case 1:
		s.N = 7 + r.Intn(18)
	case 2:
		s.N = 25 + r.Intn(30)
	case 3:
		s.N = 60 + r.Intn(60)
	}
	large := r.P(f.large)
	if large {
		s.N = []int{1023, 1024, 1025, 1500, 2048, 2300}[r.Intn(6)] + r.Intn(3) - 1
	}
	s.Authors = pick(r, 1, 2, 3, 3, 5, 8, 13, 26)
	s.Now = 1_500_000_000 + int64(r.Intn(6*365))*86400 + int64(r.Intn(1440))*60
	s.Dates = pick(r, "days", "days", "months", "years", "ties", "hours")
	if r.P(f.dst) {
		z := zones[r.Intn(len(zones))]
		s.Dates = "dst:" + z
		s.Now = nearbyChange(z, r) + int64(4+r.Intn(20))*86400
		s.Now -= s.Now % 60
	}
	opt := func(p float64, v float64) float64 {
		if r.P(p) {
			return v * float64(1+r.Intn(4)) / 4
		}
		return 0
	}
	s.Merge = opt(f.merge, .35)
	s.Evil = opt(.5, .8)
	s.Empty = opt(f.empty, .4)
	s.Anon = opt(f.anon, .3)
	s.Rename = opt(.6, .4)
	s.Binary = opt(.4, .4)
	s.Delete = opt(.6, .4)
	s.Future = opt(f.future, .3)
	s.Epoch = opt(f.epoch, .3)
	s.Alias = opt(f.alias, .8)
	s.Weird = opt(f.weird, .8)
	s.HexFile = r.P(f.weird * .4)
	s.NoFile = r.P(f.nofile)
	s.DiffM = r.P(f.diffm)
	s.Types = opt(f.types, .4)
	s.Latin = opt(f.latin, .4)
	s.Trick = opt(f.trick, 1)
	s.Turn = opt(f.turn, .4)
	s.Roots = opt(.2, .6)
	s.Skew = opt(.25, .4)
	if s.N <= 60 {
		s.Signed = opt(f.signed, .6)
	}
	if (g.prop == "C17" || g.prop == "C19" || g.prop == "C01") && !large && r.P(.06) {
		s.Huge = true
		s.N = min(s.N, 20)
	}
	if !large && !s.Huge {
		p := 1.0
		if f.large < .05 {
			p = .5
		}
		switch {
		case r.P(.06 * p):
			s.Bulk = .1 * float64(1+r.Intn(4))
			s.N = min(s.N, 40)
		case r.P(.03 * p):
			s.Wide = pick(r, 100, 300, 1000, 1100)
			s.N = min(s.N, 25)
		case r.P(.04 * p):
			s.Authors = pick(r, 40, 120, 250)
			s.N = max(s.N, s.Authors+r.Intn(40))
		}
		if r.P(.06) {
			s.Deep = pick(r, 4, 12, 40)
		}
	}
	// states
	n := s.N
	var ks []int
	switch r.Intn(3) {
	case 0:
		ks = []int{n}
	case 1:
		ks = []int{max(1, n/2), n}
	default:
		ks = []int{max(1, n/3), max(1, n*2/3), n}
	}
	for _, k := range ks {
		st := StateSpec{Commits: k}
		s.States = append(s.States, st)
	}
	last := s.States[len(s.States)-1]
	if r.P(.4) {
		st := last
		st.Back = 1 + r.Intn(4)
		s.States = append(s.States, st)
	}
	mm := 0
	if r.P(f.mailmap) {
		mm = 1 + r.Intn(3)
	}
	if r.P(.1) || (g.prop == "C04" || g.prop == "C14") && r.P(.2) {
		s.Pad = pick(r, 700, 4200, 9000, 33000, 66000)
	}
	ig := 0
	if r.P(f.ignore) {
		ig = 1 + r.Intn(3)
	}
	if r.P(.5) {
		for i := range s.States {
			s.States[i].Mailmap = mm
			s.States[i].Ignore = ig
		}
		last.Mailmap, last.Ignore = mm, ig
	}
	if g.prop == "C14" || g.prop == "C23" || g.prop == "C04" || g.prop == "C18" || r.P(.4) {
		for k := 1 + r.Intn(3); k > 0; k-- {
			st := last
			st.Mailmap = pick(r, 0, 1, 1, 2, 3, 9, 10, 11, 12)
			st.Extra = pick(r, 0, 0, 0, 1, 2)
			st.Split = 0
			if st.Mailmap > 0 && r.P(.2) {
				st.Extra, st.Split = 0, 1+r.Intn(10)
			}
			if st.Extra+st.Split > 0 {
				st.MMForm = pick(r, 0, 0, 1, 2)
			}
			st.Ignore = pick(r, 0, 0, 1, 2, 3)
			s.States = append(s.States, st)
		}
	}
	if r.P(f.shallow) {
		k := 1 + r.Intn(3)
		if r.P(.3) {
			for i := range s.States {
				s.States[i].Shallow = k
			}
		} else {
			st := last
			st.Shallow = k
			s.States = append(s.States, st)
		}
	}
	if r.P(.15) && s.Merge > 0 {
		st := last
		st.Branch = "side1"
		s.States = append(s.States, st)
	}
	if r.P(f.settings) || s.Signed > 0 && r.P(.6) {
		var some []string
		for i := range s.States {
			if i == 0 || r.P(.5) {
				some = nil
				for k := r.Intn(6); k > 0; k-- {
					some = append(some, settingList[r.Intn(len(settingList))])
					if (g.prop == "C04" || g.prop == "C18") && r.P(.4) {
						some = append(some, diffSettingList[r.Intn(len(diffSettingList))])
					}
				}
			}
			if s.Signed > 0 && r.P(.5) {
				some = append(some, "log.showSignature=true")
			}
			s.States[i].Settings = some
		}
	}
	if len(s.States) > 6 || large && len(s.States) > 3 {
		s.States = s.States[len(s.States)-3:]
	}
	return s
}

// quiet tells whether no commit is dated so close to the wall clock that a run
// might straddle it.
func quiet(wall int64, repos []*Repo) bool {
	for _, r := range repos {
		for _, at := range r.ats {
			if d := at - wall/1e9; d >= -60 && d <= 400 {
				return false
			}
		}
	}
	return true
}

// wallFor is the first usable clock reading at or after t (unix seconds).
func wallFor(t int64, repos ...*Repo) int64 {
	t = t - t%900 + 450
	for {
		w := t*1e9 + 5e8
		if quiet(w, repos) {
			return w
		}
		t += 900
	}
}

func newGen(prop string, verifSeed uint64, block int) *Gen {
	g := &Gen{prop: prop, block: block}
	g.seed = mix(verifSeed, strSeed(prop), uint64(block)+1)
	g.r = zz.NewRng(g.seed)
	n := 3
	for i := 0; i < n; i++ {
		s := g.newSpec()
		if i > 0 && (g.prop == "C15" && g.r.P(.6) || g.r.P(.1)) {
			// the same directory name somewhere else
			o := g.pool[0].spec.Dir
			base := o[strings.LastIndex(o, "/"):]
			s.Dir = fmt.Sprintf("/other%d%s", i, base)
			if dir := strings.TrimSuffix(o, base); g.r.P(.4) {
				// or something that is easily taken for the same
				s.Dir = pick(g.r, strings.ToUpper(dir)+base, strings.ToUpper(o), strings.ToUpper(dir[:2])+dir[2:]+base, o+" ", o+".git", o+"-1",
					strings.ReplaceAll(strings.ReplaceAll(o, " ", "_"), "[", "_"), "/"+strings.ReplaceAll(o[1:], "/", "-"))
				for j := 0; j < i; j++ {
					if g.pool[j].spec.Dir == s.Dir {
						s.Dir = fmt.Sprintf("/other%d%s", i, base)
					}
				}
			}
		} else {
			for j := 0; j < i; j++ {
				if g.pool[j].spec.Dir == s.Dir {
					s.Dir += strconv.Itoa(i)
				}
			}
		}
		g.pool = append(g.pool, g.newPool(s))
	}
	return g
}

func (g *Gen) newPool(s RepoSpec) *poolRepo {
	p := &poolRepo{spec: s, repo: build(s), queries: map[string][]Query{}}
	p.large = s.N > 1000
	kn := []int{1, 2, 3, 5, 8, 13, 64, 0}
	if s.N > 30 {
		kn = []int{3, 5, 8, 13, 21, 64, 0}
	}
	if slices.Contains([]string{"C07", "C08", "C10", "C19"}, g.prop) {
		// mostly several units of work for one command
		kn = append(kn[:4], kn[len(kn)-1])
	}
	if p.large {
		kn = []int{0, 0, 512}
	}
	p.knobs = []int{pick(g.r, kn...), pick(g.r, kn...)}
	p.wall = wallFor(s.Now+int64(g.r.Intn(3))*900, p.repo)
	inter := func(get func(*RepoState) []string) []string {
		cnt := map[string]int{}
		for _, st := range p.repo.States {
			for _, x := range get(st) {
				cnt[x]++
			}
		}
		var out []string
		for _, x := range keysOf(cnt) {
			if cnt[x] == len(p.repo.States) {
				out = append(out, x)
			}
		}
		return out
	}
	p.dirs = inter(func(s *RepoState) []string { return s.dirs })
	p.files = inter(func(s *RepoState) []string { return s.Files })
	seen := map[string]bool{}
	for i, c := range p.repo.paths {
		if i >= minCommits(&s) {
			break
		}
		for _, x := range c {
			if !seen[x] {
				seen[x] = true
				p.ever = append(p.ever, x)
			}
		}
	}
	p.refs = inter(func(s *RepoState) []string { return s.refs })
	for _, d := range p.dirs {
		p.cwds = append(p.cwds, "/"+d)
	}
	return p
}

func (g *Gen) repo() *poolRepo {
	p := g.pool[g.r.Intn(len(g.pool))]
	if p.large && g.r.P(.6) {
		p = g.pool[g.r.Intn(len(g.pool))]
	}
	return p
}

func (g *Gen) ncpu() int { return pick(g.r, 2, 2, 3, 4, 4, 8, 16, 2, 3, 4, 7, 24, 64) }
func (g *Gen) anyCPU() int {
	if g.r.P(.25) {
		return 1
	}
	return g.ncpu()
}

type qopt struct {
	cmds    []string
	diff    float64 // probability of a mode that needs diffs
	paths   float64
	revs    float64
	noPaths bool
	cwd     float64
	simple  bool // no filters
	csv     float64
	empty   float64
	filter  float64 // how much more often commits are filtered
}

func nauthor(r *zz.Rng) string {
	return pick(r, "Ada", "Bo", "Cy", "da", "o", "@x", "org>$", "^B", "y <", "Proper", "a@x", "nobody")
}

func defOpt(cmds ...string) qopt {
	if len(cmds) == 0 {
		cmds = []string{"table", "table", "tree", "hist"}
	}
	return qopt{cmds: cmds, diff: .7, paths: .2, revs: .2, cwd: .15, csv: .5, empty: .05}
}

// A Quest is a query together with where it is asked.
type Quest struct {
	Q   Query
	Cwd string
}

var pathSets = []string{"f0.c", "f1.txt", "src", "a", "b", "doc", "src/lib", "src/lib/deep/er", "src/lib/deep", "f2", "f3.go", "a/f1.c", "nosuch", "src/f0.c"}

func (g *Gen) pathArgs(p *poolRepo, cwd string) []string {
	r := g.r
	one := func() string {
		switch weighted(r, 30, 30, 20, 8, 5) {
		case 0:
			fs := p.files
			if len(p.ever) > 0 && r.P(.3) {
				fs = p.ever
			}
			if len(fs) > 0 {
				f := fs[r.Intn(len(fs))]
				for k := 0; k < 3 && p.spec.Trick > 0 && !strings.ContainsAny(f, "[{?!:-"); k++ {
					f = fs[r.Intn(len(fs))]
				}
				f = relTo(f, cwd)
				if r.P(.06) {
					f += pick(r, "/", "/.", "/x/..")
				}
				return f
			}
			return "f0.c"
		case 1:
			if len(p.dirs) > 0 {
				d := relTo(p.dirs[r.Intn(len(p.dirs))], cwd)
				if r.P(.35) {
					d += pick(r, "/", "/", "/.", "/x/..")
				}
				return d
			}
			return "src"
		case 2:
			return pick(r, "*.c", "*.txt", "*.go", "*0.c", "*f1", "*f2.txt", "*x.txt")
		case 3:
			return relTo(pathSets[r.Intn(len(pathSets))], cwd)
		}
		return "."
	}
	var out []string
	for k := 1 + weighted(r, 60, 30, 10); k > 0; k-- {
		x := one()
		for strings.Contains(x, "\n") { // rev-parse cannot return these
			x = one()
		}
		if strings.HasPrefix(x, ":") { // would be magic
			x = "./" + x
		}
		if x == "" {
			x = "."
		}
		if !strings.HasPrefix(x, "*") && r.P(.08) {
			// the same in other words
			if i := strings.LastIndexByte(x, '/'); i > 0 && i < len(x)-1 {
				x = pick(r, x[:i]+"/"+x[i:], x[:i]+"/."+x[i:], x[:i]+"/../"+filepath.Base(x[:i])+x[i:])
				if strings.HasPrefix(filepath.Base(x[:i]), ".") {
					x = "./" + x
				}
			} else {
				x = "./" + x
			}
		}
		if strings.HasPrefix(x, "*") && r.P(.1) {
			x = "./" + x
		}
		out = append(out, x)
	}
	if r.P(.4) {
		incl := len(out)
		for k := 1 + weighted(r, 60, 30, 10); k > 0; k-- {
			x := one()
			if x == "" || x == "." || strings.Contains(x, "\n") || strings.ContainsAny(x[:1], ":!^/") {
				x = "*.c"
			}
			out = append(out, pick(r, ":!", ":^", ":(exclude)", ":!:", ":^:")+x)
		}
		if r.P(.25) {
			out = out[incl:]
			if cwd != "" {
				out = append(out, ".") // the meaning of excludes alone depends on the command
			}
		}
		if r.P(.4) {
			for i := len(out) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// lsSafe drops excludes that git ls-files gets wrong: it compares them without
// as many bytes as the directory that all includes have in common is long,
// whatever these bytes are, even beyond their end. The result can then depend
// on the size of the environment (seen with git 2.43).
func lsSafe(paths []string, cwd string) []string {
	common, first := "", true
	root := func(x string) string {
		for strings.HasPrefix(x, "./") {
			x = x[2:]
		}
		y := filepath.Join(cwd, x)
		if y = strings.TrimPrefix(y, "/"); y != "" && (x == "" || strings.HasSuffix(x, "/")) {
			y += "/"
		}
		return y
	}
	for _, x := range paths {
		if _, ok := excluded(x); ok {
			continue
		}
		y := root(x)
		if strings.HasSuffix(x, ".") && y != "" {
			y += "/"
		}
		y = y[:strings.LastIndexByte(y, '/')+1]
		if first {
			common, first = y, false
		}
		for !strings.HasPrefix(y, common) {
			common = common[:strings.LastIndexByte(common[:len(common)-1], '/')+1]
		}
	}
	var out []string
	for _, x := range paths {
		if y, ok := excluded(x); ok && common != "" {
			y = root(y)
			if !strings.HasPrefix(y, common) || len(y) <= len(common) || strings.ContainsAny(common, "*?[\\") {
				continue
			}
		}
		out = append(out, x)
	}
	return out
}

// relTo expresses a path below the root relative to cwd.
func relTo(path, cwd string) string {
	if cwd == "" {
		return path
	}
	pre := strings.TrimPrefix(cwd, "/")
	if path == pre {
		return "."
	}
	up := ""
	for pre != "" {
		if strings.HasPrefix(path, pre+"/") {
			return up + path[len(pre)+1:]
		}
		if path == pre {
			return strings.TrimSuffix(up, "/")
		}
		up += "../"
		if i := strings.LastIndexByte(pre, '/'); i >= 0 {
			pre = pre[:i]
		} else {
			pre = ""
		}
	}
	return up + path
}

func minCommits(s *RepoSpec) int {
	n := 1 << 30
	for _, st := range s.States {
		n = min(n, st.Commits)
	}
	return n
}

func (g *Gen) revArgs(p *poolRepo) []string {
	r := g.r
	ref := func() string {
		if len(p.refs) > 0 && r.P(.6) {
			return p.refs[r.Intn(len(p.refs))]
		}
		return "HEAD"
	}
	minN := minCommits(&p.spec)
	switch weighted(r, 20, 20, 20, 15, 10, 5, 5, 15) {
	case 7:
		switch r.Intn(11) {
		case 7:
			return []string{ref() + pick(r, "^-", "^-1", "^-2")}
		case 8:
			return []string{ref() + pick(r, "^{}", "^{commit}", "^2", "^{/.}", "^2~1")}
		case 9:
			return []string{ref() + "^@", ref() + "^@"}
		case 0:
			return []string{ref() + "^!"}
		case 1:
			return []string{ref() + "^@"}
		case 2:
			return []string{"t1.."}
		case 3:
			return []string{"..t1"}
		case 4:
			return []string{"^t1", ref(), "HEAD"}
		case 5:
			return []string{ref() + "^0", ref() + "~0"}
		case 6:
			return []string{"refs/heads/main", "^t1"}
		}
		return []string{"@"}
	case 0:
		return []string{ref()}
	case 1:
		if minN > 8 {
			return []string{"HEAD~1.." + ref()}
		}
		return []string{"HEAD"}
	case 2:
		return []string{"t1.." + ref()}
	case 3:
		return []string{ref(), "^t1"}
	case 4:
		return []string{ref(), ref()}
	case 5:
		return []string{"HEAD..HEAD"} // nothing
	}
	return []string{"t1...HEAD"}
}

func isoTime(t int64) string { return time.Unix(t, 0).UTC().Format("2006-01-02T15:04:05Z") }

func (g *Gen) newQuest(p *poolRepo, o qopt) Quest {
	r := g.r
	var q Query
	q.N = -1
	q.Cmd = o.cmds[r.Intn(len(o.cmds))]
	cwd := ""
	if len(p.cwds) > 0 && r.P(o.cwd) {
		cwd = p.cwds[r.Intn(len(p.cwds))]
	}
	switch q.Cmd {
	case "table":
		if r.P(o.diff) {
			q.Mode = pick(r, "l", "f")
		} else {
			q.Mode = pick(r, "", "c", "m")
		}
		q.CSV = r.P(o.csv)
		if r.P(.5) {
			q.N = pick(r, 0, 0, 1, 3, 2, 25)
		}
		q.Implied = q.Mode != "" && r.P(.3)
	case "tree":
		q.Mode = pick(r, "", "", "l", "l", "f", "f", "c", "m")
		if r.P(.25) {
			q.Depth = pick(r, 1, 2, 3, 1, 2, 3, 4, 8, 50)
		}
		q.All = r.P(.35)
	case "hist":
		if r.P(o.diff) {
			q.Mode = pick(r, "l", "f")
		}
	case "parse", "dump":
		q.Short = r.P(.2)
	}
	if q.Cmd != "parse" && q.Cmd != "dump" {
		q.Email = r.P(.3)
		q.Merges = r.P(.25)
	}
	if !o.simple {
		m := 1 + o.filter
		if r.P(.08 * m) {
			q.Since = g.threshold(p)
		}
		if r.P(.08 * m) {
			q.Until = g.threshold(p)
		}
		if r.P(.1 * m) {
			q.Authors = append(q.Authors, pick(r, "Ada", "Bo", "x.org", "^B", "a", "Cy", "Proper", "p1@y", "nobody"))
			if r.P(.3) {
				q.Authors = append(q.Authors, pick(r, "Dee", "Eve", "c", "ada", "Ada", "bo", "BO", "@X", "Cy"))
				if r.P(.3) {
					q.Authors = append(q.Authors, pick(r, "Fay", "Ada", "p2", "dee", "o,", "D, x"))
				}
			}
			if r.P(.1 * m) {
				q.Nauthors = append(q.Nauthors, nauthor(r))
			}
		} else if r.P(.06 * m) {
			q.Nauthors = append(q.Nauthors, nauthor(r))
			if r.P(.3) {
				q.Nauthors = append(q.Nauthors, nauthor(r))
			}
		}
	}
	if p.spec.Weird > 0 || p.spec.Latin > 0 {
		// git's perl expressions do not match across bytes that are not UTF-8
		q.Nauthors = nil
	}
	if r.P(o.revs) {
		q.Revs = g.revArgs(p)
	}
	if !o.noPaths && r.P(o.paths) {
		q.Paths = g.pathArgs(p, cwd)
		if q.Cmd == "tree" {
			q.Paths = lsSafe(q.Paths, cwd)
		}
		q.Dash = true
		if r.P(.4) {
			q.Dash = false
			for _, x := range q.Paths {
				y, _ := excluded(x)
				if !strings.HasPrefix(y, "*") && y != "." && !slices.Contains(p.files, y) && !slices.Contains(p.dirs, strings.TrimSuffix(y, "/")) || cwd != "" || slices.Contains(p.refs, y) || y == "HEAD" || strings.Contains(y, "..") || strings.ContainsAny(y, "@~^{:") || hash40.MatchString(y) || strings.HasPrefix(y, "-") || strings.HasPrefix(x, ":!:") || strings.HasPrefix(x, ":^:") || strings.ContainsAny(y, "*?[\\") && !strings.HasPrefix(y, "*") {
					q.Dash = true
				}
			}
		}
	}
	if r.P(o.empty) {
		switch r.Intn(4) {
		case 0:
			q.Revs = []string{"HEAD..HEAD"}
		case 1:
			q.Since = isoTime(p.spec.Now + 3600)
		case 2:
			q.Authors, q.Nauthors = []string{"nobody"}, nil
		case 3:
			if !o.noPaths {
				q.Paths, q.Dash = []string{"nosuch"}, true
			} else {
				q.Until = isoTime(86400 * 365)
			}
		}
	}
	return Quest{q, cwd}
}

// threshold is between the committer dates of two commits.
func (g *Gen) threshold(p *poolRepo) string {
	k := int64(g.r.Intn(p.spec.N + 2))
	if g.prop == "C25" && g.r.P(.3) {
		return pick(g.r, "90 minutes ago", "1 hour ago", "10 minutes ago", "two hours ago", "yesterday", "3 days ago", "last week", "@"+strconv.FormatInt(p.spec.Now-k*60+30, 10))
	}
	return isoTime(p.spec.Now - k*60 + 30)
}

// quest draws from the block's questions about a repository, so that git's
// answers can be reused.
func (g *Gen) quest(p *poolRepo, key string, o qopt, most int) Quest {
	qs := questPool[p]
	if qs == nil {
		qs = map[string][]Quest{}
		questPool[p] = qs
	}
	if len(qs[key]) < most && g.r.P(.6) || len(qs[key]) == 0 {
		q := g.newQuest(p, o)
		qs[key] = append(qs[key], q)
		return q
	}
	return qs[key][g.r.Intn(len(qs[key]))]
}

var questPool = map[*poolRepo]map[string][]Quest{}

func (g *Gen) inv(q Quest, repo, ncpu int) *Inv {
	i := &Inv{Repo: repo, Q: q.Q, Cwd: q.Cwd, NCPU: ncpu}
	return i
}

func (g *Gen) sched() zz.Sched {
	r := g.r
	if r.P(.06) {
		return zz.Sched{}
	}
	s := zz.Sched{Seed: r.U64()}
	s.Policy = pick(r, "random", "random", "random", "starve", "starve", "fifo")
	s.Gap = pick(r, 0, 0, 5, 30, 200, 2000)
	if r.P(.6) {
		s.Frag = pick(r, 1, 3, 64, 1000)
		s.PFrag = pick(r, .02, .1, .5, 1.0)
		if s.Frag < 10 {
			s.PFrag = pick(r, .02, .1, .3)
		}
	}
	s.PMap = pick(r, 0, .5, 1)
	s.PipeCap = pick(r, 0, 0, 0, 64, 512, 4096)
	return s
}

func (g *Gen) tame(s zz.Sched, p *poolRepo) zz.Sched {
	if p.large || p.spec.Huge {
		// long streams: keep the number of steps in hand
		s.Frag = max(s.Frag, 1000)
		if s.PipeCap > 0 {
			s.PipeCap = max(s.PipeCap, 4096)
		}
		if s.Gap > 0 {
			s.Gap = max(s.Gap, 2000)
		}
	}
	return s
}

func (g *Gen) newScenario(kind string, ps ...*poolRepo) *Scenario {
	sc := &Scenario{Prop: g.prop, Kind: kind, Seed: g.r.U64()}
	for _, p := range ps {
		sc.Repos = append(sc.Repos, p.spec)
	}
	sc.Knob = ps[0].knobs[g.r.Intn(len(ps[0].knobs))]
	sc.SamePids = g.r.P(.4)
	return sc
}

func (g *Gen) runStep(p *poolRepo, wall int64, invs ...*Inv) *Step {
	return &Step{Op: "run", Wall: wall, Invs: invs, Sched: g.tame(g.sched(), p)}
}

// later moves the clock on, sometimes.
func (g *Gen) later(wall int64, p *poolRepo) int64 {
	if g.r.P(.7) {
		return wall
	}
	return wallFor(wall/1e9+900*int64(pick(g.r, 1, 1, 4, 96)), p.repo)
}

func (g *Gen) emit(sc *Scenario) { g.out = append(g.out, sc) }

func clone(sc *Scenario) *Scenario {
	c := *sc
	c.Repos = slices.Clone(sc.Repos)
	c.Steps = nil
	for _, s := range sc.Steps {
		n := *s
		n.Invs = nil
		for _, i := range s.Invs {
			k := *i
			k.Faults = nil
			for _, f := range i.Faults {
				ff := *f
				ff.Fired = 0
				k.Faults = append(k.Faults, &ff)
			}
			n.Invs = append(n.Invs, &k)
		}
		if s.Damage != nil {
			d := *s.Damage
			n.Damage = &d
		}
		c.Steps = append(c.Steps, &n)
	}
	return &c
}

// probe runs a scenario up to and including step i and returns what happened
// in that step.
func probe(sc *Scenario, i int) (*Exec, []*Result) {
	c := clone(sc)
	x := newExec(c)
	var rs []*Result
	for k := 0; k <= i; k++ {
		_, rs = x.next()
	}
	return x, rs
}

func (g *Gen) stateStep(repo int, p *poolRepo) *Step {
	return &Step{Op: "state", Repo: repo, State: g.r.Intn(len(p.spec.States))}
}

// ---------------------------------------------------------------- faults

var gitModes = []string{"exit", "exit", "exit", "signal", "signal", "startfail", "readerr", "closestdin", "flood", "stall", "slowstdin", "lateexit", "nopath"}

func hard(f *zz.Fault) bool {
	switch f.Mode {
	case "stall", "slowstdin":
		return false
	case "flood", "lateexit":
		return f.Arg2 != 0
	}
	return true
}

func (g *Gen) permille() int64 {
	switch weighted(g.r, 20, 20, 60) {
	case 0:
		return 0
	case 1:
		return 1000
	}
	return int64(g.r.Intn(1001))
}

// gitFault picks a fault for one of the children that a probe started.
func (g *Gen) gitFault(log []zz.GitRec, soft bool, only string) *zz.Fault {
	r := g.r
	if len(log) == 0 {
		return nil
	}
	c := log[r.Intn(len(log))]
	if only != "" || r.P(.4) {
		var l []zz.GitRec
		for _, x := range log {
			if only == "" && (x.Kind == "log-stdin" || x.Kind == "log") || x.Kind == only {
				l = append(l, x)
			}
		}
		if len(l) > 0 {
			c = l[r.Intn(len(l))]
		} else if only != "" {
			return nil
		}
	}
	f := &zz.Fault{Kind: "git", Op: c.Kind, At: int64(c.Ord)}
	if r.P(.15) {
		f.Rep = 1 + r.Intn(20)
	}
	f.Mode = gitModes[r.Intn(len(gitModes))]
	if soft {
		f.Mode = pick(r, "stall", "flood", "slowstdin", "lateexit")
	}
	if c.Kind != "log-stdin" && (f.Mode == "slowstdin" || f.Mode == "closestdin") {
		f.Mode = pick(r, "exit", "lateexit")
		if soft {
			f.Mode = "stall"
		}
	}
	switch f.Mode {
	case "startfail":
		f.Arg = int64(r.Intn(4))
	case "exit":
		f.Arg = g.permille()
		f.Arg2 = int64(pick(r, 1, 2, 128, 129, 128, 3, 255))
		if c.Kind == "config" && f.Arg2 == 1 {
			f.Arg2 = 128
		}
	case "signal":
		f.Arg = g.permille()
		f.Arg2 = int64(pick(r, 9, 15, 2, 11, 13))
	case "flood":
		f.Arg = int64(pick(r, 100, 5000, 70000, 300000))
		f.Arg2 = int64(pick(r, 0, 0, 128))
	case "stall":
		f.Arg = g.permille()
		f.Arg2 = int64(pick(r, 1, 50, 1500, 20000))
	case "slowstdin":
		f.Arg = int64(pick(r, 1, 50, 1500))
	case "readerr":
		f.Arg = g.permille()
	case "lateexit":
		f.Arg = int64(pick(r, 1, 50, 2000))
		f.Arg2 = int64(pick(r, 0, 1, 128))
		if c.Kind == "config" && f.Arg2 == 1 {
			f.Arg2 = 128
		}
	}
	if soft && (f.Mode == "flood" || f.Mode == "lateexit") {
		f.Arg2 = 0
	}
	return f
}

var errNames = []string{"EIO", "ENOSPC", "EACCES", "EMFILE", "ENOMEM", "EROFS", "EPERM", "EDQUOT", "ENFILE", "ESTALE", "EINTR"}

func isCachePath(p string) bool {
	return strings.Contains(p, "/git-who") && (strings.HasPrefix(p, home+"/.cache") || strings.HasPrefix(p, home+"/xdg")) || p == home+"/.cache" || p == home+"/xdg"
}

// cacheFault picks an operation on the cache's files that a probe did.
func (g *Gen) cacheFault(p *zz.Proc) *zz.Fault {
	return g.fsFault(p, isCachePath, "git-who")
}

// inputFault picks an operation on anything but the cache: the mailmaps, the
// ignore list, the list of shallow commits, the working directory.
func (g *Gen) inputFault(p *zz.Proc) *zz.Fault {
	f := g.fsFault(p, func(s string) bool { return !isCachePath(s) }, "")
	if f != nil && f.Rep > 0 && g.r.P(.6) {
		// only that file
		for _, o := range p.FsLog {
			if int64(o.I) == f.At {
				f.Path = o.Path
			}
		}
	}
	return f
}

func (g *Gen) fsFault(p *zz.Proc, of func(string) bool, narrow string) *zz.Fault {
	r := g.r
	var ops []zz.FsRec
	for _, o := range p.FsLog {
		if of(o.Path) {
			ops = append(ops, o)
		}
	}
	if len(ops) == 0 {
		return nil
	}
	o := ops[r.Intn(len(ops))]
	if r.P(.5) {
		// rare kinds of operation deserve as much attention
		kinds := map[string][]zz.FsRec{}
		for _, o := range ops {
			kinds[o.Op] = append(kinds[o.Op], o)
		}
		ks := keysOf(kinds)
		l := kinds[ks[r.Intn(len(ks))]]
		o = l[r.Intn(len(l))]
	}
	f := &zz.Fault{Kind: "fs", Op: errNames[r.Intn(len(errNames))], At: int64(o.I), Path: narrow}
	if o.N > 0 && r.P(.6) {
		f.Arg = int64(r.Intn(o.N + 1))
	}
	switch weighted(r, 50, 20, 15, 15) {
	case 1:
		f.Rep = 1 + r.Intn(5)
	case 2:
		f.Rep = 1 << 30
	case 3:
		f.Rep = 1 << 30
		f.Mode = o.Op
	}
	return f
}

// killFault picks an instant of a probed run.
func (g *Gen) killFault(p *zz.Proc, modes ...string) *zz.Fault {
	r := g.r
	f := &zz.Fault{Kind: "kill", Mode: modes[r.Intn(len(modes))], Arg: int64(r.U64() >> 40)}
	var ops []zz.FsRec
	for _, o := range p.FsLog {
		if isCachePath(o.Path) && o.Mut {
			ops = append(ops, o)
		}
	}
	if len(ops) > 0 && r.P(.65) {
		o := ops[r.Intn(len(ops))]
		if r.P(.5) {
			kinds := map[string][]zz.FsRec{}
			for _, o := range ops {
				kinds[o.Op] = append(kinds[o.Op], o)
			}
			ks := keysOf(kinds)
			l := kinds[ks[r.Intn(len(ks))]]
			o = l[r.Intn(len(l))]
		}
		f.Op = "fs"
		f.At = int64(o.I)
		f.Arg2 = int64(r.Intn(2))
		return f
	}
	f.Op = "yield"
	span := max(1, p.EndY-p.StartY)
	f.At = p.StartY + int64(r.U64()%uint64(span))
	return f
}

var damageModes = []string{"truncate", "truncate", "flip", "flip", "overwrite", "zero", "garbage", "empty", "append", "double",
	"inner-trunc", "inner-trunc", "inner-cutrec", "inner-cutrec", "inner-dup", "inner-dup", "inner-double", "inner-badlen", "inner-tail", "inner-zerotail",
	"leftover", "leftover-cut", "leftover-dup", "stray"}

func (g *Gen) damage() *Step {
	r := g.r
	d := &Damage{Mode: damageModes[r.Intn(len(damageModes))], Seed: r.U64(), File: r.Intn(3)}
	d.At = int64(r.Intn(1000))
	d.N = int64(pick(r, 1, 1, 2, 3, 4, 7, 8, 16, 64, 300))
	return &Step{Op: "damage", Damage: d}
}
