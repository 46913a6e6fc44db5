package main

import (
	"bytes"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The reference: what the selected commits imply, worked out from the plain
// data of the repository by code that shares nothing with git-who.

// A Query is one git-who command line, in structured form.
type Query struct {
	Cmd      string   `json:"cmd"`            // table, tree, hist, parse, dump
	Mode     string   `json:"mode,omitempty"` // "", l, f, c, m
	CSV      bool     `json:"csv,omitempty"`
	Email    bool     `json:"email,omitempty"`
	Merges   bool     `json:"merges,omitempty"`
	N        int      `json:"n"` // table rows; -1: default
	Depth    int      `json:"depth,omitempty"`
	All      bool     `json:"all,omitempty"`
	Short    bool     `json:"short,omitempty"`
	Since    string   `json:"since,omitempty"`
	Until    string   `json:"until,omitempty"`
	Authors  []string `json:"authors,omitempty"`
	Nauthors []string `json:"nauthors,omitempty"`
	Revs     []string `json:"revs,omitempty"`
	Paths    []string `json:"paths,omitempty"`
	Dash     bool     `json:"dash,omitempty"`    // put -- before the paths
	Implied  bool     `json:"implied,omitempty"` // leave the word "table" out
	Verbose  bool     `json:"verbose,omitempty"`
}

func (q *Query) Args() []string {
	a := []string{"git-who"}
	if q.Verbose {
		a = append(a, "-v")
	}
	if !(q.Implied && q.Cmd == "table") {
		a = append(a, q.Cmd)
	}
	if q.CSV {
		a = append(a, "--csv")
	}
	if q.Email {
		a = append(a, "-e")
	}
	if q.Merges {
		a = append(a, "--merges")
	}
	if q.Mode != "" {
		a = append(a, "-"+q.Mode)
	}
	if q.Cmd == "table" && q.N >= 0 {
		a = append(a, "-n", strconv.Itoa(q.N))
	}
	if q.Depth > 0 {
		a = append(a, "-d", strconv.Itoa(q.Depth))
	}
	if q.All {
		a = append(a, "-a")
	}
	if q.Short {
		a = append(a, "-s")
	}
	if q.Since != "" {
		a = append(a, "--since", q.Since)
	}
	if q.Until != "" {
		a = append(a, "--until", q.Until)
	}
	for _, x := range q.Authors {
		a = append(a, "--author", x)
	}
	for _, x := range q.Nauthors {
		a = append(a, "--nauthor", x)
	}
	a = append(a, q.Revs...)
	if len(q.Paths) > 0 && q.Dash {
		a = append(a, "--")
	}
	a = append(a, q.Paths...)
	return a
}

func (q *Query) diffMode() bool {
	return q.Cmd == "tree" || q.Mode == "l" || q.Mode == "f"
}

// usesCache tells whether the invocation works in parallel.
func (q *Query) parallel(ncpu int) bool {
	return ncpu > 1 && (q.Cmd == "table" || q.Cmd == "hist" || q.Cmd == "tree") && q.diffMode()
}

type Commit struct {
	Hash, Short string
	Parents     []string
	Name, Email string // after the mailmap
	At          int64
}

type FDiff struct {
	Path     string
	Add, Del int
}

func (rs *RepoState) load(hashes []string) {
	if rs.commits == nil {
		rs.commits = map[string]*Commit{}
	}
	var b bytes.Buffer
	n := 0
	for _, h := range hashes {
		if rs.commits[h] == nil {
			b.WriteString(h + "\n")
			n++
		}
	}
	if n == 0 {
		return
	}
	out := mustGit(rs.Dir, b.Bytes(), "log", "--stdin", "--no-walk=unsorted", "--format=%H%x00%h%x00%P%x00%aN%x00%aE%x00%at")
	for _, l := range strings.Split(strings.TrimSuffix(string(out), "\n"), "\n") {
		f := strings.Split(l, "\x00")
		if len(f) != 6 {
			trouble("reference: odd line %q", l)
		}
		c := &Commit{Hash: f[0], Short: f[1], Name: f[3], Email: f[4]}
		if f[2] != "" {
			c.Parents = strings.Split(f[2], " ")
		}
		c.At, _ = strconv.ParseInt(f[5], 10, 64)
		rs.commits[c.Hash] = c
	}
}

// loadDiffs reads the changes of commits, limited to paths as git does it.
func (rs *RepoState) loadDiffs(hashes []string, cwd string, paths []string) map[string][]FDiff {
	key := ""
	if len(paths) > 0 {
		key = cwd + "\x00" + strings.Join(paths, "\x00")
	}
	key += "\x01" + string(rs.Shallow)
	r := rs.Repo
	if r.diffs == nil {
		r.diffs = map[string]map[string][]FDiff{}
	}
	m := r.diffs[key]
	if m == nil {
		m = map[string][]FDiff{}
		r.diffs[key] = m
	}
	var b bytes.Buffer
	n := 0
	for _, h := range hashes {
		if _, ok := m[h]; !ok {
			c := rs.commits[h]
			if len(c.Parents) > 1 {
				m[h] = nil
				continue
			}
			b.WriteString(h + "\n")
			n++
		}
	}
	if n == 0 {
		return m
	}
	a := []string{"diff-tree", "--stdin", "--root", "--always", "-r", "-M", "-z", "--numstat"}
	if len(paths) > 0 {
		a = append(append(a, "--"), paths...)
	}
	out := string(mustGit(rs.Dir+cwd, b.Bytes(), a...))
	want := map[string]bool{}
	for _, h := range hashes {
		want[h] = true
	}
	// records: hash NUL {numstat NUL}*
	for len(out) > 0 {
		i := strings.IndexByte(out, 0)
		if i < 0 {
			trouble("reference: diff-tree output ends early")
		}
		h := out[:i]
		if len(h) != 40 || !want[h] {
			trouble("reference: diff-tree: %q is not a commit", h)
		}
		out = out[i+1:]
		// up to the next record that starts with a wanted hash
		var body string
		rest := out
		for len(rest) > 0 {
			j := strings.IndexByte(rest, 0)
			if j == 40 && want[rest[:40]] {
				break
			}
			// one numstat entry
			e := rest[:j]
			f := strings.SplitN(e, "\t", 3)
			if len(f) != 3 {
				trouble("reference: diff-tree: odd entry %q", e)
			}
			rest = rest[j+1:]
			if f[2] == "" { // rename: two more
				for k := 0; k < 2; k++ {
					rest = rest[strings.IndexByte(rest, 0)+1:]
				}
			}
		}
		body = out[:len(out)-len(rest)]
		m[h] = parseNumstat(body)
		out = rest
	}
	return m
}

func parseNumstat(s string) []FDiff {
	var out []FDiff
	for len(s) > 0 {
		i := strings.IndexByte(s, 0)
		e := s[:i]
		s = s[i+1:]
		f := strings.SplitN(e, "\t", 3)
		if len(f) != 3 {
			trouble("reference: odd numstat entry %q", e)
		}
		d := FDiff{Path: f[2]}
		d.Add, _ = strconv.Atoi(f[0])
		d.Del, _ = strconv.Atoi(f[1])
		if d.Path == "" {
			i = strings.IndexByte(s, 0)
			s = s[i+1:]
			i = strings.IndexByte(s, 0)
			d.Path = s[:i]
			s = s[i+1:]
		}
		out = append(out, d)
	}
	return out
}

// A View is an invocation's surroundings as far as the answer depends on them.
type View struct {
	St   *RepoState
	Cwd  string // below the root, "" or "/src"
	NCPU int
	Now  int64 // unix ns when the process started
	End  int64 // unix ns when it ended
	Loc  *time.Location
}

type selKey struct {
	dir, args string
	now       int64
}

var selMemo = map[selKey][]string{}

// plainRevs spells out A...B as git defines it: with path arguments, git log
// simplifies the history in another way when one of the two is an ancestor of
// the other.
func plainRevs(revs []string, v *View) []string {
	var out []string
	for _, r := range revs {
		a, b, ok := strings.Cut(r, "...")
		if ok {
			base, _, code := gitCmd(v.St.Dir+v.Cwd, nil, nil, "merge-base", "--all", a, b)
			if code == 0 {
				out = append(out, a, b)
				for _, m := range strings.Fields(string(base)) {
					out = append(out, "^"+m)
				}
				continue
			}
		}
		out = append(out, r)
	}
	return out
}

// byAuthor decides whether the commits of an author, written as
// "name <email>", are asked for; nil if all are.
func byAuthor(q *Query) func(string) bool {
	if len(q.Authors) == 0 && len(q.Nauthors) == 0 {
		return nil
	}
	some := func(ps []string, id string) bool {
		for _, p := range ps {
			re := reMemo[p]
			if re == nil {
				re = regexp.MustCompile(p)
				reMemo[p] = re
			}
			if re.MatchString(id) {
				return true
			}
		}
		return false
	}
	return func(id string) bool {
		return (len(q.Authors) == 0 || some(q.Authors, id)) && !some(q.Nauthors, id)
	}
}

var reMemo = map[string]*regexp.Regexp{}

// selected lists the commits git selects, oldest first.
func selected(q *Query, v *View) ([]string, bool) {
	args := []string{"log", "--format=%H", "--reverse", "--no-show-signature"}
	dated := false
	if q.Since != "" {
		args = append(args, "--since", q.Since)
		dated = true
	}
	if q.Until != "" {
		args = append(args, "--until", q.Until)
		dated = true
	}
	if len(q.Revs) == 0 {
		args = append(args, "HEAD")
	}
	args = append(args, plainRevs(q.Revs, v)...)
	args = append(args, "--")
	args = append(args, q.Paths...)
	who := byAuthor(q)
	if who != nil {
		args[1] = "--format=%H %aN <%aE>"
	}
	k := selKey{v.St.Dir + v.Cwd, strings.Join(args, "\x00"), 0}
	var env []string
	if dated {
		k.now = v.Now / 1e9
		env = []string{"GIT_TEST_DATE_NOW=" + strconv.FormatInt(k.now, 10)}
	}
	env = append(env, "TZ="+v.Loc.String())
	k.args += "\x00" + v.Loc.String()
	if who != nil {
		k.args += fmt.Sprintf("\x00%q %q", q.Authors, q.Nauthors)
	}
	if r, ok := selMemo[k]; ok {
		return r, r != nil
	}
	out, _, code := gitCmd(v.St.Dir+v.Cwd, env, nil, args...)
	if code != 0 {
		selMemo[k] = nil
		return nil, false
	}
	r := []string{}
	for _, l := range strings.Split(string(out), "\n") {
		if l == "" {
			continue
		}
		if who != nil {
			h, id, _ := strings.Cut(l, " ")
			if !who(id) {
				continue
			}
			l = h
		}
		r = append(r, l)
	}
	if len(selMemo) > 20000 {
		selMemo = map[selKey][]string{}
	}
	selMemo[k] = r
	return r, true
}

// inScope decides the claimed forms of path arguments: files, directories,
// leading-star suffix patterns, and excludes of these.
func inScope(paths []string, cwd, file string) bool {
	if len(paths) == 0 {
		return true
	}
	match := func(p string) bool {
		if !strings.HasPrefix(p, "*") && p != "" {
			slash := strings.HasSuffix(p, "/") || strings.HasSuffix(p, "/.") || strings.HasSuffix(p, "/..")
			p = path.Clean(p)
			if slash && p != "." {
				p += "/"
			}
		}
		dir := strings.Split(strings.Trim(cwd, "/"), "/")
		if dir[0] == "" {
			dir = nil
		}
		for {
			if r, ok := strings.CutPrefix(p, "./"); ok {
				p = r
			} else if r, ok := strings.CutPrefix(p+"/", "../"); ok && len(dir) > 0 {
				p = strings.TrimSuffix(r, "/")
				dir = dir[:len(dir)-1]
			} else {
				break
			}
		}
		f := file
		if len(dir) > 0 {
			r, ok := strings.CutPrefix(file, strings.Join(dir, "/")+"/")
			if !ok {
				return false
			}
			f = r
		}
		switch {
		case p == "" || p == ".":
			return true
		case strings.HasPrefix(p, "*"):
			lit := strings.TrimSuffix(p, "/")
			return strings.HasSuffix(f, p[1:]) || f == p || strings.HasPrefix(f, lit+"/")
		case strings.HasSuffix(p, "/"):
			return strings.HasPrefix(f, p)
		}
		return f == p || strings.HasPrefix(f, p+"/") || strings.ContainsAny(p, "?[\\*") && wild(p, f)
	}
	inc, anyInc := false, false
	for _, p := range paths {
		if x, ok := excluded(p); ok {
			if match(x) {
				return false
			}
			continue
		}
		anyInc = true
		inc = match(p) || inc
	}
	return inc || !anyInc
}

// wild is the matching of git's wildcards, as far as they are generated.
func wild(p, f string) bool {
	for p != "" {
		c := p[0]
		switch {
		case c == '*':
			for i := 0; i <= len(f); i++ {
				if wild(p[1:], f[i:]) {
					return true
				}
			}
			return false
		case f == "":
			return false
		case c == '[':
			neg, end := false, -1
			i := 1
			if i < len(p) && (p[i] == '!' || p[i] == '^') {
				neg = true
				i++
			}
			for k := i + 1; k < len(p); k++ {
				if p[k] == ']' {
					end = k
					break
				}
			}
			if end < 0 || (strings.IndexByte(p[i:end], f[0]) >= 0) == neg {
				return false
			}
			p = p[end:]
		case c == '\\':
			p = p[1:]
			if p == "" || p[0] != f[0] {
				return false
			}
		case c != '?' && c != f[0]:
			return false
		}
		p, f = p[1:], f[1:]
	}
	return f == ""
}

func excluded(p string) (string, bool) {
	for _, m := range []string{":!:", ":^:", ":(exclude)", ":!", ":^"} {
		if strings.HasPrefix(p, m) {
			return p[len(m):], true
		}
	}
	return p, false
}

// An RC is a selected commit as it counts for a query.
type RC struct {
	*Commit
	Merge bool
	Diffs []FDiff
}

// counted returns the selected commits that count at all: neither ignored, nor
// anonymous, nor in the future. Merges are still among them.
func counted(q *Query, v *View, now int64) ([]RC, bool) {
	sel, ok := selected(q, v)
	if !ok {
		return nil, false
	}
	v.St.load(sel)
	var out []RC
	var m map[string][]FDiff
	limit := false
	if q.diffMode() || q.Cmd == "parse" && !q.Short {
		if q.parallel(v.NCPU) {
			m = v.St.loadDiffs(sel, "", nil)
			limit = true
		} else {
			m = v.St.loadDiffs(sel, v.Cwd, q.Paths)
		}
	}
	for _, h := range sel {
		c := v.St.commits[h]
		if v.St.ignored[h] || c.Name == "" && c.Email == "" || c.At*1e9 > now {
			continue
		}
		r := RC{Commit: c, Merge: len(c.Parents) > 1}
		for _, d := range m[h] {
			if !limit || inScope(q.Paths, v.Cwd, d.Path) {
				r.Diffs = append(r.Diffs, d)
			}
		}
		out = append(out, r)
	}
	return out, true
}

func (q *Query) key(c *Commit) string {
	if q.Email {
		return c.Email
	}
	return c.Name
}

// A Sum is what one author has at one place.
type Sum struct {
	Key         string
	Names       map[string]bool
	commits     map[string]bool
	files       map[string]bool
	Add, Del    int
	First, Last int64
}

func newSum(key string) *Sum {
	return &Sum{Key: key, Names: map[string]bool{}, commits: map[string]bool{}, files: map[string]bool{}, First: 1 << 62, Last: -1 << 62}
}

func (s *Sum) commit(c *Commit) {
	s.commits[c.Hash] = true
	s.Names[c.Name] = true
	s.First = min(s.First, c.At)
	s.Last = max(s.Last, c.At)
}

func (s *Sum) diff(d FDiff) {
	s.files[d.Path] = true
	s.Add += d.Add
	s.Del += d.Del
}

func (s *Sum) Commits() int { return len(s.commits) }
func (s *Sum) Files() int   { return len(s.files) }

func (s *Sum) rank(mode string) int64 {
	switch mode {
	case "l":
		return int64(s.Add + s.Del)
	case "f":
		return int64(s.Files())
	case "c":
		return -s.First
	case "m":
		return s.Last
	}
	return int64(s.Commits())
}

// refTable sums up per author, best first; authors with equal rank form one
// group whose order is free.
func refTable(q *Query, rcs []RC) [][]*Sum {
	m := map[string]*Sum{}
	for _, c := range rcs {
		if c.Merge && !q.Merges {
			continue
		}
		k := q.key(c.Commit)
		s := m[k]
		if s == nil {
			s = newSum(k)
			m[k] = s
		}
		s.commit(c.Commit)
		if !c.Merge {
			for _, d := range c.Diffs {
				s.diff(d)
			}
		}
	}
	return rankGroups(m, q.Mode, true)
}

func rankGroups(m map[string]*Sum, mode string, byLast bool) [][]*Sum {
	var all []*Sum
	for _, k := range keysOf(m) {
		all = append(all, m[k])
	}
	sort.SliceStable(all, func(i, j int) bool {
		a, b := all[i], all[j]
		if x, y := a.rank(mode), b.rank(mode); x != y {
			return x > y
		}
		return byLast && a.Last > b.Last
	})
	var out [][]*Sum
	for i, s := range all {
		if i > 0 {
			p := all[i-1]
			if p.rank(mode) == s.rank(mode) && (!byLast || p.Last == s.Last) {
				out[len(out)-1] = append(out[len(out)-1], s)
				continue
			}
		}
		out = append(out, []*Sum{s})
	}
	return out
}

// ---------------------------------------------------------------- tree

const noDiff = ".git-who-no-diff-commits"

type refNode struct {
	kids map[string]*refNode
	sums map[string]*Sum
	inWT bool
}

func newRefNode() *refNode {
	return &refNode{kids: map[string]*refNode{}, sums: map[string]*Sum{}}
}

func (n *refNode) sum(k string) *Sum {
	s := n.sums[k]
	if s == nil {
		s = newSum(k)
		n.sums[k] = s
	}
	return s
}

// refTree builds the tree below the current directory; nil if it is empty.
func refTree(q *Query, v *View, rcs []RC) *refNode {
	root := newRefNode()
	root.inWT = true
	pre := strings.TrimPrefix(v.Cwd, "/")
	wt := map[string]bool{}
	for _, f := range v.St.Files {
		if lsScope(q.Paths, v.Cwd, f) {
			wt[f] = true
		}
	}
	add := func(c RC, path string, d *FDiff) {
		rel := path
		if pre != "" {
			if !strings.HasPrefix(path, pre+"/") {
				return
			}
			rel = path[len(pre)+1:]
		}
		k := q.key(c.Commit)
		n := root
		visit := func(n *refNode) {
			s := n.sum(k)
			s.commit(c.Commit)
			if d != nil && !c.Merge {
				s.diff(*d)
			}
		}
		visit(n)
		for _, p := range strings.Split(rel, "/") {
			x := n.kids[p]
			if x == nil {
				x = newRefNode()
				n.kids[p] = x
			}
			n = x
			n.inWT = n.inWT || wt[path]
			visit(n)
		}
	}
	for _, c := range rcs {
		if c.Merge && !q.Merges {
			continue
		}
		if len(c.Diffs) == 0 {
			add(c, noDiff, nil)
		}
		for i := range c.Diffs {
			add(c, c.Diffs[i].Path, &c.Diffs[i])
		}
	}
	if len(root.kids) == 0 {
		return nil
	}
	return root
}

// lsScope is the scope of git ls-files: as inScope, but never outside the
// current directory when only excludes are given.
func lsScope(paths []string, cwd, file string) bool {
	return inScope(paths, cwd, file)
}

// ---------------------------------------------------------------- timeline

type day struct{ y, m, d int }

func dayOf(at int64, loc *time.Location) day {
	y, m, d := time.Unix(at, 0).In(loc).Date()
	return day{y, int(m), d}
}

// num counts days in the proleptic Gregorian calendar.
func (d day) num() int {
	return int(time.Date(d.y, time.Month(d.m), d.d, 0, 0, 0, 0, time.UTC).Unix() / 86400)
}

type refBucket struct {
	Label string
	Sums  map[string]*Sum
	Tops  []*Sum // authors with the highest value, empty if the value is 0
	Value int
	Total int
}

func histValue(s *Sum, mode string) int {
	switch mode {
	case "l":
		return s.Add + s.Del
	case "f":
		return s.Files()
	}
	return s.Commits()
}

// startOfDay is the first instant of a calendar day.
func startOfDay(d day, loc *time.Location) time.Time {
	t := time.Date(d.y, time.Month(d.m), d.d, 12, 0, 0, 0, loc).Unix()
	// walk back from noon while the date is the same
	lo, hi := t-16*3600, t
	for hi-lo > 1 {
		mid := (lo + hi) / 2
		if dayOf(mid, loc) == d {
			hi = mid
		} else {
			lo = mid
		}
	}
	return time.Unix(hi, 0).In(loc)
}

// refHist returns the acceptable timelines (more than one if the end of the
// time line is not settled to the day).
func refHist(q *Query, v *View, rcs []RC, now int64) []refBucket {
	if len(rcs) == 0 {
		return nil
	}
	first, last := rcs[0].At, rcs[0].At
	for _, c := range rcs {
		first = min(first, c.At)
		last = max(last, c.At)
	}
	d0, d1 := dayOf(first, v.Loc), dayOf(last, v.Loc)
	var end time.Time
	if len(q.Revs) == 0 && q.Until == "" {
		end = time.Unix(0, now).In(v.Loc)
	} else {
		end = startOfDay(d1, v.Loc)
	}
	if e := dayOf(end.Unix(), v.Loc); e.num() > d1.num() {
		d1 = e
	}
	// A zone that moves across the date line leaves a whole day out.
	exists := func(n int) bool {
		t := time.Unix(int64(n)*86400, 0).UTC()
		d := day{t.Year(), int(t.Month()), t.Day()}
		for h := int64(-36); h <= 36; h++ {
			if dayOf(t.Unix()+h*3600+1800, v.Loc) == d {
				return true
			}
		}
		return false
	}
	span := end.Sub(startOfDay(d0, v.Loc))
	unit := "day"
	if span > 5*365*24*time.Hour {
		unit = "year"
	} else if span > 60*24*time.Hour {
		unit = "month"
	}
	idx := func(d day) int {
		switch unit {
		case "year":
			return d.y - d0.y
		case "month":
			return (d.y-d0.y)*12 + d.m - d0.m
		}
		return 0
	}
	var days []int // the days of a daily timeline
	if unit == "day" {
		at := map[int]int{}
		for n := d0.num(); n <= d1.num(); n++ {
			if exists(n) {
				at[n] = len(days)
				days = append(days, n)
			}
		}
		idx = func(d day) int { return at[d.num()] }
	}
	n := idx(d1) + 1
	if n > 200000 {
		trouble("reference: timeline of %d buckets", n)
	}
	out := make([]refBucket, n)
	for i := range out {
		switch unit {
		case "year":
			out[i].Label = fmt.Sprintf("%04d", d0.y+i)
		case "month":
			m := d0.m - 1 + i
			out[i].Label = time.Month(m%12 + 1).String()[:3] + fmt.Sprintf(" %04d", d0.y+m/12)
		default:
			t := time.Unix(int64(days[i])*86400, 0).UTC()
			out[i].Label = t.Format("2006-01-02")
		}
		out[i].Sums = map[string]*Sum{}
	}
	for _, c := range rcs {
		if c.Merge && !q.Merges {
			continue
		}
		b := &out[idx(dayOf(c.At, v.Loc))]
		k := q.key(c.Commit)
		s := b.Sums[k]
		if s == nil {
			s = newSum(k)
			b.Sums[k] = s
		}
		s.commit(c.Commit)
		if !c.Merge {
			for _, d := range c.Diffs {
				s.diff(d)
			}
		}
	}
	for i := range out {
		b := &out[i]
		tot := newSum("")
		for _, k := range keysOf(b.Sums) {
			s := b.Sums[k]
			x := histValue(s, q.Mode)
			if x > b.Value {
				b.Value = x
				b.Tops = nil
			}
			if x == b.Value && x > 0 {
				b.Tops = append(b.Tops, s)
			}
			for f := range s.files {
				tot.files[f] = true
			}
			for h := range s.commits {
				tot.commits[h] = true
			}
			tot.Add += s.Add
			tot.Del += s.Del
		}
		b.Total = histValue(tot, q.Mode)
	}
	return out
}
