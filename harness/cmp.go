package main

import (
	"encoding/csv"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	runewidth "github.com/mattn/go-runewidth"
)

var ansiRe = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")

func stripANSI(s string) string { return ansiRe.ReplaceAllString(s, "") }

// stripProgress removes what a progress indicator wrote to a terminal.
func stripProgress(s string) string {
	const el = "\x1b[2K\r"
	if i := strings.LastIndex(s, el); i >= 0 {
		return s[i+len(el):]
	}
	return s
}

func clip(s string) string {
	if len(s) > 300 {
		return strconv.Quote(s[:300]) + "..."
	}
	return strconv.Quote(s)
}

// ---------------------------------------------------------------- formats

func fmtNum(n int) string {
	switch {
	case n > 100_000_000:
		return ">99m"
	case n > 1_000_000:
		return fmt.Sprintf("%.1fm", float32(n)/1_000_000)
	case n > 1000:
		return fmt.Sprintf("%d,%03d", n/1000, n%1000)
	}
	return strconv.Itoa(n)
}

func fmtAgo(now, at int64) string {
	d := time.Duration(now - at*1e9)
	if at < -9e9 || at > 9e9 {
		d = math.MaxInt64
	}
	one := func(n int, s, p string) string {
		if n > 1 {
			return fmt.Sprintf("%d %s ago", n, p)
		}
		return fmt.Sprintf("%d %s ago", n, s)
	}
	day := 24 * time.Hour
	switch {
	case d < time.Hour:
		return fmt.Sprintf("%d min. ago", int(d/time.Minute))
	case d < day:
		return one(int(d/time.Hour), "hour", "hr.")
	case d < 7*day:
		return one(int(d/day), "day", "days")
	case d < 30*day:
		return one(int(d/(7*day)), "week", "weeks")
	case d < 365*day:
		return one(int(d/(30*day)), "month", "mon.")
	}
	y := int(d / (365 * day))
	if y > 99 {
		return ">99 yr. ago"
	}
	return one(y, "year", "yr.")
}

func abbrev(s string, n int) string {
	if len(s) > utf8.RuneCountInString(s) {
		return runewidth.Truncate(s, n, "…")
	}
	if len(s) <= n {
		return s
	}
	return s[:n-1] + "…"
}

// ---------------------------------------------------------------- table

func (v *View) nows() []int64 {
	if v.End/1e9 == v.Now/1e9 {
		return []int64{v.Now, v.End}
	}
	out := []int64{v.Now, v.End}
	for t := v.Now/1e9 + 1; t <= v.End/1e9 && len(out) < 6; t++ {
		out = append(out, t*1e9)
	}
	return out
}

func limitOf(q *Query, n int) int {
	l := 10
	if q.N >= 0 {
		l = q.N
	}
	if l == 0 || l > n {
		return n
	}
	return l
}

func cmpTable(q *Query, v *View, out string, groups [][]*Sum) string {
	if q.CSV {
		return cmpCSV(q, v, out, groups)
	}
	return cmpText(q, v, out, groups)
}

func rowsOf(groups [][]*Sum) int {
	n := 0
	for _, g := range groups {
		n += len(g)
	}
	return n
}

// consume matches rows with groups of tied authors: match says whether row i
// can be s.
func consume(groups [][]*Sum, n int, match func(i int, s *Sum) bool) (int, []*Sum) {
	i := 0
	for _, g := range groups {
		used := make([]bool, len(g))
		for k := 0; k < len(g) && i < n; k++ {
			ok := false
			for j, s := range g {
				if !used[j] && match(i, s) {
					used[j] = true
					ok = true
					break
				}
			}
			if !ok {
				var left []*Sum
				for j, s := range g {
					if !used[j] {
						left = append(left, s)
					}
				}
				return i, left
			}
			i++
		}
	}
	return -1, nil
}

func (s *Sum) String() string {
	return fmt.Sprintf("%q names=%q commits=%d +%d -%d files=%d first=%d last=%d", s.Key, keysOf(s.Names), s.Commits(), s.Add, s.Del, s.Files(), s.First, s.Last)
}

func cmpCSV(q *Query, v *View, out string, groups [][]*Sum) string {
	r := csv.NewReader(strings.NewReader(stripProgress(out)))
	r.FieldsPerRecord = -1
	recs, err := r.ReadAll()
	if err != nil {
		return "output is not CSV: " + err.Error()
	}
	if len(recs) == 0 {
		return "no header line"
	}
	head := []string{"name"}
	if q.Email {
		head = append(head, "email")
	}
	head = append(head, "commits")
	if q.diffMode() {
		head = append(head, "lines added", "lines removed", "files")
	}
	head = append(head, "last commit time", "first commit time")
	if strings.Join(head, "|") != strings.Join(recs[0], "|") {
		return fmt.Sprintf("header %q instead of %q", recs[0], head)
	}
	recs = recs[1:]
	n := limitOf(q, rowsOf(groups))
	if len(recs) != n {
		return fmt.Sprintf("%d rows instead of %d", len(recs), n)
	}
	bad, left := consume(groups, n, func(i int, s *Sum) bool {
		rec := recs[i]
		if len(rec) != len(head) {
			return false
		}
		if !s.Names[rec[0]] {
			return false
		}
		k := 1
		if q.Email {
			if rec[1] != s.Key {
				return false
			}
			k = 2
		}
		want := []string{strconv.Itoa(s.Commits())}
		if q.diffMode() {
			want = append(want, strconv.Itoa(s.Add), strconv.Itoa(s.Del), strconv.Itoa(s.Files()))
		}
		want = append(want, rfc(s.Last, v), rfc(s.First, v))
		return strings.Join(want, "|") == strings.Join(rec[k:], "|")
	})
	if bad >= 0 {
		return fmt.Sprintf("row %d is %q; expected one of %v", bad, recs[bad], left)
	}
	return ""
}

func rfc(t int64, v *View) string { return time.Unix(t, 0).In(v.Loc).Format(time.RFC3339) }

func cmpText(q *Query, v *View, out string, groups [][]*Sum) string {
	out = stripANSI(stripProgress(out))
	total := rowsOf(groups)
	if total == 0 {
		if out != "" {
			return "rows printed although nothing is selected: " + clip(out)
		}
		return ""
	}
	wide := q.diffMode()
	width := 55
	if wide || q.Email {
		width = 80
	}
	rule := strings.Repeat("─", width-2)
	n := limitOf(q, total)
	lines := strings.Split(out, "\n")
	// author names never contain newlines
	if len(lines) > 0 && lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	want := 4 + n
	if n < total {
		want++
	}
	if len(lines) != want {
		return fmt.Sprintf("%d lines instead of %d: %s", len(lines), want, clip(out))
	}
	if lines[0] != "┌"+rule+"┐" || lines[2] != "├"+rule+"┤" || lines[want-1] != "└"+rule+"┘" {
		return "bad frame"
	}
	edit := "Last Edit"
	if q.Mode == "c" {
		edit = "First Edit"
	}
	head := fmt.Sprintf("│%-*s %-11s %7s│", width-22, "Author", edit, "Commits")
	if wide {
		head = fmt.Sprintf("│%-*s %-11s %7s %7s  %17s│", width-49, "Author", edit, "Commits", "Files", "Lines (+/-)")
	}
	if lines[1] != head {
		return fmt.Sprintf("header %q instead of %q", lines[1], head)
	}
	if n < total {
		m := fmt.Sprintf("│%-*s│", width-2, "..."+fmtNum(total-n)+" more...")
		if lines[want-2] != m {
			return fmt.Sprintf("%q instead of %q", lines[want-2], m)
		}
	}
	row := func(s *Sum, name string, now int64) string {
		a := name
		if q.Email {
			a += " <" + s.Key + ">"
		}
		w := width - 22
		if wide {
			w = width - 49
		}
		a = runewidth.FillRight(abbrev(a, w), w)
		at := s.Last
		if q.Mode == "c" {
			at = s.First
		}
		if wide {
			return fmt.Sprintf("│%s %-11s %7s %7s  %7s / %7s│", a, fmtAgo(now, at), fmtNum(s.Commits()), fmtNum(s.Files()), fmtNum(s.Add), fmtNum(s.Del))
		}
		return fmt.Sprintf("│%s %-11s %7s│", a, fmtAgo(now, at), fmtNum(s.Commits()))
	}
	bad, left := consume(groups, n, func(i int, s *Sum) bool {
		for name := range s.Names {
			for _, now := range v.nows() {
				if row(s, name, now) == lines[3+i] {
					return true
				}
			}
		}
		return false
	})
	if bad >= 0 {
		return fmt.Sprintf("row %d is %q; expected one of %v, for instance %q", bad, lines[3+bad], left, row(left[0], keysOf(left[0].Names)[0], v.Now))
	}
	return ""
}

// ---------------------------------------------------------------- tree

type treeCmp struct {
	q   *Query
	v   *View
	s   string // what is left of the output
	err string
	n   int
}

func cmpTree(q *Query, v *View, out string, root *refNode) string {
	out = stripANSI(stripProgress(out))
	if root == nil {
		if out != "" {
			return "lines printed although nothing is selected: " + clip(out)
		}
		return ""
	}
	c := &treeCmp{q: q, v: v, s: out}
	c.walk(root, ".", 0, 0, map[string]bool{"": true}) // as shown above: nobody
	if c.err == "" && c.s != "" {
		c.err = "unexpected lines at the end: " + clip(c.s)
	}
	return c.err
}

func (c *treeCmp) metric(s *Sum, now int64) string {
	switch c.q.Mode {
	case "l":
		return fmt.Sprintf("(%s / %s)", fmtNum(s.Add), fmtNum(s.Del))
	case "f":
		return fmt.Sprintf("(%s)", fmtNum(s.Files()))
	case "c":
		return fmt.Sprintf("(%s)", fmtAgo(now, s.First))
	case "m":
		return fmt.Sprintf("(%s)", fmtAgo(now, s.Last))
	}
	return fmt.Sprintf("(%s)", fmtNum(s.Commits()))
}

// walk consumes the lines of a node. level is its depth in the tree, shown the
// number of displayed directories above it, parents the possible winners of
// the displayed directory above it.
func (c *treeCmp) walk(n *refNode, path string, level, shown int, parents map[string]bool) {
	if c.err != "" || path == noDiff {
		return
	}
	maxd := c.q.Depth
	if maxd == 0 {
		maxd = 100
	}
	if level > maxd {
		return
	}
	if level < maxd && len(n.kids) == 1 {
		for k, x := range n.kids {
			p := k
			if path != "." {
				p = path + "/" + k
			}
			c.walk(x, p, level+1, shown, parents)
		}
		return
	}
	win := map[string]bool{}
	var tops []*Sum
	// the best rank, then the latest last commit
	groups := rankGroups(n.sums, c.q.Mode, true)
	tops = groups[0]
	visible := n.inWT || c.q.All
	if visible {
		label := path
		if len(n.kids) > 0 {
			label += "/"
		}
		c.line(label, shown, tops, len(n.kids) > 0 || c.q.All, parents, win)
		if c.err != "" {
			return
		}
	} else {
		for _, s := range tops {
			win[s.Key] = true
		}
	}
	if level == maxd {
		return
	}
	names := keysOf(n.kids)
	sort.SliceStable(names, func(i, j int) bool {
		a, b := len(n.kids[names[i]].kids) > 0, len(n.kids[names[j]].kids) > 0
		return a && !b
	})
	for _, k := range names {
		c.walk(n.kids[k], k, level+1, shown+1, win)
	}
}

func (c *treeCmp) line(label string, shown int, tops []*Sum, always bool, parents, win map[string]bool) {
	c.n++
	s := c.s
	for i := 0; i < shown; i++ {
		opts := []string{"│   ", "    "}
		if i == shown-1 {
			opts = []string{"├── ", "└── "}
		}
		switch {
		case strings.HasPrefix(s, opts[0]):
			s = s[len(opts[0]):]
		case strings.HasPrefix(s, opts[1]):
			s = s[len(opts[1]):]
		default:
			c.fail(label, "wrong indentation", tops)
			return
		}
	}
	if !strings.HasPrefix(s, label) {
		c.fail(label, "another path", tops)
		return
	}
	s = s[len(label):]
	if strings.HasPrefix(s, "\n") {
		// no annotation: only if the winner is the one shown above
		for _, t := range tops {
			if parents[t.Key] {
				win[t.Key] = true
			}
		}
		if always || len(win) == 0 {
			c.fail(label, "annotation missing", tops)
			return
		}
		c.s = s[1:]
		return
	}
	d := len(s) - len(strings.TrimLeft(s, "."))
	if d < 4 {
		c.fail(label, "annotation or longer path", tops)
		return
	}
	s = s[d:]
	best := ""
	for _, t := range tops {
		if !always && len(parents) == 1 && parents[t.Key] {
			continue // had to be left out
		}
		for name := range t.Names {
			a := abbrev(name, 25)
			if c.q.Email {
				a = abbrev("<"+t.Key+">", 25)
			}
			a = strings.TrimLeft(a, ".")
			for _, now := range c.v.nows() {
				x := a + " " + c.metric(t, now) + "\n"
				if strings.HasPrefix(s, x) {
					win[t.Key] = true
					best = x
				}
			}
		}
	}
	if len(win) == 0 {
		c.fail(label, "wrong annotation", tops)
		return
	}
	c.s = s[len(best):]
}

func (c *treeCmp) fail(label, why string, tops []*Sum) {
	l := c.s
	if i := strings.IndexByte(l, '\n'); i >= 0 {
		l = l[:i]
	}
	c.err = fmt.Sprintf("line %d: %s: found %s where %q was due with %v", c.n, why, clip(l), label, tops)
}

// ---------------------------------------------------------------- timeline

const barWidth = 36

func cmpHist(q *Query, v *View, out string, b []refBucket) string {
	out = stripANSI(stripProgress(out))
	if len(b) == 0 {
		if out != "" {
			return "lines printed although nothing is selected: " + clip(out)
		}
		return ""
	}
	lines := strings.Split(out, "\n")
	if lines[len(lines)-1] != "" {
		return "last line is not complete"
	}
	lines = lines[:len(lines)-1]
	if len(lines) != len(b) {
		return fmt.Sprintf("%d lines instead of %d (%s to %s): %s", len(lines), len(b), b[0].Label, b[len(b)-1].Label, clip(out))
	}
	maxv := barWidth
	for _, x := range b {
		maxv = max(maxv, x.Total)
	}
	scale := func(x int) int {
		return int(math.Ceil(float64(x) / float64(maxv) * barWidth))
	}
	for i, x := range b {
		var alts []string
		if x.Value == 0 {
			alts = []string{x.Label + " ┤ "}
		}
		for _, s := range x.Tops {
			for name := range s.Names {
				a := abbrev(name, 25)
				if q.Email {
					a = abbrev("<"+s.Key+">", 25)
				}
				m := fmt.Sprintf("(%s)", fmtNum(x.Value))
				if q.Mode == "l" {
					m = fmt.Sprintf("(%s / %s)", fmtNum(s.Add), fmtNum(s.Del))
				}
				cv, ct := scale(x.Value), scale(x.Total)
				alts = append(alts, fmt.Sprintf("%s ┤ %s%-*s  %s %s", x.Label, strings.Repeat("#", cv), barWidth-cv, strings.Repeat("-", max(0, ct-cv)), a, m))
			}
		}
		ok := false
		for _, a := range alts {
			ok = ok || a == lines[i]
		}
		if !ok {
			sort.Strings(alts)
			return fmt.Sprintf("line %d is %q; expected %q", i, lines[i], alts)
		}
	}
	return ""
}

// ---------------------------------------------------------------- parse, dump

func cmpParse(q *Query, v *View, out string, rcs []RC) string {
	var b strings.Builder
	for _, c := range rcs {
		fmt.Fprintf(&b, "{ hash:%s author:%s <%s> date:%s merge:%v }\n", c.Short, c.Name, c.Email,
			time.Unix(c.At, 0).In(v.Loc).Format("Jan 2, 2006"), c.Merge)
		for _, d := range c.Diffs {
			fmt.Fprintf(&b, "  { path:\"%s\" added:%d removed:%d }\n", d.Path, d.Add, d.Del)
		}
		b.WriteString("\n")
	}
	fmt.Fprintf(&b, "Parsed %d commits.\n", len(rcs))
	return diffText(out, b.String())
}

func diffText(got, want string) string {
	if got == want {
		return ""
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		x, y := "<end>", "<end>"
		if i < len(g) {
			x = g[i]
		}
		if i < len(w) {
			y = w[i]
		}
		if x != y {
			return fmt.Sprintf("line %d is %s; expected %s", i, clip(x), clip(y))
		}
	}
	return "outputs differ"
}

// cmpDump compares with git's own output of the fields that git-who asks for.
func cmpDump(q *Query, v *View, out string) string {
	args := []string{"log", "--pretty=format:%H%x00%h%x00%p%x00%aN%x00%aE%x00%ad%x00", "-z", "--date=unix", "--reverse", "--no-show-signature"}
	if !q.Short {
		args = append(args, "--numstat")
	}
	if q.Since != "" {
		args = append(args, "--since", q.Since)
	}
	if q.Until != "" {
		args = append(args, "--until", q.Until)
	}
	if len(q.Revs) == 0 {
		args = append(args, "HEAD")
	}
	args = append(args, plainRevs(q.Revs, v)...)
	args = append(append(args, "--"), q.Paths...)
	o, _, code := gitCmd(v.St.Dir+v.Cwd, []string{"TZ=" + v.Loc.String(), "GIT_TEST_DATE_NOW=" + strconv.FormatInt(v.Now/1e9, 10)}, nil, args...)
	if code != 0 {
		return ""
	}
	var b strings.Builder
	fields := strings.Split(string(o), "\x00")
	if who := byAuthor(q); who != nil {
		fields = keepAuthors(fields, who)
	}
	for _, f := range fields {
		if numstat.MatchString(f) {
			f = f[1:]
		}
		b.WriteString(strings.ReplaceAll(f, "\n", "\\n") + "\n")
	}
	return diffText(strings.TrimRight(out, "\n"), strings.TrimRight(b.String(), "\n"))
}

// refCompare compares a successful invocation with the reference; "" if it is
// right.
func refCompare(q *Query, v *View, out string, nows []int64) string {
	first := ""
	for i, now := range nows {
		e := refCompareAt(q, v, out, now)
		if e == "" {
			return ""
		}
		if i == 0 {
			first = e
		}
	}
	return first
}

func refCompareAt(q *Query, v *View, out string, now int64) string {
	if q.Cmd == "dump" {
		return cmpDump(q, v, out)
	}
	rcs, ok := counted(q, v, now)
	if !ok {
		return "git refuses this selection but git-who succeeded"
	}
	switch q.Cmd {
	case "table":
		return cmpTable(q, v, out, refTable(q, rcs))
	case "tree":
		return cmpTree(q, v, out, refTree(q, v, rcs))
	case "hist":
		return cmpHist(q, v, out, refHist(q, v, rcs, now))
	case "parse":
		return cmpParse(q, v, out, rcs)
	}
	trouble("no reference for %s", q.Cmd)
	return ""
}

// git puts a new line between a commit's fields and its first change
// keepAuthors drops what git says of other authors' commits.
func keepAuthors(fields []string, who func(string) bool) []string {
	var kept []string
	for i := 0; i < len(fields); {
		// to the next hash; a file may have a name like one
		j := min(i+6, len(fields))
		for j < len(fields) && !(len(fields[j]) == 40 && hash40.MatchString(fields[j]) && j+1 < len(fields) && len(fields[j+1]) >= 4 && strings.HasPrefix(fields[j], fields[j+1])) {
			j++
		}
		if j-i >= 6 && who(fields[i+3]+" <"+fields[i+4]+">") {
			kept = append(kept, fields[i:j]...)
		}
		i = j
	}
	return kept
}

var numstat = regexp.MustCompile(`^\n(\d+|-)\t(\d+|-)\t`)
