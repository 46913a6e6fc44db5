package main

import (
	"bytes"
	"compress/zlib"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	zz "ZZMODULE/zzsim/zz"
)

// A RepoSpec describes a generated history completely.
type RepoSpec struct {
	Seed    uint64      `json:"seed"`
	Dir     string      `json:"dir"` // simulated absolute path
	N       int         `json:"n"`
	Authors int         `json:"authors"`
	Now     int64       `json:"now"`   // the history ends about here
	Dates   string      `json:"dates"` // days, months, years, ties, dst:<zone>
	Merge   float64     `json:"merge,omitempty"`
	Empty   float64     `json:"empty,omitempty"`
	Anon    float64     `json:"anon,omitempty"`
	Rename  float64     `json:"rename,omitempty"`
	Binary  float64     `json:"binary,omitempty"`
	Delete  float64     `json:"delete,omitempty"`
	Future  float64     `json:"future,omitempty"`
	Epoch   float64     `json:"epoch,omitempty"`
	Alias   float64     `json:"alias,omitempty"` // authors sharing an email or a name
	Weird   float64     `json:"weird,omitempty"` // odd path and author names
	HexFile bool        `json:"hexfile,omitempty"`
	Pad     int         `json:"pad,omitempty"`    // length of the part of each mailmap that concerns nobody
	Huge    bool        `json:"huge,omitempty"`   // very long author name / path
	Bulk    float64     `json:"bulk,omitempty"`   // changes of many lines
	Wide    int         `json:"wide,omitempty"`   // one commit in the middle adds so many files
	Deep    int         `json:"deep,omitempty"`   // some files are so many directories down
	NoFile  bool        `json:"nofile,omitempty"` // only commits without changes
	DiffM   bool        `json:"diffm,omitempty"`  // log.diffMerges=first-parent, which must have no effect
	Evil    float64     `json:"evil,omitempty"`   // merges with changes of their own
	Types   float64     `json:"types,omitempty"`  // symbolic links, submodules, changes of mode
	Latin   float64     `json:"latin,omitempty"`  // commits in another encoding
	Signed  float64     `json:"signed,omitempty"` // signed commits
	Trick   float64     `json:"trick,omitempty"`  // paths that look like patterns, options or magic next to what they would match
	Roots   float64     `json:"roots,omitempty"`  // branches that begin with a commit of their own
	Skew    float64     `json:"skew,omitempty"`   // committers' clocks hours slow
	Turn    float64     `json:"turn,omitempty"`   // files replaced by directories and the other way round
	States  []StateSpec `json:"states"`
}

// A StateSpec is one state of the repository; invocations see one of them.
type StateSpec struct {
	Commits int    `json:"commits"`           // how many commits exist
	Back    int    `json:"back,omitempty"`    // main is moved back by so many of its first parents
	Mailmap int    `json:"mailmap,omitempty"` // 0: none, else a variant
	Extra   int    `json:"extra,omitempty"`   // variant of the file mailmap.file names
	Ignore  int    `json:"ignore,omitempty"`  // variant of .git-blame-ignore-revs
	Branch  string `json:"branch,omitempty"`  // HEAD, default main
	MMForm  int    `json:"mm_form,omitempty"` // mailmap.file: 0 absolute, 1 in the home directory, 2 relative
	Split   int    `json:"split,omitempty"`   // part of the mailmap is in the file mailmap.file names

	Shallow int `json:"shallow,omitempty"` // so many commits count as having no parents, as in a shallow clone

	Settings []string `json:"settings,omitempty"` // git settings of the user, which must have no effect
}

type gCommit struct {
	parents []int
	name    string
	email   string
	at      int64
	tz      string
	ct      int64
	ops     []string // fast-import file commands
	heads   []int    // tips after this commit, [0] is main
	latin   bool
	paths   []string
}

// settings of git that must not change any answer
var settingList = []string{
	"color.ui=always", "color.diff=always", "core.quotePath=false", "core.quotePath=true", "log.date=iso", "log.date=relative",
	"log.showSignature=true", "log.decorate=full", "log.abbrevCommit=true", "format.pretty=fuller", "diff.noprefix=true",
	"diff.mnemonicPrefix=true", "diff.relative=true", "diff.relative=true", "diff.relative=true", "log.follow=true", "log.follow=true",
	"log.showRoot=false", "log.showRoot=false", "log.mailmap=false", "log.mailmap=false", "log.diffMerges=first-parent",
	"diff.external=/bin/false", "diff.submodule=log", "diff.statGraphWidth=3", "core.pager=false", "pager.log=false", "notes.displayRef=*",
	"diff.wsErrorHighlight=all", "i18n.logOutputEncoding=ISO-8859-1", "i18n.logOutputEncoding=ISO-8859-1", "i18n.commitEncoding=ISO-8859-1",
	"log.excludeDecoration=x", "diff.context=0", "diff.interHunkContext=9", "diff.colorMoved=zebra", "log.graphColors=red", "core.commentChar=;",
	"column.ui=always", "advice.objectNameWarning=false", "diff.dirstat=lines", "core.warnAmbiguousRefs=false", "diff.suppressBlankEmpty=true",
}

// settings that do change what git says of a commit
var diffSettingList = []string{
	"diff.renames=false", "diff.renames=copies", "diff.renames=false", "diff.algorithm=patience", "diff.algorithm=histogram",
	"diff.renameLimit=1", "diff.ignoreSubmodules=all", "core.bigFileThreshold=30", "diff.orderFile=/dev/null",
}

var diffSetting = regexp.MustCompile(`(?i)^(diff|submodule)\.|^core\.(attributesfile|bigfilethreshold)=`)

type gFile struct {
	lines  []string
	binary []byte
	mode   string // of a symbolic link, submodule or executable
}

// Repo is a built repository.
type Repo struct {
	Spec   RepoSpec
	Key    string
	Root   string // scratch directory
	States []*RepoState
	diffs  map[string]map[string][]FDiff
	ats    []int64
	paths  [][]string // by commit
}

type RepoState struct {
	Repo    *Repo
	Idx     int
	Dir     string // real work tree
	Files   []string
	Mailmap []byte
	Extra   []byte
	homeMM  string // name of the file in the home directory, if it is there
	Ignore  []byte
	HasMM   bool
	HasEx   bool
	HasIg   bool
	Shallow []byte
	ignored map[string]bool
	commits map[string]*Commit // by hash, loaded lazily
	order   []string
	dirs    []string
	authors []string
	refs    []string
}

var firstNames = []string{"Ada", "Bo", "Cy", "Dee", "Eve", "Fay", "Gus", "Hal", "Ivy", "Jo", "Kit", "Lou"}

func quoteFI(p string) string {
	simple := true
	for i := 0; i < len(p); i++ {
		c := p[i]
		if c < 0x21 || c == '"' || c == '\\' || c > 0x7e {
			simple = false
		}
	}
	if simple {
		return p
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 0x20 || c > 0x7e:
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var weirdNames = []string{
	"sp ace.txt", "tab\there", "ünï→.txt", "\"quote\".c", "{a => b}.txt", " lead", "trail ", "-dash.c",
	"#hash", "back\\slash", "[br].c", "a => b", "1\t2\tx", "nul%x00", "new\nline.c", "'q'.c", "HEAD",
	"..dots", "...", ".hidden", "~", "-", "0", "\nlead", "nl\n", "back\\", "{b}", "x{y => z}w", "*star", "quest?n", "se;mi$(x)",
	"caf\xe9", "\x01ctl", ":colon", ":!bang", "!x", "F1.c", "README", "readme", "Readme", "e\u0301", "\u00e9",
}

// names that look like patterns, options or magic, and names that these would match
var trickNames = []string{
	"{b}", "b", "{b,c}", "c", "[x].c", "x.c", "[!x].c", "[x]", "x", "-x.c", "--stdin", "-z", "--", ":x", ":(top)x", ":", "!x", "^x", "q?n", "qin",
	"a\\b", "ab", "\\x", "x{y", "x}", "{x", "x]", "[x", "%x", "~x", "@", "@{x}", "x..y", ".x", "..x", "x.", "HEAD", "main",
}

// no pattern above matches these, as it would be a matter of where it is applied
var trickDirs = []string{"{b}", "{b,c}", "-z", "--", ":", ":(top)x", "!x", "^x", "x{y", "%x", "~x", "@", "x..y", ".x", "..x", "HEAD", "main", "[x", "x]", "[y]", "q\\r"}

var weirdAuthors = []string{
	"O'Brien, \"Q\"", "名前 太郎", "J\xfcrgen", "🦉 owl", "-", "7", "ada", "ADA", "a\u0301da", "0123456789abcdef0123456789abcdef01234567", "a|b", "Ünïcödé", "12\t5", "{x = y}",
	"Wolfeschlegelsteinhausenbergerdorff Senior", strings.Repeat("名", 20), strings.Repeat("é", 30), "zero\u200bwidth",
	strings.Repeat("W", 25), strings.Repeat("W", 26), "%s%d%n%v", "José María Öztürk-Ångström Ñ", "e" + strings.Repeat("\u0301", 40), "\U0001F468\u200D\U0001F469\u200D\U0001F467 family",
}

type author struct{ name, email string }

func (s *RepoSpec) generate() []gCommit {
	r := zz.NewRng(s.Seed)
	var authors []author
	for i := 0; i < s.Authors; i++ {
		n := firstNames[i%len(firstNames)]
		if i >= len(firstNames) {
			n += strconv.Itoa(i)
		}
		a := author{n, strings.ToLower(n) + "@x.org"}
		if len(authors) > 0 && r.P(s.Alias) {
			o := authors[r.Intn(len(authors))]
			switch r.Intn(3) {
			case 0:
				a.email = o.email
			case 1:
				a.name = o.name
			case 2:
				if o.email != "" {
					a.email = strings.ToUpper(o.email[:1]) + o.email[1:]
				}
			}
		}
		if r.P(s.Weird * 0.5) {
			a.name = weirdAuthors[r.Intn(len(weirdAuthors))]
		}
		if r.P(s.Weird * 0.15) {
			a.email = ""
		}
		if r.P(s.Weird * 0.1) {
			a.email = pick(r, strings.Repeat("long.", 9)+"@x.org", strings.Repeat("長", 15)+"@x.org", "e@"+strings.Repeat("é", 30))
		}
		if r.P(s.Weird * 0.15) {
			a.name = ""
			if a.email == "" {
				a.email = "noname@x.org"
			}
		}
		authors = append(authors, a)
	}
	if s.Huge {
		authors[0].name = strings.Repeat("Very Long Name ", 5000) + "End"
	}
	day := int64(86400)
	var span int64
	style := s.Dates
	zoneAt := int64(0)
	if strings.HasPrefix(style, "dst:") {
		zoneAt = dstChange(style[4:], s.Now, r)
		style = "dst"
	}
	switch style {
	case "days":
		span = 35 * day
	case "months":
		span = 320 * day
	case "years":
		span = 7 * 365 * day
	case "ties":
		span = 2 * day
	case "dst":
		span = 0
	case "hours":
		span = day / 2
	default:
		span = 40 * day
	}
	tzs := []string{"+0000", "-0300", "+0530", "+1400", "-1100"}
	date := func(i int) int64 {
		if r.P(s.Epoch) {
			return pick(r, int64(0), 1, 86399, 946684800, 1<<31, 1<<31-1, 1<<32+77, 3000000000, 253402300000)
		}
		if r.P(s.Future) {
			return s.Now + int64(r.Intn(20))*day/2 + int64(r.Intn(7200)) - 600
		}
		if style == "dst" {
			return zoneAt + int64(r.Intn(12)-6)*day/2 + int64(r.Intn(7200)) - 3600
		}
		if style == "ties" {
			return s.Now - span + int64(r.Intn(3))*day/2
		}
		t := s.Now - span - 3600 + span*int64(i)/int64(max(1, s.N))
		if r.P(0.2) {
			t -= int64(r.Intn(int(span/8 + 2)))
		}
		return t
	}
	dirs := []string{"", "", "a", "b", "src", "src/lib", "src/lib/deep/er", "doc"}
	exts := []string{".c", ".txt", ".go", ""}
	name := func() string {
		d := dirs[r.Intn(len(dirs))]
		if d != "" && r.P(.08) {
			// almost the same name
			d = pick(r, strings.ToUpper(d), d+"x", d[:1], ".."+d)
		}
		if r.P(s.Weird * 0.12) {
			w := weirdNames[r.Intn(len(weirdNames))]
			if s := strings.TrimLeft(w, "*"); s != w || strings.HasSuffix(w, ".c") || strings.HasSuffix(w, ".txt") || strings.HasSuffix(w, ".go") || strings.HasSuffix(w, "f1") {
				w = s + "d" // patterns match directories differently
			}
			if d == "" || r.P(.5) {
				d = w
			} else {
				d += "/" + w
			}
		}
		if s.Deep > 0 && r.P(.12) {
			d = strings.TrimSuffix(strings.Repeat(pick(r, "n/", "nn/"), 1+r.Intn(s.Deep)), "/")
		}
		var f string
		if s.Trick > 0 && r.P(s.Trick*.15) {
			d = pick(r, "", d)
			d = strings.TrimPrefix(d+"/"+trickDirs[r.Intn(len(trickDirs))], "/")
		}
		if s.Trick > 0 && r.P(s.Trick*.7) {
			f = trickNames[r.Intn(len(trickNames))]
		} else if r.P(s.Weird * 0.4) {
			f = weirdNames[r.Intn(len(weirdNames))]
		} else if s.HexFile && r.P(0.3) {
			h := sha256.Sum256([]byte{byte(r.Intn(6)), byte(s.Seed)})
			f = hex.EncodeToString(h[:])[:40]
			d = ""
		} else {
			f = "f" + strconv.Itoa(r.Intn(6)) + exts[r.Intn(len(exts))]
		}
		if s.Huge && r.P(0.05) {
			f = strings.Repeat("q", 200) + "/" + strings.Repeat("r", 200) + f
		}
		if d == "" {
			return f
		}
		return d + "/" + f
	}
	type head struct {
		tip   int
		files map[string]*gFile
	}
	conflicts := func(files map[string]*gFile, p string) bool {
		for q := range files {
			if strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
				return true
			}
		}
		return false
	}
	put := func(p string, f *gFile) string {
		if f.mode == "160000" {
			h := sha256.Sum256([]byte(strings.Join(f.lines, "\n")))
			return fmt.Sprintf("M 160000 %s %s\n", hex.EncodeToString(h[:])[:40], quoteFI(p))
		}
		data := strings.Join(f.lines, "\n")
		if len(f.lines) > 0 {
			data += "\n"
		}
		if f.binary != nil {
			data = string(f.binary)
		}
		mode := f.mode
		if mode == "" {
			mode = "100644"
		}
		return fmt.Sprintf("M %s inline %s\ndata %d\n%s\n", mode, quoteFI(p), len(data), data)
	}
	heads := []*head{{tip: -1, files: map[string]*gFile{}}}
	ln := 0
	extra := zz.NewRng(s.Seed ^ 0x7007)
	var out []gCommit
	for i := 0; i < s.N; i++ {
		var c gCommit
		h := heads[0]
		hi := 0
		if len(heads) > 1 && r.P(0.45) {
			hi = r.Intn(len(heads))
			h = heads[hi]
		}
		a := authors[r.Intn(len(authors))]
		if r.P(0.4) {
			a = authors[r.Intn(1+len(authors)/3)]
		}
		c.name, c.email = a.name, a.email
		if r.P(s.Anon) {
			c.name, c.email = "", ""
		}
		if s.Latin > 0 && r.P(s.Latin) {
			c.latin = true
			if c.name != "" {
				c.name += " \xe9\xdf"
			}
		}
		c.at = date(i)
		if c.at < 0 {
			c.at = 0
		}
		if c.at > 1<<32 {
			c.at = 1 << 32
		}
		c.tz = tzs[r.Intn(len(tzs))]
		c.ct = s.Now - int64(s.N-i)*60
		if s.Skew > 0 && extra.P(s.Skew) {
			c.ct -= int64(1+extra.Intn(240)) * 1800
		}
		if h.tip >= 0 {
			c.parents = []int{h.tip}
		}
		merged := false
		if len(heads) > 1 && i > 2 && heads[0].tip >= 0 && r.P(s.Merge) {
			// merge other heads into main
			h = heads[0]
			hi = 0
			c.parents = []int{h.tip}
			k := 1
			if len(heads) > 2 && r.P(0.4) {
				k = 2
			}
			for j := 0; j < k; j++ {
				x := 1 + r.Intn(len(heads)-1)
				o := heads[x]
				dup := false
				for _, p := range c.parents {
					dup = dup || p == o.tip
				}
				dup = dup || o.tip < 0
				if dup {
					continue
				}
				c.parents = append(c.parents, o.tip)
				heads = append(heads[:x:x], heads[x+1:]...)
				ps := keysOf(o.files)
				for _, p := range ps {
					if h.files[p] == nil && !conflicts(h.files, p) {
						h.files[p] = o.files[p]
						c.ops = append(c.ops, put(p, o.files[p]))
					}
				}
			}
			merged = len(c.parents) > 1
		}
		nops := 1 + r.Intn(3)
		if merged && !r.P(s.Evil) {
			nops = 0
		}
		if s.NoFile || r.P(s.Empty) {
			nops = 0
		}
		touched := map[string]bool{}
		if s.Wide > 0 && i == s.N/2 && nops > 0 {
			for k := 0; k < s.Wide; k++ {
				p := fmt.Sprintf("w/%d/%d.c", k*k%17, k)
				ln++
				h.files[p] = &gFile{lines: []string{"wide " + strconv.Itoa(ln)}}
				c.ops = append(c.ops, put(p, h.files[p]))
				touched[p] = true
			}
		}
		for j := 0; j < nops; j++ {
			ps := keysOf(h.files)
			switch {
			case len(ps) > 0 && s.Turn > 0 && r.P(s.Turn):
				p := ps[r.Intn(len(ps))]
				q := p + "/" + pick(r, "f0.c", "f1", "y/f2.go")
				if d, _, ok := strings.Cut(p, "/"); ok && r.P(.6) {
					// everything in the directory goes
					if i := strings.LastIndexByte(p, '/'); r.P(.5) {
						d = p[:i]
					}
					q = d
				}
				if touched[q] || strings.HasPrefix(q, p) && (filepath.Ext(p) != "" || strings.HasSuffix(p, "f1") || slices.Contains(trickNames, filepath.Base(p))) {
					continue // patterns match directories differently
				}
				var f *gFile
				for _, x := range ps {
					if h.files[x] != nil && (x == p || strings.HasPrefix(x, q+"/")) && !touched[x] {
						touched[x] = true
						f = h.files[x]
						delete(h.files, x)
						c.ops = append(c.ops, "D "+quoteFI(x)+"\n")
					}
				}
				if f == nil || h.files[q] != nil || conflicts(h.files, q) {
					continue
				}
				touched[q] = true
				h.files[q] = &gFile{append([]string(nil), f.lines...), f.binary, f.mode}
				c.ops = append(c.ops, put(q, h.files[q]))
			case len(ps) > 0 && r.P(s.Rename):
				p := ps[r.Intn(len(ps))]
				q := name()
				if touched[p] || touched[q] || h.files[q] != nil || conflicts(h.files, q) || strings.HasPrefix(q, p+"/") {
					continue
				}
				touched[p], touched[q] = true, true
				f := h.files[p]
				delete(h.files, p)
				nf := &gFile{append([]string(nil), f.lines...), f.binary, f.mode}
				if r.P(0.4) && f.binary == nil && f.mode != "120000" {
					ln++
					nf.lines = append(nf.lines, "renamed "+strconv.Itoa(ln))
				}
				h.files[q] = nf
				c.ops = append(c.ops, "D "+quoteFI(p)+"\n", put(q, nf))
			case len(ps) > 1 && r.P(s.Delete):
				p := ps[r.Intn(len(ps))]
				if touched[p] {
					continue
				}
				touched[p] = true
				delete(h.files, p)
				c.ops = append(c.ops, "D "+quoteFI(p)+"\n")
			default:
				p := name()
				if len(ps) > 0 && r.P(0.6) {
					p = ps[r.Intn(len(ps))]
				}
				if touched[p] || h.files[p] == nil && conflicts(h.files, p) {
					continue
				}
				touched[p] = true
				f := h.files[p]
				nf := &gFile{}
				if f != nil {
					nf.lines = append(nf.lines, f.lines...)
					nf.binary = f.binary
					nf.mode = f.mode
				}
				if s.Types > 0 && r.P(s.Types) {
					nf.mode = pick(r, "", "100755", "120000", "160000", "100755")
					if f != nil && nf.mode == "100755" && f.mode == "" && r.P(.6) {
						h.files[p] = &gFile{f.lines, f.binary, nf.mode}
						c.ops = append(c.ops, put(p, h.files[p]))
						continue
					}
				}
				if nf.mode == "120000" || nf.mode == "160000" {
					ln++
					nf.lines, nf.binary = []string{"target" + strconv.Itoa(ln)}, nil
					h.files[p] = nf
					c.ops = append(c.ops, put(p, nf))
					continue
				}
				if f == nil && r.P(s.Binary) || nf.binary != nil {
					ln++
					nf.binary = []byte("\x00bin" + strconv.Itoa(ln))
					nf.lines = nil
				} else {
					for k := 0; k < len(nf.lines) && r.P(0.3); k++ {
						x := r.Intn(len(nf.lines))
						nf.lines = append(nf.lines[:x:x], nf.lines[x+1:]...)
					}
					for k := 1 + r.Intn(4); k > 0 && len(nf.lines) < 40; k-- {
						ln++
						nf.lines = append(nf.lines, "line "+strconv.Itoa(ln))
					}
					if s.Bulk > 0 && r.P(s.Bulk) {
						// one element, many lines
						k := pick(r, 900, 999, 1000, 1001, 1300, 5000, 9999, 10000, 32768, 65536, 70000, 120000)
						if r.P(.04) {
							k = pick(r, 999_999, 1_000_001, 1_100_000)
						}
						nf.lines = append(nf.lines, strings.Repeat("x\n", k-1)+"x")
					}
					if f == nil {
						for k := 0; k < 6; k++ {
							ln++
							nf.lines = append(nf.lines, "base "+strconv.Itoa(ln))
						}
					}
				}
				h.files[p] = nf
				c.ops = append(c.ops, put(p, nf))
			}
		}
		c.paths = keysOf(touched)
		h.tip = i
		if s.Merge > 0 && len(heads) < 4 && r.P(s.Merge*1.2) {
			nf := map[string]*gFile{}
			for p, f := range h.files {
				nf[p] = f
			}
			if s.Roots > 0 && extra.P(s.Roots) {
				heads = append(heads, &head{-1, map[string]*gFile{}})
			} else {
				heads = append(heads, &head{i, nf})
			}
		}
		for _, x := range heads {
			if x.tip >= 0 {
				c.heads = append(c.heads, x.tip)
			}
		}
		out = append(out, c)
	}
	return out
}

func keysOf[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var gitEnvBase []string
var scratch string
var nGit int64

func gitCmd(dir string, extraEnv []string, stdin []byte, args ...string) (out, errb []byte, code int) {
	nGit++
	c := exec.Command("git", args...)
	c.Dir = dir
	c.Env = append(append([]string{}, gitEnvBase...), extraEnv...)
	if stdin != nil {
		c.Stdin = bytes.NewReader(stdin)
	}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return o.Bytes(), e.Bytes(), ee.ExitCode()
		}
		trouble("cannot run git: %v", err)
	}
	return o.Bytes(), e.Bytes(), 0
}

func mustGit(dir string, stdin []byte, args ...string) []byte {
	o, e, code := gitCmd(dir, nil, stdin, args...)
	if code != 0 {
		trouble("git %v failed (%d): %s", args, code, e)
	}
	return o
}

func must(err error) {
	if err != nil {
		trouble("%v", err)
	}
}

func (s RepoSpec) key() string {
	b, _ := json.Marshal(s)
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

var repoCache = map[string]*Repo{}

// build makes the real repositories of a spec, one work tree per state.
func build(s RepoSpec) *Repo {
	k := s.key()
	if r := repoCache[k]; r != nil {
		return r
	}
	root := filepath.Join(scratch, "repos", k)
	r := &Repo{Spec: s, Key: k, Root: root}
	must(os.MkdirAll(root, 0o755))
	commits := s.generate()
	for _, c := range commits {
		r.paths = append(r.paths, c.paths)
	}
	for _, c := range commits {
		r.ats = append(r.ats, c.at)
	}
	var marks []string
	base := filepath.Join(root, "base.git")
	mustGit(root, nil, "init", "-q", "--bare", "--template=", "-b", "main", base)
	var b bytes.Buffer
	b.WriteString("feature done\n")
	for i, c := range commits {
		fmt.Fprintf(&b, "commit refs/keep/c%d\nmark :%d\n", i, i+1)
		an := c.name
		if an != "" {
			an += " "
		}
		fmt.Fprintf(&b, "author %s<%s> %d %s\n", an, c.email, c.at, c.tz)
		fmt.Fprintf(&b, "committer C <c@x.org> %d +0000\n", max(c.ct, 0))
		if c.latin {
			b.WriteString("encoding ISO-8859-1\n")
		}
		msg := fmt.Sprintf("commit %d\n", i)
		fmt.Fprintf(&b, "data %d\n%s", len(msg), msg)
		for j, p := range c.parents {
			if j == 0 {
				fmt.Fprintf(&b, "from :%d\n", p+1)
			} else {
				fmt.Fprintf(&b, "merge :%d\n", p+1)
			}
		}
		for _, o := range c.ops {
			b.WriteString(o)
		}
		b.WriteString("\n")
	}
	b.WriteString("done\n")
	mf := filepath.Join(root, "marks")
	mustGit(base, b.Bytes(), "fast-import", "--quiet", "--done", "--date-format=raw-permissive", "--export-marks="+mf)
	md, err := os.ReadFile(mf)
	must(err)
	marks = make([]string, len(commits))
	for _, l := range strings.Split(strings.TrimSpace(string(md)), "\n") {
		var m int
		var h string
		if n, _ := fmt.Sscanf(l, ":%d %s", &m, &h); n == 2 {
			marks[m-1] = h
		}
	}
	if s.Signed > 0 {
		sign(base, marks, zz.NewRng(s.Seed^0x516e), s.Signed)
	}
	for i, st := range s.States {
		r.States = append(r.States, r.buildState(i, st, base, commits, marks))
	}
	repoCache[k] = r
	return r
}

// sign rewrites the commits with signatures on some of them.
func sign(base string, marks []string, r *zz.Rng, p float64) {
	out := mustGit(base, []byte(strings.Join(marks, "\n")+"\n"), "cat-file", "--batch")
	now := map[string]string{}
	left := 8
	for i, h := range marks {
		var size int
		nl := bytes.IndexByte(out, '\n')
		fmt.Sscanf(string(out[:nl]), h+" commit %d", &size)
		body := string(out[nl+1 : nl+1+size])
		out = out[nl+1+size+1:]
		head, msg, _ := strings.Cut(body, "\n\n")
		for _, l := range strings.Split(head, "\n") {
			if old, ok := strings.CutPrefix(l, "parent "); ok {
				head = strings.Replace(head, l, "parent "+now[old], 1)
			}
		}
		if left > 0 && r.P(p) {
			left--
			head += "\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n iQEzBAAB\n =abcd\n -----END PGP SIGNATURE-----"
		}
		marks[i] = writeObject(base, "commit", head+"\n\n"+msg)
		now[h] = marks[i]
	}
}

func writeObject(base, kind, body string) string {
	raw := fmt.Sprintf("%s %d\x00%s", kind, len(body), body)
	sum := sha1.Sum([]byte(raw))
	h := hex.EncodeToString(sum[:])
	dir := filepath.Join(base, "objects", h[:2])
	must(os.MkdirAll(dir, 0o755))
	var b bytes.Buffer
	w := zlib.NewWriter(&b)
	w.Write([]byte(raw))
	w.Close()
	must(os.WriteFile(filepath.Join(dir, h[2:]), b.Bytes(), 0o644))
	return h
}

func (r *Repo) buildState(i int, st StateSpec, base string, commits []gCommit, marks []string) *RepoState {
	dir := filepath.Join(r.Root, "s"+strconv.Itoa(i))
	rs := &RepoState{Repo: r, Idx: i, Dir: dir}
	gd := filepath.Join(dir, ".git")
	must(os.MkdirAll(filepath.Join(gd, "refs", "heads"), 0o755))
	must(os.MkdirAll(filepath.Join(gd, "refs", "tags"), 0o755))
	must(os.MkdirAll(filepath.Join(gd, "objects", "info"), 0o755))
	must(os.WriteFile(filepath.Join(gd, "objects", "info", "alternates"), []byte(filepath.Join(base, "objects")+"\n"), 0o644))
	cfg := "[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n"
	if r.Spec.DiffM {
		cfg += "[log]\n\tdiffMerges = first-parent\n"
	}
	if r.Spec.Signed > 0 {
		// something to check the signatures with
		gpg := filepath.Join(r.Root, "gpg")
		must(os.WriteFile(gpg, []byte("#!/bin/sh\necho 'gpg: Good signature from \"X <x@x.org>\"' >&2\necho '[GNUPG:] GOODSIG 123 X'\n"), 0o755))
		cfg += "[gpg]\n\tprogram = " + gpg + "\n"
	}
	if st.Extra > 0 || st.Split > 0 {
		file := filepath.Join(dir, "extra.mailmap")
		switch st.MMForm {
		case 1:
			rs.homeMM = fmt.Sprintf("mm-%x-%d", r.Spec.Seed, i)
			file = "~/" + rs.homeMM
		case 2:
			file = "extra.mailmap"
		}
		cfg += "[mailmap]\n\tfile = " + file + "\n"
	}
	must(os.WriteFile(filepath.Join(gd, "config"), []byte(cfg), 0o644))
	n := min(st.Commits, len(commits))
	head := "main"
	if n > 0 {
		tips := commits[n-1].heads
		t := tips[0]
		if t < 0 {
			t = n - 1
		}
		for k := 0; k < st.Back; k++ {
			if len(commits[t].parents) > 0 {
				t = commits[t].parents[0]
			}
		}
		ref := func(name string, c int) {
			must(os.WriteFile(filepath.Join(gd, "refs", "heads", name), []byte(marks[c]+"\n"), 0o644))
			rs.refs = append(rs.refs, name)
		}
		ref("main", t)
		for k := 1; k < len(tips); k++ {
			ref("side"+strconv.Itoa(k), tips[k])
		}
		must(os.WriteFile(filepath.Join(gd, "refs", "tags", "t1"), []byte(marks[n/2]+"\n"), 0o644))
		rs.refs = append(rs.refs, "t1")
		if r.Spec.Seed%3 == 0 {
			h := writeObject(base, "tag", fmt.Sprintf("object %s\ntype commit\ntag v2\ntagger C <c@x.org> %d +0000\n\ntag\n", marks[n/3], max(r.Spec.Now-60, 0)))
			must(os.WriteFile(filepath.Join(gd, "refs", "tags", "v2"), []byte(h+"\n"), 0o644))
			rs.refs = append(rs.refs, "v2")
		}
		if st.Branch != "" {
			for _, x := range rs.refs {
				if x == st.Branch {
					head = st.Branch
				}
			}
		}
	}
	if st.Shallow > 0 && n > 1 {
		rr := zz.NewRng(r.Spec.Seed ^ uint64(st.Shallow)*104729)
		hs := map[string]bool{}
		for k := 0; k < st.Shallow; k++ {
			hs[marks[rr.Intn(n)]] = true
		}
		rs.Shallow = []byte(strings.Join(keysOf(hs), "\n") + "\n")
		must(os.WriteFile(filepath.Join(gd, "shallow"), rs.Shallow, 0o644))
	}
	must(os.WriteFile(filepath.Join(gd, "HEAD"), []byte("ref: refs/heads/"+head+"\n"), 0o644))
	if n > 0 {
		mustGit(dir, nil, "reset", "--hard", "-q", head)
	}
	for _, f := range strings.Split(string(mustGit(dir, nil, "ls-files", "-z")), "\x00") {
		if f != "" {
			rs.Files = append(rs.Files, f)
		}
	}
	ds := map[string]bool{}
	for _, f := range rs.Files {
		for d := filepath.Dir(f); d != "."; d = filepath.Dir(d) {
			ds[d] = true
		}
	}
	rs.dirs = keysOf(ds)
	as := map[string]bool{}
	var emails, names []string
	for _, c := range commits[:n] {
		k := c.name + " <" + c.email + ">"
		if !as[k] {
			as[k] = true
			rs.authors = append(rs.authors, k)
			emails = append(emails, c.email)
			names = append(names, c.name)
		}
	}
	mm := zz.NewRng(r.Spec.Seed ^ 0xabc)
	if st.Mailmap > 0 {
		rs.Mailmap, rs.HasMM = mailmapText(st.Mailmap, r.Spec.Pad, names, emails, mm), true
		must(os.WriteFile(filepath.Join(dir, ".mailmap"), rs.Mailmap, 0o644))
	}
	if st.Split > 0 {
		k := len(rs.Mailmap) * min(st.Split, 10) / 10
		rs.Extra, rs.HasEx = rs.Mailmap[k:], true
		rs.Mailmap = rs.Mailmap[:k]
		must(os.WriteFile(filepath.Join(dir, ".mailmap"), rs.Mailmap, 0o644))
		must(os.WriteFile(rs.extraPath(dir, filepath.Join(scratch, "home")), rs.Extra, 0o644))
	} else if st.Extra > 0 {
		rs.Extra, rs.HasEx = mailmapText(st.Extra+100, r.Spec.Pad, names, emails, mm), true
		must(os.WriteFile(rs.extraPath(dir, filepath.Join(scratch, "home")), rs.Extra, 0o644))
	}
	rs.ignored = map[string]bool{}
	if st.Ignore > 0 {
		rs.HasIg = true
		rr := zz.NewRng(r.Spec.Seed ^ uint64(st.Ignore)*7919)
		var b strings.Builder
		b.WriteString("# reformatting\n\n")
		for j, h := range marks {
			switch {
			case rr.P(0.15):
				switch rr.Intn(7) {
				case 6:
					b.WriteString(strings.ToUpper(h) + "\n")
				case 3:
					b.WriteString(h + " # " + pick(rr, "why", "#", h) + "\n")
				case 4:
					b.WriteString(h + "#tabs\n")
				case 5:
					b.WriteString("\t" + h + "\r\n")
				case 0:
					b.WriteString(h + "\n")
				case 1:
					b.WriteString("  " + h + "\t \n")
				case 2:
					b.WriteString("# ignore this\n" + h + "\n\n")
				}
				rs.ignored[h] = true
			case rr.P(0.05):
				b.WriteString("# " + h + "\n")
			case j == 0 && rr.P(0.5):
				b.WriteString(strings.Repeat("0", 39) + "1\n")
			}
		}
		if rr.P(.1) {
			b.WriteString("# " + strings.Repeat("long ", 20000) + "\n" + marks[rr.Intn(len(marks))] + "\n")
			ls := strings.Fields(b.String())
			rs.ignored[ls[len(ls)-1]] = true
		}
		t := b.String()
		if rr.P(0.3) {
			t = strings.TrimRight(t, "\n") // no newline at the end
		}
		rs.Ignore = []byte(t)
		must(os.WriteFile(filepath.Join(dir, ".git-blame-ignore-revs"), rs.Ignore, 0o644))
	}
	return rs
}

// collide adds a comment to a text so that its 32-bit FNV hash is that of
// another text.
func collide(text, other []byte) []byte {
	const prime = 16777619
	inv := uint32(1) // of prime, modulo 2^32
	for i := 0; i < 5; i++ {
		inv *= 2 - prime*inv
	}
	sum := func(h uint32, b ...byte) uint32 {
		for _, c := range b {
			h = h*prime ^ uint32(c)
		}
		return h
	}
	const abc = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_"
	text = append(bytes.TrimRight(append([]byte(nil), text...), "\n"), "\n# "...)
	start, end := sum(2166136261, text...), sum(2166136261, other...)
	seen := map[uint32][3]byte{}
	for i := 0; i < 1<<18; i++ {
		c := [3]byte{abc[i&63], abc[i>>6&63], abc[i>>12]}
		seen[sum(start, c[:]...)] = c
	}
	end = (end ^ '\n') * inv
	for i := 0; i < 1<<18; i++ {
		c := [3]byte{abc[i&63], abc[i>>6&63], abc[i>>12]}
		h := end
		for k := 2; k >= 0; k-- {
			h = (h ^ uint32(c[k])) * inv
		}
		if f, ok := seen[h]; ok {
			text = append(append(append(text, f[:]...), c[:]...), '\n')
			if sum(2166136261, text...) != sum(2166136261, other...) {
				trouble("collide is wrong")
			}
			return text
		}
	}
	return text
}

func mailmapText(variant, pad int, names, emails []string, r *zz.Rng) []byte {
	switch variant {
	case 11: // same 32-bit hash as 1
		c := *r
		return collide(mailmapText(2, pad, names, emails, &c), mailmapText(1, pad, names, emails, r))
	case 12: // same length as 1
		return []byte(strings.NewReplacer("Proper Ada", "Proper Eve", "Proper Bo", "Proper Cy", "<p1@", "<p2@", "<p2@", "<p0@", "P1 ", "P0 ").Replace(string(mailmapText(1, pad, names, emails, r))))
	}
	r = zz.NewRng(r.U64() ^ uint64(variant)*1000003)
	var b strings.Builder
	b.WriteString("# mailmap\n\n")
	if variant == 9 {
		return []byte(b.String())
	}
	if variant == 10 {
		return nil
	}
	// people who have no commits here
	for i := 0; b.Len() < pad; i++ {
		fmt.Fprintf(&b, "Nobody Nr. %d <nobody%d@example.org> <n%d@z.org>\n", i, i, i)
	}
	for i, e := range emails {
		if e == "" || !r.P(0.6) {
			continue
		}
		switch r.Intn(4) {
		case 0:
			fmt.Fprintf(&b, "Proper %s <%s>\n", firstNames[r.Intn(4)], e)
		case 1:
			fmt.Fprintf(&b, "<p%d@y.org> <%s>\n", r.Intn(3), e)
		case 2:
			fmt.Fprintf(&b, "Proper %s <p%d@y.org> <%s>\n", firstNames[r.Intn(4)], r.Intn(3), e)
		case 3:
			if names[i] != "" && !strings.ContainsAny(names[i], "<>#\n") {
				fmt.Fprintf(&b, "P%d <p%d@y.org> %s <%s>\n", r.Intn(3), r.Intn(3), names[i], e)
			}
		}
	}
	return []byte(b.String())
}

// extraPath is where the file is that mailmap.file names.
func (rs *RepoState) extraPath(root, home string) string {
	if rs.homeMM != "" {
		return home + "/" + rs.homeMM
	}
	return root + "/extra.mailmap"
}

// place puts the files of a state that git-who can see into the simulated
// file system.
func (rs *RepoState) place(fs *zz.FS) {
	root := rs.Repo.Spec.Dir
	fs.RemoveK(root)
	fs.MkdirAllK(root + "/.git")
	fs.Put(root+"/.git/HEAD", []byte("ref: refs/heads/main\n"))
	if rs.Shallow != nil {
		fs.Put(root+"/.git/shallow", rs.Shallow)
	}
	for _, d := range rs.dirs {
		fs.MkdirAllK(root + "/" + d)
	}
	for _, f := range rs.Files {
		fs.Put(root+"/"+f, nil)
	}
	if rs.HasMM {
		fs.Put(root+"/.mailmap", rs.Mailmap)
	}
	if rs.HasEx {
		fs.Put(rs.extraPath(root, home), rs.Extra)
	}
	if rs.HasIg {
		fs.Put(root+"/.git-blame-ignore-revs", rs.Ignore)
	}
}

// ---------------------------------------------------------------- git as a function

type gitKey string

var (
	gitMemo     = map[gitKey]*zz.GitResp{}
	gitMemoSize int
)

var readOnly = map[string]bool{
	"log": true, "rev-list": true, "rev-parse": true, "ls-files": true, "config": true, "cat-file": true,
	"diff-tree": true, "show": true, "check-mailmap": true, "version": true, "ls-tree": true, "diff": true,
	"merge-base": true, "for-each-ref": true, "name-rev": true, "show-ref": true, "shortlog": true, "var": true,
	"status": true, "check-ref-format": true, "branch": true, "count-objects": true, "symbolic-ref": true, "log-stdin": true,
}

// runGit runs the real git for a simulated child.
func runGit(states map[string]*RepoState, q *zz.GitReq) *zz.GitResp {
	kind := zz.ChildKind(q.Args)
	if !readOnly[kind] {
		trouble("SIM-UNSUPPORTED: git %s is not known to be read-only", kind)
	}
	if kind == "config" {
		ok := false
		for _, a := range q.Args {
			if strings.HasPrefix(a, "--get") || a == "get" || a == "--list" || a == "-l" || a == "list" {
				ok = true
			}
		}
		if !ok {
			trouble("SIM-UNSUPPORTED: git config that may write: %q", q.Args)
		}
	}
	var st *RepoState
	cwd := q.Cwd
	for sim, s := range states {
		if cwd == sim || strings.HasPrefix(cwd, sim+"/") {
			if st == nil || len(sim) > len(st.Repo.Spec.Dir) {
				st = s
			}
		}
	}
	real := filepath.Join(scratch, "norepo")
	args := append([]string(nil), q.Args...)
	if st != nil {
		real = st.Dir + strings.TrimPrefix(cwd, st.Repo.Spec.Dir)
		for i, a := range args {
			if strings.Contains(a, st.Repo.Spec.Dir) && (i == 0 || kind != "log") {
				args[i] = strings.ReplaceAll(a, st.Repo.Spec.Dir, st.Dir)
			}
		}
	}
	dated := false
	for _, a := range args {
		if strings.HasPrefix(a, "--since") || strings.HasPrefix(a, "--until") || strings.HasPrefix(a, "--after") || strings.HasPrefix(a, "--before") || strings.Contains(a, "@{") {
			dated = true
		}
	}
	env := []string{"TZ=" + q.Env["TZ"]}
	for _, k := range keysOf(q.Env) {
		if strings.HasPrefix(k, "GIT_") && !strings.HasPrefix(k, "GIT_WHO") {
			env = append(env, k+"="+q.Env[k])
		}
	}
	if st != nil {
		ss := st.Repo.Spec.States[st.Idx].Settings
		if len(ss) > 0 {
			env = append(env, "GIT_CONFIG_COUNT="+strconv.Itoa(len(ss)))
			for i, s := range ss {
				k, v, _ := strings.Cut(s, "=")
				env = append(env, fmt.Sprintf("GIT_CONFIG_KEY_%d=%s", i, k), fmt.Sprintf("GIT_CONFIG_VALUE_%d=%s", i, v))
			}
		}
	}
	now := ""
	if dated {
		now = "GIT_TEST_DATE_NOW=" + strconv.FormatInt(q.Now/1e9, 10)
		env = append(env, now)
	}
	key := gitKey(real + "\x00" + strings.Join(args, "\x00") + "\x01" + string(q.Stdin) + "\x01" + strings.Join(env, "\x00"))
	if r := gitMemo[key]; r != nil {
		return r
	}
	stdin := q.Stdin
	if stdin == nil {
		stdin = []byte{}
	}
	o, e, code := gitCmd(real, env, stdin, args...)
	if kind == "config" {
		o = bytes.ReplaceAll(o, []byte(filepath.Join(scratch, "home")+"/mm-"), []byte(home+"/mm-"))
	}
	if st != nil && kind != "log" && kind != "log-stdin" && kind != "rev-list" && kind != "ls-files" {
		o = bytes.ReplaceAll(o, []byte(st.Dir), []byte(st.Repo.Spec.Dir))
	}
	if st != nil {
		e = bytes.ReplaceAll(e, []byte(st.Dir), []byte(st.Repo.Spec.Dir))
	}
	if os.Getenv("ZZ_GIT") != "" {
		fmt.Fprintf(os.Stderr, "GIT %q in %s: %q %q %d\n", args, real, clip(string(o)), clip(string(e)), code)
	}
	r := &zz.GitResp{Stdout: o, Stderr: e, Code: code}
	gitMemo[key] = r
	gitMemoSize += len(key) + len(o) + len(e)
	if gitMemoSize > 300<<20 {
		gitMemo = map[gitKey]*zz.GitResp{}
		gitMemoSize = 0
	}
	return r
}
