package zz

import (
	"errors"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Inode is a file or directory of the simulated disk.
type Inode struct {
	ID      int
	Dir     bool
	Ents    map[string]*Inode
	Data    []byte
	Mode    os.FileMode
	Mtime   int64
	Foreign bool // part of a repository's working tree

	// durable state as of the last checkpoint / fsync
	base     map[string]*Inode
	baseData []byte
	isBase   bool
	synced   []byte // content at the last fsync after the checkpoint
	hasSync  bool
	dirty    bool
	writing  bool
	lock     map[*OS_File]int
}

type jop struct {
	unlink  bool
	dir     *Inode
	name    string
	ino     *Inode
	rename  bool // a rename is one atomic journal entry
	dir2    *Inode
	name2   string
	touched *Inode
}

type FsRec struct {
	I    int
	Op   string
	Path string
	N    int
	Mut  bool
}

type MutRec struct {
	Proc int
	Op   string
	Path string
}

type FS struct {
	Root    *Inode
	nextIno int
	journal []jop
	synced  int // journal prefix known durable
	Muts    []MutRec
	Limit   int64 // bytes that can still be written before ENOSPC (<0: no limit)
}

func NewFS() *FS {
	f := &FS{Limit: -1}
	f.Root = f.newInode(true, 0o755)
	return f
}

func (f *FS) newInode(dir bool, mode os.FileMode) *Inode {
	f.nextIno++
	n := &Inode{ID: f.nextIno, Dir: dir, Mode: mode}
	if dir {
		n.Ents = map[string]*Inode{}
	}
	return n
}

func splitAbs(p string) []string {
	p = path.Clean("/" + p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

// Lookup finds a path; kernel side, no faults.
func (f *FS) Lookup(p string) (*Inode, syscall.Errno) {
	n := f.Root
	for _, c := range splitAbs(p) {
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		n = n.Ents[c]
		if n == nil {
			return nil, syscall.ENOENT
		}
	}
	return n, 0
}

func (f *FS) lookupParent(p string) (*Inode, string, syscall.Errno) {
	parts := splitAbs(p)
	if len(parts) == 0 {
		return nil, "", syscall.EEXIST
	}
	d, e := f.Lookup("/" + strings.Join(parts[:len(parts)-1], "/"))
	if e != 0 {
		return nil, "", e
	}
	if !d.Dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, parts[len(parts)-1], 0
}

// Put creates a file (and its directories) from outside the simulation.
func (f *FS) Put(p string, data []byte) *Inode {
	f.MkdirAllK(path.Dir(p))
	d, name, e := f.lookupParent(p)
	if e != 0 {
		panic("zz: Put " + p + ": " + e.Error())
	}
	n := d.Ents[name]
	if n == nil {
		n = f.newInode(false, 0o644)
		d.Ents[name] = n
	}
	n.Data = data
	return n
}

func (f *FS) MkdirAllK(p string) *Inode {
	n := f.Root
	for _, c := range splitAbs(p) {
		x := n.Ents[c]
		if x == nil {
			x = f.newInode(true, 0o755)
			n.Ents[c] = x
		}
		n = x
	}
	return n
}

func (f *FS) RemoveK(p string) {
	d, name, e := f.lookupParent(p)
	if e == 0 {
		delete(d.Ents, name)
	}
}

// WalkK lists files under p (paths relative to p) in sorted order.
func (f *FS) WalkK(p string, fn func(rel string, n *Inode)) {
	n, e := f.Lookup(p)
	if e != 0 {
		return
	}
	var rec func(rel string, n *Inode)
	rec = func(rel string, n *Inode) {
		fn(rel, n)
		if n.Dir {
			for _, k := range sortedNames(n.Ents) {
				rec(path.Join(rel, k), n.Ents[k])
			}
		}
	}
	rec("", n)
}

func sortedNames(m map[string]*Inode) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Clone makes a deep copy of the disk.
func (f *FS) Clone() *FS {
	g := &FS{nextIno: f.nextIno, Limit: f.Limit}
	seen := map[*Inode]*Inode{}
	var cp func(n *Inode) *Inode
	cp = func(n *Inode) *Inode {
		if x, ok := seen[n]; ok {
			return x
		}
		x := &Inode{ID: n.ID, Dir: n.Dir, Mode: n.Mode, Mtime: n.Mtime, Foreign: n.Foreign}
		seen[n] = x
		if n.Dir {
			x.Ents = map[string]*Inode{}
			for k, v := range n.Ents {
				x.Ents[k] = cp(v)
			}
		} else {
			x.Data = append([]byte(nil), n.Data...)
		}
		return x
	}
	g.Root = cp(f.Root)
	return g
}

// Checkpoint declares everything on disk durable.
func (f *FS) Checkpoint() {
	f.journal = nil
	f.synced = 0
	f.Muts = nil
	var rec func(n *Inode)
	rec = func(n *Inode) {
		n.isBase = true
		n.hasSync, n.synced, n.dirty = false, nil, false
		n.lock = nil
		n.writing = false
		if n.Dir {
			n.base = map[string]*Inode{}
			for k, v := range n.Ents {
				n.base[k] = v
				rec(v)
			}
		} else {
			n.baseData = append([]byte(nil), n.Data...)
		}
	}
	rec(f.Root)
}

// PowerLoss keeps only what a journaling disk may have kept: a prefix of the
// directory operations and, per file, some state between the last durable one
// and the current one.
func (f *FS) PowerLoss(r *Rng, w *World) {
	keep := f.synced
	if n := len(f.journal); n > f.synced {
		switch r.Intn(3) {
		case 0:
			keep = n
		case 1:
			keep = f.synced + r.Intn(n-f.synced+1)
		}
	}
	// rebuild directories
	var all []*Inode
	seen := map[*Inode]bool{}
	var visit func(n *Inode)
	visit = func(n *Inode) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		all = append(all, n)
		if n.Dir {
			for _, k := range sortedNames(n.base) {
				visit(n.base[k])
			}
			for _, k := range sortedNames(n.Ents) {
				visit(n.Ents[k])
			}
		}
	}
	visit(f.Root)
	for _, j := range f.journal {
		visit(j.dir)
		visit(j.ino)
		visit(j.dir2)
	}
	for _, n := range all {
		if n.Dir {
			n.Ents = map[string]*Inode{}
			for k, v := range n.base {
				n.Ents[k] = v
			}
		}
	}
	for _, j := range f.journal[:keep] {
		switch {
		case j.rename:
			delete(j.dir.Ents, j.name)
			j.dir2.Ents[j.name2] = j.ino
		case j.unlink:
			delete(j.dir.Ents, j.name)
		default:
			j.dir.Ents[j.name] = j.ino
		}
	}
	for _, n := range all {
		if n.Dir || !n.dirty {
			continue
		}
		if n.hasSync && string(n.synced) == string(n.Data) {
			continue
		}
		curd := n.Data
		old := n.baseData
		if n.hasSync {
			old = n.synced
		}
		lo := 0
		// appended-only files keep their durable prefix
		if len(old) <= len(curd) && string(curd[:len(old)]) == string(old) {
			lo = len(old)
		}
		cut := lo
		if len(curd) > lo {
			cut = lo + r.Intn(len(curd)-lo+1)
		}
		switch r.Intn(7) {
		case 0:
			w.Stats["power: file kept whole"]++
		case 1, 2:
			n.Data = append([]byte(nil), curd[:cut]...)
			w.Stats["power: file cut short"]++
		case 3, 4:
			d := make([]byte, len(curd))
			copy(d, curd[:cut])
			n.Data = d
			w.Stats["power: file with zero tail"]++
		case 5:
			n.Data = append([]byte(nil), old...)
			w.Stats["power: old file content"]++
		case 6:
			// blocks written out of order
			d := make([]byte, len(curd))
			copy(d, curd)
			bs := 64 << r.Intn(6)
			for o := lo; o < len(d); o += bs {
				if r.Intn(3) == 0 {
					for k := o; k < min(o+bs, len(d)); k++ {
						d[k] = 0
					}
				}
			}
			n.Data = d
			w.Stats["power: blocks missing"]++
		}
	}
	f.Checkpoint()
}

// ---------------------------------------------------------------- operations

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"ENOMEM": syscall.ENOMEM, "EROFS": syscall.EROFS, "EPERM": syscall.EPERM, "EDQUOT": syscall.EDQUOT,
	"ENFILE": syscall.ENFILE, "EINTR": syscall.EINTR, "ESTALE": syscall.ESTALE, "EAGAIN": syscall.EAGAIN, "ELOOP": syscall.ELOOP,
}

type fsOutcome struct {
	errno syscall.Errno
	part  int64 // with errno: bytes transferred before the error
	kill  *Fault
}

// fsop is called at the start of every file operation of a process.
func (p *Proc) fsop(op, name string, n int, mutates bool) fsOutcome {
	w.osPoint()
	i := p.FsOps
	p.FsOps++
	if p.FsOps > maxFsOps && w.Stuck == "" {
		w.stuck("file operations without end: " + op + " " + name)
		w.dieIfDead()
	}
	p.FsLog = append(p.FsLog, FsRec{i, op, name, n, mutates})
	w.Log("p%d fs#%d %s %s n=%d", p.ID, i, op, name, n)
	var o fsOutcome
	for _, f := range p.Faults {
		switch {
		case f.Kind == "fs" && int64(i) >= f.At && int64(i) <= f.At+int64(f.Rep):
			// Mode narrows repeated faults to one kind of operation
			if f.Mode != "" && !strings.Contains(f.Mode, op) || f.Path != "" && !strings.Contains(name, f.Path) {
				continue
			}
			f.Fired++
			w.Stats["fault fs:"+f.Op+":"+op]++
			w.Log("FAULT %s", f)
			o.errno = errnos[f.Op]
			o.part = f.Arg
		case f.Kind == "kill" && f.Op == "fs" && f.At == int64(i) && f.Fired == 0:
			f.Fired++
			w.Stats["fault kill:"+f.Mode+":"+op]++
			w.Log("FAULT %s", f)
			if f.Arg2 == 0 {
				w.killBy(f, p)
				w.dieIfDead()
			} else {
				o.kill = f
			}
		}
	}
	return o
}

func (p *Proc) afterOp(o fsOutcome) {
	if o.kill != nil {
		w.killBy(o.kill, p)
		w.dieIfDead()
	}
}

func (p *Proc) mut(op, name string) {
	w.FS.Muts = append(w.FS.Muts, MutRec{p.ID, op, name})
}

func (p *Proc) abs(name string) string {
	if !path.IsAbs(name) {
		return path.Join(p.Cwd, name)
	}
	return path.Clean(name)
}

func perr(op, name string, e syscall.Errno) error {
	return &os.PathError{Op: op, Path: name, Err: e}
}

func curProc() *Proc {
	if w == nil || cur == nil {
		return nil
	}
	w.dieIfDead()
	return cur.proc
}

type fileInfo struct {
	name string
	n    *Inode
	size int64
}

func (i fileInfo) Name() string { return i.name }
func (i fileInfo) Size() int64  { return i.size }
func (i fileInfo) Mode() os.FileMode {
	m := i.n.Mode
	if i.n.Dir {
		m |= os.ModeDir
	}
	return m
}
func (i fileInfo) ModTime() time.Time { return time.Unix(0, i.n.Mtime) }
func (i fileInfo) IsDir() bool        { return i.n.Dir }
func (i fileInfo) Sys() any           { return nil }

func infoOf(name string, n *Inode) os.FileInfo {
	return fileInfo{path.Base(name), n, int64(len(n.Data))}
}

func OS_Stat(name string) (os.FileInfo, error)  { return statOp("stat", name) }
func OS_Lstat(name string) (os.FileInfo, error) { return statOp("lstat", name) }

func statOp(op, name string) (os.FileInfo, error) {
	p := mustProc()
	if name == "" {
		return nil, perr(op, name, syscall.ENOENT)
	}
	o := p.fsop("stat", p.abs(name), 0, false)
	if o.errno != 0 {
		return nil, perr(op, name, o.errno)
	}
	n, e := w.FS.Lookup(p.abs(name))
	p.afterOp(o)
	if e != 0 {
		return nil, perr(op, name, e)
	}
	return infoOf(name, n), nil
}

func mustProc() *Proc {
	p := curProc()
	if p == nil {
		panic("zz: system call outside the simulation")
	}
	return p
}

func OS_Mkdir(name string, mode os.FileMode) error {
	p := mustProc()
	return p.mkdir(name, mode)
}

func (p *Proc) mkdir(name string, mode os.FileMode) error {
	a := p.abs(name)
	o := p.fsop("mkdir", a, 0, true)
	if o.errno != 0 {
		return perr("mkdir", name, o.errno)
	}
	d, base, e := w.FS.lookupParent(a)
	if e != 0 {
		return perr("mkdir", name, e)
	}
	if d.Ents[base] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	n := w.FS.newInode(true, mode&^0o022)
	d.Ents[base] = n
	w.FS.journal = append(w.FS.journal, jop{dir: d, name: base, ino: n})
	p.mut("mkdir", a)
	p.afterOp(o)
	return nil
}

func OS_MkdirAll(name string, mode os.FileMode) error {
	p := mustProc()
	return p.mkdirAll(name, mode)
}

func (p *Proc) mkdirAll(name string, mode os.FileMode) error {
	o := p.fsop("stat", p.abs(name), 0, false)
	if o.errno == 0 {
		n, e := w.FS.Lookup(p.abs(name))
		p.afterOp(o)
		if e == 0 {
			if n.Dir {
				return nil
			}
			return perr("mkdir", name, syscall.ENOTDIR)
		}
	}
	parent := path.Dir(path.Clean(name))
	if parent != path.Clean(name) {
		if err := p.mkdirAll(parent, mode); err != nil {
			return err
		}
	}
	err := p.mkdir(name, mode)
	if err != nil {
		if n, e := w.FS.Lookup(p.abs(name)); e == 0 && n.Dir {
			return nil
		}
		return err
	}
	return nil
}

func OS_Remove(name string) error {
	p := mustProc()
	return p.remove(name)
}

func (p *Proc) remove(name string) error {
	a := p.abs(name)
	o := p.fsop("remove", a, 0, true)
	if o.errno != 0 {
		return perr("remove", name, o.errno)
	}
	d, base, e := w.FS.lookupParent(a)
	if e != 0 {
		return perr("remove", name, e)
	}
	n := d.Ents[base]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.Dir && len(n.Ents) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(d.Ents, base)
	w.FS.journal = append(w.FS.journal, jop{unlink: true, dir: d, name: base, ino: n})
	p.mut("remove", a)
	p.afterOp(o)
	return nil
}

// OS_RemoveAll works entry by entry, as the real one does: it can be cut off
// or fail in the middle, and race with other processes.
func OS_RemoveAll(name string) error {
	p := mustProc()
	if name == "" {
		return nil
	}
	return p.removeAll(name)
}

func (p *Proc) removeAll(name string) error {
	err := p.remove(name)
	if err == nil || errnoOf(err) == syscall.ENOENT {
		return nil
	}
	n, e := w.FS.Lookup(p.abs(name))
	if e != 0 {
		if e == syscall.ENOENT {
			return nil
		}
		return perr("RemoveAll", name, e)
	}
	if !n.Dir {
		return err
	}
	for try := 0; ; try++ {
		o := p.fsop("readdir", p.abs(name), 0, false)
		if o.errno != 0 {
			return perr("RemoveAll", name, o.errno)
		}
		names := sortedNames(n.Ents)
		p.afterOp(o)
		var first error
		for _, k := range names {
			if err := p.removeAll(path.Join(name, k)); err != nil && first == nil {
				first = err
			}
		}
		err = p.remove(name)
		if err == nil || errnoOf(err) == syscall.ENOENT {
			return nil
		}
		if first != nil {
			return first
		}
		if try >= 1 || errnoOf(err) != syscall.ENOTEMPTY {
			return err
		}
	}
}

func errnoOf(err error) syscall.Errno {
	if pe, ok := err.(*os.PathError); ok {
		if e, ok := pe.Err.(syscall.Errno); ok {
			return e
		}
	}
	return 0
}

func OS_Rename(from, to string) error {
	p := mustProc()
	a, b := p.abs(from), p.abs(to)
	o := p.fsop("rename", a, 0, true)
	lerr := func(e syscall.Errno) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	if o.errno != 0 {
		return lerr(o.errno)
	}
	d1, n1, e := w.FS.lookupParent(a)
	if e != 0 {
		return lerr(e)
	}
	ino := d1.Ents[n1]
	if ino == nil {
		return lerr(syscall.ENOENT)
	}
	d2, n2, e := w.FS.lookupParent(b)
	if e != 0 {
		return lerr(e)
	}
	if x := d2.Ents[n2]; x != nil && x.Dir != ino.Dir {
		return lerr(syscall.EEXIST)
	} else if x != nil && x.Dir && len(x.Ents) > 0 {
		return lerr(syscall.ENOTEMPTY)
	}
	delete(d1.Ents, n1)
	d2.Ents[n2] = ino
	w.FS.journal = append(w.FS.journal, jop{rename: true, dir: d1, name: n1, ino: ino, dir2: d2, name2: n2})
	p.mut("rename", a)
	p.mut("rename", b)
	p.afterOp(o)
	return nil
}

func OS_Link(from, to string) error {
	p := mustProc()
	o := p.fsop("link", p.abs(to), 0, true)
	lerr := func(e syscall.Errno) error { return &os.LinkError{Op: "link", Old: from, New: to, Err: e} }
	if o.errno != 0 {
		return lerr(o.errno)
	}
	n, e := w.FS.Lookup(p.abs(from))
	if e != 0 {
		return lerr(e)
	}
	d, base, e := w.FS.lookupParent(p.abs(to))
	if e != 0 {
		return lerr(e)
	}
	if d.Ents[base] != nil {
		return lerr(syscall.EEXIST)
	}
	d.Ents[base] = n
	w.FS.journal = append(w.FS.journal, jop{dir: d, name: base, ino: n})
	p.mut("link", p.abs(to))
	p.afterOp(o)
	return nil
}

func OS_Truncate(name string, size int64) error {
	p := mustProc()
	o := p.fsop("truncate", p.abs(name), int(size), true)
	if o.errno != 0 {
		return perr("truncate", name, o.errno)
	}
	n, e := w.FS.Lookup(p.abs(name))
	if e != 0 {
		return perr("truncate", name, e)
	}
	n.resize(size)
	p.mut("truncate", p.abs(name))
	p.afterOp(o)
	return nil
}

func (n *Inode) resize(size int64) {
	n.dirty = true
	if int64(len(n.Data)) >= size {
		n.Data = append([]byte(nil), n.Data[:size]...)
	} else {
		n.Data = append(append([]byte(nil), n.Data...), make([]byte, size-int64(len(n.Data)))...)
	}
	n.Mtime = w.wall()
}

func OS_Chmod(name string, mode os.FileMode) error {
	p := mustProc()
	o := p.fsop("chmod", p.abs(name), 0, true)
	if o.errno != 0 {
		return perr("chmod", name, o.errno)
	}
	n, e := w.FS.Lookup(p.abs(name))
	if e != 0 {
		return perr("chmod", name, e)
	}
	n.Mode = mode
	p.mut("chmod", p.abs(name))
	return nil
}

func OS_Chtimes(name string, a, m time.Time) error {
	p := mustProc()
	o := p.fsop("chtimes", p.abs(name), 0, true)
	if o.errno != 0 {
		return perr("chtimes", name, o.errno)
	}
	n, e := w.FS.Lookup(p.abs(name))
	if e != 0 {
		return perr("chtimes", name, e)
	}
	n.Mtime = m.UnixNano()
	p.mut("chtimes", p.abs(name))
	return nil
}

// ---------------------------------------------------------------- open files

type ofd struct {
	ino    *Inode
	off    int64
	rd, wr bool
	app    bool
	names  []string // directory listing in progress
	listed bool
}

func (d *ofd) unlock(f *OS_File) {
	if d != nil && d.ino != nil {
		delete(d.ino.lock, f)
	}
}

// OS_File stands in for os.File: a simulated file, a pipe end or a standard
// stream.
type OS_File struct {
	name   string
	std    int // 1 stdout, 2 stderr, 3 stdin
	fd     int
	ofd    *ofd
	closed bool
	r      *pipe
	wp     *pipe
	proc   *Proc
}

var (
	OS_Stdin  = &OS_File{name: "/dev/stdin", std: 3}
	OS_Stdout = &OS_File{name: "/dev/stdout", std: 1, fd: 1}
	OS_Stderr = &OS_File{name: "/dev/stderr", std: 2, fd: 2}
)

func OS_Open(name string) (*OS_File, error) { return OS_OpenFile(name, os.O_RDONLY, 0) }

func OS_Create(name string) (*OS_File, error) {
	return OS_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OS_OpenFile(name string, flag int, mode os.FileMode) (*OS_File, error) {
	p := mustProc()
	a := p.abs(name)
	if name == os.DevNull {
		return &OS_File{name: name, std: 4, proc: p}, nil
	}
	op := "open"
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		op = "openw"
	}
	o := p.fsop(op, a, flag, flag&(os.O_CREATE|os.O_TRUNC) != 0)
	if o.errno != 0 {
		return nil, perr("open", name, o.errno)
	}
	n, e := w.FS.Lookup(a)
	if e != 0 && !(e == syscall.ENOENT && flag&os.O_CREATE != 0) {
		return nil, perr("open", name, e)
	}
	if e != 0 {
		d, base, e := w.FS.lookupParent(a)
		if e != 0 {
			return nil, perr("open", name, e)
		}
		n = w.FS.newInode(false, mode&^0o022)
		n.dirty = true
		n.Mtime = w.wall()
		d.Ents[base] = n
		w.FS.journal = append(w.FS.journal, jop{dir: d, name: base, ino: n})
		p.mut("create", a)
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 && !n.Dir {
			n.resize(0)
			p.mut("truncate", a)
		}
		if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			p.mut("openw", a)
		}
	}
	p.nextFd++
	f := &OS_File{name: name, fd: p.nextFd, proc: p, ofd: &ofd{
		ino: n,
		rd:  flag&os.O_WRONLY == 0,
		wr:  flag&(os.O_WRONLY|os.O_RDWR) != 0,
		app: flag&os.O_APPEND != 0,
	}}
	p.fds[f.fd] = f
	p.MaxFiles = max(p.MaxFiles, len(p.fds))
	p.afterOp(o)
	return f, nil
}

func (f *OS_File) Name() string { return f.name }

func (f *OS_File) Fd() uintptr {
	if f.std == 3 {
		return 0
	}
	return uintptr(f.fd)
}

func (f *OS_File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &os.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return nil
}

func (f *OS_File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	if f.r != nil || f.wp != nil {
		if w != nil && cur != nil {
			w.osPoint()
		}
		f.closed = true
		if f.r != nil {
			f.r.closeRead()
		}
		if f.wp != nil {
			f.wp.closeWrite()
		}
		return nil
	}
	p := mustProc()
	o := p.fsop("close", p.abs(f.name), 0, false)
	f.closed = true
	f.ofd.unlock(f)
	delete(p.fds, f.fd)
	p.afterOp(o)
	if o.errno != 0 {
		return perr("close", f.name, o.errno)
	}
	return nil
}

func (f *OS_File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, eof
	}
	if f.r != nil {
		return f.r.read(f, b)
	}
	if f.wp != nil {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	n, err := f.pread(b, f.ofd.off)
	f.ofd.off += int64(n)
	return n, err
}

func (f *OS_File) pread(b []byte, off int64) (int, error) {
	p := mustProc()
	o := p.fsop("read", p.abs(f.name), len(b), false)
	if !f.ofd.rd {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.ofd.ino.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if o.errno != 0 {
		return 0, perr("read", f.name, o.errno)
	}
	if len(b) == 0 {
		return 0, nil
	}
	data := f.ofd.ino.Data
	if off >= int64(len(data)) {
		p.afterOp(o)
		return 0, eof
	}
	n := copy(b, data[off:])
	if v := w.choose(kFrag, n); v > 0 {
		n = v
		w.Stats["short file read"]++
	}
	p.afterOp(o)
	return n, nil
}

func (f *OS_File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	t := 0
	for t < len(b) {
		n, err := f.pread(b[t:], off+int64(t))
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (f *OS_File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	switch f.std {
	case 1, 2:
		if w == nil || cur == nil {
			return os.Stderr.Write(b)
		}
		if cur.proc.dead {
			return len(b), nil
		}
		if f.std == 1 {
			for _, t := range cur.proc.Faults {
				// the standard output takes At bytes, then fails
				if n := t.At - int64(len(cur.proc.Stdout)); t.Kind == "out" && n < int64(len(b)) && t.Fired <= t.Rep {
					n = max(n, 0)
					t.Fired++
					w.Stats["fault stdout:"+t.Op]++
					w.Log("FAULT %s", t)
					cur.proc.Stdout = append(cur.proc.Stdout, b[:n]...)
					return int(n), perr("write", f.name, errnos[t.Op])
				}
			}
			cur.proc.Stdout = append(cur.proc.Stdout, b...)
		} else {
			cur.proc.Stderr = append(cur.proc.Stderr, b...)
		}
		return len(b), nil
	case 3:
		return 0, perr("write", f.name, syscall.EBADF)
	case 4:
		return len(b), nil
	}
	if f.wp != nil {
		return f.wp.write(f, b)
	}
	if f.r != nil {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	p := mustProc()
	o := p.fsop("write", p.abs(f.name), len(b), true)
	if !f.ofd.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	n := f.ofd.ino
	if n.writing {
		w.block("write lock", func() bool { return !n.writing })
	}
	end := len(b)
	errno := o.errno
	if errno != 0 {
		end = int(min(o.part, int64(len(b))))
	} else if w.FS.Limit >= 0 {
		if int64(end) > w.FS.Limit {
			end = int(w.FS.Limit)
			errno = syscall.ENOSPC
			w.Stats["fault disk full:write"]++
		}
		w.FS.Limit -= int64(end)
	}
	if o.kill != nil && o.kill.Arg2 == 1 {
		end = int(o.kill.Arg % int64(len(b)+1))
	}
	w.FS.Muts = append(w.FS.Muts, MutRec{p.ID, "write", p.abs(f.name)})
	// a reader may see the first part before the rest arrives
	if end > 1 && o.kill == nil {
		if v := w.choose(kFrag, end); v > 0 {
			n.writing = true
			f.put(b[:v])
			w.Stats["split file write"]++
			w.pointLocked(n)
			n.writing = false
			f.put(b[v:end])
			if errno != 0 {
				return end, perr("write", f.name, errno)
			}
			return end, nil
		}
	}
	f.put(b[:end])
	p.afterOp(o)
	if errno != 0 {
		return end, perr("write", f.name, errno)
	}
	return end, nil
}

// pointLocked yields while an inode is write-locked; the lock goes away if the
// process dies here.
func (w *World) pointLocked(n *Inode) {
	defer func() {
		if cur.proc.dead {
			n.writing = false
		}
	}()
	w.osPoint()
}

func (f *OS_File) put(b []byte) {
	n := f.ofd.ino
	off := f.ofd.off
	if f.ofd.app {
		off = int64(len(n.Data))
	}
	if need := off + int64(len(b)); int64(len(n.Data)) < need {
		if int64(cap(n.Data)) >= need {
			old := len(n.Data)
			n.Data = n.Data[:need]
			for i := old; i < int(off); i++ {
				n.Data[i] = 0
			}
		} else {
			d := make([]byte, need, need+need/2)
			copy(d, n.Data)
			n.Data = d
		}
	}
	copy(n.Data[off:], b)
	f.ofd.off = off + int64(len(b))
	n.dirty = true
	n.Mtime = w.wall()
}

func (f *OS_File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *OS_File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	save := f.ofd.off
	f.ofd.off = off
	n, err := f.Write(b)
	f.ofd.off = save
	return n, err
}

func (f *OS_File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.ofd == nil {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	switch whence {
	case 1:
		off += f.ofd.off
	case 2:
		off += int64(len(f.ofd.ino.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.ofd.off = off
	f.ofd.listed = false
	return off, nil
}

func (f *OS_File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.ofd == nil {
		return nil
	}
	p := mustProc()
	o := p.fsop("fsync", p.abs(f.name), 0, false)
	if o.errno != 0 {
		return perr("sync", f.name, o.errno)
	}
	n := f.ofd.ino
	if !n.Dir {
		n.synced = append([]byte(nil), n.Data...)
		n.hasSync = true
	}
	w.FS.synced = len(w.FS.journal)
	p.afterOp(o)
	return nil
}

func (f *OS_File) Stat() (os.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.ofd == nil {
		return fileInfo{path.Base(f.name), &Inode{Mode: os.ModeNamedPipe}, 0}, nil
	}
	p := mustProc()
	o := p.fsop("fstat", p.abs(f.name), 0, false)
	if o.errno != 0 {
		return nil, perr("stat", f.name, o.errno)
	}
	p.afterOp(o)
	return infoOf(f.name, f.ofd.ino), nil
}

func (f *OS_File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	p := mustProc()
	o := p.fsop("truncate", p.abs(f.name), int(size), true)
	if o.errno != 0 {
		return perr("truncate", f.name, o.errno)
	}
	f.ofd.ino.resize(size)
	p.mut("truncate", p.abs(f.name))
	p.afterOp(o)
	return nil
}

func (f *OS_File) Chmod(mode os.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	f.ofd.ino.Mode = mode
	return nil
}

func (f *OS_File) SetDeadline(time.Time) error      { return os.ErrNoDeadline }
func (f *OS_File) SetReadDeadline(time.Time) error  { return os.ErrNoDeadline }
func (f *OS_File) SetWriteDeadline(time.Time) error { return os.ErrNoDeadline }

type dirEntry struct {
	fileInfo
	path string
}

func (d dirEntry) Type() fs.FileMode          { return d.Mode().Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return OS_Lstat(d.path) } // it may be gone

func (f *OS_File) Readdirnames(n int) ([]string, error) {
	ents, err := f.ReadDir(n)
	var r []string
	for _, e := range ents {
		r = append(r, e.Name())
	}
	return r, err
}

func (f *OS_File) Readdir(n int) ([]os.FileInfo, error) {
	ents, err := f.ReadDir(n)
	var r []os.FileInfo
	for _, e := range ents {
		i, ierr := e.Info()
		if errors.Is(ierr, fs.ErrNotExist) {
			continue // removed since
		} else if ierr != nil {
			return r, ierr
		}
		r = append(r, i)
	}
	return r, err
}

func (f *OS_File) ReadDir(n int) ([]os.DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if f.ofd == nil || !f.ofd.ino.Dir {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	p := mustProc()
	o := p.fsop("readdir", p.abs(f.name), 0, false)
	if o.errno != 0 {
		return nil, perr("readdirent", f.name, o.errno)
	}
	d := f.ofd
	if !d.listed {
		d.listed = true
		// directory order is arbitrary
		m := map[string]int{}
		for k := range d.ino.Ents {
			m[k] = 0
		}
		d.names = mapOrder(m)
	}
	p.afterOp(o)
	var out []os.DirEntry
	for len(d.names) > 0 && (n <= 0 || len(out) < n) {
		k := d.names[0]
		d.names = d.names[1:]
		if c := d.ino.Ents[k]; c != nil {
			out = append(out, dirEntry{fileInfo{k, c, int64(len(c.Data))}, path.Join(cur.proc.abs(f.name), k)})
		}
	}
	if n > 0 && len(out) == 0 {
		return nil, eof
	}
	return out, nil
}

func OS_ReadDir(name string) ([]os.DirEntry, error) {
	f, err := OS_Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	ents, err := f.ReadDir(-1)
	sort.Slice(ents, func(i, j int) bool { return ents[i].Name() < ents[j].Name() })
	return ents, err
}

func OS_ReadFile(name string) ([]byte, error) {
	f, err := OS_Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return readAll(f)
}

func readAll(f *OS_File) ([]byte, error) {
	var out []byte
	b := make([]byte, 4096)
	for {
		n, err := f.Read(b)
		out = append(out, b[:n]...)
		if err == eof {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func OS_WriteFile(name string, data []byte, mode os.FileMode) error {
	f, err := OS_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func (w *World) tempName(pattern string) string {
	w.seq++
	s := time.Duration(w.seq*7919 + 1000).String()
	s = strings.NewReplacer(".", "", "µs", "", "ns", "", "ms", "").Replace(s)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return pattern[:i] + s + pattern[i+1:]
	}
	return pattern + s
}

func OS_CreateTemp(dir, pattern string) (*OS_File, error) {
	p := mustProc()
	if dir == "" {
		dir = OS_TempDir()
	}
	if strings.Contains(pattern, "/") {
		return nil, &os.PathError{Op: "createtemp", Path: pattern, Err: syscall.EINVAL}
	}
	for i := 0; ; i++ {
		f, err := OS_OpenFile(path.Join(dir, p.tmp(pattern)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if err != nil && errnoOf(err) == syscall.EEXIST && i < 10000 {
			continue
		}
		return f, err
	}
}

func (p *Proc) tmp(pattern string) string { return w.tempName(pattern) }

func OS_MkdirTemp(dir, pattern string) (string, error) {
	p := mustProc()
	if dir == "" {
		dir = OS_TempDir()
	}
	n := path.Join(dir, p.tmp(pattern))
	return n, OS_Mkdir(n, 0o700)
}
