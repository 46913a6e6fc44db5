package zz

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/user"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
)

var eof = io.EOF

func OS_Exit(code int) {
	p := curProc()
	if p == nil {
		os.Exit(code)
	}
	w.Log("p%d exit %d", p.ID, code)
	p.terminate(code)
	w.dieIfDead()
}

func OS_Getenv(k string) string {
	p := curProc()
	if p == nil {
		return ""
	}
	return p.Env[k]
}

func OS_LookupEnv(k string) (string, bool) {
	p := mustProc()
	v, ok := p.Env[k]
	return v, ok
}

func OS_Environ() []string {
	p := mustProc()
	var r []string
	for k, v := range p.Env {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return r
}

func OS_Setenv(k, v string) error  { mustProc().Env[k] = v; return nil }
func OS_Unsetenv(k string) error   { delete(mustProc().Env, k); return nil }
func OS_Clearenv()                 { clear(mustProc().Env) }
func OS_ExpandEnv(s string) string { return os.Expand(s, OS_Getenv) }

func OS_Getwd() (string, error) {
	p := mustProc()
	o := p.fsop("getwd", p.Cwd, 0, false)
	if o.errno != 0 {
		return "", os.NewSyscallError("getwd", o.errno)
	}
	p.afterOp(o)
	return p.Cwd, nil
}

func OS_Chdir(d string) error {
	p := mustProc()
	n, e := w.FS.Lookup(p.abs(d))
	if e != 0 {
		return perr("chdir", d, e)
	}
	if !n.Dir {
		return perr("chdir", d, syscall.ENOTDIR)
	}
	p.Cwd = p.abs(d)
	return nil
}

func OS_TempDir() string {
	if d := mustProc().Env["TMPDIR"]; d != "" {
		return d
	}
	return "/tmp"
}

func OS_UserHomeDir() (string, error) {
	if h := mustProc().Env["HOME"]; h != "" {
		return h, nil
	}
	return "", fmt.Errorf("$HOME is not defined")
}

func OS_UserCacheDir() (string, error) {
	p := mustProc()
	if d := p.Env["XDG_CACHE_HOME"]; d != "" {
		if !path.IsAbs(d) {
			return "", fmt.Errorf("path in $XDG_CACHE_HOME is relative")
		}
		return d, nil
	}
	h, err := OS_UserHomeDir()
	if err != nil {
		return "", fmt.Errorf("neither $XDG_CACHE_HOME nor $HOME are defined")
	}
	return h + "/.cache", nil
}

func OS_UserConfigDir() (string, error) {
	h, err := OS_UserHomeDir()
	return h + "/.config", err
}

func OS_Getpid() int                 { return 1000 + w.PidBase + mustProc().ID }
func OS_Getppid() int                { return 1 }
func OS_Getuid() int                 { return 1000 }
func OS_Geteuid() int                { return 1000 }
func OS_Getgid() int                 { return 1000 }
func OS_Getegid() int                { return 1000 }
func OS_Hostname() (string, error)   { return "simhost", nil }
func OS_Executable() (string, error) { return "/usr/bin/git-who", nil }
func OS_SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(fileInfo)
	y, ok2 := b.(fileInfo)
	return ok1 && ok2 && x.n == y.n
}

func OS_Pipe() (*OS_File, *OS_File, error) {
	p := mustProc()
	pp := w.newPipe()
	return &OS_File{name: "|0", r: pp, proc: p}, &OS_File{name: "|1", wp: pp, proc: p}, nil
}

func OS_NewFile(fd uintptr, name string) *OS_File {
	switch fd {
	case 0:
		return OS_Stdin
	case 1:
		return OS_Stdout
	case 2:
		return OS_Stderr
	}
	return nil
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	f, err := OS_Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}

func OS_DirFS(d string) fs.FS { return dirFS(d) }

// ---------------------------------------------------------------- os/user

func User_Current() (*user.User, error) {
	p := mustProc()
	for _, f := range p.Faults {
		if f.Kind == "user" && f.Fired == 0 {
			f.Fired++
			w.fault(f, p)
			return nil, user.UnknownUserIdError(1000)
		}
	}
	return &user.User{Uid: "1000", Gid: "1000", Username: "u", Name: "U", HomeDir: p.Home}, nil
}

// ---------------------------------------------------------------- filepath

func Filepath_Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	d, err := OS_Getwd()
	if err != nil {
		return "", err
	}
	return path.Join(d, p), nil
}

func Filepath_EvalSymlinks(p string) (string, error) {
	if _, err := OS_Lstat(p); err != nil {
		return "", err
	}
	return path.Clean(p), nil
}

func Filepath_Glob(pattern string) (matches []string, err error) { return globDepth(pattern, 0) }

func globDepth(pattern string, depth int) (matches []string, err error) {
	if depth == 10000 {
		return nil, filepath.ErrBadPattern
	}
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err = OS_Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	switch dir {
	case "":
		dir = "."
	case "/":
	default:
		dir = dir[:len(dir)-1]
	}
	if !strings.ContainsAny(dir, `*?[\`) {
		return glob1(dir, file, nil)
	}
	if dir == pattern {
		return nil, filepath.ErrBadPattern
	}
	var m []string
	m, err = globDepth(dir, depth+1)
	if err != nil {
		return
	}
	for _, d := range m {
		matches, err = glob1(d, file, matches)
		if err != nil {
			return
		}
	}
	return
}

func glob1(dir, pattern string, matches []string) (m []string, e error) {
	m = matches
	fi, err := OS_Stat(dir)
	if err != nil {
		return
	}
	if !fi.IsDir() {
		return
	}
	ents, err := OS_ReadDir(dir)
	if err != nil {
		return
	}
	for _, d := range ents {
		n := d.Name()
		matched, err := filepath.Match(pattern, n)
		if err != nil {
			return m, err
		}
		if matched {
			m = append(m, filepath.Join(dir, n))
		}
	}
	return
}

func Filepath_WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := OS_Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := OS_ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(filepath.Join(p, d1.Name()), d1, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Filepath_Walk(root string, fn filepath.WalkFunc) error {
	return Filepath_WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var info fs.FileInfo
		if d != nil {
			var ierr error
			if info, ierr = d.Info(); ierr != nil && err == nil {
				err = ierr
			}
		}
		return fn(p, info, err)
	})
}

// ---------------------------------------------------------------- runtime

func Runtime_GOMAXPROCS(n int) int {
	p := curProc()
	if p == nil {
		return 1
	}
	old := p.NCPU
	if n > 0 {
		p.NCPU = n
	}
	return old
}

func Runtime_NumCPU() int {
	p := curProc()
	if p == nil {
		return 1
	}
	return p.NCPU
}

func Runtime_Gosched() {
	if w != nil && cur != nil {
		w.osPoint()
	}
}

func Runtime_NumGoroutine() int {
	n := 0
	for _, t := range w.tasks {
		if t.proc == cur.proc {
			n++
		}
	}
	return n
}

func Runtime_Goexit() { runtime.Goexit() }
func Runtime_GC()     {}

// ---------------------------------------------------------------- x/term

func Term_IsTerminal(fd int) bool {
	p := mustProc()
	return p.TTY && fd >= 0 && fd <= 2
}

func Term_GetSize(fd int) (int, int, error) {
	if Term_IsTerminal(fd) {
		return 80, 24, nil
	}
	return 0, 0, syscall.ENOTTY
}

// ---------------------------------------------------------------- fmt

func Fmt_Print(a ...any) (int, error)            { return fmt.Fprint(OS_Stdout, a...) }
func Fmt_Printf(f string, a ...any) (int, error) { return fmt.Fprintf(OS_Stdout, f, a...) }
func Fmt_Println(a ...any) (int, error)          { return fmt.Fprintln(OS_Stdout, a...) }
func Fmt_Scan(a ...any) (int, error)             { return 0, io.EOF }
func Fmt_Scanln(a ...any) (int, error)           { return 0, io.EOF }
func Fmt_Scanf(f string, a ...any) (int, error)  { return 0, io.EOF }

// ---------------------------------------------------------------- log

func Log_Print(a ...any)            { fmt.Fprintln(OS_Stderr, fmt.Sprint(a...)) }
func Log_Printf(f string, a ...any) { fmt.Fprintln(OS_Stderr, fmt.Sprintf(f, a...)) }
func Log_Println(a ...any)          { fmt.Fprint(OS_Stderr, fmt.Sprintln(a...)) }
func Log_Fatal(a ...any)            { Log_Print(a...); OS_Exit(1) }
func Log_Fatalf(f string, a ...any) { Log_Printf(f, a...); OS_Exit(1) }
func Log_Fatalln(a ...any)          { Log_Println(a...); OS_Exit(1) }
func Log_Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Log_Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func Log_SetFlags(int)              {}
func Log_SetPrefix(string)          {}
func Log_SetOutput(io.Writer)       {}

// ---------------------------------------------------------------- io/ioutil

func Ioutil_ReadFile(n string) ([]byte, error)                 { return OS_ReadFile(n) }
func Ioutil_WriteFile(n string, d []byte, m os.FileMode) error { return OS_WriteFile(n, d, m) }
func Ioutil_TempFile(d, p string) (*OS_File, error)            { return OS_CreateTemp(d, p) }
func Ioutil_TempDir(d, p string) (string, error)               { return OS_MkdirTemp(d, p) }

// ---------------------------------------------------------------- syscall

func Syscall_Flock(fd int, how int) error {
	p := mustProc()
	f := p.fds[fd]
	if f == nil || f.ofd == nil {
		return syscall.EBADF
	}
	o := p.fsop("flock", p.abs(f.name), how, false)
	if o.errno != 0 {
		return o.errno
	}
	n := f.ofd.ino
	if n.lock == nil {
		n.lock = map[*OS_File]int{}
	}
	op := how &^ syscall.LOCK_NB
	if op == syscall.LOCK_UN {
		delete(n.lock, f)
		return nil
	}
	free := func() bool {
		for g, m := range n.lock {
			if g == f {
				continue
			}
			if op == syscall.LOCK_EX || m == syscall.LOCK_EX {
				return false
			}
		}
		return true
	}
	if !free() {
		if how&syscall.LOCK_NB != 0 {
			return syscall.EWOULDBLOCK
		}
		w.block("flock", free)
	}
	n.lock[f] = op
	p.afterOp(o)
	return nil
}

func Syscall_Getpid() int                            { return OS_Getpid() }
func Syscall_Getuid() int                            { return 1000 }
func Syscall_Kill(pid int, sig syscall.Signal) error { return syscall.ESRCH }
