// instr rewrites the non-test Go sources of a module so that every source of
// nondeterminism goes through the simulator package zz.
//
// usage: instr -src /repo -out DIR -sim /verif/sim/zz -flagsrc
//
// It copies nothing but Go sources of packages reachable from the root
// package, go.mod and go.sum. It never writes to -src.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type pkgJSON struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	Standard   bool
	Module     *struct{ Path string }
	Imports    []string
	Error      *struct{ Err string }
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

var (
	modPath   string
	zzPath    string
	flagPath  string
	outDir    string
	overrides = map[string]bool{} // "OS_Open"
	problems  []string
	atomics   bool // the program uses sync/atomic
	knobs     []string
)

// std package -> prefix of overriding identifiers in package zz
var prefixes = map[string]string{
	"os":                    "OS",
	"os/exec":               "Exec",
	"os/user":               "User",
	"os/signal":             "Signal",
	"path/filepath":         "Filepath",
	"time":                  "Time",
	"runtime":               "Runtime",
	"sync":                  "Sync",
	"fmt":                   "Fmt",
	"log":                   "Log",
	"log/slog":              "Slog",
	"context":               "Context",
	"maps":                  "Maps",
	"math/rand":             "Rand",
	"math/rand/v2":          "RandV2",
	"crypto/rand":           "CRand",
	"syscall":               "Syscall",
	"io/ioutil":             "Ioutil",
	"io":                    "IO",
	"golang.org/x/term":     "Term",
	"golang.org/x/sys/unix": "Syscall",
}

// identifiers that may be used as they are, per package; "*" allows all that
// are not overridden.
var allowed = map[string]string{
	"os":                    `^(Err.*|O_.*|PathSeparator|PathListSeparator|DevNull|SEEK_.*|Mode.*|FileMode|FileInfo|DirEntry|PathError|SyscallError|LinkError|Is.*|Expand|NewSyscallError|Interrupt|Kill|Signal|Getpagesize)$`,
	"os/exec":               `^(Err.*|Error)$`,
	"os/user":               `^(User|Group|UnknownUserError|UnknownUserIdError)$`,
	"os/signal":             `^$`,
	"path/filepath":         `*`,
	"io":                    `*`,
	"time":                  `*`,
	"runtime":               `*`,
	"sync":                  `^(Locker)$`,
	"fmt":                   `*`,
	"log":                   `^(L[a-z]+|Logger|New|Lmsgprefix|LstdFlags)$`,
	"log/slog":              `*`,
	"context":               `*`,
	"maps":                  `*`,
	"math/rand":             `^(New.*|Rand|Source|Source64|Zipf)$`,
	"math/rand/v2":          `^(New.*|Rand|Source|PCG|ChaCha8|Zipf)$`,
	"crypto/rand":           `^$`,
	"syscall":               `^(E[A-Z0-9]+|SIG[A-Z0-9]+|Errno|Signal|O_.*|S_.*|LOCK_.*|F_.*|SysProcAttr|WaitStatus|Stat_t)$`,
	"golang.org/x/sys/unix": `^(E[A-Z0-9]+|SIG[A-Z0-9]+|Errno|Signal|O_.*|S_.*|LOCK_.*|F_.*)$`,
	"io/ioutil":             `^(ReadAll|Discard|NopCloser)$`,
	"golang.org/x/term":     `^$`,
}

var forbiddenPkgs = regexp.MustCompile(`^(net|net/.*|plugin|database/.*|os/.*|testing.*|debug/.*)$`)

type edit struct {
	start, end int
	order      int
	gen        func(self *edit) string
}

type fileCtx struct {
	name   string
	src    []byte
	file   *ast.File
	tf     *token.File
	pkg    *types.Package
	info   *types.Info
	edits  []*edit
	tmp    int
	tail   strings.Builder
	used   map[*types.PkgName]int
	isMain bool
}

func (f *fileCtx) off(p token.Pos) int { return f.tf.Offset(p) }

func (f *fileCtx) addSelf(start, end token.Pos, gen func(self *edit) string) {
	f.edits = append(f.edits, &edit{f.off(start), f.off(end), len(f.edits), gen})
}

func (f *fileCtx) add(start, end token.Pos, gen func() string) {
	f.addSelf(start, end, func(*edit) string { return gen() })
}

func (f *fileCtx) insert(at token.Pos, s string) {
	f.add(at, at, func() string { return s })
}

// render returns the rewritten text of [start,end). self, if set, is the edit
// on whose behalf the text is rendered: it and edits of the same range that
// enclose it are not applied again. expr tells that insertions at the very
// start belong to the enclosing statement.
func (f *fileCtx) render(start, end int, self *edit, expr bool) string {
	var b strings.Builder
	pos := start
	for _, e := range f.edits {
		if e.start < pos || e.end > end {
			continue
		}
		if e.start == e.end {
			if e.start == start && expr {
				continue
			}
			if e.start == end && end > start {
				continue
			}
		} else if self != nil && e.start == self.start && e.end == self.end && e.order <= self.order {
			continue
		}
		b.Write(f.src[pos:e.start])
		b.WriteString(e.gen(e))
		pos = e.end
	}
	b.Write(f.src[pos:end])
	return b.String()
}

func (f *fileCtx) node(n ast.Node) string {
	return f.render(f.off(n.Pos()), f.off(n.End()), nil, true)
}

// inner renders a node inside the edit self that replaces exactly this node.
func (f *fileCtx) inner(n ast.Node, self *edit) string {
	return f.render(f.off(n.Pos()), f.off(n.End()), self, true)
}

func (f *fileCtx) name2(prefix string) string {
	f.tmp++
	return fmt.Sprintf("zz%s%d", prefix, f.tmp)
}

func (f *fileCtx) problem(p token.Pos, format string, a ...any) {
	line := f.tf.Line(p)
	problems = append(problems, fmt.Sprintf("%s:%d: %s", f.name, line, fmt.Sprintf(format, a...)))
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint()
		_ = tp
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func hasTypeParam(t types.Type) bool {
	switch t := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Named:
		return t.TypeArgs().Len() > 0
	case *types.Array:
		return hasTypeParam(t.Elem())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasTypeParam(t.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if c, ok := coreType(tp); ok {
			_, m := c.(*types.Map)
			return m
		}
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func coreType(tp *types.TypeParam) (types.Type, bool) {
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || it.NumEmbeddeds() != 1 {
		return nil, false
	}
	e := it.EmbeddedType(0)
	if u, ok := e.(*types.Union); ok && u.Len() == 1 {
		return u.Term(0).Type().Underlying(), true
	}
	return e.Underlying(), true
}

func (f *fileCtx) typeOf(e ast.Expr) types.Type {
	if tv, ok := f.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := f.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (f *fileCtx) isBuiltin(call *ast.CallExpr, name string) bool {
	id, ok := unparen(call.Fun).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = f.info.Uses[id].(*types.Builtin)
	return ok
}

// stmts inserts pre-emption points before each statement of a list.
func (f *fileCtx) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		}
		f.insert(s.Pos(), "zz.Y(); ")
	}
}

func (f *fileCtx) walk() {
	labels := map[ast.Stmt]string{}
	var inits int
	var stack []ast.Node
	ast.Inspect(f.file, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		var parent ast.Node
		if len(stack) > 0 {
			parent = stack[len(stack)-1]
		}
		stack = append(stack, n)
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Recv == nil && n.Name.Name == "init" {
				nn := fmt.Sprintf("zzinit_%s_%d", ident(filepath.Base(f.name)), inits)
				inits++
				f.add(n.Name.Pos(), n.Name.End(), func() string { return nn })
				initFuncs[f.pkg.Path()] = append(initFuncs[f.pkg.Path()], nn)
			}
			if f.isMain && n.Recv == nil && n.Name.Name == "main" {
				f.add(n.Name.Pos(), n.Name.End(), func() string { return "ZZMain" })
			}
		case *ast.BlockStmt:
			switch parent.(type) {
			case *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			default:
				f.stmts(n.List)
				switch p := parent.(type) {
				case *ast.ForStmt, *ast.RangeStmt:
					_ = p
					if len(n.List) == 0 {
						f.insert(n.Lbrace+1, " zz.Y(); ")
					}
				}
			}
		case *ast.CaseClause:
			f.stmts(n.Body)
		case *ast.LabeledStmt:
			labels[n.Stmt] = n.Label.Name
			if _, ok := n.Stmt.(*ast.SelectStmt); ok {
				// the generator of the select puts the label on its switch
				f.add(n.Label.Pos(), n.Colon+1, func() string { return "" })
			}
		case *ast.GoStmt:
			f.goStmt(n)
		case *ast.SendStmt:
			if cc, ok := parent.(*ast.CommClause); ok && cc.Comm == ast.Stmt(n) {
				return true
			}
			f.add(n.Pos(), n.End(), func() string {
				return "zz.ChanOf(" + f.node(n.Chan) + ").Send(" + f.node(n.Value) + ")"
			})
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				if f.isCommRecv(n, stack) {
					return true
				}
				fn := "zz.Recv("
				if f.isCommaOk(n, stack) {
					fn = "zz.Recv2("
				}
				f.add(n.Pos(), n.End(), func() string { return fn + f.node(n.X) + ")" })
			}
		case *ast.CallExpr:
			switch {
			case f.isBuiltin(n, "close"):
				f.add(n.Pos(), n.End(), func() string { return "zz.Close(" + f.node(n.Args[0]) + ")" })
			case f.isBuiltin(n, "make") && isChan(f.typeOf(n)):
				f.addSelf(n.Pos(), n.End(), func(e *edit) string { return "zz.MakeChan(" + f.inner(n, e) + ")" })
			case f.isBuiltin(n, "make") && len(n.Args) > 1 && isSlice(f.typeOf(n)):
				size := int64(8)
				if t, ok := f.typeOf(n).Underlying().(*types.Slice); ok && !hasTypeParam(t.Elem()) {
					size = types.SizesFor("gc", "amd64").Sizeof(t.Elem())
				}
				for _, x := range n.Args[1:] {
					if f.info.Types[x].Value == nil && !isUntyped(f.typeOf(x)) {
						f.addSelf(x.Pos(), x.End(), func(e *edit) string { return fmt.Sprintf("zz.AllocLen(%s, %d)", f.inner(x, e), size) })
					}
				}
			case (f.isBuiltin(n, "delete") || f.isBuiltin(n, "clear")) && isMap(f.typeOf(n.Args[0])):
				f.mapUse(n.Args[0], true)
			case f.isBuiltin(n, "len") && len(n.Args) == 1 && isMap(f.typeOf(n.Args[0])):
				f.mapUse(n.Args[0], false)
			case f.isBuiltin(n, "len") && len(n.Args) == 1 && isChan(f.typeOf(n.Args[0])):
				f.add(n.Pos(), n.End(), func() string { return "zz.ChanLen(" + f.node(n.Args[0]) + ")" })
			}
		case *ast.RangeStmt:
			t := f.typeOf(n.X)
			if isMap(t) {
				f.addSelf(n.X.Pos(), n.X.End(), func(e *edit) string { return "zz.RangeMap(" + f.inner(n.X, e) + ")" })
			} else if isChan(t) {
				f.addSelf(n.X.Pos(), n.X.End(), func(e *edit) string { return "zz.RangeChan(" + f.inner(n.X, e) + ")" })
			}
		case *ast.IndexExpr:
			if isMap(f.typeOf(n.X)) {
				f.mapUse(n.X, isTarget(n, stack))
			}
		case *ast.SelectStmt:
			f.selectStmt(n, labels[n])
		case *ast.Ident:
			// shadow-proof: nothing
		case *ast.SelectorExpr:
			f.selector(n)
		case *ast.IncDecStmt:
			f.rmw(n, n.X, n.Tok, "1")
		case *ast.AssignStmt:
			if len(n.Lhs) == 1 {
				switch n.Tok {
				case token.ADD_ASSIGN, token.SUB_ASSIGN, token.OR_ASSIGN, token.MUL_ASSIGN:
					f.rmwAssign(n)
				case token.ASSIGN:
					if len(n.Rhs) == 1 {
						f.splitAssign(n)
					}
				}
			}
		}
		return true
	})
}

// mapUse tells the simulator that a map is read or written.
func (f *fileCtx) mapUse(x ast.Expr, write bool) {
	fn := "zz.MapR("
	if write {
		fn = "zz.MapW("
	}
	f.addSelf(x.Pos(), x.End(), func(e *edit) string { return fn + f.inner(x, e) + ")" })
}

// isTarget tells whether an element of a map is assigned to.
func isTarget(n ast.Expr, stack []ast.Node) bool {
	var e ast.Node = n
	for i := len(stack) - 2; i >= 0; i-- {
		switch p := stack[i].(type) {
		case *ast.ParenExpr:
			e = p
			continue
		case *ast.AssignStmt:
			for _, l := range p.Lhs {
				if l == e {
					return true
				}
			}
			return false
		case *ast.IncDecStmt:
			return p.X == e
		case *ast.RangeStmt:
			return p.Key == e || p.Value == e
		default:
			return false
		}
	}
	return false
}

// shared tells whether an lvalue may be visible to other goroutines: a package
// variable, something behind a pointer, slice or map, or a variable captured
// from an enclosing function.
func (f *fileCtx) simpleLvalue(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			ok = false
		}
		return ok
	})
	return ok
}

func (f *fileCtx) isLocalIdent(e ast.Expr) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	o, ok := f.info.ObjectOf(id).(*types.Var)
	if !ok {
		return false
	}
	if o.Parent() == f.pkg.Scope() {
		return false
	}
	// declared in the innermost function that encloses the use?
	return f.sameFunc(o.Pos(), id.Pos())
}

func (f *fileCtx) sameFunc(a, b token.Pos) bool {
	inner := func(p token.Pos) ast.Node {
		var best ast.Node
		ast.Inspect(f.file, func(n ast.Node) bool {
			if n == nil {
				return false
			}
			if p < n.Pos() || p >= n.End() {
				return false
			}
			switch n.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				best = n
			}
			return true
		})
		return best
	}
	return inner(a) == inner(b)
}

// read-modify-write on possibly shared state is split so that a pre-emption
// can fall between the read and the write.
func (f *fileCtx) rmw(n *ast.IncDecStmt, x ast.Expr, tok token.Token, one string) {
	if !f.simpleLvalue(x) || f.isLocalIdent(x) || f.inForPost(n) {
		return
	}
	op := "+"
	if tok == token.DEC {
		op = "-"
	}
	f.add(n.Pos(), n.End(), func() string {
		return f.node(x) + " = zz.YV(" + f.node(x) + ") " + op + " " + one
	})
}

func (f *fileCtx) rmwAssign(n *ast.AssignStmt) {
	x := n.Lhs[0]
	if !f.simpleLvalue(x) || f.isLocalIdent(x) || f.inForPost(n) {
		return
	}
	op := strings.TrimSuffix(n.Tok.String(), "=")
	f.add(n.Pos(), n.End(), func() string {
		return f.node(x) + " = zz.YV(" + f.node(x) + ") " + op + " (" + f.node(n.Rhs[0]) + ")"
	})
}

// splitAssign lets a pre-emption fall between the evaluation of the right side
// and the store, if that side reads something.
func (f *fileCtx) splitAssign(n *ast.AssignStmt) {
	x, y := n.Lhs[0], n.Rhs[0]
	if id, ok := unparen(x).(*ast.Ident); ok && id.Name == "_" {
		return
	}
	if !f.simpleLvalue(x) || f.isLocalIdent(x) || f.inForPost(n) {
		return
	}
	tv, ok := f.info.Types[y]
	if !ok || tv.Value != nil || tv.Type == nil || !tv.IsValue() {
		return
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return
	}
	switch y := unparen(y).(type) {
	case *ast.FuncLit, *ast.CompositeLit:
		return
	case *ast.UnaryExpr:
		if y.Op == token.ARROW || y.Op == token.AND {
			return
		}
	case *ast.Ident:
		if f.isLocalIdent(y) {
			return
		}
	}
	if _, ok := tv.Type.(*types.Signature); ok {
		return
	}
	f.addSelf(y.Pos(), y.End(), func(e *edit) string { return "zz.YV(" + f.inner(y, e) + ")" })
}

func (f *fileCtx) inForPost(s ast.Stmt) bool {
	found := false
	ast.Inspect(f.file, func(n ast.Node) bool {
		if fs, ok := n.(*ast.ForStmt); ok && (fs.Post == s || fs.Init == s) {
			found = true
		}
		return !found
	})
	return found
}

func (f *fileCtx) isCommRecv(n *ast.UnaryExpr, stack []ast.Node) bool {
	for i := len(stack) - 2; i >= 0; i-- {
		switch p := stack[i].(type) {
		case *ast.ParenExpr:
			continue
		case *ast.ExprStmt:
			if i > 0 {
				if cc, ok := stack[i-1].(*ast.CommClause); ok && cc.Comm == ast.Stmt(p) {
					return true
				}
			}
			return false
		case *ast.AssignStmt:
			if i > 0 {
				if cc, ok := stack[i-1].(*ast.CommClause); ok && cc.Comm == ast.Stmt(p) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (f *fileCtx) isCommaOk(n *ast.UnaryExpr, stack []ast.Node) bool {
	for i := len(stack) - 2; i >= 0; i-- {
		switch p := stack[i].(type) {
		case *ast.ParenExpr:
			continue
		case *ast.AssignStmt:
			return len(p.Lhs) == 2 && len(p.Rhs) == 1
		case *ast.ValueSpec:
			return len(p.Names) == 2 && len(p.Values) == 1
		default:
			return false
		}
	}
	return false
}

func (f *fileCtx) goStmt(n *ast.GoStmt) {
	call := n.Call
	f.addSelf(n.Pos(), n.End(), func(self *edit) string {
		if lit, ok := unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
			return "zz.Go(" + f.node(lit) + ")"
		}
		if id, ok := unparen(call.Fun).(*ast.Ident); ok {
			if _, b := f.info.Uses[id].(*types.Builtin); b {
				f.problem(n.Pos(), "go statement with builtin")
				return f.inner(n, self)
			}
		}
		var names, vals []string
		fn := f.name2("f")
		names = append(names, fn)
		vals = append(vals, f.node(call.Fun))
		var args []string
		sig, _ := f.typeOf(call.Fun).Underlying().(*types.Signature)
		for i, a := range call.Args {
			tv := f.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				args = append(args, f.node(a))
				continue
			}
			if tup, ok := tv.Type.(*types.Tuple); ok && tup.Len() != 1 {
				f.problem(n.Pos(), "go statement with multi-value argument")
			}
			an := f.name2("a")
			names = append(names, an)
			vals = append(vals, f.node(a))
			if call.Ellipsis.IsValid() && i == len(call.Args)-1 {
				an += "..."
			}
			args = append(args, an)
		}
		_ = sig
		return "{ " + strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; zz.Go(func() { " + fn + "(" + strings.Join(args, ", ") + ") }) }"
	})
}

func (f *fileCtx) selectStmt(n *ast.SelectStmt, label string) {
	f.add(n.Pos(), n.End(), func() string {
		var pre, sw strings.Builder
		sel := f.name2("s")
		hasDefault := false
		for _, c := range n.Body.List {
			if c.(*ast.CommClause).Comm == nil {
				hasDefault = true
			}
		}
		fmt.Fprintf(&pre, "{ %s := zz.NewSelect(%v); ", sel, hasDefault)
		if label != "" {
			fmt.Fprintf(&sw, "%s: ", label)
		}
		fmt.Fprintf(&sw, "switch %s.Do() {", sel)
		idx := 0
		for ci, c := range n.Body.List {
			cc := c.(*ast.CommClause)
			end := n.Body.Rbrace
			if ci+1 < len(n.Body.List) {
				end = n.Body.List[ci+1].Pos()
			}
			var head string
			switch s := cc.Comm.(type) {
			case nil:
				head = "case -1:"
			case *ast.SendStmt:
				fmt.Fprintf(&pre, "zz.ChanOf(%s).SelSend(%s, %s); ", f.node(s.Chan), sel, f.node(s.Value))
				head = fmt.Sprintf("case %d:", idx)
				idx++
			case *ast.ExprStmt:
				u := unparen(s.X).(*ast.UnaryExpr)
				fmt.Fprintf(&pre, "zz.SelRecv(%s, %s); ", sel, f.node(u.X))
				head = fmt.Sprintf("case %d:", idx)
				idx++
			case *ast.AssignStmt:
				u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
				rv := f.name2("r")
				fmt.Fprintf(&pre, "%s := zz.SelRecv(%s, %s); ", rv, sel, f.node(u.X))
				var lhs []string
				for _, l := range s.Lhs {
					lhs = append(lhs, f.node(l))
				}
				get := rv + ".Get()"
				if len(lhs) == 2 {
					get = rv + ".Get2()"
				}
				head = fmt.Sprintf("case %d: %s %s %s;", idx, strings.Join(lhs, ", "), s.Tok, get)
				idx++
			}
			// body text, keeping comments and newlines
			body := f.render(f.off(cc.Colon)+1, f.off(end), nil, false)
			sw.WriteString("\n" + head + body)
		}
		sw.WriteString("\ndefault: panic(\"zz: unreachable select case\") } }")
		// the _ = rv silences unused receives
		return pre.String() + sw.String()
	})
}

func (f *fileCtx) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := f.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	p := pn.Imported().Path()
	prefix, ok := prefixes[p]
	if !ok {
		f.used[pn]++
		return
	}
	name := prefix + "_" + n.Sel.Name
	if overrides[name] {
		f.add(n.Pos(), n.End(), func() string { return "zz." + name })
		return
	}
	a := allowed[p]
	if a == "*" || (a != "" && regexp.MustCompile(a).MatchString(n.Sel.Name)) {
		f.used[pn]++
		return
	}
	f.problem(n.Pos(), "SIM-UNSUPPORTED %s.%s", p, n.Sel.Name)
	f.used[pn]++
}

func ident(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			b.WriteRune(r)
		} else {
			b.WriteRune('_')
		}
	}
	return b.String()
}

var initFuncs = map[string][]string{}

var knobName = regexp.MustCompile(`(?i)(chunk|batch)`)

type srcPkg struct {
	j     *pkgJSON
	files []*fileCtx
	tpkg  *types.Package
	info  *types.Info
}

func main() {
	src := flag.String("src", "/repo", "")
	out := flag.String("out", "", "")
	sim := flag.String("sim", "", "")
	flag.Parse()
	outDir = *out

	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,Standard,Module,Imports,Error", ".")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatalf("go list failed: %v", err)
	}
	var order []*pkgJSON
	byPath := map[string]*pkgJSON{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkgJSON
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatalf("%v", err)
		}
		order = append(order, &p)
		byPath[p.ImportPath] = &p
	}
	root := order[len(order)-1]
	modPath = root.Module.Path
	zzPath = modPath + "/zzsim/zz"
	flagPath = modPath + "/zzsim/flag"

	loadOverrides(*sim)

	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	srcPkgs := map[string]*srcPkg{}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if sp, ok := srcPkgs[path]; ok {
			return sp.tpkg, nil
		}
		return gc.Import(path)
	})

	var list []*srcPkg
	for _, p := range order {
		inMod := p.Module != nil && p.Module.Path == modPath
		if !inMod && p.ImportPath != "flag" {
			continue
		}
		if len(p.CgoFiles) > 0 {
			fatalf("cgo in %s", p.ImportPath)
		}
		if inMod {
			for _, im := range p.Imports {
				if _, ok := prefixes[im]; !ok && forbiddenPkgs.MatchString(im) {
					problems = append(problems, fmt.Sprintf("%s: SIM-UNSUPPORTED import %s", p.ImportPath, im))
				}
			}
		}
		sp := &srcPkg{j: p}
		var files []*ast.File
		for _, g := range p.GoFiles {
			fn := filepath.Join(p.Dir, g)
			data, err := os.ReadFile(fn)
			if err != nil {
				fatalf("%v", err)
			}
			af, err := parser.ParseFile(fset, fn, data, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				fatalf("%v", err)
			}
			files = append(files, af)
			sp.files = append(sp.files, &fileCtx{name: fn, src: data, file: af, tf: fset.File(af.FileStart), used: map[*types.PkgName]int{}, isMain: p == root})
		}
		sp.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp, GoVersion: "", Error: func(err error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, sp.info)
		if err != nil {
			fatalf("type check %s: %v", p.ImportPath, err)
		}
		sp.tpkg = tp
		srcPkgs[p.ImportPath] = sp
		for _, f := range sp.files {
			f.pkg, f.info = tp, sp.info
		}
		list = append(list, sp)
	}

	for _, sp := range list {
		rewritePkg(sp, sp.j == root)
	}

	// the simulator itself
	zdst := filepath.Join(*out, "zzsim", "zz")
	copySim(*sim, zdst)
	// go.mod, go.sum
	for _, n := range []string{"go.mod", "go.sum"} {
		data, err := os.ReadFile(filepath.Join(*src, n))
		if err == nil {
			if err := os.WriteFile(filepath.Join(*out, n), data, 0o644); err != nil {
				fatalf("%v", err)
			}
		}
	}
	// list of instrumented packages in dependency order, for process start
	var boot strings.Builder
	boot.WriteString("package zzboot\n\nimport (\n\tzz " + strconv.Quote(zzPath) + "\n")
	fmt.Fprintf(&boot, "\troot %q\n", modPath)
	boot.WriteString(")\n\nfunc init() { zz.ProgramMain = root.ZZMain; zz.ModulePath = " + strconv.Quote(modPath) + "; zz.NoRaces = " + strconv.FormatBool(atomics) + " }\n")
	os.MkdirAll(filepath.Join(*out, "zzsim", "zzboot"), 0o755)
	if err := os.WriteFile(filepath.Join(*out, "zzsim", "zzboot", "boot.go"), []byte(boot.String()), 0o644); err != nil {
		fatalf("%v", err)
	}
	sort.Strings(knobs)
	os.WriteFile(filepath.Join(*out, "knobs.txt"), []byte(strings.Join(knobs, "\n")), 0o644)
	if len(problems) > 0 {
		for _, p := range problems {
			fmt.Fprintln(os.Stderr, "instr:", p)
		}
		os.Exit(3)
	}
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func loadOverrides(dir string) {
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		fatalf("%v", err)
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		af, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			fatalf("%v", err)
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					overrides[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						overrides[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							overrides[n.Name] = true
						}
					}
				}
			}
		}
	}
}

func copySim(from, to string) {
	os.MkdirAll(to, 0o755)
	ents, err := os.ReadDir(from)
	if err != nil {
		fatalf("%v", err)
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		data, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err != nil {
			fatalf("%v", err)
		}
		s := strings.ReplaceAll(string(data), "ZZMODULE", modPath)
		if err := os.WriteFile(filepath.Join(to, e.Name()), []byte(s), 0o644); err != nil {
			fatalf("%v", err)
		}
	}
}

// knob constants: package-level integer constants named like a chunk or batch
// size, used only where a variable of type int could stand.
func findKnobs(sp *srcPkg) map[types.Object]int64 {
	cand := map[types.Object]int64{}
	for _, f := range sp.files {
		for _, d := range f.file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.CONST || len(gd.Specs) != 1 {
				continue
			}
			vs := gd.Specs[0].(*ast.ValueSpec)
			if len(vs.Names) != 1 || len(vs.Values) != 1 {
				continue
			}
			o, ok := sp.info.Defs[vs.Names[0]].(*types.Const)
			if !ok || !knobName.MatchString(vs.Names[0].Name) {
				continue
			}
			if vs.Type != nil {
				if t := sp.info.TypeOf(vs.Type); t == nil || !types.Identical(t, types.Typ[types.Int]) {
					continue
				}
			}
			v, ok := constant.Int64Val(o.Val())
			if !ok || v < 16 || o.Val().Kind() != constant.Int {
				continue
			}
			switch e := unparen(vs.Values[0]).(type) {
			case *ast.BasicLit, *ast.Ident:
				_ = e
			default:
				continue
			}
			cand[o] = v
		}
	}
	// validate uses
	for changed := true; changed; {
		changed = false
		for _, f := range sp.files {
			var stack []ast.Node
			ast.Inspect(f.file, func(n ast.Node) bool {
				if n == nil {
					stack = stack[:len(stack)-1]
					return true
				}
				stack = append(stack, n)
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := sp.info.Uses[id]
				if _, ok := cand[o]; !ok || o == nil {
					return true
				}
				bad := false
				tv := sp.info.Types[id]
				inKnob := false
				for i := len(stack) - 2; i >= 0; i-- {
					switch p := stack[i].(type) {
					case *ast.ValueSpec:
						if c, ok := sp.info.Defs[p.Names[0]].(*types.Const); ok {
							if _, ok := cand[c]; ok {
								inKnob = true
							} else {
								bad = true
							}
						}
					case *ast.ArrayType:
						bad = true
					}
				}
				if !inKnob && !types.Identical(tv.Type, types.Typ[types.Int]) {
					bad = true
				}
				if bad {
					delete(cand, o)
					changed = true
				}
				return true
			})
		}
		// a knob initialised by an identifier needs that one to be a knob
		for _, f := range sp.files {
			for _, d := range f.file.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.CONST || len(gd.Specs) != 1 {
					continue
				}
				vs := gd.Specs[0].(*ast.ValueSpec)
				if len(vs.Names) != 1 || len(vs.Values) != 1 {
					continue
				}
				o := sp.info.Defs[vs.Names[0]]
				if _, ok := cand[o]; !ok {
					continue
				}
				if id, ok := unparen(vs.Values[0]).(*ast.Ident); ok {
					if _, ok := cand[sp.info.Uses[id]]; !ok {
						delete(cand, o)
						changed = true
					}
				}
			}
		}
	}
	return cand
}

func rewritePkg(sp *srcPkg, isRoot bool) {
	path := sp.j.ImportPath
	dst := path
	pkgName := sp.j.Name
	switch {
	case path == "flag":
		dst = filepath.Join(outDir, "zzsim", "flag")
	case isRoot:
		dst = outDir
		pkgName = "zzroot"
	default:
		dst = filepath.Join(outDir, strings.TrimPrefix(path, modPath+"/"))
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		fatalf("%v", err)
	}
	usesGo := false
	for _, f := range sp.files {
		ast.Inspect(f.file, func(n ast.Node) bool {
			if _, ok := n.(*ast.GoStmt); ok {
				usesGo = true
			}
			return true
		})
	}
	kn := map[types.Object]int64{}
	if path != "flag" && usesGo {
		kn = findKnobs(sp)
	}

	type gvar struct {
		file *fileCtx
		vars []string
		fn   string
	}
	ivFuncs := map[ast.Expr]*gvar{}
	var allVars []string
	var zeroCalls []string

	for _, f := range sp.files {
		f := f
		// package clause
		f.add(f.file.Name.Pos(), f.file.Name.End(), func() string {
			return pkgName + "; import zz " + strconv.Quote(zzPath)
		})
		// globals
		for _, d := range f.file.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			if gd.Tok == token.CONST && len(gd.Specs) == 1 {
				vs := gd.Specs[0].(*ast.ValueSpec)
				if len(vs.Names) == 1 {
					if v, ok := kn[sp.info.Defs[vs.Names[0]]]; ok {
						name := vs.Names[0].Name
						knobs = append(knobs, fmt.Sprintf("%s.%s=%d", path, name, v))
						knob := path + "." + name
						f.add(gd.Pos(), gd.End(), func() string {
							return fmt.Sprintf("var %s int = %d", name, v)
						})
						// dependent knobs follow the same run-time value
						_ = knob
						fmt.Fprintf(&f.tail, "\nfunc zzknob_%s() { %s = zz.Knob(%q, %d) }\n", name, name, knob, v)
						zeroCalls = append(zeroCalls, "zzknob_"+name)
						continue
					}
				}
			}
			if gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for _, n := range vs.Names {
					if n.Name != "_" {
						allVars = append(allVars, n.Name)
					}
				}
				for i, v := range vs.Values {
					v := v
					fn := f.name2("iv_" + ident(strings.TrimSuffix(filepath.Base(f.name), ".go")) + "_")
					var names []string
					if len(vs.Values) == len(vs.Names) {
						names = []string{vs.Names[i].Name}
					} else {
						for _, n := range vs.Names {
							names = append(names, n.Name)
						}
					}
					ivFuncs[v] = &gvar{file: f, vars: names, fn: fn}
				}
			}
		}
		f.walkComm()
		f.walk()
		// imports
		for _, im := range f.file.Imports {
			if im.Path.Value == `"sync/atomic"` {
				atomics = true
			}
			im := im
			p, _ := strconv.Unquote(im.Path.Value)
			if p == "flag" && path != "flag" {
				f.add(im.Path.Pos(), im.Path.End(), func() string { return strconv.Quote(flagPath) })
				continue
			}
			var pn *types.PkgName
			if im.Name != nil {
				pn, _ = sp.info.Defs[im.Name].(*types.PkgName)
			} else {
				pn, _ = sp.info.Implicits[im].(*types.PkgName)
			}
			if pn == nil || (im.Name != nil && (im.Name.Name == "_" || im.Name.Name == ".")) {
				if im.Name != nil && im.Name.Name == "." {
					f.problem(im.Pos(), "dot import")
				}
				continue
			}
			if f.used[pn] == 0 {
				if im.Name != nil {
					f.add(im.Name.Pos(), im.Name.End(), func() string { return "_" })
				} else {
					f.insert(im.Path.Pos(), "_ ")
				}
			}
		}
		sort.SliceStable(f.edits, func(i, j int) bool {
			a, b := f.edits[i], f.edits[j]
			if a.start != b.start {
				return a.start < b.start
			}
			if (a.end == a.start) != (b.end == b.start) {
				return a.end == a.start // insertions first
			}
			if a.end != b.end {
				return a.end > b.end // outer first
			}
			return a.order < b.order
		})
	}
	// initialisers
	var ivCalls []string
	for _, in := range sp.info.InitOrder {
		iv := in.Rhs
		g := ivFuncs[iv]
		if g == nil {
			continue
		}
		fmt.Fprintf(&g.file.tail, "\nfunc %s() { %s = %s }\n", g.fn, strings.Join(g.vars, ", "), g.file.node(iv))
		ivCalls = append(ivCalls, g.fn)
	}
	for _, f := range sp.files {
		text := f.render(0, len(f.src), nil, false) + f.tail.String() + "\nvar _ = zz.Y\n"
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(f.name)), []byte(text), 0o644); err != nil {
			fatalf("%v", err)
		}
	}
	var g strings.Builder
	fmt.Fprintf(&g, "package %s\n\nimport zz %q\n\nfunc init() { zz.RegisterPackage(%q, zzreset, zzglobals()) }\n\n", pkgName, zzPath, path)
	g.WriteString("func zzglobals() []zz.Global { return []zz.Global{\n")
	sort.Strings(allVars)
	for _, v := range allVars {
		fmt.Fprintf(&g, "\tzz.GlobalOf(%q, &%s),\n", v, v)
	}
	g.WriteString("} }\n\nfunc zzreset() {\n")
	for _, v := range allVars {
		fmt.Fprintf(&g, "\tzz.Zero(&%s)\n", v)
	}
	for _, c := range zeroCalls {
		fmt.Fprintf(&g, "\t%s()\n", c)
	}
	for _, c := range ivCalls {
		fmt.Fprintf(&g, "\t%s()\n", c)
	}
	for _, c := range initFuncs[path] {
		fmt.Fprintf(&g, "\t%s()\n", c)
	}
	g.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dst, "zz_globals.go"), []byte(g.String()), 0o644); err != nil {
		fatalf("%v", err)
	}
}

// walkComm inserts pre-emption points in comm clause bodies.
func (f *fileCtx) walkComm() {
	ast.Inspect(f.file, func(n ast.Node) bool {
		if cc, ok := n.(*ast.CommClause); ok {
			f.stmts(cc.Body)
		}
		return true
	})
}
