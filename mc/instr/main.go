// Command instr rewrites the Go sources of the module under test so that every
// source of nondeterminism goes through the controlled runtime (vmc/vsched and
// friends).  It works on types, not on names: it type-checks each package and
// replaces resolved references, go statements, channel operations, selects and
// ranges over maps and channels.
//
// usage: instr -dir WORKCOPY -modfile FILE
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Name       string
	Module     *struct{ Main bool }
	ImportMap  map[string]string
}

var (
	dirFlag = flag.String("dir", "", "module copy to rewrite in place")
	modFlag = flag.String("modfile", "", "go.mod to use for go list")
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Name,Module,ImportMap"}
	if *modFlag != "" {
		args = append(args, "-modfile="+*modFlag)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = *dirFlag
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	exports := map[string]string{}
	var pkgs []*listPkg
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("decode: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			pkgs = append(pkgs, p)
		}
	}
	for _, p := range pkgs {
		if p.Name == "main" {
			continue
		}
		if err := rewritePackage(p, exports); err != nil {
			fatal("%s: %v", p.ImportPath, err)
		}
	}
	for _, name := range programs {
		dir := filepath.Join(*dirFlag, "cmd", name)
		err := fmt.Errorf("no such program")
		for _, p := range pkgs {
			if p.Name == "main" && filepath.Base(p.Dir) == name && filepath.Base(filepath.Dir(p.Dir)) == "cmd" {
				dir, err = p.Dir, rewritePackage(p, exports)
			}
		}
		// A program that cannot be rewritten is left out (its scenarios say so);
		// that must not keep the other packages from being checked.
		if err != nil {
			fmt.Fprintf(os.Stderr, "instr: cmd/%s is not covered: %v\n", name, err)
			os.RemoveAll(dir)
			os.MkdirAll(dir, 0755)
			err = os.WriteFile(filepath.Join(dir, "zz_vmc.go"), []byte("package prog\n\n// Covered is false: not rewritten.\nconst Covered = false\n\n// Main is missing.\nfunc Main() {}\n"), 0644)
		} else {
			err = os.WriteFile(filepath.Join(dir, "zz_vmc.go"), []byte("package prog\n\n// Covered is true: Main is the program.\nconst Covered = true\n"), 0644)
		}
		if err != nil {
			fatal("%v", err)
		}
	}
}

// programs are the main packages below cmd/; they become importable packages
// "prog" whose function main is Main.
var programs = []string{"go-apt-mirror", "go-apt-cacher"}

// substitution tables: package path -> name -> replacement "alias.Name".
var shimPath = map[string]string{
	"vsched_": "vmc/vsched",
	"vsync_":  "vmc/vsync",
	"vos_":    "vmc/vos",
	"vhttp_":  "vmc/vhttp",
	"vwell_":  "vmc/vwell",
	"vprog_":  "vmc/vprog",
}

func names(alias, prefix, list string) map[string]string {
	m := map[string]string{}
	for _, n := range strings.Fields(list) {
		m[n] = alias + "." + prefix + n
	}
	return m
}

var subst = map[string]map[string]string{
	"sync": names("vsync_", "", "Mutex RWMutex WaitGroup Once Cond NewCond"),
	"os": names("vos_", "", `File Open OpenFile Create CreateTemp ReadFile WriteFile Stat Lstat Mkdir MkdirAll MkdirTemp
		Remove RemoveAll Rename Link Symlink Readlink Chmod Chtimes Truncate ReadDir SameFile Exit TempDir Args`),
	"io/ioutil":     merge(names("vos_", "", "TempFile ReadFile WriteFile"), map[string]string{"ReadDir": "vos_.IoutilReadDir", "TempDir": "vos_.MkdirTemp"}),
	"path/filepath": names("vos_", "", "Walk WalkDir EvalSymlinks Glob Abs"),
	"syscall":       names("vos_", "Sys", "Flock Fsync Fdatasync Unlink Rename Link Symlink Mkdir Rmdir Sync Close Ftruncate"),
	"net/http":      names("vhttp_", "", "Transport DefaultTransport ListenAndServe"),
	"time":          names("vsched_", "", "Sleep AfterFunc"),
	"runtime":       names("vsched_", "", "Gosched"),
	"github.com/cybozu-go/well": names("vwell_", "", "Go GoWithID Stop Cancel Wait NewEnvironment Environment HTTPServer IsSignaled"),
	"flag": names("vprog_", "", `String Bool Int Int64 Uint Uint64 Float64 Duration Func Var StringVar BoolVar IntVar Int64Var UintVar Uint64Var
		Float64Var DurationVar Parse Parsed Args Arg NArg NFlag Visit VisitAll Lookup Set PrintDefaults Usage`),
	"github.com/cybozu-go/log":   names("vprog_", "", "ErrorExit"),
	"github.com/BurntSushi/toml": names("vprog_", "", "DecodeFile"),
}

func merge(a, b map[string]string) map[string]string {
	for k, v := range b {
		a[k] = v
	}
	return a
}

// functions of the substituted packages that touch the outside world and have
// no shim: using one is an error, so that nothing escapes control silently.
var forbidden = map[string]string{
	"os":            "Chdir Chown Lchown NewFile CopyFS Chroot Pipe StartProcess DirFS OpenRoot OpenInRoot FindProcess",
	"path/filepath": "",
	"flag":          "CommandLine NewFlagSet",
	"net":           "Dial Listen DialTimeout ListenPacket",
	"os/exec":       "Command CommandContext",
	"syscall":       "Open Kill Mount Chmod Unlinkat Exec Fork ForkExec",
}

type edit struct {
	start, end int
	text       func() string
}

type rewriter struct {
	fset  *token.FileSet
	file  *ast.File
	tf    *token.File
	src   []byte
	info  *types.Info
	pkg   *types.Package
	edits []edit
	used  map[string]bool
	n     int
	errs  []string
	skip  map[ast.Node]bool
	done  map[ast.Expr]bool
}

func rewritePackage(p *listPkg, exports map[string]string) error {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, name := range p.GoFiles {
		fn := filepath.Join(p.Dir, name)
		b, err := os.ReadFile(fn)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, fn, b, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, f)
		srcs = append(srcs, b)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup)}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return err
	}
	for i, f := range files {
		f := f
		r := &rewriter{fset: fset, file: f, tf: fset.File(f.Pos()), src: srcs[i], info: info, pkg: tp,
			used: map[string]bool{}, skip: map[ast.Node]bool{}, done: map[ast.Expr]bool{}}
		r.run()
		if tp.Name() == "main" {
			r.add(f.Name, func() string { return "prog" })
			for _, d := range f.Decls {
				if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Name.Name == "main" {
					r.add(d.Name, func() string { return "Main" })
				}
			}
		}
		if len(r.errs) > 0 {
			return fmt.Errorf("%s", strings.Join(r.errs, "; "))
		}
		out := r.render(0, len(r.src))
		if err := os.WriteFile(fset.Position(f.Pos()).Filename, []byte(out), 0644); err != nil {
			return err
		}
	}
	return nil
}

func (r *rewriter) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *rewriter) errorf(n ast.Node, f string, a ...interface{}) {
	r.errs = append(r.errs, r.fset.Position(n.Pos()).String()+": "+fmt.Sprintf(f, a...))
}

// render returns the text of [start,end) with all edits strictly inside applied.
// An edit equal to the range itself is applied too unless it is being rendered
// (callers render sub-ranges only).
func (r *rewriter) render(start, end int) string {
	var in []edit
	for _, e := range r.edits {
		if e.start >= start && e.end <= end {
			in = append(in, e)
		}
	}
	sort.SliceStable(in, func(i, j int) bool {
		if in[i].start != in[j].start {
			return in[i].start < in[j].start
		}
		// insertions (empty ranges) first, then the widest
		ei, ej := in[i].end == in[i].start, in[j].end == in[j].start
		if ei != ej {
			return ei
		}
		return in[i].end > in[j].end
	})
	var b strings.Builder
	pos := start
	for _, e := range in {
		if e.start < pos {
			continue // nested in an edit already applied
		}
		b.Write(r.src[pos:e.start])
		b.WriteString(e.text())
		pos = e.end
	}
	b.Write(r.src[pos:end])
	return b.String()
}

func (r *rewriter) node(n ast.Node) string {
	return r.render(r.off(n.Pos()), r.off(n.End()))
}

func (r *rewriter) add(n ast.Node, text func() string) {
	s, e := r.off(n.Pos()), r.off(n.End())
	r.edits = append(r.edits, edit{s, e, nil})
	idx := len(r.edits) - 1
	r.edits[idx].text = func() string {
		// hide this edit while rendering children (the range may coincide)
		save := r.edits[idx]
		r.edits[idx].start, r.edits[idx].end = -1, -1
		t := text()
		r.edits[idx] = save
		return t
	}
}

func (r *rewriter) addRange(s, e int, text func() string) {
	r.edits = append(r.edits, edit{s, e, text})
}

func (r *rewriter) shim(alias string) string {
	r.used[alias] = true
	return alias
}

func (r *rewriter) tmp(p string) string {
	r.n++
	return fmt.Sprintf("%s_%d_", p, r.n)
}

func (r *rewriter) pkgOf(x ast.Expr) string {
	id, ok := x.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	return pn.Imported().Path()
}

func (r *rewriter) run() {
	r.scaleConstants()
	var labels = map[ast.Stmt]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.LabeledStmt:
			labels[n.Stmt] = true
		case *ast.SelectorExpr:
			r.selector(n)
		case *ast.GoStmt:
			r.goStmt(n)
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !r.skip[n] {
				n := n
				r.add(n, func() string { return r.shim("vsched_") + ".Recv(" + r.node(n.X) + ")" })
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				r.recv2(n.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				r.recv2(n.Values[0])
			}
		case *ast.SendStmt:
			if !r.skip[n] {
				n := n
				r.add(n, func() string {
					return r.shim("vsched_") + ".SendTo(" + r.node(n.Chan) + ")(" + r.node(n.Value) + ")"
				})
			}
		case *ast.CallExpr:
			r.call(n)
		case *ast.ExprStmt:
			r.exprStmt(n)
		case *ast.SelectStmt:
			r.selectStmt(n)
		case *ast.RangeStmt:
			r.rangeStmt(n)
		}
		return true
	})
	r.fixImports()
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) recv2(e ast.Expr) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if !ok || u.Op != token.ARROW || r.skip[u] {
		return
	}
	r.skip[u] = true
	r.add(u, func() string { return r.shim("vsched_") + ".Recv2(" + r.node(u.X) + ")" })
}

func (r *rewriter) selector(n *ast.SelectorExpr) {
	pp := r.pkgOf(n.X)
	if pp == "" {
		return
	}
	if m, ok := subst[pp]; ok {
		if to, ok := m[n.Sel.Name]; ok {
			alias := to[:strings.Index(to, ".")]
			r.add(n, func() string { r.shim(alias); return to })
			return
		}
	}
	for _, f := range strings.Fields(forbidden[pp]) {
		if f == n.Sel.Name {
			r.errorf(n, "use of %s.%s cannot be controlled", pp, f)
		}
	}
}

// isConstOrNil reports whether e can be evaluated later without changing meaning.
func (r *rewriter) isConstOrNil(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	call := n.Call
	r.add(n, func() string {
		sch := r.shim("vsched_")
		fun := unparen(call.Fun)
		if fl, ok := fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
			// func literal without results or arguments: run it directly
			if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
				return sch + ".Go(" + r.node(fl) + ")"
			}
		}
		isBuiltin := false
		if tv, ok := r.info.Types[fun]; ok && tv.IsBuiltin() {
			isBuiltin = true
		}
		var lhs, rhs, as []string
		fn := r.node(call.Fun)
		if !isBuiltin {
			f := r.tmp("f")
			lhs, rhs = append(lhs, f), append(rhs, fn)
			fn = f
		}
		sig, _ := r.info.Types[fun].Type.(*types.Signature)
		for i, a := range call.Args {
			if r.isConstOrNil(a) {
				as = append(as, r.node(a))
				continue
			}
			v := r.tmp("a")
			lhs, rhs = append(lhs, v), append(rhs, r.node(a))
			if call.Ellipsis.IsValid() && i == len(call.Args)-1 {
				v += "..."
			}
			as = append(as, v)
		}
		_ = sig
		body := fn + "(" + strings.Join(as, ", ") + ")"
		if len(lhs) == 0 {
			return sch + ".Go(func() { " + body + " })"
		}
		return sch + ".Go(func() func() { " + strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") +
			"; return func() { " + body + " } }())"
	})
}

func (r *rewriter) call(n *ast.CallExpr) {
	if id, ok := unparen(n.Fun).(*ast.Ident); ok && id.Name == "close" {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			r.add(n, func() string { return r.shim("vsched_") + ".Close(" + r.node(n.Args[0]) + ")" })
			return
		}
	}
	if r.isAtomic(n) && !r.skip[n] {
		tv := r.info.Types[n]
		if tv.IsVoid() {
			return
		}
		r.add(n, func() string {
			// n itself is hidden while its own text is rendered
			return r.shim("vsched_") + ".V(" + r.node(n) + ")"
		})
	}
}

func (r *rewriter) isAtomic(n *ast.CallExpr) bool {
	sel, ok := unparen(n.Fun).(*ast.SelectorExpr)
	if !ok {
		return false
	}
	o := r.info.Uses[sel.Sel]
	f, ok := o.(*types.Func)
	return ok && f.Pkg() != nil && f.Pkg().Path() == "sync/atomic"
}

func (r *rewriter) exprStmt(n *ast.ExprStmt) {
	c, ok := unparen(n.X).(*ast.CallExpr)
	if !ok || !r.isAtomic(c) {
		return
	}
	r.skip[c] = true
	r.addRange(r.off(n.Pos()), r.off(n.Pos()), func() string { return r.shim("vsched_") + ".P(); " })
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) {
	type cs struct {
		clause *ast.CommClause
		name   string
		mk     func() string
		bind   func() string
	}
	var list []*cs
	hasDefault := false
	for _, st := range n.Body.List {
		cc := st.(*ast.CommClause)
		c := &cs{clause: cc}
		switch s := cc.Comm.(type) {
		case nil:
			hasDefault = true
		case *ast.SendStmt:
			r.skip[s] = true
			c.name = r.tmp("c")
			c.mk = func() string {
				return r.shim("vsched_") + ".CS(" + r.node(s.Chan) + ")(" + r.node(s.Value) + ")"
			}
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			r.skip[u] = true
			c.name = r.tmp("c")
			c.mk = func() string { return r.shim("vsched_") + ".CR(" + r.node(u.X) + ")" }
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			r.skip[u] = true
			c.name = r.tmp("c")
			c.mk = func() string { return r.shim("vsched_") + ".CR(" + r.node(u.X) + ")" }
			c.bind = func() string {
				var l []string
				for _, e := range s.Lhs {
					l = append(l, r.node(e))
				}
				rhs := c.name + ".Val"
				if len(l) == 2 {
					rhs += ", " + c.name + ".OK"
				}
				return strings.Join(l, ", ") + " " + s.Tok.String() + " " + rhs + "; "
			}
		}
		list = append(list, c)
	}
	// header: from "select" to "{"
	r.addRange(r.off(n.Select), r.off(n.Body.Lbrace)+1, func() string {
		var ns, mks []string
		for _, c := range list {
			if c.name != "" {
				ns = append(ns, c.name)
				mks = append(mks, c.mk())
			}
		}
		sch := r.shim("vsched_")
		h := "switch "
		if len(ns) > 0 {
			h += strings.Join(ns, ", ") + " := " + strings.Join(mks, ", ") + "; "
		}
		args := append([]string{strconv.FormatBool(hasDefault)}, ns...)
		return h + sch + ".Select(" + strings.Join(args, ", ") + ") {"
	})
	i := 0
	for _, c := range list {
		c := c
		idx := -1
		if c.name != "" {
			idx = i
			i++
		}
		r.addRange(r.off(c.clause.Case), r.off(c.clause.Colon)+1, func() string {
			s := "case " + strconv.Itoa(idx) + ": "
			if c.bind != nil {
				s += c.bind()
			}
			return s
		})
	}
	// like the select, the switch is a terminating statement if its clauses are
	r.addRange(r.off(n.Body.Rbrace), r.off(n.Body.Rbrace), func() string { return "; default: panic(\"select\"); " })
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) {
	tv, ok := r.info.Types[n.X]
	if !ok {
		return
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	switch u := tv.Type.Underlying().(type) {
	case *types.Map:
		r.addRange(r.off(n.For), r.off(n.Body.Lbrace)+1, func() string {
			sch := r.shim("vsched_")
			it := r.tmp("it")
			k, v := "_", "_"
			if !blank(n.Key) {
				k = r.node(n.Key)
			}
			if !blank(n.Value) {
				v = r.node(n.Value)
			}
			ka, va := "nil", "nil"
			if k != "_" {
				ka = "&" + k
			}
			if v != "_" {
				va = "&" + v
			}
			if n.Tok == token.DEFINE {
				return "for " + it + ", " + k + ", " + v + " := " + sch + ".RangeMap(" + r.node(n.X) + "); " + it + ".Next(" + ka + ", " + va + "); {"
			}
			return "for " + it + ", _, _ := " + sch + ".RangeMap(" + r.node(n.X) + "); " + it + ".Next(" + ka + ", " + va + "); {"
		})
	case *types.Chan:
		r.addRange(r.off(n.For), r.off(n.Body.Lbrace)+1, func() string {
			sch := r.shim("vsched_")
			it := r.tmp("it")
			if blank(n.Key) {
				return "for " + it + ", _ := " + sch + ".RangeChan(" + r.node(n.X) + "); " + it + ".Next(nil); {"
			}
			k := r.node(n.Key)
			if n.Tok == token.DEFINE {
				return "for " + it + ", " + k + " := " + sch + ".RangeChan(" + r.node(n.X) + "); " + it + ".Next(&" + k + "); {"
			}
			return "for " + it + ", _ := " + sch + ".RangeChan(" + r.node(n.X) + "); " + it + ".Next(&" + k + "); {"
		})
	default:
		_ = u
	}
}

// scaleConstants replaces the GiB unit by a small number (64, vsched.GiB) so
// that capacity behaviour can be explored with small items.  It replaces the
// outermost constant expressions whose value is exactly 2^30 (or, as somebody
// might take it for that, 10^9), shifts by 30, and products of something with
// constants that give these values.
func (r *rewriter) scaleConstants() {
	if r.pkg.Name() != "cacher" {
		return
	}
	scaled := func(v constant.Value) (string, bool) {
		switch {
		case v == nil || v.Kind() != constant.Int:
		case constant.Compare(v, token.EQL, constant.MakeInt64(1<<30)):
			return "64", true
		case constant.Compare(v, token.EQL, constant.MakeInt64(1e9)):
			return "59", true
		}
		return "", false
	}
	duration := func(e ast.Expr) bool {
		return types.TypeString(r.info.Types[e].Type, nil) == "time.Duration"
	}
	ast.Inspect(r.file, func(n ast.Node) bool {
		if b, ok := n.(*ast.BinaryExpr); ok && r.info.Types[b].Value == nil && !duration(b) {
			// the constant operands of a chain of shifts or products
			var consts []ast.Expr
			shift, product := int64(0), constant.MakeInt64(1)
			chain := func(op token.Token) {
				var rec func(e ast.Expr)
				rec = func(e ast.Expr) {
					if c, ok := unparen(e).(*ast.BinaryExpr); ok && c.Op == op && r.info.Types[c].Value == nil {
						rec(c.X)
						if op == token.MUL {
							rec(c.Y)
							return
						}
						e = c.Y
					}
					if v := r.info.Types[e].Value; v != nil && constant.ToInt(v).Kind() == constant.Int {
						consts = append(consts, e)
						product = constant.BinaryOp(product, token.MUL, constant.ToInt(v))
						i, _ := constant.Int64Val(constant.ToInt(v))
						shift += i
					}
				}
				rec(b)
			}
			to, one := "", ""
			switch b.Op {
			case token.SHL:
				chain(token.SHL)
				if shift == 30 && r.info.Types[b.X].Value == nil {
					to, one = "6", "0"
				}
			case token.MUL:
				chain(token.MUL)
				if t, ok := scaled(product); ok {
					to, one = t, "1"
				}
			}
			if to != "" && len(consts) > 0 {
				for i, e := range consts {
					t := one
					if i == 0 {
						t = to
					}
					r.add(e, func() string { return "(" + t + ")" })
					r.done[e] = true
				}
				return true
			}
		}
		e, ok := n.(ast.Expr)
		if !ok || r.done[e] {
			return !r.done[e]
		}
		switch e.(type) {
		case *ast.BasicLit, *ast.BinaryExpr, *ast.ParenExpr:
		default:
			return true
		}
		t, ok := scaled(r.info.Types[e].Value)
		if !ok || duration(e) {
			return true
		}
		r.add(e, func() string { return "(" + t + ")" })
		return false
	})
}

func (r *rewriter) fixImports() {
	// Which packages remain used?  Count PkgName uses that are not replaced.
	still := map[*types.PkgName]bool{}
	ast.Inspect(r.file, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		if m, ok := subst[pn.Imported().Path()]; ok {
			if _, ok := m[sel.Sel.Name]; ok {
				return true
			}
		}
		still[pn] = true
		return true
	})
	for _, is := range r.file.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
			continue
		}
		used := false
		for pn := range still {
			if pn.Imported().Path() == path {
				used = true
			}
		}
		if !used {
			is := is
			r.add(is, func() string { return "_ " + is.Path.Value })
		}
	}
	end := r.off(r.file.Name.End())
	// render the whole file once so that r.used is filled, then emit imports
	done := false
	r.addRange(end, end, func() string {
		if !done {
			done = true
			save := r.edits
			_ = r.render(end+1, len(r.src))
			r.edits = save
		}
		var al []string
		for a := range r.used {
			al = append(al, a)
		}
		sort.Strings(al)
		var b strings.Builder
		for _, a := range al {
			fmt.Fprintf(&b, "; import %s %q", a, shimPath[a])
		}
		return b.String()
	})
}
