// Package vos is an in-memory POSIX file system with the API of os, io/ioutil
// and the file system parts of path/filepath and syscall.
//
// It keeps a journal of all mutations together with fsync operations, from
// which the images a crash can leave behind are built.
package vos

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"vmc/vsched"
)

// Inode is a file, directory or symbolic link.
type Inode struct {
	Ino    uint64
	Mode   os.FileMode // type and permissions
	data   []byte
	size   int64 // logical size; bytes beyond len(data) are zero
	target string
	ents   []dirent
	nlink  int
	gone   bool // a removed directory
	mtime  time.Time
	lock   []*File // holders of a flock
	excl   bool
}

type dirent struct {
	name string
	ino  *Inode
}

func (n *Inode) isDir() bool  { return n.Mode.IsDir() }
func (n *Inode) isLink() bool { return n.Mode&os.ModeSymlink != 0 }

func (n *Inode) find(name string) int {
	i := sort.Search(len(n.ents), func(i int) bool { return n.ents[i].name >= name })
	return i
}

func (n *Inode) get(name string) *Inode {
	i := n.find(name)
	if i < len(n.ents) && n.ents[i].name == name {
		return n.ents[i].ino
	}
	return nil
}

func (n *Inode) set(name string, c *Inode) {
	i := n.find(name)
	if i < len(n.ents) && n.ents[i].name == name {
		n.ents[i].ino = c
		return
	}
	// the kernel copies names; the race detector must not see the caller's
	name = strings.Clone(name)
	n.ents = append(n.ents, dirent{})
	copy(n.ents[i+1:], n.ents[i:])
	n.ents[i] = dirent{name, c}
}

func (n *Inode) del(name string) {
	i := n.find(name)
	if i < len(n.ents) && n.ents[i].name == name {
		n.ents = append(n.ents[:i:i], n.ents[i+1:]...)
	}
}

// OpKind is the kind of a journal record.
type OpKind uint8

// Journal record kinds.
const (
	OpCreate OpKind = iota
	OpMkdir
	OpSymlink
	OpLink
	OpUnlink
	OpRmdir
	OpRename
	OpWrite
	OpTruncate
	OpChmod
	OpFsync
	OpMark // harness mark
	OpSyncAll
)

var opNames = [...]string{"create", "mkdir", "symlink", "link", "unlink", "rmdir", "rename", "write", "truncate", "chmod", "fsync", "mark", "syncall"}

// Op is a journal record.
type Op struct {
	Kind   OpKind
	Dir    uint64 // directory changed
	Name   string
	Dir2   uint64 // rename: source directory
	Name2  string // rename: source name
	Ino    uint64
	Old    uint64 // inode unlinked or replaced
	Mode   os.FileMode
	Target string
	Off    int64
	Data   []byte
	Size   int64
	Path   string // for humans and observers
	Path2  string
	Proc   string
	GID    int
	T      time.Time
}

func (o *Op) String() string {
	s := opNames[o.Kind] + " " + o.Path
	if o.Kind == OpRename {
		s = "rename " + o.Path2 + " -> " + o.Path
	}
	if o.Kind == OpWrite {
		s += fmt.Sprintf(" off=%d len=%d", o.Off, len(o.Data))
	}
	return s
}

// FS is one file system.
type FS struct {
	Root    *Inode
	nextIno uint64
	nextFd  int
	tmpSeq  int
	files   []*File
	Log     []Op
	NoLog   bool
	// Fault, if set, may fail an operation before it happens.
	Fault func(op, path string) error
	// MaxOpen is the maximum number of open files so far.
	MaxOpen int
	// OnOp, if set, is called after each mutation.
	OnOp func(o *Op)
	// Touched is called with the cleaned resolved path of each mutated name.
	Now   func() time.Time
	Umask os.FileMode
	Cwd   string
	last  time.Time
}

// Cur is the file system in use.
var Cur = NewFS()

// NewFS makes an empty file system with / and /tmp.
func NewFS() *FS {
	f := &FS{nextFd: 3, nextIno: 2, Umask: 022, Cwd: "/"}
	f.Root = &Inode{Ino: 1, Mode: os.ModeDir | 0755, nlink: 2}
	t := f.alloc(os.ModeDir | 0777)
	f.Root.set("tmp", t)
	return f
}

func (f *FS) alloc(mode os.FileMode) *Inode {
	n := &Inode{Ino: f.nextIno, Mode: mode, nlink: 1, mtime: f.now()}
	f.nextIno++
	return n
}

// now is the time of a change; later changes have later times.
func (f *FS) now() time.Time {
	t := time.Unix(946684800, 0)
	if vsched.Active() {
		t = time.Now()
	}
	if f.Now != nil {
		t = f.Now()
	}
	if !t.After(f.last) {
		t = f.last.Add(1)
	}
	f.last = t
	return t
}

// Clone makes a deep copy without open files and with an empty journal.
func (f *FS) Clone() *FS {
	m := map[uint64]*Inode{}
	c := &FS{last: f.last, nextFd: 3, nextIno: f.nextIno, Umask: f.Umask, Cwd: f.Cwd, tmpSeq: f.tmpSeq}
	c.Root = cloneInode(f.Root, m)
	return c
}

func cloneInode(n *Inode, m map[uint64]*Inode) *Inode {
	if c, ok := m[n.Ino]; ok {
		return c
	}
	c := &Inode{Ino: n.Ino, Mode: n.Mode, data: n.data[:len(n.data):len(n.data)], size: n.size, target: n.target, nlink: n.nlink, mtime: n.mtime}
	m[n.Ino] = c
	if len(n.ents) > 0 {
		c.ents = make([]dirent, len(n.ents))
		for i, e := range n.ents {
			c.ents[i] = dirent{e.name, cloneInode(e.ino, m)}
		}
	}
	return c
}

func (f *FS) log(o Op) {
	o.T = f.last
	if p := vsched.CurProc(); p != nil {
		o.Proc = p.Name
		o.GID = vsched.CurG().ID
	}
	if vsched.W != nil && vsched.W.Trace != nil {
		vsched.Tracef("fs %s: %s", o.Proc, o.String())
	}
	if !f.NoLog {
		f.Log = append(f.Log, o)
	}
	if f.OnOp != nil && o.Kind != OpFsync && o.Kind != OpSyncAll {
		f.OnOp(&o)
	}
}

// Mark adds a harness mark to the journal.
func (f *FS) Mark(name string) { f.Log = append(f.Log, Op{Kind: OpMark, Name: name}) }

const maxLinks = 40

// walk resolves p.  It returns the parent directory, the last component and
// the inode (nil if it does not exist).  If follow is set, a final symlink is
// followed.
func (f *FS) walk(p string, follow bool) (dir *Inode, name string, n *Inode, err error) {
	links := 0
	return f.walk1(p, follow, &links)
}

func (f *FS) walk1(p string, follow bool, links *int) (dir *Inode, name string, n *Inode, err error) {
	if p == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	if len(p) >= 4096 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	if p[0] != '/' {
		p = f.Cwd + "/" + p
	}
	// stack of directories
	stack := []*Inode{f.Root}
	rest := p
	slash := strings.HasSuffix(p, "/")
	for {
		rest = strings.TrimLeft(rest, "/")
		if rest == "" {
			d := stack[len(stack)-1]
			return d, ".", d, nil
		}
		comp := rest
		if i := strings.IndexByte(rest, '/'); i >= 0 {
			comp, rest = rest[:i], rest[i:]
		} else {
			rest = ""
		}
		last := strings.Trim(rest, "/") == ""
		cur := stack[len(stack)-1]
		if !cur.isDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		switch comp {
		case ".":
			if last {
				return cur, ".", cur, nil
			}
			continue
		case "..":
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			if last {
				d := stack[len(stack)-1]
				return d, "..", d, nil
			}
			continue
		}
		if len(comp) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		c := cur.get(comp)
		if c == nil {
			if last {
				return cur, comp, nil, nil
			}
			return nil, "", nil, syscall.ENOENT
		}
		if c.isLink() && (!last || follow || slash) {
			*links++
			if *links > maxLinks {
				return nil, "", nil, syscall.ELOOP
			}
			t := c.target
			if t == "" {
				return nil, "", nil, syscall.ENOENT
			}
			if t[0] == '/' {
				stack = stack[:1]
			}
			rest = t + rest
			if last && !strings.HasSuffix(t, "/") && slash {
				rest += "/"
			}
			continue
		}
		if last {
			if slash && !c.isDir() {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, comp, c, nil
		}
		if !c.isDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		stack = append(stack, c)
	}
}

func (f *FS) point(op, path string) error {
	vsched.Point(vsched.CatFS, op)
	if f.Fault != nil {
		if err := f.Fault(op, path); err != nil {
			return err
		}
	}
	return nil
}

func (f *FS) ioPoint(op, path string) error {
	vsched.Point(vsched.CatIO, op)
	if f.Fault != nil {
		if err := f.Fault(op, path); err != nil {
			return err
		}
	}
	return nil
}

func perr(op, path string, err error) error {
	if err == nil {
		return nil
	}
	return &os.PathError{Op: op, Path: path, Err: err}
}

// info implements os.FileInfo.
type info struct {
	name  string
	mode  os.FileMode
	size  int64
	mtime time.Time
	ino   uint64
	nlink int
	node  *Inode
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() os.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return i.mtime }
func (i *info) IsDir() bool        { return i.mode.IsDir() }
func (i *info) Sys() interface{} {
	return &syscall.Stat_t{Ino: i.ino, Nlink: uint64(i.nlink), Size: i.size, Mode: uint32(i.mode.Perm())}
}

func (n *Inode) stat(name string) *info {
	sz := n.size
	if n.isDir() {
		sz = 4096
	}
	if n.isLink() {
		sz = int64(len(n.target))
	}
	return &info{name, n.Mode, sz, n.mtime, n.Ino, n.nlink, n}
}

func basename(p string) string {
	// as os.basename
	for len(p) > 1 && strings.HasSuffix(p, "/") {
		p = p[:len(p)-1]
	}
	if i := strings.LastIndexByte(p, '/'); i >= 0 && len(p) > 1 {
		p = p[i+1:]
	}
	return p
}

// Stat replaces os.Stat.
func Stat(p string) (os.FileInfo, error) {
	if err := Cur.point("stat", p); err != nil {
		return nil, perr("stat", p, err)
	}
	_, _, n, err := Cur.walk(p, true)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr("stat", p, err)
	}
	return n.stat(basename(p)), nil
}

// Lstat replaces os.Lstat.
func Lstat(p string) (os.FileInfo, error) {
	if err := Cur.point("lstat", p); err != nil {
		return nil, perr("lstat", p, err)
	}
	return lstat(p)
}

func lstat(p string) (os.FileInfo, error) {
	_, _, n, err := Cur.walk(p, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr("lstat", p, err)
	}
	return n.stat(basename(p)), nil
}

// SameFile replaces os.SameFile.
func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.node == y.node
}

// Open replaces os.Open.
func Open(p string) (*File, error) { return OpenFile(p, os.O_RDONLY, 0) }

// Create replaces os.Create.
func Create(p string) (*File, error) {
	return OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// OpenFile replaces os.OpenFile.
func OpenFile(p string, flag int, perm os.FileMode) (*File, error) {
	if err := Cur.point("open", p); err != nil {
		return nil, perr("open", p, err)
	}
	f, err := Cur.open(p, flag, perm)
	return f, perr("open", p, err)
}

func (f *FS) open(p string, flag int, perm os.FileMode) (*File, error) {
	excl := flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0
	dir, name, n, err := f.walk(p, !excl)
	if err != nil {
		return nil, err
	}
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, syscall.ENOENT
		}
		if strings.HasSuffix(p, "/") {
			return nil, syscall.EISDIR
		}
		n = f.alloc(perm.Perm() &^ f.Umask)
		// a dangling symlink was followed by walk: dir/name is the target
		dir.set(name, n)
		f.log(Op{Kind: OpCreate, Dir: dir.Ino, Name: name, Ino: n.Ino, Mode: n.Mode, Path: p})
	} else {
		if excl {
			return nil, syscall.EEXIST
		}
		if n.isLink() {
			return nil, syscall.ELOOP
		}
		if n.isDir() && (acc != os.O_RDONLY || flag&(os.O_CREATE|os.O_TRUNC) != 0) {
			return nil, syscall.EISDIR
		}
		if flag&os.O_TRUNC != 0 && n.size > 0 {
			n.data, n.size = nil, 0
			n.mtime = f.now()
			f.log(Op{Kind: OpTruncate, Ino: n.Ino, Size: 0, Path: p})
		}
	}
	file := &File{fs: f, n: n, name: p, flag: flag, fd: f.nextFd, proc: vsched.CurProc()}
	f.nextFd++
	f.files = append(f.files, file)
	if len(f.files) > f.MaxOpen {
		f.MaxOpen = len(f.files)
	}
	return file, nil
}

// Mkdir replaces os.Mkdir.
func Mkdir(p string, perm os.FileMode) error {
	if err := Cur.point("mkdir", p); err != nil {
		return perr("mkdir", p, err)
	}
	return perr("mkdir", p, Cur.mkdir(p, perm))
}

func (f *FS) mkdir(p string, perm os.FileMode) error {
	dir, name, n, err := f.walk(strings.TrimRight(p, "/")+rootSlash(p), false)
	if err != nil {
		return err
	}
	if n != nil {
		return syscall.EEXIST
	}
	n = f.alloc(os.ModeDir | perm.Perm()&^f.Umask)
	n.nlink = 2
	dir.set(name, n)
	dir.nlink++
	dir.mtime = f.now()
	f.log(Op{Kind: OpMkdir, Dir: dir.Ino, Name: name, Ino: n.Ino, Mode: n.Mode, Path: p})
	return nil
}

func rootSlash(p string) string {
	if p != "" && strings.Trim(p, "/") == "" {
		return "/"
	}
	return ""
}

// MkdirAll replaces os.MkdirAll (same algorithm).
func MkdirAll(path string, perm os.FileMode) error {
	dir, err := Stat(path)
	if err == nil {
		if dir.IsDir() {
			return nil
		}
		return &os.PathError{Op: "mkdir", Path: path, Err: syscall.ENOTDIR}
	}
	i := len(path)
	for i > 0 && path[i-1] == '/' {
		i--
	}
	j := i
	for j > 0 && path[j-1] != '/' {
		j--
	}
	if j > 1 {
		if err := MkdirAll(path[:j-1], perm); err != nil {
			return err
		}
	}
	err = Mkdir(path, perm)
	if err != nil {
		dir, err1 := Lstat(path)
		if err1 == nil && dir.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func (f *FS) unlink(p string) error {
	dir, name, n, err := f.walk(p, false)
	if err != nil {
		return err
	}
	if n == nil {
		return syscall.ENOENT
	}
	if n.isDir() {
		return syscall.EISDIR
	}
	dir.del(name)
	dir.mtime = f.now()
	n.nlink--
	f.log(Op{Kind: OpUnlink, Dir: dir.Ino, Name: name, Old: n.Ino, Path: p})
	return nil
}

func (f *FS) rmdir(p string) error {
	dir, name, n, err := f.walk(p, false)
	if err != nil {
		return err
	}
	if n == nil {
		return syscall.ENOENT
	}
	if !n.isDir() {
		return syscall.ENOTDIR
	}
	if name == "." {
		return syscall.EINVAL
	}
	if n == f.Root {
		return syscall.EBUSY
	}
	if len(n.ents) > 0 || name == ".." {
		return syscall.ENOTEMPTY
	}
	dir.del(name)
	n.gone = true
	dir.nlink--
	dir.mtime = f.now()
	f.log(Op{Kind: OpRmdir, Dir: dir.Ino, Name: name, Old: n.Ino, Path: p})
	return nil
}

// Remove replaces os.Remove.
func Remove(p string) error {
	if err := Cur.point("remove", p); err != nil {
		return perr("remove", p, err)
	}
	return Cur.remove(p)
}

func (f *FS) remove(p string) error {
	e := f.unlink(p)
	if e == nil {
		return nil
	}
	e1 := f.rmdir(p)
	if e1 == nil {
		return nil
	}
	if e1 != syscall.ENOTDIR {
		e = e1
	}
	return &os.PathError{Op: "remove", Path: p, Err: e}
}

// RemoveAll replaces os.RemoveAll.
func RemoveAll(p string) error {
	if p == "" {
		return nil
	}
	if p == "." || strings.HasSuffix(p, "/.") {
		return &os.PathError{Op: "RemoveAll", Path: p, Err: syscall.EINVAL}
	}
	if err := Cur.point("removeall", p); err != nil {
		return perr("removeall", p, err)
	}
	return Cur.removeAll(p, true)
}

func (f *FS) removeAll(p string, first bool) error {
	if !first {
		if err := f.point("remove", p); err != nil {
			return perr("unlinkat", p, err)
		}
	}
	_, _, n, err := f.walk(p, false)
	if err != nil {
		if err == syscall.ENOENT {
			return nil
		}
		if err == syscall.ELOOP {
			return perr("open", filepath.Dir(p), err)
		}
		return perr("unlinkat", p, err)
	}
	if n == nil {
		return nil
	}
	if n.isDir() {
		var first error
		for _, e := range append([]dirent(nil), n.ents...) {
			if err := f.removeAll(strings.TrimRight(p, "/")+"/"+e.name, false); err != nil && first == nil {
				first = err
			}
		}
		if first != nil {
			return first
		}
		vsched.Point(vsched.CatFS, "rmdir")
		err = f.rmdir(p)
	} else {
		err = f.unlink(p)
	}
	if err == syscall.ENOENT {
		return nil
	}
	return perr("unlinkat", p, err)
}

// Rename replaces os.Rename.
func Rename(o, n string) error {
	if err := Cur.point("rename", n); err != nil {
		return &os.LinkError{Op: "rename", Old: o, New: n, Err: err}
	}
	// os.Rename refuses to replace a directory
	if _, _, d, err := Cur.walk(n, false); err == nil && d != nil && d.isDir() {
		if _, _, s, err := Cur.walk(o, false); err == nil && s != nil && (s != d || n == o) {
			return &os.LinkError{Op: "rename", Old: o, New: n, Err: syscall.EEXIST}
		}
	}
	if err := Cur.rename(o, n); err != nil {
		return &os.LinkError{Op: "rename", Old: o, New: n, Err: err}
	}
	return nil
}

func (f *FS) rename(o, n string) error {
	od, on, oi, err := f.walk(o, false)
	if err != nil {
		return err
	}
	nd, nn, ni, err := f.walk(n, false)
	if err != nil {
		return err
	}
	if oi == nil {
		return syscall.ENOENT
	}
	if on == "." || on == ".." || nn == "." || nn == ".." {
		return syscall.EBUSY
	}
	if ni == oi {
		return nil
	}
	if ni != nil {
		if oi.isDir() && !ni.isDir() {
			return syscall.ENOTDIR
		}
		if !oi.isDir() && ni.isDir() {
			return syscall.EISDIR
		}
		if ni.isDir() && len(ni.ents) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	if oi.isDir() && f.inside(oi, nd) {
		return syscall.EINVAL
	}
	od.del(on)
	nd.set(nn, oi)
	op := Op{Kind: OpRename, Dir: nd.Ino, Name: nn, Dir2: od.Ino, Name2: on, Ino: oi.Ino, Path: n, Path2: o}
	if ni != nil {
		ni.nlink--
		ni.gone = ni.isDir()
		op.Old = ni.Ino
	}
	f.log(op)
	return nil
}

func (f *FS) inside(top, d *Inode) bool {
	if top == d {
		return true
	}
	for _, e := range top.ents {
		if e.ino.isDir() && f.inside(e.ino, d) {
			return true
		}
	}
	return false
}

// Link replaces os.Link.
func Link(o, n string) error {
	if err := Cur.point("link", n); err != nil {
		return &os.LinkError{Op: "link", Old: o, New: n, Err: err}
	}
	if err := Cur.link(o, n); err != nil {
		return &os.LinkError{Op: "link", Old: o, New: n, Err: err}
	}
	return nil
}

func (f *FS) link(o, n string) error {
	_, _, oi, err := f.walk(o, false)
	if err != nil {
		return err
	}
	if oi == nil {
		return syscall.ENOENT
	}
	nd, nn, ni, err := f.walk(n, false)
	if err != nil {
		return err
	}
	if ni != nil {
		return syscall.EEXIST
	}
	if oi.isDir() {
		return syscall.EPERM
	}
	if strings.HasSuffix(n, "/") {
		return syscall.ENOENT
	}
	nd.set(nn, oi)
	nd.mtime = f.now()
	oi.nlink++
	f.log(Op{Kind: OpLink, Dir: nd.Ino, Name: nn, Ino: oi.Ino, Path: n, Path2: o})
	return nil
}

// Symlink replaces os.Symlink.
func Symlink(o, n string) error {
	if err := Cur.point("symlink", n); err != nil {
		return &os.LinkError{Op: "symlink", Old: o, New: n, Err: err}
	}
	if err := Cur.symlink(o, n); err != nil {
		return &os.LinkError{Op: "symlink", Old: o, New: n, Err: err}
	}
	return nil
}

func (f *FS) symlink(o, n string) error {
	if o == "" {
		return syscall.ENOENT
	}
	nd, nn, ni, err := f.walk(n, false)
	if err != nil {
		return err
	}
	if ni != nil {
		return syscall.EEXIST
	}
	i := f.alloc(os.ModeSymlink | 0777)
	i.target = strings.Clone(o)
	nd.set(nn, i)
	nd.mtime = f.now()
	f.log(Op{Kind: OpSymlink, Dir: nd.Ino, Name: nn, Ino: i.Ino, Target: o, Path: n})
	return nil
}

// Readlink replaces os.Readlink.
func Readlink(p string) (string, error) {
	if err := Cur.point("readlink", p); err != nil {
		return "", perr("readlink", p, err)
	}
	_, _, n, err := Cur.walk(p, false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err == nil && !n.isLink() {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", p, err)
	}
	return n.target, nil
}

// Chmod replaces os.Chmod.
func Chmod(p string, m os.FileMode) error {
	if err := Cur.point("chmod", p); err != nil {
		return perr("chmod", p, err)
	}
	_, _, n, err := Cur.walk(p, true)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr("chmod", p, err)
	}
	Cur.chmod(n, m, p)
	return nil
}

func (f *FS) chmod(n *Inode, m os.FileMode, p string) {
	n.Mode = n.Mode&os.ModeType | m.Perm()
	f.log(Op{Kind: OpChmod, Ino: n.Ino, Mode: n.Mode, Path: p})
}

// Chtimes replaces os.Chtimes.
func Chtimes(p string, a, m time.Time) error {
	if err := Cur.point("chtimes", p); err != nil {
		return perr("chtimes", p, err)
	}
	_, _, n, err := Cur.walk(p, true)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr("chtimes", p, err)
	}
	if !m.IsZero() {
		n.mtime = m
	}
	return nil
}

// Truncate replaces os.Truncate.
func Truncate(p string, size int64) error {
	if err := Cur.point("truncate", p); err != nil {
		return perr("truncate", p, err)
	}
	_, _, n, err := Cur.walk(p, true)
	switch {
	case err != nil:
	case n == nil:
		err = syscall.ENOENT
	case n.isDir():
		err = syscall.EISDIR
	default:
		Cur.truncate(n, size, p)
	}
	return perr("truncate", p, err)
}

func (f *FS) truncate(n *Inode, size int64, p string) {
	if int64(len(n.data)) > size {
		n.data = n.data[:size:size]
	}
	n.size = size
	n.mtime = f.now()
	f.log(Op{Kind: OpTruncate, Ino: n.Ino, Size: size, Path: p})
}

// ReadFile replaces os.ReadFile.
func ReadFile(p string) ([]byte, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.n.isDir() {
		return nil, perr("read", p, syscall.EISDIR)
	}
	if err := Cur.ioPoint("read", p); err != nil {
		return nil, perr("read", p, err)
	}
	return f.n.bytes(), nil
}

func (n *Inode) bytes() []byte {
	b := make([]byte, n.size)
	copy(b, n.data)
	return b
}

// WriteFile replaces os.WriteFile.
func WriteFile(p string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// ReadDir replaces os.ReadDir.
func ReadDir(p string) ([]os.DirEntry, error) {
	l, err := IoutilReadDir(p)
	var r []os.DirEntry
	for _, e := range l {
		r = append(r, fs.FileInfoToDirEntry(e))
	}
	return r, err
}

// IoutilReadDir replaces ioutil.ReadDir.
func IoutilReadDir(p string) ([]os.FileInfo, error) {
	if err := Cur.point("readdir", p); err != nil {
		return nil, perr("open", p, err)
	}
	_, _, n, err := Cur.walk(p, true)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr("open", p, err)
	}
	if !n.isDir() {
		return nil, perr("open", p, syscall.ENOTDIR)
	}
	return n.list(), nil
}

func (n *Inode) list() []os.FileInfo {
	var l []os.FileInfo
	for _, e := range n.ents {
		l = append(l, e.ino.stat(e.name))
	}
	return l
}

// TempFile replaces ioutil.TempFile; names are unique and deterministic.
func TempFile(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	prefix, suffix := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}
	if strings.ContainsRune(pattern, '/') {
		return nil, &os.PathError{Op: "createtemp", Path: pattern, Err: fmt.Errorf("pattern contains path separator")}
	}
	for {
		Cur.tmpSeq++
		name := filepath.Join(dir, fmt.Sprintf("%s%09d%s", prefix, 100000000+Cur.tmpSeq, suffix))
		f, err := OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
}

// CreateTemp replaces os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) { return TempFile(dir, pattern) }

// MkdirTemp replaces os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	prefix, suffix := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}
	for {
		Cur.tmpSeq++
		name := filepath.Join(dir, fmt.Sprintf("%s%09d%s", prefix, 100000000+Cur.tmpSeq, suffix))
		err := Mkdir(name, 0700)
		if os.IsExist(err) {
			continue
		}
		return name, err
	}
}

// TempDir replaces os.TempDir.
func TempDir() string { return "/tmp" }

// Getwd replaces os.Getwd.
func Getwd() (string, error) { return Cur.Cwd, nil }

// Abs replaces filepath.Abs.
func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join(Cur.Cwd, p), nil
}

// Args replaces os.Args.
var Args = []string{"program"}

// Exit replaces os.Exit.
func Exit(code int) { vsched.ExitProc(code) }

// Walk replaces filepath.Walk.
func Walk(root string, fn filepath.WalkFunc) error {
	fi, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, fi os.FileInfo, fn filepath.WalkFunc) error {
	if !fi.IsDir() {
		return fn(path, fi, nil)
	}
	l, err := IoutilReadDir(path)
	err1 := fn(path, fi, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range l {
		filename := filepath.Join(path, e.Name())
		fileInfo, err := Lstat(filename)
		if err != nil {
			if err := fn(filename, fileInfo, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else {
			err = walk(filename, fileInfo, fn)
			if err != nil {
				if !fileInfo.IsDir() || err != filepath.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

// WalkDir replaces filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range l {
		if err := walkDir(filepath.Join(path, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// EvalSymlinks replaces filepath.EvalSymlinks.
func EvalSymlinks(p string) (string, error) {
	if err := Cur.point("evalsymlinks", p); err != nil {
		return "", perr("lstat", p, err)
	}
	links := 0
	res, err := Cur.eval(p, &links)
	if err != nil {
		return "", err
	}
	return res, nil
}

func (f *FS) eval(p string, links *int) (string, error) {
	abs := strings.HasPrefix(p, "/")
	cur := ""
	if abs {
		cur = "/"
	}
	comps := strings.Split(p, "/")
	for len(comps) > 0 {
		c := comps[0]
		comps = comps[1:]
		if c == "" || c == "." {
			continue
		}
		if c == ".." {
			cur = filepath.Join(cur, "..")
			continue
		}
		next := filepath.Join(cur, c)
		_, _, n, err := f.walk(next, false)
		if err == nil && n == nil {
			err = syscall.ENOENT
		}
		if err != nil {
			return "", &os.PathError{Op: "lstat", Path: next, Err: err}
		}
		if n.isLink() {
			*links++
			if *links > 255 {
				return "", fmt.Errorf("EvalSymlinks: too many links")
			}
			t := n.target
			if strings.HasPrefix(t, "/") {
				cur = "/"
			}
			comps = append(strings.Split(t, "/"), comps...)
			continue
		}
		if !n.isDir() && len(comps) > 0 && strings.Join(comps, "") != "" {
			return "", syscall.ENOTDIR
		}
		cur = next
	}
	if cur == "" {
		cur = "."
	}
	return filepath.Clean(cur), nil
}

// Glob replaces filepath.Glob for a pattern in the last component.
func Glob(pattern string) ([]string, error) {
	dir, pat := filepath.Split(pattern)
	l, err := IoutilReadDir(filepath.Clean(dir))
	if err != nil {
		return nil, nil
	}
	var r []string
	for _, e := range l {
		ok, err := filepath.Match(pat, e.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, filepath.Join(dir, e.Name()))
		}
	}
	return r, nil
}
