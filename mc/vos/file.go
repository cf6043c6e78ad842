package vos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"syscall"
	"time"

	"vmc/vsched"
)

// File replaces os.File.
type File struct {
	fs     *FS
	n      *Inode
	name   string
	flag   int
	off    int64
	fd     int
	closed bool
	dirpos int
	proc   *vsched.Proc
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &os.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return nil
}

// Inode returns the inode number (for harnesses).
func (f *File) Inode() uint64 { return f.n.Ino }

// Name returns the name given to Open.
func (f *File) Name() string { return f.name }

// Fd returns the descriptor.
func (f *File) Fd() uintptr { return uintptr(f.fd) }

// Read reads.
func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if err := f.fs.ioPoint("read", f.name); err != nil {
		return 0, perr("read", f.name, err)
	}
	if f.n.isDir() {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := f.n.readAt(b, f.off)
	if n == 0 {
		return 0, io.EOF
	}
	f.off += int64(n)
	return n, nil
}

func (n *Inode) readAt(b []byte, off int64) int {
	if off >= n.size {
		return 0
	}
	if int64(len(b)) > n.size-off {
		b = b[:n.size-off]
	}
	c := 0
	if off < int64(len(n.data)) {
		c = copy(b, n.data[off:])
	}
	for i := c; i < len(b); i++ {
		b[i] = 0
	}
	return len(b)
}

// ReadAt reads at off.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if err := f.fs.ioPoint("read", f.name); err != nil {
		return 0, perr("read", f.name, err)
	}
	n := f.n.readAt(b, off)
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// ErrShort makes a write fail with ENOSPC after half of its data (Fault hook).
var ErrShort = errors.New("short write")

// Write writes.
func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if err := f.fs.ioPoint("write", f.name); err == ErrShort && len(b) > 1 {
		n := len(b) / 2
		f.writeAt(b[:n], f.off)
		f.off += int64(n)
		return n, perr("write", f.name, syscall.ENOSPC)
	} else if err != nil {
		if err == ErrShort {
			err = syscall.ENOSPC
		}
		return 0, perr("write", f.name, err)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = f.n.size
	}
	f.writeAt(b, f.off)
	f.off += int64(len(b))
	return len(b), nil
}

func (f *File) writeAt(b []byte, off int64) {
	if len(b) == 0 {
		return
	}
	n := f.n
	end := off + int64(len(b))
	// copy on write: clones of the file system share data
	nd := make([]byte, max64(int64(len(n.data)), end))
	copy(nd, n.data)
	copy(nd[off:], b)
	n.data = nd
	if end > n.size {
		n.size = end
	}
	n.mtime = f.fs.now()
	f.fs.log(Op{Kind: OpWrite, Ino: n.Ino, Off: off, Data: append([]byte(nil), b...), Path: f.name})
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// WriteAt writes at off.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if err := f.fs.ioPoint("write", f.name); err != nil {
		return 0, perr("write", f.name, err)
	}
	if f.readOnly() {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	f.writeAt(b, off)
	return len(b), nil
}

// WriteString writes s.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom copies from r.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return io.Copy(onlyWriter{f}, r)
}

// WriteTo copies to w.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, onlyReader{f})
}

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

// Seek seeks.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	if f.fs.Fault != nil {
		if err := f.fs.Fault("seek", f.name); err != nil {
			return 0, perr("seek", f.name, err)
		}
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += f.n.size
	default:
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	f.dirpos = 0
	return off, nil
}

// Close closes.
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &os.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	if p := vsched.CurProc(); p != nil && p.Dead() {
		return nil
	}
	f.close()
	return nil
}

func (f *File) close() {
	f.closed = true
	f.unlock()
	for i, g := range f.fs.files {
		if g == f {
			f.fs.files = append(f.fs.files[:i:i], f.fs.files[i+1:]...)
			break
		}
	}
}

func (f *File) unlock() {
	l := f.n.lock
	for i, g := range l {
		if g == f {
			f.n.lock = append(l[:i:i], l[i+1:]...)
			break
		}
	}
	if len(f.n.lock) == 0 {
		f.n.excl = false
	}
}

// CloseProc closes the files of a dead process.
func (f *FS) CloseProc(p *vsched.Proc) {
	for _, g := range append([]*File(nil), f.files...) {
		if g.proc == p {
			g.close()
		}
	}
}

// OpenCount returns the number of open files of p (all if nil).
func (f *FS) OpenCount(p *vsched.Proc) int {
	n := 0
	for _, g := range f.files {
		if p == nil || g.proc == p {
			n++
		}
	}
	return n
}

// Sync is fsync.
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if err := f.fs.ioPoint("fsync", f.name); err != nil {
		return perr("sync", f.name, err)
	}
	f.fs.log(Op{Kind: OpFsync, Ino: f.n.Ino, Path: f.name})
	return nil
}

// Stat stats.
func (f *File) Stat() (os.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return f.n.stat(basename(f.name)), nil
}

// Chmod changes the mode.
func (f *File) Chmod(m os.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	if err := f.fs.ioPoint("chmod", f.name); err != nil {
		return perr("chmod", f.name, err)
	}
	f.fs.chmod(f.n, m, f.name)
	return nil
}

// Truncate truncates.
func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := f.fs.ioPoint("truncate", f.name); err != nil {
		return perr("truncate", f.name, err)
	}
	if size < 0 || f.readOnly() {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	f.fs.truncate(f.n, size, f.name)
	return nil
}

func (f *File) readOnly() bool {
	return f.flag&(os.O_WRONLY|os.O_RDWR) == 0
}

// Readdir lists.
func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if err := f.fs.point("readdir", f.name); err != nil {
		return nil, perr("readdirent", f.name, err)
	}
	if !f.n.isDir() {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	if f.n.gone {
		return nil, perr("readdirent", f.name, syscall.ENOENT)
	}
	l := f.n.list()
	if f.dirpos > len(l) {
		f.dirpos = len(l)
	}
	l = l[f.dirpos:]
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if len(l) > n {
			l = l[:n]
		}
	}
	f.dirpos += len(l)
	return l, nil
}

// Readdirnames lists names.
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.Readdir(n)
	var r []string
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, err
}

// ReadDir lists entries.
func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	l, err := f.Readdir(n)
	var r []os.DirEntry
	for _, e := range l {
		r = append(r, fs.FileInfoToDirEntry(e))
	}
	return r, err
}

// SetDeadline is not supported by regular files.
func (f *File) SetDeadline(time.Time) error { return os.ErrNoDeadline }

func (f *FS) byFd(fd int) *File {
	for _, g := range f.files {
		if g.fd == fd {
			return g
		}
	}
	return nil
}

// SysFlock replaces syscall.Flock.
func SysFlock(fd int, how int) error {
	if err := Cur.point("flock", ""); err != nil {
		return err
	}
	f := Cur.byFd(fd)
	if f == nil {
		return syscall.EBADF
	}
	nb := how&syscall.LOCK_NB != 0
	switch how &^ syscall.LOCK_NB {
	case syscall.LOCK_UN:
		f.unlock()
		return nil
	case syscall.LOCK_EX:
		free := func() bool { return len(f.n.lock) == 0 || len(f.n.lock) == 1 && f.n.lock[0] == f }
		if !free() {
			if nb {
				return syscall.EWOULDBLOCK
			}
			vsched.WaitFor(vsched.CatFS, "flock", free)
		}
		f.n.lock, f.n.excl = []*File{f}, true
		return nil
	case syscall.LOCK_SH:
		free := func() bool { return !f.n.excl || len(f.n.lock) == 1 && f.n.lock[0] == f }
		if !free() {
			if nb {
				return syscall.EWOULDBLOCK
			}
			vsched.WaitFor(vsched.CatFS, "flock", free)
		}
		f.unlock()
		f.n.lock = append(f.n.lock, f)
		f.n.excl = false
		return nil
	}
	return syscall.EINVAL
}

// LockHolder returns the process holding an exclusive lock on path.
func (f *FS) LockHolder(path string) *vsched.Proc {
	_, _, n, err := f.walk(path, true)
	if err != nil || n == nil || len(n.lock) == 0 {
		return nil
	}
	return n.lock[0].proc
}

// SysFsync replaces syscall.Fsync.
func SysFsync(fd int) error {
	f := Cur.byFd(fd)
	if f == nil {
		return syscall.EBADF
	}
	if err := Cur.ioPoint("fsync", f.name); err != nil {
		return err
	}
	Cur.log(Op{Kind: OpFsync, Ino: f.n.Ino, Path: f.name})
	return nil
}

// SysFdatasync replaces syscall.Fdatasync.
func SysFdatasync(fd int) error { return SysFsync(fd) }

// SysSync replaces syscall.Sync.
func SysSync() { Cur.log(Op{Kind: OpSyncAll}) }

// SysClose replaces syscall.Close.
func SysClose(fd int) error {
	f := Cur.byFd(fd)
	if f == nil {
		return syscall.EBADF
	}
	f.close()
	return nil
}

// SysFtruncate replaces syscall.Ftruncate.
func SysFtruncate(fd int, size int64) error {
	f := Cur.byFd(fd)
	if f == nil {
		return syscall.EBADF
	}
	if size < 0 || f.readOnly() {
		return syscall.EINVAL
	}
	Cur.truncate(f.n, size, f.name)
	return nil
}

func sysErr(err error) error {
	var p *os.PathError
	if errors.As(err, &p) {
		return p.Err
	}
	var l *os.LinkError
	if errors.As(err, &l) {
		return l.Err
	}
	return err
}

// SysUnlink replaces syscall.Unlink.
func SysUnlink(p string) error {
	if err := Cur.point("remove", p); err != nil {
		return err
	}
	return Cur.unlink(p)
}

// SysRmdir replaces syscall.Rmdir.
func SysRmdir(p string) error {
	if err := Cur.point("remove", p); err != nil {
		return err
	}
	return Cur.rmdir(p)
}

// SysRename replaces syscall.Rename.
func SysRename(o, n string) error {
	if err := Cur.point("rename", n); err != nil {
		return err
	}
	return Cur.rename(o, n)
}

// SysLink replaces syscall.Link.
func SysLink(o, n string) error { return sysErr(Link(o, n)) }

// SysSymlink replaces syscall.Symlink.
func SysSymlink(o, n string) error { return sysErr(Symlink(o, n)) }

// SysMkdir replaces syscall.Mkdir.
func SysMkdir(p string, mode uint32) error { return sysErr(Mkdir(p, os.FileMode(mode))) }
