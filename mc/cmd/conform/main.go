// Command conform compares the file system model mc/vos with the operating
// system: it runs every sequence of operations up to a depth on both, in a
// scratch directory, and compares the result of every operation (values and
// error texts) and all names at the end.  It compares the model's own journal
// as well: replaying it must give the same tree.
package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"vmc/vos"
)

type file interface {
	io.ReadWriteCloser
	Seek(int64, int) (int64, error)
	Sync() error
	Stat() (os.FileInfo, error)
	Readdirnames(int) ([]string, error)
	Truncate(int64) error
	Chmod(os.FileMode) error
	Fd() uintptr
	ReadAt([]byte, int64) (int, error)
	WriteString(string) (int, error)
}

// osys is what both sides provide.
type osys struct {
	open     func(string, int, os.FileMode) (file, error)
	mkdir    func(string, os.FileMode) error
	mkdirAll func(string, os.FileMode) error
	remove   func(string) error
	rmAll    func(string) error
	rename   func(string, string) error
	link     func(string, string) error
	symlink  func(string, string) error
	readlink func(string) (string, error)
	chmod    func(string, os.FileMode) error
	truncate func(string, int64) error
	stat     func(string) (os.FileInfo, error)
	lstat    func(string) (os.FileInfo, error)
	read     func(string) ([]byte, error)
	write    func(string, []byte, os.FileMode) error
	list     func(string) ([]os.FileInfo, error)
	eval     func(string) (string, error)
	walk     func(string, filepath.WalkFunc) error
	same     func(a, b os.FileInfo) bool
	flock    func(int, int) error
	nlink    func(os.FileInfo) uint64
	temp     func(string, string) (file, error)
	h        [2]file
}

func nlinkOf(fi os.FileInfo) uint64 {
	if st, ok := fi.Sys().(*syscall.Stat_t); ok {
		return uint64(st.Nlink)
	}
	return 0
}

func real() *osys {
	return &osys{
		open: func(p string, f int, m os.FileMode) (file, error) {
			x, err := os.OpenFile(p, f, m)
			if err != nil {
				return nil, err
			}
			return x, nil
		},
		mkdir: os.Mkdir, mkdirAll: os.MkdirAll, remove: os.Remove, rmAll: os.RemoveAll, rename: os.Rename,
		link: os.Link, symlink: os.Symlink, readlink: os.Readlink, chmod: os.Chmod, truncate: os.Truncate,
		stat: os.Stat, lstat: os.Lstat, read: os.ReadFile, write: os.WriteFile,
		list: func(p string) ([]os.FileInfo, error) {
			l, err := os.ReadDir(p)
			var r []os.FileInfo
			for _, e := range l {
				fi, err := e.Info()
				if err != nil {
					return nil, err
				}
				r = append(r, fi)
			}
			return r, err
		},
		eval: filepath.EvalSymlinks, walk: filepath.Walk, same: os.SameFile, flock: syscall.Flock, nlink: nlinkOf,
		temp: func(d, p string) (file, error) {
			x, err := os.CreateTemp(d, p)
			if err != nil {
				return nil, err
			}
			return x, nil
		},
	}
}

func model() *osys {
	return &osys{
		open: func(p string, f int, m os.FileMode) (file, error) {
			x, err := vos.OpenFile(p, f, m)
			if err != nil {
				return nil, err
			}
			return x, nil
		},
		mkdir: vos.Mkdir, mkdirAll: vos.MkdirAll, remove: vos.Remove, rmAll: vos.RemoveAll, rename: vos.Rename,
		link: vos.Link, symlink: vos.Symlink, readlink: vos.Readlink, chmod: vos.Chmod, truncate: vos.Truncate,
		stat: vos.Stat, lstat: vos.Lstat, read: vos.ReadFile, write: vos.WriteFile, list: vos.IoutilReadDir,
		eval: vos.EvalSymlinks, walk: vos.Walk, same: vos.SameFile, flock: vos.SysFlock, nlink: nlinkOf,
		temp: func(d, p string) (file, error) {
			x, err := vos.TempFile(d, p)
			if err != nil {
				return nil, err
			}
			return x, nil
		},
	}
}

type op struct {
	name string
	run  func(s *osys, r string) string
}

func errs(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

func (s *osys) info(fi os.FileInfo, err error) string {
	if err != nil {
		return err.Error()
	}
	size := fi.Size()
	if !fi.Mode().IsRegular() {
		size = 0 // depends on the file system
	}
	return fmt.Sprintf("%s %v %d dir=%v", fi.Name(), fi.Mode(), size, fi.IsDir())
}

var names = []string{"a", "b", "d", "d/a", "l", "l/a", "a/x"}

func ops(full bool) []op {
	var l []op
	add := func(name string, run func(s *osys, r string) string) { l = append(l, op{name, run}) }
	for _, n := range []string{"d", "a", "l", "d/e", "a/x"} {
		n := n
		add("mkdir "+n, func(s *osys, r string) string { return errs(s.mkdir(r+"/"+n, 0755)) })
	}
	for _, n := range []string{"d/e", "l/e", "a/x"} {
		n := n
		add("mkdirall "+n, func(s *osys, r string) string { return errs(s.mkdirAll(r+"/"+n, 0755)) })
	}
	for _, n := range []string{"a", "d/a", "l", "l/a"} {
		n := n
		add("write "+n, func(s *osys, r string) string { return errs(s.write(r+"/"+n, []byte("data of "+n), 0644)) })
	}
	for _, n := range []string{"a", "l", "d"} {
		n := n
		add("create excl "+n, func(s *osys, r string) string {
			f, err := s.open(r+"/"+n, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
			if err == nil {
				f.Close()
			}
			return errs(err)
		})
	}
	add("append a", func(s *osys, r string) string {
		f, err := s.open(r+"/a", os.O_WRONLY|os.O_APPEND, 0)
		if err != nil {
			return err.Error()
		}
		n, err := f.WriteString("more")
		return fmt.Sprint(n, errs(err), errs(f.Close()))
	})
	for _, t := range [][2]string{{"a", "l"}, {"d", "l"}, {"l", "l"}, {"nothing", "l"}, {"../x/./a", "l"}, {"a", "d/l"}, {"a", "a"}} {
		t := t
		add("symlink "+t[0]+" "+t[1], func(s *osys, r string) string { return errs(s.symlink(t[0], r+"/"+t[1])) })
	}
	for _, t := range [][2]string{{"a", "b"}, {"l", "b"}, {"a", "d/a"}, {"d", "b"}, {"d/a", "a"}, {"a", "l/a"}} {
		t := t
		add("link "+t[0]+" "+t[1], func(s *osys, r string) string { return errs(s.link(r+"/"+t[0], r+"/"+t[1])) })
	}
	rn := [][2]string{{"a", "b"}, {"a", "d"}, {"a", "l"}, {"d", "a"}, {"d", "b"}, {"d", "d/e"}, {"d", "l"}, {"l", "a"}, {"l", "b"}, {"d/a", "a"}, {"a", "d/a"}, {"b", "a"}, {"b", "d"}, {"a", "a"}, {"l/a", "b"}, {"d/e", "d"}, {"d/e", "b"}}
	for _, t := range rn {
		t := t
		add("rename "+t[0]+" "+t[1], func(s *osys, r string) string { return errs(s.rename(r+"/"+t[0], r+"/"+t[1])) })
	}
	for _, n := range []string{"a", "b", "d", "d/a", "l", "l/a", "a/x"} {
		n := n
		add("remove "+n, func(s *osys, r string) string { return errs(s.remove(r + "/" + n)) })
	}
	for _, n := range []string{"a", "d", "l", "d/e", "a/x"} {
		n := n
		add("removeall "+n, func(s *osys, r string) string { return errs(s.rmAll(r + "/" + n)) })
	}
	for _, n := range []string{"a", "l", "d"} {
		n := n
		add("chmod "+n, func(s *osys, r string) string { return errs(s.chmod(r+"/"+n, 0711)) })
		add("truncate "+n, func(s *osys, r string) string { return errs(s.truncate(r+"/"+n, 3)) })
	}
	for i := range (&osys{}).h {
		i := i
		for _, n := range []string{"a", "d", "l"} {
			n := n
			for _, fl := range []int{os.O_RDONLY, os.O_RDWR | os.O_CREATE} {
				fl := fl
				if i == 1 && n != "a" {
					continue
				}
				add(fmt.Sprintf("h%d=open %s %d", i, n, fl), func(s *osys, r string) string {
					if s.h[i] != nil {
						return "in use"
					}
					f, err := s.open(r+"/"+n, fl, 0644)
					if err == nil {
						s.h[i] = f
					}
					return errs(err)
				})
			}
		}
		h := func(name string, run func(s *osys, f file) string) {
			add(fmt.Sprintf("h%d.%s", i, name), func(s *osys, r string) string {
				if s.h[i] == nil {
					return "not open"
				}
				return run(s, s.h[i])
			})
		}
		h("write", func(s *osys, f file) string { n, err := f.Write([]byte("written")); return fmt.Sprint(n, errs(err)) })
		h("read", func(s *osys, f file) string {
			b := make([]byte, 5)
			n, err := f.Read(b)
			if errors.Is(err, syscall.EINVAL) {
				// some file systems answer so for a directory read to its end
				var pe *os.PathError
				if errors.As(err, &pe) {
					pe.Err = syscall.EISDIR
				}
			}
			return fmt.Sprintf("%q %s", b[:n], errs(err))
		})
		h("seek", func(s *osys, f file) string {
			n, err := f.Seek(2, io.SeekStart)
			m, err2 := f.Seek(-1, io.SeekCurrent)
			return fmt.Sprint(n, errs(err), m, errs(err2))
		})
		h("lock", func(s *osys, f file) string { return errs(s.flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB)) })
		h("unlock", func(s *osys, f file) string { return errs(s.flock(int(f.Fd()), syscall.LOCK_UN)) })
		h("close", func(s *osys, f file) string { s.h[i] = nil; return errs(f.Close()) })
		if i == 0 {
			h("stat", func(s *osys, f file) string {
				fi, err := f.Stat()
				t := s.info(fi, err)
				if err == nil && !fi.IsDir() {
					t += fmt.Sprint(" nlink=", s.nlink(fi))
				}
				return t
			})
			h("sync", func(s *osys, f file) string { return errs(f.Sync()) })
			h("chmod", func(s *osys, f file) string { return errs(f.Chmod(0640)) })
			h("truncate", func(s *osys, f file) string { return errs(f.Truncate(2)) })
			h("names", func(s *osys, f file) string {
				l, err := f.Readdirnames(-1)
				sort.Strings(l)
				return fmt.Sprint(l, errs(err))
			})
		}
	}
	add("temp d", func(s *osys, r string) string {
		f, err := s.temp(r+"/d", "_tmp")
		if err != nil {
			return "error" // the text has the random name
		}
		fi, err := f.Stat()
		t := errs(err)
		if err == nil {
			t = fi.Mode().String()
		}
		ok := filepath.Dir(f.(interface{ Name() string }).Name()) == r+"/d"
		f.Close()
		return fmt.Sprint(t, ok, errs(s.remove(f.(interface{ Name() string }).Name())))
	})
	return l
}

// observe returns everything that can be seen.
func observe(s *osys, r string) string {
	var b strings.Builder
	for _, n := range names {
		p := r + "/" + n
		ls, err := s.lstat(p)
		fmt.Fprintf(&b, "%s: %s", n, s.info(ls, err))
		if err == nil && !ls.IsDir() {
			fmt.Fprintf(&b, " nlink=%d", s.nlink(ls))
		}
		st, err2 := s.stat(p)
		fmt.Fprintf(&b, " | %s | ", s.info(st, err2))
		if err == nil && err2 == nil {
			fmt.Fprintf(&b, "same=%v | ", s.same(ls, st))
		}
		d, err := s.read(p)
		fmt.Fprintf(&b, "%q %s | ", d, errs(err))
		t, err := s.readlink(p)
		fmt.Fprintf(&b, "%q %s | ", t, errs(err))
		t, err = s.eval(p)
		fmt.Fprintf(&b, "%q %s\n", t, errs(err))
	}
	for _, n := range []string{".", "d", "l", "a"} {
		l, err := s.list(r + "/" + n)
		fmt.Fprintf(&b, "%s lists", n)
		for _, fi := range l {
			fmt.Fprintf(&b, " (%s)", s.info(fi, nil))
		}
		fmt.Fprintln(&b, errs(err))
	}
	for _, n := range []string{"", "/l"} {
		s.walk(r+n, func(p string, fi os.FileInfo, err error) error {
			t := ""
			if fi != nil {
				t = s.info(fi, nil)
			}
			fmt.Fprintf(&b, "walk %s %s %s\n", p, t, errs(err))
			return nil
		})
	}
	return b.String()
}

func main() {
	depth := flag.Int("depth", 3, "operations per sequence")
	jobs := flag.Int("part", -1, "internal: run one share")
	of := flag.Int("of", 8, "processes")
	flag.Parse()
	l := ops(true)
	if *jobs < 0 {
		t := time.Now()
		fmt.Printf("%d operations, depth %d\n", len(l), *depth)
		var wg sync.WaitGroup
		bad := make([]bool, *of)
		for i := 0; i < *of; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				self, _ := os.Executable()
				pa := &os.ProcAttr{Files: []*os.File{nil, os.Stdout, os.Stderr}}
				p, err := os.StartProcess(self, []string{self, "-part", fmt.Sprint(i), "-of", fmt.Sprint(*of), "-depth", fmt.Sprint(*depth)}, pa)
				if err != nil {
					panic(err)
				}
				st, err := p.Wait()
				bad[i] = err != nil || !st.Success()
			}()
		}
		wg.Wait()
		for _, b := range bad {
			if b {
				os.Exit(1)
			}
		}
		fmt.Printf("no difference (%v)\n", time.Since(t).Round(time.Second))
		return
	}
	syscall.Umask(022)
	scratch, err := os.MkdirTemp("", "conform")
	if err != nil {
		panic(err)
	}
	rc := 0
	defer func() { os.RemoveAll(scratch); os.Exit(rc) }()
	r := scratch + "/x"
	diffs := 0
	count := 0
	// two starting points: an empty directory, and one with files
	starts := [][]string{nil, {"write a", "mkdir d", "write d/a", "symlink d l"}, {"write a", "link a b", "mkdir d", "mkdir d/e", "symlink a l"}}
	byName := map[string]op{}
	for _, o := range l {
		byName[o.name] = o
	}
	run := func(seq []op) bool {
		count++
		os.RemoveAll(r)
		if err := os.Mkdir(r, 0755); err != nil {
			panic(err)
		}
		vos.Cur = vos.NewFS()
		vos.Cur.PutDir(r)
		base := vos.Cur.Clone()
		vos.Cur.Log = nil
		a, b := real(), model()
		ok := true
		report := func(what, x, y string) {
			ok = false
			diffs++
			if diffs < 10 {
				var n []string
				for _, o := range seq {
					n = append(n, o.name)
				}
				fmt.Printf("%s\n  %s\n  os:    %s\n  model: %s\n", strings.Join(n, "; "), what, x, y)
			}
		}
		for _, o := range seq {
			x, y := o.run(a, r), o.run(b, r)
			if x != y {
				report(o.name, x, y)
				break
			}
		}
		if ok {
			x, y := strings.Split(observe(a, r), "\n"), strings.Split(observe(b, r), "\n")
			for i := range x {
				if i >= len(y) || x[i] != y[i] {
					report("in the end", x[i], y[i])
					break
				}
			}
		}
		for _, h := range append(a.h[:], b.h[:]...) {
			if h != nil {
				h.Close()
			}
		}
		if ok {
			c := vos.Build(base, vos.Cur.Log, vos.Image{Cut: len(vos.Cur.Log), Torn: -1})
			if x, y := vos.Cur.Tree(r), c.Tree(r); x != y {
				report("replay of the journal", x, y)
			}
		}
		return ok
	}
	var rec func(seq []op, d int)
	rec = func(seq []op, d int) {
		if !run(seq) || d == 0 {
			return
		}
		for _, o := range l {
			rec(append(seq[:len(seq):len(seq)], o), d-1)
		}
	}
	for _, st := range starts {
		var seq []op
		for _, n := range st {
			seq = append(seq, byName[n])
		}
		for i, o := range l {
			if i%*of == *jobs {
				rec(append(seq[:len(seq):len(seq)], o), *depth-1)
			}
		}
	}
	fmt.Printf("part %d: %d sequences, %d differences\n", *jobs, count, diffs)
	if diffs > 0 {
		rc = 1
	}
}
