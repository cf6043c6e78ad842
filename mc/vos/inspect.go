package vos

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"unsafe"
)

// Inspection helpers for harnesses: they do not pass scheduling points, are
// not journalled and follow no fault hook.

// Node returns the inode at p, nil if there is none.
func (f *FS) Node(p string, follow bool) *Inode {
	_, _, n, err := f.walk(p, follow)
	if err != nil {
		return nil
	}
	return n
}

// Bytes returns the content.
func (n *Inode) Bytes() []byte { return n.bytes() }

// Size returns the size.
func (n *Inode) Size() int64 { return n.size }

// Target returns the target of a symlink.
func (n *Inode) Target() string { return n.target }

// IsDir reports whether n is a directory.
func (n *Inode) IsDir() bool { return n.isDir() }

// IsLink reports whether n is a symlink.
func (n *Inode) IsLink() bool { return n.isLink() }

// Nlink returns the link count.
func (n *Inode) Nlink() int { return n.nlink }

// Names returns the entries of a directory.
func (n *Inode) Names() []string {
	var l []string
	for _, e := range n.ents {
		l = append(l, e.name)
	}
	return l
}

// Read returns the content of a file and whether it is a regular file.
func (f *FS) Read(p string) ([]byte, bool) {
	n := f.Node(p, true)
	if n == nil || !n.Mode.IsRegular() {
		return nil, false
	}
	return n.bytes(), true
}

// Put makes a file with all its parents (set-up only).
func (f *FS) Put(p string, data []byte) {
	f.PutDir(path.Dir(p))
	dir, name, n, err := f.walk(p, true)
	if err != nil {
		panic(err)
	}
	if n == nil {
		n = f.alloc(0644)
		dir.set(name, n)
	}
	n.data = append([]byte(nil), data...)
	n.size = int64(len(data))
}

// PutSparse makes a file of the given size without data.
func (f *FS) PutSparse(p string, size int64) {
	f.Put(p, nil)
	f.Node(p, true).size = size
}

// PutDir makes a directory with all its parents (set-up only).
func (f *FS) PutDir(p string) {
	if p == "/" || p == "." || p == "" {
		return
	}
	if f.Node(p, true) != nil {
		return
	}
	f.PutDir(path.Dir(p))
	dir, name, n, err := f.walk(p, false)
	if err != nil {
		panic(err)
	}
	if n == nil {
		n = f.alloc(os.ModeDir | 0755)
		n.nlink = 2
		dir.set(name, n)
	}
}

// PutLink makes a symlink (set-up only).
func (f *FS) PutLink(p, target string) {
	f.PutDir(path.Dir(p))
	dir, name, _, err := f.walk(p, false)
	if err != nil {
		panic(err)
	}
	n := f.alloc(os.ModeSymlink | 0777)
	n.target = target
	dir.set(name, n)
}

// Files returns the regular files below root (symlinks are not followed except
// root itself) as path relative to root -> content.
func (f *FS) Files(root string) map[string]string {
	m := map[string]string{}
	n := f.Node(root, true)
	if n == nil {
		return nil
	}
	var rec func(n *Inode, rel string)
	rec = func(n *Inode, rel string) {
		switch {
		case n.isDir():
			for _, e := range n.ents {
				rec(e.ino, path.Join(rel, e.name))
			}
		case n.isLink():
			m[rel] = "-> " + n.target
		default:
			m[rel] = string(n.bytes())
		}
	}
	rec(n, "")
	return m
}

// Tree renders everything below root, for messages and state comparison.
// Symlinks show their targets; content is shown for small files.
func (f *FS) Tree(root string) string {
	var l []string
	n := f.Node(root, false)
	if n == nil {
		return "(none)"
	}
	var rec func(n *Inode, rel string)
	rec = func(n *Inode, rel string) {
		switch {
		case n.isDir():
			l = append(l, rel+"/")
			for _, e := range n.ents {
				rec(e.ino, path.Join(rel, e.name))
			}
		case n.isLink():
			l = append(l, rel+" -> "+n.target)
		default:
			c := n.bytes()
			if len(c) > 40 {
				c = append(append([]byte{}, c[:37]...), "..."...)
			}
			l = append(l, fmt.Sprintf("%s [%d] %q", rel, n.size, c))
		}
	}
	rec(n, root)
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Hash identifies the contents of the file system: names, types, modes, link
// structure and data.
func (f *FS) Hash() uint64 {
	h := uint64(14695981039346656037)
	num := map[uint64]int{}
	u := func(v uint64) {
		h = (h ^ v) * 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	b := func(d string) {
		u(uint64(len(d)))
		for len(d) >= 8 {
			u(uint64(d[0]) | uint64(d[1])<<8 | uint64(d[2])<<16 | uint64(d[3])<<24 |
				uint64(d[4])<<32 | uint64(d[5])<<40 | uint64(d[6])<<48 | uint64(d[7])<<56)
			d = d[8:]
		}
		for i := 0; i < len(d); i++ {
			u(uint64(d[i]))
		}
	}
	var rec func(n *Inode)
	rec = func(n *Inode) {
		k, ok := num[n.Ino]
		if !ok {
			k = len(num)
			num[n.Ino] = k
		}
		u(uint64(k))
		if ok {
			return
		}
		u(uint64(n.Mode))
		u(uint64(n.size))
		switch {
		case n.isDir():
			for _, e := range n.ents {
				b(e.name)
				rec(e.ino)
			}
			u(1)
		case n.isLink():
			b(n.target)
		default:
			b(unsafe.String(unsafe.SliceData(n.data), len(n.data)))
		}
	}
	rec(f.Root)
	return h
}

// Reach returns the inodes that what p shows depends on: the directories on
// the way (through symlinks) and everything below.
func (f *FS) Reach(p string) map[uint64]bool {
	m := map[uint64]bool{}
	var way func(p string, depth int)
	way = func(p string, depth int) {
		if depth > 10 {
			return
		}
		for q := p; ; q = path.Dir(q) {
			n := f.Node(q, false)
			if n != nil {
				m[n.Ino] = true
				if n.isLink() {
					t := n.target
					if !strings.HasPrefix(t, "/") {
						t = path.Join(path.Dir(q), t)
					}
					way(t, depth+1)
				}
			}
			if q == "/" || q == "." {
				return
			}
		}
	}
	way(p, 0)
	var below func(n *Inode)
	below = func(n *Inode) {
		m[n.Ino] = true
		for _, e := range n.ents {
			below(e.ino)
		}
	}
	if n := f.Node(p, true); n != nil {
		below(n)
	}
	return m
}

// Del takes a file away (set-up only).
func (f *FS) Del(p string) {
	dir, name, n, err := f.walk(p, false)
	if err == nil && n != nil {
		dir.del(name)
	}
}
