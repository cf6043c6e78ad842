package vos

import (
	"fmt"
	"os"
)

// Image describes one state of the disk after a crash: the operations of
// log[:Cut] without those in Drop; writes in Torn keep half of their data.
type Image struct {
	Cut  int
	Drop []int
	Torn int // index of a torn write, -1 if none
	Kind string
}

func (im Image) String() string {
	return fmt.Sprintf("%s cut=%d drop=%v torn=%d", im.Kind, im.Cut, im.Drop, im.Torn)
}

// Describe renders an image with the operations around the cut.
func (im Image) Describe(log []Op) string {
	s := im.String()
	if im.Cut > 0 && im.Cut <= len(log) {
		s += "; last op: " + log[im.Cut-1].String()
	}
	for i, d := range im.Drop {
		if i >= 6 {
			s += " ..."
			break
		}
		s += "; lost: " + log[d].String()
	}
	if im.Torn >= 0 {
		s += "; torn: " + log[im.Torn].String()
	}
	return s
}

func mutates(k OpKind) bool { return k != OpFsync && k != OpMark && k != OpSyncAll }

// unsynced returns the operations of log[:cut] that no later fsync covers.
func unsynced(log []Op, cut int) []int {
	dirSynced := map[uint64]bool{}
	all := false
	var u []int
	for i := cut - 1; i >= 0; i-- {
		o := &log[i]
		switch o.Kind {
		case OpFsync:
			dirSynced[o.Ino] = true
		case OpSyncAll:
			all = true
		case OpMark:
		case OpWrite, OpTruncate, OpChmod:
			if !all && !dirSynced[o.Ino] {
				u = append(u, i)
			}
		case OpRename:
			if !all && !(dirSynced[o.Dir] && dirSynced[o.Dir2]) {
				u = append(u, i)
			}
		default:
			if !all && !dirSynced[o.Dir] {
				u = append(u, i)
			}
		}
	}
	// oldest first
	for i, j := 0, len(u)-1; i < j; i, j = i+1, j-1 {
		u[i], u[j] = u[j], u[i]
	}
	return u
}

func without(u []int, keep int) []int {
	r := make([]int, 0, len(u))
	for _, x := range u {
		if x != keep {
			r = append(r, x)
		}
	}
	return r
}

// Lite is the level with process crashes and losses of everything unsynced.
const Lite = -1

// Images enumerates the crash images of log.  level 0: process crashes only
// (every prefix); level 1: power loss: everything unsynced lost, each single
// unsynced operation lost, each single one kept, every ordered prefix of the
// unsynced ones, and each unsynced write torn; level 2: also every pair lost.
func Images(log []Op, level int) []Image {
	var r []Image
	for cut := 0; cut <= len(log); cut++ {
		if cut > 0 && !mutates(log[cut-1].Kind) {
			continue // same images as before, or a subset of them
		}
		r = append(r, Image{Cut: cut, Torn: -1, Kind: "crash"})
		if level == 0 {
			continue
		}
		r = append(r, powerImages(log, cut, level)...)
	}
	return r
}

// ImagesAt enumerates the images for one cut.
func ImagesAt(log []Op, cut, level int) []Image {
	r := []Image{{Cut: cut, Torn: -1, Kind: "crash"}}
	if level != 0 {
		r = append(r, powerImages(log, cut, level)...)
	}
	return r
}

func powerImages(log []Op, cut, level int) (r []Image) {
	u := unsynced(log, cut)
	if len(u) == 0 {
		return
	}
	r = append(r, Image{Cut: cut, Drop: u, Torn: -1, Kind: "power:all-lost"})
	if level == Lite {
		return
	}
	if len(u) > 1 {
		for _, x := range u {
			r = append(r, Image{Cut: cut, Drop: []int{x}, Torn: -1, Kind: "power:one-lost"})
			r = append(r, Image{Cut: cut, Drop: without(u, x), Torn: -1, Kind: "power:one-kept"})
		}
		for i := 2; i < len(u)-1; i++ {
			r = append(r, Image{Cut: cut, Drop: u[i:], Torn: -1, Kind: "power:prefix"})
		}
	}
	for _, x := range u {
		if log[x].Kind == OpWrite && len(log[x].Data) > 1 {
			r = append(r, Image{Cut: cut, Torn: x, Kind: "power:torn"})
		}
	}
	if level >= 2 {
		for i := range u {
			for j := i + 1; j < len(u); j++ {
				r = append(r, Image{Cut: cut, Drop: []int{u[i], u[j]}, Torn: -1, Kind: "power:two-lost"})
			}
		}
	}
	return
}

// Build makes the file system of an image: base is the state at the start of
// the journal.
func Build(base *FS, log []Op, im Image) *FS {
	f := base.Clone()
	f.NoLog = true
	f.tmpSeq = base.tmpSeq + 1000
	tab := map[uint64]*Inode{}
	var collect func(n *Inode)
	collect = func(n *Inode) {
		if tab[n.Ino] != nil {
			return
		}
		tab[n.Ino] = n
		for _, e := range n.ents {
			collect(e.ino)
		}
	}
	collect(f.Root)
	drop := map[int]bool{}
	for _, d := range im.Drop {
		drop[d] = true
	}
	maxIno := f.nextIno
	for i := 0; i < im.Cut; i++ {
		o := &log[i]
		if o.Ino >= maxIno {
			maxIno = o.Ino + 1
		}
		// inodes exist even when their directory entry is lost
		switch o.Kind {
		case OpCreate:
			tab[o.Ino] = &Inode{Ino: o.Ino, Mode: o.Mode, nlink: 1, mtime: o.T}
		case OpMkdir:
			tab[o.Ino] = &Inode{Ino: o.Ino, Mode: os.ModeDir | o.Mode, nlink: 2, mtime: o.T}
		case OpSymlink:
			tab[o.Ino] = &Inode{Ino: o.Ino, Mode: os.ModeSymlink | 0777, target: o.Target, nlink: 1, mtime: o.T}
		}
		if o.T.After(f.last) {
			f.last = o.T
		}
		if drop[i] {
			continue
		}
		d := tab[o.Dir]
		n := tab[o.Ino]
		switch o.Kind {
		case OpCreate, OpMkdir, OpSymlink, OpLink:
			d.set(o.Name, n)
			if o.Kind == OpLink {
				n.nlink++
			}
		case OpUnlink, OpRmdir:
			if d.get(o.Name) != nil && d.get(o.Name).Ino == o.Old {
				d.del(o.Name)
			}
		case OpRename:
			s := tab[o.Dir2]
			if c := s.get(o.Name2); c != nil && c.Ino == o.Ino {
				s.del(o.Name2)
			}
			d.set(o.Name, n)
		case OpWrite:
			data := o.Data
			if i == im.Torn {
				data = data[:len(data)/2]
			}
			end := o.Off + int64(len(data))
			nd := make([]byte, max64(int64(len(n.data)), end))
			copy(nd, n.data)
			copy(nd[o.Off:], data)
			n.data = nd
			n.mtime = o.T
			if end > n.size {
				n.size = end
			}
		case OpTruncate:
			if int64(len(n.data)) > o.Size {
				n.data = n.data[:o.Size:o.Size]
			}
			n.size = o.Size
		case OpChmod:
			n.Mode = o.Mode
		}
	}
	f.nextIno = maxIno
	f.NoLog = false
	return f
}
