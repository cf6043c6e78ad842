package props

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vsched"
)

// small is a repository with one plain and one compressed index.
func small(ver string, byhash bool) *rrepo {
	return &rrepo{suites: []rsuite{{
		dir: "dists/s", names: []string{"Release", "Release.gpg"}, byhash: byhash, note: "version " + ver,
		indices: []rindex{
			{rel: "main/binary-amd64/Packages", exts: []string{"", ".gz"}, items: []ritem{deb("m", "a", ver), deb("m", "keep", "0")}},
			{rel: "main/i18n/Translation-en"},
		},
	}}}
}

var smallSpec = &mspec{id: "m", suites: []string{"s"}, sections: []string{"main"}, archs: []string{"amd64"}}

type memoKey struct {
	id, ver string
	byhash  bool
}

var memo = map[memoKey]*mver{}

func smallVer(id, ver string, byhash bool) *mver {
	k := memoKey{id, ver, byhash}
	if memo[k] == nil {
		memo[k] = newVer(smallSpec, small(ver, byhash))
	}
	return memo[k]
}

// pubWatch checks at every change of the file system that each public name
// shows a complete known version, and that it never disappears.
type pubWatch struct {
	k     *mkit
	known map[string][]map[string]string // per id: the trees it may show
	seen  map[string]bool
	reach map[string]map[uint64]bool // inodes the last check of an id depended on
}

func (k *mkit) watch(known map[string][]map[string]string) *pubWatch {
	w := &pubWatch{k: k, known: known, seen: map[string]bool{}, reach: map[string]map[uint64]bool{}}
	for id := range known {
		w.seen[id] = k.fs.Node(mdir+"/"+id, false) != nil
	}
	k.fs.OnOp = func(o *vos.Op) {
		for id := range w.known {
			r := w.reach[id]
			if o.Kind != vos.OpFsync && (r == nil || r[o.Dir] || r[o.Dir2] || r[o.Ino] || r[o.Old]) {
				w.check(id, o)
				w.reach[id] = k.fs.Reach(mdir + "/" + id)
			}
		}
	}
	return w
}

// end checks everything once more.
func (w *pubWatch) end() {
	for id := range w.known {
		w.check(id, endOfRun{})
	}
}

func (w *pubWatch) check(id string, when fmt.Stringer) {
	n := w.k.fs.Node(mdir+"/"+id, false)
	if n == nil {
		if w.seen[id] {
			w.k.x.Failf("disappeared", "public name %s does not exist after %s", id, when)
		}
		return
	}
	w.seen[id] = true
	if msg := oneOf(treeOf(w.k.fs, id), w.known[id]); msg != "" {
		w.k.x.Failf("incomplete", "public name %s shows no complete version after %s: %s", id, when, msg)
	}
}

type endOfRun struct{}

func (endOfRun) String() string { return "the end of the run" }

func (w *pubWatch) stop() { w.k.fs.OnOp = nil }

func oneOf(got map[string]string, vers []map[string]string) string {
	best := ""
	for _, v := range vers {
		if sameTree(got, v) {
			return ""
		}
		d := diffTree(got, v)
		if best == "" || len(d) < len(best) {
			best = d
		}
	}
	if best == "" {
		best = "unexpected tree"
	}
	return best
}

// fsFault makes any one file system operation fail.
func (k *mkit) fsFault(ops string) {
	sticky := map[string]bool{}
	k.fs.Fault = func(op, p string) error {
		if ops != "" && !strings.Contains(ops, " "+op+" ") {
			return nil
		}
		n := 2
		if op == "write" {
			n = 3
		}
		if sticky[op+p] {
			return syscall.EIO
		}
		more := k.x.Sc.Quick.Fault == 1
		if more {
			n += 2
		}
		c := k.x.Fault(n, "fs fault: "+op+" "+p)
		switch {
		case c == 0:
		case c == 1:
			return syscall.EIO
		case more && c == n-1: // and whenever it is tried again
			sticky[op+p] = true
			return syscall.EIO
		case more && c == n-2:
			return syscall.EACCES
		default:
			return vos.ErrShort
		}
		return nil
	}
}

// Upstream fault modes of one file.
var badModes = []string{"", "404", "503", "refused", "corrupt", "short", "cut", "longer", "swap", "stale", "403"}

// pathFaults gives each path a persistent answer mode chosen at its first
// request.
func (k *mkit) pathFaults(modes []string, canonicalOnly bool, stale map[string]*mver) {
	mode := map[string]string{}
	// Nothing but its signature protects a Release file, and the program does
	// not check signatures: changed content is just another version there.
	var relModes, gpgModes []string
	for _, m := range modes {
		switch m {
		case "corrupt", "short", "longer", "swap", "stale", "403", "404":
		case "empty": // no Release file at all: an error
			relModes = append(relModes, m)
		default:
			relModes = append(relModes, m)
			gpgModes = append(gpgModes, m)
		}
	}
	k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
		if canonicalOnly && strings.Contains(p, "/by-hash/") {
			return
		}
		m, ok := mode[id+"/"+p]
		if !ok {
			ms := modes
			if isRelease(p) && !k.relFaults {
				ms = relModes
				if path.Base(p) != "Release" {
					ms = gpgModes
				}
			}
			m = ms[k.x.Fault(len(ms), "upstream "+p)]
			mode[id+"/"+p] = m
		}
		k.apply(m, id, p, rep, stale)
	}
}

func (k *mkit) apply(m, id, p string, rep *vhttp.Reply, stale map[string]*mver) {
	if rep.Status != 200 && m != "refused" && m != "503" {
		return
	}
	switch m {
	case "404":
		*rep = vhttp.Reply{Status: 404, Body: []byte("gone")}
	case "403":
		*rep = vhttp.Reply{Status: 403, Body: []byte("no")}
	case "503":
		*rep = vhttp.Reply{Status: 503, Body: []byte("busy")}
	case "refused":
		rep.Status = 0
	case "corrupt":
		b := append([]byte(nil), rep.Body...)
		if len(b) > 0 {
			b[len(b)/2] ^= 1
		}
		rep.Body = b
	case "short":
		rep.Body = rep.Body[:len(rep.Body)/2]
	case "empty":
		rep.Body = nil
	case "cut":
		rep.CutAt = len(rep.Body)/2 + 1
	case "longer":
		rep.Body = append(append([]byte(nil), rep.Body...), "\n\n"...)
	case "swap":
		// the content of another file
		v := k.cur[id]
		var ps []string
		for q := range v.files {
			if q != p {
				ps = append(ps, q)
			}
		}
		sort.Strings(ps)
		i := sort.SearchStrings(ps, p)
		rep.Body = v.files[ps[(i+1)%len(ps)]]
	case "stale":
		if s := stale[id]; s != nil {
			if b, ok := s.files[p]; ok {
				rep.Body = b
			} else {
				*rep = vhttp.Reply{Status: 404, Body: []byte("gone")}
			}
		}
	}
}

// verifyTree checks a published tree against its own Release files and
// indices with an independent reader.
func verifyTree(t map[string]string, sp *mspec) string {
	check := func(p string, size string, kind, sum string) string {
		b, ok := t[p]
		if !ok {
			return ""
		}
		if fmt.Sprint(len(b)) != size {
			return fmt.Sprintf("%s has %d bytes, declared %s", p, len(b), size)
		}
		if hexsum(kind, []byte(b)) != sum {
			return fmt.Sprintf("%s does not match its declared %s", p, kind)
		}
		return ""
	}
	var dirs []string
	for p := range t {
		if b := path.Base(p); b == "Release" || b == "InRelease" {
			dirs = append(dirs, p)
		}
	}
	sort.Strings(dirs)
	for _, p := range dirs {
		kind := ""
		for _, l := range strings.Split(t[p], "\n") {
			if strings.HasPrefix(l, " ") {
				f := strings.Fields(l)
				if kind != "" && len(f) == 3 {
					if path.Clean(f[2]) == "Release" || path.Clean(f[2]) == "InRelease" || path.Clean(f[2]) == "Release.gpg" {
						continue
					}
					if m := check(path.Join(path.Dir(p), f[2]), f[1], kind, f[0]); m != "" {
						return p + ": " + m
					}
				}
				continue
			}
			kind = ""
			for _, k := range allSums {
				if l == k+":" {
					kind = k
				}
			}
		}
	}
	for p, b := range t {
		if i := strings.Index(p, "/by-hash/"); i >= 0 {
			f := strings.Split(p[i+len("/by-hash/"):], "/")
			if len(f) != 2 || hexsum(f[0], []byte(b)) != f[1] {
				return "by-hash name " + p + " holds other data"
			}
			continue
		}
		if path.Base(p) != "Packages" {
			continue
		}
		for _, st := range strings.Split(b, "\n\n") {
			v := map[string]string{}
			for _, l := range strings.Split(st, "\n") {
				if i := strings.Index(l, ": "); i > 0 {
					v[l[:i]] = l[i+2:]
				}
			}
			if v["Filename"] == "" {
				continue
			}
			for _, k := range []string{"MD5sum", "SHA1", "SHA256"} {
				if v[k] == "" {
					continue
				}
				if m := check(path.Clean(v["Filename"]), v["Size"], k, v[k]); m != "" {
					return p + ": " + m
				}
			}
			if _, ok := t[path.Clean(v["Filename"])]; !ok && sp.selected(nil, strings.TrimPrefix(p, "dists/s/")) {
				return p + " lists " + v["Filename"] + " which is missing"
			}
		}
	}
	return ""
}

// orders explores the iteration orders the runtime leaves open.
func worldFor(x *explore.X, mask int) *vsched.World {
	return &vsched.World{Mask: mask, MapDesc: x.Flag("map order")}
}

const netMask = vsched.CatSync | vsched.CatChan | vsched.CatHTTP | vsched.CatGo

var _ = time.Second

func isRelease(p string) bool {
	return strings.HasPrefix(path.Base(p), "Release") || strings.HasPrefix(path.Base(p), "InRelease")
}

// idPathMode gives one file of a mirror a persistent bad mode.
func (k *mkit) idPathMode(id, path, mode string) {
	prev := k.fault
	k.fault = func(i, p string, r *vhttp.Request, rep *vhttp.Reply) {
		if i == id && p == path {
			k.apply(mode, i, p, rep, nil)
		}
		if prev != nil {
			prev(i, p, r, rep)
		}
	}
}
