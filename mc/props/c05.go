package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"

	"github.com/cybozu-go/aptutil/apt"
	"github.com/cybozu-go/aptutil/cacher"
	"vmc/explore"
	"vmc/vos"
	"vmc/vsched"
)

var storageAssume = []string{"nobody else writes to the cache directory",
	"the order in which items found on disk at load time were used is not known: any order of them is accepted"}

func init() {
	register("C05", "model_checking", storageAssume,
		&explore.Scenario{
			Name: "lru", Doc: "every sequence of 6 (thorough 7) operations (insert, lookup, delete, reload) on four items of one size against a reference LRU; capacities 1, 2, 3 items and unlimited",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 4, Run: c05lru,
		},
		&explore.Scenario{
			Name: "sizes", Doc: "every sequence of 4 (thorough 5) operations on three items with sizes 0 to 5, overwritten with other sizes, capacities 0, 1, 4, 5",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: c05sizes,
		},
		&explore.Scenario{
			Name: "lookup", Doc: "every record (size, each checksum absent, right or wrong) looked up against an item that was inserted, overwritten, or found on disk (once or loaded twice), in every order of two lookups",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c05lookup,
		},
		&explore.Scenario{
			Name: "paths", Doc: "odd paths (absolute, not clean, leaving the directory, odd characters, nested) for insert: refused without any change, or stored under exactly that name",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c05paths,
		},
		&explore.Scenario{
			Name: "heap", Doc: "12 (thorough 30) items, every pair of uses or deletions, then evictions one by one",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: c05heap,
		},
	)
}

const sdir = "/srv/cache"

// litem is an item of the reference LRU cache.
type litem struct {
	path, body string
	rank       int // time of the last use; equal for items loaded together
}

// smodel is the reference cache.
type smodel struct {
	cap   int
	items []litem
	clock int
}

func (m *smodel) clone() *smodel {
	n := *m
	n.items = append([]litem(nil), m.items...)
	return &n
}

func (m *smodel) find(p string) int {
	for i := range m.items {
		if m.items[i].path == p {
			return i
		}
	}
	return -1
}

func (m *smodel) del(p string) {
	if i := m.find(p); i >= 0 {
		m.items = append(m.items[:i:i], m.items[i+1:]...)
	}
}

func (m *smodel) put(p, body string) {
	m.del(p)
	m.clock++
	m.items = append(m.items, litem{p, body, m.clock})
}

func (m *smodel) use(p string) {
	if i := m.find(p); i >= 0 {
		m.clock++
		m.items[i].rank = m.clock
	}
}

func (m *smodel) total() int {
	n := 0
	for _, i := range m.items {
		n += len(i.body)
	}
	return n
}

// kept decides whether keeping exactly the items has is what LRU does with
// the items of m, and makes it the new state.
func (m *smodel) kept(has map[string]bool) string {
	var keep, out []litem
	used := 0
	for _, i := range m.items {
		if has[i.path] {
			keep = append(keep, i)
			used += len(i.body)
		} else {
			out = append(out, i)
		}
	}
	if len(keep) != len(has) {
		return fmt.Sprintf("listed %v, but only %v can be there", keys(has), paths(m.items))
	}
	if m.cap > 0 && used > m.cap {
		return fmt.Sprintf("%v have %d bytes, capacity %d", paths(keep), used, m.cap)
	}
	if len(out) > 0 {
		if m.cap == 0 || m.total() <= m.cap {
			return fmt.Sprintf("%v evicted although there is room (%d of %d bytes)", paths(out), m.total(), m.cap)
		}
		last := 0
		for _, o := range out {
			if o.rank > last {
				last = o.rank
			}
			for _, k := range keep {
				if o.rank > k.rank {
					return fmt.Sprintf("%s evicted although %s was used less recently", o.path, k.path)
				}
			}
		}
		needed := false
		for _, o := range out {
			if o.rank == last && used+len(o.body) > m.cap {
				needed = true
			}
		}
		if !needed {
			return fmt.Sprintf("%v evicted, more than needed (%d of %d bytes used)", paths(out), used, m.cap)
		}
	}
	m.items = keep
	return ""
}

func keys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func paths(l []litem) []string {
	var r []string
	for _, i := range l {
		r = append(r, i.path)
	}
	sort.Strings(r)
	return r
}

// skit drives a Storage next to the reference.
type skit struct {
	x   *explore.X
	fs  *vos.FS
	cm  *cacher.Storage
	m   *smodel
	dir string
	ops []string
}

func newSkit(x *explore.X, capacity int) *skit {
	k := &skit{x: x, fs: vos.Cur, m: &smodel{cap: capacity}, dir: sdir}
	k.cm = cacher.NewStorage(sdir, uint64(capacity))
	return k
}

func (k *skit) failf(key, f string, a ...interface{}) {
	k.x.Failf(key, "after %s: %s", strings.Join(k.ops, ", "), fmt.Sprintf(f, a...))
}

// doInsert inserts as the cacher does.
func doInsert(cm *cacher.Storage, p, body string) (*apt.FileInfo, error) {
	f, err := cm.TempFile()
	if err != nil {
		return nil, err
	}
	defer func() {
		f.Close()
		vos.Remove(f.Name())
	}()
	fi, err := apt.CopyWithFileInfo(f, strings.NewReader(body), p)
	if err != nil {
		return nil, err
	}
	return fi, cm.Insert(f.Name(), fi)
}

func infoOf(p, body string) *apt.FileInfo {
	var w bytes.Buffer
	fi, err := apt.CopyWithFileInfo(&w, strings.NewReader(body), p)
	if err != nil {
		panic(err)
	}
	return fi
}

func (k *skit) insert(p, body string) {
	k.ops = append(k.ops, fmt.Sprintf("insert %s %q", p, body))
	_, err := doInsert(k.cm, p, body)
	k.x.Step()
	if err != nil {
		k.failf("insert", "%v", err)
		return
	}
	k.m.put(p, body)
	k.check()
}

// lookup looks for body at p.
func (k *skit) lookup(p, body string) {
	k.ops = append(k.ops, fmt.Sprintf("lookup %s %q", p, body))
	k.look(infoOf(p, body), body)
}

func (k *skit) look(fi *apt.FileInfo, body string) {
	f, err := k.cm.Lookup(fi)
	k.x.Step()
	i := k.m.find(fi.Path())
	hit := i >= 0 && k.m.items[i].body == body
	switch {
	case hit && err != nil:
		k.failf("lookup", "%v", err)
	case !hit && err == nil:
		k.failf("lookup", "found although no such item is cached")
	case !hit && err != cacher.ErrNotFound:
		k.failf("lookup", "%v instead of not found", err)
	case hit:
		if b := readAll(f); b != body {
			k.failf("lookup", "the file has %q", b)
		}
		k.m.use(fi.Path())
	}
	if f != nil {
		f.Close()
	}
	k.check()
}

func readAll(r io.Reader) string {
	b, err := io.ReadAll(r)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

func (k *skit) del(p string) {
	k.ops = append(k.ops, "delete "+p)
	err := k.cm.Delete(p)
	k.x.Step()
	if err != nil {
		k.failf("delete", "%v", err)
	}
	k.m.del(p)
	k.check()
}

// reload loads the directory, into a new Storage or again.
func (k *skit) reload(fresh bool) {
	k.ops = append(k.ops, fmt.Sprintf("load (new %v)", fresh))
	if fresh {
		k.cm = cacher.NewStorage(k.dir, uint64(k.m.cap))
		k.m.clock++
		for i := range k.m.items {
			k.m.items[i].rank = k.m.clock
		}
		// an interrupted insert leaves its temporary file behind
		if f, err := k.cm.TempFile(); err == nil {
			f.Write([]byte("left over"))
			f.Close()
		}
	}
	err := k.cm.Load()
	k.x.Step()
	if err != nil {
		k.failf("load", "%v", err)
	}
	k.check()
}

// check compares listing and files with the reference.
func (k *skit) check() {
	if k.x.Failed() {
		return
	}
	has := map[string]bool{}
	for _, fi := range k.cm.ListAll() {
		if has[fi.Path()] {
			k.failf("listing", "%s is listed twice", fi.Path())
		}
		has[fi.Path()] = true
	}
	if m := k.m.kept(has); m != "" {
		k.failf("lru", "%s", m)
		return
	}
	for _, fi := range k.cm.ListAll() {
		if i := k.m.find(fi.Path()); uint64(len(k.m.items[i].body)) != fi.Size() {
			k.failf("listing", "%s is listed with %d bytes instead of %d", fi.Path(), fi.Size(), len(k.m.items[i].body))
		}
	}
	if n := k.cm.Len(); n != len(k.m.items) {
		k.failf("listing", "Len is %d, %d items are listed", n, len(k.m.items))
	}
	want := map[string]string{}
	for _, i := range k.m.items {
		want[i.path] = i.body
	}
	if d := diffTree(cacheFiles(k.fs, k.dir), want); d != "" {
		k.failf("files", "files on disk: %s", d)
	}
}

// cacheFiles returns the stored items found in dir; file names are the
// paths plus a common suffix.
func cacheFiles(fs *vos.FS, dir string) map[string]string {
	m := map[string]string{}
	for p, b := range fs.Files(dir) {
		if strings.HasSuffix(p, cacheSuffix()) {
			m[strings.TrimSuffix(p, cacheSuffix())] = b
		}
	}
	return m
}

var suffixOnce string

// cacheSuffix finds out how cache files are named.
func cacheSuffix() string {
	if suffixOnce != "" {
		return suffixOnce
	}
	old := vos.Cur
	defer func() { vos.Cur = old }()
	vos.Cur = vos.NewFS()
	vos.Cur.PutDir("/probe")
	cm := cacher.NewStorage("/probe", 0)
	if _, err := doInsert(cm, "name", "x"); err != nil {
		panic(err)
	}
	for p := range vos.Cur.Files("/probe") {
		if strings.HasPrefix(p, "name") {
			suffixOnce = p[4:]
		}
	}
	if suffixOnce == "" {
		panic("cache files are not named after their items")
	}
	return suffixOnce
}

func c05lru(x *explore.X) {
	capacity := x.Free(4, "capacity")
	k := newSkit(x, capacity)
	depth := 6
	if x.Deep {
		depth = 7
	}
	ps := []string{"a", "d/b", "d/c", "e"}
	for i := 0; i < depth && !x.Failed(); i++ {
		// paths are symmetric: a new one is used only after the others
		n := 1
		for _, p := range ps[:3] {
			for _, o := range k.ops {
				if strings.Contains(o, " "+p+" ") || strings.HasSuffix(o, " "+p) {
					n++
					break
				}
			}
		}
		c := x.Free(3*n+2, "operation")
		p := ps[c%n]
		switch {
		case c < n:
			k.insert(p, p[len(p)-1:])
		case c < 2*n:
			k.lookup(p, p[len(p)-1:])
		case c < 3*n:
			k.del(p)
		default:
			k.reload(c == 3*n)
		}
	}
	x.Outcome("cap %d items %d", capacity, len(k.m.items))
}

func c05sizes(x *explore.X) {
	capacity := []int{0, 1, 4, 5}[x.Free(4, "capacity")]
	k := newSkit(x, capacity)
	depth := 4
	if x.Deep {
		depth = 5
	}
	ps := []string{"a", "d/b", "d/c"}
	body := func(p string, n int) string { return strings.Repeat(p[len(p)-1:], n) }
	for i := 0; i < depth && !x.Failed(); i++ {
		p := ps[x.Free(3, "item")]
		cur := ""
		if j := k.m.find(p); j >= 0 {
			cur = k.m.items[j].body
		}
		switch c := x.Free(9, "operation"); c {
		case 6:
			k.lookup(p, cur)
		case 7:
			k.del(p)
		case 8:
			k.reload(p == "a")
		default:
			k.insert(p, body(p, c))
		}
	}
	x.Outcome("cap %d items %d", capacity, len(k.m.items))
}

func c05lookup(x *explore.X) {
	k := newSkit(x, 100)
	const body = "item data"
	switch x.Free(5, "how it got there") {
	case 0:
		k.insert("d/i", body)
	case 1:
		k.insert("d/i", "older")
		k.insert("d/i", body)
	case 2:
		k.insert("d/i", body)
		k.reload(true)
	case 3:
		k.insert("d/i", body)
		k.reload(true)
		k.reload(false)
	case 4:
		k.insert("d/i", "older")
		k.reload(true)
		k.insert("d/i", body)
	}
	k.insert("d/other", "other")
	for n := 0; n < 2; n++ {
		size := uint64(len(body))
		right := true
		if x.Free(2, "size") == 1 {
			size++
			right = false
		}
		sums := map[string]string{}
		for _, s := range allSums {
			switch x.Free(3, s) {
			case 1:
				sums[s] = hexsum(s, []byte(body))
			case 2:
				sums[s] = hexsum(s, []byte("wrong"))
				right = false
			}
		}
		fi := record("d/i", size, sums)
		k.ops = append(k.ops, fmt.Sprintf("lookup d/i %d %v", size, sums))
		if right {
			k.look(fi, body)
		} else {
			k.look(fi, "\x00")
		}
		if x.Failed() {
			return
		}
	}
	k.look(infoOf("d/i", body), body)
	x.Outcome("ok")
}

func c05paths(x *explore.X) {
	bad := []string{"/abs", "/", "", ".", "..", "../x", "../../x", "../cache2/x", "./x", "x/", "x//y", "x/../y", "x/./y", "//x", "a/../../x", "..//x", "x/..", "/../x", "../" + "cache/x"}
	good := []string{"x", "...", "..x", "..x/y", ".x", "x/y/z", "x y", "x:y", "x%2Fy", "é", "a.cache", "a+b~1", "-x", "x..", "x/..y", "_tmp1", "_tmp1/x"}
	c := x.Free(len(bad)+len(good), "path")
	k := newSkit(x, []int{0, 10}[x.Free(2, "capacity")])
	vos.Cur.Put("/srv/cache2/x.cache", []byte("other"))
	vos.Cur.Put("/srv/x.cache", []byte("other"))
	k.insert("a", "1")
	if x.Flag("reload") {
		k.reload(true)
	}
	if c >= len(bad) {
		p := good[c-len(bad)]
		k.insert(p, "22")
		k.lookup(p, "22")
		k.insert(p, "33")
		k.reload(true)
		k.lookup(p, "33")
		k.del(p)
		k.lookup(p, "33")
		x.Outcome("good")
		return
	}
	p := bad[c]
	before := vos.Cur.Tree("/")
	_, err := doInsert(k.cm, p, "22")
	x.Step()
	k.ops = append(k.ops, fmt.Sprintf("insert %q", p))
	if err == nil {
		k.failf("accepted", "path %q is accepted", p)
	}
	if after := vos.Cur.Tree("/"); after != before {
		k.failf("changed", "a refused insert changed files: %s", firstDiff(before, after))
	}
	k.check()
	if f, err := k.cm.Lookup(infoOf(p, "22")); err == nil {
		f.Close()
		k.failf("leak", "lookup of %q succeeds", p)
	}
	if err := k.cm.Delete(p); err != nil && !os.IsNotExist(err) {
		k.failf("delete", "%v", err)
	}
	if after := vos.Cur.Tree("/"); after != before {
		k.failf("changed", "deleting %q changed files: %s", p, firstDiff(before, after))
	}
	x.Outcome("bad")
}

func firstDiff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range bl {
		if i >= len(al) || al[i] != bl[i] {
			o := ""
			if i < len(al) {
				o = al[i]
			}
			return fmt.Sprintf("%q instead of %q", bl[i], o)
		}
	}
	return fmt.Sprintf("%d lines instead of %d", len(bl), len(al))
}

func c05heap(x *explore.X) {
	n := 12
	if x.Deep {
		n = 30
	}
	k := newSkit(x, n)
	name := func(i int) string { return fmt.Sprintf("d%d/f%d", i%3, i) }
	for i := 0; i < n; i++ {
		k.insert(name(i), "x")
	}
	if x.Flag("reload") {
		k.reload(true)
	}
	for i := 0; i < 2; i++ {
		p := name(x.Free(n, "item"))
		switch x.Free(3, "operation") {
		case 0:
			k.lookup(p, "x")
		case 1:
			k.del(p)
		case 2:
			k.insert(p, "x")
		}
	}
	for i := 0; i < n && !x.Failed(); i++ {
		k.insert(fmt.Sprintf("new/%d", i), "y")
	}
	x.Outcome("ok")
}
