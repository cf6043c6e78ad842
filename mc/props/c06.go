package props

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/cybozu-go/aptutil/apt"
	"github.com/cybozu-go/aptutil/cacher"
	"vmc/explore"
	"vmc/vos"
	"vmc/vsched"
	"vmc/vsync"
)

func init() {
	assume := append([]string{"results are compared with those of all orders of the calls that are consistent with real time, on a reference LRU cache; temporary files are not removed while Load runs"}, storageAssume...)
	m := vsched.CatSync | vsched.CatFS | vsched.CatGo
	s := func(n int) explore.Bounds { return explore.Bounds{Sched: n, Total: n} }
	register("C06", "model_checking", assume,
		&explore.Scenario{
			Name: "two", Doc: "two goroutines, two calls each, from insert (new, overwrite, evicting), lookup (hit, miss, other version), delete, list, load; every pair of programs under every interleaving within the bound",
			Quick: s(3), Deep: s(5), Mask: m, Weight: 4, NoPrio: true, Run: func(x *explore.X) { c06run(x, 2, 2) },
		},
		&explore.Scenario{
			Name: "three", Doc: "three goroutines, one call each",
			Quick: s(4), Deep: s(6), Mask: m, Weight: 2, Run: func(x *explore.X) { c06run(x, 3, 1) },
		},
		&explore.Scenario{
			Name: "large", Doc: "one call each of two goroutines with items of several sizes, evictions of several items at once",
			Quick: s(6), Deep: s(9), Mask: m | vsched.CatIO, Weight: 2, NoPrio: true, Run: c06large,
		},
		&explore.Scenario{
			Name: "fresh", Doc: "two goroutines, one or two calls each, on a directory with items that is loaded by one of the calls or just before, so that checksums are not known yet",
			Quick: s(4), Deep: s(6), Mask: m | vsched.CatIO, Weight: 2, NoPrio: true, Run: c06fresh,
		},
		&explore.Scenario{
			Name: "race", Doc: "the programs of three and fresh under the race detector",
			Quick: s(1), Deep: s(2), Mask: m, Weight: 2, Race: true, NoPrio: true, Run: func(x *explore.X) {
				if x.Free(2, "kind") == 0 {
					c06run(x, 3, 1)
				} else {
					c06fresh(x)
				}
			},
		},
	)
}

// sop is a call on a Storage.
type sop struct {
	op, path, body string
}

func (o sop) String() string {
	return strings.TrimSpace(fmt.Sprintf("%s %s %s", o.op, o.path, o.body))
}

// scall is a call with its result.
type scall struct {
	sop
	g        int // goroutine
	res      string
	from, to int
	done     bool
	tmp      string
	fi       *apt.FileInfo
	file     interface{ Close() error }
	read     func() string
}

// shist is a concurrent history of one Storage.
type shist struct {
	cm    *cacher.Storage
	fs    *vos.FS
	clock int
	calls []*scall
}

// prepare creates what the call needs.
func (h *shist) prepare(o sop, g int) *scall {
	c := &scall{sop: o, g: g}
	switch o.op {
	case "insert":
		f, err := h.cm.TempFile()
		if err != nil {
			panic(err)
		}
		c.tmp = f.Name()
		if c.fi, err = apt.CopyWithFileInfo(f, strings.NewReader(o.body), o.path); err != nil {
			panic(err)
		}
		f.Close()
	case "lookup":
		c.fi = infoOf(o.path, o.body)
	}
	return c
}

func errString(err error) string {
	if err == nil {
		return "ok"
	}
	if os.IsNotExist(err) {
		return "no such file"
	}
	return err.Error()
}

// run performs the call.
func (h *shist) run(c *scall) {
	h.clock++
	c.from = h.clock
	h.calls = append(h.calls, c)
	switch c.op {
	case "insert":
		c.res = errString(h.cm.Insert(c.tmp, c.fi))
	case "delete":
		c.res = errString(h.cm.Delete(c.path))
	case "load":
		c.res = errString(h.cm.Load())
	case "lookup":
		f, err := h.cm.Lookup(c.fi)
		switch {
		case err == cacher.ErrNotFound:
			c.res = "miss"
		case err != nil:
			c.res = errString(err)
		default:
			c.res = "hit"
			c.file, c.read = f, func() string { return readAll(f) }
		}
	case "list":
		var l []string
		for _, fi := range h.cm.ListAll() {
			l = append(l, fmt.Sprintf("%s:%d", fi.Path(), fi.Size()))
		}
		sort.Strings(l)
		c.res = strings.Join(l, " ")
	}
	h.clock++
	c.to = h.clock
	c.done = true
	vsched.Point(vsched.CatUser, "call done")
}

// sref is the reference: a deterministic LRU cache.
type sref struct {
	smodel
	unloaded []litem // on disk, not loaded
}

func (m *sref) evict() {
	for m.cap > 0 && m.total() > m.cap {
		min := 0
		for i := range m.items {
			if m.items[i].rank < m.items[min].rank {
				min = i
			}
		}
		m.items = append(m.items[:min:min], m.items[min+1:]...)
	}
}

func (m *sref) apply(o sop) string {
	switch o.op {
	case "insert":
		m.put(o.path, o.body)
		m.evict()
	case "delete":
		m.del(o.path)
	case "load":
		for _, i := range m.unloaded {
			m.put(i.path, i.body)
		}
		m.unloaded = nil
		m.evict()
	case "lookup":
		if i := m.find(o.path); i < 0 || m.items[i].body != o.body {
			return "miss"
		}
		m.use(o.path)
		return "hit"
	case "list":
		var l []string
		for _, i := range m.items {
			l = append(l, fmt.Sprintf("%s:%d", i.path, len(i.body)))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	return "ok"
}

func (m *sref) copyRef() *sref {
	return &sref{*m.smodel.clone(), m.unloaded}
}

// linearize finds an order of calls with the observed results.
func linearize(m *sref, calls []*scall, end func(m *sref) bool) bool {
	var rec func(m *sref, left []*scall) bool
	rec = func(m *sref, left []*scall) bool {
		if len(left) == 0 {
			return end(m)
		}
		for i, c := range left {
			first := true
			for _, o := range left {
				if o.to < c.from {
					first = false
				}
			}
			if !first {
				continue
			}
			n := m.copyRef()
			if n.apply(c.sop) != c.res {
				continue
			}
			rest := append(append([]*scall(nil), left[:i]...), left[i+1:]...)
			if rec(n, rest) {
				return true
			}
		}
		return false
	}
	return rec(m, calls)
}

// finish probes the final state and looks for an order.
func (h *shist) finish(x *explore.X, m *sref, probe []sop) {
	if x.Failed() {
		return
	}
	x.Freeze(true)
	// data read through handles is what was asked for, whatever happened since
	desc := func() string {
		s := ""
		for _, c := range h.calls {
			s += fmt.Sprintf("\n  g%d [%d,%d] %s -> %s", c.g, c.from, c.to, c.sop, c.res)
		}
		return s
	}
	for _, c := range h.calls {
		if !c.done {
			x.Failf("hang", "%s does not return:%s", c.sop, desc())
			return
		}
		if c.read != nil {
			if b := c.read(); b != c.body {
				x.Failf("lookup", "the file returned by %s has %q:%s", c.sop, b, desc())
			}
			c.file.Close()
		}
	}
	// unloaded items are loaded so that all can be seen
	if len(m.unloaded) > 0 {
		probe = append([]sop{{op: "load"}}, probe...)
	}
	files := ""
	state := func() string {
		d := cacheFiles(h.fs, sdir)
		s := ""
		for _, p := range sortedKeys(d) {
			s += p + ":" + d[p] + " "
		}
		return s
	}
	for i, o := range probe {
		h.run(h.prepare(o, 9))
		if i == len(probe)-1 || o.op == "list" {
			files += "|" + state()
		}
	}
	for _, c := range h.calls {
		if c.tmp != "" {
			vos.Remove(c.tmp)
		}
	}
	n := len(h.calls) - len(probe)
	found := linearize(m, h.calls[:n], func(m *sref) bool {
		m = m.copyRef()
		got := ""
		for i, c := range h.calls[n:] {
			if m.apply(c.sop) != c.res {
				return false
			}
			if i == len(probe)-1 || c.op == "list" {
				l := append([]litem(nil), m.items...)
				sort.Slice(l, func(i, j int) bool { return l[i].path < l[j].path })
				s := ""
				for _, it := range l {
					s += it.path + ":" + it.body + " "
				}
				got += "|" + s
			}
		}
		return got == files
	})
	if !found {
		x.Failf("not-linearizable", "no order of the calls explains the results (capacity %d, initially %v; files at the end %s):%s", m.cap, m.items, files, desc())
	}
	s := ""
	for _, c := range h.calls[:n] {
		s += c.op[:2] + "=" + c.res + ";"
	}
	x.Outcome("%s", s)
}

var c06ops = []sop{
	{"insert", "a", "1"}, {"insert", "a", "2"}, {"insert", "d/c", "3"}, {"lookup", "a", "1"}, {"lookup", "d/b", "1"},
	{"delete", "a", ""}, {"list", "", ""}, {"load", "", ""},
}

// concurrently runs programs.
func (h *shist) concurrently(x *explore.X, progs [][]sop) {
	var all [][]*scall
	for g, p := range progs {
		var l []*scall
		for _, o := range p {
			l = append(l, h.prepare(o, g))
		}
		all = append(all, l)
	}
	var gs []*vsched.G
	p := vsched.NewProc("storage")
	var mu vsync.Mutex
	end := func() { // the end of a goroutine happens before what follows
		if x.Sc.Race {
			mu.Lock()
			mu.Unlock()
		}
	}
	for _, l := range all {
		l := l
		gs = append(gs, vsched.GoIn(p, "caller", func() {
			for _, c := range l {
				h.run(c)
			}
			end()
		}))
	}
	vsched.Join(gs...)
	end()
}

func c06run(x *explore.X, ng, nops int) {
	capacity := []int{2, 0}[x.Free(2, "capacity")]
	var progs [][]sop
	last := 0
	for g := 0; g < ng; g++ {
		// programs are unordered: each is not before the one before it
		n := 1
		for i := 0; i < nops; i++ {
			n *= len(c06ops)
		}
		c := last + x.Free(n-last, "program")
		last = c
		var p []sop
		for i := 0; i < nops; i++ {
			p = append(p, c06ops[c%len(c06ops)])
			c /= len(c06ops)
		}
		progs = append(progs, p)
	}
	h := &shist{cm: cacher.NewStorage(sdir, uint64(capacity)), fs: vos.Cur}
	m := &sref{smodel: smodel{cap: capacity}}
	x.World(func() {
		x.Freeze(true)
		for _, o := range []sop{{"insert", "a", "1"}, {"insert", "d/b", "1"}} {
			h.run(h.prepare(o, 8))
			m.apply(o)
		}
		h.calls = nil
		x.Freeze(false)
		h.concurrently(x, progs)
		h.finish(x, m, []sop{{"list", "", ""}, {"insert", "e", "5"}, {"list", "", ""}, {"insert", "f", "6"}, {"list", "", ""}})
	})
}

func c06large(x *explore.X) {
	ops := []sop{
		{"insert", "d/c", "333"}, {"insert", "a", "22"}, {"insert", "a", ""}, {"lookup", "a", "1"}, {"lookup", "d/b", "1"},
		{"delete", "a", ""}, {"list", "", ""}, {"load", "", ""}, {"insert", "big", "12345"},
	}
	a := x.Free(len(ops), "first")
	b := a + x.Free(len(ops)-a, "second")
	const capacity = 4
	h := &shist{cm: cacher.NewStorage(sdir, capacity), fs: vos.Cur}
	m := &sref{smodel: smodel{cap: capacity}}
	x.World(func() {
		x.Freeze(true)
		for _, o := range []sop{{"insert", "a", "1"}, {"insert", "d/b", "1"}, {"insert", "e", "1"}} {
			h.run(h.prepare(o, 8))
			m.apply(o)
		}
		h.calls = nil
		x.Freeze(false)
		h.concurrently(x, [][]sop{{ops[a]}, {ops[b]}})
		h.finish(x, m, []sop{{"list", "", ""}, {"insert", "f", "66"}, {"list", "", ""}, {"insert", "g", "777"}, {"list", "", ""}})
	})
}

func c06fresh(x *explore.X) {
	load := sop{op: "load"}
	before := x.Flag("loaded before")
	ops := []sop{{"lookup", "a", "1"}, {"lookup", "a", "2"}, {"lookup", "d/b", "1"}, {"list", "", ""}, {"insert", "new", "7"}, {"delete", "a", ""}, load}
	first := []sop{load}
	if before {
		first = []sop{ops[x.Free(len(ops), "first")]}
		ops = append(ops, sop{"insert", "a", "2"})
	}
	second := []sop{ops[x.Free(len(ops), "second")]}
	if c := x.Free(len(ops)+1, "third"); c > 0 {
		second = append(second, ops[c-1])
	}
	vos.Cur.PutDir(sdir)
	vos.Cur.Put(sdir+"/a"+cacheSuffix(), []byte("1"))
	vos.Cur.Put(sdir+"/d/b"+cacheSuffix(), []byte("1"))
	h := &shist{cm: cacher.NewStorage(sdir, 0), fs: vos.Cur}
	m := &sref{unloaded: []litem{{"a", "1", 0}, {"d/b", "1", 0}}}
	x.World(func() {
		if before {
			x.Freeze(true)
			h.run(h.prepare(load, 8))
			m.apply(load)
			h.calls = nil
			x.Freeze(false)
		}
		h.concurrently(x, [][]sop{first, second})
		h.finish(x, m, []sop{{"list", "", ""}, {"lookup", "a", "1"}, {"lookup", "d/b", "1"}})
	})
}
