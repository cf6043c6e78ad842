package props

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"syscall"
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
)

func init() {
	register("C17", "model_checking", append([]string{"growth means more after each of three repetitions of the same history of events, each time when all is quiet again; memory is counted as the number of elements of maps and slices reachable from the Cacher"}, cacherAssume...),
		&explore.Scenario{
			Name: "events", Doc: "every history of two (three) events out of: requests that hit, miss, are HEAD, conditional or for a part, of listed and unlisted files, refused ones, two at once; the upstream fails in every way; clients that go away while the item is downloaded or while they receive it; checks with every outcome, new versions; evictions; cache_period 0 or not, one or two mapped prefixes, InRelease or Release: repeated four times",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: func(x *explore.X) { c17events(x, false) },
		},
		&explore.Scenario{
			Name: "local", Doc: "the same with one event, one system call of which (any of the first 24, except the removal of files) fails every time",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: func(x *explore.X) { c17events(x, true) },
		},
		&explore.Scenario{
			Name: "schedule", Doc: "one event made by two clients during a check, under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: cMask, Weight: 4, Run: c17schedule,
		},
	)
}

// footprint is what a quiet cacher holds.
type footprint struct {
	open, conns, live, disk, values, fetched int
	names                                    string
}

func (f footprint) list() []int {
	return []int{f.open, f.conns, f.live, f.disk, f.values, f.fetched}
}

var footprintNames = []string{"open files", "upstream connections", "goroutines", "files in its directories", "elements of maps and slices", "upstream requests each time"}

// values counts the elements of maps and slices reachable from v.
func values(v reflect.Value, seen map[uintptr]bool) int {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		// shared state of the test bench and of the runtime does not count
		if t := v.Elem().Type(); strings.HasPrefix(t.PkgPath(), "vmc/") || t.PkgPath() == "time" || t.PkgPath() == "context" || strings.HasPrefix(t.PkgPath(), "net") {
			return 0
		}
		return values(v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			return 0
		}
		return values(v.Elem(), seen)
	case reflect.Struct:
		if p := v.Type().PkgPath(); strings.HasPrefix(p, "vmc/") || p == "time" {
			return 0
		}
		n := 0
		for i := 0; i < v.NumField(); i++ {
			n += values(v.Field(i), seen)
		}
		return n
	case reflect.Map:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		n := 0
		for it := v.MapRange(); it.Next(); {
			n += 1 + values(it.Value(), seen)
		}
		return n
	case reflect.Slice:
		if k := v.Type().Elem().Kind(); k <= reflect.Complex128 {
			return 0 // checksums may be shared or not
		}
		fallthrough
	case reflect.Array:
		n := v.Len()
		for i := 0; i < v.Len(); i++ {
			n += values(v.Index(i), seen)
		}
		return n
	}
	return 0
}

func (k *ckit) footprint() footprint {
	f := footprint{open: k.fs.OpenCount(k.p), conns: k.up.Total(), live: k.p.Live(), fetched: len(k.up.Log)}
	names := sortedKeys(k.fs.Files("/srv"))
	f.disk, f.names = len(names), strings.Join(names, " ")
	f.values = values(reflect.ValueOf(k.c), map[uintptr]bool{})
	return f
}

// growth reports what grew with every repetition.
func growth(x *explore.X, fs []footprint, what string) {
	for i := len(fs) - 1; i > 0; i-- {
		fs[i].fetched -= fs[i-1].fetched
	}
	n := len(fs)
	a, b, c := fs[n-3].list(), fs[n-2].list(), fs[n-1].list()
	for i, name := range footprintNames {
		if a[i] < b[i] && b[i] < c[i] {
			more := ""
			if name == "files in its directories" {
				more = ": " + fs[n-1].names
			}
			x.Failf("growth", "%s: %d, %d and %d after %s again and again%s", name, a[i], b[i], c[i], what, more)
			return
		}
	}
}

type c17event struct {
	name string
	do   func(k *ckit)
}

// goneContext is the context of a request whose client goes away.
func goneContext(after time.Duration) context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	vsched.AfterFunc(after, cancel)
	return ctx
}

var errGone = errors.New("connection reset by peer")

func c17alphabet(rel string) []c17event {
	get := func(ps ...string) func(k *ckit) {
		return func(k *ckit) {
			for _, p := range ps {
				k.get("u/" + p)
			}
		}
	}
	hdr := func(key, val string) func(k *ckit) {
		return func(k *ckit) {
			r := k.sendURL("GET", &url.URL{Path: "u/" + cItem}, http.Header{key: {val}})
			k.answered(r)
		}
	}
	fail := func(mode, p string) func(k *ckit) {
		return func(k *ckit) {
			old := k.fault
			k.fault = func(q string, r *vhttp.Request, rep *vhttp.Reply) {
				if q == "u/"+p {
					spoil(mode, "", rep, nil)
				}
			}
			k.get("u/" + p)
			k.fault = old
		}
	}
	check := func(mode, suffix string) func(k *ckit) {
		return func(k *ckit) {
			old := k.fault
			k.fault = func(q string, r *vhttp.Request, rep *vhttp.Reply) {
				if strings.HasSuffix(q, suffix) {
					spoil(mode, "", rep, nil)
				}
			}
			vsched.Sleep(11 * time.Second)
			k.fault = old
		}
	}
	gone := func(p string) func(k *ckit) {
		return func(k *ckit) {
			old := k.fault
			k.fault = func(q string, r *vhttp.Request, rep *vhttp.Reply) { rep.Delay = time.Second }
			k.ctx = goneContext(500 * time.Millisecond)
			r := k.send("GET", "u/"+p)
			k.ctx = nil
			k.answered(r)
			k.fault = old
		}
	}
	return []c17event{
		{"hits", get(rel, cPkg, cItem, cKeep)},
		{"HEAD", func(k *ckit) { k.do("HEAD", "u/"+cItem); k.do("HEAD", "u/"+cPkg) }},
		{"part", hdr("Range", "bytes=1-3")},
		{"bad part", hdr("Range", "bytes=9999-")},
		{"conditional", hdr("If-Modified-Since", "Mon, 02 Jan 2006 15:04:05 GMT")},
		{"missing", get("pool/none", "dists/s/none/Packages")},
		{"other missing names", func(k *ckit) {
			k.get(fmt.Sprintf("u/pool/none%d", len(k.all)))
			k.get(fmt.Sprintf("u/dists/x%d/Release", len(k.all)))
		}},
		{"unlisted", get("pool/unlisted", "dists/s/Contents-amd64.gz")},
		{"refused", func(k *ckit) { k.do("POST", "u/"+cItem); k.get("x/" + cItem); k.get("u/Packages.lzma") }},
		{"two at once", func(k *ckit) {
			k.answered(k.send("GET", "u/"+cItem), k.send("GET", "u/"+cItem), k.send("HEAD", "u/"+cPkg))
		}},
		{"503", fail("503", cItem)},
		{"no connection", fail("refused", cItem)},
		{"broken transfer", fail("cut", cItem)},
		{"wrong data", fail("corrupt", cItem)},
		{"wrong index", fail("corrupt", cPkg)},
		{"gone early", gone(cItem)},
		{"gone late", func(k *ckit) {
			r := k.send("GET", "u/"+cItem)
			r.gone = errGone
			k.answered(r)
		}},
		{"new version", func(k *ckit) { k.next() }},
		{"evictions", func(k *ckit) { k.get("u/pool/big1"); k.get("u/pool/big2"); k.get("u/pool/huge") }},
		{"check fails", check("503", rel)},
		{"check breaks", check("cut", rel)},
		{"check gets nonsense", check("empty", rel)},
		{"no signature", check("404", "Release.gpg")},
		{"check without connection", check("refused", "")},
		{"check", check("", "")},
	}
}

// c17files adds files outside of the indices.
func c17files(v *cver) map[string][]byte {
	m := map[string][]byte{"pool/unlisted": []byte("unlisted"), "dists/s/Contents-amd64.gz": []byte("contents"),
		"pool/big1": []byte(strings.Repeat("1", vsched.GiB-20)), "pool/big2": []byte(strings.Repeat("2", vsched.GiB-10)), "pool/huge": []byte(strings.Repeat("3", vsched.GiB+1))}
	for p, b := range v.files {
		m[p] = b
	}
	return m
}

func (k *ckit) next() {
	k.ver++
	k.publish("u", c17files(cver0(fmt.Sprint(k.ver), k.names...)))
}

func c17setup(x *explore.X, periods bool) (*ckit, []c17event) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 3
	if periods && x.Flag("cache_period = 0") {
		k.cfg.CachePeriod = 0
	}
	k.names = []string{"Release", "Release.gpg"}
	if periods && x.Flag("InRelease") {
		k.names = []string{"InRelease"}
	}
	return k, c17alphabet("dists/s/" + k.names[0])
}

func c17events(x *explore.X, local bool) {
	k, evs := c17setup(x, true)
	n := 2
	if local {
		n = 1
	}
	if x.Deep {
		n++
	}
	var l []c17event
	what := ""
	for i := 0; i < n; i++ {
		e := evs[x.Free(len(evs), "event")]
		l = append(l, e)
		what += "; " + e.name
	}
	at := -1
	if local {
		at = x.Free(24, "failing system call")
		what += fmt.Sprintf("; system call %d fails", at+1)
	}
	warm := x.Flag("cached before")
	x.World(func() {
		k.next()
		if !k.mustStart() {
			return
		}
		if warm {
			for _, p := range []string{"dists/s/" + k.names[0], cPkg, cItem, cKeep} {
				k.get("u/" + p)
			}
		}
		var fs []footprint
		used := false
		for rep := 0; rep < 4; rep++ {
			calls := 0
			if local {
				k.fs.Fault = func(op, p string) error {
					if vsched.CurProc() != k.p || op == "remove" || op == "unlink" {
						return nil
					}
					calls++
					if calls == at+1 {
						used = true
						return syscall.ENOSPC
					}
					return nil
				}
			}
			for _, e := range l {
				e.do(k)
				if x.Failed() {
					return
				}
			}
			k.fs.Fault = nil
			vsched.Sleep(25 * time.Second)
			fs = append(fs, k.footprint())
		}
		if local && !used {
			x.Outcome("no such system call")
			return
		}
		x.Outcome("%v", fs[3].list()[:4])
		growth(x, fs, what[2:])
	})
}

func c17schedule(x *explore.X) {
	k, evs := c17setup(x, x.Deep)
	modes := []string{"", "cut"}
	if !x.Deep {
		var l []c17event
		for _, e := range evs {
			switch e.name {
			case "hits", "two at once", "503", "wrong data", "gone early", "new version", "evictions":
				l = append(l, e)
			}
		}
		evs = l
	}
	if x.Deep {
		modes = []string{"", "503", "cut", "empty"}
	}
	e := evs[x.Free(len(evs), "event")]
	mode := modes[x.Free(len(modes), "check")]
	x.World(func() {
		x.Freeze(true)
		k.next()
		if !k.mustStart() {
			return
		}
		rel := "dists/s/" + k.names[0]
		for _, p := range []string{rel, cPkg, cItem, cKeep} {
			k.get("u/" + p)
		}
		// twice without, once with deviations, once without
		var fs []footprint
		for rep := 0; rep < 4; rep++ {
			k.next()
			for k.x.W.Since()%(10*time.Second) != 0 {
				vsched.Sleep(10*time.Second - k.x.W.Since()%(10*time.Second))
			}
			k.fault = func(q string, r *vhttp.Request, rep *vhttp.Reply) {
				if q == "u/"+rel {
					spoil(mode, "", rep, nil)
				}
			}
			x.Freeze(rep != 2)
			rs := []*cresp{k.send("GET", "u/"+cItem), k.send("GET", "u/"+rel)}
			e.do(k)
			k.answered(rs...)
			x.Freeze(true)
			k.fault = nil
			if x.Failed() {
				return
			}
			vsched.Sleep(25 * time.Second)
			fs = append(fs, k.footprint())
		}
		x.Outcome("%v", fs[3].list()[:4])
		for i, n := range fs[3].list()[:5] {
			if old := fs[1].list()[i]; n > old && fs[2].list()[i] > old {
				x.Failf("growth", "%s: %d instead of %d after one other schedule of %s", footprintNames[i], n, old, e.name)
			}
		}
	})
}
