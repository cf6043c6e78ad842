package props

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vsched"
)

func init() {
	register("C16", "model_checking", cacherAssume,
		&explore.Scenario{
			Name: "names", Doc: "every hostile name (aimed at the files, indices and prefixes of another repository, at the cache directories and at the system) with 0 to 4 more '..' in front, at every place that lists names, learned from a client request, a refresh or at startup: the other repository is fetched, accepted, refused and cached as if there was no such name, and nothing outside of the two directories changes",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 6, Run: c16names,
		},
		&explore.Scenario{
			Name: "requests", Doc: "clients request the hostile names below the hostile repository, and the other repository's files afterwards, with small capacity",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: c16requests,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "hostile indices arrive while the other repository is fetched and refreshed, under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: cMask, Weight: 2, Run: c16schedule,
		},
	)
}

// the other repositories; "u" is the hostile one.
var c16victims = []string{"v", "u2"}

func c16targets() []string {
	var l []string
	for _, v := range c16victims {
		for _, p := range []string{cItem, cRel, cPkg, cPkg + ".gz", "dists/s/Release.gpg"} {
			l = append(l, "../"+v+"/"+p)
		}
		p := v + "/" + cItem
		l = append(l, "/"+p, "//"+p, p, "./../"+p, "a/../../"+p, ".//..//"+p, "../u/../"+p, "a/b/../../../"+p, "../"+v+"//pool/./a.deb", "../"+v+"/pool/b/../a.deb", "../"+p+"/", "..\\"+v+"\\pool\\a.deb", "%2e%2e/"+p, "..%2f"+p, "/"+p+"/.", "../"+v, "../"+v+"/", "../"+v+"/pool", "../"+v+"/pool/a.deb/x",
			"../items/"+p+".cache", "../../srv/items/"+p+".cache", ccache+"/"+p+".cache", ccache+"/"+p, cmeta+"/"+v+"/"+cRel+".cache", "http://up-"+v+"/base/"+p)
	}
	l = append(l, "2/"+cItem, "2/"+cRel, "../u2", "../_tmp1", "../../x", "../../other/keep", "../../../etc/passwd", "/etc/passwd", "..", ".", "/", "", "../u", "../u/"+cItem, "../v.cache", "...", "\xff", "../\xff/x", strings.Repeat("../", 40)+"v/"+cItem, strings.Repeat("x/../", 20)+"../v/"+cItem)
	return l
}

var c16places = []string{"Packages", "Release", "Sources-file", "Sources-dir", "Index", "flat-Packages", "InRelease"}

// c16hostile makes the files of a repository listing name at place, and the
// paths by which a client gets to the listing.
func c16hostile(ver, place, name string) (files map[string][]byte, gets []string) {
	r := crepo(ver, "Release", "Release.gpg", "InRelease")
	s := &r.suites[0]
	rel := func(sum string) string { return fmt.Sprintf(" %s %d %s\n", hexsum(sum, []byte(evil)), len(evil), name) }
	gets = []string{cRel, cPkg}
	switch place {
	case "Packages", "flat-Packages":
		s.indices[0].raw = append(append([]byte(nil), packages(s.indices[0].items)...), "\n"+rawStanza(name)...)
		if place == "flat-Packages" {
			s.dir = "."
			s.indices[0].rel = "Packages"
			gets = []string{"Release", "Packages"}
		}
	case "Sources-file":
		s.indices = append(s.indices, rindex{rel: "main/source/Sources", raw: []byte(rawSource("pool/src", name))})
		gets = append(gets, "dists/s/main/source/Sources")
	case "Sources-dir":
		d, f := path.Split(name)
		s.indices = append(s.indices, rindex{rel: "main/source/Sources", raw: []byte(rawSource(d, f))})
		gets = append(gets, "dists/s/main/source/Sources")
	case "Index":
		s.indices = append(s.indices, rindex{rel: "main/i18n/Index", raw: []byte("SHA1:\n" + rel("SHA1"))})
		gets = append(gets, "dists/s/main/i18n/Index")
	}
	files = r.files()
	if place == "Release" || place == "InRelease" {
		for _, p := range []string{cRel, "dists/s/InRelease"} {
			var out []string
			for _, l := range strings.Split(string(files[p]), "\n") {
				out = append(out, l)
				for _, k := range allSums {
					if l == k+":" {
						out = append(out, strings.TrimSuffix(rel(k), "\n"))
					}
				}
			}
			files[p] = []byte(strings.Join(out, "\n"))
		}
		gets = []string{"dists/s/" + place, cPkg}
	}
	return files, gets
}

// outsideCache renders everything but the cache directories.
func outsideCache(fs *vos.FS) string {
	var l []string
	var rec func(p string)
	rec = func(p string) {
		n := fs.Node(p, false)
		switch {
		case p == cmeta || p == ccache:
			l = append(l, fmt.Sprintf("%s %v", p, n.IsDir()))
			return
		case n.IsDir():
			l = append(l, p+"/ "+n.Mode.String())
			for _, e := range n.Names() {
				rec(strings.TrimSuffix(p, "/") + "/" + e)
			}
		case n.IsLink():
			l = append(l, p+" -> "+n.Target())
		default:
			l = append(l, p+" "+n.Mode.String()+" "+string(n.Bytes()))
		}
	}
	rec("/")
	return strings.Join(l, "\n")
}

type c16state struct {
	k   *ckit
	x   *explore.X
	out string
	v   map[string]*cver
	bad map[string]bool // the victims' upstreams serve evil data for the item
	had map[string]int  // fetches
}

func newC16(x *explore.X) *c16state {
	k := newCkit(x, "u", "v", "u2")
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 0
	putSentinels(k.fs)
	st := &c16state{k: k, x: x, v: map[string]*cver{}, bad: map[string]bool{}, had: map[string]int{}}
	for _, v := range c16victims {
		st.v[v] = cver0("of " + v)
		k.publish(v, st.v[v].files)
	}
	k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
		if strings.HasPrefix(p, "u/") && rep.Status == 404 {
			*rep = vhttp.Reply{Status: 200, Body: []byte(evil)}
		}
		if pre, q := k.split(r); st.bad[pre] && q == cItem {
			*rep = vhttp.Reply{Status: 200, Body: []byte(evil)}
		}
	}
	return st
}

func (st *c16state) begin() bool {
	if !st.k.mustStart() {
		return false
	}
	st.out = outsideCache(st.k.fs)
	return true
}

// want requests a file of a victim and expects status, the right content and
// that many fetches.
func (st *c16state) want(v, p string, status, fetches int) {
	if st.x.Failed() {
		return
	}
	n := st.k.fetches(v + "/" + p)
	r := st.k.get(v + "/" + p)
	f := st.k.fetches(v+"/"+p) - n
	switch {
	case r.status != status:
		st.x.Failf("other-status", "%s, expected status %d", r, status)
	case status == 200 && r.body != string(st.v[v].files[p]):
		st.x.Failf("other-content", "%s: wrong content", r)
	case fetches == 0 && f > 0:
		st.x.Failf("other-refetch", "%s is cached but was fetched %d times", r, f)
	case fetches > 0 && f == 0:
		st.x.Failf("other-unfetched", "%s was not fetched", r)
	}
}

// check compares what must not change.
func (st *c16state) check() {
	if st.x.Failed() {
		return
	}
	if o := outsideCache(st.k.fs); o != st.out {
		st.x.Failf("escape", "something outside of the cache directories changed: %s", diffLines(st.out, o))
	}
	for _, d := range []string{cmeta, ccache} {
		for p, b := range st.k.disk(d) {
			pre, q, _ := strings.Cut(p, "/")
			if v := st.v[pre]; v != nil && string(v.files[q]) != b {
				st.x.Failf("other-file", "%s of another repository is cached with %q", p, clip(b))
			} else if v == nil && pre != "u" {
				st.x.Failf("escape", "%s is cached", p)
			}
		}
	}
}

func (st *c16state) restart() bool {
	st.k.stop()
	vsched.Sleep(time.Second)
	return st.k.mustStart()
}

func c16names(x *explore.X) {
	names := c16targets()
	name := names[x.Free(len(names), "name")]
	if !strings.HasPrefix(name, "/") && !strings.Contains(name, "://") {
		name = strings.Repeat("../", x.Free(5, "more dots")) + name
	}
	place := c16places[x.Free(len(c16places), "place")]
	how := x.Free(2, "learned by") // request, refresh
	loaded := x.Free(4, "other repository")
	again := x.Flag("restart")
	v := c16victims[0]
	if strings.Contains(name, "u2") || strings.HasPrefix(name, "2/") {
		v = c16victims[1]
	}
	st := newC16(x)
	x.World(func() {
		k := st.k
		files, gets := c16hostile("1", place, name)
		if how == 1 {
			k.publish("u", cver0("0", "Release", "Release.gpg", "InRelease").files)
		} else {
			k.publish("u", files)
		}
		if !st.begin() {
			return
		}
		if loaded > 0 {
			st.want(v, cRel, 200, 1)
			st.want(v, cPkg, 200, 1)
		}
		if loaded > 1 {
			st.want(v, cItem, 200, 1)
		}
		if loaded == 3 {
			// another version, so that other checksums are known later
			st.want(v, cPkg+".gz", 200, 1)
		}
		for _, p := range gets {
			k.get("u/" + p)
		}
		if how == 1 {
			k.publish("u", files)
			vsched.Sleep(11 * time.Second)
			for _, p := range gets {
				k.get("u/" + p)
			}
		}
		st.check()
		if again {
			if !st.restart() {
				return
			}
			st.check()
		}
		switch loaded {
		case 0:
			st.want(v, cItem, 200, 1)
			st.want(v, cItem, 200, 0)
			st.want(v, cRel, 200, 1)
			st.want(v, cPkg, 200, 1)
			st.want(v, cItem, 200, 0)
		case 1:
			// now evil data is refused, because the checksum is known
			st.bad[v] = true
			st.want(v, cItem, 500, 1)
			st.bad[v] = false
			st.want(v, cItem, 200, 1)
		default:
			st.want(v, cItem, 200, 0)
		}
		st.want(v, cRel, 200, 0)
		st.want(v, cPkg, 200, 0)
		if loaded == 3 {
			st.want(v, cPkg+".gz", 200, 0)
		} else {
			st.want(v, cPkg+".gz", 200, 1)
		}
		st.want(v, "pool/none", 404, 1)
		st.want(v, cItem, 200, 0)
		// the next refresh of the other repository
		st.v[v] = cver0("next of " + v)
		k.publish(v, st.v[v].files)
		vsched.Sleep(11 * time.Second)
		st.want(v, cRel, 200, 0)
		st.want(v, cPkg, 200, 1)
		st.want(v, cItem, 200, 1)
		st.want(v, cKeep, 200, 1)
		if o := outsideCache(k.fs); o != st.out {
			x.Failf("escape", "something outside of the cache directories changed: %s", diffLines(st.out, o))
		}
		x.Outcome("%d %v", loaded, again)
	})
}

func c16requests(x *explore.X) {
	names := c16targets()
	name := names[x.Free(len(names), "name")]
	place := c16places[x.Free(2, "place")]
	second := names[x.Free(8, "second name")]
	again := x.Flag("restart")
	st := newC16(x)
	st.k.cfg.CacheCapacity = 1 // 64 bytes
	x.World(func() {
		k := st.k
		files, gets := c16hostile("1", place, name)
		k.publish("u", files)
		if !st.begin() {
			return
		}
		st.want("v", cPkg, 200, 1)
		st.want("u2", cPkg, 200, 1)
		for _, p := range gets {
			k.get("u/" + p)
		}
		for _, n := range []string{name, second, name} {
			r := k.get("u/" + n)
			// the path may be one of another repository
			for _, v := range c16victims {
				c := strings.TrimPrefix(path.Clean("/u/"+n), "/")
				if !strings.HasPrefix(c, v+"/") {
					continue
				}
				q := c[len(v)+1:]
				if r.status == 200 && r.body != string(st.v[v].files[q]) {
					x.Failf("other-content", "%s: wrong content", r)
				}
			}
			st.check()
		}
		if again && !st.restart() {
			return
		}
		for _, v := range c16victims {
			st.want(v, cItem, 200, k.cachedAt(v, cItem))
			st.want(v, cPkg, 200, 0)
		}
		st.check()
		var l []string
		for p := range k.disk(ccache) {
			l = append(l, p)
		}
		sort.Strings(l)
		x.Outcome("%d", len(l))
	})
}

// cachedAt returns the number of fetches (0 or 1) a request for p takes.
func (k *ckit) cachedAt(prefix, p string) int {
	if _, ok := k.disk(ccache)[prefix+"/"+p]; ok {
		return 0
	}
	return 1
}

func c16schedule(x *explore.X) {
	names := []string{"../v/" + cItem, "../v/" + cPkg, "/v/" + cItem, "../../../v/" + cPkg}
	name := names[x.Free(len(names), "name")]
	place := c16places[x.Free(2, "place")]
	refresh := x.Flag("refresh")
	st := newC16(x)
	x.World(func() {
		k := st.k
		x.Freeze(true)
		files, gets := c16hostile("1", place, name)
		if !st.begin() {
			return
		}
		st.want("v", cRel, 200, 1)
		if refresh {
			k.publish("u", cver0("0").files)
			for _, p := range gets {
				k.get("u/" + p)
			}
			vsched.Sleep(9 * time.Second)
		}
		k.publish("u", files)
		x.Freeze(false)
		var rs []*cresp
		vs := []string{cPkg, cItem}
		if refresh {
			vsched.Sleep(time.Second)
		}
		for _, p := range gets {
			rs = append(rs, k.send("GET", "u/"+p))
		}
		for _, p := range vs {
			rs = append(rs, k.send("GET", "v/"+p))
		}
		if !k.answered(rs...) {
			return
		}
		for i, p := range vs {
			if r := rs[len(gets)+i]; r.status != 200 || r.body != string(st.v["v"].files[p]) {
				x.Failf("other-content", "%s", r)
			}
		}
		st.check()
		st.want("v", cItem, 200, 0)
		st.want("v", cPkg, 200, 0)
		x.Outcome("%v", refresh)
	})
}
