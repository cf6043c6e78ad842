package props

import (
	"fmt"
	"strings"
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
)

// cMask leaves out operations on open files.
const cMask = vsched.CatSync | vsched.CatChan | vsched.CatHTTP | vsched.CatGo | vsched.CatFS

func init() {
	register("C01", "model_checking", append([]string{"indices are requested by their canonical names (contents of by-hash names are not read by the cacher)"}, cacherAssume...),
		&explore.Scenario{
			Name: "sequence", Doc: "every sequence of 6 (thorough 7) different steps in a row out of: GET Release, Packages, Packages.gz, an item; the upstream publishes the next version; the check interval passes; restart; after Release was served",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: c01sequence,
		},
		&explore.Scenario{
			Name: "faults", Doc: "programs over two and three versions with any two (three) upstream answers replaced: older version of the file, corrupt, shortened, longer, broken transfer, 404, 503, no connection; upstream publishes at any request",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Weight: 3, Run: c01faults,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "two clients and the refresh under every interleaving within the bound while the upstream publishes a version at any request; answers may be late",
			Quick: explore.Bounds{Sched: 1, Fault: 1, Total: 2}, Deep: explore.Bounds{Sched: 2, Fault: 2, Total: 3}, Mask: cMask, Weight: 4, Run: c01schedule,
		},
	)
	register("C02", "model_checking", cacherAssume,
		&explore.Scenario{
			Name: "late", Doc: "three clients (and the refresh) want one file during a slow fetch with every outcome, cached or not; later clients come when it is still or no longer running",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: cMask, Weight: 3, Run: c02late,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "three clients at once and fast answers with every outcome under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 2, Total: 2}, Deep: explore.Bounds{Sched: 3, Total: 3}, Mask: cMask, Weight: 3, Run: c02schedule,
		},
		&explore.Scenario{
			Name: "outdated", Doc: "a new Release arrives while clients wait for a fetch of a file it lists",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: cMask, Weight: 2, Run: c02outdated,
		},
	)
	register("C03", "model_checking", cacherAssume,
		&explore.Scenario{
			Name: "limit", Doc: "max_conns 0 to 3, six requests to two hosts at once with any mix of outcomes on each, then again with healthy answers: all slots are used",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: c03limit,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "the same with three requests under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Fault: 1, Total: 2}, Deep: explore.Bounds{Sched: 2, Fault: 1, Total: 3}, Mask: cMask, Weight: 3, Run: c03schedule,
		},
		&explore.Scenario{
			Name: "local", Doc: "any failing file system operation while downloading: no slot is lost",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Run: c03local,
		},
	)
}

func c01sequence(x *explore.X) {
	name := []string{"Release", "InRelease"}[x.Free(2, "Release file")]
	names := []string{"Release", "Release.gpg"}
	if name == "InRelease" {
		names = []string{"InRelease"}
	}
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	h := &chist{k: k, prefix: "u"}
	depth := 6
	if x.Deep {
		depth = 7
	}
	x.World(func() {
		h.publish(cver0("1", names...))
		if !k.mustStart() {
			return
		}
		k.get("u/dists/s/" + name)
		last := 0
		for i := 0; i < depth && !x.Failed(); i++ {
			// the same step twice in a row adds nothing
			c := x.Free(6, "step")
			if c >= last {
				c++
			}
			last = c
			switch c {
			case 0:
				k.get("u/dists/s/" + name)
			case 1:
				k.get("u/" + cPkg)
			case 2:
				k.get("u/" + cPkg + ".gz")
			case 3:
				k.get("u/" + cItem)
			case 4:
				if len(h.vers) < 3 {
					h.publish(cver0(fmt.Sprint(len(h.vers)+1), names...))
				}
			case 5:
				vsched.Sleep(11 * time.Second)
			case 6:
				k.stop()
				if !k.mustStart() {
					return
				}
			}
		}
		h.judge()
		s := ""
		for _, r := range k.all {
			s += fmt.Sprint(" ", r.status)
		}
		x.Outcome("%s", s)
	})
}

// spoil replaces an upstream answer; old are files of an older version.
func spoil(m string, p string, rep *vhttp.Reply, old map[string][]byte) {
	switch m {
	case "503":
		*rep = vhttp.Reply{Status: 503, Body: []byte("busy")}
		return
	case "403":
		*rep = vhttp.Reply{Status: 403, Body: []byte("no")}
		return
	case "404":
		*rep = vhttp.Reply{Status: 404, Body: []byte("gone")}
		return
	case "refused":
		rep.Status = 0
		return
	}
	if rep.Status != 200 {
		return
	}
	b := append([]byte(nil), rep.Body...)
	switch m {
	case "corrupt":
		if len(b) > 0 {
			b[len(b)/2] ^= 1
		}
		rep.Body = b
	case "short":
		rep.Body = b[:len(b)/2]
	case "longer":
		rep.Body = append(b, "more"...)
	case "empty":
		rep.Body = nil
	case "cut":
		rep.CutAt = len(b)/2 + 1
	case "cutend":
		rep.CutAt = len(b) + 1
	case "stale":
		if o, ok := old[p]; ok {
			rep.Body = o
		}
	case "late":
		rep.Delay = 3 * time.Second
	case "latebody":
		rep.BodyDelay = 3 * time.Second
	}
}

var listedModes = []string{"", "stale", "corrupt", "short", "longer", "empty", "cut", "cutend", "404", "503", "refused"}
var unlistedModes = []string{"", "cut", "404", "503", "refused"}

// spoilAny gives any upstream request another answer.
func (k *ckit) spoilAny(old func() map[string][]byte) {
	k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
		modes := listedModes
		if isRelease(p) {
			modes = unlistedModes
		}
		m := modes[k.x.Fault(len(modes), "answer for "+p)]
		_, q := k.split(r)
		spoil(m, q, rep, old())
	}
}

func c01faults(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	h := &chist{k: k, prefix: "u"}
	v := []*cver{cver0("1"), cver0("2"), cver0("3")}
	n := 2 + x.Free(2, "versions") // published in all
	restart := x.Flag("restart")
	x.World(func() {
		h.publish(v[0])
		if !k.mustStart() {
			return
		}
		k.spoilAny(func() map[string][]byte {
			if len(h.vers) > 1 {
				return h.vers[len(h.vers)-2].files
			}
			return nil
		})
		inner := k.fault
		next := func() {
			if len(h.vers) < n {
				h.publish(v[len(h.vers)])
			}
		}
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			if len(h.vers) < n && x.Flag("publish after "+p) {
				next()
			}
			inner(p, r, rep)
		}
		round := func(ps ...string) {
			for _, p := range ps {
				if !x.Failed() {
					k.get("u/" + p)
				}
			}
		}
		round(cRel, cPkg, cItem)
		vsched.Sleep(11 * time.Second)
		round(cItem, cRel, cPkg+".gz", cItem)
		if restart && !x.Failed() {
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		vsched.Sleep(11 * time.Second)
		round(cItem, cPkg, cItem)
		h.judge()
		s := ""
		for _, r := range k.all {
			s += fmt.Sprint(" ", r.status)
		}
		x.Outcome("%s", s)
	})
}

func c01schedule(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	h := &chist{k: k, prefix: "u"}
	progs := [][]string{{cRel, cPkg, cItem}, {cPkg + ".gz", cItem}, {cItem, cItem}, {cPkg, cItem, cPkg}}
	pair := [][2]int{{0, 1}, {0, 2}, {0, 0}, {1, 3}, {1, 2}}[x.Free(5, "clients")]
	cached := x.Free(3, "cached before") // nothing, Release, everything
	x.World(func() {
		x.Freeze(true)
		h.publish(cver0("1"))
		if !k.mustStart() {
			return
		}
		if cached > 0 {
			k.get("u/" + cRel)
		}
		if cached > 1 {
			k.get("u/" + cPkg)
			k.get("u/" + cItem)
		}
		// just before the refresh
		if t := 10*time.Second - x.W.Since(); t > 0 {
			vsched.Sleep(t)
		}
		x.Freeze(false)
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			if len(h.vers) < 2 && x.Flag("publish after "+p) {
				h.publish(cver0("2"))
			}
			spoil([]string{"", "late", "latebody"}[x.Fault(3, "answer for "+p)], "", rep, nil)
		}
		var gs []*vsched.G
		for _, c := range pair {
			c := c
			gs = append(gs, vsched.GoIn(x.W.Env, "clients", func() {
				for _, p := range progs[c] {
					if !x.Failed() {
						k.get("u/" + p)
					}
				}
			}))
		}
		vsched.Join(gs...)
		if x.Failed() {
			return
		}
		x.Freeze(true)
		k.get("u/" + cItem)
		vsched.Sleep(11 * time.Second)
		k.get("u/" + cItem)
		k.get("u/" + cPkg)
		k.get("u/" + cItem)
		h.judge()
		s := ""
		for _, r := range k.all {
			s += fmt.Sprint(" ", r.status)
		}
		x.Outcome("%s", s)
	})
}

// ---------------------------------------------------------------- C02

// oneFetch checks that no file is fetched twice at the same time.
func (k *ckit) oneFetch() {
	open := map[string]*vhttp.Request{}
	k.up.OnOpen = func(r *vhttp.Request, n int) {
		key := r.Host + r.Path
		if o := open[key]; o != nil && o.Open {
			k.x.Failf("two-fetches", "%s is fetched while request %d for it is still in progress (request %d)", r.Path, o.N, r.N)
		}
		open[key] = r
	}
}

// outcome kinds of an upstream fetch, and the status clients must see.
var cOutcomes = []struct {
	mode   string
	status int
}{{"", 200}, {"404", 404}, {"503", 503}, {"refused", 500}, {"cut", 500}, {"corrupt", 500}, {"403", 403}}

func c02late(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = []int{0, 3}[x.Free(2, "cache_period")]
	k.cfg.MaxConns = []int{10, 0, 1}[x.Free(3, "max_conns")]
	p := []string{cItem, cRel, cPkg}[x.Free(3, "file")]
	o := cOutcomes[x.Free(len(cOutcomes), "outcome")]
	stale := p != cRel && x.Flag("outdated in the cache")
	if p == cRel && o.mode == "corrupt" {
		return
	}
	v1, v2 := cver0("1"), cver0("2")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		if p != cRel {
			k.get("u/" + cRel)
			if p == cItem || stale {
				k.get("u/" + cPkg)
			}
			if stale {
				k.get("u/" + cItem)
				k.publish("u", v2.files)
				vsched.Sleep(11 * time.Second) // refreshed Release
				if p == cItem {
					k.get("u/" + cPkg)
				}
			}
		}
		x.Freeze(false)
		k.oneFetch()
		t0 := x.W.Since()
		from := len(k.up.Log)
		k.fault = func(q string, r *vhttp.Request, rep *vhttp.Reply) {
			if q != "u/"+p {
				return
			}
			spoil(o.mode, "", rep, nil)
			rep.Delay = 4 * time.Second
			rep.BodyDelay = 3 * time.Second
			if rep.Status == 0 {
				rep.Delay = 7 * time.Second
			}
		}
		rs := []*cresp{k.send("GET", "u/"+p)}
		rs = append(rs, k.send([]string{"GET", "HEAD"}[x.Free(2, "second")], "u/"+p))
		vsched.Sleep(2 * time.Second)
		rs = append(rs, k.send("GET", "u/"+p))
		vsched.Sleep(3 * time.Second)
		rs = append(rs, k.send("GET", "u/"+p))
		if !k.answered(rs...) {
			return
		}
		if n := k.fetches("u/"+p) - countTo(k, from, p); n != 1 {
			x.Failf("fetched-again", "%d fetches of %s for requests during one fetch", n, p)
		}
		for _, r := range rs {
			if r.status != o.status {
				x.Failf("not-shared", "%s although the fetch it waited for ended with %d (%s)", r, o.status, o.mode)
			}
			if r.status == 200 && r.method == "GET" && r.body != string(k.cur["u"][p]) {
				x.Failf("not-shared", "%s: not the fetched body", r)
			}
		}
		// still valid: no upstream
		if o.status == 200 && p != cRel {
			n := len(k.up.Log)
			r := k.get("u/" + p)
			c := 0
			for _, q := range k.up.Log[n:] {
				if !isRelease(q.Path) {
					c++
				}
			}
			if r.status != 200 || c != 0 {
				x.Failf("fetched-valid", "%s, %d upstream requests for a cached file", r, c)
			}
		}
		x.Outcome("%s %d after %v", o.mode, rs[0].status, x.W.Since()-t0)
	})
}

func countTo(k *ckit, n int, p string) int {
	c := 0
	for _, r := range k.up.Log[:n] {
		if _, q := k.split(r); q == p {
			c++
		}
	}
	return c
}

func c02schedule(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = []int{0, 3}[x.Free(2, "cache_period")]
	p := []string{cItem, cRel}[x.Free(2, "file")]
	o := cOutcomes[[]int{0, 1, 4, 5}[x.Free(4, "outcome")]]
	if p == cRel && o.mode == "corrupt" {
		return
	}
	second := []string{p, cPkg}[x.Free(2, "second client wants")]
	x.World(func() {
		x.Freeze(true)
		k.publish("u", cver0("1").files)
		if !k.mustStart() {
			return
		}
		k.get("u/" + cRel)
		if p == cItem {
			k.get("u/" + cPkg)
		} else if t := 10*time.Second - x.W.Since(); t > 0 {
			k.publish("u", cver0("2").files)
			vsched.Sleep(t)
		}
		x.Freeze(false)
		k.oneFetch()
		k.fault = func(q string, r *vhttp.Request, rep *vhttp.Reply) {
			if q == "u/"+p {
				spoil(o.mode, "", rep, nil)
			}
		}
		n0 := k.fetches("u/" + p)
		rs := []*cresp{k.send("GET", "u/"+p), k.send("GET", "u/"+second), k.send("GET", "u/"+p)}
		if !k.answered(rs...) {
			return
		}
		for _, r := range rs {
			if strings.HasSuffix(r.path, p) && p != cRel && r.status != o.status {
				x.Failf("status", "%s although each fetch ends with %d (%s)", r, o.status, o.mode)
			}
			if strings.HasSuffix(r.path, p) && p == cRel && r.status != 200 {
				x.Failf("status", "%s although the file is cached", r)
			}
		}
		n := k.fetches("u/"+p) - n0
		max := 1
		if k.cfg.CachePeriod == 0 && o.status != 200 {
			max = 3
		}
		if p == cRel {
			max = 1
		}
		if n > max {
			x.Failf("fetched-again", "%d fetches of %s", n, p)
		}
		x.Outcome("%s %d", o.mode, n)
	})
}

// c02outdated: a Release is refreshed while an index or item is fetched.
func c02outdated(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 3
	late := x.Flag("late body")
	upd := []string{"before", "during", "never"}[x.Free(3, "the file changes upstream")]
	v1, v2 := cver0("1"), cver0("2")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		k.get("u/" + cRel)
		if t := 8*time.Second - x.W.Since(); t > 0 {
			vsched.Sleep(t)
		}
		x.Freeze(false)
		k.oneFetch()
		k.fault = func(q string, r *vhttp.Request, rep *vhttp.Reply) {
			if q == "u/"+cPkg && x.W.Since() < 9*time.Second {
				if late {
					rep.BodyDelay = 4 * time.Second
				} else {
					rep.Delay = 4 * time.Second
				}
			}
			if q == "u/"+cPkg && upd == "never" {
				rep.Body = v1.files[cPkg]
			}
		}
		if upd == "before" {
			k.publish("u", v2.files)
		}
		rs := []*cresp{k.send("GET", "u/"+cPkg), k.send("GET", "u/"+cPkg)}
		vsched.Sleep(time.Second)
		if upd == "during" || upd == "never" {
			k.publish("u", v2.files)
		}
		vsched.Sleep(2500 * time.Millisecond) // the refresh happens in between
		rs = append(rs, k.send("GET", "u/"+cPkg))
		if !k.answered(rs...) {
			return
		}
		if n := k.fetches("u/" + cPkg); n > 2 {
			x.Failf("fetched-again", "%d fetches of an index that changed once", n)
		}
		rs = append(rs, k.get("u/"+cPkg))
		if rs[3].status != rs[2].status {
			x.Failf("not-shared", "%s and then %s", rs[2], rs[3])
		}
		if r := rs[3]; upd != "never" && (r.status != 200 || r.body != string(v2.files[cPkg])) {
			// "before": the data did not match the old Release; the failure
			// is remembered for the cache period only
			if upd != "before" {
				x.Failf("status", "%s although the upstream has the new version", r)
			}
		}
		x.Outcome("%s %d %d %d", upd, rs[0].status, rs[2].status, rs[3].status)
	})
}

// ---------------------------------------------------------------- C03

func (k *ckit) hostLimit() {
	k.up.OnOpen = func(r *vhttp.Request, open int) {
		if n := k.cfg.MaxConns; n > 0 && open > n {
			k.x.Failf("limit", "%d connections are open to %s with max_conns = %d (requesting %s)", open, r.Host, n, r.Path)
		}
	}
}

// allSlots checks that max_conns slow requests per host run at once.
func (k *ckit) allSlots(hosts ...string) {
	k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
		rep.Delay, rep.BodyDelay = 10*time.Second, 10*time.Second
	}
	n := k.cfg.MaxConns
	want := n
	if n == 0 {
		want = 5
	}
	var rs []*cresp
	for i := 0; i < want+1; i++ {
		for _, h := range hosts {
			rs = append(rs, k.send("GET", fmt.Sprintf("%s/pool/slot%d.deb", h, i)))
		}
	}
	if n == 0 {
		want++
	}
	vsched.Sleep(time.Second)
	for _, h := range hosts {
		if o := k.up.Open("up-" + h); o != want {
			k.x.Failf("slot-lost", "%d of %d possible connections to %s are in use although requests wait", o, want, h)
		}
	}
	vsched.Sleep(14 * time.Second)
	for _, h := range hosts {
		if o := k.up.Open("up-" + h); o != want {
			k.x.Failf("limit", "%d of %d possible connections to %s are in use during the transfer", o, want, h)
		}
	}
	if !k.answered(rs...) {
		return
	}
	for _, r := range rs {
		if r.status != 200 {
			k.x.Failf("slot-lost", "%s", r)
		}
	}
	k.fault = nil
}

func manyFiles(n int) map[string][]byte {
	m := map[string][]byte{}
	for i := 0; i < n; i++ {
		m[fmt.Sprintf("pool/f%d.deb", i)] = []byte(fmt.Sprint("file ", i))
		m[fmt.Sprintf("pool/slot%d.deb", i)] = []byte(fmt.Sprint("slot ", i))
	}
	for p, b := range cver0("1").files {
		m[p] = b
	}
	return m
}

var c03modes = []string{"", "404", "503", "refused", "cut", "corrupt", "latebody", "empty"}

func c03limit(x *explore.X) {
	k := newCkit(x, "a", "b")
	k.cfg.MaxConns = x.Free(4, "max_conns")
	k.cfg.CachePeriod = 0
	x.World(func() {
		k.publish("a", manyFiles(8))
		k.publish("b", manyFiles(8))
		if !k.mustStart() {
			return
		}
		k.hostLimit()
		x.Freeze(true)
		k.get("a/" + cRel)
		k.get("a/" + cPkg)
		x.Freeze(false)
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			rep.Delay = time.Second
			m := c03modes[x.Fault(len(c03modes), "answer for "+p)]
			spoil(m, "", rep, nil)
			rep.Delay = time.Second
		}
		var rs []*cresp
		for _, p := range []string{"pool/f0.deb", "pool/f1.deb", "pool/f2.deb", cItem, "pool/none.deb"} {
			rs = append(rs, k.send("GET", "a/"+p))
		}
		rs = append(rs, k.send("GET", "b/pool/f0.deb"))
		if !k.answered(rs...) {
			return
		}
		k.allSlots("a", "b")
		if k.up.Total() != 0 {
			x.Failf("leak", "%d connections are still open", k.up.Total())
		}
		x.Outcome("%d %d", k.up.Max("up-a"), k.up.Max("up-b"))
	})
}

func c03schedule(x *explore.X) {
	k := newCkit(x, "a", "b")
	k.cfg.MaxConns = 1 + x.Free(2, "max_conns")
	k.cfg.CachePeriod = 0
	x.World(func() {
		k.publish("a", manyFiles(8))
		k.publish("b", manyFiles(8))
		x.Freeze(true)
		if !k.mustStart() {
			return
		}
		k.hostLimit()
		x.Freeze(false)
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			spoil([]string{"", "404", "refused", "cut"}[x.Fault(4, "answer for "+p)], "", rep, nil)
		}
		var rs []*cresp
		for _, p := range []string{"a/pool/f0.deb", "a/pool/f1.deb", "a/pool/f0.deb", "b/pool/f0.deb"} {
			rs = append(rs, k.send("GET", p))
		}
		if !k.answered(rs...) {
			return
		}
		x.Freeze(true)
		k.allSlots("a", "b")
		x.Outcome("%d %d", k.up.Max("up-a"), k.up.Max("up-b"))
	})
}

func c03local(x *explore.X) {
	k := newCkit(x, "a")
	k.cfg.MaxConns = 1 + x.Free(2, "max_conns")
	k.cfg.CachePeriod = 0
	x.World(func() {
		k.publish("a", manyFiles(8))
		if !k.mustStart() {
			return
		}
		k.hostLimit()
		k.fsFault()
		rs := []*cresp{k.send("GET", "a/"+cRel), k.send("GET", "a/pool/f1.deb"), k.send("GET", "a/pool/f2.deb")}
		if !k.answered(rs...) {
			return
		}
		k.fs.Fault = nil
		k.allSlots("a")
		if k.up.Total() != 0 {
			x.Failf("leak", "%d connections are still open", k.up.Total())
		}
		x.Outcome("%d %d %d", rs[0].status, rs[1].status, rs[2].status)
	})
}
