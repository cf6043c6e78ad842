package props

import (
	"fmt"
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
	"vmc/vwell"
)

func init() {
	register("C04", "model_checking", append([]string{"an upstream answers or breaks the connection after a finite time (requests have a timeout of 30 minutes)"}, cacherAssume...),
		&explore.Scenario{
			Name: "upstream", Doc: "programs of requests with any two (three) upstream answers replaced (errors, odd statuses, redirects, truncated, corrupt for ever, too large, late), cache_period 0 and 3, max_conns 0 to 2, refreshes and restart",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 3, Run: c04upstream,
		},
		&explore.Scenario{
			Name: "large", Doc: "every size of an item and of a second one around the capacity (64 units), listed or not, both wanted by two clients each",
			Quick: explore.Bounds{}, Deep: explore.Bounds{Sched: 1, Total: 1}, Mask: cMask, Weight: 1, Run: c04large,
		},
		&explore.Scenario{
			Name: "local", Doc: "any two (three) failing file system operations at every point of serving, refreshing and evicting: all requests are answered and the program goes on",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: c04local,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "three clients and the refresh with one bad upstream answer or failing system call under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Fault: 1, Total: 2}, Deep: explore.Bounds{Sched: 2, Fault: 2, Total: 3}, Mask: cMask, Weight: 4, Run: c04schedule,
		},
		&explore.Scenario{
			Name: "shutdown", Doc: "SIGTERM at any request or file system operation: all background work ends; without a signal requests are answered",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 1, Sched: 1, Total: 2}, Mask: cMask, Weight: 1, Run: c04shutdown,
		},
		&explore.Scenario{
			Name: "program", Doc: "the program itself with requests and a check of the Release file at the moment of SIGTERM: requests that were accepted are answered and the program ends with status 0; without a signal it goes on",
			Quick: explore.Bounds{Sched: 2, Total: 2}, Deep: explore.Bounds{Sched: 3, Total: 3}, Mask: cMask, Weight: 2, Run: c04program,
		},
	)
}

var c04modes = []string{"", "404", "503", "403", "refused", "cut", "cutend", "corrupt", "short", "longer", "empty", "stale", "late", "latebody",
	"s100", "s101", "s199", "s204", "s206", "s299", "s304", "s401", "s416", "s599", "s999", "s1", "redirect", "redirect-loop", "redirect-bad", "nolen", "huge"}

// oddAnswer extends spoil.
func oddAnswer(m, q string, r *vhttp.Request, rep *vhttp.Reply, old map[string][]byte) {
	if len(m) > 1 && m[0] == 's' && m[1] >= '0' && m[1] <= '9' {
		var n int
		fmt.Sscan(m[1:], &n)
		rep.Status = n
		if n < 200 || n == 204 || n == 304 {
			rep.Body = nil
		}
		return
	}
	loc := func(s string) {
		*rep = vhttp.Reply{Status: 302, Header: map[string][]string{"Location": {s}}}
	}
	switch m {
	case "redirect":
		if r.Query == "" {
			loc("http://" + r.Host + r.Path + "?moved")
		}
	case "redirect-loop":
		loc(r.Raw)
	case "redirect-bad":
		loc("http://%zz/")
	case "nolen":
		rep.NoLen = true
	case "huge":
		if rep.Status == 200 {
			rep.Body = append(append([]byte(nil), rep.Body...), make([]byte, vsched.GiB+1)...)
		}
	default:
		spoil(m, q, rep, old)
	}
}

// bounded checks the number of upstream requests for one path.
func (k *ckit) bounded(p string, max int) {
	if n := k.fetches(p); n > max {
		k.x.Failf("unbounded", "%d upstream requests for %s", n, p)
	}
}

func c04upstream(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = []int{0, 3}[x.Free(2, "cache_period")]
	k.cfg.MaxConns = []int{0, 1, 2}[x.Free(3, "max_conns")]
	restart := x.Flag("restart")
	for_ever := x.Flag("bad answers for ever")
	v1, v2 := cver0("1"), cver0("2")
	x.World(func() {
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		mode := map[string]string{}
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			m, ok := mode[p]
			if !ok {
				m = c04modes[x.Fault(len(c04modes), "answer for "+p)]
				if for_ever {
					mode[p] = m
				}
			}
			_, q := k.split(r)
			oddAnswer(m, q, r, rep, v1.files)
		}
		all := func(ps ...string) bool {
			var rs []*cresp
			for i, p := range ps {
				rs = append(rs, k.send([]string{"GET", "HEAD"}[i&1], "u/"+p))
			}
			return k.answered(rs...)
		}
		if !all(cRel, cPkg, cItem, cItem, "pool/none.deb") || !all(cPkg+".gz", cItem, cKeep) {
			return
		}
		k.publish("u", v2.files)
		vsched.Sleep(11 * time.Second)
		if restart {
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		if !all(cItem, cPkg, cRel, cItem) || !all(cItem, cRel) {
			return
		}
		for _, p := range []string{cRel, cPkg, cItem, cKeep} {
			k.bounded("u/"+p, 100) // a redirection loop takes ten requests
		}
		s := ""
		for _, r := range k.all {
			if r.status < 200 || r.status > 999 {
				x.Failf("status", "%s", r)
			}
			s += fmt.Sprint(" ", r.status)
		}
		x.Outcome("%s", s)
	})
}

func c04large(x *explore.X) {
	unit := vsched.GiB
	sizes := []int{0, 1, unit / 2, unit - 1, unit, unit + 1, 2 * unit, 2*unit + 1}
	a, b := sizes[x.Free(len(sizes), "size")], sizes[x.Free(len(sizes), "other size")]
	listed := x.Flag("listed")
	k := newCkit(x)
	k.cfg.CacheCapacity = 1 + x.Free(2, "capacity")
	k.cfg.CachePeriod = 3 * x.Free(2, "cache_period")
	body := func(n int, c byte) string {
		s := make([]byte, n)
		for i := range s {
			s[i] = c
		}
		return string(s)
	}
	r := crepo("1")
	r.suites[0].indices[0].items = []ritem{it("pool/a.deb", body(a, 'a')), it("pool/b.deb", body(b, 'b'))}
	v := newCver(r)
	x.World(func() {
		k.publish("u", v.files)
		x.Freeze(true)
		if !k.mustStart() {
			return
		}
		if listed {
			k.get("u/" + cRel)
			k.get("u/" + cPkg)
		}
		x.Freeze(false)
		rs := []*cresp{k.send("GET", "u/pool/a.deb"), k.send("GET", "u/pool/b.deb"), k.send("GET", "u/pool/a.deb"), k.send("HEAD", "u/pool/b.deb")}
		if !k.answered(rs...) {
			return
		}
		rs = append(rs, k.get("u/pool/a.deb"), k.get("u/pool/b.deb"))
		capacity := k.cfg.CacheCapacity * unit
		for _, r := range rs {
			n := a
			if r.path == "u/pool/b.deb" {
				n = b
			}
			if r.status == 200 && r.method == "GET" && len(r.body) != n {
				x.Failf("body", "%d bytes instead of %d", len(r.body), n)
			}
			// both fit: nothing may fail
			if a+b <= capacity && r.status != 200 {
				x.Failf("fits", "%s although everything fits", r)
			}
		}
		used := 0
		for _, s := range k.disk(ccache) {
			used += len(s)
		}
		if used > capacity {
			x.Failf("capacity", "%d bytes are cached, capacity %d", used, capacity)
		}
		for _, p := range []string{"u/pool/a.deb", "u/pool/b.deb"} {
			k.bounded(p, 10)
		}
		x.Outcome("%d %d %d %d", rs[0].status, rs[1].status, rs[4].status, rs[5].status)
	})
}

func c04local(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 3 * x.Free(2, "cache_period")
	small := x.Flag("small cache")
	v1, v2 := cver0("1"), cver0("2")
	x.World(func() {
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		k.fsFault()
		all := func(ps ...string) bool {
			var rs []*cresp
			for _, p := range ps {
				rs = append(rs, k.send("GET", "u/"+p))
			}
			return k.answered(rs...)
		}
		if small && vsched.GiB == 64 {
			m := map[string][]byte{}
			for p, b := range v1.files {
				m[p] = b
			}
			for i := 0; i < 4; i++ {
				m[fmt.Sprintf("pool/l%d.deb", i)] = make([]byte, 30)
			}
			k.publish("u", m)
			if !all("pool/l0.deb", "pool/l1.deb") || !all("pool/l2.deb", "pool/l3.deb", "pool/l0.deb") {
				return
			}
		} else {
			if !all(cRel) || !all(cPkg) || !all(cItem, cItem, cKeep) {
				return
			}
			k.publish("u", v2.files)
			vsched.Sleep(11 * time.Second)
			if !all(cRel, cItem) || !all(cPkg) || !all(cItem) {
				return
			}
		}
		k.fs.Fault = nil
		vsched.Sleep(11 * time.Second)
		// afterwards everything works again
		for _, p := range []string{cRel, cPkg, "pool/none.deb", "Xtra/new.deb"} {
			if x.Failed() {
				return
			}
			if r := k.get("u/" + p); r.status != 200 && r.status != 404 {
				x.Failf("broken", "%s, long after one system call failed", r)
			}
		}
		s := ""
		for _, r := range k.all {
			s += fmt.Sprint(" ", r.status)
		}
		x.Outcome("%s", s)
	})
}

func c04schedule(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 3 * x.Free(2, "cache_period")
	k.cfg.MaxConns = x.Free(3, "max_conns")
	progs := [][3]string{{cItem, cItem, cPkg}, {cRel, cPkg, cItem}, {cItem, cKeep, cItem}}
	pr := progs[x.Free(3, "requests")]
	v1, v2 := cver0("1"), cver0("2")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		k.get("u/" + cRel)
		k.get("u/" + cPkg)
		k.publish("u", v2.files)
		if t := 10*time.Second - x.W.Since(); t > 0 {
			vsched.Sleep(t)
		}
		x.Freeze(false)
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			m := []string{"", "503", "refused", "cut", "corrupt", "huge", "late", "s100"}
			_, q := k.split(r)
			oddAnswer(m[x.Fault(len(m), "answer for "+p)], q, r, rep, nil)
		}
		k.fs.Fault = func(op, p string) error {
			if op != "read" && op != "close" && x.Fault(2, "fs fault: "+op+" "+p) == 1 {
				return errIO
			}
			return nil
		}
		rs := []*cresp{k.send("GET", "u/"+pr[0]), k.send("GET", "u/"+pr[1]), k.send("GET", "u/"+pr[2])}
		if !k.answered(rs...) {
			return
		}
		k.fs.Fault = nil
		k.fault = nil
		x.Freeze(true)
		vsched.Sleep(11 * time.Second)
		for _, p := range []string{cPkg, cItem, cKeep, cRel} {
			if x.Failed() {
				return
			}
			if r := k.get("u/" + p); r.status != 200 || r.body != string(v2.files[p]) {
				x.Failf("broken", "%s, long after everything works again", r)
			}
		}
		x.Outcome("%d %d %d", rs[0].status, rs[1].status, rs[2].status)
	})
}

func c04shutdown(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	v1 := cver0("1")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", v1.files)
		if !k.mustStart() {
			return
		}
		k.get("u/" + cRel)
		x.Freeze(false)
		k.signals()
		rs := []*cresp{k.send("GET", "u/"+cPkg), k.send("GET", "u/"+cItem), k.send("GET", "u/"+cItem)}
		ok := k.wait(patience, rs...)
		if k.signalled {
			// the program can end: nothing it runs in the background goes on
			ended := false
			vsched.GoIn(k.p, "main", func() { vwell.Wait(); ended = true })
			late := false
			vsched.AfterFunc(patience, func() { late = true })
			vsched.WaitFor(0, "end", func() bool { return ended || late })
			if !ended {
				x.Failf("no-end", "background work goes on %v after SIGTERM", patience)
			}
			n := 0
			k.wait(patience, rs...)
			for _, r := range rs {
				if r.done {
					n++
				} else {
					x.Failf("unanswered", "%s %s is not answered; the program was to end", r.method, r.path)
				}
			}
			x.Outcome("signalled, %d answered", n)
			return
		}
		if !ok {
			k.answered(rs...)
		}
		x.Outcome("%d %d %d", rs[0].status, rs[1].status, rs[2].status)
	})
}
