package props

import (
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
	"vmc/vwell"
)

func init() {
	sc := func(name, doc string, weight int, quick, deep explore.Bounds, run func(x *explore.X)) *explore.Scenario {
		return &explore.Scenario{Name: name, Doc: doc, Quick: quick, Deep: deep, Weight: weight,
			Mask: vsched.CatSync | vsched.CatChan | vsched.CatHTTP | vsched.CatGo, Race: true, NoPrio: true, Run: run}
	}
	s1, s2 := explore.Bounds{Sched: 1, Total: 1}, explore.Bounds{Sched: 2, Total: 2}
	f1, f2 := explore.Bounds{Fault: 1, Total: 1}, explore.Bounds{Fault: 1, Sched: 1, Total: 2}
	register("C13", "model_checking", append([]string{"data races are reported by the Go race detector on the explored executions; the controlled scheduler adds no happens-before edges, the replaced synchronisation primitives add exactly those of the originals"}, cacherAssume...),
		sc("clients", "three clients request Release files, indices and items at once, cached, outdated or not, max_conns 0 to 2", 3, s1, s2, c13clients),
		sc("refresh", "two clients during the check that finds a new version, in a new or restarted program", 3, s1, s2, c13refresh),
		sc("evict", "three clients request items that do not fit into the cache together", 2, s1, s2, c13evict),
		sc("expire", "requests while failures are remembered and forgotten", 2, s1, s2, c13expire),
		sc("failures", "one bad answer or failing operation", 2, f1, f2, c13failures),
		sc("start", "startup with several cached Release files of several repositories, also unmapped, then nothing but checks, then clients", 1, s1, s2, c13start),
		sc("signal", "SIGTERM at any operation", 1, f1, f2, c13signal),
	)
}

func c13clients(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.MaxConns = x.Free(3, "max_conns")
	progs := [][3]string{{cRel, cPkg, cItem}, {cItem, cItem, cItem}, {cPkg, cPkg, cPkg + ".gz"}, {cRel, cRel, "dists/s/Release.gpg"}, {cPkg, cPkg + ".gz", cRel}, {cItem, cKeep, cPkg}}
	pr := progs[x.Free(len(progs), "requests")]
	before := x.Free(4, "cached before")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", cver0("1").files)
		if !k.mustStart() {
			return
		}
		if before > 0 {
			k.get("u/" + cRel)
		}
		if before > 1 {
			k.get("u/" + cPkg)
			k.get("u/" + cItem)
		}
		if before > 2 {
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		x.Freeze(false)
		k.answered(k.send("GET", "u/"+pr[0]), k.send("GET", "u/"+pr[1]), k.send("HEAD", "u/"+pr[2]))
		x.Outcome("%d", before)
	})
}

func c13refresh(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.MaxConns = 2 * x.Free(2, "max_conns")
	names := [][]string{{"Release", "Release.gpg"}, {"InRelease"}, {"InRelease", "Release", "Release.gpg"}}[x.Free(3, "Release files")]
	progs := [][2]string{{cPkg, cItem}, {cItem, cItem}, {"dists/s/" + names[0], cPkg}, {cPkg, cPkg + ".gz"}}
	pr := progs[x.Free(len(progs), "requests")]
	restart := x.Flag("restart")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", cver0("1", names...).files)
		if !k.mustStart() {
			return
		}
		for _, n := range names {
			k.get("u/dists/s/" + n)
		}
		k.get("u/" + cPkg)
		k.get("u/" + cItem)
		if restart {
			k.stop()
			if !k.mustStart() {
				return
			}
		}
		k.publish("u", cver0("2", names...).files)
		t := 10 * time.Second
		if !restart {
			t -= x.W.Since()
		}
		if t > 0 {
			vsched.Sleep(t)
		}
		x.Freeze(false)
		if !k.answered(k.send("GET", "u/"+pr[0]), k.send("GET", "u/"+pr[1])) {
			return
		}
		vsched.Sleep(11 * time.Second)
		k.answered(k.send("GET", "u/"+pr[0]), k.send("GET", "u/"+pr[1]))
		x.Outcome("%v", restart)
	})
}

func c13evict(x *explore.X) {
	k := newCkit(x)
	k.cfg.CacheCapacity = 1
	listed := x.Flag("listed")
	before := x.Free(3, "cached before")
	progs := [][3]string{{"pool/a.deb", "pool/b.deb", "pool/c.deb"}, {"pool/d.deb", "pool/a.deb", "pool/a.deb"}, {"pool/d.deb", "pool/c.deb", "pool/d.deb"}}
	pr := progs[x.Free(len(progs), "requests")]
	x.World(func() {
		x.Freeze(true)
		k.publish("u", c12repo("1").files)
		if !k.mustStart() {
			return
		}
		if listed {
			k.get("u/" + cPkg)
		}
		for _, p := range []string{"pool/a.deb", "pool/b.deb"}[:before] {
			k.get("u/" + p)
		}
		x.Freeze(false)
		k.answered(k.send("GET", "u/"+pr[0]), k.send("GET", "u/"+pr[1]), k.send("GET", "u/"+pr[2]))
		x.Outcome("%v", listed)
	})
}

func c13expire(x *explore.X) {
	k := newCkit(x)
	k.cfg.CachePeriod = x.Free(3, "cache_period")
	// accesses separated by idle time count as ordered; so requests come
	// at the very moment of expiry as well
	moment := time.Duration(x.Free(5, "moment")) * time.Second / 2
	bad := []string{"404", "refused", "cut"}[x.Free(3, "failure")]
	again := x.Flag("works later")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", cver0("1").files)
		if !k.mustStart() {
			return
		}
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			_, q := k.split(r)
			if q == cItem {
				oddAnswer(bad, q, r, rep, nil)
			}
		}
		x.Freeze(false)
		a, b := k.send("GET", "u/"+cItem), k.send("GET", "u/"+cKeep)
		if !k.answered(a, b) {
			return
		}
		if again {
			k.fault = nil
		}
		vsched.Sleep(moment)
		if !k.answered(k.send("GET", "u/"+cItem), k.send("GET", "u/pool/none"), k.send("GET", "u/"+cPkg)) {
			return
		}
		vsched.Sleep(4 * time.Second)
		k.get("u/" + cItem)
		x.Outcome("%v", again)
	})
}

func c13failures(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 1
	k.cfg.MaxConns = x.Free(2, "max_conns")
	x.World(func() {
		x.Freeze(true)
		k.publish("u", cver0("1").files)
		if !k.mustStart() {
			return
		}
		k.get("u/" + cRel)
		k.get("u/" + cPkg)
		k.publish("u", cver0("2").files)
		if t := 10*time.Second - x.W.Since(); t > 0 {
			vsched.Sleep(t)
		}
		x.Freeze(false)
		k.fsFault()
		k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) {
			m := []string{"", "503", "refused", "cut", "corrupt", "late"}
			_, q := k.split(r)
			oddAnswer(m[x.Fault(len(m), "answer for "+p)], q, r, rep, nil)
		}
		rs := []*cresp{k.send("GET", "u/"+cPkg), k.send("GET", "u/"+cItem), k.send("GET", "u/"+cItem)}
		k.answered(rs...)
		vsched.Sleep(12 * time.Second)
		if x.Failed() {
			return
		}
		k.answered(k.send("GET", "u/"+cItem), k.send("GET", "u/"+cPkg))
		x.Outcome("ok")
	})
}

func c13start(x *explore.X) {
	k := newCkit(x, "u", "v", "w")
	k.cfg.CheckInterval = 10
	names := []string{"Release", "Release.gpg", "InRelease"}
	unmap := x.Flag("a prefix is unmapped")
	changed := x.Flag("upstream changed")
	x.World(func() {
		x.Freeze(true)
		for _, p := range []string{"u", "v", "w"} {
			k.publish(p, cver0("1", names...).files)
		}
		if !k.mustStart() {
			return
		}
		for _, p := range []string{"u", "v", "w"} {
			for _, f := range []string{cRel, "dists/s/InRelease", "dists/s/Release.gpg", cPkg, cItem} {
				k.get(p + "/" + f)
			}
		}
		k.stop()
		if unmap {
			delete(k.cfg.Mapping, "w")
		}
		if changed {
			for _, p := range []string{"u", "v", "w"} {
				k.publish(p, cver0("2", names...).files)
			}
		}
		x.Freeze(false)
		if !k.mustStart() {
			return
		}
		vsched.Sleep(11 * time.Second)
		k.answered(k.send("GET", "u/"+cPkg), k.send("GET", "v/"+cItem), k.send("GET", "v/"+cRel))
		x.Outcome("%v", unmap)
	})
}

func c13signal(x *explore.X) {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 2
	x.World(func() {
		x.Freeze(true)
		k.publish("u", cver0("1").files)
		if !k.mustStart() {
			return
		}
		k.get("u/" + cRel)
		k.get("u/pool/none")
		x.Freeze(false)
		k.signals()
		rs := []*cresp{k.send("GET", "u/"+cPkg), k.send("GET", "u/"+cItem), k.send("GET", "u/"+cItem)}
		k.wait(patience, rs...)
		vsched.GoIn(k.p, "main", func() { vwell.Wait() })
		k.wait(patience, rs...)
		x.Outcome("%v", k.signalled)
	})
}
