package props

import (
	"strings"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
)

func init() {
	sc := func(name, doc string, quick, deep explore.Bounds, mask int, run func(x *explore.X)) *explore.Scenario {
		return &explore.Scenario{Name: name, Doc: doc, Quick: quick, Deep: deep, Mask: mask, Race: true, NoPrio: true, Run: run}
	}
	s1, s2 := explore.Bounds{Sched: 1, Total: 1}, explore.Bounds{Sched: 2, Total: 2}
	mask := vsched.CatSync | vsched.CatChan | vsched.CatHTTP | vsched.CatGo
	register("M14", "model_checking", append([]string{"data races are reported by the Go race detector on the explored executions; the controlled scheduler adds no happens-before edges, the replaced synchronisation primitives add exactly those of the originals"}, mirrorAssume...),
		sc("reuse", "an update that reuses some and downloads other indices and items, with and without by-hash, 1, 2 and unlimited connections", s1, s2, mask, m14reuse),
		sc("mirrors", "two mirrors updated together", s1, s2, vsched.CatHTTP|vsched.CatGo|vsched.CatChan|vsched.CatSync, m14mirrors),
		sc("zoo", "every kind of repository, twice, default schedule and reversed map order", explore.Bounds{}, s1, netMask, m14zoo),
		sc("failures", "one bad file or failing operation", explore.Bounds{Fault: 1, Total: 1}, explore.Bounds{Fault: 1, Sched: 1, Total: 2}, netMask, m14failures),
		sc("fallback", "all canonical indices stale, by-hash used", s1, s2, netMask, m14fallback),
		sc("signal", "SIGTERM at any operation", explore.Bounds{Fault: 1, Total: 1}, explore.Bounds{Fault: 1, Sched: 1, Total: 2}, netMask, m14signal),
	)
}

func m14reuse(x *explore.X) {
	byhash := x.Flag("byhash")
	fresh := x.Flag("first run")
	k := newMkit(x, []int{2, 0}[x.Free(2, "conns")], m13spec("m"))
	x.World(func() {
		if !fresh {
			prep(k, one("m", m13ver("m", "1", byhash)))
		}
		k.cur = one("m", m13ver("m", "2", byhash))
		if err := k.run(); err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
		}
		x.Outcome("ok")
	})
}

func m14mirrors(x *explore.X) {
	byhash := x.Flag("byhash")
	k := newMkit(x, 2, m13spec("m"), m13spec("n"))
	x.World(func() {
		prep(k, map[string]*mver{"m": m13ver("m", "1", byhash), "n": m13ver("n", "1", byhash)})
		k.cur = map[string]*mver{"m": m13ver("m", "2", byhash), "n": m13ver("n", "2", byhash)}
		if err := k.run(); err != nil {
			x.Failf("run-failed", "a run against healthy upstreams failed: %v", err)
		}
		x.Outcome("ok")
	})
}

func m14zoo(x *explore.X) {
	i := x.Free(len(zoo), "repository")
	w := &vsched.World{Mask: x.Sc.Mask, MapDesc: x.Flag("map order")}
	k := newMkit(x, 3, zoo[i].sp)
	x.RunWorld(w, func() {
		for _, ver := range []string{"1", "2"} {
			k.cur = one("m", zooVer(i, ver))
			if err := k.run(); err != nil {
				x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
				return
			}
			nextSecond()
		}
		x.Outcome("ok")
	})
}

func m14failures(x *explore.X) {
	byhash := !x.Deep || x.Flag("byhash")
	two := x.Flag("two mirrors")
	specs := []*mspec{m13spec("m")}
	if two {
		specs = append(specs, m13spec("n"))
	}
	k := newMkit(x, 2, specs...)
	x.World(func() {
		old, cur := map[string]*mver{}, map[string]*mver{}
		for _, s := range specs {
			old[s.id], cur[s.id] = m13ver(s.id, "1", byhash), m13ver(s.id, "2", byhash)
		}
		prep(k, old)
		k.cur = cur
		k.fsFault("")
		k.pathFaults([]string{"", "corrupt", "cut", "403", "refused"}, false, nil)
		err := k.run()
		k.fs.Fault = nil
		x.Outcome("err=%v", err != nil)
	})
}

func m14signal(x *explore.X) {
	byhash := x.Flag("byhash")
	k := newMkit(x, 2, m13spec("m"))
	x.World(func() {
		prep(k, one("m", m13ver("m", "1", byhash)))
		k.cur = one("m", m13ver("m", "2", byhash))
		err, _ := k.runSignal()
		x.Outcome("err=%v", err != nil)
	})
}

func m14fallback(x *explore.X) {
	prev := x.Flag("update")
	k := newMkit(x, 3, smallSpec)
	x.World(func() {
		x.Freeze(true)
		if prev {
			prep(k, one("m", newVer(smallSpec, m10repo("1", true, nil))))
		}
		x.Freeze(false)
		k.cur = one("m", newVer(smallSpec, m10repo("2", true, nil)))
		k.fault = func(id, p string, r *vhttp.Request, rep *vhttp.Reply) {
			if strings.HasPrefix(p, "dists/") && !isRelease(p) && !strings.Contains(p, "/by-hash/") {
				wrong("same-size", rep, nil)
			}
		}
		if err := k.run(); err != nil {
			x.Failf("not-used", "the update failed although the by-hash names have the announced content: %v", err)
		}
		x.Outcome("%v", prev)
	})
}
