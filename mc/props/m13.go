package props

import (
	"fmt"
	"sort"
	"strings"

	"vmc/explore"
	"vmc/vsched"
)

func init() {
	register("M13", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "outcomes", Doc: "three mirrors with equal file names and different contents; every combination of published version, upstream state (healthy, unchanged, one bad file of several kinds, no Release) and invalid configuration of each, and of the mirrors asked for (subsets, orders, duplicates, unknown)",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 3, Run: m13outcomes,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "two mirrors updated together under every interleaving within the bound, public names watched at every file system operation",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: vsched.CatHTTP | vsched.CatGo | vsched.CatUser, Weight: 3, Run: m13schedule,
		},
		&explore.Scenario{
			Name: "links", Doc: "two mirrors updated together under every interleaving of their file system operations within the bound",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: vsched.CatFS, Weight: 3, Run: m13schedule,
		},
		&explore.Scenario{
			Name: "failing", Doc: "one bad file or failing file system operation of either mirror and bounded schedules: the other mirror shows its old or new version",
			Quick: explore.Bounds{Fault: 1, Sched: 1, Total: 2}, Deep: explore.Bounds{Fault: 1, Sched: 2, Total: 3}, NoPrio: true, Mask: vsched.CatHTTP | vsched.CatGo | vsched.CatUser, Weight: 3, Run: m13failing,
		},
		&explore.Scenario{
			Name: "signal", Doc: "SIGTERM at any operation while two mirrors are updated", Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 1, Sched: 1, Total: 2},
			Mask: vsched.CatHTTP | vsched.CatGo | vsched.CatUser, Run: m13signal,
		},
	)
}

func m13ver(id, ver string, byhash bool) *mver {
	k := memoKey{"m13/" + id, ver, byhash}
	if memo[k] == nil {
		r := small(ver, byhash)
		s := &r.suites[0]
		s.note = id + " " + ver
		s.indices[0].items = []ritem{it("pool/a.deb", id+" a "+ver), it("pool/keep.deb", id+" keep")}
		s.indices[1].raw = []byte("translation of " + id)
		memo[k] = newVer(m13spec(id), r)
	}
	return memo[k]
}

func m13spec(id string) *mspec {
	return &mspec{id: id, suites: []string{"s"}, sections: []string{"main"}, archs: []string{"amd64"}}
}

// states of one mirror in m13outcomes
var m13states = []string{"new", "unchanged", "first", "gone", "corrupt", "503", "no-release", "bad-config"}

func m13outcomes(x *explore.X) {
	ids := []string{"m", "m-2", "z"}
	asks := [][]string{nil, {"m"}, {"m-2"}, {"m", "m-2"}, {"z", "m-2", "m"}, {"m", "m"}, {"m", "nosuch"}}
	st := map[string]string{}
	st["m"] = m13states[x.Free(len(m13states), "m")]
	st["m-2"] = m13states[x.Free(len(m13states), "m-2")]
	st["z"] = []string{"new", "corrupt"}[x.Free(2, "z")]
	ask := asks[x.Free(len(asks), "asked for")]
	byhash := x.Flag("byhash")
	conns := []int{2, 1, 0}[x.Free(3, "conns")]
	w := &vsched.World{Mask: x.Sc.Mask, MapDesc: x.Flag("map order")}
	k := newMkit(x, conns, m13spec("m"), m13spec("m-2"), m13spec("z"))
	x.RunWorld(w, func() {
		x.Freeze(true)
		old := map[string]*mver{}
		cur := map[string]*mver{}
		for _, id := range ids {
			if st[id] != "first" {
				old[id] = m13ver(id, "1", byhash)
			}
			cur[id] = m13ver(id, "2", byhash)
			if st[id] == "unchanged" {
				cur[id] = old[id]
			}
		}
		prep(k, old)
		k.cur = cur
		known := map[string][]map[string]string{}
		for _, id := range ids {
			known[id] = []map[string]string{cur[id].want}
			if old[id] != nil {
				known[id] = append(known[id], old[id].want)
			}
			switch st[id] {
			case "gone":
				k.idPathMode(id, "pool/a.deb", "404")
			case "corrupt":
				k.idPathMode(id, "pool/a.deb", "corrupt")
			case "503":
				k.idPathMode(id, "dists/s/main/binary-amd64/Packages.gz", "503")
			case "no-release":
				for _, f := range []string{"Release", "Release.gpg", "InRelease"} {
					k.idPathMode(id, "dists/s/"+f, "404")
				}
			case "bad-config":
				k.cfg.Mirrors[id].Suites = nil
			}
		}
		wt := k.watch(known)
		var arg []string
		arg = append(arg, ask...)
		err := k.run(arg...)
		wt.stop()
		asked := ask
		if asked == nil {
			asked = ids
		}
		good := true
		in := map[string]int{}
		for _, id := range asked {
			in[id]++
			s := st[id]
			good = good && (s == "new" || s == "unchanged" || s == "first") && in[id] == 1
		}
		what := fmt.Sprintf("mirrors %v asked for %v", st, ask)
		if good && err != nil {
			x.Failf("run-failed", "%s: all mirrors asked for are healthy, but the run failed: %v", what, err)
		}
		if !good && err == nil && !dup(ask) {
			x.Failf("false-success", "%s: the run reports success", what)
		}
		for _, id := range ids {
			t := k.tree(id)
			switch {
			case err == nil && in[id] > 0:
				if !sameTree(t, cur[id].want) {
					x.Failf("not-published", "%s: the run reports success, but mirror %s was not updated: %s", what, id, diffTree(t, cur[id].want))
				}
			case in[id] == 0:
				if old[id] == nil && t != nil || old[id] != nil && !sameTree(t, old[id].want) {
					x.Failf("not-asked", "%s: mirror %s changed: %v", what, id, t)
				}
			}
		}
		x.Outcome("%v", good)
	})
}

func dup(l []string) bool {
	m := map[string]bool{}
	for _, s := range l {
		if m[s] {
			return true
		}
		m[s] = true
	}
	return false
}

// m13pair prepares two mirrors and watches them.
func m13pair(x *explore.X, k *mkit, byhash, fresh bool) (*pubWatch, map[string]*mver, map[string]*mver) {
	old := map[string]*mver{"m": m13ver("m", "1", byhash), "n": m13ver("n", "1", byhash)}
	if fresh {
		delete(old, "m")
	}
	prep(k, old)
	k.cur = map[string]*mver{"m": m13ver("m", "2", byhash), "n": m13ver("n", "2", byhash)}
	known := map[string][]map[string]string{}
	for id, v := range k.cur {
		known[id] = []map[string]string{v.want}
		if old[id] != nil {
			known[id] = append(known[id], old[id].want)
		}
	}
	return k.watch(known), old, k.cur
}

func m13judge(x *explore.X, k *mkit, err error, old, cur map[string]*mver) {
	var l []string
	for id := range cur {
		t := k.tree(id)
		switch {
		case sameTree(t, cur[id].want):
			l = append(l, id+" new")
		case err == nil:
			x.Failf("not-published", "the run reports success, but mirror %s is wrong: %s", id, diffTree(t, cur[id].want))
		case old[id] == nil && t == nil, old[id] != nil && sameTree(t, old[id].want):
			l = append(l, id+" old")
		default:
			x.Failf("mixed", "mirror %s shows neither version: %s", id, diffTree(t, cur[id].want))
		}
	}
	sort.Strings(l)
	x.Outcome("%s err=%v", strings.Join(l, " "), err != nil)
}

func m13schedule(x *explore.X) {
	byhash := x.Flag("byhash")
	fresh := x.Flag("first run of m")
	k := newMkit(x, []int{1, 0}[x.Free(2, "conns")], m13spec("m"), m13spec("n"))
	x.World(func() {
		w, old, cur := m13pair(x, k, byhash, fresh)
		err := k.run()
		w.stop()
		if err != nil {
			x.Failf("run-failed", "a run against healthy upstreams failed: %v", err)
		}
		m13judge(x, k, err, old, cur)
	})
}

func m13failing(x *explore.X) {
	byhash := x.Flag("byhash")
	k := newMkit(x, 2, m13spec("m"), m13spec("n"))
	x.World(func() {
		w, old, cur := m13pair(x, k, byhash, false)
		k.fsFault(" link rename fsync symlink mkdir ")
		k.pathFaults([]string{"", "corrupt", "cut", "403"}, false, nil)
		err := k.run()
		w.stop()
		k.fs.Fault = nil
		m13judge(x, k, err, old, cur)
	})
}

func m13signal(x *explore.X) {
	byhash := x.Flag("byhash")
	k := newMkit(x, 2, m13spec("m"), m13spec("n"))
	x.World(func() {
		w, old, cur := m13pair(x, k, byhash, false)
		err, _ := k.runSignal()
		w.stop()
		m13judge(x, k, err, old, cur)
	})
}
