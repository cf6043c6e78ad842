package props

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
)

func init() {
	register("M16", "model_checking", append([]string{"files open at once are compared for sizes of 16 and 40 under the same schedule: the one that lets a goroutine run until it blocks, or the one that prefers new goroutines; when the disk is slower than the network, downloaded files wait opened to be stored"}, mirrorAssume...),
		&explore.Scenario{
			Name: "size", Doc: "many items in one index, many indices, many suites, with and without by-hash; fresh, nothing, some or everything changed; max_conns 1, 2, 10; one kind of transient failure for every file: as many files and connections at once for 40 as for 16, and every file requested as often as needed",
			Quick: explore.Bounds{}, Mask: vsched.CatUser | vsched.CatGo, Weight: 2, Run: m16size,
		},
		&explore.Scenario{
			Name: "debris", Doc: "any two (three) files answered badly: after a successful run there is nothing in the directory of the published version but what a run without failures leaves, and no connection is open",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: func(x *explore.X) { m16debris(x, false) },
		},
		&explore.Scenario{
			Name: "schedule", Doc: "one badly answered file under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Fault: 1, Total: 2}, Deep: explore.Bounds{Sched: 2, Fault: 1, Total: 3}, Mask: netMask, Weight: 3, Run: func(x *explore.X) { m16debris(x, true) },
		},
	)
}

// bigRepo has n files of a kind, those numbered from change on are of version ver.
func bigRepo(kind string, n, changed int, ver string, byhash bool) (*mspec, *rrepo) {
	item := func(i int) ritem {
		v := "1"
		if i < changed {
			v = ver
		}
		return it(fmt.Sprintf("pool/p%d_%s.deb", i, v), fmt.Sprintf("package %d version %s", i, v))
	}
	sp := &mspec{id: "m", archs: []string{"amd64"}}
	r := &rrepo{}
	suite := func(i int) *rsuite {
		sp.suites = append(sp.suites, fmt.Sprintf("s%d", i))
		r.suites = append(r.suites, rsuite{dir: fmt.Sprintf("dists/s%d", i), names: []string{"Release", "Release.gpg"}, byhash: byhash, note: "version " + ver})
		return &r.suites[len(r.suites)-1]
	}
	index := func(s *rsuite, sec string) *rindex {
		s.indices = append(s.indices, rindex{rel: sec + "/binary-amd64/Packages", exts: []string{"", ".gz"}})
		return &s.indices[len(s.indices)-1]
	}
	switch kind {
	case "items":
		sp.sections = []string{"main"}
		ix := index(suite(0), "main")
		for i := 0; i < n; i++ {
			ix.items = append(ix.items, item(i))
		}
	case "indices":
		s := suite(0)
		for i := 0; i < n; i++ {
			sec := fmt.Sprintf("sec%d", i)
			sp.sections = append(sp.sections, sec)
			ix := index(s, sec)
			ix.items = append(ix.items, item(i))
		}
	case "suites":
		sp.sections = []string{"main"}
		for i := 0; i < n; i++ {
			ix := index(suite(i), "main")
			ix.items = append(ix.items, item(i))
		}
	}
	return sp, r
}

func m16size(x *explore.X) {
	kind := []string{"items", "indices", "suites"}[x.Free(3, "many")]
	byhash := x.Flag("by-hash")
	conns := []int{1, 2, 10}[x.Free(3, "max_conns")]
	before := []string{"nothing", "the same", "a few differ", "all differ"}[x.Free(4, "before")]
	mode := []string{"", "503", "cut", "corrupt"}[x.Free(4, "first answers")]
	if mode == "corrupt" && !byhash {
		return
	}
	w := worldFor(x, vsched.CatUser|vsched.CatGo)
	w.PrioNew = x.Flag("prefer new goroutines")
	w.Prio = w.PrioNew
	k := newMkit(x, conns)
	type use struct{ open, conns int }
	var us []use
	sizes := []int{16, 40}
	x.RunWorld(w, func() {
		x.Freeze(true)
		for _, n := range sizes {
			changed := map[string]int{"nothing": n, "the same": 0, "a few differ": 3, "all differ": n}[before]
			sp, r2 := bigRepo(kind, n, changed, "2", byhash)
			sp.id = fmt.Sprintf("m%d", n)
			k.specs = append(k.specs, sp)
			k.cfg.Mirrors[sp.id] = sp.config("http://up/" + sp.id + "/")
			v2 := newVer(sp, r2)
			if before != "nothing" {
				_, r1 := bigRepo(kind, n, changed, "1", byhash)
				k.publish(map[string]*mver{sp.id: newVer(sp, r1)})
			}
			k.cur = map[string]*mver{sp.id: v2}
			k.up.Log = nil
			seen := map[string]int{}
			u := use{}
			p := vsched.NewProc(fmt.Sprintf("run%d", n))
			k.fault = func(id, q string, rq *vhttp.Request, rep *vhttp.Reply) {
				seen[q]++
				// What is to be done without the upstream is done, in
				// whatever order, before the upstream answers.
				rep.Delay = time.Second
				if mode == "" || strings.Contains(q, "/by-hash/") || strings.Contains(q, "Release") || mode == "corrupt" && !strings.Contains(q, "Packages") {
					return
				}
				if seen[q] == 1 || mode == "corrupt" {
					k.apply(mode, id, q, rep, nil)
				}
			}
			k.up.OnOpen = func(rq *vhttp.Request, open int) {
				if open > u.conns {
					u.conns = open
				}
			}
			k.fs.MaxOpen = 0
			if err := k.runIn(p, sp.id); err != nil {
				x.Failf("fails", "%v", err)
				return
			}
			u.open = k.fs.MaxOpen
			us = append(us, u)
			if c := k.up.Total(); c != 0 {
				x.Failf("leak", "%d connections are still open after the run", c)
			}
			if m := oneOf(k.tree(sp.id), trees(v2)); m != "" {
				x.Failf("tree", "the mirror is wrong: %s", m)
			}
			for q, c := range seen {
				if max := map[string]int{"": 1, "503": 2, "cut": 2, "corrupt": 1}[mode]; c > max {
					x.Failf("downloads", "%s is requested %d times instead of %d", q, c, max)
				}
			}
			nextSecond()
		}
		for i, l := range [][2]int{{us[0].open, us[1].open}, {us[0].conns, us[1].conns}} {
			if l[1] > l[0] {
				x.Failf("size", "up to %d %s for %d %s, but %d for %d", l[0], []string{"open files", "connections"}[i], sizes[0], kind, l[1], sizes[1])
			}
		}
		x.Outcome("%v", us[1])
	})
}

// beside lists the files next to the published tree in the same version.
func (k *mkit) beside(id string) []string {
	n := k.fs.Node(mdir+"/"+id, false)
	if n == nil {
		return nil
	}
	t := n.Target()
	if !path.IsAbs(t) {
		t = path.Join(mdir, t)
	}
	var l []string
	for p := range k.fs.Files(path.Dir(t)) {
		if !strings.HasPrefix(p, path.Base(t)+"/") {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

func m16debris(x *explore.X, sched bool) {
	c, conns := &mcases[2], 2
	if !sched || x.Deep {
		c, conns = pickCase(x), 2-x.Free(2, "max_conns")
	}
	v1, v2 := c.vers()
	k := newMkit(x, conns, smallSpec, specN)
	x.World(func() {
		old := map[string]*mver{"n": verN("1")}
		if v1 != nil {
			old["m"] = v1
		}
		prep(k, old)
		usual := map[string]bool{}
		for _, p := range k.beside("n") {
			usual[p] = true
		}
		k.cur = one("m", v2)
		k.pathFaults(badModes, false, one("m", v1))
		err := k.run("m")
		x.Freeze(true)
		if n := k.up.Total(); n != 0 {
			x.Failf("leak", "%d connections are still open after the run", n)
		}
		x.Outcome("err=%v", short(err))
		if err != nil || x.Failed() {
			return
		}
		for _, p := range k.beside("m") {
			if !usual[p] {
				x.Failf("debris", "%s is left in the directory of the published version", p)
			}
		}
	})
}
