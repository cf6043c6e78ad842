package props

import (
	"strings"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vsched"
)

func init() {
	register("M05", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "pairs", Doc: "every ordered pair of 20 upstream versions (items added, removed, changed in place, index forms, by-hash, checksum kinds, suites, sections and sources toggled): tree equals a fresh mirror of the second version; nothing unchanged is fetched again",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: func(x *explore.X) { m05chain(x, 2) },
		},
		&explore.Scenario{
			Name: "chains", Doc: "every chain of three versions", Thorough: true,
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: func(x *explore.X) { m05chain(x, 3) },
		},
		&explore.Scenario{
			Name: "zoo", Doc: "versions 1, 2, 1 of every kind of repository", Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: m05zoo,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "selected pairs under every interleaving within the bound", Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2},
			Mask: netMask | vsched.CatFS, Weight: 3, Run: m05schedule,
		},
		&explore.Scenario{
			Name: "after-failure", Doc: "a failing run (one bad file or failing file system operation) between two healthy ones", Quick: explore.Bounds{Fault: 1, Total: 1},
			Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Run: m05failure,
		},
		&explore.Scenario{
			Name: "large", Doc: "files of 13 sizes around 4 KiB, 32 KiB, 64 KiB, 1 MiB and 2 MiB (item, Packages, Packages.gz, Translation, Release): the tree is complete after mirroring version 1, version 1 again and version 2, nothing unchanged is fetched again",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: 10000000, Run: largeMirror,
		},
	)
}

type m05variant struct {
	name string
	mut  func(r *rrepo)
	sp   *mspec
}

var m05spec = &mspec{id: "m", suites: []string{"s"}, sections: []string{"main"}, archs: []string{"amd64"}, source: true}

func m05repo() *rrepo {
	return &rrepo{suites: []rsuite{{dir: "dists/s", names: []string{"Release", "Release.gpg"}, note: "base", indices: []rindex{
		{rel: "main/binary-amd64/Packages", exts: []string{"", ".gz"}, items: []ritem{it("pool/a.deb", "a1"), it("pool/b.deb", "b1"), it("pool/c.deb", "c1")}},
		{rel: "main/source/Sources", items: []ritem{it("pool/s.dsc", "dsc1"), it("pool/s.tar", "tar1")}},
		{rel: "main/i18n/Translation-en", raw: []byte("t1")},
		{rel: "main/i18n/Translation-de", raw: []byte("t1")},
	}}}}
}

var m05variants = []m05variant{
	{"base", func(r *rrepo) {}, nil},
	{"release-only", func(r *rrepo) { r.suites[0].note = "other" }, nil},
	{"item-changed-same-size", func(r *rrepo) { r.suites[0].indices[0].items[0].body = "a2" }, nil},
	{"item-changed-size", func(r *rrepo) { r.suites[0].indices[0].items[0].body = "a longer" }, nil},
	{"item-removed", func(r *rrepo) { r.suites[0].indices[0].items = r.suites[0].indices[0].items[:2] }, nil},
	{"item-added", func(r *rrepo) {
		r.suites[0].indices[0].items = append(r.suites[0].indices[0].items, it("pool/d.deb", "d1"))
	}, nil},
	{"items-swapped", func(r *rrepo) {
		p := r.suites[0].indices[0].items
		p[0].body, p[1].body = p[1].body, p[0].body
	}, nil},
	{"item-moved", func(r *rrepo) { r.suites[0].indices[0].items[0].path = "pool/moved/a.deb" }, nil},
	{"item-becomes-dir", func(r *rrepo) { r.suites[0].indices[0].items[0].path = "pool/a.deb/a.deb" }, nil},
	{"source-changed", func(r *rrepo) { r.suites[0].indices[1].items[0].body = "dsc2" }, nil},
	{"translation-changed", func(r *rrepo) { r.suites[0].indices[2].raw = []byte("t2") }, nil},
	{"by-hash", func(r *rrepo) { r.suites[0].byhash = true }, nil},
	{"by-hash-translation-changed", func(r *rrepo) { r.suites[0].byhash = true; r.suites[0].indices[3].raw = []byte("t2") }, nil},
	{"by-hash-item-changed", func(r *rrepo) { r.suites[0].byhash = true; r.suites[0].indices[0].items[1].body = "b2" }, nil},
	{"by-hash-sha256", func(r *rrepo) {
		r.suites[0].byhash = true
		r.suites[0].sums = []string{"SHA256"}
		r.suites[0].indices[0].sums = []string{"SHA256"}
	}, nil},
	{"md5-only", func(r *rrepo) {
		r.suites[0].sums = []string{"MD5Sum"}
		r.suites[0].indices[0].sums = []string{"MD5sum"}
	}, nil},
	{"forms", func(r *rrepo) { r.suites[0].indices[0].exts = []string{".xz"} }, nil},
	{"inrelease", func(r *rrepo) { r.suites[0].names = []string{"InRelease"} }, nil},
	{"no-sources", func(r *rrepo) {}, &mspec{id: "m", suites: []string{"s"}, sections: []string{"main"}, archs: []string{"amd64"}}},
	{"two-suites", func(r *rrepo) {
		o := m05repo().suites[0]
		o.dir, o.note = "dists/t", "t"
		o.indices[0].items[2].path = "pool/t.deb"
		r.suites = append(r.suites, o)
	}, &mspec{id: "m", suites: []string{"t", "s"}, sections: []string{"main"}, archs: []string{"amd64"}, source: true}},
}

var m05memo = map[int]*mver{}

func m05ver(i int) (*mspec, *mver) {
	v := &m05variants[i]
	sp := v.sp
	if sp == nil {
		sp = m05spec
	}
	if m05memo[i] == nil {
		r := m05repo()
		v.mut(r)
		m05memo[i] = newVer(sp, r)
	}
	return sp, m05memo[i]
}

// watchReuse reports downloads of files the published mirror has already.
func (k *mkit) watchReuse(id string, v *mver) {
	have := k.tree(id)
	k.up.OnOpen = func(r *vhttp.Request, open int) {
		_, p := k.split(r.Path)
		if isRelease(p) {
			return
		}
		if b, ok := have[p]; ok && b == v.want[p] && !strings.Contains(p, "/by-hash/") {
			k.x.Failf("refetched", "%s is unchanged since the published version but is downloaded again", p)
		}
	}
}

func (k *mkit) respec(sp *mspec) {
	k.cfg.Mirrors[sp.id] = sp.config("http://up/" + sp.id + "/")
}

func m05chain(x *explore.X, n int) {
	var ids []int
	for i := 0; i < n; i++ {
		ids = append(ids, x.Free(len(m05variants), "version"))
	}
	w := &vsched.World{Mask: x.Sc.Mask, MapDesc: x.Flag("map order")}
	k := newMkit(x, 2, m05spec)
	x.RunWorld(w, func() {
		x.Freeze(true)
		name := ""
		for _, i := range ids {
			sp, v := m05ver(i)
			k.respec(sp)
			k.cur = one("m", v)
			k.watchReuse("m", v)
			name += " " + m05variants[i].name
			if err := k.run(); err != nil {
				x.Failf("run-failed", "a run against a healthy upstream failed (versions%s): %v", name, err)
				return
			}
			if got := k.tree("m"); !sameTree(got, v.want) {
				x.Failf("tree", "after versions%s the tree differs from a fresh mirror: %s", name, diffTree(got, v.want))
				return
			}
			nextSecond()
		}
		x.Outcome("%d requests", len(k.up.Log))
	})
}

func m05zoo(x *explore.X) {
	i := x.Free(len(zoo), "repository")
	w := &vsched.World{Mask: x.Sc.Mask, MapDesc: x.Flag("map order")}
	k := newMkit(x, 1+x.Free(2, "conns")*4, zoo[i].sp)
	x.RunWorld(w, func() {
		for _, ver := range []string{"1", "2", "1", "1"} {
			v := zooVer(i, ver)
			k.cur = one("m", v)
			k.watchReuse("m", v)
			m04judge(x, k, zoo[i].name, v)
			nextSecond()
		}
	})
}

func m05schedule(x *explore.X) {
	pairs := [][2]int{{0, 2}, {11, 12}, {0, 12}, {13, 0}, {6, 0}}
	pr := pairs[x.Free(len(pairs), "pair")]
	k := newMkit(x, 2, m05spec)
	x.World(func() {
		_, v1 := m05ver(pr[0])
		_, v2 := m05ver(pr[1])
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.watchReuse("m", v2)
		if err := k.run(); err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
			return
		}
		if got := k.tree("m"); !sameTree(got, v2.want) {
			x.Failf("tree", "the tree differs from a fresh mirror: %s", diffTree(got, v2.want))
		}
		x.Outcome("%d requests", len(k.up.Log))
	})
}

func m05failure(x *explore.X) {
	pairs := [][2]int{{0, 2}, {11, 13}, {0, 12}, {14, 0}}
	pr := pairs[x.Free(len(pairs), "pair")]
	k := newMkit(x, 2, m05spec)
	x.World(func() {
		_, v1 := m05ver(pr[0])
		_, v2 := m05ver(pr[1])
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.fsFault("")
		k.pathFaults([]string{"", "corrupt", "cut", "403", "refused"}, false, nil)
		err1 := k.run()
		k.fs.Fault, k.fault = nil, nil
		nextSecond()
		k.watchReuse("m", v2)
		if err := k.run(); err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
			return
		}
		if got := k.tree("m"); !sameTree(got, v2.want) {
			x.Failf("tree", "the tree differs from a fresh mirror: %s", diffTree(got, v2.want))
		}
		x.Outcome("%v %d requests", short(err1), len(k.up.Log))
	})
}
