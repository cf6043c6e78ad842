package props

import (
	"fmt"

	"vmc/explore"
	"vmc/vsched"
)

func deb(sec, name, ver string) ritem {
	return ritem{path: "pool/" + sec + "/" + name + "_" + ver + ".deb", body: name + " " + ver + " data"}
}

// stdRepo is a two-architecture, two-section repository.
func stdRepo(ver string, byhash bool, names ...string) *rrepo {
	if len(names) == 0 {
		names = []string{"Release", "Release.gpg"}
	}
	return &rrepo{suites: []rsuite{{
		dir: "dists/s", names: names, byhash: byhash, note: "version " + ver,
		indices: []rindex{
			{rel: "main/binary-amd64/Packages", exts: []string{"", ".gz"}, items: []ritem{deb("m", "a", ver), deb("m", "keep", "0")}},
			{rel: "main/binary-i386/Packages", items: []ritem{deb("m", "i", ver)}},
			{rel: "main/binary-all/Packages", exts: []string{".gz"}, items: []ritem{deb("m", "all", ver)}},
			{rel: "extra/binary-amd64/Packages", items: []ritem{deb("e", "x", ver)}},
			{rel: "main/source/Sources", exts: []string{"", ".gz"}, items: []ritem{{"pool/m/src/a_" + ver + ".dsc", "dsc " + ver}, {"pool/m/src/a_" + ver + ".tar", "tar " + ver}}},
			{rel: "main/i18n/Translation-en"},
		},
	}}}
}

func init() {
	register("M04", "model_checking", nil,
		&explore.Scenario{
			Name: "select", Doc: "every combination of configured sections, architectures, sources, by-hash, served Release files and missing index forms, fresh and incremental",
			Quick: explore.Bounds{}, Mask: vsched.CatUser,
			Run: m04select,
		},
		&explore.Scenario{
			Name: "zoo", Doc: "every kind of repository (flat, several suites, by-hash, i18n Index, component Release files, partial checksums, odd names, ...) x max_conns x map and select order x fresh, after an older version, twice the same",
			Quick: explore.Bounds{}, Mask: vsched.CatUser,
			Run: m04zoo,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "a repository of every kind under every interleaving within the bound",
			Quick: explore.Bounds{Sched: 1, Total: 1}, Deep: explore.Bounds{Sched: 2, Total: 2}, Mask: netMask, Weight: 2,
			Run: m04schedule,
		},
		&explore.Scenario{
			Name: "large", Doc: "files of 13 sizes around 4 KiB, 32 KiB, 64 KiB, 1 MiB and 2 MiB (item, Packages, Packages.gz, Translation, Release): the tree is complete after mirroring version 1, version 1 again and version 2",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: 10000000, Run: largeMirror,
		},
		&explore.Scenario{
			Name: "damaged", Doc: "Packages and Sources files, plain and compressed, damaged in every listed way but with right checksums, first run and update: nothing is missing if the run succeeds, nothing changed if it fails",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: damagedIndex,
		},
	)
}

func m04select(x *explore.X) {
	secs := [][]string{{"main"}, {"main", "extra"}, {"extra"}}[x.Free(3, "sections")]
	archs := [][]string{{"amd64"}, {"amd64", "i386"}, {}}[x.Free(3, "archs")]
	source := x.Flag("source")
	byhash := x.Flag("byhash")
	names := [][]string{{"Release", "Release.gpg"}, {"InRelease"}, {"Release", "Release.gpg", "InRelease"}, {"Release.gz"}}[x.Free(4, "release files")]
	sp := &mspec{id: "m", suites: []string{"s"}, sections: secs, archs: archs, source: source}
	r := stdRepo("1", byhash, names...)
	switch x.Free(3, "missing forms") {
	case 1:
		r.suites[0].unserved = map[string]bool{"main/binary-amd64/Packages": true, "main/source/Sources": true}
	case 2:
		r.suites[0].unserved = map[string]bool{"main/binary-amd64/Packages.gz": true, "main/i18n/Translation-en": true}
	}
	v := newVer(sp, r)
	desc := x.Flag("map order")
	k := newMkit(x, 2, sp)
	k.cur["m"] = v
	w := &vsched.World{Mask: x.Sc.Mask, MapDesc: desc}
	x.RunWorld(w, func() {
		err := k.run()
		if err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
			return
		}
		got := k.tree("m")
		if !sameTree(got, v.want) {
			x.Failf("tree", "published tree differs from the selection: %s", diffTree(got, v.want))
		}
		if s := modesOK(k.fs, "m"); s != "" {
			x.Failf("mode", "not world-readable: %s", s)
		}
		x.Outcome("%d files %d requests", len(got), len(k.up.Log))
	})
	_ = fmt.Sprint
}

func m04zoo(x *explore.X) {
	i := x.Free(len(zoo), "repository")
	hist := x.Free(3, "history")
	conns := []int{1, 2, 8}[x.Free(3, "max_conns")]
	w := &vsched.World{Mask: x.Sc.Mask, MapDesc: x.Flag("map order"), SelRev: x.Flag("select order")}
	v2 := zooVer(i, "2")
	k := newMkit(x, conns, zoo[i].sp)
	x.RunWorld(w, func() {
		switch hist {
		case 1:
			prep(k, one("m", zooVer(i, "1")))
		case 2:
			prep(k, one("m", v2))
		}
		k.cur = one("m", v2)
		m04judge(x, k, zoo[i].name, v2)
	})
}

func m04judge(x *explore.X, k *mkit, name string, v *mver) {
	err := k.run()
	if err != nil {
		x.Failf("run-failed:"+name, "a run against a healthy upstream (%s) failed: %v", name, err)
		return
	}
	got := k.tree("m")
	if !sameTree(got, v.want) {
		x.Failf("tree:"+name, "published tree of %s differs from the selection: %s", name, diffTree(got, v.want))
	}
	if s := modesOK(k.fs, "m"); s != "" {
		x.Failf("mode", "not world-readable: %s", s)
	}
	x.Outcome("%s %d files %d requests", name, len(got), len(k.up.Log))
}

func m04schedule(x *explore.X) {
	i := x.Free(len(zoo), "repository")
	v1, v2 := zooVer(i, "1"), zooVer(i, "2")
	k := newMkit(x, 2, zoo[i].sp)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		m04judge(x, k, zoo[i].name, v2)
	})
}
