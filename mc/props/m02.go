package props

import (
	"strings"
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vsched"
)

func init() {
	register("M02", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "faults", Doc: "any one (thorough: two) failing file system operations or bad upstream files: error reported and nothing changed, or success and the complete new version",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Weight: 2, Run: m02faults,
		},
		&explore.Scenario{
			Name: "upstream", Doc: "any two (three) files bad in any way, upstream switching versions at any request",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: m02upstream,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "one bad file or failing operation under every interleaving within the bound",
			Quick: explore.Bounds{Fault: 1, Sched: 1, Total: 2}, Deep: explore.Bounds{Fault: 1, Sched: 2, Total: 3}, Mask: netMask, Weight: 3, Run: m02schedule,
		},
		&explore.Scenario{
			Name: "signal", Doc: "SIGTERM at any operation, plus one bad file or failing operation",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 2, Sched: 1, Total: 3}, Mask: vsched.CatUser, Run: m02signal,
		},
		&explore.Scenario{
			Name: "program", Doc: "the program itself with a good or bad configuration file and every list of mirrors, with any one failing operation, bad file or SIGTERM at any operation; the exit status is the report",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Run: m02program,
		},
		&explore.Scenario{
			Name: "same-second", Doc: "a second run within the second in which the first one started, which ended well, failed or was killed at any operation; the upstream has another version, with or without another Release file",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Mask: vsched.CatUser, Run: m02second,
		},
		&explore.Scenario{
			Name: "silent-fsync", Doc: "an fsync fails during the run, then power is lost after it reports success: the new version must be there",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Mask: vsched.CatUser, Run: m02fsync,
		},
	)
}

// judge02 is the oracle: what a run that ended with err may have left behind.
func judge02(x *explore.X, k *mkit, id string, err error, v1, v2 *mver, alsoOK ...*mver) {
	got := k.tree(id)
	if err == nil {
		if m := oneOf(got, trees(append(alsoOK, v2)...)); m != "" {
			x.Failf("false-success", "the run reports success, but the published mirror is wrong: %s", m)
		}
		return
	}
	if v1 == nil {
		if got == nil && k.fs.Node(mdir+"/"+id, false) == nil {
			return
		}
	} else if sameTree(got, v1.want) {
		return
	}
	if got != nil && oneOf(got, trees(append(alsoOK, v2)...)) == "" {
		// failed only after the new version was in place
		return
	}
	var old map[string]string
	if v1 != nil {
		old = v1.want
	}
	x.Failf("changed", "the run failed (%v) but the published mirror changed: %s", err, diffTree(got, old))
}

// after reports whether the switch of the public link had happened.
func switched(log []vos.Op, id string) bool {
	for i := range log {
		if log[i].Kind == vos.OpRename && log[i].Path == mdir+"/"+id {
			return true
		}
	}
	return false
}

func m02faults(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.fsFault("")
		k.pathFaults(badModesFor02, false, one("m", v1))
		err := k.run()
		k.fs.Fault = nil
		judge02(x, k, "m", err, v1, v2)
		x.Outcome("err=%v new=%v", short(err), sameTree(k.tree("m"), v2.want))
	})
}

// without 404: an index that the upstream does not have is left out by design.
var badModesFor02 = []string{"", "503", "refused", "corrupt", "short", "cut", "longer", "swap", "stale", "403"}

func m02upstream(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	v3 := mergeOld(smallVer("m", "3", c.byhash), v2)
	k := newMkit(x, 1+x.Free(2, "max_conns"), smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.pathFaults(badModesFor02, x.Flag("by-hash names good"), one("m", v1))
		k.moving("m", v3, true)
		err := k.run()
		mix1 := &mver{want: gpgMix(v2, v3)}
		mix2 := &mver{want: gpgMix(v3, v2)}
		judge02(x, k, "m", err, v1, v2, v3, mix1, mix2)
		x.Outcome("err=%v", short(err))
	})
}

func m02schedule(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	w := worldFor(x, x.Sc.Mask)
	k := newMkit(x, 2, smallSpec)
	x.RunWorld(w, func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.fsFault(" link rename fsync symlink mkdir ")
		k.pathFaults([]string{"", "corrupt", "refused", "403"}, false, nil)
		err := k.run()
		k.fs.Fault = nil
		judge02(x, k, "m", err, v1, v2)
		x.Outcome("err=%v new=%v", short(err), sameTree(k.tree("m"), v2.want))
	})
}

func m02signal(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.pathFaults([]string{"", "corrupt", "403"}, false, nil)
		k.fsFault("")
		err, sent := k.runSignal()
		k.fs.Fault = nil
		judge02(x, k, "m", err, v1, v2)
		if sent && err == nil && !sameTree(k.tree("m"), v2.want) {
			x.Failf("false-success", "an interrupted run reports success")
		}
		x.Outcome("signal=%v err=%v new=%v", sent, short(err), sameTree(k.tree("m"), v2.want))
	})
}

func m02second(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	next := smallVer("m", []string{"2", "3"}[x.Free(2, "version at the second run")], x.Flag("byhash at the second run"))
	if x.Flag("InRelease at the second run") {
		r := *next.repo
		r.suites = append([]rsuite(nil), r.suites...)
		r.suites[0].names = []string{"InRelease"}
		next = newVer(smallSpec, &r)
	}
	first := x.Free(3, "first run") // may be killed, fails at an item or at the Release file
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		where := ""
		switch first {
		case 0:
			where, _ = k.runKill()
		case 1:
			k.pathMode("pool/m/a_"+c.next+".deb", "403")
			k.run()
		case 2:
			k.pathMode("dists/s/Release", "403")
			k.run()
		}
		x.Freeze(true)
		k.fault = nil
		old := k.tree("m")
		k.cur = one("m", next)
		err := k.run()
		t := k.tree("m")
		if err == nil {
			if m := oneOf(t, trees(next)); m != "" {
				x.Failf("false-success", "the second run in a second (first one killed at %q) reports success, but the published mirror is wrong: %s", where, m)
			}
		} else if !sameTree(t, old) {
			x.Failf("changed", "the second run in a second (first one killed at %q) failed (%v) but the published mirror changed: %s", where, err, diffTree(t, old))
		}
		nextSecond()
		judge08(x, k, k.run(), "two runs in a second")
		x.Outcome("%v %v", where != "", short(err))
	})
}

func m02fsync(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		base := k.fs.Clone()
		k.cur = one("m", v2)
		k.fsFault(" fsync ")
		err := k.run()
		k.fs.Fault = nil
		judge02(x, k, "m", err, v1, v2)
		if err == nil {
			log := k.fs.Log
			for _, im := range vos.ImagesAt(log, len(log), 1) {
				fs := vos.Build(base, log, im)
				x.Step()
				if m := oneOf(treeOf(fs, "m"), trees(v2)); m != "" {
					x.Failf("not-durable", "the run reports success but after %s: %s", im.Describe(log), m)
					return
				}
				if n, ok := fs.Read(storageOf(fs, "m") + "/info.json"); !ok || !strings.HasSuffix(strings.TrimSpace(string(n)), "}") {
					x.Failf("not-durable", "the run reports success but after %s the stored file list is damaged: %q", im.Describe(log), clip(string(n)))
					return
				}
			}
		}
		x.Outcome("err=%v", short(err))
	})
}

// storageOf is the directory that holds the published tree of id.
func storageOf(fs *vos.FS, id string) string {
	t, _ := resolve(fs, mdir+"/"+id)
	if i := strings.LastIndexByte(t, '/'); i > 0 {
		return t[:i]
	}
	return t
}

func init() {
	register("M03", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "upstream", Doc: "any two (three) files, Release files included, answered corrupted, truncated, extended, swapped or stale; what is published is checked against the published indices by an independent reader",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: m03upstream,
		},
		&explore.Scenario{
			Name: "sums", Doc: "every subset of checksum kinds in Release and Packages x one changed file",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Run: m03sums,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "one bad file under every interleaving within the bound",
			Quick: explore.Bounds{Fault: 1, Sched: 1, Total: 2}, Deep: explore.Bounds{Fault: 2, Sched: 2, Total: 3}, Mask: netMask, Weight: 2, Run: m03schedule,
		},
		&explore.Scenario{
			Name: "sequence", Doc: "three runs against changing versions with one bad file in each of the first two, so that stored and reused data mixes",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Deep: explore.Bounds{Fault: 3, Total: 3}, Mask: vsched.CatUser, Weight: 2, Run: m03sequence,
		},
		&explore.Scenario{
			Name: "overlap", Doc: "a file declared twice (in two stanzas, indices or suites, or by two Release files) x every subset of checksum kinds in both declarations x equal content, other content of the same size, other size x what the upstream serves x fresh or reused",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: m03overlap,
		},
		&explore.Scenario{
			Name: "damaged", Doc: "Packages and Sources files, plain and compressed, damaged in every listed way but with right checksums, first run and update: nothing is missing if the run succeeds, nothing changed if it fails",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: damagedIndex,
		},
	)
}

var corruptModes = []string{"", "corrupt", "short", "cut", "longer", "swap", "stale", "404"}

func judge03(x *explore.X, k *mkit, sp *mspec, id string) {
	if t := k.tree(id); t != nil {
		if m := verifyTree(t, sp); m != "" {
			x.Failf("unverified", "the published mirror contains data its indices do not vouch for: %s", m)
		}
	}
}

func m03upstream(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	k := newMkit(x, 2, smallSpec)
	k.relFaults = true
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.pathFaults(corruptModes, x.Flag("by-hash names good"), one("m", v1))
		err := k.run()
		judge03(x, k, smallSpec, "m")
		x.Outcome("err=%v", short(err))
	})
}

func subset(all []string, mask int) []string {
	r := []string{}
	for i, s := range all {
		if mask&(1<<i) != 0 {
			r = append(r, s)
		}
	}
	return r
}

func m03sums(x *explore.X) {
	rm := 1 + x.Free(7, "release sums")
	pm := 1 + x.Free(7, "packages sums")
	byhash := x.Flag("byhash")
	mk := func(ver string) *mver {
		key := memoKey{"sums" + string(rune('0'+rm)) + string(rune('0'+pm)), ver, byhash}
		if memo[key] == nil {
			r := small(ver, byhash)
			r.suites[0].sums = subset(allSums, rm)
			r.suites[0].indices[0].sums = subset([]string{"MD5sum", "SHA1", "SHA256"}, pm)
			memo[key] = newVer(smallSpec, r)
		}
		return memo[key]
	}
	v1, v2 := mk("1"), mk("2")
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.pathFaults([]string{"", "corrupt", "short", "longer", "swap"}, x.Flag("by-hash names good"), one("m", v1))
		err := k.run()
		judge03(x, k, smallSpec, "m")
		judge02(x, k, "m", err, v1, v2)
		x.Outcome("err=%v", short(err))
	})
}

func m03schedule(x *explore.X) {
	c := pickCase(x)
	v1, v2 := c.vers()
	w := worldFor(x, x.Sc.Mask)
	k := newMkit(x, 1+x.Free(2, "max_conns"), smallSpec)
	x.RunWorld(w, func() {
		prep(k, one("m", v1))
		k.cur = one("m", v2)
		k.pathFaults([]string{"", "corrupt", "swap", "cut"}, true, one("m", v1))
		err := k.run()
		judge03(x, k, smallSpec, "m")
		judge02(x, k, "m", err, v1, v2)
		x.Outcome("err=%v", short(err))
	})
}

func m03sequence(x *explore.X) {
	byhash := x.Flag("byhash")
	v := []*mver{smallVer("m", "1", byhash), smallVer("m", "2", byhash), smallVer("m", "1", byhash)}
	k := newMkit(x, 2, smallSpec)
	x.World(func() {
		for i := range v {
			k.cur = one("m", v[i])
			k.fault = nil
			if i < 2 {
				k.pathFaults([]string{"", "corrupt", "swap", "cut", "stale"}, true, one("m", v[(i+1)%2]))
			}
			err := k.run()
			judge03(x, k, smallSpec, "m")
			if i == 2 {
				if err != nil {
					x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
				} else if m := oneOf(k.tree("m"), trees(v[i])); m != "" {
					x.Failf("tree", "after the last run: %s", m)
				}
			}
			x.Outcome("%v", short(err))
			nextSecond()
		}
	})
}

// stanza declares a file in a Packages index.
func stanza(p, body string, sums []string) string {
	return string(packages([]ritem{{p, body}}, sums...))
}

func m03overlap(x *explore.X) {
	const f = "pool/x.deb"
	where := x.Free(4, "where")
	one1 := "one content"
	other := []string{one1, "oNe content", "other content"}[x.Free(3, "content declared second")]
	m1, m2 := 1+x.Free(7, "sums"), 1+x.Free(7, "second sums")
	served := []string{one1, other}[x.Free(2, "served")]
	byhash := x.Flag("byhash")
	had := x.Free(3, "published before: nothing, the first, the second")
	desc := x.Flag("map order")

	pkgSums := []string{"MD5sum", "SHA1", "SHA256"}
	decl := func(b string, m int) string { return stanza(f, b, subset(pkgSums, m)) }
	suite := func(dir string, ixs ...rindex) rsuite {
		return rsuite{dir: dir, names: []string{"Release"}, byhash: byhash, note: "n", indices: ixs}
	}
	ix := func(arch, text string) rindex {
		return rindex{rel: "main/binary-" + arch + "/Packages", raw: []byte(text)}
	}
	spec := &mspec{id: "m", suites: []string{"s"}, sections: []string{"main"}, archs: []string{"amd64"}}
	r := &rrepo{}
	name := f
	switch where {
	case 0:
		r.suites = []rsuite{suite("dists/s", ix("amd64", decl(one1, m1)+"\n"+decl(other, m2)))}
	case 1:
		r.suites = []rsuite{suite("dists/s", ix("amd64", decl(one1, m1)), ix("all", decl(other, m2)))}
	case 2:
		spec.suites = []string{"s", "t"}
		r.suites = []rsuite{suite("dists/s", ix("amd64", decl(one1, m1))), suite("dists/t", ix("amd64", decl(other, m2)))}
	case 3:
		name = "dists/s/main/i18n/Translation-en"
		r.suites = []rsuite{suite("dists/s")}
	}
	v := newVer(spec, r)
	v.files[f] = []byte(served)
	if where == 3 {
		v.files["dists/s/Release"] = releaseText(map[string][]byte{"main/i18n/Translation-en": []byte(one1 + "\n")}, subset(allSums, m1), "n", byhash)
		v.files["dists/s/InRelease"] = clearsign(releaseText(map[string][]byte{"main/i18n/Translation-en": []byte(other + "\n")}, subset(allSums, m2), "n", byhash))
		v.files[name] = []byte(served + "\n")
	}
	var before *mver
	if had > 0 && where < 3 {
		b := []string{one1, other}[had-1]
		before = newVer(spec, &rrepo{suites: []rsuite{suite("dists/s", rindex{rel: "main/binary-amd64/Packages", items: []ritem{{f, b}}})}})
		if where == 2 {
			before.files["dists/t/Release"] = before.files["dists/s/Release"]
			before.files["dists/t/main/binary-amd64/Packages"] = before.files["dists/s/main/binary-amd64/Packages"]
		}
	}
	k := newMkit(x, 2, spec)
	x.RunWorld(&vsched.World{Mask: x.Sc.Mask, MapDesc: desc}, func() {
		if before != nil {
			k.cur = one("m", before)
			if err := k.run(); err != nil {
				x.Failf("setup", "%v", err)
				return
			}
			nextSecond()
		}
		old := k.tree("m")
		k.cur = one("m", v)
		err := k.run()
		t := k.tree("m")
		if err != nil {
			if !sameTree(t, old) {
				x.Failf("changed", "the run failed (%v) but the published mirror changed: %s", err, diffTree(t, old))
			}
			if one1 == other {
				x.Failf("run-failed", "the declarations agree, but: %v", err)
			}
			x.Outcome("failed")
			return
		}
		got, ok := t[name]
		if !ok {
			x.Failf("missing", "the run reports success, but %s is missing", name)
			return
		}
		for i, want := range []string{one1, other} {
			sums := subset(allSums, []int{m1, m2}[i])
			if where == 3 {
				want += "\n"
			}
			bad := len(want) != len(got)
			for _, s := range sums {
				bad = bad || hexsum(s, []byte(want)) != hexsum(s, []byte(got))
			}
			if bad && !(where == 3 && byhash) {
				x.Failf("unverified", "%s is published with content that declaration %d (%v) does not allow", name, i+1, sums)
			}
		}
		x.Outcome("published")
	})
}

var _ = time.Second
var _ vhttp.Reply
