package props

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"time"

	"vmc/explore"
	"vmc/vhttp"
	"vmc/vos"
	"vmc/vsched"
)

func init() {
	register("C07", "model_checking", cacherAssume,
		&explore.Scenario{
			Name: "crash", Doc: "every process crash and power loss image (everything, each one, all but one, every suffix of the unsynced operations lost; torn writes) of histories with first downloads, updates, refreshes, evictions, restarts with a smaller capacity; the cacher is started on each without and with upstream",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: 2000000, Weight: 4, Run: func(x *explore.X) { c07crash(x, 1) },
		},
		&explore.Scenario{
			Name: "crash2", Doc: "as crash, also every pair of lost operations", Thorough: true,
			Mask: vsched.CatUser, MaxStep: 4000000, Weight: 4, Run: func(x *explore.X) { c07crash(x, 2) },
		},
		&explore.Scenario{
			Name: "malformed", Doc: "as crash (process crashes and losses of everything unsynced) when the upstream serves malformed indices of every kind",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, MaxStep: 2000000, Weight: 3, Run: c07malformed,
		},
		&explore.Scenario{
			Name: "double", Doc: "SIGKILL at any file system operation or request, restart, SIGKILL again at any",
			Quick: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, MaxStep: 2000000, Weight: 2, Run: c07double,
		},
		&explore.Scenario{
			Name: "kill-schedule", Doc: "two clients and the refresh, SIGKILL at any operation under every interleaving within the bound",
			Quick: explore.Bounds{Fault: 1, Sched: 1, Total: 2}, Deep: explore.Bounds{Fault: 1, Sched: 2, Total: 3}, Mask: cMask, MaxStep: 2000000, Weight: 2, NoPrio: true, Run: c07schedule,
		},
		&explore.Scenario{
			Name: "faulty", Doc: "any one failing file system operation or bad answer, then a process crash or power loss",
			Quick: explore.Bounds{Fault: 1, Total: 1}, Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, MaxStep: 2000000, Weight: 2, Run: c07faulty,
		},
	)
}

// c07repo has items of different sizes that do not fit into the cache together.
func c07repo(ver string, names ...string) *cver {
	key := "c07" + ver + strings.Join(names, ",")
	if cvers[key] == nil {
		r := crepo(ver, names...)
		b := func(c string, n int) string { return strings.Repeat(c, n) }
		r.suites[0].indices[0].items = []ritem{it("pool/a.deb", "a"+b(ver, 19)), it("pool/b.deb", b("b", 30)), it("pool/c.deb", "c"+b(ver, 38))}
		cvers[key] = newCver(r)
	}
	return cvers[key]
}

// c07judge has what is needed to judge what is served after a crash.
type c07judge struct {
	x    *explore.X
	k    *ckit
	vers []*cver
	when string
}

func (j *c07judge) version(p, body string) *cver {
	for _, v := range j.vers {
		if b, ok := v.files[p]; ok && string(b) == body {
			return v
		}
	}
	return nil
}

// wanted returns the contents that the cached indices allow per path; paths
// that no current index lists are missing.
func (j *c07judge) wanted() map[string][]string {
	cached := map[string]string{}
	for p, b := range j.k.disk(cmeta) {
		cached[strings.TrimPrefix(p, "u/")] = b
	}
	w := map[string][]string{}
	add := func(p string) {
		v := j.version(p, cached[p])
		if v == nil {
			j.x.Failf("garbage", "after %s the cached index %s is %q, no version of it", j.when, p, clip(cached[p]))
			return
		}
		for _, l := range v.lists[p] {
			if b, ok := v.files[l]; ok {
				w[l] = append(w[l], string(b))
			}
		}
	}
	ps := sortedKeys(cached)
	for _, p := range ps {
		if isRelease(p) && !strings.HasSuffix(p, ".gpg") {
			add(p)
		}
	}
	rel := map[string][]string{}
	for p, l := range w {
		rel[p] = l
	}
	for _, p := range ps {
		if isRelease(p) {
			continue
		}
		ok := len(rel[p]) == 0
		for _, b := range rel[p] {
			ok = ok || b == cached[p]
		}
		if ok {
			add(p)
		}
	}
	return w
}

// complete checks that r is allowed.
func (j *c07judge) complete(r *cresp, w map[string][]string) {
	if r.status != 200 || j.x.Failed() {
		return
	}
	p := strings.TrimPrefix(r.path, "/u/")
	p = strings.TrimPrefix(p, "u/")
	if j.version(p, r.body) == nil {
		j.x.Failf("garbage", "after %s: %s is no complete body the upstream ever sent", j.when, r)
		return
	}
	if l, ok := w[p]; ok {
		for _, b := range l {
			if b == r.body {
				return
			}
		}
		j.x.Failf("contradiction", "after %s: %s, but the cached indices list another content", j.when, r)
	}
}

func (j *c07judge) paths() []string {
	m := map[string]bool{}
	for _, v := range j.vers {
		for p := range v.files {
			m[p] = true
		}
	}
	// items first, Release files last
	rank := func(p string) int {
		switch {
		case isRelease(p):
			return 2
		case strings.Contains(path.Base(p), "Packages"), strings.Contains(path.Base(p), "Sources"):
			return 1
		}
		return 0
	}
	var l []string
	for p := range m {
		l = append(l, p)
	}
	sort.Slice(l, func(a, b int) bool {
		if rank(l[a]) != rank(l[b]) {
			return rank(l[a]) < rank(l[b])
		}
		return l[a] < l[b]
	})
	return l
}

// recover starts the cacher on fs, without upstream, then with one that
// serves version last; healthy tells whether that is a flawless version.
func (j *c07judge) recover(fs *vos.FS, last *cver, healthy bool) {
	k, x := j.k, j.x
	old := k.fault
	defer func() { k.fault = old }()
	k.use(fs.Clone())
	w := j.wanted()
	served := map[string]string{}
	for p, b := range k.disk(ccache) {
		served[strings.TrimPrefix(p, "u/")] = b
	}
	if x.Failed() {
		return
	}
	k.fault = func(p string, r *vhttp.Request, rep *vhttp.Reply) { rep.Status = 0 }
	if err := k.start(); err != nil {
		x.Failf("start", "after %s the cacher does not start: %v", j.when, err)
		return
	}
	for _, p := range j.paths() {
		if x.Failed() {
			return
		}
		j.complete(k.get("u/"+p), w)
	}
	k.stop()
	if x.Failed() {
		return
	}
	k.use(fs)
	k.fault = nil
	k.publish("u", last.files)
	if err := k.start(); err != nil {
		x.Failf("start", "after %s the cacher does not start: %v", j.when, err)
		return
	}
	for _, p := range j.paths() {
		if x.Failed() {
			return
		}
		if isRelease(p) {
			break
		}
		// indices are served before the items that they may change
		r := k.get("u/" + p)
		j.complete(r, w)
		if r.status == 200 && last.lists[p] != nil {
			break
		}
	}
	for _, p := range j.paths() {
		if isRelease(p) && !x.Failed() {
			j.complete(k.get("u/"+p), nil)
		}
	}
	if x.Failed() {
		return
	}
	vsched.Sleep(11 * time.Second)
	for i := len(j.paths()) - 1; i >= 0 && !x.Failed(); i-- {
		p := j.paths()[i]
		want, ok := last.files[p]
		if !ok {
			continue
		}
		r := k.get("u/" + p)
		if healthy && (r.status != 200 || r.body != string(want)) {
			x.Failf("not-updated", "after %s: %s from a healthy upstream", j.when, r)
		}
		j.complete(r, nil)
	}
	k.stop()
}

var c07names = [][]string{{"Release", "Release.gpg"}, {"InRelease"}}

// c07history performs a history; the process may be killed at any time, it is
// continued by a new one.
func c07history(k *ckit, kind int, vers []*cver, names []string) bool {
	get := func(ps ...string) {
		for _, p := range ps {
			if k.p.Exited || k.h == nil {
				return
			}
			k.wait(patience, k.send("GET", "u/"+p))
		}
	}
	rel := "dists/s/" + names[0]
	k.publish("u", vers[0].files)
	if err := k.start(); err != nil {
		return false
	}
	get(rel, cPkg, "pool/a.deb")
	if kind == 0 {
		return true
	}
	get("pool/b.deb", "pool/c.deb", cPkg+".gz")
	k.publish("u", vers[1].files)
	vsched.Sleep(11 * time.Second)
	get("pool/a.deb", cPkg, "pool/c.deb", "pool/a.deb")
	if kind == 1 {
		return true
	}
	k.stop()
	k.cfg.CacheCapacity = 1
	if err := k.start(); err != nil {
		return false
	}
	get(rel, cPkg, "pool/b.deb")
	return true
}

func newC07(x *explore.X, kind int) *ckit {
	k := newCkit(x)
	k.cfg.CheckInterval = 10
	k.cfg.CachePeriod = 3
	k.cfg.CacheCapacity = 1
	if kind == 2 {
		k.cfg.CacheCapacity = 2
	}
	return k
}

func c07crash(x *explore.X, level int) {
	kind := x.Free(3, "history")
	names := c07names[x.Free(2, "Release file")]
	shard := x.Free(shards, "image shard")
	newer := x.Flag("upstream moved on")
	k := newC07(x, kind)
	vers := []*cver{c07repo("1", names...), c07repo("2", names...), c07repo("3", names...)}
	x.World(func() {
		x.Freeze(true)
		base := k.fs.Clone()
		k.fs.Log = nil
		if !c07history(k, kind, vers, names) {
			x.Failf("start", "the cacher does not start")
			return
		}
		k.stop()
		log := k.fs.Log
		live := k.fs
		last := vers[1]
		if kind == 0 {
			last = vers[0]
		}
		if newer {
			last = vers[2]
		}
		j := &c07judge{x: x, k: k, vers: vers}
		n := forImages(x, base, log, level, shard, func(im vos.Image, fs *vos.FS) {
			j.when = im.Describe(log)
			j.recover(fs, last, true)
		})
		k.use(live)
		x.Outcome("images %d ops %d", n, len(log))
	})
}

// mangled makes a version with a broken index; names are the Release files.
func mangled(kind int, ver string, names []string) (*cver, string) {
	good := c07repo(ver, names...)
	v := &cver{files: map[string][]byte{}, lists: map[string][]string{}}
	for p, b := range good.files {
		v.files[p] = b
	}
	for p, l := range good.lists {
		v.lists[p] = l
	}
	pk := string(good.files[cPkg])
	desc := ""
	set := func(p, what string, b []byte) {
		desc = p + " " + what
		v.files[p] = b
		v.lists[p] = nil
	}
	long := strings.Repeat("x", 70000)
	pkgs := []struct {
		what string
		b    string
	}{
		{"empty", ""}, {"garbage", "garbage\n\x00\xff"}, {"no colon", "Package\n" + pk}, {"bad size", strings.Replace(pk, "Size: ", "Size: x", 1)},
		{"negative size", strings.Replace(pk, "Size: ", "Size: -", 1)}, {"no size", strings.Replace(pk, "Size: ", "Sise: ", 1)},
		{"no file name", strings.Replace(pk, "Filename: ", "Name: ", 1)}, {"bad sum", strings.Replace(pk, "MD5sum: ", "MD5sum: zz", 1)},
		{"odd sum", strings.Replace(pk, "SHA1: ", "SHA1: a", 1)}, {"long line", "Package: " + long + "\n" + pk}, {"cut", pk[:len(pk)-30]},
		{"leading continuation", " x\n" + pk}, {"absolute name", strings.Replace(pk, "Filename: ", "Filename: /", 1)},
		{"leaving name", strings.Replace(pk, "Filename: ", "Filename: ../../../", 1)}, {"empty name", strings.Replace(pk, "pool/a.deb", "", 1)},
		{"directory name", strings.Replace(pk, "pool/a.deb", ".", 1)}, {"binary", "\x1f\x8b\x08"},
	}
	if kind < len(pkgs) {
		set(cPkg, pkgs[kind].what, []byte(pkgs[kind].b))
	} else {
		kind -= len(pkgs)
		z := string(good.files[cPkg+".gz"])
		gzs := []struct {
			what string
			b    string
		}{
			{"empty", ""}, {"not compressed", pk}, {"cut", z[:len(z)-5]}, {"only a header", z[:12]}, {"trailing data", z + "junk"},
			{"broken", z[:20] + "\xff\xff" + z[22:]}, {"broken content", string(gz([]byte("garbage")))},
		}
		if kind < len(gzs) {
			set(cPkg+".gz", gzs[kind].what, []byte(gzs[kind].b))
		} else {
			kind -= len(gzs)
			r := string(releaseText(map[string][]byte{"main/binary-amd64/Packages": good.files[cPkg], "main/binary-amd64/Packages.gz": good.files[cPkg+".gz"]}, allSums, "version "+ver, false))
			rels := []struct {
				what string
				b    string
			}{
				{"empty", ""}, {"garbage", "garbage\n"}, {"bad sum", strings.Replace(r, "SHA1:\n ", "SHA1:\n zz", 1)}, {"two fields", strings.Replace(r, "SHA256:\n ", "SHA256:\n abc 1\n ", 1)},
				{"bad size", strings.Replace(r, " main", "x main", 1)}, {"cut", r[:len(r)-60]}, {"long line", r + "X: " + long + "\n"},
				{"leaving name", strings.Replace(r, " main/", " ../../../../main/", 1)}, {"absolute name", strings.Replace(r, " main/", " /main/", 1)},
				{"conflicting", strings.Replace(r, "SHA1:\n ", "SHA1:\n a", 1)},
			}
			if kind >= len(rels) {
				return nil, ""
			}
			b := rels[kind].b
			if names[0] == "InRelease" {
				b = string(clearsign([]byte(b)))
			}
			set("dists/s/"+names[0], rels[kind].what, []byte(b))
			return v, desc
		}
	}
	// the Release file lists what is served
	r := releaseText(map[string][]byte{"main/binary-amd64/Packages": v.files[cPkg], "main/binary-amd64/Packages.gz": v.files[cPkg+".gz"]}, allSums, "version "+ver, false)
	if names[0] == "InRelease" {
		r = clearsign(r)
	}
	v.files["dists/s/"+names[0]] = r
	return v, desc
}

func c07malformed(x *explore.X) {
	names := c07names[x.Free(2, "Release file")]
	total := 0
	for {
		if v, _ := mangled(total, "1", names); v == nil {
			break
		}
		total++
	}
	kind := x.Free(total, "kind")
	when := x.Free(3, "malformed version") // 1st, 2nd, both
	k := newC07(x, 1)
	bad := [2]bool{when != 1, when != 0}
	var vers []*cver
	desc := ""
	for i, b := range bad {
		v := c07repo(fmt.Sprint(i+1), names...)
		if b {
			v, desc = mangled(kind, fmt.Sprint(i+1), names)
		}
		vers = append(vers, v)
	}
	vers = append(vers, c07repo("3", names...))
	level := vos.Lite
	if x.Deep {
		level = 1
	}
	x.World(func() {
		x.Freeze(true)
		base := k.fs.Clone()
		k.fs.Log = nil
		if !c07history(k, 1, vers, names) {
			x.Failf("start", "the cacher does not start (%s)", desc)
			return
		}
		if k.p.Exited {
			x.Failf("exit", "the program ends with %s", desc)
			return
		}
		k.get("u/" + cPkg + ".gz")
		k.stop()
		log := k.fs.Log
		live := k.fs
		last, healthy := vers[1], !bad[1]
		if x.Flag("upstream moved on") {
			last, healthy = vers[2], true
		}
		j := &c07judge{x: x, k: k, vers: vers}
		n := 0
		for s := 0; s < shards && !x.Failed(); s++ {
			n += forImages(x, base, log, level, s, func(im vos.Image, fs *vos.FS) {
				j.when = desc + ", " + im.Describe(log)
				j.recover(fs, last, healthy)
			})
		}
		k.use(live)
		x.Outcome("images %d ops %d", n, len(log))
	})
}

// killer makes any one operation of the program its last one.
func (k *ckit) killer() *string {
	where := ""
	last := -1
	at := func(what string) {
		if where != "" || len(k.fs.Log) == last {
			return
		}
		last = len(k.fs.Log)
		if vsched.CurProc() == k.p && k.x.Fault(2, "SIGKILL before "+what) == 1 {
			where = what
			vos.Exit(137)
		}
	}
	k.fs.Fault = func(op, q string) error { at(op + " " + q); return nil }
	k.fault = func(q string, r *vhttp.Request, rep *vhttp.Reply) { at("request " + q) }
	return &where
}

func c07double(x *explore.X) {
	names := c07names[x.Free(2, "Release file")]
	k := newC07(x, 2)
	vers := []*cver{c07repo("1", names...), c07repo("2", names...), c07repo("3", names...)}
	x.World(func() {
		w1 := k.killer()
		c07history(k, 1, vers, names)
		k.stop()
		k.cfg.CacheCapacity = 1
		w2 := k.killer()
		k.publish("u", vers[2].files)
		if k.start() == nil {
			for _, p := range []string{"dists/s/" + names[0], cPkg, "pool/a.deb", "pool/c.deb"} {
				if k.p.Exited {
					break
				}
				k.wait(patience, k.send("GET", "u/"+p))
			}
		}
		k.stop()
		k.fs.Fault, k.fault = nil, nil
		x.Freeze(true)
		j := &c07judge{x: x, k: k, vers: vers, when: fmt.Sprintf("SIGKILL before %q and again before %q", *w1, *w2)}
		j.recover(k.fs, vers[2], true)
		x.Outcome("%v %v", *w1 != "", *w2 != "")
	})
}

func c07schedule(x *explore.X) {
	names := c07names[0]
	k := newC07(x, 1)
	vers := []*cver{c07repo("1", names...), c07repo("2", names...), c07repo("3", names...)}
	progs := [][]string{{cPkg, "pool/a.deb"}, {"pool/c.deb"}, {cRel, cPkg}, {"pool/b.deb", "pool/a.deb"}}
	pair := [][2]int{{0, 1}, {2, 3}, {0, 3}}[x.Free(3, "clients")]
	x.World(func() {
		x.Freeze(true)
		k.publish("u", vers[0].files)
		if !k.mustStart() {
			return
		}
		k.get("u/" + cRel)
		k.get("u/" + cPkg)
		k.get("u/pool/b.deb")
		k.publish("u", vers[1].files)
		if t := 10*time.Second - x.W.Since(); t > 0 {
			vsched.Sleep(t)
		}
		w := k.killer()
		x.Freeze(false)
		var gs []*vsched.G
		for _, c := range pair {
			c := c
			gs = append(gs, vsched.GoIn(x.W.Env, "clients", func() {
				for _, p := range progs[c] {
					if !k.p.Exited {
						k.wait(time.Minute, k.send("GET", "u/"+p))
					}
				}
			}))
		}
		vsched.Join(gs...)
		x.Freeze(true)
		k.stop()
		k.fs.Fault, k.fault = nil, nil
		j := &c07judge{x: x, k: k, vers: vers, when: fmt.Sprintf("SIGKILL before %q", *w)}
		j.recover(k.fs, vers[2], true)
		x.Outcome("%v", *w != "")
	})
}

func c07faulty(x *explore.X) {
	names := c07names[x.Free(2, "Release file")]
	k := newC07(x, 1)
	vers := []*cver{c07repo("1", names...), c07repo("2", names...), c07repo("3", names...)}
	x.World(func() {
		base := k.fs.Clone()
		k.fs.Log = nil
		n := 0
		k.fs.Fault = nil
		k.publish("u", vers[0].files)
		if !k.mustStart() {
			return
		}
		k.spoilAny(func() map[string][]byte { return vers[0].files })
		k.fsFault()
		rel := "dists/s/" + names[0]
		for _, p := range []string{rel, cPkg, "pool/a.deb"} {
			k.wait(patience, k.send("GET", "u/"+p))
		}
		k.publish("u", vers[1].files)
		vsched.Sleep(11 * time.Second)
		for _, p := range []string{"pool/a.deb", cPkg, "pool/c.deb", "pool/a.deb"} {
			k.wait(patience, k.send("GET", "u/"+p))
		}
		if k.p.Exited {
			x.Failf("exit", "the program exits with status %d", k.p.ExitCode)
			return
		}
		k.fs.Fault, k.fault = nil, nil
		k.stop()
		x.Freeze(true)
		log := k.fs.Log
		live := k.fs
		j := &c07judge{x: x, k: k, vers: vers}
		for _, im := range vos.ImagesAt(log, len(log), 1) {
			fs := vos.Build(base, log, im)
			j.when = "a failure and " + im.Describe(log)
			if key := fmt.Sprintf("c07 %v %x", names, fs.Hash()); !verified08[key] {
				j.recover(fs, vers[1], true)
				if !x.Failed() {
					verified08[key] = true
				}
				n++
			}
			x.Step()
			if x.Failed() {
				break
			}
		}
		k.use(live)
		x.Outcome("images %v", n > 0)
	})
}
