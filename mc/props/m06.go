package props

import (
	"fmt"
	"sort"
	"strings"
	"syscall"

	"vmc/explore"
	"vmc/vos"
	"vmc/vsched"
)

func init() {
	register("M06", "model_checking", mirrorAssume,
		&explore.Scenario{
			Name: "leftovers", Doc: "every combination of leftovers (abandoned directories, plain files, live, stale and dangling temporary links, links to elsewhere, other links to the published version, mirrors not configured or not updated, mirror directory reached through a link) x outcome of the run",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Weight: 2, Run: m06leftovers,
		},
		&explore.Scenario{
			Name: "histories", Doc: "every history of 4 (5) runs over two mirrors (one, the other or both updated, one failing, killed before a switch or a removal, one leaving and joining the configuration): everything published is intact, nothing else is left",
			Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: m06histories,
		},
		&explore.Scenario{
			Name: "faults", Doc: "any one (two) failing file system operations or bad files during run and garbage collection", Quick: explore.Bounds{Fault: 1, Total: 1},
			Deep: explore.Bounds{Fault: 2, Total: 2}, Mask: vsched.CatUser, Run: m06faults,
		},
		&explore.Scenario{
			Name: "signal", Doc: "SIGTERM at any operation of a run with leftovers", Quick: explore.Bounds{Fault: 1, Total: 1}, Mask: vsched.CatUser, Run: m06signal,
		},
		&explore.Scenario{
			Name: "crash", Doc: "every crash image of a run with leftovers: live data and foreign data intact", Quick: explore.Bounds{}, Mask: vsched.CatUser, Run: m06crash,
		},
		&explore.Scenario{
			Name: "schedule", Doc: "two mirrors, one failing, under every interleaving within the bound: garbage collection against running downloads", Quick: explore.Bounds{Sched: 1, Fault: 1, Total: 2},
			Deep: explore.Bounds{Sched: 2, Fault: 1, Total: 3}, Mask: vsched.CatHTTP | vsched.CatFS | vsched.CatGo | vsched.CatUser, Weight: 3, Run: m06schedule,
		},
		&explore.Scenario{
			Name: "early-failure", Doc: "a run that fails on its first answer while other downloads are running: garbage collection against downloads", Quick: explore.Bounds{Sched: 3, Total: 3},
			Deep: explore.Bounds{Sched: 4, Total: 4}, Mask: vsched.CatHTTP | vsched.CatFS | vsched.CatGo | vsched.CatUser, Weight: 2, Run: m06early,
		},
	)
}

const nspecID = "n"

var specN = &mspec{id: nspecID, suites: []string{"s"}, sections: []string{"main"}, archs: []string{"amd64"}}

func verN(ver string) *mver {
	k := memoKey{"n", ver, true}
	if memo[k] == nil {
		memo[k] = newVer(specN, small("n"+ver, true))
	}
	return memo[k]
}

// sentinel files outside of the mirror directory
func putSentinels(fs *vos.FS) {
	fs.Put("/srv/other/keep", []byte("keep"))
	fs.Put("/srv/other/sub/keep", []byte("keep"))
	fs.Put("/etc/passwd", []byte("root"))
	fs.Put("/srv/mirror2/x", []byte("x"))
	fs.PutDir("/srv/empty")
}

// outside renders everything but the mirror directory.
func outside(fs *vos.FS) string {
	var l []string
	var rec func(p string)
	rec = func(p string) {
		n := fs.Node(p, false)
		if p == mdir && n != nil && n.IsDir() {
			return
		}
		switch {
		case n.IsDir():
			l = append(l, p+"/ "+n.Mode.String())
			for _, e := range n.Names() {
				rec(strings.TrimSuffix(p, "/") + "/" + e)
			}
		case n.IsLink():
			l = append(l, p+" -> "+n.Target())
		default:
			l = append(l, p+" "+n.Mode.String()+" "+string(n.Bytes()))
		}
	}
	rec("/")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func diffLines(a, b string) string {
	am := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		am[l] = true
	}
	var r []string
	for _, l := range strings.Split(b, "\n") {
		if !am[l] {
			r = append(r, "+"+l)
		}
		delete(am, l)
	}
	for l := range am {
		r = append(r, "-"+l)
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

// m06world sets up mirrors m and n (published), an unconfigured one and
// leftovers; it returns what must be kept.
type m06state struct {
	links map[string]map[string]string // public name -> tree that must stay
	out   string
	gone  []string // entries that must be gone afterwards
}

const (
	loOldDir = 1 << iota
	loHardlinks
	loTmpLive
	loTmpDangling
	loFile
	loElsewhere
	loUnconfigured
	loLinkIn
	loAlias
)

func m06setup(k *mkit, lo int) *m06state {
	st := &m06state{links: map[string]map[string]string{}}
	fs := k.fs
	putSentinels(fs)
	if lo&loUnconfigured != 0 {
		fs.Put(mdir+"/.old.20000101_010101/old/f", []byte("f"))
		fs.Put(mdir+"/.old.20000101_010101/info.json", []byte("{}"))
		fs.PutLink(mdir+"/old", mdir+"/.old.20000101_010101/old")
		st.links["old"] = map[string]string{"f": "f"}
	}
	if lo&loOldDir != 0 {
		fs.Put(mdir+"/.m.19990101_000000/m/pool/x", []byte("x"))
		fs.Put(mdir+"/.m.19990101_000000/_tmp123", []byte("x"))
		fs.PutDir(mdir + "/.n.19990101_000000")
		st.gone = append(st.gone, ".m.19990101_000000", ".n.19990101_000000")
	}
	if lo&loHardlinks != 0 {
		// an abandoned update holds hard links to live files
		fs.PutDir(mdir + "/.m.19990101_000001/m")
		t, _ := resolve(fs, mdir+"/m")
		for p := range k.tree("m") {
			if strings.HasPrefix(p, "pool/") {
				vos.Link(t+"/"+p, mdir+"/.m.19990101_000001/m/x"+strings.ReplaceAll(p, "/", "_"))
			}
		}
		st.gone = append(st.gone, ".m.19990101_000001")
	}
	if lo&loTmpLive != 0 {
		fs.Put(mdir+"/.n.19990101_000002/n/pool/x", []byte("x"))
		fs.PutLink(mdir+"/n.tmp", mdir+"/.n.19990101_000002/n")
	}
	if lo&loTmpDangling != 0 {
		fs.PutLink(mdir+"/x.tmp", mdir+"/.x.19990101_000002/x")
	}
	if lo&loFile != 0 {
		fs.Put(mdir+"/stray", []byte("stray"))
		fs.PutDir(mdir + "/straydir/sub")
	}
	if lo&loElsewhere != 0 {
		fs.PutLink(mdir+"/ext", "/srv/other/sub")
	}
	if lo&loLinkIn != 0 {
		// links inside an abandoned directory lead outside
		fs.PutLink(mdir+"/.m.19990101_000003/m/esc", "/srv/other")
		fs.PutLink(mdir+"/.m.19990101_000003/esc2", mdir+"/m")
		st.gone = append(st.gone, ".m.19990101_000003")
	}
	for _, id := range []string{"m", "n"} {
		st.links[id] = k.tree(id)
	}
	if lo&loAlias != 0 {
		// links of the administrator: to this version, and to the newest
		t, _ := resolve(fs, mdir+"/m")
		fs.PutLink(mdir+"/prev", t)
		fs.PutLink(mdir+"/latest", "m")
		st.links["prev"], st.links["latest"] = st.links["m"], st.links["m"]
	}
	st.out = outside(fs)
	return st
}

// check judges the directory. clean: garbage collection must have completed.
func (st *m06state) check(x *explore.X, k *mkit, alsoM map[string]string, clean bool, when string) {
	fs := k.fs
	for id, t := range st.links {
		if t == nil {
			continue
		}
		got := treeOf(fs, id)
		ok := sameTree(got, t)
		if !ok && (id == "m" || id == "latest") && alsoM != nil {
			ok = sameTree(got, alsoM)
		}
		if !ok {
			x.Failf("live-data", "%s: the tree of %s is damaged: %s", when, id, diffTree(got, t))
		}
	}
	if fs.Node(mdir+"/.lock", false) == nil {
		x.Failf("lock-removed", "%s: the lock file is gone", when)
	}
	if o := outside(fs); o != st.out {
		x.Failf("outside", "%s: something outside of the mirror directory changed: %s", when, diffLines(st.out, o))
	}
	if !clean {
		return
	}
	used := map[string]bool{}
	for _, e := range k.top() {
		n := fs.Node(mdir+"/"+e, false)
		if n.IsLink() {
			t := n.Target()
			if strings.HasPrefix(t, mdir+"/") {
				used[strings.SplitN(t[len(mdir)+1:], "/", 2)[0]] = true
			}
		}
	}
	for _, e := range k.top() {
		n := fs.Node(mdir+"/"+e, false)
		if n.IsDir() && !used[e] {
			x.Failf("garbage", "%s: directory %s is not used by any link and still there", when, e)
		}
	}
	for _, e := range st.gone {
		if fs.Node(mdir+"/"+e, false) != nil {
			x.Failf("garbage", "%s: %s is still there", when, e)
		}
	}
}

func m06kit(x *explore.X) *mkit {
	k := newMkit(x, 2, smallSpec, specN)
	return k
}

func m06prep(k *mkit) {
	prep(k, map[string]*mver{"m": smallVer("m", "1", false), "n": verN("1")})
	k.cur = map[string]*mver{"m": smallVer("m", "2", false), "n": verN("1")}
}

func m06leftovers(x *explore.X) {
	lo := x.Free(512, "leftovers")
	outcome := x.Free(4, "outcome")
	k := m06kit(x)
	x.World(func() {
		m06prep(k)
		x.Freeze(true)
		st := m06setup(k, lo)
		var want map[string]string
		ids := []string{"m"}
		switch outcome {
		case 0:
			want = k.cur["m"].want
		case 1: // item broken
			k.cur["m"].files["pool/m/a_2.deb"] = k.cur["m"].files["pool/m/a_2.deb"]
			k.fault = nil
			k.pathMode("pool/m/a_2.deb", "corrupt")
		case 2: // no Release
			k.pathMode("dists/s/Release", "refused")
		case 3: // both mirrors
			ids = nil
			want = k.cur["m"].want
		}
		err := k.run(ids...)
		if want != nil {
			if err != nil {
				x.Failf("run-failed", "a run against a healthy upstream failed with leftovers %s: %v", loNames(lo), err)
				return
			}
			st.links["m"] = want
			if st.links["latest"] != nil {
				st.links["latest"] = want
			}
		} else if err == nil {
			x.Failf("false-success", "the run must have failed")
		}
		st.check(x, k, nil, true, fmt.Sprintf("after a run (error %v) with leftovers %s", short(err), loNames(lo)))
		x.Outcome("%d entries err=%v", len(k.top()), short(err))
	})
}

func loNames(lo int) string {
	n := []string{"old dirs", "hard links", "live tmp link", "dangling tmp link", "stray files", "external link", "unconfigured mirror", "links inside"}
	var l []string
	for i, s := range n {
		if lo&(1<<i) != 0 {
			l = append(l, s)
		}
	}
	return "[" + strings.Join(l, ", ") + "]"
}

const loAll = loOldDir | loHardlinks | loTmpLive | loFile | loElsewhere | loUnconfigured | loLinkIn

func m06faults(x *explore.X) {
	k := m06kit(x)
	x.World(func() {
		m06prep(k)
		st := m06setup(k, loAll)
		k.fsFault("")
		k.pathFaults([]string{"", "corrupt", "403"}, false, nil)
		err := k.run("m")
		k.fs.Fault = nil
		st.check(x, k, k.cur["m"].want, false, "after the run")
		if err == nil {
			st.check(x, k, k.cur["m"].want, true, "after the successful run")
		}
		k.fault = nil
		nextSecond()
		// the next healthy run cleans up everything
		if err := k.run("m"); err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
			return
		}
		st.links["m"] = k.cur["m"].want
		st.check(x, k, nil, true, "after the next run")
		x.Outcome("err=%v", short(err))
	})
}

func m06signal(x *explore.X) {
	k := m06kit(x)
	x.World(func() {
		m06prep(k)
		st := m06setup(k, loAll)
		err, _ := k.runSignal("m")
		st.check(x, k, k.cur["m"].want, err == nil, "after the run")
		x.Freeze(true)
		nextSecond()
		if err := k.run("m"); err != nil {
			x.Failf("run-failed", "a run against a healthy upstream failed: %v", err)
			return
		}
		st.links["m"] = k.cur["m"].want
		st.check(x, k, nil, true, "after the next run")
		x.Outcome("err=%v", short(err))
	})
}

func m06crash(x *explore.X) {
	shard := x.Free(shards, "image shard")
	fail := x.Flag("failing run")
	k := m06kit(x)
	x.World(func() {
		m06prep(k)
		x.Freeze(true)
		st := m06setup(k, loAll)
		base := k.fs.Clone()
		k.fs.Log = nil
		if fail {
			k.pathMode("pool/m/a_2.deb", "corrupt")
		}
		k.run("m")
		log := k.fs.Log
		live := k.fs
		forImages(x, base, log, 1, shard, func(im vos.Image, fs *vos.FS) {
			k.fs = fs
			st.check(x, k, k.cur["m"].want, false, "after "+im.Describe(log))
		})
		k.fs = live
		x.Outcome("ops %d", len(log))
	})
}

// pathMode gives one file a bad mode.
func (k *mkit) pathMode(path, mode string) { k.idPathMode("m", path, mode) }

func m06schedule(x *explore.X) {
	k := m06kit(x)
	x.World(func() {
		m06prep(k)
		k.cur["n"] = verN("2")
		x.Freeze(true)
		st := m06setup(k, loOldDir)
		x.Freeze(false)
		st.links["n"] = nil
		old := verN("1").want
		k.pathFaults([]string{"", "corrupt", "403", "refused", "empty"}, false, nil)
		err := k.run()
		st.check(x, k, k.cur["m"].want, true, "after the run")
		if m := oneOf(k.tree("n"), []map[string]string{old, verN("2").want}); m != "" {
			x.Failf("live-data", "the tree of n is damaged: %s", m)
		}
		x.Outcome("err=%v", short(err))
	})
}

func m06early(x *explore.X) {
	k := newMkit(x, 3, smallSpec)
	x.World(func() {
		prep(k, one("m", smallVer("m", "1", false)))
		k.cur = one("m", smallVer("m", "2", false))
		x.Freeze(true)
		putSentinels(k.fs)
		st := &m06state{links: map[string]map[string]string{"m": k.tree("m")}, out: outside(k.fs)}
		x.Freeze(false)
		k.pathMode("dists/s/Release", "empty")
		err := k.run()
		if err == nil {
			x.Failf("false-success", "the run must have failed")
		}
		st.check(x, k, nil, true, fmt.Sprintf("after the failed run (%v)", err))
		x.Outcome("err=%v", short(err))
	})
}

var _ = syscall.EIO

// histories are sequences of runs over two mirrors.
var m06steps = []string{"m", "n", "both", "m fails", "n fails", "m fails alone", "killed before m or n is switched", "killed before something is removed", "n leaves or joins the configuration"}

func m06histories(x *explore.X) {
	depth := 4
	if x.Deep {
		depth = 5
	}
	var steps []int
	for i := 0; i < depth; i++ {
		steps = append(steps, x.Free(len(m06steps), "step"))
	}
	k := m06kit(x)
	w := &vsched.World{Mask: x.Sc.Mask, MapDesc: x.Flag("map order")}
	x.RunWorld(w, func() {
		x.Freeze(true)
		m06prep(k)
		st := &m06state{links: map[string]map[string]string{"m": k.tree("m"), "n": k.tree("n")}}
		putSentinels(k.fs)
		st.out = outside(k.fs)
		conf := k.cfg.Mirrors["n"]
		when := ""
		for i, s := range steps {
			ver := fmt.Sprint(i + 2)
			k.cur = map[string]*mver{"m": smallVer("m", ver, false), "n": verN(ver)}
			k.fault, k.fs.Fault = nil, nil
			when += ", " + m06steps[s]
			p := vsched.NewProc("run" + ver)
			var ids []string
			mOK, nOK := true, true
			kill := ""
			switch s {
			case 0:
				ids, nOK = []string{"m"}, false
			case 1:
				ids, mOK = []string{"n"}, false
			case 3, 5:
				k.idPathMode("m", "pool/m/a_"+ver+".deb", "corrupt")
				mOK = false
				if s == 5 {
					ids, nOK = []string{"m"}, false
				}
			case 4:
				k.idPathMode("n", "dists/s/Release", "refused")
				nOK = false
			case 6:
				kill = " rename "
			case 7:
				kill = " remove removeall "
			case 8:
				if _, ok := k.cfg.Mirrors["n"]; ok {
					delete(k.cfg.Mirrors, "n")
				} else {
					k.cfg.Mirrors["n"] = conf
				}
			}
			if _, ok := k.cfg.Mirrors["n"]; !ok {
				nOK = false
				if s == 1 {
					continue
				}
			}
			if kill != "" {
				k.fs.Fault = func(op, q string) error {
					if vsched.CurProc() == p && strings.Contains(kill, " "+op+" ") && (op != "rename" || strings.Count(q, "/") == 3) {
						vos.Exit(137)
					}
					return nil
				}
			}
			err := k.runIn(p, ids...)
			k.fs.Fault = nil
			if kill != "" {
				for id, v := range k.cur {
					if t := treeOf(k.fs, id); sameTree(t, v.want) {
						st.links[id] = t // this one was published
					}
				}
				st.check(x, k, nil, false, "after runs"+when)
			} else {
				if (err == nil) != (s != 3 && s != 5 && (s != 4 || k.cfg.Mirrors["n"] == nil)) {
					x.Failf("result", "runs%s: the last one ends with %v", when, err)
					return
				}
				for id, ok := range map[string]bool{"m": mOK, "n": nOK} {
					if t := treeOf(k.fs, id); ok && err == nil || err != nil && sameTree(t, k.cur[id].want) {
						st.links[id] = k.cur[id].want
					}
				}
				st.check(x, k, nil, true, "after runs"+when)
				st.unused(x, k, "after runs"+when)
			}
			if x.Failed() {
				return
			}
			nextSecond()
		}
		x.Outcome("%d entries", len(k.top()))
	})
}

// unused reports mirrored files that no public name leads to.
func (st *m06state) unused(x *explore.X, k *mkit, when string) {
	used := map[string]bool{}
	for _, e := range k.top() {
		if k.fs.Node(mdir+"/"+e, false).IsLink() {
			if t, err := resolve(k.fs, mdir+"/"+e); err == "" {
				used[t] = true
			}
		}
	}
	var rec func(p string)
	rec = func(p string) {
		n := k.fs.Node(p, false)
		switch {
		case used[p] || n.IsLink():
		case n.IsDir():
			for _, e := range n.Names() {
				rec(p + "/" + e)
			}
		case strings.Contains(p, "/dists/") || strings.Contains(p, "/pool/"):
			x.Failf("garbage", "%s: %s is not part of any published mirror and still there", when, p)
		}
	}
	rec(mdir)
}
